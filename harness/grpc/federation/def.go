package federation

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/google/cel-go/cel"
	celtypes "github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
	grpccodes "google.golang.org/grpc/codes"
	grpcstatus "google.golang.org/grpc/status"

	"github.com/mercari/grpc-federation/vx"
)

// One definition, all combinations of condition, kind of body, result of the
// body and result of the assignment.
func vxOneDef(eval func(context.Context, *vxValue, Def[int64, *vxValue]) error) {
	x := vx.Int64("x")
	cond := vx.Choose("cond", 4)     // none, true, false, error
	kind := vx.Choose("kind", 5)     // by, message, enum, validation, none
	result := vx.Choose("result", 4) // ok, error, status error, wrapped status error
	setErr := vx.Bool("setErr")

	bodyErr := error(nil)
	switch result {
	case 1:
		bodyErr = errVX
	case 2:
		bodyErr = grpcstatus.Error(grpccodes.NotFound, "vx: no such thing")
	case 3:
		bodyErr = fmt.Errorf("vx: wrapped: %w", grpcstatus.Error(grpccodes.NotFound, "vx: no such thing"))
	}
	body := 0
	run := func() (any, error) {
		body++
		if bodyErr != nil {
			return nil, bodyErr
		}
		return x, nil
	}
	var condProg cel.Program
	switch cond {
	case 1:
		condProg = vxConst(celtypes.True)
	case 2:
		condProg = vxConst(celtypes.False)
	default:
		condProg = vxErr(errVXIf)
	}
	byProg := &vxProgram{fn: func(context.Context, any) (ref.Val, error) {
		if _, err := run(); err != nil {
			return nil, err
		}
		return celtypes.Int(x), nil
	}}
	ctx := vxCtx(condProg, byProg)
	value := vxNewValue(ctx)
	value.vars.a = -1
	sets := 0
	def := Def[int64, *vxValue]{
		Name: "a", Type: cel.IntType, IfCacheIndex: 1, ByCacheIndex: 2,
		Setter: func(v *vxValue, x int64) error {
			sets++
			v.vars.a = x
			if setErr {
				return errVXSetter
			}
			return nil
		},
	}
	if cond != 0 {
		def.If = "cond"
	}
	switch kind {
	case 0:
		def.By = "expr"
	case 1:
		def.Message = func(context.Context, *vxValue) (any, error) { return run() }
	case 2:
		def.Enum = func(context.Context, *vxValue) (int64, error) {
			v, err := run()
			if err != nil {
				return 0, err
			}
			return v.(int64), nil
		}
	case 3:
		def.Validation = func(context.Context, *vxValue) error {
			_, err := run()
			return err
		}
	}
	nopts := len(value.getEnvOpts())
	err := eval(ctx, value, def)

	if cond == 3 {
		vx.Reach("conditionError")
		vx.Assert(errors.Is(err, errVXIf), "failure of the condition was lost")
		vx.Assert(body == 0, "body evaluated although the condition failed")
		return
	}
	want := x
	wantBody := 1
	if kind == 4 {
		wantBody = 0
	}
	if cond == 2 || kind >= 3 || bodyErr != nil {
		want = 0
	}
	if cond == 2 {
		vx.Reach("conditionFalse")
		wantBody = 0
	}
	vx.Assert(body == wantBody, "body not evaluated exactly when the condition holds")
	vx.Assert(sets == 1, "definition assigned other than once")
	vx.Assert(value.vars.a == want, "definition has the wrong value")
	got, ok := vxSeen(value, "a")
	vx.Assert(ok, "definition not visible to later expressions")
	vx.Assert(got == any(want), "later expressions see a value other than the definition's")
	vx.Assert(len(value.getEnvOpts()) == nopts+1, "definition not declared exactly once to later expressions")

	failed := wantBody == 1 && bodyErr != nil
	vx.Assert((err != nil) == (failed || setErr), "definition failed though nothing did, or the failure was lost")
	if failed {
		vx.Reach("bodyError")
		if kind == 3 && result == 1 {
			vx.Assert(strings.Contains(err.Error(), errVX.Error()), "validation failure lost its cause")
			if !setErr {
				vx.Assert(grpcstatus.Code(err) == grpccodes.Internal, "failing validation did not become an internal error")
			}
		} else {
			vx.Assert(errors.Is(err, bodyErr), "failure of the body was lost")
			if result >= 2 && !setErr {
				vx.Assert(grpcstatus.Code(err) == grpccodes.NotFound, "status code of the body's failure was lost")
			}
		}
	}
	if setErr {
		vx.Reach("setterError")
		vx.Assert(errors.Is(err, errVXSetter), "failure of the assignment was lost")
	}
	if err == nil {
		vx.Reach("ok")
	}
}

func VX_C03_Definition() {
	vx.MustReach("conditionError", "conditionFalse", "bodyError", "setterError", "ok")
	vxOneDef(EvalDef[int64, *vxValue])
}

func VX_C03_IgnoreAndResponse() {
	vx.MustReach("conditionError", "conditionFalse", "bodyError", "setterError", "ok")
	vxOneDef(IgnoreAndResponse[int64, *vxValue])
}

// The response expression of an ignored failure is evaluated every time and
// replaces the failed definition of the same name.
func VX_C03_IgnoreAndResponseReplaces() {
	vx.MustReach("done")
	ctx := vxCtx()
	value := vxNewValue(ctx)
	n := 0
	x := vx.Int64("x")
	err := EvalDef(ctx, value, vxDefA(&n, 0, errVX))
	vx.Assert(errors.Is(err, errVX), "failure lost")
	err = IgnoreAndResponse(ctx, value, vxDefA(&n, x, nil))
	vx.Assert(err == nil, "response failed")
	vx.Assert(n == 2 && value.vars.a == x, "response of the same name was not evaluated")
	got, ok := vxSeen(value, "a")
	vx.Assert(ok && got == any(x), "later expressions do not see the response")
	vx.Reach("done")
}

// A chain a -> b -> c of definitions: each sees the values before it and the
// message arguments; nothing else.
func VX_C03_Chain() {
	vx.MustReach("done")
	x := vx.Int64("x")
	var seenB, seenC []string
	keys := func(in any) []string {
		var ret []string
		for _, k := range []string{MessageArgumentVariableName, "a", "b", "c"} {
			if _, ok := in.(map[string]any)[k]; ok {
				ret = append(ret, k)
			}
		}
		return ret
	}
	pa := vxConst(celtypes.Int(x))
	pb := &vxProgram{fn: func(_ context.Context, in any) (ref.Val, error) {
		seenB = keys(in)
		return celtypes.Int(in.(map[string]any)["a"].(int64) + 1), nil
	}}
	pc := &vxProgram{fn: func(_ context.Context, in any) (ref.Val, error) {
		seenC = keys(in)
		m := in.(map[string]any)
		return celtypes.Int(m["a"].(int64) + m["b"].(int64)), nil
	}}
	ctx := vxCtx(pa, pb, pc)
	value := vxNewValue(ctx)
	mk := func(name string, idx int, p *int64) Def[int64, *vxValue] {
		return Def[int64, *vxValue]{
			Name: name, Type: cel.IntType, By: name, ByCacheIndex: idx,
			Setter: func(v *vxValue, x int64) error { *p = x; return nil },
		}
	}
	v := &value.vars
	err := EvalDef(ctx, value, mk("a", 1, &v.a))
	vx.Assert(err == nil, "a failed")
	err = EvalDef(ctx, value, mk("b", 2, &v.b))
	vx.Assert(err == nil, "b failed")
	err = EvalDef(ctx, value, mk("c", 3, &v.c))
	vx.Assert(err == nil, "c failed")
	vx.Assert(v.a == x && v.b == x+1 && v.c == x+x+1, "a definition did not see the values before it")
	vx.Assert(len(seenB) == 2 && len(seenC) == 3, "a definition saw values it should not, or missed some")
	vx.Reach("done")
}

// The conditional statement runs its body exactly when the expression is true.
func VX_C03_If() {
	vx.MustReach("true", "false", "error")
	cond := vx.Choose("cond", 3)
	bodyFails := vx.Bool("bodyFails")
	var p cel.Program
	switch cond {
	case 0:
		p = vxConst(celtypes.Bool(vx.Bool("unused") && false))
	case 1:
		p = vxConst(celtypes.True)
	default:
		p = vxErr(errVXIf)
	}
	ctx := vxCtx(p)
	value := vxNewValue(ctx)
	n := 0
	err := If(ctx, &IfParam[*vxValue]{Value: value, Expr: "cond", CacheIndex: 1, Body: func(v *vxValue) error {
		n++
		vx.Assert(v == value, "body received another value")
		if bodyFails {
			return errVX
		}
		return nil
	}})
	switch cond {
	case 0:
		vx.Reach("false")
		vx.Assert(n == 0 && err == nil, "body ran although the condition is false")
	case 1:
		vx.Reach("true")
		vx.Assert(n == 1, "body did not run although the condition is true")
		if bodyFails {
			vx.Assert(errors.Is(err, errVX), "failure of the body was lost")
		} else {
			vx.Assert(err == nil, "succeeding body reported a failure")
		}
	default:
		vx.Reach("error")
		vx.Assert(n == 0 && errors.Is(err, errVXIf), "failure of the condition was lost")
	}
}

// Service variables and environment are visible under their fixed names.
func VX_C03_EnvAndServiceVariables() {
	vx.MustReach("done")
	x, y := vx.Int64("x"), vx.Int64("y")
	ctx := vxCtx()
	value := vxNewValue(ctx)
	value.AddEnv(x)
	value.AddServiceVariable(y)
	n := 0
	vx.Assert(EvalDef(ctx, value, vxDefA(&n, x, nil)) == nil, "definition failed")
	e, ok1 := vxSeen(value, "grpc.federation.env")
	s, ok2 := vxSeen(value, "grpc.federation.var")
	vx.Assert(ok1 && e == any(x), "environment not visible")
	vx.Assert(ok2 && s == any(y), "service variable not visible")
	vx.Reach("done")
}

// SetCELValue hands the converted result to the setter exactly once.
func VX_C03_SetValue() {
	vx.MustReach("ok", "evalError", "setterError")
	x := vx.Int64("x")
	evalFails, setFails := vx.Bool("evalFails"), vx.Bool("setFails")
	var p cel.Program = vxConst(celtypes.Int(x))
	if evalFails {
		p = vxErr(errVX)
	}
	ctx := vxCtx(p)
	value := vxNewValue(ctx)
	n := 0
	var got int64
	for i := 1; i <= 2; i++ {
		n = 0
		err := SetCELValue(ctx, &SetCELValueParam[int64]{Value: value, Expr: "x", CacheIndex: 1, Setter: func(v int64) error {
			n++
			got = v
			if setFails {
				return errVXSetter
			}
			return nil
		}})
		switch {
		case evalFails:
			vx.Reach("evalError")
			vx.Assert(n == 0 && errors.Is(err, errVX), "failing expression set a value or lost its failure")
		case setFails:
			vx.Reach("setterError")
			vx.Assert(n == 1 && errors.Is(err, errVXSetter), "failure of the setter was lost")
		default:
			vx.Reach("ok")
			vx.Assert(n == 1 && err == nil && got == x, "value was not set as evaluated")
		}
	}
}
