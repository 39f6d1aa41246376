package federation

import (
	"context"
	"errors"
	"reflect"

	"github.com/google/cel-go/cel"
	celtypes "github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
)

type vxVars struct {
	a, b, c, d int64
	s          string
}

type vxValue struct {
	*LocalValue
	vars vxVars
}

func vxNewValue(ctx context.Context) *vxValue {
	return &vxValue{LocalValue: NewLocalValue(ctx, nil, "org.example.Arg", map[string]any{"id": "x"})}
}

// vxProgram stands in for a compiled CEL expression: its result is chosen by the harness.
type vxProgram struct {
	fn func(ctx context.Context, input any) (ref.Val, error)
	n  int
}

func (p *vxProgram) Eval(input any) (ref.Val, *cel.EvalDetails, error) {
	panic("Eval called")
}

func (p *vxProgram) ContextEval(ctx context.Context, input any) (ref.Val, *cel.EvalDetails, error) {
	p.n++
	v, err := p.fn(ctx, input)
	return v, nil, err
}

func vxConst(v ref.Val) *vxProgram {
	return &vxProgram{fn: func(context.Context, any) (ref.Val, error) { return v, nil }}
}

func vxErr(err error) *vxProgram {
	return &vxProgram{fn: func(context.Context, any) (ref.Val, error) { return nil, err }}
}

// vxCtx is a context whose CEL cache already holds the given programs at index 1, 2, ...
func vxCtx(progs ...cel.Program) context.Context {
	ctx := WithCELCacheMap(context.Background(), NewCELCacheMap())
	for i, p := range progs {
		setCELProgramCache(ctx, i+1, p)
	}
	return ctx
}

var errVX = errors.New("vx: injected failure")

var _ = reflect.TypeOf
var _ = celtypes.Int(0)

func vxDefA(n *int, ret int64, err error) Def[int64, *vxValue] {
	return Def[int64, *vxValue]{
		Name: "a", Type: cel.IntType,
		Setter: func(v *vxValue, x int64) error { v.vars.a = x; return nil },
		Message: func(ctx context.Context, v *vxValue) (any, error) {
			*n++
			if err != nil {
				return nil, err
			}
			return ret, nil
		},
	}
}

var (
	errVXSetter = errors.New("vx: setter failed")
	errVXIf     = errors.New("vx: condition failed")
)

// vxSeen evaluates a later expression and reports what it finds under name.
func vxSeen(value localValue, name string) (any, bool) {
	var (
		got any
		ok  bool
	)
	ctx := vxCtx(&vxProgram{fn: func(_ context.Context, in any) (ref.Val, error) {
		got, ok = in.(map[string]any)[name]
		return celtypes.Int(0), nil
	}})
	if _, err := EvalCEL(ctx, &EvalCELRequest{Value: value, Expr: name, OutType: reflect.TypeOf(int64(0)), CacheIndex: 1}); err != nil {
		return nil, false
	}
	return got, ok
}
