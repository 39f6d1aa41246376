package federation

import (
	"context"
	"errors"
	"reflect"
	"strings"

	"github.com/google/cel-go/cel"
	celtypes "github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
	"golang.org/x/sync/errgroup"
	grpccodes "google.golang.org/grpc/codes"
	grpcstatus "google.golang.org/grpc/status"

	"github.com/mercari/grpc-federation/vx"
)

// Two concurrent branches both depend on definition a.
func VX_C02_TwoBranches() {
	vx.MustReach("done")
	ctx := vxCtx()
	value := vxNewValue(ctx)
	n := 0
	x := vx.Int64("x")
	var eg errgroup.Group
	var got [2]int64
	for i := 0; i < 2; i++ {
		i := i
		GoWithRecover(&eg, func() (any, error) {
			if err := EvalDef(ctx, value, vxDefA(&n, x, nil)); err != nil {
				return nil, err
			}
			value.rlock()
			got[i] = value.vars.a
			value.runlock()
			return nil, nil
		})
	}
	err := eg.Wait()
	vx.Reach("done")
	vx.Assert(err == nil, "evaluation failed")
	vx.Assert(n == 1, "definition was evaluated more than once")
	vx.Assert(got[0] == x && got[1] == x, "a branch saw a value other than the one evaluated")
}

func vxRun(k int, fn func(i int) error) error {
	var eg errgroup.Group
	for i := 0; i < k; i++ {
		i := i
		GoWithRecover(&eg, func() (any, error) { return nil, fn(i) })
	}
	return eg.Wait()
}

// A definition whose body fails is not evaluated again: every branch and every
// later use sees the failure.
func VX_C02_FailingDefinition() {
	vx.MustReach("done")
	ctx := vxCtx()
	value := vxNewValue(ctx)
	n, sets := 0, 0
	def := vxDefA(&n, 0, errVX)
	def.Setter = func(v *vxValue, x int64) error { sets++; return nil }
	var errs [2]error
	_ = vxRun(2, func(i int) error {
		errs[i] = EvalDef(ctx, value, def)
		return nil
	})
	later := EvalDef(ctx, value, def)
	vx.Reach("done")
	vx.Assert(n == 1 && sets == 1, "failing definition was evaluated more than once")
	vx.Assert(errors.Is(errs[0], errVX) && errors.Is(errs[1], errVX), "a branch lost the failure of its definition")
	vx.Assert(errors.Is(later, errVX), "a later use lost the failure of its definition")
}

// Three concurrent branches.
func VX_C02_ThreeBranches() {
	vx.MustReach("done")
	if !vx.Thorough() {
		if vx.Choose("starve", 2) == 1 {
			vx.Starve(2)
		} else {
			vx.Preempt(2)
		}
	} else {
		if vx.Choose("starve", 2) == 1 {
			vx.Starve(2)
		} else {
			vx.Preempt(4)
		}
	}
	ctx := vxCtx()
	value := vxNewValue(ctx)
	n := 0
	x := vx.Int64("x")
	var got [3]int64
	err := vxRun(3, func(i int) error {
		if err := EvalDef(ctx, value, vxDefA(&n, x, nil)); err != nil {
			return err
		}
		value.rlock()
		got[i] = value.vars.a
		value.runlock()
		return nil
	})
	vx.Reach("done")
	vx.Assert(err == nil, "evaluation failed")
	vx.Assert(n == 1, "definition was evaluated more than once")
	vx.Assert(got[0] == x && got[1] == x && got[2] == x, "a branch saw a value other than the one evaluated")
}

// Two branches need a and b, in opposite orders, where b is computed from a.
func VX_C02_TwoDefinitions() {
	vx.MustReach("done")
	if !vx.Thorough() {
		if vx.Choose("starve", 2) == 1 {
			vx.Starve(2)
		} else {
			vx.Preempt(3)
		}
	}
	ctx := vxCtx()
	value := vxNewValue(ctx)
	na, nb := 0, 0
	x, y := vx.Int64("x"), vx.Int64("y")
	b := Def[int64, *vxValue]{
		Name: "b", Type: cel.IntType,
		Setter: func(v *vxValue, x int64) error { v.vars.b = x; return nil },
		Message: func(ctx context.Context, v *vxValue) (any, error) {
			nb++
			return y, nil
		},
	}
	var gotA, gotB [2]int64
	err := vxRun(2, func(i int) error {
		if i == 0 {
			if err := EvalDef(ctx, value, vxDefA(&na, x, nil)); err != nil {
				return err
			}
		}
		if err := EvalDef(ctx, value, b); err != nil {
			return err
		}
		if i == 1 {
			if err := EvalDef(ctx, value, vxDefA(&na, x, nil)); err != nil {
				return err
			}
		}
		value.rlock()
		gotA[i], gotB[i] = value.vars.a, value.vars.b
		value.runlock()
		return nil
	})
	vx.Reach("done")
	vx.Assert(err == nil, "evaluation failed")
	vx.Assert(na == 1 && nb == 1, "a definition was not evaluated exactly once")
	vx.Assert(gotA[0] == x && gotA[1] == x && gotB[0] == y && gotB[1] == y, "a branch saw a wrong value")
}

// A list definition is evaluated once, whatever the schedule.
func VX_C02_ListDefinition() {
	vx.MustReach("done")
	ctx := vxCtx()
	value := vxNewValue(ctx)
	n := 0
	x := vx.Int64("x")
	var list []int64
	def := DefMap[[]int64, int64, *vxValue]{
		Name: "l", Type: cel.ListType(cel.IntType),
		Setter:         func(v *vxValue, l []int64) error { list = l; return nil },
		IteratorName:   "it",
		IteratorType:   cel.IntType,
		IteratorSource: func(*vxValue) []int64 { return []int64{x} },
		Iterator: func(ctx context.Context, it *MapIteratorValue) (any, error) {
			n++
			return it.getEvalValues(ctx)["it"].(int64), nil
		},
	}
	var got [2]int64
	err := vxRun(2, func(i int) error {
		if err := EvalDefMap(ctx, value, def); err != nil {
			return err
		}
		value.rlock()
		if len(list) == 1 {
			got[i] = list[0]
		}
		value.runlock()
		return nil
	})
	vx.Reach("done")
	vx.Assert(err == nil, "evaluation failed")
	vx.Assert(n == 1, "list definition was evaluated more than once")
	vx.Assert(len(list) == 1 && got[0] == x && got[1] == x, "a branch saw a wrong list")
}

// A definition that panics fails every branch that needs it, and the process survives.
func VX_C02_PanickingDefinition() {
	vx.MustReach("done")
	ctx := vxCtx()
	value := vxNewValue(ctx)
	n := 0
	def := vxDefA(&n, 0, nil)
	def.Message = func(context.Context, *vxValue) (any, error) {
		n++
		panic("vx: boom")
	}
	var errs [2]error
	var eg errgroup.Group
	for i := 0; i < 2; i++ {
		i := i
		eg.Go(func() error {
			var inner errgroup.Group
			GoWithRecover(&inner, func() (any, error) { return nil, EvalDef(ctx, value, def) })
			errs[i] = inner.Wait()
			return nil
		})
	}
	_ = eg.Wait()
	vx.Reach("done")
	vx.Assert(n == 1, "panicking definition was evaluated more than once")
	for _, err := range errs {
		vx.Assert(err != nil && strings.Contains(err.Error(), "vx: boom"), "a branch went on without its definition")
	}
}

// Branches share the request's variables without data races.
func VX_C02_NoDataRace() {
	vx.MustReach("done")
	vx.Race()
	if vx.Choose("starve", 2) == 1 {
		vx.Starve(2)
	} else {
		vx.Preempt(1)
	}
	px := &vxProgram{fn: func(_ context.Context, in any) (ref.Val, error) {
		_ = in.(map[string]any)["a"]
		return celtypes.Int(1), nil
	}}
	py := &vxProgram{fn: func(_ context.Context, in any) (ref.Val, error) { return celtypes.Int(2), nil }}
	ctx := vxCtx(px, py, vxConst(celtypes.True))
	value := vxNewValue(ctx)
	mk := func(name string, idx int, p *int64) Def[int64, *vxValue] {
		return Def[int64, *vxValue]{
			Name: name, Type: cel.IntType, By: name, ByCacheIndex: idx,
			Setter: func(v *vxValue, x int64) error { *p = x; return nil },
		}
	}
	var list []int64
	l := DefMap[[]int64, int64, *vxValue]{
		Name: "l", Type: cel.ListType(cel.IntType),
		Setter:         func(v *vxValue, l []int64) error { list = l; return nil },
		IteratorName:   "it",
		IteratorType:   cel.IntType,
		IteratorSource: func(v *vxValue) []int64 { return []int64{v.vars.a, v.vars.b} },
		Iterator: func(ctx context.Context, it *MapIteratorValue) (any, error) {
			return EvalCEL(ctx, &EvalCELRequest{Value: it, Expr: "x", OutType: reflect.TypeOf(int64(0)), CacheIndex: 1})
		},
	}
	_ = &list
	kind := vx.Choose("kind", 4)
	err := vxRun(2, func(i int) error {
		if i == 0 {
			if err := EvalDef(ctx, value, mk("a", 1, &value.vars.a)); err != nil {
				return err
			}
			return EvalDef(ctx, value, mk("c", 1, &value.vars.c))
		}
		switch kind {
		case 0:
			return EvalDef(ctx, value, mk("b", 2, &value.vars.b))
		case 1:
			return EvalDefMap(ctx, value, l)
		case 2:
			return If(ctx, &IfParam[*vxValue]{Value: value, Expr: "x", CacheIndex: 3, Body: func(*vxValue) error { return nil }})
		default:
			SetGRPCError(ctx, value, grpcstatus.Error(grpccodes.NotFound, "vx"))
			return SetCELValue(ctx, &SetCELValueParam[int64]{Value: value, Expr: "x", CacheIndex: 2, Setter: func(x int64) error {
				value.vars.b = x
				return nil
			}})
		}
	})
	vx.Assert(err == nil, "evaluation failed")
	vx.Reach("done")
}
