package federation

import (
	"context"
	"errors"
	"reflect"

	"github.com/google/cel-go/cel"
	celtypes "github.com/google/cel-go/common/types"

	"github.com/mercari/grpc-federation/vx"
)

func vxListDef(src []int64, out *[]int64, it func(context.Context, *MapIteratorValue) (any, error)) DefMap[[]int64, int64, *vxValue] {
	return DefMap[[]int64, int64, *vxValue]{
		Name: "l", Type: cel.ListType(cel.IntType),
		Setter:         func(v *vxValue, l []int64) error { *out = l; return nil },
		IteratorName:   "it",
		IteratorType:   cel.IntType,
		IteratorSource: func(*vxValue) []int64 { return src },
		Iterator:       it,
	}
}

func vxSource(max int) []int64 {
	n := vx.Choose("n", max+1)
	var src []int64
	for i := 0; i < n; i++ {
		src = append(src, vx.Int64("e"))
	}
	return src
}

// The list has one element per source element, in order, each computed from its element.
func VX_C04_Elements() {
	vx.MustReach("empty", "many")
	max := 3
	if vx.Thorough() {
		max = 6
	}
	src := vxSource(max)
	before := append([]int64(nil), src...)
	ctx := vxCtx()
	value := vxNewValue(ctx)
	value.setEvalValue("outer", int64(7))
	value.setEnvOptValue("outer", cel.IntType)
	nopts := len(value.getEnvOpts())
	var (
		out  []int64
		seen []int64
	)
	k := vx.Int64("k")
	def := vxListDef(src, &out, func(ctx context.Context, it *MapIteratorValue) (any, error) {
		vals := it.getEvalValues(ctx)
		x, ok := vals["it"].(int64)
		vx.Assert(ok, "iterator variable not visible")
		vx.Assert(vals["outer"] == any(int64(7)), "outer variable not visible to the element")
		_, ok = vals[MessageArgumentVariableName]
		vx.Assert(ok, "message argument not visible to the element")
		vx.Assert(len(it.getEnvOpts()) == nopts+1, "the element's environment is not the outer one plus the iterator")
		_, ok = vals["tmp"]
		vx.Assert(len(seen) > 0 || !ok, "value leaked into the first element")
		seen = append(seen, x)
		return x + k, nil
	})
	err := EvalDefMap(ctx, value, def)
	vx.Assert(err == nil, "evaluation failed")
	vx.Assert(len(out) == len(src), "list has a wrong number of elements")
	vx.Assert(len(seen) == len(src), "element evaluated other than once")
	for i := range src {
		vx.Assert(src[i] == before[i], "source list was modified")
		vx.Assert(seen[i] == before[i], "elements evaluated out of order")
		vx.Assert(out[i] == before[i]+k, "element has a wrong value or place")
	}
	got, ok := vxSeen(value, "l")
	l, isList := got.([]int64)
	vx.Assert(ok && isList && len(l) == len(out), "list not visible to later expressions")
	for i := range l {
		vx.Assert(l[i] == out[i], "later expressions see another list")
	}
	_, leaked := vxSeen(value, "it")
	vx.Assert(!leaked, "iterator variable is visible after the list")
	vx.Assert(len(value.getEnvOpts()) == nopts+1, "outer environment not extended by exactly the list")
	if len(src) == 0 {
		vx.Reach("empty")
	} else if len(src) > 1 {
		vx.Reach("many")
	}
}

// The first failing element ends the evaluation; its failure is reported.
func VX_C04_Failure() {
	vx.MustReach("failed", "ok")
	src := vxSource(3)
	bad := vx.Choose("bad", 4)
	setErr := vx.Bool("setErr")
	ctx := vxCtx()
	value := vxNewValue(ctx)
	n, sets := 0, 0
	var out []int64
	def := vxListDef(src, &out, func(ctx context.Context, it *MapIteratorValue) (any, error) {
		n++
		if n-1 == bad {
			return nil, errVX
		}
		return it.getEvalValues(ctx)["it"].(int64), nil
	})
	def.Setter = func(v *vxValue, l []int64) error {
		sets++
		out = l
		if setErr {
			return errVXSetter
		}
		return nil
	}
	err := EvalDefMap(ctx, value, def)
	if bad < len(src) {
		vx.Reach("failed")
		vx.Assert(errors.Is(err, errVX), "failure of an element was lost")
		vx.Assert(n == bad+1, "elements after a failed one were evaluated")
		vx.Assert(len(out) == 0, "failed list has elements")
	} else {
		vx.Reach("ok")
		vx.Assert((err == nil) == !setErr && n == len(src) && len(out) == n, "list without failures did not evaluate")
	}
	vx.Assert(sets == 1, "list assigned other than once")
	vx.Assert(errors.Is(err, errVXSetter) == setErr, "failure of the assignment was lost, or invented")
	later := EvalDefMap(ctx, value, def)
	vx.Assert((later != nil) == (err != nil), "a later use disagrees about the failure")
}

// Conditions of list definitions.
func VX_C04_Condition() {
	vx.MustReach("none", "true", "false", "error")
	src := vxSource(2)
	cond := vx.Choose("cond", 4)
	setErr := vx.Bool("setErr")
	var p cel.Program
	switch cond {
	case 1:
		p = vxConst(celtypes.True)
	case 2:
		p = vxConst(celtypes.False)
	default:
		p = vxErr(errVXIf)
	}
	ctx := vxCtx(p)
	value := vxNewValue(ctx)
	n, sets := 0, 0
	out := []int64{99}
	def := vxListDef(src, &out, func(ctx context.Context, it *MapIteratorValue) (any, error) {
		n++
		return it.getEvalValues(ctx)["it"].(int64), nil
	})
	if cond != 0 {
		def.If, def.IfCacheIndex = "cond", 1
	}
	def.Setter = func(v *vxValue, l []int64) error {
		sets++
		out = l
		if setErr {
			return errVXSetter
		}
		return nil
	}
	err := EvalDefMap(ctx, value, def)
	switch cond {
	case 0, 1:
		vx.Reach([]string{"none", "true"}[cond])
		vx.Assert(n == len(src) && sets == 1 && len(out) == n, "list not evaluated although the condition holds")
	case 2:
		vx.Reach("false")
		vx.Assert(n == 0 && sets == 1 && len(out) == 0, "list evaluated although the condition is false")
	case 3:
		vx.Reach("error")
		vx.Assert(n == 0 && errors.Is(err, errVXIf), "failure of the condition was lost")
		return
	}
	vx.Assert((err != nil) == setErr && (!setErr || errors.Is(err, errVXSetter)), "failure of the assignment was lost, or invented")
	_, ok := vxSeen(value, "l")
	vx.Assert(ok, "list not visible to later expressions")
}

// Values set while evaluating one list do not show up outside it, and lists
// evaluated one after the other, or nested, do not disturb each other.
func VX_C04_Nested() {
	vx.MustReach("done")
	src := vxSource(2)
	inner := []int64{vx.Int64("i"), vx.Int64("i")}
	ctx := vxCtx()
	value := vxNewValue(ctx)
	var out []int64
	def := vxListDef(src, &out, func(ctx context.Context, it *MapIteratorValue) (any, error) {
		x := it.getEvalValues(ctx)["it"].(int64)
		nopts := len(it.getEnvOpts())
		ret, err := evalMap(ctx, localValue(it), "in", cel.IntType, func(localValue) []int64 { return inner }, reflect.TypeOf([]int64{}),
			func(ctx context.Context, it2 *MapIteratorValue) (any, error) {
				vals := it2.getEvalValues(ctx)
				vx.Assert(vals["it"] == any(x), "outer element not visible to the inner list")
				vx.Assert(len(it2.getEnvOpts()) == nopts+1, "inner element's environment is wrong")
				return vals["in"].(int64) + x, nil
			})
		if err != nil {
			return nil, err
		}
		vals := it.getEvalValues(ctx)
		_, leaked := vals["in"]
		vx.Assert(!leaked, "inner iterator visible in the outer element")
		vx.Assert(vals["it"] == any(x), "inner list changed the outer element")
		l := ret.([]int64)
		vx.Assert(len(l) == 2 && l[0] == inner[0]+x && l[1] == inner[1]+x, "inner list has wrong elements")
		return l[0] + l[1], nil
	})
	vx.Assert(EvalDefMap(ctx, value, def) == nil, "evaluation failed")
	vx.Assert(len(out) == len(src), "wrong number of elements")
	for i, x := range src {
		vx.Assert(out[i] == inner[0]+inner[1]+x+x, "outer list has a wrong element")
	}
	_, leaked := vxSeen(value, "in")
	vx.Assert(!leaked, "inner iterator visible after the list")
	vx.Reach("done")
}

// Whatever other branches of the request assign while an element is being
// evaluated, the element has the outer variables and its iterator declared
// and visible, and the other branches' variables are not lost.
func VX_C04_Environment() {
	vx.MustReach("done")
	ctx := vxCtx()
	value := vxNewValue(ctx)
	outer := vx.Choose("outer", 5) // declared before: room for more may or may not be left
	for i := 0; i < outer; i++ {
		value.setEnvOptValue("v"+string(rune('0'+i)), cel.IntType)
	}
	nested := vx.Choose("nested", 2) == 1
	when := vx.Choose("when", 3)
	other := func() {
		value.lock()
		value.setEnvOptValue("other", cel.StringType)
		value.setEvalValue("other", "x")
		value.unlock()
	}
	check := func(opts []cel.EnvOption, names ...string) {
		env, err := cel.NewCustomEnv(opts...)
		vx.Assert(err == nil, "environment is broken")
		for _, name := range names {
			_, iss := env.Compile(name)
			vx.Assert(iss.Err() == nil, "a variable is not declared: "+name)
		}
	}
	var out []int64
	def := vxListDef([]int64{1, 2}, &out, func(ctx context.Context, it *MapIteratorValue) (any, error) {
		if when == 0 {
			other()
			when = -1
		}
		if nested {
			_, err := evalMap(ctx, localValue(it), "inner", cel.IntType, func(localValue) []int64 { return []int64{1} }, reflect.TypeOf([]int64{}),
				func(ctx context.Context, it2 *MapIteratorValue) (any, error) {
					if when == 1 {
						other()
						when = -1
					}
					check(it2.getEnvOpts(), "inner", "it")
					return int64(1), nil
				})
			vx.Assert(err == nil, "inner list failed")
		}
		if when == 1 {
			other()
			when = -1
		}
		check(it.getEnvOpts(), "it")
		return int64(1), nil
	})
	vx.Assert(EvalDefMap(ctx, value, def) == nil, "evaluation failed")
	names := []string{"l"}
	if when == -1 {
		names = append(names, "other")
	}
	for i := 0; i < outer; i++ {
		names = append(names, "v"+string(rune('0'+i)))
	}
	check(value.getEnvOpts(), names...)
	vx.Reach("done")
}
