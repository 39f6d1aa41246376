package federation

import (
	"context"
	"errors"
	"reflect"

	celtypes "github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"

	"github.com/mercari/grpc-federation/vx"
)

func vxEval[T any](v ref.Val) (T, error) {
	var zero T
	ctx := vxCtx(vxConst(v))
	value := vxNewValue(ctx)
	ret, err := EvalCEL(ctx, &EvalCELRequest{Value: value, Expr: "x", OutType: reflect.TypeOf(zero), CacheIndex: 1})
	vxUsable(value)
	if err != nil {
		return zero, err
	}
	got, ok := ret.(T)
	vx.Assert(ok, "result does not have the requested type")
	return got, nil
}

// vxUsable checks that an evaluation left the value unlocked.
func vxUsable(v localValue) {
	ok := false
	msg, panicked := vx.Try(func() {
		v.lock()
		ok = true
		v.unlock()
	})
	vx.Assert(ok && !panicked, "value left locked: "+msg)
}

func vxExact[T any](name string, v ref.Val, fits bool, same func(T) bool) {
	vx.MustReach("fits")
	got, err := vxEval[T](v)
	if fits {
		vx.Reach("fits")
		vx.Assert(err == nil, name+": representable result was rejected")
		vx.Assert(same(got), name+": result was changed")
	} else {
		vx.Reach("rejected")
		vx.Assert(err != nil, name+": unrepresentable result was accepted")
	}
}

func VX_C05_IntToInt32() {
	vx.MustReach("rejected")
	x := vx.Int64("x")
	vxExact("int to int32", celtypes.Int(x), int64(int32(x)) == x, func(g int32) bool { return int64(g) == x })
}
func VX_C05_IntToInt64() {
	x := vx.Int64("x")
	vxExact("int to int64", celtypes.Int(x), true, func(g int64) bool { return g == x })
}

type vxEnum int32

func VX_C05_IntToEnum() {
	vx.MustReach("rejected")
	x := vx.Int64("x")
	vxExact("int to enum", celtypes.Int(x), int64(int32(x)) == x, func(g vxEnum) bool { return int64(g) == x })
}
func VX_C05_UintToUint32() {
	vx.MustReach("rejected")
	x := vx.Uint64("x")
	vxExact("uint to uint32", celtypes.Uint(x), uint64(uint32(x)) == x, func(g uint32) bool { return uint64(g) == x })
}
func VX_C05_UintToUint64() {
	x := vx.Uint64("x")
	vxExact("uint to uint64", celtypes.Uint(x), true, func(g uint64) bool { return g == x })
}
func VX_C05_Bool() {
	x := vx.Bool("x")
	vxExact("bool", celtypes.Bool(x), true, func(g bool) bool { return g == x })
}
func VX_C05_String() {
	x := vx.String("x", 3)
	vxExact("string", celtypes.String(x), true, func(g string) bool { return g == x })
}
func VX_C05_Bytes() {
	x := vx.Bytes("x", 3)
	vxExact("bytes", celtypes.Bytes(x), true, func(g []byte) bool { return string(g) == string(x) })
}
func VX_C05_Double() {
	x := vx.Float64("x")
	vx.Assume(x == x)
	vxExact("double", celtypes.Double(x), true, func(g float64) bool { return g == x })
}

// A result of the wrong kind is an error, never a panic or a made-up value.
func VX_C05_WrongKind() {
	vx.MustReach("done")
	x := vx.Int64("x")
	var err error
	switch vx.Choose("kind", 6) {
	case 0:
		_, err = vxEval[string](celtypes.Int(x))
	case 1:
		_, err = vxEval[int64](celtypes.String("s"))
	case 2:
		_, err = vxEval[bool](celtypes.Int(x))
	case 3:
		_, err = vxEval[uint64](celtypes.Int(x))
	case 4:
		_, err = vxEval[int64](celtypes.Uint(uint64(x)))
	case 5:
		_, err = vxEval[*vxVars](celtypes.Bool(x > 0))
	}
	vx.Assert(err != nil, "result of the wrong kind was accepted")
	vx.Reach("done")
}

func vxZero[T comparable](v ref.Val, name string) {
	var zero T
	got, err := vxEval[T](v)
	vx.Assert(err == nil, name+": null result is an error")
	vx.Assert(got == zero, name+": null result is not the zero value")
}

// Null and the empty optional become the zero value of the requested type.
func VX_C05_Null() {
	vx.MustReach("null", "none", "done")
	var v ref.Val
	switch vx.Choose("v", 3) {
	case 0:
		vx.Reach("null")
		v = celtypes.NullValue
	case 1:
		vx.Reach("none")
		v = celtypes.OptionalNone
	default:
		v = celtypes.OptionalOf(celtypes.NullValue)
	}
	switch vx.Choose("t", 8) {
	case 0:
		vxZero[int64](v, "int64")
	case 1:
		vxZero[string](v, "string")
	case 2:
		vxZero[*vxVars](v, "message")
	case 3:
		vxZero[bool](v, "bool")
	case 4:
		vxZero[vxEnum](v, "enum")
	case 5:
		vxZero[float32](v, "float")
	case 6:
		got, err := vxEval[[]int64](v)
		vx.Assert(err == nil && got == nil, "list: null result is not the zero value")
	case 7:
		got, err := vxEval[map[string]int64](v)
		vx.Assert(err == nil && got == nil, "map: null result is not the zero value")
	}
	vx.Reach("done")
}

// A present optional counts as its value.
func VX_C05_Optional() {
	x := vx.Int64("x")
	vxExact("optional int", celtypes.OptionalOf(celtypes.Int(x)), int64(int32(x)) == x, func(g int32) bool { return int64(g) == x })
	s := vx.String("s", 2)
	vxExact("optional string", celtypes.OptionalOf(celtypes.String(s)), true, func(g string) bool { return g == s })
}

// Lists convert element by element; one element that does not fit fails the list.
func VX_C05_List() {
	n := vx.Choose("n", 3)
	var elems []ref.Val
	var xs []int64
	fits := true
	for i := 0; i < n; i++ {
		x := vx.Int64("x")
		xs = append(xs, x)
		elems = append(elems, celtypes.Int(x))
		if int64(int32(x)) != x {
			fits = false
		}
	}
	l := celtypes.NewRefValList(celtypes.DefaultTypeAdapter, elems)
	vxExact("list of int32", l, fits, func(g []int32) bool {
		if len(g) != n {
			return false
		}
		for i := range g {
			if int64(g[i]) != xs[i] {
				return false
			}
		}
		return true
	})
}

// Without a requested type the plain value is returned.
func VX_C05_Untyped() {
	vx.MustReach("value", "null", "optional")
	x := vx.Int64("x")
	var v ref.Val
	want := any(x)
	switch vx.Choose("v", 3) {
	case 0:
		vx.Reach("value")
		v = celtypes.Int(x)
	case 1:
		vx.Reach("null")
		v, want = celtypes.NullValue, nil
	case 2:
		vx.Reach("optional")
		v = celtypes.OptionalOf(celtypes.Int(x))
	}
	ctx := vxCtx(vxConst(v))
	got, err := EvalCEL(ctx, &EvalCELRequest{Value: vxNewValue(ctx), Expr: "x", CacheIndex: 1})
	vx.Assert(err == nil && got == want, "untyped result is wrong")
}

// Misuse and failing expressions are errors and leave the value usable.
func VX_C05_Errors() {
	vx.MustReach("noCache", "noIndex", "fails")
	x := vx.Int64("x")
	kind := vx.Choose("kind", 3)
	ctx := vxCtx(vxConst(celtypes.Int(x)), vxErr(errVX))
	value := vxNewValue(ctx)
	req := &EvalCELRequest{Value: value, Expr: "x", OutType: reflect.TypeOf(int64(0)), CacheIndex: 1}
	c := ctx
	switch kind {
	case 0:
		c = context.Background()
	case 1:
		req.CacheIndex = 0
	case 2:
		req.CacheIndex = 2
	}
	ret, err := EvalCEL(c, req)
	vxUsable(value)
	vx.Assert(ret == nil, "failed evaluation returned a value")
	switch kind {
	case 0:
		vx.Reach("noCache")
		vx.Assert(errors.Is(err, ErrCELCacheMap), "missing cache not reported")
	case 1:
		vx.Reach("noIndex")
		vx.Assert(errors.Is(err, ErrCELCacheIndex), "missing cache index not reported")
	case 2:
		vx.Reach("fails")
		vx.Assert(errors.Is(err, errVX), "failure of the expression was lost")
	}
	req.CacheIndex = 1
	ret, err = EvalCEL(ctx, req)
	vx.Assert(err == nil && ret == any(x), "evaluation after a failed one is wrong")
}
