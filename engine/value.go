package main

import (
	"fmt"
	"go/types"
	"math"
	"runtime/debug"
	"strings"
)

// Value is one Go value of the interpreted program.
//
//	scalars: N holds the bits (masked to the width), or P is a *Term
//	strings: P nil/"string"/*SymStr ; pointers: P *Value (or *SymPtr)
//	structs, arrays, tuples: *Agg ; slices *Slice ; interfaces *Iface
//	maps *Map ; funcs *Closure ; channels *Chan ; complex: complex128
type Value struct {
	N uint64
	P any
}

type Agg struct{ E []Value }
type SymStr struct{ B []Value }
type Slice struct{ S []Value }
type Iface struct {
	T *RType
	V Value
}
type SymPtr struct {
	S   []Value
	Idx *Term
}
type RType struct {
	T  types.Type
	ID int
}
type Closure struct {
	Fn  *Func
	Env []Value
	Nat func(g *Gor, args []Value) Value // native closure
}

// Opaque host object (used by intrinsics: mutex states etc.)
type engineError struct{ msg string }

func (e engineError) Error() string { return e.msg }

func unsupported(format string, a ...any) { panic(engineError{fmt.Sprintf(format, a...)}) }

var nilValue = Value{}

func vbool(b bool) Value {
	if b {
		return Value{N: 1}
	}
	return Value{}
}
func vint(i int) Value       { return Value{N: uint64(i)} }
func vstr(s string) Value    { return Value{P: s} }
func vfloat(f float64) Value { return Value{N: math.Float64bits(f)} }

func isSym(v Value) bool { _, ok := v.P.(*Term); return ok }

func copyVal(v Value) Value {
	if a, ok := v.P.(*Agg); ok {
		return Value{P: copyAgg(a)}
	}
	return v
}
func copyAgg(a *Agg) *Agg {
	n := &Agg{E: make([]Value, len(a.E))}
	for i, e := range a.E {
		if sub, ok := e.P.(*Agg); ok {
			n.E[i] = Value{P: copyAgg(sub)}
		} else {
			n.E[i] = e
		}
	}
	return n
}

// zero value
func zeroOf(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &Agg{E: make([]Value, u.NumFields())}
		for i := 0; i < u.NumFields(); i++ {
			if needsAgg(u.Field(i).Type()) {
				a.E[i] = zeroOf(u.Field(i).Type())
			}
		}
		return Value{P: a}
	case *types.Array:
		a := &Agg{E: make([]Value, u.Len())}
		if needsAgg(u.Elem()) {
			for i := range a.E {
				a.E[i] = zeroOf(u.Elem())
			}
		}
		return Value{P: a}
	case *types.Tuple:
		a := &Agg{E: make([]Value, u.Len())}
		for i := 0; i < u.Len(); i++ {
			a.E[i] = zeroOf(u.At(i).Type())
		}
		return Value{P: a}
	}
	return Value{}
}
func needsAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// zeroFn returns a maker for zero values of t.
func zeroFn(t types.Type) func() Value {
	if !needsAgg(t) {
		return func() Value { return Value{} }
	}
	tmpl := zeroOf(t)
	return func() Value { return copyVal(tmpl) }
}

type kind struct {
	w      int // bits: 0 bool; 8..64; -32,-64 floats; -1 other
	signed bool
}

func kindOf(t types.Type) kind {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return kind{w: -1}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return kind{w: 0}
	case types.Int, types.Int64, types.UntypedInt:
		return kind{64, true}
	case types.Int8:
		return kind{8, true}
	case types.Int16:
		return kind{16, true}
	case types.Int32, types.UntypedRune:
		return kind{32, true}
	case types.Uint, types.Uint64, types.Uintptr:
		return kind{64, false}
	case types.Uint8:
		return kind{8, false}
	case types.Uint16:
		return kind{16, false}
	case types.Uint32:
		return kind{32, false}
	case types.Float32:
		return kind{-32, true}
	case types.Float64, types.UntypedFloat:
		return kind{-64, true}
	}
	return kind{w: -1}
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ---- strings
func strLen(v Value) int {
	switch s := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.B)
	}
	panic(engineError{fmt.Sprintf("strLen of %T", v.P)})
}
func strBytes(v Value) []Value {
	switch s := v.P.(type) {
	case nil:
		return nil
	case string:
		b := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = Value{N: uint64(s[i])}
		}
		return b
	case *SymStr:
		return s.B
	}
	panic(engineError{fmt.Sprintf("strBytes of %T", v.P)})
}
func strAt(v Value, i int) Value {
	switch s := v.P.(type) {
	case string:
		return Value{N: uint64(s[i])}
	case *SymStr:
		return s.B[i]
	}
	panic(engineError{"strAt"})
}
func mkStr(b []Value) Value {
	for _, x := range b {
		if x.P != nil {
			return Value{P: &SymStr{B: append([]Value(nil), b...)}}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.N)
	}
	return Value{P: string(bs)}
}
func strSlice(v Value, lo, hi int) Value {
	switch s := v.P.(type) {
	case nil:
		return v
	case string:
		return Value{P: s[lo:hi]}
	case *SymStr:
		return mkStr(s.B[lo:hi])
	}
	panic(engineError{"strSlice"})
}
func strConcat(a, b Value) Value {
	as, ok1 := a.P.(string)
	bs, ok2 := b.P.(string)
	if a.P == nil {
		return b
	}
	if b.P == nil {
		return a
	}
	if ok1 && ok2 {
		return Value{P: as + bs}
	}
	x := append(append([]Value(nil), strBytes(a)...), strBytes(b)...)
	return Value{P: &SymStr{B: x}}
}

// goStr returns the concrete string, or ok=false when symbolic.
func goStr(v Value) (string, bool) {
	switch s := v.P.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func mustStr(v Value) string {
	s, ok := goStr(v)
	if !ok {
		unsupported("symbolic string where a concrete one is needed")
	}
	return s
}

// lossy rendering for messages
func showStr(v Value) string {
	switch s := v.P.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SymStr:
		var sb strings.Builder
		for _, b := range s.B {
			if b.P != nil {
				sb.WriteString("\u00bf")
			} else {
				sb.WriteByte(byte(b.N))
			}
		}
		return sb.String()
	}
	return fmt.Sprintf("<%T>", v.P)
}

func sliceOf(v Value) []Value {
	if v.P == nil {
		return nil
	}
	s, ok := v.P.(*Slice)
	if !ok {
		if debugHost {
			debug.PrintStack()
		}
		unsupported("slice expected, got %T", v.P)
	}
	return s.S
}
func mkSlice(s []Value) Value { return Value{P: &Slice{S: s}} }
