package main

import (
	"fmt"
	"go/token"
	"go/types"
	"unsafe"
)

func hostSlice(p *Value, n int) []Value { return unsafe.Slice(p, n) }

func (c *compiler) binop(op token.Token, xt, yt types.Type) func(fr *Frame, a, b Value) Value {
	k := kindOf(xt)
	switch op {
	case token.EQL:
		if k.w >= 0 {
			return func(fr *Frame, a, b Value) Value {
				if a.P == nil && b.P == nil {
					return vbool(a.N == b.N)
				}
				return fromTerm(fr.m.ctx.Eq(fr.m.term(a, k.w), fr.m.term(b, k.w)))
			}
		}
		return func(fr *Frame, a, b Value) Value { return fr.m.eqValue(fr.g, a, b, xt, yt) }
	case token.NEQ:
		f := c.binop(token.EQL, xt, yt)
		return func(fr *Frame, a, b Value) Value {
			v := f(fr, a, b)
			if t, ok := v.P.(*Term); ok {
				return fromTerm(fr.m.ctx.Not(t))
			}
			return Value{N: v.N ^ 1}
		}
	}
	if isString(xt) {
		switch op {
		case token.ADD:
			return func(fr *Frame, a, b Value) Value { return strConcat(a, b) }
		case token.LSS:
			return func(fr *Frame, a, b Value) Value { return fr.m.strLess(a, b) }
		case token.GTR:
			return func(fr *Frame, a, b Value) Value { return fr.m.strLess(b, a) }
		case token.LEQ:
			return func(fr *Frame, a, b Value) Value { return fr.m.notV(fr.m.strLess(b, a)) }
		case token.GEQ:
			return func(fr *Frame, a, b Value) Value { return fr.m.notV(fr.m.strLess(a, b)) }
		}
	}
	if k.w == -1 {
		if b, ok := xt.Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
			return func(fr *Frame, a, b Value) Value {
				x, _ := a.P.(complex128)
				y, _ := b.P.(complex128)
				switch op {
				case token.ADD:
					return Value{P: x + y}
				case token.SUB:
					return Value{P: x - y}
				case token.MUL:
					return Value{P: x * y}
				case token.QUO:
					return Value{P: x / y}
				}
				unsupported("complex op")
				return Value{}
			}
		}
		return func(fr *Frame, a, b Value) Value { unsupported("binop %s on %s", op, xt); return Value{} }
	}
	if k.w < 0 {
		return floatOp(op, k.w)
	}
	m := maskW(k.w)
	w := k.w
	switch op {
	case token.ADD:
		return func(fr *Frame, a, b Value) Value {
			if a.P == nil && b.P == nil {
				return Value{N: (a.N + b.N) & m}
			}
			if pv, ok := a.P.(*Value); ok { // uintptr arithmetic on a pointer
				if b.N == 0 {
					return Value{P: pv}
				}
			}
			return fr.m.symBin(OpAdd, a, b, w)
		}
	case token.SUB:
		return func(fr *Frame, a, b Value) Value {
			if a.P == nil && b.P == nil {
				return Value{N: (a.N - b.N) & m}
			}
			return fr.m.symBin(OpSub, a, b, w)
		}
	case token.MUL:
		return func(fr *Frame, a, b Value) Value {
			if a.P == nil && b.P == nil {
				return Value{N: (a.N * b.N) & m}
			}
			return fr.m.symBin(OpMul, a, b, w)
		}
	case token.QUO, token.REM:
		o := OpUDiv
		switch {
		case op == token.QUO && k.signed:
			o = OpSDiv
		case op == token.REM && k.signed:
			o = OpSRem
		case op == token.REM:
			o = OpURem
		}
		return func(fr *Frame, a, b Value) Value {
			if b.P == nil {
				if b.N == 0 {
					fr.m.runtimePanic(fr.g, "integer divide by zero")
				}
			} else if fr.m.Branch(fr.m.ctx.Eq(fr.m.term(b, w), fr.m.ctx.Const(w, 0))) {
				fr.m.runtimePanic(fr.g, "integer divide by zero")
			}
			if a.P == nil && b.P == nil {
				return Value{N: evalBin(o, w, a.N, b.N)}
			}
			return fr.m.symBin(o, a, b, w)
		}
	case token.AND:
		if w == 0 {
			return func(fr *Frame, a, b Value) Value {
				return fromTerm(fr.m.ctx.And(fr.m.term(a, 0), fr.m.term(b, 0)))
			}
		}
		return func(fr *Frame, a, b Value) Value {
			if a.P == nil && b.P == nil {
				return Value{N: a.N & b.N}
			}
			if pv, ok := a.P.(*Value); ok {
				_ = pv
				return Value{} // alignment test on a pointer
			}
			return fr.m.symBin(OpAnd, a, b, w)
		}
	case token.OR:
		if w == 0 {
			return func(fr *Frame, a, b Value) Value {
				return fromTerm(fr.m.ctx.Or(fr.m.term(a, 0), fr.m.term(b, 0)))
			}
		}
		return func(fr *Frame, a, b Value) Value {
			if a.P == nil && b.P == nil {
				return Value{N: a.N | b.N}
			}
			return fr.m.symBin(OpOr, a, b, w)
		}
	case token.XOR:
		return func(fr *Frame, a, b Value) Value {
			if a.P == nil && b.P == nil {
				return Value{N: a.N ^ b.N}
			}
			if pv, ok := a.P.(*Value); ok && b.P == nil && b.N == 0 { // noescape idiom
				return Value{P: pv}
			}
			return fr.m.symBin(OpXor, a, b, w)
		}
	case token.AND_NOT:
		return func(fr *Frame, a, b Value) Value {
			if a.P == nil && b.P == nil {
				return Value{N: a.N &^ b.N}
			}
			return fromTerm(fr.m.ctx.Bin(OpAnd, fr.m.term(a, w), fr.m.ctx.BvNot(fr.m.term(b, w))))
		}
	case token.SHL, token.SHR:
		yk := kindOf(yt)
		o := OpShl
		if op == token.SHR {
			o = OpLShr
			if k.signed {
				o = OpAShr
			}
		}
		return func(fr *Frame, a, b Value) Value {
			mm := fr.m
			if b.P == nil {
				n := b.N
				if yk.signed && sext64(n, yk.w) < 0 {
					mm.runtimePanic(fr.g, "negative shift amount")
				}
				if a.P == nil {
					return Value{N: evalBin(o, w, a.N, n)}
				}
				if n >= uint64(w) {
					if o != OpAShr {
						return Value{}
					}
					n = uint64(w - 1)
				}
				return fromTerm(mm.ctx.Bin(o, mm.term(a, w), mm.ctx.Const(w, n)))
			}
			bt := b.P.(*Term)
			c := mm.ctx
			if yk.signed {
				if mm.Branch(c.SLt(bt, c.Const(yk.w, 0))) {
					mm.runtimePanic(fr.g, "negative shift amount")
				}
			}
			x := mm.term(a, w)
			if yk.w <= w {
				return fromTerm(c.Bin(o, x, c.ZExt(bt, w)))
			}
			big := c.ULe(c.Const(yk.w, uint64(w)), bt)
			sh := c.Ite(big, c.Const(w, uint64(w)), c.Trunc(bt, w))
			if w == 8 || w == 16 || w == 32 || w == 64 {
				return fromTerm(c.Bin(o, x, sh))
			}
			return fromTerm(c.Bin(o, x, sh))
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		swap := op == token.GTR || op == token.LEQ // a>b = b<a ; a<=b = !(b<a)
		neg := op == token.LEQ || op == token.GEQ
		signed := k.signed
		return func(fr *Frame, a, b Value) Value {
			if swap {
				a, b = b, a
			}
			if a.P == nil && b.P == nil {
				var r bool
				if signed {
					r = sext64(a.N, w) < sext64(b.N, w)
				} else {
					r = a.N < b.N
				}
				return vbool(r != neg)
			}
			c := fr.m.ctx
			var t *Term
			if signed {
				t = c.SLt(fr.m.term(a, w), fr.m.term(b, w))
			} else {
				t = c.ULt(fr.m.term(a, w), fr.m.term(b, w))
			}
			if neg {
				t = c.Not(t)
			}
			return fromTerm(t)
		}
	}
	return func(fr *Frame, a, b Value) Value { unsupported("binop %s on %s", op, xt); return Value{} }
}

func (m *Machine) symBin(o Op, a, b Value, w int) Value {
	return fromTerm(m.ctx.Bin(o, m.term(a, w), m.term(b, w)))
}
func (m *Machine) notV(v Value) Value {
	if t, ok := v.P.(*Term); ok {
		return fromTerm(m.ctx.Not(t))
	}
	return Value{N: v.N ^ 1}
}

func floatOp(op token.Token, w int) func(fr *Frame, a, b Value) Value {
	var o Op
	swap, cmp := false, false
	switch op {
	case token.ADD:
		o = OpFAdd
	case token.SUB:
		o = OpFSub
	case token.MUL:
		o = OpFMul
	case token.QUO:
		o = OpFDiv
	case token.LSS:
		o, cmp = OpFLt, true
	case token.LEQ:
		o, cmp = OpFLe, true
	case token.GTR:
		o, cmp, swap = OpFLt, true, true
	case token.GEQ:
		o, cmp, swap = OpFLe, true, true
	default:
		return func(fr *Frame, a, b Value) Value { unsupported("float op %s", op); return Value{} }
	}
	_ = cmp
	return func(fr *Frame, a, b Value) Value {
		if swap {
			a, b = b, a
		}
		if a.P == nil && b.P == nil {
			return Value{N: evalFbin(o, w, a.N, b.N)}
		}
		return fromTerm(fr.m.ctx.Fbin(o, fr.m.term(a, w), fr.m.term(b, w)))
	}
}

// strEq returns the Bool value of a == b.
func (m *Machine) strEq(a, b Value) Value {
	if x, ok := goStr(a); ok {
		if y, ok := goStr(b); ok {
			return vbool(x == y)
		}
	}
	n := strLen(a)
	if n != strLen(b) {
		return Value{}
	}
	t := m.ctx.True
	x, y := strBytes(a), strBytes(b)
	for i := 0; i < n; i++ {
		t = m.ctx.And(t, m.ctx.Eq(m.term(x[i], 8), m.term(y[i], 8)))
		if t == m.ctx.False {
			break
		}
	}
	return fromTerm(t)
}

func (m *Machine) strLess(a, b Value) Value {
	if x, ok := goStr(a); ok {
		if y, ok := goStr(b); ok {
			return vbool(x < y)
		}
	}
	x, y := strBytes(a), strBytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	res := m.ctx.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		p, q := m.term(x[i], 8), m.term(y[i], 8)
		res = m.ctx.Ite(m.ctx.Eq(p, q), res, m.ctx.ULt(p, q))
	}
	return fromTerm(res)
}

func (m *Machine) andV(a, b Value) Value {
	return fromTerm(m.ctx.And(m.term(a, 0), m.term(b, 0)))
}

// eqValue compares two values of the given static types.
func (m *Machine) eqValue(g *Gor, a, b Value, xt, yt types.Type) Value {
	switch u := xt.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return m.strEq(a, b)
		}
		k := kindOf(xt)
		if k.w != -1 {
			_, ptr1 := a.P.(*Value)
			_, ptr2 := b.P.(*Value)
			if ptr1 || ptr2 {
				return vbool(a.P == b.P && a.N == b.N)
			}
			return fromTerm(m.ctx.Eq(m.term(a, k.w), m.term(b, k.w)))
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return vbool(a.P == b.P)
		}
		if u.Info()&types.IsComplex != 0 {
			x, _ := a.P.(complex128)
			y, _ := b.P.(complex128)
			return vbool(x == y)
		}
	case *types.Interface:
		if _, ok := yt.Underlying().(*types.Interface); ok {
			return m.eqIface(g, a, b)
		}
	case *types.Struct:
		x, y := a.P.(*Agg), b.P.(*Agg)
		r := vbool(true)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = m.andV(r, m.eqValue(g, x.E[i], y.E[i], u.Field(i).Type(), u.Field(i).Type()))
			if r.P == nil && r.N == 0 {
				return r
			}
		}
		return r
	case *types.Array:
		x, y := a.P.(*Agg), b.P.(*Agg)
		r := vbool(true)
		for i := range x.E {
			r = m.andV(r, m.eqValue(g, x.E[i], y.E[i], u.Elem(), u.Elem()))
			if r.P == nil && r.N == 0 {
				return r
			}
		}
		return r
	case *types.Pointer:
		return vbool(m.samePtr(g, a, b))
	case *types.Slice, *types.Map, *types.Signature:
		// only comparable to nil
		return vbool((a.P == nil) == (b.P == nil))
	case *types.Chan:
		return vbool(a.P == b.P)
	}
	unsupported("comparison of %s", xt)
	return Value{}
}

func (m *Machine) samePtr(g *Gor, a, b Value) bool {
	if _, ok := a.P.(*SymPtr); ok {
		a = Value{P: m.ptr(g, a)}
	}
	if _, ok := b.P.(*SymPtr); ok {
		b = Value{P: m.ptr(g, b)}
	}
	return a.P == b.P
}

func (m *Machine) eqIface(g *Gor, a, b Value) Value {
	x, ok1 := a.P.(*Iface)
	y, ok2 := b.P.(*Iface)
	if !ok1 || !ok2 {
		return vbool(a.P == nil && b.P == nil)
	}
	if x.T != y.T {
		return Value{}
	}
	if !types.Comparable(x.T.T) {
		m.runtimePanic(g, fmt.Sprintf("comparing uncomparable type %s", x.T.T))
	}
	return m.eqValue(g, x.V, y.V, x.T.T, x.T.T)
}

// ---- maps

type mapEntry struct {
	k, v Value
	live bool
}

type Map struct {
	t    *types.Map
	ents []*mapEntry
	idx  map[any]int
	n    int
	syms int   // live entries with symbolic keys
	cell Value // shadow cell for race detection
}

func newMap(t *types.Map) *Map { return &Map{t: t, idx: map[any]int{}} }
func (mm *Map) Len() int       { return mm.n }

// hostKey returns a comparable host representation of a concrete key.
func (m *Machine) hostKey(g *Gor, v Value, t types.Type) (any, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s, ok := goStr(v)
			return s, ok
		}
		if isSym(v) {
			return nil, false
		}
		if v.P != nil {
			return v.P, true
		}
		return v.N, true
	case *types.Interface:
		ifc, ok := v.P.(*Iface)
		if !ok {
			return nil, true
		}
		if !types.Comparable(ifc.T.T) {
			m.runtimePanic(g, fmt.Sprintf("hash of unhashable type %s", ifc.T.T))
		}
		k, ok := m.hostKey(g, ifc.V, ifc.T.T)
		if !ok {
			return nil, false
		}
		return ikeyPair{ifc.T, k}, true
	case *types.Struct:
		a := v.P.(*Agg)
		var r any = "{"
		for i := range a.E {
			k, ok := m.hostKey(g, a.E[i], u.Field(i).Type())
			if !ok {
				return nil, false
			}
			r = pairKey{r, k}
		}
		return r, true
	case *types.Array:
		a := v.P.(*Agg)
		var r any = "["
		for i := range a.E {
			k, ok := m.hostKey(g, a.E[i], u.Elem())
			if !ok {
				return nil, false
			}
			r = pairKey{r, k}
		}
		return r, true
	case *types.Pointer:
		if _, ok := v.P.(*SymPtr); ok {
			return Value{P: m.ptr(g, v)}.P, true
		}
		return v.P, true
	case *types.Chan:
		return v.P, true
	}
	unsupported("map key type %s", t)
	return nil, false
}

type ikeyPair struct {
	t *RType
	k any
}
type pairKey struct{ a, b any }

func (m *Machine) mapFind(g *Gor, mm *Map, k Value) int {
	hk, ok := m.hostKey(g, k, mm.t.Key())
	if ok {
		if i, found := mm.idx[hk]; found {
			return i
		}
		if mm.syms == 0 {
			return -1
		}
	}
	for i, e := range mm.ents {
		if !e.live {
			continue
		}
		if ok && m.keyConcrete(g, e.k, mm.t.Key()) {
			continue // concrete vs concrete: the index is authoritative
		}
		eq := m.eqValue(g, k, e.k, mm.t.Key(), mm.t.Key())
		if m.Bool(eq) {
			return i
		}
	}
	return -1
}
func (m *Machine) keyConcrete(g *Gor, k Value, t types.Type) bool {
	_, ok := m.hostKey(g, k, t)
	return ok
}

func (m *Machine) mapGet(g *Gor, mm *Map, k Value) (Value, bool) {
	if kd := kindOf(mm.t.Key()); kd.w < 0 && kd.w != -1 && k.P == nil {
		if f := bitsToF(kd.w, k.N); f != f {
			return Value{}, false
		}
	}
	i := m.mapFind(g, mm, k)
	if i < 0 {
		return Value{}, false
	}
	return mm.ents[i].v, true
}

func (m *Machine) mapSet(g *Gor, mm *Map, k, v Value) {
	i := m.mapFind(g, mm, k)
	v = copyVal(v)
	if i >= 0 {
		e := mm.ents[i]
		old := e.v
		m.trailFn(func() { e.v = old })
		e.v = v
		return
	}
	e := &mapEntry{k: copyVal(k), v: v, live: true}
	hk, ok := m.hostKey(g, k, mm.t.Key())
	mm.ents = append(mm.ents, e)
	mm.n++
	pos := len(mm.ents) - 1
	if ok {
		mm.idx[hk] = pos
	} else {
		mm.syms++
	}
	m.trailFn(func() {
		mm.ents = mm.ents[:pos]
		mm.n--
		if ok {
			delete(mm.idx, hk)
		} else {
			mm.syms--
		}
	})
}

func (m *Machine) mapDelete(g *Gor, mm *Map, k Value) {
	i := m.mapFind(g, mm, k)
	if i < 0 {
		return
	}
	e := mm.ents[i]
	hk, ok := m.hostKey(g, e.k, mm.t.Key())
	e.live = false
	mm.n--
	if ok {
		delete(mm.idx, hk)
	} else {
		mm.syms--
	}
	m.trailFn(func() {
		e.live = true
		mm.n++
		if ok {
			mm.idx[hk] = i
		} else {
			mm.syms++
		}
	})
}

func (m *Machine) mapClear(mm *Map) {
	old, oi, on, os := mm.ents, mm.idx, mm.n, mm.syms
	m.trailFn(func() { mm.ents, mm.idx, mm.n, mm.syms = old, oi, on, os })
	mm.ents, mm.idx, mm.n, mm.syms = nil, map[any]int{}, 0, 0
}

type mapIter struct {
	mm     *Map
	i      int
	todo   []*mapEntry // for nondeterministic order
	nondet bool
}

func (m *Machine) mapIter(mm *Map) *mapIter {
	it := &mapIter{mm: mm}
	if m.opts.MapOrder && m.inInit == 0 && mm.n > 1 && mm.n <= 4 {
		it.nondet = true
		for _, e := range mm.ents {
			if e.live {
				it.todo = append(it.todo, e)
			}
		}
	}
	return it
}

func (m *Machine) mapNext(it *mapIter) (Value, Value, bool) {
	if it.mm == nil {
		return Value{}, Value{}, false
	}
	if it.nondet {
		for len(it.todo) > 0 {
			i := 0
			if len(it.todo) > 1 {
				i = m.Choose("maporder", len(it.todo))
			}
			e := it.todo[i]
			it.todo = append(append([]*mapEntry(nil), it.todo[:i]...), it.todo[i+1:]...)
			if e.live {
				return e.k, e.v, true
			}
		}
		return Value{}, Value{}, false
	}
	for it.i < len(it.mm.ents) {
		e := it.mm.ents[it.i]
		it.i++
		if e.live {
			return e.k, e.v, true
		}
	}
	return Value{}, Value{}, false
}
