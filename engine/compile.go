package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	slot int
	c    Value
	g    *ssa.Global
	gi   int
}

func (o *opnd) get(fr *Frame) Value {
	if o.slot >= 0 {
		return fr.s[o.slot]
	}
	if o.g != nil {
		return Value{P: fr.m.global(o.gi, o.g)}
	}
	return o.c
}

type compiler struct {
	f     *Func
	p     *Program
	slots map[ssa.Value]int
	pos   token.Pos
}

func (f *Func) prepare() {
	if f.ready {
		return
	}
	f.P.mu.Lock()
	defer f.P.mu.Unlock()
	if f.ready {
		return
	}
	f.compile()
	f.ready = true
}

func (f *Func) compile() {
	fn := f.fn
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fn.Blocks == nil && fn.Origin() != nil && fn.Origin().Pkg != nil {
		fn.Origin().Pkg.Build()
	}
	if fn.Blocks == nil {
		return
	}
	c := &compiler{f: f, p: f.P, slots: map[ssa.Value]int{}}
	n := 0
	for _, p := range fn.Params {
		c.slots[p] = n
		n++
	}
	f.nparams = n
	for _, fv := range fn.FreeVars {
		c.slots[fv] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.slots[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				f.hasDefer = true
			}
		}
	}
	if fn.Recover != nil {
		f.hasDefer = true
	}
	f.nslots = n
	f.isInit = fn.Name() == "init" && fn.Synthetic == "package initializer"
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		f.zeroRes = func() Value { return Value{} }
	case 1:
		f.zeroRes = zeroFn(res.At(0).Type())
	default:
		f.zeroRes = func() Value { return zeroOf(res) }
	}
	blocks := make([]*Block, len(fn.Blocks))
	for i := range blocks {
		blocks[i] = &Block{idx: i}
	}
	for i, b := range fn.Blocks {
		blk := blocks[i]
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				c.pos = in.Pos()
			}
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.If:
				cond := c.op(x.Cond)
				t := c.edge(b, b.Succs[0], blocks)
				e := c.edge(b, b.Succs[1], blocks)
				pos := c.pos
				mg := c.mergeRegion(b, x, blocks)
				blk.term = func(fr *Frame) *Block {
					cv := cond.get(fr)
					if cv.P == nil {
						if cv.N != 0 {
							return t(fr)
						}
						return e(fr)
					}
					fr.ipos = pos
					if mg != nil {
						if nb := mg(fr, cv); nb != nil {
							return nb
						}
					}
					if fr.m.Bool(cv) {
						return t(fr)
					}
					return e(fr)
				}
			case *ssa.Jump:
				blk.term = c.edge(b, b.Succs[0], blocks)
			case *ssa.Return:
				ops := c.ops(x.Results)
				switch len(ops) {
				case 0:
					blk.term = func(fr *Frame) *Block { return nil }
				case 1:
					o := ops[0]
					blk.term = func(fr *Frame) *Block { fr.result = o.get(fr); return nil }
				default:
					blk.term = func(fr *Frame) *Block {
						a := &Agg{E: make([]Value, len(ops))}
						for i := range ops {
							a.E[i] = ops[i].get(fr)
						}
						fr.result = Value{P: a}
						return nil
					}
				}
			case *ssa.Panic:
				o := c.op(x.X)
				pos := c.pos
				blk.term = func(fr *Frame) *Block {
					fr.ipos = pos
					v := o.get(fr)
					panic(&goPanic{v: v, msg: fr.m.showPanic(fr.g, v), where: fr.g.where()})
				}
			default:
				if f.isInit {
					if call, ok := in.(*ssa.Call); ok {
						if cf, ok := call.Call.Value.(*ssa.Function); ok && cf.Name() == "init" && cf.Pkg != fn.Pkg {
							continue
						}
					}
				}
				if i := c.instr(in); i != nil {
					blk.ins = append(blk.ins, i)
				}
			}
		}
		if blk.term == nil {
			blk.term = func(fr *Frame) *Block { return nil }
		}
	}
	f.blocks = blocks
	if fn.Recover != nil {
		f.recoverB = blocks[fn.Recover.Index]
	}
}

func (m *Machine) showPanic(g *Gor, v Value) string {
	if ifc, ok := v.P.(*Iface); ok {
		if isString(ifc.T.T) {
			return showStr(ifc.V)
		}
		return fmt.Sprintf("value of type %s", ifc.T.T)
	}
	return "nil"
}

func (c *compiler) edge(from, to *ssa.BasicBlock, blocks []*Block) func(fr *Frame) *Block {
	tgt := blocks[to.Index]
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var dst []int
	var src []opnd
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		dst = append(dst, c.slots[ph])
		src = append(src, c.op(ph.Edges[pi]))
	}
	switch len(dst) {
	case 0:
		return func(fr *Frame) *Block { return tgt }
	case 1:
		d, s := dst[0], src[0]
		return func(fr *Frame) *Block { fr.s[d] = s.get(fr); return tgt }
	case 2:
		d0, s0, d1, s1 := dst[0], src[0], dst[1], src[1]
		return func(fr *Frame) *Block {
			a, b := s0.get(fr), s1.get(fr)
			fr.s[d0], fr.s[d1] = a, b
			return tgt
		}
	}
	return func(fr *Frame) *Block {
		var buf [8]Value
		tmp := buf[:0]
		for i := range src {
			tmp = append(tmp, src[i].get(fr))
		}
		for i, d := range dst {
			fr.s[d] = tmp[i]
		}
		return tgt
	}
}

func (c *compiler) ops(vs []ssa.Value) []opnd {
	r := make([]opnd, len(vs))
	for i, v := range vs {
		r[i] = c.op(v)
	}
	return r
}

func (c *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case nil:
		return opnd{slot: -1}
	case *ssa.Const:
		return opnd{slot: -1, c: constValue(x)}
	case *ssa.Global:
		return opnd{slot: -1, g: x, gi: c.p.globalIndex(x)}
	case *ssa.Function:
		return opnd{slot: -1, c: Value{P: &Closure{Fn: c.p.fnLocked(x)}}}
	case *ssa.Builtin:
		return opnd{slot: -1}
	}
	s, ok := c.slots[v]
	if !ok {
		panic(engineError{fmt.Sprintf("no slot for %s in %s", v.Name(), c.f.name)})
	}
	return opnd{slot: s}
}

func constValue(x *ssa.Const) Value {
	if x.Value == nil {
		return zeroOf(x.Type())
	}
	t := x.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		if tp, ok := t.(*types.Interface); ok {
			_ = tp
		}
		panic(engineError{fmt.Sprintf("const of type %s", x.Type())})
	}
	if b.Info()&types.IsString != 0 {
		if x.Value.Kind() == constant.String {
			return vstr(constant.StringVal(x.Value))
		}
		n, _ := constant.Int64Val(x.Value)
		return vstr(string(rune(n)))
	}
	if b.Info()&types.IsComplex != 0 {
		re, _ := constant.Float64Val(constant.Real(x.Value))
		im, _ := constant.Float64Val(constant.Imag(x.Value))
		return Value{P: complex(re, im)}
	}
	k := kindOf(x.Type())
	switch {
	case k.w == 0:
		return vbool(constant.BoolVal(x.Value))
	case k.w == -64:
		f, _ := constant.Float64Val(constant.ToFloat(x.Value))
		return Value{N: fToBits(-64, f)}
	case k.w == -32:
		f, _ := constant.Float32Val(constant.ToFloat(x.Value))
		return Value{N: fToBits(-32, float64(f))}
	case k.w > 0:
		iv := constant.ToInt(x.Value)
		if i, ok := constant.Int64Val(iv); ok {
			return Value{N: uint64(i) & maskW(k.w)}
		}
		u, _ := constant.Uint64Val(iv)
		return Value{N: u & maskW(k.w)}
	}
	panic(engineError{fmt.Sprintf("const of type %s", x.Type())})
}

func derefT(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

func coreType(t types.Type) types.Type {
	return t.Underlying()
}

func (c *compiler) instr(in ssa.Instruction) func(fr *Frame) {
	pos := c.pos
	var d int
	if v, ok := in.(ssa.Value); ok {
		d = c.slots[v]
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		t := derefT(x.Type())
		if !needsAgg(t) {
			return func(fr *Frame) { fr.s[d] = Value{P: new(Value)} }
		}
		z := zeroFn(t)
		return func(fr *Frame) { v := z(); fr.s[d] = Value{P: &v} }
	case *ssa.BinOp:
		f := c.binop(x.Op, x.X.Type(), x.Y.Type())
		a, b := c.op(x.X), c.op(x.Y)
		return func(fr *Frame) {
			fr.ipos = pos
			fr.s[d] = f(fr, a.get(fr), b.get(fr))
		}
	case *ssa.UnOp:
		return c.unop(x, d, pos)
	case *ssa.Call:
		call := c.call(&x.Call, pos)
		return func(fr *Frame) { fr.s[d] = call(fr) }
	case *ssa.ChangeType:
		o := c.op(x.X)
		return func(fr *Frame) { fr.s[d] = o.get(fr) }
	case *ssa.ChangeInterface:
		o := c.op(x.X)
		return func(fr *Frame) { fr.s[d] = o.get(fr) }
	case *ssa.MultiConvert:
		return c.convert(x.X, x.Type(), d, pos)
	case *ssa.Convert:
		return c.convert(x.X, x.Type(), d, pos)
	case *ssa.SliceToArrayPointer:
		return func(fr *Frame) { unsupported("SliceToArrayPointer") }
	case *ssa.MakeInterface:
		o := c.op(x.X)
		rt := c.p.rtypeLocked(types.Unalias(x.X.Type()))
		return func(fr *Frame) { fr.s[d] = Value{P: &Iface{T: rt, V: o.get(fr)}} }
	case *ssa.Extract:
		o := c.op(x.Tuple)
		i := x.Index
		return func(fr *Frame) {
			a, ok := o.get(fr).P.(*Agg)
			if !ok {
				unsupported("extract from %T", o.get(fr).P)
			}
			fr.s[d] = a.E[i]
		}
	case *ssa.Field:
		o := c.op(x.X)
		i := x.Field
		return func(fr *Frame) {
			a, ok := o.get(fr).P.(*Agg)
			if !ok {
				unsupported("field of %T", o.get(fr).P)
			}
			fr.s[d] = a.E[i]
		}
	case *ssa.FieldAddr:
		o := c.op(x.X)
		i := x.Field
		return func(fr *Frame) {
			v := o.get(fr)
			p, ok := v.P.(*Value)
			if !ok {
				fr.ipos = pos
				p = fr.m.ptr(fr.g, v)
			}
			a, ok := p.P.(*Agg)
			if !ok {
				unsupported("fieldaddr of %T", p.P)
			}
			fr.s[d] = Value{P: &a.E[i]}
		}
	case *ssa.Index:
		o, ix := c.op(x.X), c.op(x.Index)
		ik := kindOf(x.Index.Type())
		str := isString(x.X.Type())
		var ew int
		if str {
			ew = 8
		} else if at, ok := x.X.Type().Underlying().(*types.Array); ok {
			ew = kindOf(at.Elem()).w
		}
		return func(fr *Frame) {
			fr.ipos = pos
			v := o.get(fr)
			if str {
				fr.s[d] = fr.m.strIndex(fr.g, v, ix.get(fr), ik)
				return
			}
			a := v.P.(*Agg)
			fr.s[d] = fr.m.indexVals(fr.g, a.E, ix.get(fr), ik, ew)
		}
	case *ssa.IndexAddr:
		return c.indexAddr(x, d, pos)
	case *ssa.Lookup:
		o, ix := c.op(x.X), c.op(x.Index)
		if isString(x.X.Type()) {
			ik := kindOf(x.Index.Type())
			return func(fr *Frame) {
				fr.ipos = pos
				fr.s[d] = fr.m.strIndex(fr.g, o.get(fr), ix.get(fr), ik)
			}
		}
		mt := x.X.Type().Underlying().(*types.Map)
		z := zeroFn(mt.Elem())
		commaOk := x.CommaOk
		return func(fr *Frame) {
			fr.ipos = pos
			mv := o.get(fr)
			var v Value
			found := false
			if mm, ok := mv.P.(*Map); ok {
				if fr.m.race != nil {
					fr.m.raceRead(fr.g, &mm.cell)
				}
				v, found = fr.m.mapGet(fr.g, mm, ix.get(fr))
			} else if mv.P != nil {
				unsupported("lookup in %T", mv.P)
			}
			if !found {
				v = z()
			}
			if commaOk {
				fr.s[d] = Value{P: &Agg{E: []Value{v, vbool(found)}}}
			} else {
				fr.s[d] = v
			}
		}
	case *ssa.MapUpdate:
		o, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		return func(fr *Frame) {
			fr.ipos = pos
			mv := o.get(fr)
			mm, ok := mv.P.(*Map)
			if !ok {
				panic(&goPanic{v: Value{P: &Iface{T: fr.m.P.strT, V: vstr("assignment to entry in nil map")}}, msg: "assignment to entry in nil map", where: fr.g.where()})
			}
			if fr.m.race != nil {
				fr.m.raceWrite(fr.g, &mm.cell)
			}
			fr.m.mapSet(fr.g, mm, k.get(fr), v.get(fr))
		}
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		return func(fr *Frame) { fr.s[d] = Value{P: newMap(mt)} }
	case *ssa.MakeChan:
		o := c.op(x.Size)
		et := x.Type().Underlying().(*types.Chan).Elem()
		z := zeroFn(et)
		return func(fr *Frame) {
			n := int(int64(fr.m.Concretize(o.get(fr), 64, 64)))
			fr.s[d] = Value{P: &Chan{cap: n, zero: z}}
		}
	case *ssa.MakeSlice:
		l, cp := c.op(x.Len), c.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		z := zeroFn(et)
		agg := needsAgg(et)
		return func(fr *Frame) {
			fr.ipos = pos
			lw, cw := l.get(fr), cp.get(fr)
			n := fr.m.concInt(fr.g, lw, x.Len.Type())
			k := fr.m.concInt(fr.g, cw, x.Cap.Type())
			if n < 0 || n > 1<<24 {
				fr.m.runtimePanic(fr.g, "makeslice: len out of range")
			}
			if k < n || k > 1<<24 {
				fr.m.runtimePanic(fr.g, "makeslice: cap out of range")
			}
			s := make([]Value, k)
			if agg {
				for i := range s {
					s[i] = z()
				}
			}
			fr.s[d] = mkSlice(s[:n])
		}
	case *ssa.MakeClosure:
		f := c.p.fnLocked(x.Fn.(*ssa.Function))
		bs := c.ops(x.Bindings)
		return func(fr *Frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.s[d] = Value{P: &Closure{Fn: f, Env: env}}
		}
	case *ssa.Slice:
		return c.slice(x, d, pos)
	case *ssa.Store:
		a, v := c.op(x.Addr), c.op(x.Val)
		return func(fr *Frame) {
			fr.ipos = pos
			fr.m.store(fr.g, a.get(fr), v.get(fr))
		}
	case *ssa.TypeAssert:
		return c.typeAssert(x, d, pos)
	case *ssa.Range:
		o := c.op(x.X)
		str := isString(x.X.Type())
		return func(fr *Frame) {
			v := o.get(fr)
			if str {
				fr.s[d] = Value{P: &strIter{s: v}}
			} else {
				if mm, ok := v.P.(*Map); ok {
					if fr.m.race != nil {
						fr.m.raceRead(fr.g, &mm.cell)
					}
					fr.s[d] = Value{P: fr.m.mapIter(mm)}
				} else {
					fr.s[d] = Value{P: &mapIter{}}
				}
			}
		}
	case *ssa.Next:
		o := c.op(x.Iter)
		if x.IsString {
			return func(fr *Frame) {
				fr.ipos = pos
				it := o.get(fr).P.(*strIter)
				fr.s[d] = fr.m.strNext(fr.g, it)
			}
		}
		return func(fr *Frame) {
			it := o.get(fr).P.(*mapIter)
			k, v, ok := fr.m.mapNext(it)
			fr.s[d] = Value{P: &Agg{E: []Value{vbool(ok), k, v}}}
		}
	case *ssa.Go:
		prep := c.callPrep(&x.Call, pos)
		return func(fr *Frame) {
			fr.ipos = pos
			run := prep(fr)
			fr.m.spawn(fr.g, fmt.Sprintf("go@%s", fr.m.posStr(pos)), run)
		}
	case *ssa.Defer:
		prep := c.deferPrep(&x.Call, pos)
		return func(fr *Frame) {
			fr.ipos = pos
			fr.defers = append(fr.defers, deferred{call: prep(fr)})
		}
	case *ssa.RunDefers:
		return func(fr *Frame) { fr.runDefers() }
	case *ssa.Send:
		ch, v := c.op(x.Chan), c.op(x.X)
		return func(fr *Frame) {
			fr.ipos = pos
			fr.m.chanSend(fr.g, ch.get(fr), v.get(fr))
		}
	case *ssa.Select:
		return c.selectI(x, d, pos)
	}
	panic(engineError{fmt.Sprintf("instruction %T", in)})
}

func (m *Machine) posStr(p token.Pos) string {
	q := m.P.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", shortFile(q.Filename), q.Line)
}

func (m *Machine) concInt(g *Gor, v Value, t types.Type) int {
	k := kindOf(t)
	n := m.Concretize(v, k.w, 512)
	if k.signed {
		return int(sext64(n, k.w))
	}
	return int(n)
}

// idx64 normalises an index to a 64 bit term/value.
func (m *Machine) idx64(v Value, k kind) Value {
	if t, ok := v.P.(*Term); ok {
		if k.signed {
			return Value{P: m.ctx.SExt(t, 64)}
		}
		return Value{P: m.ctx.ZExt(t, 64)}
	}
	if k.signed {
		return Value{N: uint64(sext64(v.N, k.w))}
	}
	return v
}

// boundsCheck panics (in the program) when idx is not < n.
func (m *Machine) boundsCheck(g *Gor, iv Value, n int) {
	if t, ok := iv.P.(*Term); ok {
		if !m.Branch(m.ctx.ULt(t, m.ctx.Const(64, uint64(n)))) {
			m.runtimePanic(g, fmt.Sprintf("index out of range with length %d", n))
		}
		return
	}
	if iv.N >= uint64(n) {
		m.runtimePanic(g, fmt.Sprintf("index out of range [%d] with length %d", int64(iv.N), n))
	}
}

func (m *Machine) strIndex(g *Gor, s Value, ix Value, k kind) Value {
	iv := m.idx64(ix, k)
	n := strLen(s)
	m.boundsCheck(g, iv, n)
	if t, ok := iv.P.(*Term); ok {
		if r, ok := m.iteSelectW(strBytes(s), t, 8); ok {
			return r
		}
		return strAt(s, int(m.Concretize(iv, 64, 4096)))
	}
	return strAt(s, int(iv.N))
}

func (m *Machine) indexVals(g *Gor, s []Value, ix Value, k kind, ew int) Value {
	iv := m.idx64(ix, k)
	m.boundsCheck(g, iv, len(s))
	if t, ok := iv.P.(*Term); ok {
		if ew != -1 {
			if r, ok := m.iteSelectW(s, t, ew); ok {
				return r
			}
		}
		return s[int(m.Concretize(iv, 64, 4096))]
	}
	return s[iv.N]
}

func (c *compiler) indexAddr(x *ssa.IndexAddr, d int, pos token.Pos) func(fr *Frame) {
	o, ix := c.op(x.X), c.op(x.Index)
	ik := kindOf(x.Index.Type())
	isSlice := false
	var et types.Type
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		isSlice = true
		et = u.Elem()
	case *types.Pointer:
		et = u.Elem().Underlying().(*types.Array).Elem()
	}
	ew := kindOf(et).w
	return func(fr *Frame) {
		m := fr.m
		var s []Value
		v := o.get(fr)
		fr.ipos = pos
		if isSlice {
			s = sliceOf(v)
		} else {
			s = m.ptr(fr.g, v).P.(*Agg).E
		}
		iv := ix.get(fr)
		if iv.P == nil && !(ik.signed && ik.w < 64) {
			if iv.N >= uint64(len(s)) {
				m.runtimePanic(fr.g, fmt.Sprintf("index out of range [%d] with length %d", int64(iv.N), len(s)))
			}
			fr.s[d] = Value{P: &s[iv.N]}
			return
		}
		iv = m.idx64(iv, ik)
		m.boundsCheck(fr.g, iv, len(s))
		if t, ok := iv.P.(*Term); ok {
			if ew != -1 && len(s) <= 4096 {
				fr.s[d] = Value{P: &SymPtr{S: s, Idx: t}, N: uint64(int64(ew))}
				return
			}
			i := m.Concretize(iv, 64, 4096)
			fr.s[d] = Value{P: &s[i]}
			return
		}
		fr.s[d] = Value{P: &s[iv.N]}
	}
}

func (c *compiler) slice(x *ssa.Slice, d int, pos token.Pos) func(fr *Frame) {
	o := c.op(x.X)
	var lo, hi, mx opnd
	hasLo, hasHi, hasMx := x.Low != nil, x.High != nil, x.Max != nil
	var lt, ht, mt types.Type
	if hasLo {
		lo = c.op(x.Low)
		lt = x.Low.Type()
	}
	if hasHi {
		hi = c.op(x.High)
		ht = x.High.Type()
	}
	if hasMx {
		mx = c.op(x.Max)
		mt = x.Max.Type()
	}
	str := isString(x.X.Type())
	_, isPtr := x.X.Type().Underlying().(*types.Pointer)
	return func(fr *Frame) {
		m := fr.m
		fr.ipos = pos
		v := o.get(fr)
		var s []Value
		n, cp := 0, 0
		if str {
			n = strLen(v)
			cp = n
		} else if isPtr {
			s = m.ptr(fr.g, v).P.(*Agg).E
			n, cp = len(s), len(s)
		} else {
			s = sliceOf(v)
			n, cp = len(s), cap(s)
		}
		l, h, k := 0, n, cp
		// symbolic bounds: check range first so that enumeration stays small
		if hasHi {
			hv := hi.get(fr)
			if isSym(hv) {
				m.rangeCheck(fr.g, hv, kindOf(ht), cp)
			}
			h = m.concInt(fr.g, hv, ht)
		}
		if hasMx {
			mv := mx.get(fr)
			k = m.concInt(fr.g, mv, mt)
		}
		if hasLo {
			lv := lo.get(fr)
			if isSym(lv) {
				m.rangeCheck(fr.g, lv, kindOf(lt), h)
			}
			l = m.concInt(fr.g, lv, lt)
		}
		if k < 0 || k > cp {
			m.runtimePanic(fr.g, fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", k, cp))
		}
		if h < 0 || h > k {
			m.runtimePanic(fr.g, fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, k))
		}
		if l < 0 || l > h {
			m.runtimePanic(fr.g, fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		if str {
			fr.s[d] = strSlice(v, l, h)
			return
		}
		if s == nil && !isPtr {
			fr.s[d] = Value{}
			return
		}
		fr.s[d] = mkSlice(s[l:h:k])
	}
}

func (m *Machine) rangeCheck(g *Gor, v Value, k kind, n int) {
	iv := m.idx64(v, k)
	t := m.term(iv, 64)
	if !m.Branch(m.ctx.ULe(t, m.ctx.Const(64, uint64(n)))) {
		m.runtimePanic(g, fmt.Sprintf("slice bounds out of range with capacity %d", n))
	}
}

func (c *compiler) typeAssert(x *ssa.TypeAssert, d int, pos token.Pos) func(fr *Frame) {
	o := c.op(x.X)
	commaOk := x.CommaOk
	at := types.Unalias(x.AssertedType)
	z := zeroFn(at)
	it, isI := at.Underlying().(*types.Interface)
	var rt *RType
	if !isI {
		rt = c.p.rtypeLocked(at)
	}
	tname := at.String()
	return func(fr *Frame) {
		v := o.get(fr)
		ok := false
		var res Value
		if ifc, is := v.P.(*Iface); is {
			if isI {
				if fr.m.P.implements(ifc.T, it) {
					ok, res = true, v
				}
			} else if ifc.T == rt {
				ok, res = true, ifc.V
			}
		} else if v.P != nil {
			unsupported("type assertion on %T", v.P)
		}
		if commaOk {
			if !ok {
				res = z()
			}
			fr.s[d] = Value{P: &Agg{E: []Value{res, vbool(ok)}}}
			return
		}
		if !ok {
			fr.ipos = pos
			dyn := "nil"
			if ifc, is := v.P.(*Iface); is {
				dyn = ifc.T.T.String()
			}
			fr.m.runtimePanic(fr.g, fmt.Sprintf("interface conversion: interface is %s, not %s", dyn, tname))
		}
		fr.s[d] = res
	}
}

// ---- calls

func (c *compiler) call(cc *ssa.CallCommon, pos token.Pos) func(fr *Frame) Value {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		f := c.builtin(b, cc)
		return func(fr *Frame) Value { fr.ipos = pos; return f(fr) }
	}
	args := c.ops(cc.Args)
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		name := cc.Method.Name()
		pkg := cc.Method.Pkg()
		var lastT *RType
		var lastF *Func
		_ = lastT
		_ = lastF
		return func(fr *Frame) Value {
			fr.ipos = pos
			rv := recv.get(fr)
			ifc, ok := rv.P.(*Iface)
			if !ok {
				if rv.P != nil {
					unsupported("invoke on %T", rv.P)
				}
				fr.m.runtimePanic(fr.g, "invalid memory address or nil pointer dereference")
			}
			f := fr.m.P.lookupMethod(ifc.T, pkg, name)
			av := make([]Value, len(args)+1)
			av[0] = ifc.V
			for i := range args {
				av[i+1] = args[i].get(fr)
			}
			return fr.m.call(fr.g, f, av, nil)
		}
	}
	if fn, ok := cc.Value.(*ssa.Function); ok {
		f := c.p.fnLocked(fn)
		return func(fr *Frame) Value {
			fr.ipos = pos
			av := make([]Value, len(args))
			for i := range args {
				av[i] = args[i].get(fr)
			}
			return fr.m.call(fr.g, f, av, nil)
		}
	}
	fv := c.op(cc.Value)
	return func(fr *Frame) Value {
		fr.ipos = pos
		cl := fr.m.closure(fr.g, fv.get(fr))
		av := make([]Value, len(args))
		for i := range args {
			av[i] = args[i].get(fr)
		}
		if cl.Nat != nil {
			return cl.Nat(fr.g, av)
		}
		return fr.m.call(fr.g, cl.Fn, av, cl.Env)
	}
}

// callPrep evaluates operands now and returns the call to run later (go).
func (c *compiler) callPrep(cc *ssa.CallCommon, pos token.Pos) func(fr *Frame) func(g *Gor) {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		_ = b
		return func(fr *Frame) func(g *Gor) { unsupported("go builtin"); return nil }
	}
	args := c.ops(cc.Args)
	fv := c.op(cc.Value)
	inv := cc.IsInvoke()
	return func(fr *Frame) func(g *Gor) {
		m := fr.m
		av := make([]Value, 0, len(args)+1)
		f := fv.get(fr)
		if inv {
			ifc, ok := f.P.(*Iface)
			if !ok {
				m.runtimePanic(fr.g, "invalid memory address or nil pointer dereference")
			}
			av = append(av, ifc.V)
			f = Value{P: &Closure{Fn: m.P.lookupMethod(ifc.T, cc.Method.Pkg(), cc.Method.Name())}}
		}
		for i := range args {
			av = append(av, args[i].get(fr))
		}
		return func(g *Gor) { m.callValue(g, f, av) }
	}
}

func (c *compiler) deferPrep(cc *ssa.CallCommon, pos token.Pos) func(fr *Frame) func() {
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		// evaluate the operands now
		args := c.ops(cc.Args)
		b := cc.Value.(*ssa.Builtin)
		return func(fr *Frame) func() {
			av := make([]Value, len(args))
			for i := range args {
				av[i] = args[i].get(fr)
			}
			return func() {
				switch b.Name() {
				case "close":
					fr.m.chanClose(fr.g, av[0])
				case "recover":
					fr.m.recover(fr.g, fr)
				case "print", "println":
				case "delete":
					if mm, ok := av[0].P.(*Map); ok {
						fr.m.mapDelete(fr.g, mm, av[1])
					}
				default:
					unsupported("defer builtin %s", b.Name())
				}
			}
		}
	}
	args := c.ops(cc.Args)
	fv := c.op(cc.Value)
	inv := cc.IsInvoke()
	return func(fr *Frame) func() {
		m := fr.m
		av := make([]Value, 0, len(args)+1)
		f := fv.get(fr)
		if inv {
			ifc, ok := f.P.(*Iface)
			if !ok {
				m.runtimePanic(fr.g, "invalid memory address or nil pointer dereference")
			}
			av = append(av, ifc.V)
			f = Value{P: &Closure{Fn: m.P.lookupMethod(ifc.T, cc.Method.Pkg(), cc.Method.Name())}}
		}
		for i := range args {
			av = append(av, args[i].get(fr))
		}
		return func() { m.callDeferred(fr, f, av) }
	}
}

func (m *Machine) recover(g *Gor, parent *Frame) Value {
	if parent == nil || parent.panicking == nil || !parent.nret {
		return Value{}
	}
	p := parent.panicking
	parent.panicking = nil
	parent.recovered = true
	return p.v
}

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon) func(fr *Frame) Value {
	args := c.ops(cc.Args)
	switch b.Name() {
	case "len":
		t := cc.Args[0].Type()
		a := args[0]
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return func(fr *Frame) Value { return vint(strLen(a.get(fr))) }
		case *types.Slice:
			return func(fr *Frame) Value { return vint(len(sliceOf(a.get(fr)))) }
		case *types.Map:
			return func(fr *Frame) Value {
				if mm, ok := a.get(fr).P.(*Map); ok {
					if fr.m.race != nil {
						fr.m.raceRead(fr.g, &mm.cell)
					}
					return vint(mm.Len())
				}
				return Value{}
			}
		case *types.Chan:
			return func(fr *Frame) Value {
				if ch, ok := a.get(fr).P.(*Chan); ok {
					return vint(len(ch.buf))
				}
				return Value{}
			}
		case *types.Array:
			return func(fr *Frame) Value { return vint(int(u.Len())) }
		case *types.Pointer:
			n := int(u.Elem().Underlying().(*types.Array).Len())
			return func(fr *Frame) Value { return vint(n) }
		}
	case "cap":
		a := args[0]
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return func(fr *Frame) Value { return vint(cap(sliceOf(a.get(fr)))) }
		case *types.Chan:
			return func(fr *Frame) Value {
				if ch, ok := a.get(fr).P.(*Chan); ok {
					return vint(ch.cap)
				}
				return Value{}
			}
		case *types.Array:
			return func(fr *Frame) Value { return vint(int(u.Len())) }
		case *types.Pointer:
			n := int(u.Elem().Underlying().(*types.Array).Len())
			return func(fr *Frame) Value { return vint(n) }
		}
	case "append":
		a, b2 := args[0], args[1]
		str := isString(cc.Args[1].Type())
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		agg := needsAgg(et)
		esize, eptr := elemLayout(et)
		return func(fr *Frame) Value {
			m := fr.m
			s := sliceOf(a.get(fr))
			var t []Value
			if str {
				t = strBytes(b2.get(fr))
			} else {
				t = sliceOf(b2.get(fr))
			}
			if len(t) == 0 {
				return a.get(fr)
			}
			if len(s)+len(t) <= cap(s) {
				r := s[:len(s)+len(t)]
				for i := range t {
					p := &r[len(s)+i]
					if m.race != nil {
						m.raceWrite(fr.g, p)
					}
					m.logTrail(p)
					*p = copyVal(t[i])
				}
				return mkSlice(r)
			}
			nc := growCap(cap(s), len(s)+len(t), esize, eptr)
			r := growTo(s, len(s)+len(t), nc, et, agg)
			for i := range t {
				r[len(s)+i] = copyVal(t[i])
			}
			return mkSlice(r)
		}
	case "copy":
		a, b2 := args[0], args[1]
		str := isString(cc.Args[1].Type())
		return func(fr *Frame) Value {
			s := sliceOf(a.get(fr))
			var t []Value
			if str {
				t = strBytes(b2.get(fr))
			} else {
				t = sliceOf(b2.get(fr))
			}
			n := len(t)
			if len(s) < n {
				n = len(s)
			}
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(t[i])
			}
			for i := 0; i < n; i++ {
				fr.m.logTrail(&s[i])
				if fr.m.race != nil {
					fr.m.raceWrite(fr.g, &s[i])
				}
				s[i] = tmp[i]
			}
			return vint(n)
		}
	case "delete":
		return func(fr *Frame) Value {
			if mm, ok := args[0].get(fr).P.(*Map); ok {
				if fr.m.race != nil {
					fr.m.raceWrite(fr.g, &mm.cell)
				}
				fr.m.mapDelete(fr.g, mm, args[1].get(fr))
			}
			return Value{}
		}
	case "clear":
		return func(fr *Frame) Value {
			switch x := args[0].get(fr).P.(type) {
			case *Map:
				fr.m.mapClear(x)
			case *Slice:
				z := zeroFn(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
				for i := range x.S {
					fr.m.logTrail(&x.S[i])
					x.S[i] = z()
				}
			}
			return Value{}
		}
	case "close":
		return func(fr *Frame) Value { fr.m.chanClose(fr.g, args[0].get(fr)); return Value{} }
	case "panic":
		return func(fr *Frame) Value {
			v := args[0].get(fr)
			panic(&goPanic{v: v, msg: fr.m.showPanic(fr.g, v), where: fr.g.where()})
		}
	case "recover":
		return func(fr *Frame) Value { return fr.m.recover(fr.g, fr.parent) }
	case "print", "println":
		return func(fr *Frame) Value { return Value{} }
	case "min", "max":
		t := cc.Args[0].Type()
		lt := c.binop(token.LSS, t, t)
		isMin := b.Name() == "min"
		k := kindOf(t)
		return func(fr *Frame) Value {
			r := args[0].get(fr)
			for i := 1; i < len(args); i++ {
				v := args[i].get(fr)
				x, y := v, r
				if !isMin {
					x, y = r, v
				}
				cond := lt(fr, x, y)
				if ct, ok := cond.P.(*Term); ok && k.w != -1 {
					r = fromTerm(fr.m.ctx.Ite(ct, fr.m.term(v, k.w), fr.m.term(r, k.w)))
				} else if fr.m.Bool(cond) {
					r = v
				}
			}
			return r
		}
	case "ssa:wrapnilchk":
		return func(fr *Frame) Value {
			v := args[0].get(fr)
			if v.P == nil {
				fr.m.runtimePanic(fr.g, "value method called using nil pointer")
			}
			return v
		}
	case "real", "imag", "complex":
		return func(fr *Frame) Value { unsupported("complex"); return Value{} }
	case "String": // unsafe.String
		return func(fr *Frame) Value {
			n := int(fr.m.Concretize(args[1].get(fr), 64, 256))
			if n == 0 {
				return Value{}
			}
			p := fr.m.ptr(fr.g, args[0].get(fr))
			return mkStr(hostSlice(p, n))
		}
	case "StringData":
		return func(fr *Frame) Value {
			b := strBytes(args[0].get(fr))
			if len(b) == 0 {
				return Value{}
			}
			b = append([]Value(nil), b...)
			return Value{P: &b[0]}
		}
	case "SliceData":
		return func(fr *Frame) Value {
			s := sliceOf(args[0].get(fr))
			if cap(s) == 0 {
				if args[0].get(fr).P == nil {
					return Value{}
				}
				return Value{P: new(Value)}
			}
			return Value{P: &s[:1][0]}
		}
	case "Slice": // unsafe.Slice
		return func(fr *Frame) Value {
			n := int(fr.m.Concretize(args[1].get(fr), 64, 256))
			if args[0].get(fr).P == nil {
				return Value{}
			}
			p := fr.m.ptr(fr.g, args[0].get(fr))
			return mkSlice(hostSlice(p, n))
		}
	}
	return func(fr *Frame) Value { unsupported("builtin %s", b.Name()); return Value{} }
}

func growTo(s []Value, n, nc int, et types.Type, agg bool) []Value {
	r := make([]Value, n, nc)
	copy(r, s)
	if agg {
		for i := range s {
			r[i] = copyVal(s[i])
		}
		z := zeroFn(et)
		for i := len(s); i < nc; i++ {
			r[:nc][i] = z()
		}
	}
	return r
}

// ---- unary ops, conversions
func (c *compiler) unop(x *ssa.UnOp, d int, pos token.Pos) func(fr *Frame) {
	o := c.op(x.X)
	k := kindOf(x.Type())
	switch x.Op {
	case token.MUL:
		et := derefT(x.X.Type())
		agg := needsAgg(et)
		ew := kindOf(et).w
		return func(fr *Frame) {
			v := o.get(fr)
			if p, ok := v.P.(*Value); ok && fr.m.race == nil {
				if agg {
					fr.s[d] = copyVal(*p)
				} else {
					fr.s[d] = *p
				}
				return
			}
			fr.ipos = pos
			if sp, ok := v.P.(*SymPtr); ok && ew != -1 {
				if r, ok := fr.m.iteSelectW(sp.S, sp.Idx, ew); ok {
					fr.s[d] = r
					return
				}
			}
			fr.s[d] = fr.m.load(fr.g, v, agg)
		}
	case token.NOT:
		return func(fr *Frame) {
			v := o.get(fr)
			if t, ok := v.P.(*Term); ok {
				fr.s[d] = fromTerm(fr.m.ctx.Not(t))
				return
			}
			fr.s[d] = Value{N: v.N ^ 1}
		}
	case token.SUB:
		return func(fr *Frame) {
			v := o.get(fr)
			if t, ok := v.P.(*Term); ok {
				if k.w < 0 {
					fr.s[d] = fromTerm(fr.m.ctx.Fun1(OpFNeg, k.w, 0, t))
				} else {
					fr.s[d] = fromTerm(fr.m.ctx.Neg(t))
				}
				return
			}
			if k.w < 0 {
				if cx, ok := v.P.(complex128); ok {
					fr.s[d] = Value{P: -cx}
					return
				}
				fr.s[d] = Value{N: fToBits(k.w, -bitsToF(k.w, v.N))}
				return
			}
			fr.s[d] = Value{N: -v.N & maskW(k.w)}
		}
	case token.XOR:
		return func(fr *Frame) {
			v := o.get(fr)
			if t, ok := v.P.(*Term); ok {
				fr.s[d] = fromTerm(fr.m.ctx.BvNot(t))
				return
			}
			fr.s[d] = Value{N: ^v.N & maskW(k.w)}
		}
	case token.ARROW:
		commaOk := x.CommaOk
		return func(fr *Frame) {
			fr.ipos = pos
			v, ok := fr.m.chanRecv(fr.g, o.get(fr))
			if commaOk {
				fr.s[d] = Value{P: &Agg{E: []Value{v, vbool(ok)}}}
			} else {
				fr.s[d] = v
			}
		}
	}
	panic(engineError{"unop " + x.Op.String()})
}

func (c *compiler) convert(xv ssa.Value, to types.Type, d int, pos token.Pos) func(fr *Frame) {
	o := c.op(xv)
	from := xv.Type()
	fk, tk := kindOf(from), kindOf(to)
	fu, tu := from.Underlying(), to.Underlying()
	if tp, ok := fu.(*types.TypeParam); ok {
		_ = tp
		return func(fr *Frame) { unsupported("convert of type parameter") }
	}
	if isString(to) {
		switch {
		case isString(from):
			return func(fr *Frame) { fr.s[d] = o.get(fr) }
		case fk.w > 0: // rune -> string
			return func(fr *Frame) {
				fr.ipos = pos
				fr.s[d] = fr.m.runeToString(fr.g, fr.m.idx64(o.get(fr), fk))
			}
		}
		if st, ok := fu.(*types.Slice); ok {
			if kindOf(st.Elem()).w == 8 {
				return func(fr *Frame) { fr.s[d] = mkStr(sliceOf(o.get(fr))) }
			}
			return func(fr *Frame) {
				fr.ipos = pos
				var r Value
				for _, x := range sliceOf(o.get(fr)) {
					r = strConcat(r, fr.m.runeToString(fr.g, fr.m.idx64(x, kind{32, true})))
				}
				fr.s[d] = r
			}
		}
	}
	if isString(from) {
		if st, ok := tu.(*types.Slice); ok {
			if kindOf(st.Elem()).w == 8 {
				return func(fr *Frame) {
					b := strBytes(o.get(fr))
					fr.s[d] = mkSlice(append(make([]Value, 0, roundupSize(len(b), true)), b...))
				}
			}
			return func(fr *Frame) {
				fr.ipos = pos
				it := &strIter{s: o.get(fr)}
				var rs []Value
				for {
					t := fr.m.strNext(fr.g, it).P.(*Agg)
					if t.E[0].N == 0 {
						break
					}
					rs = append(rs, t.E[2])
				}
				if rs == nil {
					rs = []Value{}
				}
				fr.s[d] = mkSlice(rs)
			}
		}
	}
	if fk.w != -1 && tk.w != -1 {
		return func(fr *Frame) { fr.s[d] = fr.m.convScalar(o.get(fr), fk, tk) }
	}
	// pointers <-> unsafe.Pointer, uintptr
	return func(fr *Frame) {
		v := o.get(fr)
		switch v.P.(type) {
		case nil, *Value, *SymPtr, *Slice, complex128:
			fr.s[d] = v
		default:
			fr.s[d] = v
		}
	}
}

func (m *Machine) convScalar(v Value, f, t kind) Value {
	c := m.ctx
	if x, ok := v.P.(*Term); ok {
		switch {
		case f.w > 0 && t.w > 0:
			if t.w <= f.w {
				return fromTerm(c.Trunc(x, t.w))
			}
			if f.signed {
				return fromTerm(c.SExt(x, t.w))
			}
			return fromTerm(c.ZExt(x, t.w))
		case f.w > 0 && t.w < 0:
			if f.signed {
				return fromTerm(c.Fun1(OpFFromS, t.w, 0, x))
			}
			return fromTerm(c.Fun1(OpFFromU, t.w, 0, x))
		case f.w < 0 && t.w < 0:
			if f.w == t.w {
				return v
			}
			return fromTerm(c.Fun1(OpFToF, t.w, 0, x))
		case f.w < 0 && t.w > 0:
			return fromTerm(m.floatToInt(x, f.w, t))
		}
		return v
	}
	switch v.P.(type) {
	case nil:
	case *Value, *SymPtr:
		return v // unsafe.Pointer -> uintptr
	default:
		unsupported("conversion of %T", v.P)
	}
	switch {
	case f.w > 0 && t.w > 0:
		n := v.N
		if f.signed {
			n = uint64(sext64(n, f.w))
		}
		return Value{N: n & maskW(t.w)}
	case f.w > 0 && t.w < 0:
		if f.signed {
			return Value{N: evalF1(OpFFromS, t.w, 0, f.w, v.N)}
		}
		return Value{N: evalF1(OpFFromU, t.w, 0, f.w, v.N)}
	case f.w < 0 && t.w < 0:
		return Value{N: fToBits(t.w, bitsToF(f.w, v.N))}
	case f.w < 0 && t.w > 0:
		x := bitsToF(f.w, v.N)
		if t.w == 64 && !t.signed {
			return Value{N: uint64(x)}
		}
		if t.w <= 32 && t.signed || t.w < 32 {
			return Value{N: uint64(int64(int32(x))) & maskW(t.w)}
		}
		return Value{N: uint64(int64(x)) & maskW(t.w)}
	}
	return v
}

// floatToInt models amd64: out-of-range conversions give the "integer
// indefinite" value.
func (m *Machine) floatToInt(x *Term, fw int, t kind) *Term {
	c := m.ctx
	fconst := func(f float64) *Term { return c.Const(fw, fToBits(fw, f)) }
	conv := func(w int) *Term {
		lim := float64(uint64(1) << uint(w-1))
		in := c.And(c.Fbin(OpFLt, x, fconst(lim)), c.Fbin(OpFLe, fconst(-lim), x))
		if fw == -64 && w == 32 {
			in = c.And(c.Fbin(OpFLt, x, fconst(lim)), c.Fbin(OpFLt, fconst(-lim-1), x))
		}
		return c.Ite(in, c.Fun1(OpFToS, w, 0, x), c.Const(w, uint64(1)<<uint(w-1)))
	}
	if t.w == 64 && !t.signed {
		big := fconst(9223372036854775808.0)
		lo := conv(64)
		hi := c.Bin(OpXor, c.Ite(c.And(c.Fbin(OpFLe, big, x), c.Fbin(OpFLt, x, fconst(18446744073709551616.0))), c.Fun1(OpFToU, 64, 0, x), c.Const(64, 1<<63)), c.Const(64, 0))
		return c.Ite(c.Fbin(OpFLt, x, big), lo, hi)
	}
	if t.w <= 32 && t.signed || t.w < 32 {
		return c.Trunc(conv(32), t.w)
	}
	return c.Trunc(conv(64), t.w)
}

func (m *Machine) runeToString(g *Gor, v Value) Value {
	if v.P == nil {
		r := rune(int64(v.N))
		if int64(v.N) != int64(r) {
			r = utf8.RuneError
		}
		return vstr(string(r))
	}
	t := v.P.(*Term)
	c := m.ctx
	k := func(n uint64) *Term { return c.Const(64, n) }
	b := func(sh uint64, mask, or uint64) Value {
		x := c.Bin(OpAnd, c.Bin(OpLShr, t, k(sh)), k(mask))
		return fromTerm(c.Trunc(c.Bin(OpOr, x, k(or)), 8))
	}
	if m.Branch(c.ULt(t, k(0x80))) {
		return mkStr([]Value{fromTerm(c.Trunc(t, 8))})
	}
	if m.Branch(c.ULt(t, k(0x800))) {
		return mkStr([]Value{b(6, 0x1f, 0xc0), b(0, 0x3f, 0x80)})
	}
	if m.Branch(c.Or(c.ULt(k(0x10ffff), t), c.And(c.ULe(k(0xd800), t), c.ULe(t, k(0xdfff))))) {
		return vstr("\uFFFD")
	}
	if m.Branch(c.ULt(t, k(0x10000))) {
		return mkStr([]Value{b(12, 0xf, 0xe0), b(6, 0x3f, 0x80), b(0, 0x3f, 0x80)})
	}
	return mkStr([]Value{b(18, 0x7, 0xf0), b(12, 0x3f, 0x80), b(6, 0x3f, 0x80), b(0, 0x3f, 0x80)})
}

type strIter struct {
	s Value
	i int
}

// strNext advances a string range; the tuple is (ok, index, rune).
func (m *Machine) strNext(g *Gor, it *strIter) Value {
	i := it.i
	if i >= strLen(it.s) {
		return Value{P: &Agg{E: []Value{vbool(false), {}, {}}}}
	}
	r, n := m.decodeRune(g, it.s, i)

	it.i = i + n
	return Value{P: &Agg{E: []Value{vbool(true), vint(i), r}}}
}

func (m *Machine) decodeRune(g *Gor, s Value, i int) (Value, int) {
	if cs, ok := goStr(s); ok {
		r, n := utf8.DecodeRuneInString(cs[i:])
		return Value{N: uint64(uint32(r))}, n
	}
	b0 := strAt(s, i)
	if b0.P == nil && b0.N < 0x80 {
		return b0, 1
	}
	c := m.ctx
	if t, ok := b0.P.(*Term); ok {
		if m.Branch(c.ULt(t, c.Const(8, 0x80))) {
			return fromTerm(c.ZExt(t, 32)), 1
		}
	}
	// general case: run the real decoder
	f := m.P.pkgs["unicode/utf8"].Func("DecodeRuneInString")
	hi := i + 4
	if hi > strLen(s) {
		hi = strLen(s)
	}
	r := m.call(g, m.P.fn(f), []Value{strSlice(s, i, hi)}, nil).P.(*Agg)
	n := int(m.Concretize(r.E[1], 64, 8))
	return r.E[0], n
}

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}
