package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// If-conversion: a symbolic branch whose two arms are pure and meet again (or
// both return) is executed once, joining values with ite terms.

func pureInstr(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Phi, *ssa.DebugRef, *ssa.Jump, *ssa.If, *ssa.Return:
		return true
	case *ssa.BinOp:
		k := kindOf(x.X.Type())
		switch x.Op {
		case token.QUO, token.REM:
			if k.w < 0 && k.w != -1 {
				return true
			}
			c, ok := x.Y.(*ssa.Const)
			return ok && k.w > 0 && c.Value != nil && c.Uint64() != 0
		case token.SHL, token.SHR:
			if kindOf(x.Y.Type()).signed {
				_, ok := x.Y.(*ssa.Const)
				return ok
			}
			return true
		case token.EQL, token.NEQ:
			if k.w != -1 || isString(x.X.Type()) {
				return true
			}
			switch x.X.Type().Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Map, *types.Signature, *types.Chan:
				return true
			case *types.Interface:
				cx, ok1 := x.X.(*ssa.Const)
				cy, ok2 := x.Y.(*ssa.Const)
				return ok1 && cx.IsNil() || ok2 && cy.IsNil()
			}
			return false
		}
		return k.w != -1 || isString(x.X.Type())
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT, token.SUB, token.XOR:
			return true
		case token.MUL:
			switch y := x.X.(type) {
			case *ssa.Global, *ssa.Alloc:
				return true
			case *ssa.FieldAddr:
				_, ok := y.X.(*ssa.Alloc)
				return ok
			case *ssa.FreeVar:
				return true
			}
		}
		return false
	case *ssa.Convert:
		return kindOf(x.X.Type()).w > 0 && kindOf(x.Type()).w > 0
	case *ssa.ChangeType, *ssa.Extract, *ssa.Field:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return true
		}
	}
	return false
}

func pureBlock(b *ssa.BasicBlock) bool {
	if len(b.Instrs) > 24 {
		return false
	}
	for _, in := range b.Instrs {
		if !pureInstr(in) {
			return false
		}
	}
	switch b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Jump, *ssa.If, *ssa.Return:
		return true
	}
	return false
}

// region tries to find the blocks between b and join j (nil: all return).
func region(b, j *ssa.BasicBlock) []*ssa.BasicBlock {
	in := map[*ssa.BasicBlock]bool{}
	var order []*ssa.BasicBlock
	state := map[*ssa.BasicBlock]int{}
	var visit func(x *ssa.BasicBlock) bool
	visit = func(x *ssa.BasicBlock) bool {
		if x == j {
			return true
		}
		if x == b || state[x] == 1 {
			return false
		}
		if state[x] == 2 {
			return true
		}
		if len(in) > 24 || !pureBlock(x) {
			return false
		}
		state[x] = 1
		in[x] = true
		if _, ret := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ret && j != nil {
			return false
		}
		for _, s := range x.Succs {
			if !visit(s) {
				return false
			}
		}
		state[x] = 2
		order = append(order, x)
		return true
	}
	for _, s := range b.Succs {
		if !visit(s) {
			return nil
		}
	}
	for x := range in {
		for _, p := range x.Preds {
			if p != b && !in[p] {
				return nil
			}
		}
	}
	for i, k := 0, len(order)-1; i < k; i, k = i+1, k-1 {
		order[i], order[k] = order[k], order[i]
	}
	return order
}

type mPhi struct {
	dst   int
	k     kind
	str   bool
	edges map[int]opnd // predecessor block index -> value
}

type mBlock struct {
	idx   int
	phis  []mPhi
	preds []mEdge
	isIf  bool
	cond  opnd
	ret   []opnd
	isRet bool
}
type mEdge struct {
	from int // block index, -1 = head
	neg  int // 0 unconditional, 1 true edge, 2 false edge
}

func (c *compiler) mergeRegion(b *ssa.BasicBlock, ifi *ssa.If, blocks []*Block) func(fr *Frame, cv Value) *Block {
	if b.Succs[0] == b.Succs[1] {
		return nil
	}
	// candidate joins
	var cands []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{b: true}
	q := []*ssa.BasicBlock{b.Succs[0], b.Succs[1]}
	for len(q) > 0 && len(cands) < 30 {
		x := q[0]
		q = q[1:]
		if seen[x] {
			continue
		}
		seen[x] = true
		cands = append(cands, x)
		q = append(q, x.Succs...)
	}
	var reg []*ssa.BasicBlock
	var join *ssa.BasicBlock
	found := false
	for _, j := range cands {
		direct := b.Succs[0] == j || b.Succs[1] == j
		r := region(b, j)
		if r != nil || direct && r == nil && (b.Succs[0] == j && b.Succs[1] == j) {
			reg, join, found = r, j, true
			break
		}
	}
	if !found {
		if r := region(b, nil); r != nil {
			reg, join, found = r, nil, true
		}
	}
	if !found {
		return nil
	}
	inReg := map[*ssa.BasicBlock]bool{}
	for _, x := range reg {
		inReg[x] = true
	}
	if join != nil && join.Dominates(b) {
		// a binary search: joining the bounds would make every later index symbolic
		for _, in := range join.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if kindOf(ph.Type()).w <= 1 {
				continue
			}
			var first ssa.Value
			differ := false
			for i, e := range ph.Edges {
				if pr := join.Preds[i]; pr == b || inReg[pr] {
					if first == nil {
						first = e
					} else if first != e {
						differ = true
					}
				}
			}
			if differ && feedsIndex(ph, 4) {
				return nil
			}
		}
	}
	mkPhis := func(x *ssa.BasicBlock) ([]mPhi, bool) {
		var ps []mPhi
		for _, in := range x.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			p := mPhi{dst: c.slots[ph], k: kindOf(ph.Type()), str: isString(ph.Type()), edges: map[int]opnd{}}
			for i, e := range ph.Edges {
				pr := x.Preds[i]
				if pr == b || inReg[pr] {
					// duplicate predecessors (both edges of an If) need care
					if _, dup := p.edges[pr.Index]; dup {
						return nil, false
					}
					p.edges[pr.Index] = c.op(e)
				}
			}
			ps = append(ps, p)
		}
		return ps, true
	}
	edgesInto := func(x *ssa.BasicBlock) []mEdge {
		var es []mEdge
		add := func(p *ssa.BasicBlock) {
			for i, s := range p.Succs {
				if s != x {
					continue
				}
				n := 0
				if len(p.Succs) == 2 {
					n = i + 1
				}
				es = append(es, mEdge{from: p.Index, neg: n})
			}
		}
		add(b)
		for _, p := range reg {
			add(p)
		}
		return es
	}
	var mbs []mBlock
	for _, x := range reg {
		ps, ok := mkPhis(x)
		if !ok {
			return nil
		}
		mb := mBlock{idx: x.Index, phis: ps, preds: edgesInto(x)}
		switch t := x.Instrs[len(x.Instrs)-1].(type) {
		case *ssa.If:
			mb.isIf = true
			mb.cond = c.op(t.Cond)
		case *ssa.Return:
			mb.isRet = true
			mb.ret = c.ops(t.Results)
		}
		mbs = append(mbs, mb)
	}
	var jp []mPhi
	var jedges []mEdge
	if join != nil {
		var ok bool
		jp, ok = mkPhis(join)
		if !ok {
			return nil
		}
		jedges = edgesInto(join)
	}
	var resK []kind
	var resStr []bool
	if join == nil {
		rs := c.f.fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			resK = append(resK, kindOf(rs.At(i).Type()))
			resStr = append(resStr, isString(rs.At(i).Type()))
		}
	}
	head := b.Index
	return func(fr *Frame, cv Value) (out *Block) {
		m := fr.m
		ctx := m.ctx
		if m.pcset[cv.P.(*Term)] || m.pcset[ctx.Not(cv.P.(*Term))] {
			return nil
		}
		reach := map[int]*Term{head: ctx.True}
		conds := map[int]*Term{head: cv.P.(*Term)}
		edgeCond := func(e mEdge) *Term {
			r := reach[e.from]
			switch e.neg {
			case 1:
				return ctx.And(r, conds[e.from])
			case 2:
				return ctx.And(r, ctx.Not(conds[e.from]))
			}
			return r
		}
		mergePhis := func(ps []mPhi, es []mEdge) bool {
			vals := make([]Value, len(ps))
			for i, p := range ps {
				var acc Value
				first := true
				for _, e := range es {
					o := p.edges[e.from]
					v := o.get(fr)
					ec := edgeCond(e)
					if ec == ctx.False {
						continue
					}
					if first {
						acc, first = v, false
						continue
					}
					r, ok := m.mergeVal(ec, v, acc, p.k, p.str)
					if !ok {
						return false
					}
					acc = r
				}
				vals[i] = acc
			}
			for i, p := range ps {
				fr.s[p.dst] = vals[i]
			}
			return true
		}
		for i := range mbs {
			mb := &mbs[i]
			r := ctx.False
			for _, e := range mb.preds {
				r = ctx.Or(r, edgeCond(e))
			}
			reach[mb.idx] = r
			if r == ctx.False {
				conds[mb.idx] = ctx.False
				// values computed here are never used
			}
			if !mergePhis(mb.phis, mb.preds) {
				return nil
			}
			for _, in := range blocks[mb.idx].ins {
				in(fr)
			}
			if mb.isIf {
				conds[mb.idx] = m.term(mb.cond.get(fr), 0)
			}
		}
		if join != nil {
			if !mergePhis(jp, jedges) {
				return nil
			}
			return blocks[join.Index]
		}
		res := make([]Value, len(resK))
		first := true
		for i := range mbs {
			mb := &mbs[i]
			if !mb.isRet || reach[mb.idx] == ctx.False {
				continue
			}
			for k := range res {
				v := mb.ret[k].get(fr)
				if first {
					res[k] = v
					continue
				}
				r, ok := m.mergeVal(reach[mb.idx], v, res[k], resK[k], resStr[k])
				if !ok {
					return nil
				}
				res[k] = r
			}
			first = false
		}
		switch len(res) {
		case 0:
			fr.result = Value{}
		case 1:
			fr.result = res[0]
		default:
			fr.result = Value{P: &Agg{E: res}}
		}
		return retBlock
	}
}

var retBlock = &Block{term: func(fr *Frame) *Block { return nil }}

func (m *Machine) mergeVal(c *Term, a, b Value, k kind, str bool) (Value, bool) {
	if k.w != -1 {
		okS := func(v Value) bool {
			if v.P == nil {
				return true
			}
			_, ok := v.P.(*Term)
			return ok
		}
		if !okS(a) || !okS(b) {
			return Value{}, false
		}
		return fromTerm(m.ctx.Ite(c, m.term(a, k.w), m.term(b, k.w))), true
	}
	if str {
		if strLen(a) != strLen(b) {
			return Value{}, false
		}
		if x, ok := goStr(a); ok {
			if y, ok := goStr(b); ok && x == y {
				return a, true
			}
		}
		x, y := strBytes(a), strBytes(b)
		r := make([]Value, len(x))
		for i := range x {
			r[i] = fromTerm(m.ctx.Ite(c, m.term(x[i], 8), m.term(y[i], 8)))
		}
		return mkStr(r), true
	}
	if a.N == b.N && sameHost(a.P, b.P) {
		return a, true
	}
	return Value{}, false
}

func sameHost(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case *Value:
		y, ok := b.(*Value)
		return ok && x == y
	case *Agg:
		y, ok := b.(*Agg)
		return ok && x == y
	case *Slice:
		y, ok := b.(*Slice)
		return ok && x == y
	case *Iface:
		y, ok := b.(*Iface)
		return ok && (x == y || x.T == y.T && x.V.N == y.V.N && sameHost(x.V.P, y.V.P))
	case *Map:
		y, ok := b.(*Map)
		return ok && x == y
	case *Closure:
		y, ok := b.(*Closure)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	}
	return false
}

// feedsIndex reports whether v reaches an index through arithmetic.
func feedsIndex(v ssa.Value, depth int) bool {
	if depth == 0 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			if x.Index == v {
				return true
			}
		case *ssa.Index:
			if x.Index == v {
				return true
			}
		case *ssa.Lookup:
			if x.Index == v && isString(x.X.Type()) {
				return true
			}
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD, token.SUB, token.QUO, token.SHR, token.MUL:
				if feedsIndex(x, depth-1) {
					return true
				}
			}
		case *ssa.Convert:
			if feedsIndex(x, depth-1) {
				return true
			}
		}
	}
	return false
}
