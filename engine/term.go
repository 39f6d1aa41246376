package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Term is a hash-consed SMT term. Sort: W==0 Bool, W in 1..64 bit-vector,
// W==-32/-64 IEEE float.
type Term struct {
	Op      Op
	W       int
	A       []*Term
	Val     uint64 // constant value, or extract low bit, or ...
	Name    string
	ID      int
	emitted int // solver epoch in which the definition was emitted
	depth   int
	rng     ival
	rset    bool
}

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpZExt
	OpSExt
	OpExtract // Val = low bit, W = width
	OpConcat
	OpEq
	OpULt
	OpULe
	OpSLt
	OpSLe
	OpBNot
	OpBAnd
	OpBOr
	OpIte
	// floats
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFNeg
	OpFAbs
	OpFEq
	OpFLt
	OpFLe
	OpFNaN
	OpFInf
	OpFFromBits // BV -> FP
	OpFToBits   // FP -> BV
	OpFFromS    // signed BV -> FP
	OpFFromU
	OpFToS // FP -> signed BV W, RTZ
	OpFToU
	OpFToF
	OpFRound // Val: rounding mode 0 RNE 1 RTZ 2 RTP(ceil) 3 RTN(floor) 4 RNA
	OpFSqrt
)

type tkey struct {
	op      Op
	w       int
	a, b, c int
	val     uint64
	name    string
}

type TermCtx struct {
	tab         map[tkey]*Term
	next        int
	vars        []*Term
	True, False *Term
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[tkey]*Term{}}
	c.True = c.Const(0, 1)
	c.False = c.Const(0, 0)
	return c
}

func maskW(w int) uint64 {
	switch {
	case w == 0:
		return 1
	case w == 64 || w == -64:
		return ^uint64(0)
	case w == -32:
		return 0xffffffff
	}
	return (uint64(1) << uint(w)) - 1
}

func sext64(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func (c *TermCtx) mk(op Op, w int, val uint64, name string, args ...*Term) *Term {
	k := tkey{op: op, w: w, val: val, name: name, a: -1, b: -1, c: -1}
	d := 0
	for i, a := range args {
		if a.depth >= d {
			d = a.depth + 1
		}
		switch i {
		case 0:
			k.a = a.ID
		case 1:
			k.b = a.ID
		case 2:
			k.c = a.ID
		}
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{Op: op, W: w, A: args, Val: val, Name: name, ID: c.next, depth: d}
	c.next++
	c.tab[k] = t
	if op == OpVar {
		c.vars = append(c.vars, t)
	}
	return t
}

func (c *TermCtx) Const(w int, v uint64) *Term { return c.mk(OpConst, w, v&maskW(w), "") }
func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *TermCtx) Var(name string, w int) *Term {
	return c.mk(OpVar, w, 0, fmt.Sprintf("%s!%d", name, w))
}

func (t *Term) IsConst() bool { return t.Op == OpConst }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *TermCtx) Not(a *Term) *Term {
	switch a.Op {
	case OpConst:
		return c.Bool(a.Val == 0)
	case OpBNot:
		return a.A[0]
	}
	return c.mk(OpBNot, 0, 0, "", a)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a == c.True || a == b {
		return b
	}
	if b == c.True {
		return a
	}
	if a == c.False || b == c.False {
		return c.False
	}
	if (a.Op == OpBNot && a.A[0] == b) || (b.Op == OpBNot && b.A[0] == a) {
		return c.False
	}
	return c.mk(OpBAnd, 0, 0, "", a, b)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a == c.False || a == b {
		return b
	}
	if b == c.False {
		return a
	}
	if a == c.True || b == c.True {
		return c.True
	}
	if (a.Op == OpBNot && a.A[0] == b) || (b.Op == OpBNot && b.A[0] == a) {
		return c.True
	}
	return c.mk(OpBOr, 0, 0, "", a, b)
}

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond == c.True || a == b {
		return a
	}
	if cond == c.False {
		return b
	}
	if a.W == 0 {
		if a == c.True && b == c.False {
			return cond
		}
		if a == c.False && b == c.True {
			return c.Not(cond)
		}
		if a == c.True {
			return c.Or(cond, b)
		}
		if a == c.False {
			return c.And(c.Not(cond), b)
		}
		if b == c.False {
			return c.And(cond, a)
		}
		if b == c.True {
			return c.Or(c.Not(cond), a)
		}
	}
	if cond.Op == OpBNot {
		return c.Ite(cond.A[0], b, a)
	}
	return c.mk(OpIte, a.W, 0, "", cond, a, b)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b && a.W >= 0 {
		return c.True
	}
	if a.IsConst() && b.IsConst() && a.W >= 0 {
		return c.Bool(a.Val == b.Val)
	}
	if a.W < 0 {
		return c.Fbin(OpFEq, a, b)
	}
	if a.W == 0 {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.Val == 1 {
				return a
			}
			return c.Not(a)
		}
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		switch a.Op {
		case OpZExt:
			in := a.A[0]
			if b.Val > maskW(in.W) {
				return c.False
			}
			return c.Eq(in, c.Const(in.W, b.Val))
		case OpSExt:
			in := a.A[0]
			s := uint64(sext64(b.Val&maskW(in.W), in.W)) & maskW(a.W)
			if s != b.Val {
				return c.False
			}
			return c.Eq(in, c.Const(in.W, b.Val))
		case OpIte:
			if a.A[1].IsConst() && a.A[2].IsConst() {
				return c.Ite(a.A[0], c.Bool(a.A[1].Val == b.Val), c.Bool(a.A[2].Val == b.Val))
			}
			if a.A[1].IsConst() {
				return c.Ite(a.A[0], c.Bool(a.A[1].Val == b.Val), c.Eq(a.A[2], b))
			}
		case OpAdd:
			if a.A[1].IsConst() {
				return c.Eq(a.A[0], c.Const(a.W, b.Val-a.A[1].Val))
			}
		}
	} else if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(OpEq, 0, 0, "", a, b)
}

func evalBin(op Op, w int, x, y uint64) uint64 {
	m := maskW(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OpSRem:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OpAnd:
		return x & y
	case OpOr:
		return x | y
	case OpXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAShr:
		sx := sext64(x, w)
		if y >= uint64(w) {
			y = 63
		}
		return uint64(sx>>y) & m
	}
	panic("evalBin")
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	if a.W != b.W {
		panic(fmt.Sprintf("width mismatch op %d: %d %d", op, a.W, b.W))
	}
	w := a.W
	if a.IsConst() && b.IsConst() {
		return c.Const(w, evalBin(op, w, a.Val, b.Val))
	}
	switch op {
	case OpAdd, OpMul, OpAnd, OpOr, OpXor:
		if a.IsConst() || (!b.IsConst() && a.ID > b.ID) {
			a, b = b, a
		}
	}
	if b.IsConst() {
		switch op {
		case OpAdd, OpSub, OpOr, OpXor, OpShl, OpLShr, OpAShr:
			if b.Val == 0 {
				return a
			}
			if op == OpSub {
				return c.Bin(OpAdd, a, c.Const(w, -b.Val))
			}
			if op == OpAdd && a.Op == OpAdd && a.A[1].IsConst() {
				return c.Bin(OpAdd, a.A[0], c.Const(w, a.A[1].Val+b.Val))
			}
			if op == OpShl && b.Val >= uint64(w) || op == OpLShr && b.Val >= uint64(w) {
				return c.Const(w, 0)
			}
		case OpMul:
			if b.Val == 0 {
				return b
			}
			if b.Val == 1 {
				return a
			}
		case OpAnd:
			if b.Val == 0 {
				return b
			}
			if b.Val == maskW(w) {
				return a
			}
		case OpUDiv, OpSDiv:
			if b.Val == 1 {
				return a
			}
			if op == OpUDiv && b.Val != 0 && b.Val&(b.Val-1) == 0 {
				return c.Bin(OpLShr, a, c.Const(w, uint64(bits.TrailingZeros64(b.Val))))
			}
		case OpURem:
			if b.Val != 0 && b.Val&(b.Val-1) == 0 {
				return c.Bin(OpAnd, a, c.Const(w, b.Val-1))
			}
		}
	}
	if b.IsConst() && (op == OpSDiv || op == OpSRem) {
		if d := sext64(b.Val, w); d > 0 {
			if r := rangeS(a); r.lo > -d && r.hi < d {
				if op == OpSRem {
					return a
				}
				return c.Const(w, 0)
			}
		}
	}
	if a == b {
		switch op {
		case OpSub, OpXor:
			return c.Const(w, 0)
		case OpAnd, OpOr:
			return a
		}
	}
	return c.mk(op, w, 0, "", a, b)
}

func (c *TermCtx) BvNot(a *Term) *Term {
	if a.IsConst() {
		return c.Const(a.W, ^a.Val)
	}
	return c.mk(OpNot, a.W, 0, "", a)
}
func (c *TermCtx) Neg(a *Term) *Term {
	if a.IsConst() {
		return c.Const(a.W, -a.Val)
	}
	return c.mk(OpNeg, a.W, 0, "", a)
}

// maxU returns an upper bound of the unsigned value of t.
func maxU(t *Term) uint64 {
	switch t.Op {
	case OpConst:
		return t.Val
	case OpZExt:
		return maxU(t.A[0])
	case OpIte:
		x, y := maxU(t.A[1]), maxU(t.A[2])
		if x > y {
			return x
		}
		return y
	case OpAnd:
		x, y := maxU(t.A[0]), maxU(t.A[1])
		if x < y {
			return x
		}
		return y
	case OpLShr:
		if t.A[1].IsConst() && t.A[1].Val < 64 {
			return maxU(t.A[0]) >> t.A[1].Val
		}
	case OpURem:
		if t.A[1].IsConst() && t.A[1].Val > 0 {
			return t.A[1].Val - 1
		}
	}
	return maskW(t.W)
}

func (c *TermCtx) ULt(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.Val < b.Val)
	}
	if a == b {
		return c.False
	}
	if b.IsConst() {
		if b.Val == 0 {
			return c.False
		}
		if maxU(a) < b.Val {
			return c.True
		}
		if a.Op == OpZExt {
			return c.ULt(a.A[0], c.Const(a.A[0].W, b.Val))
		}
	}
	if a.IsConst() {
		if a.Val >= maxU(b) {
			return c.False
		}
		if b.Op == OpZExt {
			return c.ULt(c.Const(b.A[0].W, a.Val), b.A[0])
		}
	}
	if ra, rb := rangeS(a), rangeS(b); ra.lo >= 0 && rb.lo >= 0 {
		if ra.hi < rb.lo {
			return c.True
		}
		if ra.lo >= rb.hi {
			return c.False
		}
	}
	return c.mk(OpULt, 0, 0, "", a, b)
}
func (c *TermCtx) ULe(a, b *Term) *Term { return c.Not(c.ULt(b, a)) }

func nonNeg(t *Term) bool { return maxU(t) < uint64(1)<<uint(t.W-1) }

func (c *TermCtx) SLt(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Bool(sext64(a.Val, a.W) < sext64(b.Val, b.W))
	}
	if a == b {
		return c.False
	}
	if nonNeg(a) && nonNeg(b) {
		return c.ULt(a, b)
	}
	if nonNeg(a) && b.IsConst() && sext64(b.Val, b.W) <= 0 {
		return c.False
	}
	if nonNeg(b) && a.IsConst() && sext64(a.Val, a.W) < 0 {
		return c.True
	}
	ra, rb := rangeS(a), rangeS(b)
	if ra.hi < rb.lo {
		return c.True
	}
	if ra.lo >= rb.hi {
		return c.False
	}
	return c.mk(OpSLt, 0, 0, "", a, b)
}
func (c *TermCtx) SLe(a, b *Term) *Term { return c.Not(c.SLt(b, a)) }

func (c *TermCtx) ZExt(a *Term, w int) *Term {
	if a.W == w {
		return a
	}
	if a.IsConst() {
		return c.Const(w, a.Val)
	}
	if a.Op == OpZExt {
		return c.ZExt(a.A[0], w)
	}
	return c.mk(OpZExt, w, 0, "", a)
}
func (c *TermCtx) SExt(a *Term, w int) *Term {
	if a.W == w {
		return a
	}
	if a.IsConst() {
		return c.Const(w, uint64(sext64(a.Val, a.W)))
	}
	if a.Op == OpZExt {
		return c.ZExt(a.A[0], w)
	}
	if a.Op == OpSExt {
		return c.SExt(a.A[0], w)
	}
	if a.Op == OpExtract && a.Val == 0 && a.A[0].W >= w && fits(a.A[0], a.W) {
		return c.Trunc(a.A[0], w)
	}
	return c.mk(OpSExt, w, 0, "", a)
}
func (c *TermCtx) Trunc(a *Term, w int) *Term {
	if a.W == w {
		return a
	}
	if a.IsConst() {
		return c.Const(w, a.Val)
	}
	if a.Op == OpZExt || a.Op == OpSExt {
		in := a.A[0]
		if in.W == w {
			return in
		}
		if in.W > w {
			return c.Trunc(in, w)
		}
		if a.Op == OpZExt {
			return c.ZExt(in, w)
		}
		return c.SExt(in, w)
	}
	if a.Op == OpIte && (a.A[1].IsConst() || a.A[2].IsConst()) {
		return c.Ite(a.A[0], c.Trunc(a.A[1], w), c.Trunc(a.A[2], w))
	}
	switch a.Op {
	case OpAnd, OpOr, OpXor, OpAdd, OpSub:
		if a.A[1].IsConst() {
			return c.Bin(a.Op, c.Trunc(a.A[0], w), c.Const(w, a.A[1].Val))
		}
	}
	return c.mk(OpExtract, w, 0, "", a)
}

// ---- floats
func fval(t *Term) float64 { return bitsToF(t.W, t.Val) }
func bitsToF(w int, v uint64) float64 {
	if w == -32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func fToBits(w int, f float64) uint64 {
	if w == -32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func (c *TermCtx) Fbin(op Op, a, b *Term) *Term {
	w := a.W
	switch op {
	case OpFEq, OpFLt, OpFLe:
		w = 0
	}
	if a.IsConst() && b.IsConst() {
		return c.Const(w, evalFbin(op, a.W, a.Val, b.Val))
	}
	if op == OpFEq && a == b {
		if _, ok := fBound(a, 0); ok {
			return c.True
		}
		return c.Not(c.Fun1(OpFNaN, 0, 0, a))
	}
	return c.mk(op, w, 0, "", a, b)
}

// fBound gives a bound of the magnitude of a double that is certainly finite.
func fBound(t *Term, depth int) (float64, bool) {
	if t.W != -64 || depth > 20 {
		return 0, false
	}
	switch t.Op {
	case OpConst:
		f := math.Abs(fval(t))
		return f, f < 1e300
	case OpFFromS, OpFFromU:
		return math.Ldexp(1, t.A[0].W+1), true
	case OpFNeg, OpFAbs:
		return fBound(t.A[0], depth+1)
	case OpFAdd, OpFSub, OpFMul:
		a, ok1 := fBound(t.A[0], depth+1)
		b, ok2 := fBound(t.A[1], depth+1)
		if !ok1 || !ok2 {
			return 0, false
		}
		r := 2 * (a + b)
		if t.Op == OpFMul {
			r = 2 * a * b
		}
		return r, r < 1e300
	case OpFDiv:
		a, ok := fBound(t.A[0], depth+1)
		if !ok || !t.A[1].IsConst() {
			return 0, false
		}
		d := math.Abs(fval(t.A[1]))
		if d < 1e-300 || d != d || d > 1e300 {
			return 0, false
		}
		r := 2 * a / d
		return r, r < 1e300
	case OpIte:
		a, ok1 := fBound(t.A[1], depth+1)
		b, ok2 := fBound(t.A[2], depth+1)
		return math.Max(a, b), ok1 && ok2
	}
	return 0, false
}
func evalFbin(op Op, w int, x, y uint64) uint64 {
	a, b := bitsToF(w, x), bitsToF(w, y)
	switch op {
	case OpFAdd:
		return fToBits(w, a+b)
	case OpFSub:
		return fToBits(w, a-b)
	case OpFMul:
		return fToBits(w, a*b)
	case OpFDiv:
		return fToBits(w, a/b)
	case OpFEq:
		return b2u(a == b)
	case OpFLt:
		return b2u(a < b)
	case OpFLe:
		return b2u(a <= b)
	}
	panic("evalFbin")
}
func (c *TermCtx) Fun1(op Op, w int, val uint64, a *Term) *Term {
	if op == OpFToBits && a.Op == OpFFromBits {
		return a.A[0]
	}
	if op == OpFFromBits && a.Op == OpFToBits {
		return a.A[0]
	}
	if op == OpFToF && w == -32 && a.Op == OpFToF && a.W == -64 && a.A[0].W == -32 {
		return a.A[0] // widening is exact
	}
	if a.IsConst() {
		return c.Const(w, evalF1(op, w, val, a.W, a.Val))
	}
	return c.mk(op, w, val, "", a)
}
func evalF1(op Op, w int, val uint64, aw int, x uint64) uint64 {
	switch op {
	case OpFFromBits, OpFToBits:
		return x
	case OpFFromS:
		if w == -32 {
			return uint64(math.Float32bits(float32(sext64(x, aw))))
		}
		return math.Float64bits(float64(sext64(x, aw)))
	case OpFFromU:
		if w == -32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return math.Float64bits(float64(x))
	}
	f := bitsToF(aw, x)
	switch op {
	case OpFNeg:
		return fToBits(w, -f)
	case OpFAbs:
		return fToBits(w, math.Abs(f))
	case OpFNaN:
		return b2u(f != f)
	case OpFInf:
		return b2u(math.IsInf(f, 0))
	case OpFToS:
		return uint64(int64(f)) & maskW(w)
	case OpFToU:
		return uint64(f) & maskW(w)
	case OpFToF:
		return fToBits(w, f)
	case OpFSqrt:
		return fToBits(w, math.Sqrt(f))
	case OpFRound:
		switch val {
		case 0:
			return fToBits(w, math.RoundToEven(f))
		case 1:
			return fToBits(w, math.Trunc(f))
		case 2:
			return fToBits(w, math.Ceil(f))
		case 3:
			return fToBits(w, math.Floor(f))
		case 4:
			return fToBits(w, math.Round(f))
		}
	}
	panic(fmt.Sprint("evalF1 ", op))
}

// ---- evaluation under a model
type Model map[string]uint64

type evaluator struct {
	m    Model
	memo map[int]uint64
}

func (e *evaluator) eval(t *Term) uint64 {
	switch t.Op {
	case OpConst:
		return t.Val
	case OpVar:
		return e.m[t.Name] & maskW(t.W)
	}
	if v, ok := e.memo[t.ID]; ok {
		return v
	}
	var v uint64
	switch t.Op {
	case OpIte:
		if e.eval(t.A[0]) == 1 {
			v = e.eval(t.A[1])
		} else {
			v = e.eval(t.A[2])
		}
	case OpBAnd:
		v = b2u(e.eval(t.A[0]) == 1 && e.eval(t.A[1]) == 1)
	case OpBOr:
		v = b2u(e.eval(t.A[0]) == 1 || e.eval(t.A[1]) == 1)
	case OpBNot:
		v = 1 - e.eval(t.A[0])
	case OpEq:
		v = b2u(e.eval(t.A[0]) == e.eval(t.A[1]))
	case OpULt:
		v = b2u(e.eval(t.A[0]) < e.eval(t.A[1]))
	case OpULe:
		v = b2u(e.eval(t.A[0]) <= e.eval(t.A[1]))
	case OpSLt:
		v = b2u(sext64(e.eval(t.A[0]), t.A[0].W) < sext64(e.eval(t.A[1]), t.A[1].W))
	case OpSLe:
		v = b2u(sext64(e.eval(t.A[0]), t.A[0].W) <= sext64(e.eval(t.A[1]), t.A[1].W))
	case OpNot:
		v = ^e.eval(t.A[0]) & maskW(t.W)
	case OpNeg:
		v = -e.eval(t.A[0]) & maskW(t.W)
	case OpZExt:
		v = e.eval(t.A[0])
	case OpSExt:
		v = uint64(sext64(e.eval(t.A[0]), t.A[0].W)) & maskW(t.W)
	case OpExtract:
		v = (e.eval(t.A[0]) >> t.Val) & maskW(t.W)
	case OpConcat:
		v = e.eval(t.A[0])<<uint(t.A[1].W) | e.eval(t.A[1])
	case OpFAdd, OpFSub, OpFMul, OpFDiv, OpFEq, OpFLt, OpFLe:
		v = evalFbin(t.Op, t.A[0].W, e.eval(t.A[0]), e.eval(t.A[1]))
	case OpFNeg, OpFAbs, OpFNaN, OpFInf, OpFFromBits, OpFToBits, OpFFromS, OpFFromU, OpFToS, OpFToU, OpFToF, OpFRound, OpFSqrt:
		v = evalF1(t.Op, t.W, t.Val, t.A[0].W, e.eval(t.A[0]))
	default:
		v = evalBin(t.Op, t.W, e.eval(t.A[0]), e.eval(t.A[1]))
	}
	e.memo[t.ID] = v
	return v
}

// ---- SMT-LIB printing
func sortName(w int) string {
	switch {
	case w == 0:
		return "Bool"
	case w == -32:
		return "(_ FloatingPoint 8 24)"
	case w == -64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(w int, v uint64) string {
	switch {
	case w == 0:
		if v == 1 {
			return "true"
		}
		return "false"
	case w == -32:
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", v)
	case w == -64:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", v)
	case w%4 == 0:
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("#b%0*b", w, v)
}

var opNames = map[Op]string{
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv", OpURem: "bvurem", OpSRem: "bvsrem",
	OpAnd: "bvand", OpOr: "bvor", OpXor: "bvxor", OpNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
	OpConcat: "concat", OpEq: "=", OpULt: "bvult", OpULe: "bvule", OpSLt: "bvslt", OpSLe: "bvsle", OpBNot: "not", OpBAnd: "and", OpBOr: "or", OpIte: "ite",
	OpFAdd: "fp.add RNE", OpFSub: "fp.sub RNE", OpFMul: "fp.mul RNE", OpFDiv: "fp.div RNE", OpFNeg: "fp.neg", OpFAbs: "fp.abs",
	OpFEq: "fp.eq", OpFLt: "fp.lt", OpFLe: "fp.leq", OpFNaN: "fp.isNaN", OpFInf: "fp.isInfinite", OpFToBits: "fp.to_ieee_bv", OpFSqrt: "fp.sqrt RNE",
}
var rmNames = []string{"RNE", "RTZ", "RTP", "RTN", "RNA"}

func fpIdx(w int) string {
	if w == -32 {
		return "8 24"
	}
	return "11 53"
}

func (t *Term) head() string {
	if s, ok := opNames[t.Op]; ok {
		return s
	}
	switch t.Op {
	case OpZExt:
		return fmt.Sprintf("(_ zero_extend %d)", t.W-t.A[0].W)
	case OpSExt:
		return fmt.Sprintf("(_ sign_extend %d)", t.W-t.A[0].W)
	case OpExtract:
		return fmt.Sprintf("(_ extract %d %d)", int(t.Val)+t.W-1, t.Val)
	case OpFFromBits:
		return fmt.Sprintf("(_ to_fp %s)", fpIdx(t.W))
	case OpFFromS:
		return fmt.Sprintf("(_ to_fp %s) RNE", fpIdx(t.W))
	case OpFToF:
		return fmt.Sprintf("(_ to_fp %s) RNE", fpIdx(t.W))
	case OpFFromU:
		return fmt.Sprintf("(_ to_fp_unsigned %s) RNE", fpIdx(t.W))
	case OpFToS:
		return fmt.Sprintf("(_ fp.to_sbv %d) RTZ", t.W)
	case OpFToU:
		return fmt.Sprintf("(_ fp.to_ubv %d) RTZ", t.W)
	case OpFRound:
		return "fp.roundToIntegral " + rmNames[t.Val]
	}
	panic(fmt.Sprint("head ", t.Op))
}

// Var names are unique per (name, width): paths may reuse a name at another sort.
func smtName(v *Term) string { return "|" + v.Name + "|" }

func (t *Term) ref() string {
	switch t.Op {
	case OpConst:
		return constStr(t.W, t.Val)
	case OpVar:
		return smtName(t)
	}
	return fmt.Sprintf("t%d", t.ID)
}

// emit writes the declarations/definitions needed for t.
func (t *Term) emit(sb *strings.Builder, epoch int, fp *bool) {
	if t.emitted == epoch || t.Op == OpConst {
		return
	}
	// iterative post-order for deep terms
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.emitted == epoch || f.t.Op == OpConst {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.A) {
			a := f.t.A[f.i]
			f.i++
			st = append(st, fr{a, 0})
			continue
		}
		x := f.t
		x.emitted = epoch
		if x.W < 0 || x.Op >= OpFAdd {
			*fp = true
		}
		st = st[:len(st)-1]
		if x.Op == OpVar {
			fmt.Fprintf(sb, "(declare-fun %s () %s)\n", smtName(x), sortName(x.W))
			continue
		}
		fmt.Fprintf(sb, "(define-fun t%d () %s (%s", x.ID, sortName(x.W), x.head())
		for _, a := range x.A {
			sb.WriteByte(' ')
			sb.WriteString(a.ref())
		}
		sb.WriteString("))\n")
	}
}
