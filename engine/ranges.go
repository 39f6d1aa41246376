package main

import (
	"math"
	"math/bits"
)

// Signed intervals of bit-vector terms. They fold comparisons and divisions
// that calendar and conversion code is full of before the solver sees them.

type ival struct{ lo, hi int64 }

func minS(w int) int64 { return math.MinInt64 >> uint(64-w) }
func maxS(w int) int64 { return math.MaxInt64 >> uint(64-w) }

func fullS(w int) ival { return ival{minS(w), maxS(w)} }

func addOv(a, b int64) (int64, bool) {
	s := a + b
	return s, (a >= 0) == (b >= 0) && (s >= 0) != (a >= 0)
}
func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, false
	}
	if a == math.MinInt64 || b == math.MinInt64 {
		return 0, true
	}
	hi, lo := bits.Mul64(uint64(absI(a)), uint64(absI(b)))
	if hi != 0 || lo >= 1<<63 {
		return 0, true
	}
	return a * b, false
}
func absI(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

// rangeS bounds the signed value of t.
func rangeS(t *Term) ival {
	if t.W <= 0 {
		return ival{0, 1}
	}
	if t.rset {
		return t.rng
	}
	r := rangeOf(t, nil, ival{}, 0)
	t.rng, t.rset = r, true
	return r
}

// rangeOf bounds t given that the term x, if any, lies in rx.
func rangeOf(t, x *Term, rx ival, depth int) ival {
	if t == x {
		return rx
	}
	if x == nil && t.rset {
		return t.rng
	}
	full := fullS(t.W)
	if depth > 40 || t.W <= 0 {
		return full
	}
	if x != nil && depth > 6 {
		return rangeS(t)
	}
	sub := func(i int) ival {
		if x == nil {
			return rangeS(t.A[i])
		}
		return rangeOf(t.A[i], x, rx, depth+1)
	}
	clip := func(lo, hi int64, ov bool) ival {
		if ov || lo < full.lo || hi > full.hi || lo > hi {
			return full
		}
		return ival{lo, hi}
	}
	switch t.Op {
	case OpConst:
		v := sext64(t.Val, t.W)
		return ival{v, v}
	case OpAdd:
		a, b := sub(0), sub(1)
		lo, o1 := addOv(a.lo, b.lo)
		hi, o2 := addOv(a.hi, b.hi)
		return clip(lo, hi, o1 || o2)
	case OpSub:
		a, b := sub(0), sub(1)
		if b.lo == math.MinInt64 {
			return full
		}
		lo, o1 := addOv(a.lo, -b.hi)
		hi, o2 := addOv(a.hi, -b.lo)
		return clip(lo, hi, o1 || o2)
	case OpNeg:
		a := sub(0)
		if a.lo == full.lo {
			return full
		}
		return ival{-a.hi, -a.lo}
	case OpMul:
		a, b := sub(0), sub(1)
		lo, hi := int64(math.MaxInt64), int64(math.MinInt64)
		for _, p := range [][2]int64{{a.lo, b.lo}, {a.lo, b.hi}, {a.hi, b.lo}, {a.hi, b.hi}} {
			v, ov := mulOv(p[0], p[1])
			if ov {
				return full
			}
			lo, hi = min(lo, v), max(hi, v)
		}
		return clip(lo, hi, false)
	case OpSDiv:
		if a, b := sub(0), t.A[1]; b.IsConst() {
			if d := sext64(b.Val, b.W); d > 0 {
				return ival{a.lo / d, a.hi / d}
			}
		}
	case OpSRem:
		if a, b := sub(0), t.A[1]; b.IsConst() {
			if d := sext64(b.Val, b.W); d > 0 {
				lo, hi := -(d - 1), d-1
				if a.lo >= 0 {
					lo = 0
				}
				if a.hi <= 0 {
					hi = 0
				}
				return ival{max(lo, min(a.lo, 0)), min(hi, max(a.hi, 0))}
			}
		}
	case OpUDiv, OpURem:
		if a, b := sub(0), t.A[1]; b.IsConst() && a.lo >= 0 {
			if d := sext64(b.Val, b.W); d > 0 {
				if t.Op == OpUDiv {
					return ival{a.lo / d, a.hi / d}
				}
				return ival{0, min(a.hi, d-1)}
			}
		} else if b.IsConst() && t.Op == OpURem {
			if d := sext64(b.Val, b.W); d > 0 {
				return ival{0, d - 1}
			}
		}
	case OpAnd:
		a, b := sub(0), sub(1)
		if a.lo >= 0 && b.lo >= 0 {
			return ival{0, min(a.hi, b.hi)}
		}
		if b.lo >= 0 {
			return ival{0, b.hi}
		}
		if a.lo >= 0 {
			return ival{0, a.hi}
		}
	case OpOr, OpXor:
		a, b := sub(0), sub(1)
		if a.lo >= 0 && b.lo >= 0 {
			n := bits.Len64(uint64(a.hi) | uint64(b.hi))
			return ival{0, int64(1)<<uint(n) - 1}
		}
	case OpLShr:
		if b := t.A[1]; b.IsConst() && b.Val > 0 && b.Val < uint64(t.W) {
			if a := sub(0); a.lo >= 0 {
				return ival{a.lo >> b.Val, a.hi >> b.Val}
			}
			return ival{0, int64(maskW(t.W) >> b.Val)}
		}
	case OpAShr:
		if b := t.A[1]; b.IsConst() && b.Val < uint64(t.W) {
			a := sub(0)
			return ival{a.lo >> b.Val, a.hi >> b.Val}
		}
	case OpShl:
		if b := t.A[1]; b.IsConst() && b.Val < 63 && b.Val < uint64(t.W) {
			a := sub(0)
			lo, o1 := mulOv(a.lo, 1<<b.Val)
			hi, o2 := mulOv(a.hi, 1<<b.Val)
			return clip(lo, hi, o1 || o2)
		}
	case OpZExt:
		in := t.A[0]
		if in.W == 0 {
			return ival{0, 1}
		}
		if a := sub(0); a.lo >= 0 {
			return a
		}
		if in.W < 64 {
			return ival{0, int64(maskW(in.W))}
		}
	case OpSExt:
		return sub(0)
	case OpExtract:
		if t.Val == 0 {
			if a := sub(0); a.lo >= full.lo && a.hi <= full.hi {
				return a
			}
		}
	case OpIte:
		cx, ct, cf, ok := splitCond(t.A[0])
		var a, b ival
		if ok && x == nil {
			r := rangeS(cx)
			ct, cf = meet(ct, r), meet(cf, r)
			if ct.lo > ct.hi {
				return rangeS(t.A[2])
			}
			if cf.lo > cf.hi {
				return rangeS(t.A[1])
			}
			a, b = meet(rangeOf(t.A[1], cx, ct, 1), rangeS(t.A[1])), meet(rangeOf(t.A[2], cx, cf, 1), rangeS(t.A[2]))
		} else {
			a, b = sub(1), sub(2)
		}
		if a.lo > a.hi {
			return b
		}
		if b.lo > b.hi {
			return a
		}
		return ival{min(a.lo, b.lo), max(a.hi, b.hi)}
	}
	return full
}

func meet(a, b ival) ival { return ival{max(a.lo, b.lo), min(a.hi, b.hi)} }

// splitCond reads a comparison of a term with a constant as the interval of
// the term if the comparison is true, and if it is false.
func splitCond(c *Term) (x *Term, t, f ival, ok bool) {
	if c.Op == OpBNot {
		x, f, t, ok = splitCond(c.A[0])
		return
	}
	if c.Op != OpSLt {
		return
	}
	a, b := c.A[0], c.A[1]
	full := fullS(a.W)
	switch {
	case b.IsConst():
		k := sext64(b.Val, b.W)
		if k == full.lo {
			return
		}
		return a, ival{full.lo, k - 1}, ival{k, full.hi}, true
	case a.IsConst():
		k := sext64(a.Val, a.W)
		if k == full.hi {
			return
		}
		return b, ival{k + 1, full.hi}, ival{full.lo, k}, true
	}
	return
}

// fits: every value of t survives truncation to w bits and sign extension.
func fits(t *Term, w int) bool {
	r := rangeS(t)
	return r.lo >= minS(w) && r.hi <= maxS(w)
}
