package term

import "math"

// monotone views float a as a non-decreasing function of one integer term:
// a chain of int->float conversion, scaling by positive constants, adding
// constants, ceil and floor.
func monotone(a *Term) (x *Term, signed bool, f func(uint64) float64, ok bool) {
	if a.W != 64 {
		return nil, false, nil, false
	}
	switch a.Op {
	case FFromU:
		x = a.A[0]
		return x, false, func(v uint64) float64 { return float64(v) }, true
	case FFromS:
		x = a.A[0]
		w := x.W
		return x, true, func(v uint64) float64 { return float64(sx(w, v)) }, true
	case FMul, FDiv, FAdd, FSub:
		k := a.A[1]
		in := a.A[0]
		if k.Op != Const {
			if (a.Op == FMul || a.Op == FAdd) && in.Op == Const {
				k, in = in, k
			} else {
				return nil, false, nil, false
			}
		}
		kf := math.Float64frombits(k.V)
		if math.IsNaN(kf) || math.IsInf(kf, 0) || (a.Op == FMul || a.Op == FDiv) && kf <= 0 {
			return nil, false, nil, false
		}
		x, signed, g, ok := monotone(in)
		op := a.Op
		return x, signed, func(v uint64) float64 {
			y := g(v)
			switch op {
			case FMul:
				return y * kf
			case FDiv:
				return y / kf
			case FAdd:
				return y + kf
			}
			return y - kf
		}, ok
	case FCeil, FFloor:
		x, signed, g, ok := monotone(a.A[0])
		if a.Op == FCeil {
			return x, signed, func(v uint64) float64 { return math.Ceil(g(v)) }, ok
		}
		return x, signed, func(v uint64) float64 { return math.Floor(g(v)) }, ok
	}
	return nil, false, nil, false
}

// atLeast is the condition pred(f(x)) for a monotone f and an upward-closed
// pred: x lies at or above a threshold, found by bisection.
func (c *Ctx) atLeast(x *Term, signed bool, pred func(uint64) bool) *Term {
	w := x.W
	// order the domain 0..2^w-1; signed values are offset by the sign bit
	off := uint64(0)
	if signed {
		off = 1 << (w - 1)
	}
	at := func(i uint64) bool { return pred((i ^ off) & Mask(w)) }
	hi := Mask(w)
	if !at(hi) {
		return False
	}
	lo := uint64(0)
	for lo < hi { // smallest i with at(i)
		mid := lo + (hi-lo)/2
		if at(mid) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	if lo == 0 {
		return True
	}
	t := K(w, lo^off)
	if signed {
		return c.SLe(t, x)
	}
	return c.ULe(t, x)
}

func (c *Ctx) monotoneCmp(op Op, a, b *Term) (*Term, bool) {
	if b.Op == Const {
		k := math.Float64frombits(b.V)
		x, s, f, ok := monotone(a)
		if !ok || math.IsNaN(k) {
			return nil, false
		}
		ge := c.atLeast(x, s, func(v uint64) bool { return f(v) >= k })
		if op == FLt {
			return c.Not1(ge), true
		}
		gt := c.atLeast(x, s, func(v uint64) bool { return f(v) > k })
		if op == FLe {
			return c.Not1(gt), true
		}
		return c.And1(ge, c.Not1(gt)), true
	}
	if a.Op == Const {
		k := math.Float64frombits(a.V)
		x, s, f, ok := monotone(b)
		if !ok || math.IsNaN(k) {
			return nil, false
		}
		gt := c.atLeast(x, s, func(v uint64) bool { return f(v) > k })
		if op == FLt {
			return gt, true
		}
		ge := c.atLeast(x, s, func(v uint64) bool { return f(v) >= k })
		if op == FLe {
			return ge, true
		}
		return c.And1(ge, c.Not1(gt)), true
	}
	return nil, false
}

// Quot views float a as float64(x)/k for an integer term x and an integral
// constant k, both sides unsigned; signed says how x was converted.
func Quot(a *Term) (x *Term, signed bool, k uint64, ok bool) {
	if a.Op != FDiv || a.W != 64 || a.A[1].Op != Const {
		return nil, false, 0, false
	}
	n := a.A[0]
	if n.Op != FFromU && n.Op != FFromS {
		return nil, false, 0, false
	}
	kf := math.Float64frombits(a.A[1].V)
	if kf != math.Trunc(kf) || kf < 1 || kf > 1<<24 {
		return nil, false, 0, false
	}
	return n.A[0], n.Op == FFromS, uint64(kf), true
}
