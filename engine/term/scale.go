package term

// Scaled 64-bit terms x*k whose product cannot overflow compare like x.

// rng bounds x read as a signed 64-bit value.
func (t *Term) rng(d int) (lo, hi int64, ok bool) {
	const lim = 1 << 60
	if t.W != 64 {
		return 0, 0, false
	}
	if t.Op == Const {
		v := int64(t.V)
		return v, v, v > -lim && v < lim
	}
	if u := t.umax(4); u < lim {
		return int64(t.umin(4)), int64(u), true
	}
	if d == 0 {
		return 0, 0, false
	}
	switch t.Op {
	case SExt:
		if w := t.A[0].W; w <= 60 {
			return -1 << (w - 1), 1<<(w-1) - 1, true
		}
	case Add:
		l1, h1, ok1 := t.A[0].rng(d - 1)
		l2, h2, ok2 := t.A[1].rng(d - 1)
		if ok1 && ok2 {
			lo, hi = l1+l2, h1+h2
			return lo, hi, lo > -lim && hi < lim
		}
	case Neg:
		l, h, ok := t.A[0].rng(d - 1)
		return -h, -l, ok
	case Ite:
		l1, h1, ok1 := t.A[1].rng(d - 1)
		l2, h2, ok2 := t.A[2].rng(d - 1)
		if l2 < l1 {
			l1 = l2
		}
		if h2 > h1 {
			h1 = h2
		}
		return l1, h1, ok1 && ok2
	}
	return 0, 0, false
}

// scaled views t as x*k+m without overflow, lo <= t <= hi.
func (t *Term) scaled() (x *Term, k, m, lo, hi int64, ok bool) {
	if t.W != 64 {
		return
	}
	if t.Op == Add && t.A[1].Op == Const {
		m = int64(t.A[1].V)
		t = t.A[0]
	}
	if t.Op != Mul || t.A[1].Op != Const || t.A[1].V > 1<<24 || m > 1<<60 || m < -1<<60 {
		return
	}
	k = int64(t.A[1].V)
	lo, hi, ok = t.A[0].rng(4)
	lim := int64(1<<60) / k
	if !ok || lo <= -lim || hi >= lim {
		ok = false
		return
	}
	return t.A[0], k, m, lo*k + m, hi*k + m, true
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && a < 0 {
		q--
	}
	return q
}

// scaledLt decides t <u v for t = x*k+m.
func (c *Ctx) scaledLt(t *Term, v uint64) (*Term, bool) {
	x, k, m, lo, _, ok := t.scaled()
	if !ok || v == 0 {
		return nil, false
	}
	if lo >= 0 {
		if v > 1<<61 {
			return True, true
		}
	} else if v > 1<<61 {
		return nil, false
	}
	// 0 <= x*k+m <= v-1
	up := c.SLe(x, K(64, uint64(floorDiv(int64(v)-1-m, k))))
	if lo >= 0 {
		return up, true
	}
	return c.And1(c.SLe(K(64, uint64(-floorDiv(m, k))), x), up), true
}

func (c *Ctx) scaledCmp(op Op, a, b *Term) (*Term, bool) {
	if a.W != 64 {
		return nil, false
	}
	if b.Op == Const || a.Op == Const {
		t, k := a, b
		if a.Op == Const {
			t, k = b, a
		}
		if t.Op == Ite && t.A[1].Op != Const && t.A[2].Op != Const {
			_, _, _, _, _, ok1 := t.A[1].scaled()
			_, _, _, _, _, ok2 := t.A[2].scaled()
			if ok1 && ok2 {
				f := c.ULt
				if op == ULe {
					f = c.ULe
				}
				if a.Op == Const {
					return c.Ite(t.A[0], f(k, t.A[1]), f(k, t.A[2])), true
				}
				return c.Ite(t.A[0], f(t.A[1], k), f(t.A[2], k)), true
			}
		}
	}
	switch {
	case b.Op == Const:
		if op == ULt {
			return c.scaledLt(a, b.V)
		}
		if b.V+1 != 0 {
			return c.scaledLt(a, b.V+1)
		}
	case a.Op == Const:
		v := a.V
		if op == ULt {
			v++
			if v == 0 {
				return False, true
			}
		}
		if t, ok := c.scaledLt(b, v); ok {
			return c.Not1(t), true
		}
	default:
		x, k, m, lo, _, ok := a.scaled()
		y, l, n, lo2, _, ok2 := b.scaled()
		if ok && ok2 && k == l && lo >= 0 && lo2 >= 0 {
			// x*k+m <= y*k+n, i.e. x-y <= (n-m)/k
			d := n - m
			if op == ULt {
				d--
			}
			q := floorDiv(d, k)
			if q == 0 {
				return c.SLe(x, y), true
			}
			if q == -1 {
				return c.SLt(x, y), true
			}
			return c.SLe(x, c.Add(y, K(64, uint64(q)))), true
		}
	}
	return nil, false
}

func (c *Ctx) scaledEq(a, b *Term) (*Term, bool) {
	x, k, m, _, _, ok := a.scaled()
	if !ok {
		return nil, false
	}
	if b.Op == Const {
		v := int64(b.V) - m
		if v%k != 0 {
			return False, true
		}
		return c.Eq(x, K(64, uint64(v/k))), true
	}
	if y, l, n, _, _, ok := b.scaled(); ok && k == l {
		if (n-m)%k != 0 {
			return False, true
		}
		return c.Eq(x, c.Add(y, K(64, uint64((n-m)/k)))), true
	}
	return nil, false
}

// scaledAdd factors a common constant out of a sum.
func (c *Ctx) scaledAdd(a, b *Term) (*Term, bool) {
	f := func(t *Term) (x, k *Term, neg bool) {
		if t.Op == Neg {
			t, neg = t.A[0], true
		}
		if t.Op == Mul && t.A[1].Op == Const {
			return t.A[0], t.A[1], neg
		}
		return nil, nil, false
	}
	x, k, n1 := f(a)
	y, m, n2 := f(b)
	if x == nil || y == nil || k.V != m.V {
		return nil, false
	}
	if n1 {
		x = c.Neg(x)
	}
	if n2 {
		y = c.Neg(y)
	}
	return c.Mul(c.Add(x, y), k), true
}

// scaledSCmp is the signed counterpart of scaledCmp.
func (c *Ctx) scaledSCmp(op Op, a, b *Term) (*Term, bool) {
	if a.W != 64 {
		return nil, false
	}
	const lim = 1 << 60
	x, k, m, _, _, ok := a.scaled()
	y, l, n, _, _, ok2 := b.scaled()
	switch {
	case ok && b.Op == Const:
		v := b.SVal()
		if v > lim || v < -lim {
			return nil, false
		}
		if op == SLt {
			v--
		}
		return c.SLe(x, K(64, uint64(floorDiv(v-m, k)))), true
	case ok2 && a.Op == Const:
		v := a.SVal()
		if v > lim || v < -lim {
			return nil, false
		}
		if op == SLe {
			v--
		}
		// not b <= v
		return c.Not1(c.SLe(y, K(64, uint64(floorDiv(v-n, l))))), true
	case ok && ok2 && k == l:
		d := n - m
		if op == SLt {
			d--
		}
		return c.SLe(x, c.Add(y, K(64, uint64(floorDiv(d, k))))), true
	}
	return nil, false
}

func (t *Term) atoms(neg bool, out *[]*Term, sign *[]bool) bool {
	switch t.Op {
	case Add:
		return t.A[0].atoms(neg, out, sign) && t.A[1].atoms(neg, out, sign)
	case Neg:
		return t.A[0].atoms(!neg, out, sign)
	}
	*out, *sign = append(*out, t), append(*sign, neg)
	return len(*out) <= 10
}

// cancel drops terms that occur in a+b with both signs.
func (c *Ctx) cancel(a, b *Term) (*Term, bool) {
	if a.Op != Add && b.Op != Add && a.Op != Neg && b.Op != Neg {
		return nil, false
	}
	var at []*Term
	var neg []bool
	if !a.atoms(false, &at, &neg) || !b.atoms(false, &at, &neg) {
		return nil, false
	}
	hit := false
	for i := range at {
		for j := i + 1; j < len(at) && at[i] != nil; j++ {
			if at[i] == at[j] && neg[i] != neg[j] {
				at[i], at[j], hit = nil, nil, true
			}
		}
	}
	if !hit {
		return nil, false
	}
	sum := K(a.W, 0)
	for i, x := range at {
		if x == nil {
			continue
		}
		if neg[i] {
			sum = c.Sub(sum, x)
		} else {
			sum = c.Add(sum, x)
		}
	}
	return sum, true
}
