package term

import gosort "sort"

// Equalities between GF(2)-linear terms (checksums) are decided by Gaussian
// elimination instead of being handed to a bit-blaster, which is hopeless at
// long parity chains. Bits of non-linear subterms are the unknowns.

type linBit []uint64 // word 0 bit 0: constant; bit 1+i: unknown i

func linXor(a, b linBit) linBit {
	if len(a) < len(b) {
		a, b = b, a
	}
	r := append(linBit(nil), a...)
	for i, x := range b {
		r[i] ^= x
	}
	for len(r) > 0 && r[len(r)-1] == 0 {
		r = r[:len(r)-1]
	}
	return r
}

func (a linBit) konst() (uint64, bool) {
	if len(a) == 0 {
		return 0, true
	}
	if len(a) == 1 && a[0] == 1 {
		return 1, true
	}
	return 0, false
}

var linOne = linBit{1}

type atomKey struct {
	t *Term
	b uint8
}

type linCtx struct {
	c     *Ctx
	memo  map[*Term][]linBit
	ids   map[atomKey]int
	atoms []atomKey
	ok    bool
}

const linMaxAtoms = 4096

func (l *linCtx) atom(t *Term, b uint8) linBit {
	k := atomKey{t, b}
	i, ok := l.ids[k]
	if !ok {
		i = len(l.atoms)
		l.ids[k] = i
		l.atoms = append(l.atoms, k)
		if i > linMaxAtoms {
			l.ok = false
		}
	}
	r := make(linBit, (i+1)/64+1)
	r[(i+1)/64] = 1 << uint((i+1)%64)
	return r
}

func (l *linCtx) opaque(t *Term) []linBit {
	r := make([]linBit, t.W)
	for i := range r {
		r[i] = l.atom(t, uint8(i))
	}
	return r
}

func (l *linCtx) bits(t *Term) []linBit {
	if t.Op == Const {
		r := make([]linBit, t.W)
		for i := range r {
			if t.V>>uint(i)&1 == 1 {
				r[i] = linOne
			}
		}
		return r
	}
	if r, ok := l.memo[t]; ok {
		return r
	}
	r := l.bits1(t)
	l.memo[t] = r
	return r
}

func (l *linCtx) cond(t *Term) (linBit, bool) {
	switch t.Op {
	case BNot:
		b, ok := l.cond(t.A[0])
		return linXor(b, linOne), ok
	case Eq:
		if t.A[0].W == 1 {
			x, y := l.bits(t.A[0]), l.bits(t.A[1])
			return linXor(linXor(x[0], y[0]), linOne), true
		}
	}
	return nil, false
}

func (l *linCtx) bits1(t *Term) []linBit {
	if !l.ok {
		return l.opaque(t)
	}
	switch t.Op {
	case Not:
		x := l.bits(t.A[0])
		r := make([]linBit, t.W)
		for i := range r {
			r[i] = linXor(x[i], linOne)
		}
		return r
	case Xor:
		r := l.bits(t.A[0])
		for _, a := range t.A[1:] {
			y := l.bits(a)
			n := make([]linBit, t.W)
			for i := range n {
				n[i] = linXor(r[i], y[i])
			}
			r = n
		}
		return r
	case And, Or:
		zero, unit := uint64(0), uint64(1)
		if t.Op == Or {
			zero, unit = 1, 0
		}
		r := l.bits(t.A[0])
		for _, a := range t.A[1:] {
			y := l.bits(a)
			n := make([]linBit, t.W)
			for i := range n {
				kx, cx := r[i].konst()
				ky, cy := y[i].konst()
				switch {
				case cx && kx == zero:
					n[i] = r[i]
				case cy && ky == zero:
					n[i] = y[i]
				case cx && kx == unit:
					n[i] = y[i]
				case cy && ky == unit:
					n[i] = r[i]
				default:
					return l.opaque(t)
				}
			}
			r = n
		}
		return r
	case Concat:
		r := make([]linBit, 0, t.W)
		for i := len(t.A) - 1; i >= 0; i-- {
			r = append(r, l.bits(t.A[i])...)
		}
		return r
	case Extract:
		return l.bits(t.A[0])[t.lo() : t.hi()+1]
	case SExt:
		x := l.bits(t.A[0])
		r := append([]linBit(nil), x...)
		for len(r) < int(t.W) {
			r = append(r, x[len(x)-1])
		}
		return r
	case Neg:
		x := l.bits(t.A[0])
		for _, b := range x[1:] {
			if k, ok := b.konst(); !ok || k != 0 {
				return l.opaque(t)
			}
		}
		r := make([]linBit, t.W)
		for i := range r {
			r[i] = x[0]
		}
		return r
	case Shl, LShr:
		if t.A[1].Op == Const {
			x := l.bits(t.A[0])
			r := make([]linBit, t.W)
			for i := range r {
				j := i + int(t.A[1].V)
				if t.Op == Shl {
					j = i - int(t.A[1].V)
				}
				if t.A[1].V < 64 && j >= 0 && j < len(x) {
					r[i] = x[j]
				}
			}
			return r
		}
	case Ite:
		if t.W == 0 {
			break
		}
		x, y := l.bits(t.A[1]), l.bits(t.A[2])
		d := make([]bool, t.W)
		for i := range d {
			k, ok := linXor(x[i], y[i]).konst()
			if !ok {
				return l.opaque(t)
			}
			d[i] = k == 1
		}
		if cb, ok := l.cond(t.A[0]); ok {
			r := append([]linBit(nil), y...)
			for i := range r {
				if d[i] {
					r[i] = linXor(r[i], cb)
				}
			}
			return r
		}
	}
	return l.opaque(t)
}

func hasXor(t *Term, d int) bool {
	if t.Op == Xor {
		return true
	}
	if d == 0 {
		return false
	}
	for _, a := range t.A {
		if hasXor(a, d-1) {
			return true
		}
	}
	return false
}

// linEq rewrites a == b for linear a, b; ok is false when it does not apply.
func (c *Ctx) linEq(a, b *Term) (*Term, bool) {
	if a.W < 8 || a.Size < 150 && b.Size < 150 || !hasXor(a, 3) && !hasXor(b, 3) {
		return nil, false
	}
	if c.lin == nil || len(c.lin.atoms) > linMaxAtoms/2 {
		c.lin = &linCtx{c: c, memo: map[*Term][]linBit{}, ids: map[atomKey]int{}}
	}
	l := c.lin
	l.ok = true
	x, y := l.bits(a), l.bits(b)
	if !l.ok {
		c.lin = nil
		return nil, false
	}
	var rows []linBit
	lead := func(r linBit) int {
		for i := len(r) - 1; i >= 0; i-- {
			for b := 63; b >= 0; b-- {
				if r[i]>>uint(b)&1 == 1 {
					return i*64 + b
				}
			}
		}
		return -1
	}
	has := func(r linBit, p int) bool { return p/64 < len(r) && r[p/64]>>uint(p%64)&1 == 1 }
	for i := range x {
		r := linXor(x[i], y[i])
		for _, q := range rows {
			if has(r, lead(q)) {
				r = linXor(r, q)
			}
		}
		p := lead(r)
		if p < 0 {
			continue
		}
		if p == 0 {
			return False, true
		}
		for j, q := range rows {
			if has(q, p) {
				rows[j] = linXor(q, r)
			}
		}
		rows = append(rows, r)
	}
	gosort.Slice(rows, func(i, j int) bool { return lead(rows[i]) < lead(rows[j]) })
	out := True
	for _, r := range rows {
		e := K(1, 0)
		k := uint64(1) // equation: xor of atoms = constant, i.e. xor ^ const == 0
		for p := 1; p <= lead(r); p++ {
			if has(r, p) {
				at := l.atoms[p-1]
				e = c.mkXor1(e, c.Extract(at.t, at.b, at.b))
			}
		}
		if len(r) == 0 || r[0]&1 == 0 {
			k = 0
		}
		c.inLin = true
		out = c.And1(out, c.Eq(e, K(1, k)))
		c.inLin = false
		if out.IsFalse() {
			return out, true
		}
	}
	return out, true
}

func (c *Ctx) mkXor1(a, b *Term) *Term {
	if a.Op == Const && a.V == 0 {
		return b
	}
	return c.Xor(a, b)
}
