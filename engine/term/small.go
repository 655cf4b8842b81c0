package term

// Terms that depend on at most eight input bits are tabulated: comparisons
// that come out the same for every input are decided, and table lookups that
// merely rewire input bits (decode after encode) become those bits again.

const ttBits = 8

type bitID struct {
	v *Term
	i uint8
}

type ttab struct {
	bits []bitID
	val  []uint64
}

func bitLess(a, b bitID) bool {
	if a.v.ID != b.v.ID {
		return a.v.ID < b.v.ID
	}
	return a.i < b.i
}

func bitMerge(a, b []bitID) []bitID {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	var out []bitID
	for len(a) > 0 || len(b) > 0 {
		switch {
		case len(b) == 0 || len(a) > 0 && bitLess(a[0], b[0]):
			out, a = append(out, a[0]), a[1:]
		case len(a) == 0 || bitLess(b[0], a[0]):
			out, b = append(out, b[0]), b[1:]
		default:
			out, a, b = append(out, a[0]), a[1:], b[1:]
		}
		if len(out) > ttBits {
			return nil
		}
	}
	return out
}

// tt returns the table of t, nil if t depends on too much.
func (c *Ctx) tt(t *Term, depth int) *ttab {
	if t.Op == Const {
		return &ttab{val: []uint64{t.V & maskB(t.W)}}
	}
	if r, ok := c.tts[t]; ok {
		return r
	}
	if depth == 0 {
		return nil
	}
	r := c.tt1(t, depth-1)
	if c.tts == nil {
		c.tts = map[*Term]*ttab{}
	}
	c.tts[t] = r
	return r
}

func (c *Ctx) tt1(t *Term, depth int) *ttab {
	lo, n := uint8(0), t.W
	v := t
	if t.Op == Extract && t.A[0].Op == Var {
		v, lo = t.A[0], t.lo()
	}
	if v.Op == Var {
		if n > ttBits {
			return nil
		}
		if t.W == 0 {
			n = 1
		}
		r := &ttab{}
		for i := uint8(0); i < n; i++ {
			r.bits = append(r.bits, bitID{v, lo + i})
		}
		for x := uint64(0); x < 1<<n; x++ {
			r.val = append(r.val, x)
		}
		return r
	}
	if t.Op == UF || len(t.A) == 0 {
		return nil
	}
	sub := make([]*ttab, len(t.A))
	var bits []bitID
	for i, a := range t.A {
		s := c.tt(a, depth)
		if s == nil {
			return nil
		}
		had := len(bits) + len(s.bits)
		bits = bitMerge(bits, s.bits)
		if bits == nil && had > 0 {
			return nil
		}
		sub[i] = s
	}
	// position of every bit of the arguments
	pos := make([][]uint, len(sub))
	for i, s := range sub {
		for _, b := range s.bits {
			for k, x := range bits {
				if x == b {
					pos[i] = append(pos[i], uint(k))
				}
			}
		}
	}
	r := &ttab{bits: bits, val: make([]uint64, 1<<uint(len(bits)))}
	arg := make([]uint64, len(sub))
	for x := range r.val {
		for i, s := range sub {
			y := 0
			for k, p := range pos[i] {
				y |= (x >> p & 1) << uint(k)
			}
			arg[i] = s.val[y]
		}
		var v uint64
		switch t.Op {
		case Ite:
			if arg[0] != 0 {
				v = arg[1]
			} else {
				v = arg[2]
			}
		case BAnd:
			v = b2u(arg[0] != 0 && arg[1] != 0)
		case BOr:
			v = b2u(arg[0] != 0 || arg[1] != 0)
		case Concat:
			for i, p := range t.A {
				v = v<<p.W | arg[i]
			}
		default:
			b := uint64(0)
			if len(arg) > 1 {
				b = arg[1]
			}
			v = foldOp(t, t.A[0].W, arg[0], b)
		}
		r.val[x] = v & maskB(t.W)
	}
	return r
}

// small simplifies a freshly built term by its table.
func (c *Ctx) small(t *Term) *Term {
	switch t.Op {
	case Eq, ULt, ULe, SLt, SLe, BAnd, BOr, BNot, Ite, And, Or, Xor, Extract:
	default:
		return t
	}
	if t.Size < 12 {
		return t
	}
	r := c.tt(t, 64)
	if r == nil {
		return t
	}
	same := true
	for _, v := range r.val {
		if v != r.val[0] {
			same = false
			break
		}
	}
	if same {
		if t.W == 0 {
			return Bool(r.val[0] == 1)
		}
		return K(t.W, r.val[0])
	}
	if t.W == 0 {
		return t
	}
	// every output bit a constant, an input bit, or its complement
	type wire struct {
		src int // -1 constant
		inv uint64
	}
	ws := make([]wire, t.W)
	for o := range ws {
		base := r.val[0] >> uint(o) & 1
		w := wire{-1, base}
		for k := range r.bits {
			if r.val[1<<uint(k)]>>uint(o)&1 != base {
				if w.src >= 0 {
					return t
				}
				w.src = k
			}
		}
		for x, v := range r.val {
			want := base
			if w.src >= 0 {
				want ^= uint64(x) >> uint(w.src) & 1
			}
			if v>>uint(o)&1 != want {
				return t
			}
		}
		ws[o] = w
	}
	var parts []*Term
	for o := len(ws) - 1; o >= 0; o-- {
		w := ws[o]
		if w.src < 0 {
			parts = append(parts, K(1, w.inv))
			continue
		}
		b := r.bits[w.src]
		var p *Term
		if b.v.W == 0 {
			p = c.Ite(b.v, K(1, 1), K(1, 0))
		} else {
			p = c.Extract(b.v, b.i, b.i)
		}
		if w.inv == 1 {
			p = c.BVNot(p)
		}
		parts = append(parts, p)
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return c.ConcatN(parts...)
}
