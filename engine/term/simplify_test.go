package term

import (
	"math/rand"
	"testing"
)

// Every smart constructor agrees with the plain semantics of its operator:
// the same random expression is built with and without simplification and
// evaluated under random models.
func TestSimplify(t *testing.T) {
	for seed := int64(0); seed < 200000; seed++ {
		r := rand.New(rand.NewSource(seed))
		s, raw := NewCtx(), NewCtx()
		raw.Raw = true
		type pair struct{ a, b *Term }
		var ps, bs []pair
		var vars []pair
		ws := []uint8{8, 16, 32, 64}
		for i := 0; i < 3; i++ {
			w := ws[r.Intn(4)]
			n := string(rune('a' + i))
			p := pair{s.MkVar(n, w), raw.MkVar(n, w)}
			vars, ps = append(vars, p), append(ps, p)
		}
		konst := func(w uint8) uint64 {
			v := []uint64{0, 1, 2, 10, 90, 180, 2089, 0x7f, 0xff, 1 << 31, 1 << 32, 1 << 33, ^uint64(0), ^uint64(89)}[r.Intn(14)]
			return v & Mask(w)
		}
		fit := func(p pair, w uint8) pair {
			if p.a.W == w {
				return p
			}
			if p.a.W > w {
				lo := uint8(0)
				if r.Intn(3) == 0 {
					lo = uint8(r.Intn(int(p.a.W-w) + 1))
				}
				return pair{s.Extract(p.a, lo+w-1, lo), raw.Extract(p.b, lo+w-1, lo)}
			}
			if r.Intn(3) == 0 {
				return pair{s.SExt(p.a, w), raw.SExt(p.b, w)}
			}
			return pair{s.ZExt(p.a, w), raw.ZExt(p.b, w)}
		}
		for i := 0; i < 14; i++ {
			x := ps[r.Intn(len(ps))]
			w := x.a.W
			if r.Intn(3) == 0 {
				w = ws[r.Intn(4)]
				x = fit(x, w)
			}
			y := fit(ps[r.Intn(len(ps))], w)
			if r.Intn(3) == 0 {
				v := konst(w)
				y = pair{K(w, v), K(w, v)}
			}
			if r.Intn(6) == 0 {
				x, y = y, x
			}
			var z pair
			switch r.Intn(22) {
			case 0, 1, 2:
				z = pair{s.Add(x.a, y.a), raw.Add(x.b, y.b)}
			case 3, 4:
				z = pair{s.Sub(x.a, y.a), raw.Sub(x.b, y.b)}
			case 5, 6:
				z = pair{s.Mul(x.a, y.a), raw.Mul(x.b, y.b)}
			case 7:
				z = pair{s.And(x.a, y.a), raw.And(x.b, y.b)}
			case 8:
				z = pair{s.Or(x.a, y.a), raw.Or(x.b, y.b)}
			case 9:
				z = pair{s.Xor(x.a, y.a), raw.Xor(x.b, y.b)}
			case 10:
				v := uint64(r.Intn(int(w) + 2))
				z = pair{s.Shl(x.a, K(w, v)), raw.Shl(x.b, K(w, v))}
			case 11:
				v := uint64(r.Intn(int(w) + 2))
				z = pair{s.LShr(x.a, K(w, v)), raw.LShr(x.b, K(w, v))}
			case 12:
				z = pair{s.Neg(x.a), raw.Neg(x.b)}
			case 13:
				v := konst(w)
				if v == 0 {
					v = 7
				}
				z = pair{s.UDiv(x.a, K(w, v)), raw.UDiv(x.b, K(w, v))}
				if r.Intn(2) == 0 {
					z = pair{s.URem(x.a, K(w, v)), raw.URem(x.b, K(w, v))}
				}
			case 14:
				z = fit(x, ws[r.Intn(4)])
			case 15:
				if len(bs) == 0 {
					continue
				}
				c := bs[r.Intn(len(bs))]
				z = pair{s.Ite(c.a, x.a, y.a), raw.Ite(c.b, x.b, y.b)}
			case 16, 17:
				bs = append(bs, pair{s.ULt(x.a, y.a), raw.ULt(x.b, y.b)}, pair{s.ULe(x.a, y.a), raw.ULe(x.b, y.b)})
				continue
			case 18, 19:
				bs = append(bs, pair{s.Eq(x.a, y.a), raw.Eq(x.b, y.b)})
				continue
			case 20:
				bs = append(bs, pair{s.SLt(x.a, y.a), raw.SLt(x.b, y.b)}, pair{s.SLe(x.a, y.a), raw.SLe(x.b, y.b)})
				continue
			default:
				if w > 32 {
					continue
				}
				z = pair{s.ConcatN(x.a, y.a), raw.ConcatN(x.b, y.b)}
			}
			ps = append(ps, z)
		}
		for k := 0; k < 6; k++ {
			m, mr := Model{}, Model{}
			for _, v := range vars {
				x := r.Uint64()
				switch r.Intn(4) {
				case 0:
					x = uint64(r.Intn(400))
				case 1:
					x = konst(64) + uint64(r.Intn(5)) - 2
				}
				x &= Mask(v.a.W)
				m[v.a], mr[v.b] = x, x
			}
			e1, e2 := map[*Term]uint64{}, map[*Term]uint64{}
			for _, p := range append(ps, bs...) {
				if p.a.W != p.b.W {
					t.Fatalf("seed %d width %d %d", seed, p.a.W, p.b.W)
				}
				if g, w := p.a.Eval(m, e1), p.b.Eval(mr, e2); g != w {
					t.Fatalf("seed %d: %v = %x, plain %v = %x under %v", seed, p.a, g, p.b, w, m)
				}
			}
		}
	}
}
