package interp

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"gosym/term"
)

// sprintf implements fmt formatting over engine values. If fork is false,
// symbolic values are rendered as an opaque marker (used for error texts).
func (m *Machine) sprintf(format Str, args []Value, fork bool) Str {
	if format.b != nil {
		return format
	}
	out := Str{}
	f := format.s
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = concatStr(out, Str{s: f[i:]})
			break
		}
		out = concatStr(out, Str{s: f[i : i+j]})
		i += j + 1
		k := i
		for k < len(f) && strings.IndexByte("+-# 0123456789.[]*", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			out = concatStr(out, Str{s: "%!(NOVERB)"})
			break
		}
		flags, verb := f[i:k], f[k]
		i = k + 1
		if verb == '%' {
			out = concatStr(out, Str{s: "%"})
			continue
		}
		if ai >= len(args) {
			out = concatStr(out, Str{s: "%!" + string(verb) + "(MISSING)"})
			continue
		}
		a := args[ai]
		ai++
		out = concatStr(out, m.fmtOne(flags, verb, a, fork))
	}
	if ai < len(args) {
		out = concatStr(out, Str{s: "%!(EXTRA)"})
	}
	return out
}

func (m *Machine) fmtOne(flags string, verb byte, a Value, fork bool) Str {
	it, ok := a.(Iface)
	if !ok {
		it = Iface{t: types.Typ[types.Int], v: a}
	}
	if it.t == nil {
		if verb == 's' {
			return Str{s: "%!s(<nil>)"}
		}
		return Str{s: "<nil>"}
	}
	if verb == 'T' {
		return Str{s: it.t.String()}
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		if _, ok := it.v.(NativeObj); ok {
			return Str{s: "native"}
		}
		for _, name := range []string{"Error", "String"} {
			if f := m.eng.method(it.t, nil, name); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
				if b, ok := f.Signature.Results().At(0).Type().(*types.Basic); ok && b.Kind() == types.String {
					if p, isP := it.v.(*Value); isP && p == nil {
						return Str{s: "<nil>"}
					}
					r := m.callFn(f, []Value{it.v}, nil).(Str)
					return m.padStr(flags, verb, r)
				}
			}
		}
	}
	switch v := it.v.(type) {
	case *term.Term:
		return m.fmtTerm(flags, verb, v, it.t, fork)
	case Str:
		switch verb {
		case 's', 'v', 'q':
			return m.padStr(flags, verb, v)
		case 'x', 'X':
			return m.hexBytes(v.Terms(), verb == 'X')
		}
		return v
	case Slice:
		return m.fmtSeq(flags, verb, v, it.t, fork)
	case Array:
		return m.fmtSeq(flags, verb, v, it.t, fork)
	case *Value:
		if verb == 'v' && v != nil && fork {
			if st, ok := (*v).(Struct); ok {
				return concatStr(Str{s: "&"}, m.fmtOne(flags, 'v', Iface{t: it.t.Underlying().(*types.Pointer).Elem(), v: st}, fork))
			}
		}
		return Str{s: "0xc000000000"}
	case Struct:
		st := it.t.Underlying().(*types.Struct)
		out := Str{s: "{"}
		for i := range v {
			if i > 0 {
				out = concatStr(out, Str{s: " "})
			}
			if strings.Contains(flags, "+") {
				out = concatStr(out, Str{s: st.Field(i).Name() + ":"})
			}
			out = concatStr(out, m.fmtOne(flags, 'v', mkIface(st.Field(i).Type(), v[i]), fork))
		}
		return concatStr(out, Str{s: "}"})
	}
	return Str{s: "?"}
}

func mkIface(t types.Type, v Value) Value {
	if i, ok := v.(Iface); ok {
		return i
	}
	return Iface{t: t, v: v}
}

func (m *Machine) fmtSeq(flags string, verb byte, v []Value, t types.Type, fork bool) Str {
	var et types.Type
	switch u := t.Underlying().(type) {
	case *types.Slice:
		et = u.Elem()
	case *types.Array:
		et = u.Elem()
	}
	if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		switch verb {
		case 's':
			return mkStr(sliceTerms(v))
		case 'x', 'X':
			return m.hexBytes(sliceTerms(v), verb == 'X')
		}
	}
	out := Str{s: "["}
	for i := range v {
		if i > 0 {
			out = concatStr(out, Str{s: " "})
		}
		out = concatStr(out, m.fmtOne(flags, verb, mkIface(et, v[i]), fork))
	}
	return concatStr(out, Str{s: "]"})
}

func (m *Machine) hexDigit(n *term.Term, upper bool) *term.Term {
	c := m.c
	n8 := c.ZExt(n, 8)
	base := byte('a' - 10)
	if upper {
		base = 'A' - 10
	}
	return c.Ite(c.ULt(n8, term.K(8, 10)), c.Add(n8, term.K(8, '0')), c.Add(n8, term.K(8, uint64(base))))
}

func (m *Machine) hexBytes(b []*term.Term, upper bool) Str {
	var out []*term.Term
	for _, x := range b {
		out = append(out, m.hexDigit(m.c.Extract(x, 7, 4), upper), m.hexDigit(m.c.Extract(x, 3, 0), upper))
	}
	return mkStr(out)
}

func (m *Machine) padStr(flags string, verb byte, s Str) Str {
	if s.b == nil {
		return Str{s: fmt.Sprintf("%"+flags+string(verb), s.s)}
	}
	if verb == 'q' {
		return concatStr(concatStr(Str{s: "\""}, s), Str{s: "\""})
	}
	return s
}

func (m *Machine) fmtTerm(flags string, verb byte, v *term.Term, t types.Type, fork bool) Str {
	if v.Op == term.Const {
		switch {
		case v.W == 0:
			return Str{s: fmt.Sprintf("%"+flags+string(verb), v.V != 0)}
		case isFloat(t):
			if v.W == 32 {
				return Str{s: fmt.Sprintf("%"+flags+string(verb), math.Float32frombits(uint32(v.V)))}
			}
			return Str{s: fmt.Sprintf("%"+flags+string(verb), math.Float64frombits(v.V))}
		case isSigned(t):
			return Str{s: fmt.Sprintf("%"+flags+string(verb), v.SVal())}
		default:
			return Str{s: fmt.Sprintf("%"+flags+string(verb), v.V)}
		}
	}
	if !fork {
		return Str{s: "?"}
	}
	if v.W == 0 {
		if m.branch(v) {
			return Str{s: "true"}
		}
		return Str{s: "false"}
	}
	if isFloat(t) {
		return m.fmtFloat(flags, verb, v)
	}
	x := m.toInt64(v, t)
	neg := false
	if isSigned(t) && m.branch(m.c.SLt(x, term.K(64, 0))) {
		neg = true
		x = m.c.Neg(x)
	}
	var digits []*term.Term
	switch verb {
	case 'd', 'v':
		digits = m.decDigits(x)
	case 'x', 'X':
		n := 1
		for n < 16 && !m.branch(m.c.ULt(x, term.K(64, uint64(1)<<(4*uint(n))))) {
			n++
		}
		for i := n - 1; i >= 0; i-- {
			digits = append(digits, m.hexDigit(m.c.Extract(x, uint8(4*i+3), uint8(4*i)), verb == 'X'))
		}
	case 'c':
		return m.runeStr(x)
	default:
		panic(m.unsupported("format verb " + string(verb) + " of symbolic value"))
	}
	width := 0
	zeroPad := strings.HasPrefix(strings.TrimLeft(flags, "+- #"), "0")
	fmt.Sscanf(strings.TrimLeft(flags, "+- #0"), "%d", &width)
	var out []*term.Term
	if neg {
		out = append(out, term.K(8, '-'))
	}
	padc := byte(' ')
	if zeroPad {
		padc = '0'
	}
	var pads []*term.Term
	for i := len(digits) + len(out); i < width; i++ {
		pads = append(pads, term.K(8, uint64(padc)))
	}
	if zeroPad {
		out = append(append(out, pads...), digits...)
	} else {
		out = append(pads, append(out, digits...)...)
	}
	return mkStr(out)
}

// decDigits renders an unsigned 64-bit term in decimal, forking on the digit count.
func (m *Machine) decDigits(x *term.Term) []*term.Term {
	c := m.c
	n := 1
	p := uint64(10)
	for n < 20 && !m.branch(c.ULt(x, term.K(64, p))) {
		n++
		if n == 20 {
			break
		}
		p *= 10
	}
	out := make([]*term.Term, n)
	d := uint64(1)
	for i := n - 1; i >= 0; i-- {
		q := c.URem(c.UDiv(x, term.K(64, d)), term.K(64, 10))
		if i == 0 {
			q = c.UDiv(x, term.K(64, d))
		}
		out[i] = c.Add(c.Extract(q, 7, 0), term.K(8, '0'))
		d *= 10
	}
	return out
}

// quot recognises float64(x)/k with 0 <= x < 2^40, forking on the range.
func (m *Machine) quot(v *term.Term) (x *term.Term, k uint64, ok bool) {
	t, signed, k, ok := term.Quot(v)
	if !ok {
		return nil, 0, false
	}
	if signed {
		x = m.c.SExt(t, 64)
	} else {
		x = m.c.ZExt(t, 64)
	}
	return x, k, m.branch(m.c.ULt(x, term.K(64, 1<<40)))
}

// fcmp compares floats; quotients of integers by the same constant compare
// as their numerators (float64(x)/k is strictly increasing below 2^40).
func (m *Machine) fcmp(op term.Op, a, b *term.Term) *term.Term {
	if _, _, ka, ok := term.Quot(a); ok {
		if _, _, kb, ok := term.Quot(b); ok && ka == kb {
			x, _, okx := m.quot(a)
			if okx {
				if y, _, oky := m.quot(b); oky {
					if op == term.FLt {
						return m.c.ULt(x, y)
					}
					return m.c.ULe(x, y)
				}
			}
		}
	}
	return m.c.FCmp(op, a, b)
}

// quotToInt converts a quotient, or its ceiling, to an integer: below 2^40
// the rounding error of float64(x)/k never crosses an integer.
func (m *Machine) quotToInt(v *term.Term, w uint8) (*term.Term, bool) {
	up := v.Op == term.FCeil
	if up || v.Op == term.FFloor {
		v = v.A[0]
	}
	x, k, ok := m.quot(v)
	if !ok {
		return nil, false
	}
	if up {
		x = m.c.Add(x, term.K(64, k-1))
	}
	r := m.c.UDiv(x, term.K(64, k))
	if w < 64 {
		r = m.c.Extract(r, w-1, 0)
	}
	return r, true
}

// fmtFloat renders float64(x)/k with fixed decimals exactly, for k a
// multiple of the matching power of ten and x/k not halfway between two
// representable decimals; anything else is enumerated.
func (m *Machine) fmtFloat(flags string, verb byte, v *term.Term) Str {
	if verb == 'f' && strings.HasPrefix(flags, ".") {
		prec := 0
		fmt.Sscanf(flags[1:], "%d", &prec)
		p10 := uint64(math.Pow10(prec))
		if prec >= 1 && prec <= 6 {
			if _, _, k, ok := term.Quot(v); ok && k%p10 == 0 {
				x, k, ok := m.quot(v)
				g := term.K(64, k/p10)
				if ok && k/p10 > 1 {
					r := m.c.URem(x, g)
					if m.branch(m.c.Eq(m.c.Mul(r, term.K(64, 2)), g)) {
						ok = false
					} else {
						x = m.c.UDiv(m.c.Add(x, term.K(64, k/p10/2)), g)
					}
				}
				if ok {
					kk := term.K(64, p10)
					ip := m.decDigits(m.c.UDiv(x, kk))
					fp := m.c.URem(x, kk)
					out := append([]*term.Term{}, ip...)
					out = append(out, term.K(8, '.'))
					d := p10 / 10
					for i := 0; i < prec; i++ {
						q := m.c.URem(m.c.UDiv(fp, term.K(64, d)), term.K(64, 10))
						out = append(out, m.c.Add(m.c.Extract(q, 7, 0), term.K(8, '0')))
						d /= 10
					}
					return mkStr(out)
				}
			}
		}
	}
	// fall back: enumerate
	x := m.concretize(v, 64)
	return m.fmtTerm(flags, verb, term.K(v.W, x), types.Typ[types.Float64], true)
}
