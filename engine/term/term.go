// Package term implements hash-consed bit-vector/boolean terms with a
// rewriting simplifier, concrete evaluation and SMT-LIB2 printing.
package term

import (
	"fmt"
	"math"
	"math/bits"
)

type Op uint8

const (
	Const Op = iota
	Var
	Not // bitwise
	Neg
	Add
	Mul
	UDiv
	URem
	SDiv
	SRem
	And
	Or
	Xor
	Shl
	LShr
	AShr
	Concat
	Extract // V = hi<<8|lo
	SExt
	Ite
	Eq
	ULt
	ULe
	SLt
	SLe
	BNot
	BAnd
	BOr
	UF
	FAdd
	FSub
	FMul
	FDiv
	FNeg
	FLt
	FLe
	FEq
	FFromS // int -> float, W target, arg width any (signed)
	FFromU
	FToS // float->int (truncate) W target
	FToU
	FCvt // float<->float
	FCeil
	FFloor
)

var opNames = [...]string{"const", "var", "bvnot", "bvneg", "bvadd", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "concat", "extract", "sext", "ite", "=", "bvult", "bvule", "bvslt", "bvsle", "not", "and", "or", "uf", "fadd", "fsub", "fmul", "fdiv", "fneg", "flt", "fle", "feq", "ffroms", "ffromu", "ftos", "ftou", "fcvt", "fceil", "ffloor"}

// Term is an immutable term. W==0 means Bool sort.
type Term struct {
	Op   Op
	W    uint8
	V    uint64 // constant value / extract bounds / var index
	A    []*Term
	Name string // Var / UF
	ID   uint32 // 0 for constants
	Size uint32 // saturating tree-ish size
}

func (t *Term) IsConst() bool { return t.Op == Const }
func (t *Term) IsTrue() bool  { return t.Op == Const && t.W == 0 && t.V == 1 }
func (t *Term) IsFalse() bool { return t.Op == Const && t.W == 0 && t.V == 0 }

var True = &Term{Op: Const, W: 0, V: 1}
var False = &Term{Op: Const, W: 0, V: 0}

var small [65][]*Term

func init() {
	for w := 1; w <= 64; w++ {
		n := 1024
		if w < 10 {
			n = 1 << uint(w)
		}
		small[w] = make([]*Term, n)
		for i := range small[w] {
			small[w][i] = &Term{Op: Const, W: uint8(w), V: uint64(i)}
		}
	}
}

func Mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func K(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return True
		}
		return False
	}
	v &= Mask(w)
	if v < uint64(len(small[w])) {
		return small[w][v]
	}
	return &Term{Op: Const, W: w, V: v}
}

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func sx(w uint8, v uint64) int64 {
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

// SVal returns the constant interpreted as signed.
func (t *Term) SVal() int64 { return sx(t.W, t.V) }

type key struct {
	op      Op
	w       uint8
	v       uint64
	a, b, c uint64
	name    string
}

// Ctx interns terms; not safe for concurrent use.
type Ctx struct {
	tab   map[key]*Term
	next  uint32
	Raw   bool // disable simplification rules beyond constant folding
	Terms int
	lin   *linCtx
	inLin bool
	tts   map[*Term]*ttab
	simp  map[*Term]*Term // terms known to equal a simpler one
}

func NewCtx() *Ctx { return &Ctx{tab: map[key]*Term{}, simp: map[*Term]*Term{}, next: 1} }

func argKey(t *Term) uint64 {
	if t.Op == Const {
		// constants keyed by value; width implied by context mostly, mix it in
		return t.V*0x9E3779B97F4A7C15 ^ uint64(t.W)<<56 ^ 1<<63 ^ 0x5555
	}
	return uint64(t.ID)
}

func sameT(a, b *Term) bool {
	if a == b {
		return true
	}
	return a.Op == Const && b.Op == Const && a.W == b.W && a.V == b.V
}

func (c *Ctx) mk(op Op, w uint8, v uint64, name string, args ...*Term) *Term {
	k := key{op: op, w: w, v: v, name: name}
	switch len(args) {
	case 0:
	case 1:
		k.a = argKey(args[0])
	case 2:
		k.a, k.b = argKey(args[0]), argKey(args[1])
	case 3:
		k.a, k.b, k.c = argKey(args[0]), argKey(args[1]), argKey(args[2])
	default:
		s := make([]byte, 0, len(args)*8)
		for _, a := range args {
			x := argKey(a)
			s = append(s, byte(x), byte(x>>8), byte(x>>16), byte(x>>24), byte(x>>32), byte(x>>40), byte(x>>48), byte(x>>56))
		}
		k.name = name + "|" + string(s)
	}
	for {
		t, ok := c.tab[k]
		if !ok {
			break
		}
		same := len(t.A) == len(args)
		if same {
			for i := range args {
				if !sameT(t.A[i], args[i]) {
					same = false
					break
				}
			}
		}
		if same {
			if r := c.simp[t]; r != nil && !c.Raw {
				return r
			}
			return t
		}
		k.v ^= 0xdeadbeef00000000 // constant-key collision: probe
		k.a++
	}
	sz := uint64(1)
	for _, a := range args {
		sz += uint64(a.Size)
	}
	if sz > math.MaxUint32 {
		sz = math.MaxUint32
	}
	t := &Term{Op: op, W: w, V: v, Name: name, ID: c.next, Size: uint32(sz)}
	if len(args) > 0 {
		t.A = append([]*Term(nil), args...)
	}
	c.next++
	if !c.Raw && t.Size >= 12 {
		if r := c.small(t); r != t {
			c.tab[k] = t
			c.simp[t] = r
			return r
		}
	}
	c.tab[k] = t
	return t
}

func (c *Ctx) MkVar(name string, w uint8) *Term { return c.mk(Var, w, 0, name) }

func (c *Ctx) MkUF(name string, w uint8, args ...*Term) *Term {
	return c.mk(UF, w, 0, name, args...)
}

func (t *Term) hi() uint8 { return uint8(t.V >> 8) }
func (t *Term) lo() uint8 { return uint8(t.V) }

// ---- boolean ----

func (c *Ctx) Not1(a *Term) *Term { // logical not
	if a.Op == Const {
		return Bool(a.V == 0)
	}
	if a.Op == BNot {
		return a.A[0]
	}
	if !c.Raw {
		switch a.Op {
		case ULt:
			return c.ULe(a.A[1], a.A[0])
		case ULe:
			return c.ULt(a.A[1], a.A[0])
		case SLt:
			return c.SLe(a.A[1], a.A[0])
		case SLe:
			return c.SLt(a.A[1], a.A[0])
		}
	}
	return c.mk(BNot, 0, 0, "", a)
}

func (c *Ctx) And1(a, b *Term) *Term {
	if a.IsFalse() || b.IsFalse() {
		return False
	}
	if a.IsTrue() {
		return b
	}
	if b.IsTrue() || a == b {
		return a
	}
	if c.isNeg(a, b) {
		return False
	}
	return c.mk(BAnd, 0, 0, "", a, b)
}

func (c *Ctx) isNeg(a, b *Term) bool {
	return (a.Op == BNot && a.A[0] == b) || (b.Op == BNot && b.A[0] == a)
}

func (c *Ctx) Or1(a, b *Term) *Term {
	if a.IsTrue() || b.IsTrue() {
		return True
	}
	if a.IsFalse() {
		return b
	}
	if b.IsFalse() || a == b {
		return a
	}
	if c.isNeg(a, b) {
		return True
	}
	return c.mk(BOr, 0, 0, "", a, b)
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.IsTrue() {
		return a
	}
	if cond.IsFalse() {
		return b
	}
	if sameT(a, b) {
		return a
	}
	if a.W != b.W {
		panic(fmt.Sprintf("ite width %d %d", a.W, b.W))
	}
	if a.W == 0 {
		if a.IsTrue() && b.IsFalse() {
			return cond
		}
		if a.IsFalse() && b.IsTrue() {
			return c.Not1(cond)
		}
		if a.IsTrue() {
			return c.Or1(cond, b)
		}
		if b.IsFalse() {
			return c.And1(cond, a)
		}
		if a.IsFalse() {
			return c.And1(c.Not1(cond), b)
		}
		if b.IsTrue() {
			return c.Or1(c.Not1(cond), a)
		}
	}
	if cond.Op == BNot {
		return c.Ite(cond.A[0], b, a)
	}
	if a.Op == Ite && a.A[0] == cond {
		a = a.A[1]
	}
	if b.Op == Ite && b.A[0] == cond {
		b = b.A[2]
	}
	if sameT(a, b) {
		return a
	}
	return c.mk(Ite, a.W, 0, "", cond, a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a.W != b.W {
		panic(fmt.Sprintf("eq width %d %d", a.W, b.W))
	}
	if a == b {
		return True
	}
	if a.Op == Const && b.Op == Const {
		return Bool(a.V == b.V)
	}
	if a.W == 0 {
		if a.Op == Const {
			a, b = b, a
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return c.Not1(a)
		}
	}
	if a.Op == Const {
		a, b = b, a
	}
	if c.Raw {
		return c.mk(Eq, 0, 0, "", a, b)
	}
	if !c.inLin {
		if t, ok := c.linEq(a, b); ok {
			return t
		}
	}
	if b.Op == Const && (b.V > a.umax(3) || b.V < a.umin(3)) {
		return False
	}
	if a.Op == Mul || a.Op == Add && a.A[0].Op == Mul {
		if t, ok := c.scaledEq(a, b); ok {
			return t
		}
	}
	if b.Op == Const && b.V == 0 && a.Op == Add {
		// x - y == 0
		if a.A[1].Op == Neg {
			return c.Eq(a.A[0], a.A[1].A[0])
		}
		if a.A[0].Op == Neg {
			return c.Eq(a.A[1], a.A[0].A[0])
		}
	}
	if b.Op == Const {
		switch a.Op {
		case Concat:
			// split; simple when some part is const
			out := True
			off := a.W
			for _, p := range a.A {
				off -= p.W
				out = c.And1(out, c.Eq(p, K(p.W, b.V>>off)))
				if out.IsFalse() {
					return out
				}
			}
			if len(a.A) <= 2 || hasConst(a.A) {
				return out
			}
		case Ite:
			if a.A[1].Op == Const && a.A[2].Op == Const {
				if a.A[1].V == b.V {
					if a.A[2].V == b.V {
						return True
					}
					return a.A[0]
				}
				if a.A[2].V == b.V {
					return c.Not1(a.A[0])
				}
				return False
			}
			// one const branch that differs
			if a.A[1].Op == Const && a.A[1].V != b.V {
				return c.And1(c.Not1(a.A[0]), c.Eq(a.A[2], b))
			}
			if a.A[2].Op == Const && a.A[2].V != b.V {
				return c.And1(a.A[0], c.Eq(a.A[1], b))
			}
		case Add:
			if a.A[1].Op == Const {
				return c.Eq(a.A[0], K(a.W, b.V-a.A[1].V))
			}
		case Xor:
			if a.A[1].Op == Const {
				return c.Eq(a.A[0], K(a.W, b.V^a.A[1].V))
			}
		case Not:
			return c.Eq(a.A[0], K(a.W, ^b.V))
		case SExt:
			x := a.A[0]
			v := sx(x.W, b.V&Mask(x.W))
			if uint64(v)&Mask(a.W) != b.V {
				return False
			}
			return c.Eq(x, K(x.W, b.V))
		}
	}
	if a.Op == Concat && b.Op == Concat {
		// same partition?
		if len(a.A) == len(b.A) {
			same := true
			for i := range a.A {
				if a.A[i].W != b.A[i].W {
					same = false
					break
				}
			}
			if same {
				out := True
				for i := range a.A {
					out = c.And1(out, c.Eq(a.A[i], b.A[i]))
					if out.IsFalse() {
						return out
					}
				}
				return out
			}
		}
	}
	if a.Op == Add && b.Op == Add && sameT(a.A[1], b.A[1]) {
		return c.Eq(a.A[0], b.A[0])
	}
	if b.Op != Const && a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(Eq, 0, 0, "", a, b)
}

func hasConst(a []*Term) bool {
	for _, x := range a {
		if x.Op == Const {
			return true
		}
	}
	return false
}

// unsigned upper bound / lower bound (cheap)
func (t *Term) UMax() uint64 { return t.umax(6) }
func (t *Term) umax(d int) uint64 {
	switch t.Op {
	case Const:
		return t.V
	case Concat:
		var v uint64
		for _, p := range t.A {
			v = v<<p.W | p.umax(d-1)
		}
		return v
	case Ite:
		if d > 0 {
			a, b := t.A[1].umax(d-1), t.A[2].umax(d-1)
			if a > b {
				return a
			}
			return b
		}
	case Extract:
		if t.lo() == 0 && d > 0 {
			if v := t.A[0].umax(d - 1); v <= Mask(t.W) {
				return v
			}
		}
	case URem:
		if t.A[1].Op == Const && t.A[1].V > 0 {
			return t.A[1].V - 1
		}
	case UDiv:
		if t.A[1].Op == Const && t.A[1].V > 0 && d > 0 {
			return t.A[0].umax(d-1) / t.A[1].V
		}
	case And:
		m := Mask(t.W)
		for _, x := range t.A {
			if d > 0 {
				if v := x.umax(d - 1); v < m {
					m = v
				}
			}
		}
		return m
	case Add:
		if d > 0 {
			a, b := t.A[0].umax(d-1), t.A[1].umax(d-1)
			s, carry := bits.Add64(a, b, 0)
			if carry == 0 && s <= Mask(t.W) {
				return s
			}
		}
	case Mul:
		if d > 0 {
			a, b := t.A[0].umax(d-1), t.A[1].umax(d-1)
			h, l := bits.Mul64(a, b)
			if h == 0 && l <= Mask(t.W) {
				return l
			}
		}
	}
	return Mask(t.W)
}

func (t *Term) umin(d int) uint64 {
	switch t.Op {
	case Const:
		return t.V
	case Concat:
		var v uint64
		for _, p := range t.A {
			v = v<<p.W | p.umin(d-1)
		}
		return v
	case Ite:
		if d > 0 {
			a, b := t.A[1].umin(d-1), t.A[2].umin(d-1)
			if a < b {
				return a
			}
			return b
		}
	case Add:
		if d > 0 {
			// no overflow?
			a, b := t.A[0].umax(d-1), t.A[1].umax(d-1)
			s, carry := bits.Add64(a, b, 0)
			if carry == 0 && s <= Mask(t.W) {
				return t.A[0].umin(d-1) + t.A[1].umin(d-1)
			}
		}
	}
	return 0
}

func (c *Ctx) ULt(a, b *Term) *Term {
	if a.W != b.W {
		panic(fmt.Sprintf("ult width %d %d", a.W, b.W))
	}
	if a == b {
		return False
	}
	if a.Op == Const && b.Op == Const {
		return Bool(a.V < b.V)
	}
	if !c.Raw {
		if a.umax(4) < b.umin(4) {
			return True
		}
		if a.umin(4) >= b.umax(4) {
			return False
		}
		if b.Op == Const && b.V == 1 {
			return c.Eq(a, K(a.W, 0))
		}
		if x, y, ok := c.stripHigh(a, b); ok {
			return c.ULt(x, y)
		}
		if t, ok := c.scaledCmp(ULt, a, b); ok {
			return t
		}
	}
	return c.mk(ULt, 0, 0, "", a, b)
}

// stripHigh removes common leading zero concat parts.
func (c *Ctx) stripHigh(a, b *Term) (*Term, *Term, bool) {
	z := func(t *Term) uint8 {
		if t.Op == Concat && t.A[0].Op == Const && t.A[0].V == 0 {
			return t.A[0].W
		}
		if t.Op == Const {
			return uint8(bits.LeadingZeros64(t.V)) - (64 - t.W)
		}
		return 0
	}
	if a.Op != Concat && b.Op != Concat {
		return nil, nil, false
	}
	n := z(a)
	if m := z(b); m < n {
		n = m
	}
	if n == 0 || n >= a.W {
		return nil, nil, false
	}
	return c.Extract(a, a.W-n-1, 0), c.Extract(b, b.W-n-1, 0), true
}

func (c *Ctx) ULe(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Op == Const && b.Op == Const {
		return Bool(a.V <= b.V)
	}
	if !c.Raw {
		if a.umax(4) <= b.umin(4) {
			return True
		}
		if a.umin(4) > b.umax(4) {
			return False
		}
		if b.Op == Const && b.V == 0 {
			return c.Eq(a, b)
		}
		if x, y, ok := c.stripHigh(a, b); ok {
			return c.ULe(x, y)
		}
		if t, ok := c.scaledCmp(ULe, a, b); ok {
			return t
		}
	}
	return c.mk(ULe, 0, 0, "", a, b)
}

func nonNeg(t *Term) bool {
	return t.umax(4)>>(t.W-1)&1 == 0
}

func (c *Ctx) SLt(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.Op == Const && b.Op == Const {
		return Bool(a.SVal() < b.SVal())
	}
	if !c.Raw {
		na, nb := nonNeg(a), nonNeg(b)
		if na && nb {
			return c.ULt(a, b)
		}
		if na && b.Op == Const && b.SVal() <= 0 {
			return False
		}
		if nb && a.Op == Const && a.SVal() < 0 {
			return True
		}
		if t, ok := c.scaledSCmp(SLt, a, b); ok {
			return t
		}
	}
	return c.mk(SLt, 0, 0, "", a, b)
}

func (c *Ctx) SLe(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Op == Const && b.Op == Const {
		return Bool(a.SVal() <= b.SVal())
	}
	if !c.Raw {
		na, nb := nonNeg(a), nonNeg(b)
		if na && nb {
			return c.ULe(a, b)
		}
		if na && b.Op == Const && b.SVal() < 0 {
			return False
		}
		if nb && a.Op == Const && a.SVal() <= 0 {
			return True
		}
		if t, ok := c.scaledSCmp(SLe, a, b); ok {
			return t
		}
	}
	return c.mk(SLe, 0, 0, "", a, b)
}

// ---- bitvector ----

func (c *Ctx) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.W {
		return a
	}
	if a.Op == Const {
		return K(w, a.V>>lo)
	}
	if !c.Raw {
		switch a.Op {
		case Extract:
			return c.Extract(a.A[0], a.lo()+hi, a.lo()+lo)
		case Concat:
			var parts []*Term
			off := a.W
			for _, p := range a.A {
				off -= p.W
				ph, pl := off+p.W-1, off
				if pl > hi || ph < lo {
					continue
				}
				h, l := hi, lo
				if h > ph {
					h = ph
				}
				if l < pl {
					l = pl
				}
				parts = append(parts, c.Extract(p, h-off, l-off))
			}
			return c.ConcatN(parts...)
		case SExt:
			x := a.A[0]
			if hi < x.W {
				return c.Extract(x, hi, lo)
			}
			if lo == 0 {
				return c.SExt(x, w)
			}
		case And, Or, Xor:
			return c.bitop(a.Op, c.Extract(a.A[0], hi, lo), c.Extract(a.A[1], hi, lo))
		case Not:
			return c.BVNot(c.Extract(a.A[0], hi, lo))
		case Ite:
			if a.A[1].Op == Const || a.A[2].Op == Const || a.Size < 40 {
				return c.Ite(a.A[0], c.Extract(a.A[1], hi, lo), c.Extract(a.A[2], hi, lo))
			}
		case Add, Mul:
			if lo == 0 {
				x, y := c.Extract(a.A[0], hi, 0), c.Extract(a.A[1], hi, 0)
				if a.Op == Add {
					return c.Add(x, y)
				}
				return c.Mul(x, y)
			}
		case Neg:
			if lo == 0 {
				return c.Neg(c.Extract(a.A[0], hi, 0))
			}
		}
	}
	return c.mk(Extract, w, uint64(hi)<<8|uint64(lo), "", a)
}

// ConcatN concatenates most-significant first.
func (c *Ctx) ConcatN(parts ...*Term) *Term {
	var flat []*Term
	for _, p := range parts {
		if p.Op == Concat {
			flat = append(flat, p.A...)
		} else {
			flat = append(flat, p)
		}
	}
	var out []*Term
	for _, p := range flat {
		if n := len(out); n > 0 {
			q := out[n-1]
			if q.Op == Const && p.Op == Const && int(q.W)+int(p.W) <= 64 {
				out[n-1] = K(q.W+p.W, q.V<<p.W|p.V)
				continue
			}
			if !c.Raw {
				if q.Op == Extract && p.Op == Extract && q.A[0] == p.A[0] && q.lo() == p.hi()+1 {
					out[n-1] = c.Extract(q.A[0], q.hi(), p.lo())
					continue
				}
				if q.Op == Extract && q.lo() == p.W && (p.Op == Mul || p.Op == Add || p.Op == Neg) && p.Op == q.A[0].Op && c.Extract(q.A[0], p.W-1, 0) == p {
					out[n-1] = c.Extract(q.A[0], q.hi(), 0)
					continue
				}
				if q.Op == Ite && p.Op == Ite && q.A[0] == p.A[0] && allConst(q.A[1:]) && allConst(p.A[1:]) {
					out[n-1] = c.Ite(q.A[0], c.ConcatN(q.A[1], p.A[1]), c.ConcatN(q.A[2], p.A[2]))
					continue
				}
			}
		}
		out = append(out, p)
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, p := range out {
		w += int(p.W)
	}
	if w > 64 {
		panic("concat > 64 bits")
	}
	return c.mk(Concat, uint8(w), 0, "", out...)
}

func allConst(a []*Term) bool {
	for _, x := range a {
		if x.Op != Const {
			return false
		}
	}
	return true
}

func (c *Ctx) ZExt(a *Term, w uint8) *Term {
	if !c.Raw && a.Op == Add && w > a.W {
		// no carry out of a: extend the operands
		if u, v := a.A[0].umax(4), a.A[1].umax(4); u <= Mask(a.W) && u+v <= Mask(a.W) && u+v >= v {
			return c.Add(c.ZExt(a.A[0], w), c.ZExt(a.A[1], w))
		}
	}
	if w == a.W {
		return a
	}
	if a.Op == Const {
		return K(w, a.V)
	}
	return c.ConcatN(K(w-a.W, 0), a)
}

func (c *Ctx) SExt(a *Term, w uint8) *Term {
	if w == a.W {
		return a
	}
	if a.Op == Const {
		return K(w, uint64(a.SVal()))
	}
	if !c.Raw {
		if nonNeg(a) {
			return c.ZExt(a, w)
		}
		if a.Op == SExt {
			return c.SExt(a.A[0], w)
		}
	}
	return c.mk(SExt, w, 0, "", a)
}

func (c *Ctx) BVNot(a *Term) *Term {
	if a.Op == Const {
		return K(a.W, ^a.V)
	}
	if a.Op == Not {
		return a.A[0]
	}
	if !c.Raw && a.Op == Concat && hasConst(a.A) {
		ps := make([]*Term, len(a.A))
		for i, p := range a.A {
			ps[i] = c.BVNot(p)
		}
		return c.ConcatN(ps...)
	}
	return c.mk(Not, a.W, 0, "", a)
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.Op == Const {
		return K(a.W, -a.V)
	}
	if a.Op == Neg {
		return a.A[0]
	}
	return c.mk(Neg, a.W, 0, "", a)
}

func foldBit(op Op, a, b uint64) uint64 {
	switch op {
	case And:
		return a & b
	case Or:
		return a | b
	}
	return a ^ b
}

func (c *Ctx) And(a, b *Term) *Term { return c.bitop(And, a, b) }
func (c *Ctx) Or(a, b *Term) *Term  { return c.bitop(Or, a, b) }
func (c *Ctx) Xor(a, b *Term) *Term { return c.bitop(Xor, a, b) }

func (c *Ctx) bitop(op Op, a, b *Term) *Term {
	if a.W != b.W {
		panic(fmt.Sprintf("bitop width %d %d", a.W, b.W))
	}
	if a.Op == Const && b.Op == Const {
		return K(a.W, foldBit(op, a.V, b.V))
	}
	if a.Op == Const {
		a, b = b, a
	}
	if a == b {
		if op == Xor {
			return K(a.W, 0)
		}
		return a
	}
	if b.Op == Const {
		m := Mask(a.W)
		switch op {
		case And:
			if b.V == 0 {
				return b
			}
			if b.V == m {
				return a
			}
		case Or:
			if b.V == 0 {
				return a
			}
			if b.V == m {
				return b
			}
		case Xor:
			if b.V == 0 {
				return a
			}
			if b.V == m {
				return c.BVNot(a)
			}
		}
	}
	if c.Raw {
		return c.mk(op, a.W, 0, "", a, b)
	}
	if b.Op == Const && (op == And || op == Or) {
		// split by runs of constant bits
		runs := 0
		prev := uint64(2)
		for i := int(a.W) - 1; i >= 0; i-- {
			bit := b.V >> uint(i) & 1
			if bit != prev {
				runs++
				prev = bit
			}
		}
		if runs <= 4 {
			var parts []*Term
			hi := int(a.W) - 1
			for hi >= 0 {
				bit := b.V >> uint(hi) & 1
				lo := hi
				for lo > 0 && b.V>>uint(lo-1)&1 == bit {
					lo--
				}
				w := uint8(hi - lo + 1)
				if op == And {
					if bit == 1 {
						parts = append(parts, c.Extract(a, uint8(hi), uint8(lo)))
					} else {
						parts = append(parts, K(w, 0))
					}
				} else {
					if bit == 0 {
						parts = append(parts, c.Extract(a, uint8(hi), uint8(lo)))
					} else {
						parts = append(parts, K(w, Mask(w)))
					}
				}
				hi = lo - 1
			}
			return c.ConcatN(parts...)
		}
	}
	// align concats containing constants
	if (a.Op == Concat && hasConst(a.A)) || (b.Op == Concat && hasConst(b.A)) {
		cuts := map[uint8]bool{}
		add := func(t *Term) {
			if t.Op == Concat {
				off := t.W
				for _, p := range t.A {
					off -= p.W
					cuts[off] = true
				}
			}
		}
		add(a)
		add(b)
		var parts []*Term
		hi := int(a.W) - 1
		for hi >= 0 {
			lo := hi
			for lo > 0 && !cuts[uint8(lo)] {
				lo--
			}
			parts = append(parts, c.bitop(op, c.Extract(a, uint8(hi), uint8(lo)), c.Extract(b, uint8(hi), uint8(lo))))
			hi = lo - 1
		}
		if len(parts) > 1 {
			return c.ConcatN(parts...)
		}
	}
	if a.Op == op && a.A[1].Op == Const && b.Op == Const {
		return c.bitop(op, a.A[0], K(a.W, foldBit(op, a.A[1].V, b.V)))
	}
	if op == Xor {
		// x ^ (x ^ y)
		if a.Op == Xor {
			if a.A[0] == b {
				return a.A[1]
			}
			if a.A[1] == b {
				return a.A[0]
			}
		}
		if b.Op == Xor {
			if b.A[0] == a {
				return b.A[1]
			}
			if b.A[1] == a {
				return b.A[0]
			}
		}
	}
	if b.Op != Const && a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(op, a.W, 0, "", a, b)
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.W != b.W {
		panic(fmt.Sprintf("add width %d %d", a.W, b.W))
	}
	if a.Op == Const && b.Op == Const {
		return K(a.W, a.V+b.V)
	}
	if a.Op == Const {
		a, b = b, a
	}
	if b.Op == Const && b.V == 0 {
		return a
	}
	if c.Raw {
		return c.mk(Add, a.W, 0, "", a, b)
	}
	if b.Op == Const && a.Op == Add && a.A[1].Op == Const {
		return c.Add(a.A[0], K(a.W, a.A[1].V+b.V))
	}
	// (x + k) + y => (x+y)+k
	if b.Op != Const {
		if a.Op == Add && a.A[1].Op == Const {
			return c.Add(c.Add(a.A[0], b), a.A[1])
		}
		if b.Op == Add && b.A[1].Op == Const {
			return c.Add(c.Add(a, b.A[0]), b.A[1])
		}
		if b.Op == Neg && b.A[0] == a || a.Op == Neg && a.A[0] == b {
			return K(a.W, 0)
		}
		// (x + y) + (-y)
		if b.Op == Neg && a.Op == Add {
			if a.A[0] == b.A[0] {
				return a.A[1]
			}
			if a.A[1] == b.A[0] {
				return a.A[0]
			}
		}
		// (x + -y) + y
		if a.Op == Add && a.A[1].Op == Neg && a.A[1].A[0] == b {
			return a.A[0]
		}
		if a.Op == Add && a.A[0].Op == Neg && a.A[0].A[0] == b {
			return a.A[1]
		}
		if b.Op == Add && b.A[1].Op == Neg && b.A[1].A[0] == a {
			return b.A[0]
		}
		if b.Op == Add && b.A[0].Op == Neg && b.A[0].A[0] == a {
			return b.A[1]
		}
		if t, ok := c.cancel(a, b); ok {
			return t
		}
		if t, ok := c.scaledAdd(a, b); ok {
			return t
		}
		if a.ID > b.ID {
			a, b = b, a
		}
	}
	return c.mk(Add, a.W, 0, "", a, b)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if b.Op == Const {
		return c.Add(a, K(a.W, -b.V))
	}
	if a == b {
		return K(a.W, 0)
	}
	// (x + k) - (y + m): distribute the negation over constant add
	if !c.Raw && b.Op == Add && b.A[1].Op == Const {
		return c.Add(c.Sub(a, b.A[0]), K(a.W, -b.A[1].V))
	}
	return c.Add(a, c.Neg(b))
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.Op == Const && b.Op == Const {
		return K(a.W, a.V*b.V)
	}
	if a.Op == Const {
		a, b = b, a
	}
	if b.Op == Const {
		if b.V == 0 {
			return b
		}
		if b.V == 1 {
			return a
		}
		if !c.Raw && b.V&(b.V-1) == 0 {
			return c.Shl(a, K(a.W, uint64(bits.TrailingZeros64(b.V))))
		}
		if !c.Raw && a.Op == Add && a.A[1].Op == Const {
			return c.Add(c.Mul(a.A[0], b), K(a.W, a.A[1].V*b.V))
		}
	}
	return c.mk(Mul, a.W, 0, "", a, b)
}

// divWidth is the width in which a/b can be computed exactly.
func (c *Ctx) divWidth(a, b *Term) uint8 {
	if b.Op != Const || b.V == 0 {
		return a.W
	}
	u := a.umax(6)
	if u < b.V {
		u = b.V
	}
	n := uint8(bits.Len64(u))
	if n < 4 {
		n = 4
	}
	return n
}

func (c *Ctx) UDiv(a, b *Term) *Term {
	if b.Op == Const {
		if a.Op == Const {
			if b.V == 0 {
				return K(a.W, Mask(a.W))
			}
			return K(a.W, a.V/b.V)
		}
		if b.V == 1 {
			return a
		}
		if !c.Raw && b.V != 0 && b.V&(b.V-1) == 0 {
			return c.LShr(a, K(a.W, uint64(bits.TrailingZeros64(b.V))))
		}
		if !c.Raw && a.umax(5) < b.V {
			return K(a.W, 0)
		}
		// (x*k+m)/d with d dividing k
		if !c.Raw && b.V < 1<<40 {
			if x, k, m, lo, _, ok := a.scaled(); ok && lo >= 0 && k%int64(b.V) == 0 && m >= 0 {
				return c.Add(c.Mul(x, K(64, uint64(k)/b.V)), K(64, uint64(m)/b.V))
			}
		}
	}
	if !c.Raw {
		if x, y, ok := c.stripHigh(a, b); ok && x.W >= 4 {
			return c.ZExt(c.UDiv(x, y), a.W)
		}
		if n := c.divWidth(a, b); n < a.W {
			return c.ZExt(c.UDiv(c.Extract(a, n-1, 0), K(n, b.V)), a.W)
		}
	}
	return c.mk(UDiv, a.W, 0, "", a, b)
}

func (c *Ctx) URem(a, b *Term) *Term {
	if b.Op == Const {
		if a.Op == Const {
			if b.V == 0 {
				return a
			}
			return K(a.W, a.V%b.V)
		}
		if b.V == 1 {
			return K(a.W, 0)
		}
		if !c.Raw && b.V != 0 && b.V&(b.V-1) == 0 {
			return c.And(a, K(a.W, b.V-1))
		}
		if !c.Raw && a.umax(5) < b.V {
			return a
		}
	}
	if !c.Raw {
		if x, y, ok := c.stripHigh(a, b); ok && x.W >= 4 {
			return c.ZExt(c.URem(x, y), a.W)
		}
		if n := c.divWidth(a, b); n < a.W {
			return c.ZExt(c.URem(c.Extract(a, n-1, 0), K(n, b.V)), a.W)
		}
	}
	return c.mk(URem, a.W, 0, "", a, b)
}

func foldSDiv(w uint8, a, b uint64) uint64 {
	x, y := sx(w, a), sx(w, b)
	if y == 0 {
		if x >= 0 {
			return Mask(w)
		}
		return 1
	}
	if y == -1 {
		return -a & Mask(w)
	}
	return uint64(x/y) & Mask(w)
}
func foldSRem(w uint8, a, b uint64) uint64 {
	x, y := sx(w, a), sx(w, b)
	if y == 0 {
		return a
	}
	if y == -1 {
		return 0
	}
	return uint64(x%y) & Mask(w)
}

func (c *Ctx) SDiv(a, b *Term) *Term {
	if a.Op == Const && b.Op == Const {
		return K(a.W, foldSDiv(a.W, a.V, b.V))
	}
	if b.Op == Const && b.V == 1 {
		return a
	}
	if !c.Raw && nonNeg(a) && nonNeg(b) {
		return c.UDiv(a, b)
	}
	return c.mk(SDiv, a.W, 0, "", a, b)
}

func (c *Ctx) SRem(a, b *Term) *Term {
	if a.Op == Const && b.Op == Const {
		return K(a.W, foldSRem(a.W, a.V, b.V))
	}
	if !c.Raw && nonNeg(a) && nonNeg(b) {
		return c.URem(a, b)
	}
	return c.mk(SRem, a.W, 0, "", a, b)
}

// shifts: b has same width as a; SMT semantics (>=W gives 0 / sign).
func (c *Ctx) Shl(a, b *Term) *Term {
	if b.Op == Const {
		if b.V == 0 {
			return a
		}
		if b.V >= uint64(a.W) {
			return K(a.W, 0)
		}
		if a.Op == Const {
			return K(a.W, a.V<<b.V)
		}
		if !c.Raw {
			return c.ConcatN(c.Extract(a, a.W-1-uint8(b.V), 0), K(uint8(b.V), 0))
		}
	}
	if a.Op == Const && a.V == 0 {
		return a
	}
	return c.mk(Shl, a.W, 0, "", a, b)
}

func (c *Ctx) LShr(a, b *Term) *Term {
	if b.Op == Const {
		if b.V == 0 {
			return a
		}
		if b.V >= uint64(a.W) {
			return K(a.W, 0)
		}
		if a.Op == Const {
			return K(a.W, a.V>>b.V)
		}
		if !c.Raw {
			return c.ConcatN(K(uint8(b.V), 0), c.Extract(a, a.W-1, uint8(b.V)))
		}
	}
	if a.Op == Const && a.V == 0 {
		return a
	}
	return c.mk(LShr, a.W, 0, "", a, b)
}

func (c *Ctx) AShr(a, b *Term) *Term {
	if b.Op == Const {
		if b.V == 0 {
			return a
		}
		s := b.V
		if s >= uint64(a.W) {
			s = uint64(a.W) - 1
		}
		if a.Op == Const {
			return K(a.W, uint64(a.SVal()>>s))
		}
		if !c.Raw {
			return c.SExt(c.Extract(a, a.W-1, uint8(s)), a.W)
		}
	}
	if !c.Raw && nonNeg(a) {
		return c.LShr(a, b)
	}
	return c.mk(AShr, a.W, 0, "", a, b)
}

// ---- floats (IEEE bit patterns held as bit-vectors) ----

func fl(w uint8, v uint64) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func unfl(w uint8, f float64) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func foldF(op Op, w uint8, a, b uint64) uint64 {
	x, y := fl(w, a), fl(w, b)
	var r float64
	switch op {
	case FAdd:
		r = x + y
	case FSub:
		r = x - y
	case FMul:
		r = x * y
	case FDiv:
		r = x / y
	}
	return unfl(w, r)
}

func (c *Ctx) FBin(op Op, a, b *Term) *Term {
	if a.Op == Const && b.Op == Const {
		return K(a.W, foldF(op, a.W, a.V, b.V))
	}
	return c.mk(op, a.W, 0, "", a, b)
}

func foldFCmp(op Op, w uint8, a, b uint64) bool {
	x, y := fl(w, a), fl(w, b)
	switch op {
	case FLt:
		return x < y
	case FLe:
		return x <= y
	}
	return x == y
}

func (c *Ctx) FCmp(op Op, a, b *Term) *Term {
	if a.Op == Const && b.Op == Const {
		return Bool(foldFCmp(op, a.W, a.V, b.V))
	}
	if !c.Raw && a.W == 64 {
		// exact small integers compare as integers
		x, okx := exactInt(c, a)
		y, oky := exactInt(c, b)
		if okx && oky {
			switch op {
			case FLt:
				return c.SLt(x, y)
			case FLe:
				return c.SLe(x, y)
			}
			return c.Eq(x, y)
		}
		if t, ok := c.monotoneCmp(op, a, b); ok {
			return t
		}
	}
	return c.mk(op, 0, 0, "", a, b)
}

// exactInt returns a 64-bit integer term equal to float a, when a is the
// exact conversion of an integer below 2^53.
func exactInt(c *Ctx, a *Term) (*Term, bool) {
	switch {
	case a.Op == Const:
		f := fl(64, a.V)
		if f == math.Trunc(f) && f > -(1<<53) && f < 1<<53 {
			return K(64, uint64(int64(f))), true
		}
	case a.Op == FFromS && a.W == 64:
		x := a.A[0]
		if x.W <= 53 || x.W == 64 && x.umax(6) < 1<<53 {
			return c.SExt(x, 64), true
		}
	case a.Op == FFromU && a.W == 64:
		x := a.A[0]
		if x.W <= 53 || x.umax(6) < 1<<53 {
			return c.ZExt(x, 64), true
		}
	}
	return nil, false
}

func foldFUn(op Op, w uint8, aw uint8, a uint64) uint64 {
	switch op {
	case FNeg:
		return a ^ 1<<(w-1)
	case FFromS:
		return unfl(w, float64(sx(aw, a)))
	case FFromU:
		return unfl(w, float64(a))
	case FToS:
		f := fl(aw, a)
		return uint64(int64(f)) & Mask(w)
	case FToU:
		f := fl(aw, a)
		return uint64(f) & Mask(w)
	case FCvt:
		return unfl(w, fl(aw, a))
	case FCeil:
		return unfl(w, math.Ceil(fl(aw, a)))
	case FFloor:
		return unfl(w, math.Floor(fl(aw, a)))
	}
	panic("foldFUn")
}

func (c *Ctx) FUn(op Op, a *Term, w uint8) *Term {
	if a.Op == Const {
		return K(w, foldFUn(op, w, a.W, a.V))
	}
	if !c.Raw && (op == FFromU || op == FFromS && nonNeg(a)) {
		// one form for the same number: unsigned, without leading zeros
		op = FFromU
		for a.Op == Concat && a.A[0].Op == Const && a.A[0].V == 0 {
			a = c.ConcatN(a.A[1:]...)
		}
	}
	if !c.Raw {
		// int -> float64 -> int round trip is exact for <=53 significant bits
		if (op == FToS || op == FToU) && (a.Op == FFromS || a.Op == FFromU) && a.W == 64 {
			x := a.A[0]
			if a.Op == FFromS && op == FToS && x.W <= 53 {
				if w >= x.W {
					return c.SExt(x, w)
				}
			}
			if x.umax(6) < 1<<53 && (a.Op == FFromU || nonNeg(x)) && x.umax(6) <= Mask(w)>>1 {
				if w >= x.W {
					return c.ZExt(x, w)
				}
				return c.Extract(x, w-1, 0)
			}
		}
	}
	return c.mk(op, w, 0, "", a)
}

// ---- evaluation ----

type Model map[*Term]uint64

// Eval evaluates t; missing variables are 0; UFs looked up in the model (0 if missing).
func (t *Term) Eval(m Model, memo map[*Term]uint64) uint64 {
	if t.Op == Const {
		return t.V
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var v uint64
	switch t.Op {
	case Var, UF:
		if t.Op == UF {
			for _, a := range t.A {
				a.Eval(m, memo)
			}
		}
		v = m[t]
	case Ite:
		if t.A[0].Eval(m, memo) != 0 {
			v = t.A[1].Eval(m, memo)
		} else {
			v = t.A[2].Eval(m, memo)
		}
	case BAnd:
		v = 0
		if t.A[0].Eval(m, memo) != 0 && t.A[1].Eval(m, memo) != 0 {
			v = 1
		}
	case BOr:
		if t.A[0].Eval(m, memo) != 0 || t.A[1].Eval(m, memo) != 0 {
			v = 1
		}
	case Concat:
		for _, p := range t.A {
			v = v<<p.W | p.Eval(m, memo)
		}
	default:
		a := t.A[0].Eval(m, memo)
		aw := t.A[0].W
		var b uint64
		if len(t.A) > 1 {
			b = t.A[1].Eval(m, memo)
		}
		v = foldOp(t, aw, a, b)
	}
	v &= maskB(t.W)
	memo[t] = v
	return v
}

func maskB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return Mask(w)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func foldOp(t *Term, aw uint8, a, b uint64) uint64 {
	switch t.Op {
	case Not:
		return ^a
	case Neg:
		return -a
	case Add:
		return a + b
	case Mul:
		return a * b
	case UDiv:
		if b == 0 {
			return Mask(aw)
		}
		return a / b
	case URem:
		if b == 0 {
			return a
		}
		return a % b
	case SDiv:
		return foldSDiv(aw, a, b)
	case SRem:
		return foldSRem(aw, a, b)
	case And, Or, Xor:
		return foldBit(t.Op, a, b)
	case Shl:
		if b >= uint64(aw) {
			return 0
		}
		return a << b
	case LShr:
		if b >= uint64(aw) {
			return 0
		}
		return a >> b
	case AShr:
		if b >= uint64(aw) {
			b = uint64(aw) - 1
		}
		return uint64(sx(aw, a) >> b)
	case Extract:
		return a >> t.lo()
	case SExt:
		return uint64(sx(aw, a))
	case Eq:
		return b2u(a == b)
	case ULt:
		return b2u(a < b)
	case ULe:
		return b2u(a <= b)
	case SLt:
		return b2u(sx(aw, a) < sx(aw, b))
	case SLe:
		return b2u(sx(aw, a) <= sx(aw, b))
	case BNot:
		return b2u(a == 0)
	case FAdd, FSub, FMul, FDiv:
		return foldF(t.Op, t.W, a, b)
	case FLt, FLe, FEq:
		return b2u(foldFCmp(t.Op, aw, a, b))
	default:
		return foldFUn(t.Op, t.W, aw, a)
	}
}

func (t *Term) String() string { return t.str(5) }
func (t *Term) str(d int) string {
	switch t.Op {
	case Const:
		if t.W == 0 {
			return fmt.Sprint(t.V == 1)
		}
		return fmt.Sprintf("%d:%d", t.V, t.W)
	case Var:
		return t.Name
	}
	if d == 0 {
		return "…"
	}
	s := "(" + opNames[t.Op]
	if t.Op == UF {
		s = "(" + t.Name
	}
	if t.Op == Extract {
		s += fmt.Sprintf("[%d:%d]", t.hi(), t.lo())
	}
	for i, a := range t.A {
		if i > 6 {
			s += " ..."
			break
		}
		s += " " + a.str(d-1)
	}
	return s + ")"
}

// Vars collects variables and UF applications.
func (t *Term) Leaves(seen map[*Term]bool, out *[]*Term) {
	if t.Op == Const || seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.A {
		a.Leaves(seen, out)
	}
	if t.Op == Var || t.Op == UF {
		*out = append(*out, t)
	}
}

// Size is the number of hash-consed terms.
func (c *Ctx) Size() int { return len(c.tab) }
