package interp

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha1"
	"crypto/sha256"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"path"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gosym/term"
)

const ndPkg = "github.com/sbraveyoung/GGmpeg/verifnd"

var intr = map[string]Intrinsic{}

// NDName lets callers name the harness-API package.
func NDName() string { return ndPkg }

func findIntrinsic(name string, fn *ssa.Function) Intrinsic {
	if f, ok := intr[name]; ok {
		return f
	}
	if fn.Pkg != nil {
		p := fn.Pkg.Pkg.Path()
		if p == "log" && fn.Name() != "init" {
			return func(m *Machine, fn *ssa.Function, args []Value) Value {
				if strings.HasPrefix(fn.Name(), "Fatal") || strings.HasPrefix(fn.Name(), "Panic") {
					m.userPanic("log." + fn.Name())
				}
				return zeroResult(fn)
			}
		}
	}
	return nil
}

func zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	if r.Len() == 0 {
		return nil
	}
	return zero(r)
}

func (m *Machine) mkErr(msg string) Value {
	f := m.eng.Func("errors", "New")
	return m.callFn(f, []Value{Str{s: msg}}, nil)
}

func (m *Machine) mkErrS(msg Str) Value {
	f := m.eng.Func("errors", "New")
	return m.callFn(f, []Value{msg}, nil)
}

func (m *Machine) global(pkg, name string) Value {
	p := m.eng.pkgs[pkg]
	if p == nil {
		return Iface{}
	}
	m.eng.build(p)
	g, ok := p.Members[name].(*ssa.Global)
	if !ok {
		return Iface{}
	}
	return *m.globalPtr(g)
}

func (m *Machine) invoke(recv Value, name string, args ...Value) Value {
	it := recv.(Iface)
	if it.t == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if no, ok := it.v.(NativeObj); ok {
		return no.CallMethod(m, name, args)
	}
	f := m.eng.method(it.t, nil, name)
	if f == nil {
		panic(m.unsupported("invoke " + name + " on " + it.t.String()))
	}
	return m.callFn(f, append([]Value{it.v}, args...), nil)
}

func tm(v Value) *term.Term { return v.(*term.Term) }
func k64(v int) *term.Term  { return term.K(64, uint64(int64(v))) }
func str(v Value) string {
	s := v.(Str)
	if s.b != nil {
		b := make([]byte, len(s.b))
		for i := range b {
			b[i] = '?'
			if s.b[i].Op == term.Const {
				b[i] = byte(s.b[i].V)
			}
		}
		return string(b)
	}
	return s.s
}
func nilErr() Value { return Iface{} }

func (m *Machine) concStr(v Value) string {
	s := v.(Str)
	if s.b == nil {
		return s.s
	}
	b := make([]byte, len(s.b))
	for i, t := range s.b {
		b[i] = byte(m.concretize(t, 256))
	}
	return string(b)
}

func (m *Machine) drawn(label string, w uint8, n int) []*term.Term {
	ts := make([]*term.Term, n)
	for i := range ts {
		ts[i] = m.fresh(label, w)
	}
	m.nd = append(m.nd, NDVal{Label: label, W: w, T: ts})
	return ts
}

type sideKey struct {
	kind string
	p    interface{}
}

type muState struct {
	locked  bool
	readers int
}

func (m *Machine) mu(p Value) *muState {
	k := sideKey{"mu", p}
	s, ok := m.side[k].(*muState)
	if !ok {
		s = &muState{}
		m.side[k] = s
	}
	return s
}

type wgState struct{ n int64 }
type condState struct {
	waiters []*bool
}
type onceState struct{ done, running bool }
type smState struct{ m *Map }

func (m *Machine) syncMap(p Value) *Map {
	k := sideKey{"syncmap", p}
	s, ok := m.side[k].(*smState)
	if !ok {
		s = &smState{newMap()}
		m.side[k] = s
	}
	return s.m
}

func (m *Machine) lock(p Value) {
	s := m.mu(p)
	m.maybePreempt()
	m.block(func() bool { return !s.locked && s.readers == 0 })
	s.locked = true
	m.raceAcquire(raceKey{"mu", p})
	m.raceAcquire(raceKey{"rmu", p})
}

func (m *Machine) unlock(p Value) {
	s := m.mu(p)
	if !s.locked {
		m.userPanic("sync: unlock of unlocked mutex")
	}
	s.locked = false
	m.raceRelease(raceKey{"mu", p})
	m.maybePreempt()
}

func reg(name string, f Intrinsic) { intr[name] = f }

func constRet(v Value) Intrinsic {
	return func(m *Machine, fn *ssa.Function, args []Value) Value { return v }
}

func zret(m *Machine, fn *ssa.Function, args []Value) Value { return zeroResult(fn) }

func init() {
	nd := func(n string, f Intrinsic) { reg(ndPkg+"."+n, f) }
	for _, x := range []struct {
		n string
		w uint8
	}{{"U8", 8}, {"U16", 16}, {"U32", 32}, {"U64", 64}, {"I64", 64}, {"I32", 32}, {"I16", 16}} {
		w := x.w
		nd(x.n, func(m *Machine, fn *ssa.Function, a []Value) Value { return m.drawn(str(a[0]), w, 1)[0] })
	}
	nd("Bool", func(m *Machine, fn *ssa.Function, a []Value) Value {
		t := m.drawn(str(a[0]), 8, 1)[0]
		m.assume(m.c.ULe(t, term.K(8, 1)))
		return m.c.Eq(t, term.K(8, 1))
	})
	nd("Range", func(m *Machine, fn *ssa.Function, a []Value) Value {
		lo, hi := tm(a[1]), tm(a[2])
		if lo.Op == term.Const && hi.Op == term.Const && int64(lo.V) >= 0 && hi.V < 1<<62 && hi.V > 0 {
			// a variable just wide enough keeps arithmetic cheap
			w := uint8(bits.Len64(hi.V))
			t := m.c.ZExt(m.drawn(str(a[0]), w, 1)[0], 64)
			if lo.V > 0 || hi.V != 1<<w-1 {
				m.assume(m.c.And1(m.c.SLe(lo, t), m.c.SLe(t, hi)))
			}
			return t
		}
		t := m.drawn(str(a[0]), 64, 1)[0]
		m.assume(m.c.And1(m.c.SLe(lo, t), m.c.SLe(t, hi)))
		return t
	})
	nd("Pick", func(m *Machine, fn *ssa.Function, a []Value) Value {
		// a small variable so that narrow arithmetic stays cheap
		t := m.drawn(str(a[0]), 16, 1)[0]
		lo, hi := tm(a[1]), tm(a[2])
		x := m.c.ZExt(t, 64)
		m.assume(m.c.And1(m.c.SLe(lo, x), m.c.SLe(x, hi)))
		return term.K(64, m.concretize(x, 100000))
	})
	nd("Bytes", func(m *Machine, fn *ssa.Function, a []Value) Value {
		n := int(m.concretize(tm(a[1]), 4096))
		ts := m.drawn(str(a[0]), 8, n)
		r := make(Slice, n)
		for i := range ts {
			r[i] = ts[i]
		}
		return r
	})
	nd("String", func(m *Machine, fn *ssa.Function, a []Value) Value {
		n := int(m.concretize(tm(a[1]), 4096))
		return mkStr(m.drawn(str(a[0]), 8, n))
	})
	nd("Assume", func(m *Machine, fn *ssa.Function, a []Value) Value { m.assume(tm(a[0])); return nil })
	nd("Assert", func(m *Machine, fn *ssa.Function, a []Value) Value { m.assert(tm(a[0]), str(a[1])); return nil })
	nd("Fail", func(m *Machine, fn *ssa.Function, a []Value) Value { m.assert(term.False, str(a[0])); return nil })
	nd("Reach", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.res.Reached[str(a[0])] = true
		m.res.Reach[str(a[0])]++
		return nil
	})
	nd("Concrete", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return term.K(64, m.concretize(tm(a[0]), 100000))
	})
	nd("Symbolic", constRet(term.True))
	nd("Eq", func(m *Machine, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		if len(x) != len(y) {
			return term.False
		}
		r := term.True
		for i := range x {
			r = m.c.And1(r, m.c.Eq(tm(x[i]), tm(y[i])))
		}
		return r
	})
	nd("EqStr", func(m *Machine, fn *ssa.Function, a []Value) Value { return m.equals(a[0], a[1]) })
	nd("And", func(m *Machine, fn *ssa.Function, a []Value) Value {
		r := term.True
		for _, x := range a[0].(Slice) {
			r = m.c.And1(r, tm(x))
		}
		return r
	})
	nd("Or", func(m *Machine, fn *ssa.Function, a []Value) Value {
		r := term.False
		for _, x := range a[0].(Slice) {
			r = m.c.Or1(r, tm(x))
		}
		return r
	})
	nd("Implies", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return m.c.Or1(m.c.Not1(tm(a[0])), tm(a[1]))
	})
	nd("Ite", func(m *Machine, fn *ssa.Function, a []Value) Value { return m.c.Ite(tm(a[0]), tm(a[1]), tm(a[2])) })
	nd("Quiesce", func(m *Machine, fn *ssa.Function, a []Value) Value { m.quiesce(); return nil })
	nd("TempDir", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.fs.seq++
		d := fmt.Sprintf("/tmp/vt/d/vf%d", m.fs.seq)
		m.fs.mkdirAll(d)
		return Str{s: d}
	})
	nd("Steps", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.maxSteps = m.steps + int64(m.concretize(tm(a[0]), 1))
		m.stepViol = true
		return nil
	})
	nd("PermuteMaps", func(m *Machine, fn *ssa.Function, a []Value) Value { m.permuteMaps = tm(a[0]).IsTrue(); return nil })
	nd("Preempt", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.preempt = int(m.concretize(tm(a[0]), 1))
		return nil
	})
	nd("Known", func(m *Machine, fn *ssa.Function, a []Value) Value {
		if m.branch(tm(a[1])) {
			m.res.Known[str(a[0])]++
			panic(pathEnd{"assume", ""})
		}
		return nil
	})
	nd("Bound", func(m *Machine, fn *ssa.Function, a []Value) Value {
		if m.w.Thorough {
			return a[1]
		}
		return a[0]
	})
	nd("AllocBound", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.allocBound = int(m.concretize(tm(a[0]), 1))
		return nil
	})
	nd("DepthBound", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.depthBound = m.g.top.depth + int(m.concretize(tm(a[0]), 1))
		return nil
	})
	nd("Done", zret)
	nd("Harness", constRet(Str{}))
	nd("Note", func(m *Machine, fn *ssa.Function, a []Value) Value { m.trace = append(m.trace, str(a[0])); return nil })

	// ---- fmt ----
	for _, n := range []string{"Print", "Println", "Printf"} {
		n := n
		reg("fmt."+n, func(m *Machine, fn *ssa.Function, a []Value) Value {
			if m.debugOut {
				if n == "Printf" {
					fmt.Print(str(m.sprintf(a[0].(Str), a[1].(Slice), false)))
				} else {
					fmt.Println(str(m.sprint(a[0].(Slice), false, true)))
				}
			}
			return Tuple{k64(0), Iface{}}
		})
	}
	reg("fmt.Sprintf", func(m *Machine, fn *ssa.Function, a []Value) Value { return m.sprintf(a[0].(Str), a[1].(Slice), true) })
	reg("fmt.Sprint", func(m *Machine, fn *ssa.Function, a []Value) Value { return m.sprint(a[0].(Slice), true, false) })
	reg("fmt.Sprintln", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return concatStr(m.sprint(a[0].(Slice), true, true), Str{s: "\n"})
	})
	fpr := func(m *Machine, w Value, s Str) Value {
		b := make(Slice, s.Len())
		for i := range b {
			b[i] = s.At(i)
		}
		return m.invoke(w, "Write", b)
	}
	reg("fmt.Fprintf", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return fpr(m, a[0], m.sprintf(a[1].(Str), a[2].(Slice), true))
	})
	reg("fmt.Fprint", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return fpr(m, a[0], m.sprint(a[1].(Slice), true, false))
	})
	reg("fmt.Fprintln", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return fpr(m, a[0], concatStr(m.sprint(a[1].(Slice), true, true), Str{s: "\n"}))
	})
	reg("fmt.Errorf", func(m *Machine, fn *ssa.Function, a []Value) Value {
		f := a[0].(Str)
		args := a[1].(Slice)
		if i := strings.Index(f.s, "%w"); i >= 0 {
			n := strings.Count(strings.ReplaceAll(f.s[:i], "%%", ""), "%")
			if n < len(args) {
				if e, ok := args[n].(Iface); ok && e.t != nil {
					msg := m.sprintf(Str{s: strings.ReplaceAll(f.s, "%w", "%v")}, args, false)
					if wt := m.eng.pkgType("fmt", "wrapError"); wt != nil {
						cell := new(Value)
						*cell = Struct{msg, e}
						return Iface{t: types.NewPointer(wt), v: cell}
					}
				}
			}
		}
		return m.mkErrS(m.sprintf(Str{s: strings.ReplaceAll(f.s, "%w", "%v")}, args, false))
	})
	reg("fmt.Sscanf", func(m *Machine, fn *ssa.Function, a []Value) Value {
		panic(m.unsupported("fmt.Sscanf"))
	})
	// ---- errors ----
	reg("github.com/pkg/errors.callers", func(m *Machine, fn *ssa.Function, a []Value) Value {
		cell := new(Value)
		*cell = Slice(nil)
		return cell
	})
	reg("github.com/pkg/errors.Errorf", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return m.mkErrS(m.sprintf(a[0].(Str), a[1].(Slice), false))
	})
	reg("github.com/pkg/errors.Wrapf", func(m *Machine, fn *ssa.Function, a []Value) Value {
		if a[0].(Iface).t == nil {
			return Iface{}
		}
		f := m.eng.Func("github.com/pkg/errors", "Wrap")
		return m.callFn(f, []Value{a[0], m.sprintf(a[1].(Str), a[2].(Slice), false)}, nil)
	})
	reg("errors.Is", func(m *Machine, fn *ssa.Function, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		for {
			if e.t == nil || t.t == nil {
				return term.Bool(e.t == nil && t.t == nil)
			}
			if m.branch(m.equals(e, t)) {
				return term.True
			}
			f := m.eng.method(e.t, nil, "Unwrap")
			if f == nil {
				return term.False
			}
			r, ok := m.callFn(f, []Value{e.v}, nil).(Iface)
			if !ok {
				return term.False
			}
			e = r
			if e.t == nil {
				return term.False
			}
		}
	})
	reg("errors.As", func(m *Machine, fn *ssa.Function, a []Value) Value {
		e := a[0].(Iface)
		tgt := a[1].(Iface)
		et := tgt.t.Underlying().(*types.Pointer).Elem()
		for e.t != nil {
			if it, ok := et.Underlying().(*types.Interface); ok {
				if m.eng.implements(e.t, it) {
					storeVal(tgt.v.(*Value), e)
					return term.True
				}
			} else if types.Identical(e.t, et) {
				storeVal(tgt.v.(*Value), e.v)
				return term.True
			}
			f := m.eng.method(e.t, nil, "Unwrap")
			if f == nil {
				return term.False
			}
			r, ok := m.callFn(f, []Value{e.v}, nil).(Iface)
			if !ok {
				return term.False
			}
			e = r
		}
		return term.False
	})

	// ---- math ----
	id := func(m *Machine, fn *ssa.Function, a []Value) Value { return a[0] }
	for _, n := range []string{"math.Float64bits", "math.Float64frombits", "math.Float32bits", "math.Float32frombits", "internal/abi.NoEscape", "strings.noescape", "internal/abi.Escape"} {
		reg(n, id)
	}
	fun := func(name string, op term.Op, f func(float64) float64) {
		h := func(m *Machine, fn *ssa.Function, a []Value) Value { return m.c.FUn(op, tm(a[0]), 64) }
		reg("math."+name, h)
		reg("math."+strings.ToLower(name), h)
	}
	fun("Ceil", term.FCeil, math.Ceil)
	fun("Floor", term.FFloor, math.Floor)
	cf := func(name string, f func(float64) float64) {
		reg("math."+name, func(m *Machine, fn *ssa.Function, a []Value) Value {
			t := tm(a[0])
			return term.K(64, math.Float64bits(f(math.Float64frombits(m.concretize(t, 256)))))
		})
	}
	cf("Round", math.Round)
	cf("Trunc", math.Trunc)
	cf("Sqrt", math.Sqrt)
	reg("math.Max", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return m.c.Ite(m.c.FCmp(term.FLt, tm(a[0]), tm(a[1])), tm(a[1]), tm(a[0]))
	})
	reg("math.Min", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return m.c.Ite(m.c.FCmp(term.FLt, tm(a[0]), tm(a[1])), tm(a[0]), tm(a[1]))
	})
	reg("math.Abs", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return m.c.And(tm(a[0]), term.K(64, 1<<63-1))
	})
	reg("math/bits.Mul64", func(m *Machine, fn *ssa.Function, a []Value) Value {
		x, y := tm(a[0]), tm(a[1])
		if x.IsConst() && y.IsConst() {
			h, l := bits.Mul64(x.V, y.V)
			return Tuple{term.K(64, h), term.K(64, l)}
		}
		hx, hy := x.UMax(), y.UMax()
		if h, _ := bits.Mul64(hx, hy); h == 0 {
			return Tuple{term.K(64, 0), m.c.Mul(x, y)}
		}
		panic(m.unsupported("128-bit symbolic multiply"))
	})

	// ---- bytealg ----
	idx := func(m *Machine, b []*term.Term, c *term.Term) Value {
		for i, t := range b {
			if m.branch(m.c.Eq(t, c)) {
				return k64(i)
			}
		}
		return k64(-1)
	}
	reg("internal/bytealg.IndexByte", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return idx(m, sliceTerms(a[0].(Slice)), tm(a[1]))
	})
	reg("internal/bytealg.IndexByteString", func(m *Machine, fn *ssa.Function, a []Value) Value {
		s := a[0].(Str)
		if s.b == nil && tm(a[1]).IsConst() {
			return k64(strings.IndexByte(s.s, byte(tm(a[1]).V)))
		}
		return idx(m, s.Terms(), tm(a[1]))
	})
	lidx := func(m *Machine, b []*term.Term, c *term.Term) Value {
		for i := len(b) - 1; i >= 0; i-- {
			if m.branch(m.c.Eq(b[i], c)) {
				return k64(i)
			}
		}
		return k64(-1)
	}
	reg("internal/bytealg.LastIndexByte", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return lidx(m, sliceTerms(a[0].(Slice)), tm(a[1]))
	})
	reg("internal/bytealg.LastIndexByteString", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return lidx(m, a[0].(Str).Terms(), tm(a[1]))
	})
	cnt := func(m *Machine, b []*term.Term, c *term.Term) Value {
		n := term.K(64, 0)
		for _, t := range b {
			n = m.c.Add(n, m.c.Ite(m.c.Eq(t, c), term.K(64, 1), term.K(64, 0)))
		}
		return n
	}
	reg("internal/bytealg.Count", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return cnt(m, sliceTerms(a[0].(Slice)), tm(a[1]))
	})
	reg("internal/bytealg.CountString", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return cnt(m, a[0].(Str).Terms(), tm(a[1]))
	})
	sub := func(m *Machine, s, t []*term.Term) Value {
		n := len(t)
		for i := 0; i+n <= len(s); i++ {
			e := term.True
			for j := 0; j < n; j++ {
				e = m.c.And1(e, m.c.Eq(s[i+j], t[j]))
			}
			if m.branch(e) {
				return k64(i)
			}
		}
		return k64(-1)
	}
	reg("strings.Index", func(m *Machine, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Str), a[1].(Str)
		if x.b == nil && y.b == nil {
			return k64(strings.Index(x.s, y.s))
		}
		return sub(m, x.Terms(), y.Terms())
	})
	reg("internal/stringslite.Index", intr["strings.Index"])
	reg("internal/bytealg.IndexString", intr["strings.Index"])
	reg("bytes.Index", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return sub(m, sliceTerms(a[0].(Slice)), sliceTerms(a[1].(Slice)))
	})
	reg("internal/bytealg.Index", intr["bytes.Index"])
	beq := func(m *Machine, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		if len(x) != len(y) {
			return term.False
		}
		r := term.True
		for i := range x {
			r = m.c.And1(r, m.c.Eq(tm(x[i]), tm(y[i])))
		}
		return r
	}
	reg("bytes.Equal", beq)
	reg("internal/bytealg.Equal", beq)
	reg("crypto/hmac.Equal", beq)
	reg("crypto/subtle.ConstantTimeCompare", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return m.c.Ite(tm(beq(m, fn, a)), term.K(64, 1), term.K(64, 0))
	})
	reg("internal/bytealg.MakeNoZero", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return m.makeSlice(types.Typ[types.Uint8], tm(a[0]), tm(a[0]))
	})
	// concrete fast paths for common string functions
	s1 := func(n string, f func(string) string) {
		reg("strings."+n, func(m *Machine, fn *ssa.Function, a []Value) Value {
			s := a[0].(Str)
			if s.b == nil {
				return Str{s: f(s.s)}
			}
			return m.interp(fn, a)
		})
	}
	s1("ToLower", strings.ToLower)
	s1("ToUpper", strings.ToUpper)
	s1("TrimSpace", strings.TrimSpace)
	s1("Title", strings.Title)
	reg("strings.EqualFold", func(m *Machine, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Str), a[1].(Str)
		if x.b == nil && y.b == nil {
			return term.Bool(strings.EqualFold(x.s, y.s))
		}
		return m.interp(fn, a)
	})
	s2b := func(n string, f func(a, b string) bool) {
		reg("strings."+n, func(m *Machine, fn *ssa.Function, a []Value) Value {
			x, y := a[0].(Str), a[1].(Str)
			if x.b == nil && y.b == nil {
				return term.Bool(f(x.s, y.s))
			}
			return m.interp(fn, a)
		})
	}
	s2b("Contains", strings.Contains)
	s2l := func(n string, f func(a, b string) []string) {
		reg("strings."+n, func(m *Machine, fn *ssa.Function, a []Value) Value {
			x, y := a[0].(Str), a[1].(Str)
			if x.b == nil && y.b == nil {
				return strList(f(x.s, y.s))
			}
			return m.interp(fn, a)
		})
	}
	s2l("Split", strings.Split)
	reg("strings.Fields", func(m *Machine, fn *ssa.Function, a []Value) Value {
		x := a[0].(Str)
		if x.b == nil {
			return strList(strings.Fields(x.s))
		}
		return m.interp(fn, a)
	})

	// ---- sync ----
	for _, t := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		reg(t+".Lock", func(m *Machine, fn *ssa.Function, a []Value) Value { m.lock(a[0]); return nil })
		reg(t+".Unlock", func(m *Machine, fn *ssa.Function, a []Value) Value { m.unlock(a[0]); return nil })
		reg(t+".TryLock", func(m *Machine, fn *ssa.Function, a []Value) Value {
			s := m.mu(a[0])
			if s.locked || s.readers > 0 {
				return term.False
			}
			s.locked = true
			m.raceAcquire(raceKey{"mu", a[0]})
			m.raceAcquire(raceKey{"rmu", a[0]})
			return term.True
		})
	}
	reg("(*sync.RWMutex).RLock", func(m *Machine, fn *ssa.Function, a []Value) Value {
		s := m.mu(a[0])
		m.maybePreempt()
		m.block(func() bool { return !s.locked })
		s.readers++
		m.raceAcquire(raceKey{"mu", a[0]})
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(m *Machine, fn *ssa.Function, a []Value) Value {
		s := m.mu(a[0])
		if s.readers == 0 {
			m.userPanic("sync: RUnlock of unlocked RWMutex")
		}
		s.readers--
		m.raceRelease(raceKey{"rmu", a[0]})
		m.maybePreempt()
		return nil
	})
	wg := func(m *Machine, p Value) *wgState {
		k := sideKey{"wg", p}
		s, ok := m.side[k].(*wgState)
		if !ok {
			s = &wgState{}
			m.side[k] = s
		}
		return s
	}
	reg("(*sync.WaitGroup).Add", func(m *Machine, fn *ssa.Function, a []Value) Value {
		s := wg(m, a[0])
		m.raceRelease(raceKey{"wg", a[0]})
		s.n += int64(m.concretize(tm(a[1]), 16))
		if s.n < 0 {
			m.userPanic("sync: negative WaitGroup counter")
		}
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(m *Machine, fn *ssa.Function, a []Value) Value {
		s := wg(m, a[0])
		m.raceRelease(raceKey{"wg", a[0]})
		s.n--
		if s.n < 0 {
			m.userPanic("sync: negative WaitGroup counter")
		}
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(m *Machine, fn *ssa.Function, a []Value) Value {
		s := wg(m, a[0])
		m.block(func() bool { return s.n == 0 })
		m.raceAcquire(raceKey{"wg", a[0]})
		return nil
	})
	reg("(*sync.Once).Do", func(m *Machine, fn *ssa.Function, a []Value) Value {
		k := sideKey{"once", a[0]}
		s, ok := m.side[k].(*onceState)
		if !ok {
			s = &onceState{}
			m.side[k] = s
		}
		if s.running {
			m.block(func() bool { return !s.running })
		}
		if !s.done {
			s.running = true
			s.done = true
			m.callValue(a[1], nil)
			s.running = false
			m.raceRelease(raceKey{"once", a[0]})
		}
		m.raceAcquire(raceKey{"once", a[0]})
		return nil
	})
	cond := func(m *Machine, p Value) *condState {
		k := sideKey{"cond", p}
		s, ok := m.side[k].(*condState)
		if !ok {
			s = &condState{}
			m.side[k] = s
		}
		return s
	}
	condL := func(m *Machine, p Value) Value { // the Locker field
		st := (*p.(*Value)).(Struct)
		for _, f := range st {
			if i, ok := f.(Iface); ok {
				return i
			}
		}
		panic(m.unsupported("sync.Cond layout"))
	}
	reg("(*sync.Cond).Wait", func(m *Machine, fn *ssa.Function, a []Value) Value {
		s := cond(m, a[0])
		l := condL(m, a[0])
		flag := new(bool)
		s.waiters = append(s.waiters, flag)
		m.invoke(l, "Unlock")
		m.block(func() bool { return *flag })
		m.invoke(l, "Lock")
		return nil
	})
	reg("(*sync.Cond).Signal", func(m *Machine, fn *ssa.Function, a []Value) Value {
		s := cond(m, a[0])
		if len(s.waiters) > 0 {
			*s.waiters[0] = true
			s.waiters = s.waiters[1:]
		}
		return nil
	})
	reg("(*sync.Cond).Broadcast", func(m *Machine, fn *ssa.Function, a []Value) Value {
		s := cond(m, a[0])
		for _, w := range s.waiters {
			*w = true
		}
		s.waiters = nil
		return nil
	})
	reg("(*sync.Map).Load", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.maybePreempt()
		m.raceAcquire(raceKey{"map", a[0]})
		mp := m.syncMap(a[0])
		if i := m.mapFind(mp, a[1]); i >= 0 {
			return Tuple{mp.vals[i], term.True}
		}
		return Tuple{Iface{}, term.False}
	})
	reg("(*sync.Map).Store", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.maybePreempt()
		m.raceSync(raceKey{"map", a[0]})
		m.mapSet(m.syncMap(a[0]), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).Delete", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.maybePreempt()
		m.raceSync(raceKey{"map", a[0]})
		m.mapDelete(m.syncMap(a[0]), a[1])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.maybePreempt()
		m.raceSync(raceKey{"map", a[0]})
		mp := m.syncMap(a[0])
		if i := m.mapFind(mp, a[1]); i >= 0 {
			return Tuple{mp.vals[i], term.True}
		}
		m.mapSet(mp, a[1], a[2])
		return Tuple{a[2], term.False}
	})
	reg("(*sync.Map).LoadAndDelete", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.maybePreempt()
		m.raceSync(raceKey{"map", a[0]})
		mp := m.syncMap(a[0])
		if i := m.mapFind(mp, a[1]); i >= 0 {
			v := mp.vals[i]
			m.mapDelete(mp, a[1])
			return Tuple{v, term.True}
		}
		return Tuple{Iface{}, term.False}
	})
	reg("(*sync.Map).CompareAndDelete", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.maybePreempt()
		m.raceSync(raceKey{"map", a[0]})
		mp := m.syncMap(a[0])
		if i := m.mapFind(mp, a[1]); i >= 0 && m.branch(m.equals(mp.vals[i], a[2])) {
			m.mapDelete(mp, a[1])
			return term.True
		}
		return term.False
	})
	reg("(*sync.Map).Range", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.raceAcquire(raceKey{"map", a[0]})
		mp := m.syncMap(a[0])
		n := len(mp.keys)
		for i := 0; i < n; i++ {
			if mp.live[i] {
				if !m.branch(tm(m.callValue(a[1], []Value{mp.keys[i], mp.vals[i]}))) {
					break
				}
			}
		}
		return nil
	})
	reg("(*sync.Pool).Get", func(m *Machine, fn *ssa.Function, a []Value) Value {
		st := (*a[0].(*Value)).(Struct)
		f := st[len(st)-1]
		if sf, ok := f.(*ssa.Function); ok && sf == nil {
			return Iface{}
		}
		return m.callValue(f, nil)
	})
	reg("(*sync.Pool).Put", zret)
	// ---- atomic ----
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		w := w
		reg("sync/atomic.Load"+w, func(m *Machine, fn *ssa.Function, a []Value) Value {
			m.maybePreempt()
			m.raceAtomic(a[0], false)
			return m.load(a[0])
		})
		reg("sync/atomic.Store"+w, func(m *Machine, fn *ssa.Function, a []Value) Value {
			m.maybePreempt()
			m.raceAtomic(a[0], true)
			m.store(a[0], a[1])
			return nil
		})
		reg("sync/atomic.Swap"+w, func(m *Machine, fn *ssa.Function, a []Value) Value {
			m.maybePreempt()
			m.raceAtomic(a[0], true)
			o := m.load(a[0])
			m.store(a[0], a[1])
			return o
		})
		reg("sync/atomic.CompareAndSwap"+w, func(m *Machine, fn *ssa.Function, a []Value) Value {
			m.maybePreempt()
			m.raceAtomic(a[0], true)
			if m.branch(m.equals(m.load(a[0]), a[1])) {
				m.store(a[0], a[2])
				return term.True
			}
			return term.False
		})
		if w != "Pointer" {
			reg("sync/atomic.Add"+w, func(m *Machine, fn *ssa.Function, a []Value) Value {
				m.maybePreempt()
				m.raceAtomic(a[0], true)
				n := m.c.Add(tm(m.load(a[0])), tm(a[1]))
				m.store(a[0], n)
				return n
			})
		}
	}
	reg("(*sync/atomic.Value).Load", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.raceAcquire(raceKey{"av", a[0]})
		if v, ok := m.side[sideKey{"av", a[0]}]; ok {
			return v
		}
		return Iface{}
	})
	reg("(*sync/atomic.Value).Store", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.raceSync(raceKey{"av", a[0]})
		m.side[sideKey{"av", a[0]}] = a[1]
		return nil
	})
	// ---- runtime ----
	reg("runtime.Gosched", func(m *Machine, fn *ssa.Function, a []Value) Value { m.yield(); return nil })
	reg("runtime.KeepAlive", zret)
	reg("runtime.Caller", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return Tuple{k64(0), Str{}, k64(0), term.False}
	})
	reg("runtime.Callers", constRet(k64(0)))
	reg("runtime.NumGoroutine", constRet(k64(1)))
	reg("runtime/debug.Stack", constRet(Slice(nil)))
	reg("runtime/debug.PrintStack", zret)
	reg("(*internal/godebug.Setting).Value", constRet(Str{}))
	reg("(*internal/godebug.Setting).IncNonDefault", zret)
	reg("internal/godebug.New", func(m *Machine, fn *ssa.Function, a []Value) Value { c := new(Value); *c = Struct{}; return c })
	reg("os.Getenv", constRet(Str{}))
	reg("os.LookupEnv", constRet(Tuple{Str{}, term.False}))
	reg("os.Exit", func(m *Machine, fn *ssa.Function, a []Value) Value { m.userPanic("os.Exit"); return nil })

	// ---- time ----
	reg("time.Now", func(m *Machine, fn *ssa.Function, a []Value) Value { return m.timeNow() })
	reg("time.Since", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return m.callFn(m.eng.method(m.eng.pkgType("time", "Time"), nil, "Sub"), []Value{m.timeNow(), a[0]}, nil)
	})
	reg("time.Until", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return m.callFn(m.eng.method(m.eng.pkgType("time", "Time"), nil, "Sub"), []Value{a[0], m.timeNow()}, nil)
	})
	reg("time.Sleep", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.sleep(int64(m.concretize(tm(a[0]), 16)))
		return nil
	})
	after := func(m *Machine, d Value) *Chan {
		ch := &Chan{cap: 1}
		dur := int64(m.concretize(tm(d), 16))
		m.spawnTimer(dur, func() {
			if len(ch.buf) == 0 {
				ch.buf = append(ch.buf, m.timeNow())
			}
		})
		return ch
	}
	reg("time.After", func(m *Machine, fn *ssa.Function, a []Value) Value { return after(m, a[0]) })
	mkTimer := func(m *Machine, ty string, ch *Chan) Value {
		t := m.eng.pkgType("time", ty)
		z := zero(t).(Struct)
		z[0] = ch
		cell := new(Value)
		*cell = z
		return cell
	}
	reg("time.NewTimer", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return mkTimer(m, "Timer", after(m, a[0]))
	})
	reg("time.NewTicker", func(m *Machine, fn *ssa.Function, a []Value) Value {
		ch := &Chan{cap: 1}
		dur := int64(m.concretize(tm(a[0]), 16))
		var tick func()
		left := 64
		tick = func() {
			if len(ch.buf) == 0 {
				ch.buf = append(ch.buf, m.timeNow())
			}
			left--
			if left > 0 {
				m.spawnTimer(dur, tick)
			}
		}
		m.spawnTimer(dur, tick)
		return mkTimer(m, "Ticker", ch)
	})
	reg("time.AfterFunc", func(m *Machine, fn *ssa.Function, a []Value) Value {
		dur := int64(m.concretize(tm(a[0]), 16))
		p := mkTimer(m, "Timer", nil)
		stopped := new(bool)
		m.side[sideKey{"timer", p}] = stopped
		m.spawnTimer(dur, func() {
			if !*stopped {
				*stopped = true
				m.callValue(a[1], nil)
			}
		})
		return p
	})
	reg("(*time.Timer).Stop", func(m *Machine, fn *ssa.Function, a []Value) Value {
		if s, ok := m.side[sideKey{"timer", a[0]}].(*bool); ok {
			was := !*s
			*s = true
			return term.Bool(was)
		}
		return term.True
	})
	reg("(*time.Ticker).Stop", zret)
	reg("time.runtimeNano", func(m *Machine, fn *ssa.Function, a []Value) Value { return term.K(64, uint64(m.now)) })

	// ---- binary ----
	reg("encoding/binary.Write", func(m *Machine, fn *ssa.Function, a []Value) Value {
		big := !strings.Contains(a[1].(Iface).t.String(), "little")
		d := a[2].(Iface)
		b, ok := m.encodeBin(d.t, d.v, big)
		if !ok {
			return m.mkErr("binary.Write: some values are not fixed-sized")
		}
		r := m.invoke(a[0], "Write", b).(Tuple)
		return r[1]
	})
	reg("encoding/binary.Read", func(m *Machine, fn *ssa.Function, a []Value) Value {
		big := !strings.Contains(a[1].(Iface).t.String(), "little")
		d := a[2].(Iface)
		var et types.Type
		var cell *Value
		switch u := d.t.Underlying().(type) {
		case *types.Pointer:
			et = u.Elem()
			cell = d.v.(*Value)
		case *types.Slice:
			et = types.NewArray(u.Elem(), int64(len(d.v.(Slice))))
			cell = new(Value)
			*cell = Array(d.v.(Slice))
		default:
			return m.mkErr("binary.Read: invalid type")
		}
		n, ok := binSize(et)
		if !ok {
			return m.mkErr("binary.Read: invalid type " + d.t.String())
		}
		buf := make(Slice, n)
		for i := range buf {
			buf[i] = term.K(8, 0)
		}
		rf := m.eng.Func("io", "ReadFull")
		r := m.callFn(rf, []Value{a[0], buf}, nil).(Tuple)
		if r[1].(Iface).t != nil {
			return r[1]
		}
		v, _ := m.decodeBin(et, buf, big)
		storeVal(cell, v)
		return Iface{}
	})
	reg("encoding/binary.Size", func(m *Machine, fn *ssa.Function, a []Value) Value {
		d := a[0].(Iface)
		b, ok := m.encodeBin(d.t, d.v, true)
		if !ok {
			return k64(-1)
		}
		return k64(len(b))
	})

	// ---- crypto (opaque) ----
	reg("crypto/sha256.New", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return Iface{t: hashT, v: &hashObj{alg: "sha256", size: 32}}
	})
	reg("crypto/sha1.New", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return Iface{t: hashT, v: &hashObj{alg: "sha1", size: 20}}
	})
	reg("crypto/hmac.New", func(m *Machine, fn *ssa.Function, a []Value) Value {
		h := m.callValue(a[0], nil).(Iface).v.(*hashObj)
		return Iface{t: hashT, v: &hashObj{alg: "hmac-" + h.alg, size: h.size, key: sliceTerms(a[1].(Slice))}}
	})
	sum := func(alg string, n int) Intrinsic {
		return func(m *Machine, fn *ssa.Function, a []Value) Value {
			h := &hashObj{alg: alg, size: n, data: sliceTerms(a[0].(Slice))}
			r := make(Array, n)
			for i, t := range h.digest(m) {
				r[i] = t
			}
			return r
		}
	}
	reg("crypto/sha256.Sum256", sum("sha256", 32))
	reg("crypto/sha1.Sum", sum("sha1", 20))
	reg("crypto/aes.NewCipher", func(m *Machine, fn *ssa.Function, a []Value) Value {
		k := sliceTerms(a[0].(Slice))
		if n := len(k); n != 16 && n != 24 && n != 32 {
			return Tuple{Iface{}, m.mkErr("aes: invalid key size")}
		}
		return Tuple{Iface{t: hashT, v: &aesObj{key: k}}, Iface{}}
	})
	reg("crypto/cipher.NewCTR", func(m *Machine, fn *ssa.Function, a []Value) Value {
		b := a[0].(Iface).v.(*aesObj)
		iv := sliceTerms(a[1].(Slice))
		if len(iv) != 16 {
			m.userPanic("cipher.NewCTR: IV length must equal block size")
		}
		return Iface{t: hashT, v: &ctrObj{key: b.key, iv: iv}}
	})
	rnd := func(m *Machine, s Slice) {
		for i := range s {
			s[i] = m.fresh("rand", 8)
		}
	}
	reg("crypto/rand.Read", func(m *Machine, fn *ssa.Function, a []Value) Value {
		//a harness may have put its own source in rand.Reader
		if r, ok := m.global("crypto/rand", "Reader").(Iface); ok && r.t != nil {
			return m.invoke(r, "Read", a[0])
		}
		s := a[0].(Slice)
		rnd(m, s)
		return Tuple{k64(len(s)), Iface{}}
	})
	reg("math/rand.Read", func(m *Machine, fn *ssa.Function, a []Value) Value {
		s := a[0].(Slice)
		rnd(m, s)
		return Tuple{k64(len(s)), Iface{}}
	})
	globalStub["crypto/rand.Reader"] = func(m *Machine) Value { return Iface{t: hashT, v: randObj{}} }
	for n, w := range map[string]uint8{"Uint32": 32, "Uint64": 64, "Int63": 63, "Int31": 31, "Int": 63} {
		n, w := n, w
		h := func(m *Machine, fn *ssa.Function, a []Value) Value {
			t := m.fresh("rand", w)
			switch w {
			case 63:
				return m.c.ZExt(t, 64)
			case 31:
				return m.c.ZExt(t, 32)
			}
			return t
		}
		reg("math/rand."+n, h)
		reg("math/rand/v2."+n, h)
	}
	// ---- structs / mapstructure ----
	reg("github.com/fatih/structs.Map", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return m.structsMap(a[0].(Iface))
	})
	reg("github.com/goinggo/mapstructure.Decode", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return m.msDecode(a[0].(Iface), a[1].(Iface))
	})
	regReflect()
	regOS()
	_ = path.Join
	_ = reflect.Int
}

var hashT = &nativeType{"native"}

func strList(l []string) Slice {
	r := make(Slice, len(l))
	for i := range l {
		r[i] = Str{s: l[i]}
	}
	return r
}

// interp runs the SSA body of a function that also has a fast-path intrinsic.
func (m *Machine) interp(fn *ssa.Function, args []Value) Value {
	k := "body:" + fnName(fn)
	v, ok := m.eng.meth.Load(methKey{nil, k})
	if !ok {
		m.eng.mu.Lock()
		fi := &fnInfo{fn: fn, name: fnName(fn)}
		compileFn(fi)
		m.eng.mu.Unlock()
		m.eng.meth.Store(methKey{nil, k}, fi)
		v = fi
	}
	fi := v.(*fnInfo)
	fr := &frame{m: m, fi: fi, caller: m.g.top, regs: make([]Value, fi.nslots), prev: -1}
	if fr.caller != nil {
		fr.depth = fr.caller.depth + 1
	}
	copy(fr.regs, args)
	m.g.top = fr
	if fi.hasDefer {
		for !fr.done {
			fr.runProtected()
		}
	} else {
		fr.run()
	}
	m.g.top = fr.caller
	return fr.result
}

func (m *Machine) sprint(args []Value, fork, ln bool) Str {
	out := Str{}
	prevStr := true
	for i, a := range args {
		it, _ := a.(Iface)
		_, isStr := it.v.(Str)
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = concatStr(out, Str{s: " "})
		}
		out = concatStr(out, m.fmtOne("", 'v', a, fork))
		prevStr = isStr
	}
	return out
}

func (m *Machine) spawnTimer(d int64, f func()) {
	g := &G{m: m, id: len(m.gs), resume: make(chan bool, 1), exit: make(chan struct{}), timer: true}
	g.fn = &NativeFn{"timer", func(m *Machine, a []Value) Value { g.wakeAt = 0; f(); return nil }}
	if d < 1 {
		d = 1
	}
	g.wakeAt = m.now + d
	m.gs = append(m.gs, g)
	m.raceSpawn(g)
}

const baseSec = 63871200000 // ~2025 in seconds since year 1

func (m *Machine) timeNow() Value {
	m.now += 1000
	s, n := m.now/1e9, m.now%1e9
	return Struct{term.K(64, uint64(n)), term.K(64, uint64(baseSec+s)), (*Value)(nil)}
}

// ---- binary ----

func binSize(t types.Type) (int, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Int, types.Uint, types.String, types.Uintptr:
			return 0, false
		case types.Bool:
			return 1, true
		}
		w, _ := intWidth(u)
		if w == 0 {
			return 0, false
		}
		return int(w / 8), true
	case *types.Array:
		n, ok := binSize(u.Elem())
		return n * int(u.Len()), ok
	case *types.Struct:
		s := 0
		for i := 0; i < u.NumFields(); i++ {
			n, ok := binSize(u.Field(i).Type())
			if !ok {
				return 0, false
			}
			s += n
		}
		return s, true
	}
	return 0, false
}

func (m *Machine) encodeBin(t types.Type, v Value, big bool) (Slice, bool) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if p, ok := v.(*Value); ok && p != nil {
			return m.encodeBin(u.Elem(), *p, big)
		}
		return nil, false
	case *types.Slice:
		out := Slice{}
		for _, x := range v.(Slice) {
			b, ok := m.encodeBin(u.Elem(), x, big)
			if !ok {
				return nil, false
			}
			out = append(out, b...)
		}
		return out, true
	case *types.Array:
		out := Slice{}
		for _, x := range v.(Array) {
			b, ok := m.encodeBin(u.Elem(), x, big)
			if !ok {
				return nil, false
			}
			out = append(out, b...)
		}
		return out, true
	case *types.Struct:
		out := Slice{}
		for i, x := range v.(Struct) {
			b, ok := m.encodeBin(u.Field(i).Type(), x, big)
			if !ok {
				return nil, false
			}
			out = append(out, b...)
		}
		return out, true
	case *types.Basic:
		n, ok := binSize(t)
		if !ok {
			return nil, false
		}
		x := tm(v)
		if x.W == 0 {
			x = m.c.Ite(x, term.K(8, 1), term.K(8, 0))
		}
		out := make(Slice, n)
		for i := 0; i < n; i++ {
			b := m.c.Extract(x, uint8(8*i+7), uint8(8*i))
			if big {
				out[n-1-i] = b
			} else {
				out[i] = b
			}
		}
		return out, true
	}
	return nil, false
}

func (m *Machine) decodeBin(t types.Type, b []Value, big bool) (Value, int) {
	switch u := t.Underlying().(type) {
	case *types.Array:
		out := make(Array, u.Len())
		o := 0
		for i := range out {
			v, n := m.decodeBin(u.Elem(), b[o:], big)
			out[i] = v
			o += n
		}
		return out, o
	case *types.Struct:
		out := make(Struct, u.NumFields())
		o := 0
		for i := range out {
			v, n := m.decodeBin(u.Field(i).Type(), b[o:], big)
			out[i] = v
			o += n
		}
		return out, o
	}
	n, _ := binSize(t)
	parts := make([]*term.Term, n)
	for i := 0; i < n; i++ {
		if big {
			parts[i] = tm(b[i])
		} else {
			parts[n-1-i] = tm(b[i])
		}
	}
	x := m.c.ConcatN(parts...)
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
		return m.c.Not1(m.c.Eq(x, term.K(8, 0))), n
	}
	return x, n
}

// ---- crypto ----

// randObj is the default crypto/rand.Reader: fresh symbolic bytes.
type randObj struct{}

func (randObj) CallMethod(m *Machine, name string, args []Value) Value {
	if name != "Read" {
		panic(m.unsupported("rand.Reader." + name))
	}
	s := args[0].(Slice)
	for i := range s {
		s[i] = m.fresh("rand", 8)
	}
	return Tuple{k64(len(s)), Iface{}}
}

type hashObj struct {
	alg  string
	size int
	key  []*term.Term
	data []*term.Term
}

func tb(ts []*term.Term) ([]byte, bool) {
	b := make([]byte, len(ts))
	for i, t := range ts {
		if !t.IsConst() {
			return nil, false
		}
		b[i] = byte(t.V)
	}
	return b, true
}

func termsKey(ts []*term.Term) string {
	var b strings.Builder
	for _, t := range ts {
		if t.IsConst() {
			fmt.Fprintf(&b, "c%d,", t.V)
		} else {
			fmt.Fprintf(&b, "%d,", t.ID)
		}
	}
	return b.String()
}

// digest: concrete data is hashed for real; symbolic data yields bytes that
// are a function of the syntactic input (uninterpreted).
func (h *hashObj) digest(m *Machine) []*term.Term {
	kb, ok1 := tb(h.key)
	db, ok2 := tb(h.data)
	if ok1 && ok2 {
		var out []byte
		switch h.alg {
		case "sha256":
			s := sha256.Sum256(db)
			out = s[:]
		case "sha1":
			s := sha1.Sum(db)
			out = s[:]
		case "hmac-sha256":
			x := hmac.New(sha256.New, kb)
			x.Write(db)
			out = x.Sum(nil)
		case "hmac-sha1":
			x := hmac.New(sha1.New, kb)
			x.Write(db)
			out = x.Sum(nil)
		}
		r := make([]*term.Term, len(out))
		for i := range out {
			r[i] = term.K(8, uint64(out[i]))
		}
		return r
	}
	return m.opaqueBytes(h.alg, h.size, termsKey(h.key)+"/"+termsKey(h.data))
}

// opaqueBytes returns n fresh bytes determined by (alg,key).
func (m *Machine) opaqueBytes(alg string, n int, key string) []*term.Term {
	k := sideKey{"opaque" + alg, key}
	if v, ok := m.side[k]; ok {
		return v.([]*term.Term)
	}
	r := make([]*term.Term, n)
	m.opaque++
	for i := range r {
		r[i] = m.c.MkVar(fmt.Sprintf("%s!%d.%d", alg, m.opaque, i), 8)
	}
	m.side[k] = r
	return r
}

func (h *hashObj) CallMethod(m *Machine, name string, args []Value) Value {
	switch name {
	case "Write":
		s := args[0].(Slice)
		h.data = append(h.data, sliceTerms(s)...)
		return Tuple{k64(len(s)), Iface{}}
	case "Sum":
		d := h.digest(m)
		r := append(Slice{}, args[0].(Slice)...)
		for _, t := range d {
			r = append(r, t)
		}
		return r
	case "Reset":
		h.data = nil
		return nil
	case "Size":
		return k64(h.size)
	case "BlockSize":
		return k64(64)
	}
	panic(m.unsupported("hash." + name))
}

type aesObj struct{ key []*term.Term }

func (a *aesObj) CallMethod(m *Machine, name string, args []Value) Value {
	switch name {
	case "BlockSize":
		return k64(16)
	case "Encrypt", "Decrypt":
		d, s := args[0].(Slice), args[1].(Slice)
		if len(s) < 16 || len(d) < 16 {
			m.userPanic("crypto/aes: input not full block")
		}
		kb, ok1 := tb(a.key)
		sb, ok2 := concreteBytes(s[:16])
		if ok1 && ok2 {
			c, _ := aes.NewCipher(kb)
			out := make([]byte, 16)
			if name == "Encrypt" {
				c.Encrypt(out, sb)
			} else {
				c.Decrypt(out, sb)
			}
			copy(d, bytesVal(out))
			return nil
		}
		enc := "aes/" + termsKey(a.key) + "/"
		if name == "Encrypt" {
			out := m.opaqueBytes("aesE", 16, enc+termsKey(sliceTerms(s[:16])))
			m.side[sideKey{"opaqueaesD", enc + termsKey(out)}] = sliceTerms(s[:16])
			for i := range out {
				d[i] = out[i]
			}
			return nil
		}
		out := m.opaqueBytes("aesD", 16, enc+termsKey(sliceTerms(s[:16])))
		m.side[sideKey{"opaqueaesE", enc + termsKey(out)}] = sliceTerms(s[:16])
		for i := range out {
			d[i] = out[i]
		}
		return nil
	}
	panic(m.unsupported("aes." + name))
}

type ctrObj struct {
	key, iv []*term.Term
	pos     int
}

func (c *ctrObj) CallMethod(m *Machine, name string, args []Value) Value {
	if name != "XORKeyStream" {
		panic(m.unsupported("ctr." + name))
	}
	d, s := args[0].(Slice), args[1].(Slice)
	if len(d) < len(s) {
		m.userPanic("crypto/cipher: output smaller than input")
	}
	kb, ok1 := tb(c.key)
	ib, ok2 := tb(c.iv)
	for i := range s {
		var ks *term.Term
		blk := (c.pos) / 16
		if ok1 && ok2 {
			bc, _ := aes.NewCipher(kb)
			st := cipher.NewCTR(bc, ib)
			buf := make([]byte, c.pos+1)
			st.XORKeyStream(buf, buf)
			ks = term.K(8, uint64(buf[c.pos]))
		} else {
			k := fmt.Sprintf("%s/%s/%d", termsKey(c.key), termsKey(c.iv), blk)
			ks = m.opaqueBytes("ctr", 16, k)[c.pos%16]
		}
		d[i] = m.c.Xor(tm(s[i]), ks)
		c.pos++
	}
	return nil
}
