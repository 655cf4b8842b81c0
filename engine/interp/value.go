package interp

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gosym/term"
)

// Value is one of: *term.Term (ints, bools, floats), Complex, Str, Struct,
// Array, Slice, *Value (pointer), SymPtr, *Map, *Chan, Iface, Tuple,
// *ssa.Function, *Closure, *ssa.Builtin, *NativeFn, NativeObj holders.
type Value interface{}

type (
	Struct []Value
	Array  []Value
	Tuple  []Value
	Slice  []Value
)

// Str is a string whose length is concrete; b==nil means fully concrete.
type Str struct {
	s string
	b []*term.Term
}

// SymPtr points at arr[idx] for a symbolic in-range idx.
type SymPtr struct {
	arr []Value
	idx *term.Term
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

type NativeFn struct {
	name string
	f    func(m *Machine, args []Value) Value
}

// NativeObj is an engine-implemented object behind an interface.
type NativeObj interface {
	CallMethod(m *Machine, name string, args []Value) Value
}

type nativeType struct{ name string }

func (n *nativeType) Underlying() types.Type { return n }
func (n *nativeType) String() string         { return n.name }

type Map struct {
	keys, vals []Value
	live       []bool
	idx        map[string]int
	sym        bool
	n          int
}

type iter struct {
	m     *Map
	order []int
	pos   int
	s     Str
	isStr bool
}

func (s Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (s Str) At(i int) *term.Term {
	if s.b != nil {
		return s.b[i]
	}
	return term.K(8, uint64(s.s[i]))
}

func (s Str) Sub(i, j int) Str {
	if s.b != nil {
		return mkStr(s.b[i:j])
	}
	return Str{s: s.s[i:j]}
}

func (s Str) Terms() []*term.Term {
	if s.b != nil {
		return s.b
	}
	r := make([]*term.Term, len(s.s))
	for i := range r {
		r[i] = term.K(8, uint64(s.s[i]))
	}
	return r
}

func mkStr(b []*term.Term) Str {
	for _, t := range b {
		if t.Op != term.Const {
			return Str{b: b}
		}
	}
	x := make([]byte, len(b))
	for i, t := range b {
		x[i] = byte(t.V)
	}
	return Str{s: string(x)}
}

func concatStr(a, b Str) Str {
	if a.b == nil && b.b == nil {
		return Str{s: a.s + b.s}
	}
	return mkStr(append(append([]*term.Term{}, a.Terms()...), b.Terms()...))
}

func strConst(s string) Str { return Str{s: s} }

func bytesVal(b []byte) Slice {
	r := make(Slice, len(b))
	for i := range b {
		r[i] = term.K(8, uint64(b[i]))
	}
	return r
}

func sliceTerms(s []Value) []*term.Term {
	r := make([]*term.Term, len(s))
	for i, v := range s {
		r[i] = v.(*term.Term)
	}
	return r
}

func concreteBytes(s []Value) ([]byte, bool) {
	r := make([]byte, len(s))
	for i, v := range s {
		t := v.(*term.Term)
		if t.Op != term.Const {
			return nil, false
		}
		r[i] = byte(t.V)
	}
	return r, true
}

func intWidth(b *types.Basic) (w uint8, signed bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Float64, types.UntypedFloat:
		return 64, true
	case types.Float32:
		return 32, true
	case types.Bool, types.UntypedBool:
		return 0, false
	}
	return 0, false
}

func zero(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		if t.Info()&types.IsString != 0 {
			return Str{}
		}
		if t.Kind() == types.UnsafePointer {
			return (*Value)(nil)
		}
		if t.Kind() == types.UntypedNil {
			return Iface{}
		}
		w, _ := intWidth(t)
		if w == 0 {
			return term.False
		}
		return term.K(w, 0)
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Array:
		n := int(t.Len())
		a := make(Array, n)
		if n > 0 {
			z := zero(t.Elem())
			if _, ok := z.(*term.Term); ok {
				for i := range a {
					a[i] = z
				}
			} else {
				a[0] = z
				for i := 1; i < n; i++ {
					a[i] = zero(t.Elem())
				}
			}
		}
		return a
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	}
	panic(fmt.Sprintf("zero: %T %v", t, t))
}

// copyVal returns a copy of aggregate values (structs/arrays).
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	case Array:
		r := make(Array, len(v))
		if len(v) > 0 {
			if _, ok := v[0].(*term.Term); ok {
				copy(r, v)
				return r
			}
		}
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	}
	return v
}

// storeVal stores v into cell, preserving identity of nested cells.
func storeVal(cell *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*cell).(Struct); ok && len(d) == len(v) {
			for i := range v {
				storeVal(&d[i], v[i])
			}
			return
		}
		*cell = copyVal(v)
	case Array:
		if d, ok := (*cell).(Array); ok && len(d) == len(v) {
			for i := range v {
				storeVal(&d[i], v[i])
			}
			return
		}
		*cell = copyVal(v)
	default:
		*cell = v
	}
}

// hashKey returns a canonical key for concrete values.
func hashKey(v Value) (string, bool) {
	switch v := v.(type) {
	case *term.Term:
		if v.Op != term.Const {
			return "", false
		}
		return fmt.Sprintf("i%d:%d", v.W, v.V), true
	case Str:
		if v.b != nil {
			return "", false
		}
		return "s" + v.s, true
	case *Value:
		return fmt.Sprintf("p%p", v), true
	case *Chan:
		return fmt.Sprintf("c%p", v), true
	case Iface:
		if v.t == nil {
			return "nil", true
		}
		k, ok := hashKey(v.v)
		return "I" + v.t.String() + "|" + k, ok
	case Struct:
		return hashList("S", v)
	case Array:
		return hashList("A", v)
	case NativeObj:
		return fmt.Sprintf("n%p", v), true
	}
	return fmt.Sprintf("x%T", v), false
}

func hashList(p string, l []Value) (string, bool) {
	var b strings.Builder
	b.WriteString(p)
	for _, x := range l {
		k, ok := hashKey(x)
		if !ok {
			return "", false
		}
		fmt.Fprintf(&b, "%d#%s", len(k), k)
	}
	return b.String(), true
}

// equals returns the boolean term x == y.
func (m *Machine) equals(x, y Value) *term.Term {
	c := m.c
	switch x := x.(type) {
	case *term.Term:
		return c.Eq(x, y.(*term.Term))
	case Str:
		ys := y.(Str)
		if x.Len() != ys.Len() {
			return term.False
		}
		if x.b == nil && ys.b == nil {
			return term.Bool(x.s == ys.s)
		}
		r := term.True
		for i := 0; i < x.Len(); i++ {
			r = c.And1(r, c.Eq(x.At(i), ys.At(i)))
		}
		return r
	case *Value:
		yp, ok := y.(*Value)
		if !ok {
			return term.False
		}
		return term.Bool(x == yp)
	case SymPtr:
		return term.False
	case *Map:
		return term.Bool(x == y.(*Map))
	case *Chan:
		return term.Bool(x == y.(*Chan))
	case Slice:
		ys := y.(Slice)
		if x == nil || ys == nil {
			return term.Bool(x == nil && ys == nil)
		}
		return term.False
	case Struct:
		r := term.True
		for i := range x {
			r = c.And1(r, m.equals(x[i], y.(Struct)[i]))
		}
		return r
	case Array:
		r := term.True
		for i := range x {
			r = c.And1(r, m.equals(x[i], y.(Array)[i]))
		}
		return r
	case Iface:
		yi := y.(Iface)
		if x.t == nil || yi.t == nil {
			return term.Bool(x.t == nil && yi.t == nil)
		}
		if x.t != yi.t && !types.Identical(x.t, yi.t) {
			return term.False
		}
		switch x.v.(type) {
		case Slice, *Map:
			m.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return m.equals(x.v, yi.v)
	case *ssa.Function:
		yf, ok := y.(*ssa.Function)
		return term.Bool(ok && x == yf)
	case *Closure:
		yf, ok := y.(*Closure)
		return term.Bool(ok && x == yf)
	case NativeObj:
		return term.Bool(x == y)
	case *NativeFn:
		return term.Bool(x == y)
	case *ssa.Builtin:
		return term.False
	}
	panic(m.unsupported(fmt.Sprintf("equals %T", x)))
}

// ---- maps ----

func newMap() *Map { return &Map{idx: map[string]int{}} }

func (m *Machine) mapFind(mp *Map, k Value) int {
	if mp == nil {
		return -1
	}
	if i, ok := k.(Iface); ok && i.t != nil {
		switch i.v.(type) {
		case Slice, *Map:
			m.rtPanic("hash of unhashable type " + i.t.String())
		}
	}
	h, conc := hashKey(k)
	if conc {
		if i, ok := mp.idx[h]; ok && mp.live[i] {
			return i
		}
		if !mp.sym {
			return -1
		}
	}
	for i := range mp.keys {
		if !mp.live[i] {
			continue
		}
		if conc {
			if _, c := hashKey(mp.keys[i]); c {
				continue
			}
		}
		if m.branch(m.equals(k, mp.keys[i])) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapSet(mp *Map, k, v Value) {
	if i := m.mapFind(mp, k); i >= 0 {
		mp.vals[i] = copyVal(v)
		return
	}
	h, conc := hashKey(k)
	if conc {
		mp.idx[h] = len(mp.keys)
	} else {
		mp.sym = true
	}
	mp.keys = append(mp.keys, copyVal(k))
	mp.vals = append(mp.vals, copyVal(v))
	mp.live = append(mp.live, true)
	mp.n++
}

func (m *Machine) mapDelete(mp *Map, k Value) {
	if i := m.mapFind(mp, k); i >= 0 {
		mp.live[i] = false
		if h, c := hashKey(mp.keys[i]); c {
			delete(mp.idx, h)
		}
		mp.n--
	}
}
