package interp

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gosym/term"
)

// RVal models a reflect.Value.
type RVal struct {
	t    types.Type
	v    Value
	addr *Value
}

func rkind(t types.Type) reflect.Kind {
	if t == nil {
		return reflect.Invalid
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func rv(m *Machine, v Value) *RVal {
	if r, ok := v.(*RVal); ok {
		return r
	}
	return &RVal{}
}

type rtype struct{ t types.Type }

func (r *rtype) CallMethod(m *Machine, name string, args []Value) Value {
	switch name {
	case "Kind":
		return term.K(64, uint64(rkind(r.t)))
	case "String", "Name":
		return Str{s: r.t.String()}
	case "Elem":
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			return Iface{t: hashT, v: &rtype{u.Elem()}}
		case *types.Slice:
			return Iface{t: hashT, v: &rtype{u.Elem()}}
		}
	}
	panic(m.unsupported("reflect.Type." + name))
}

func regReflect() {
	r := func(n string, f func(m *Machine, x *RVal, a []Value) Value) {
		reg("(reflect.Value)."+n, func(m *Machine, fn *ssa.Function, a []Value) Value { return f(m, rv(m, a[0]), a[1:]) })
	}
	reg("reflect.ValueOf", func(m *Machine, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return &RVal{}
		}
		return &RVal{t: i.t, v: i.v}
	})
	reg("reflect.TypeOf", func(m *Machine, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return Iface{t: hashT, v: &rtype{i.t}}
	})
	reg("reflect.Indirect", func(m *Machine, fn *ssa.Function, a []Value) Value {
		x := rv(m, a[0])
		if p, ok := x.v.(*Value); ok && rkind(x.t) == reflect.Ptr {
			if p == nil {
				return &RVal{}
			}
			return &RVal{t: x.t.Underlying().(*types.Pointer).Elem(), v: *p, addr: p}
		}
		return x
	})
	r("Kind", func(m *Machine, x *RVal, a []Value) Value { return term.K(64, uint64(rkind(x.t))) })
	r("IsValid", func(m *Machine, x *RVal, a []Value) Value { return term.Bool(x.t != nil) })
	r("Int", func(m *Machine, x *RVal, a []Value) Value { return m.c.SExt(tm(x.v), 64) })
	r("Uint", func(m *Machine, x *RVal, a []Value) Value { return m.c.ZExt(tm(x.v), 64) })
	r("Float", func(m *Machine, x *RVal, a []Value) Value {
		t := tm(x.v)
		if t.W == 32 {
			return m.c.FUn(term.FCvt, t, 64)
		}
		return t
	})
	r("Bool", func(m *Machine, x *RVal, a []Value) Value { return x.v })
	r("String", func(m *Machine, x *RVal, a []Value) Value {
		if s, ok := x.v.(Str); ok {
			return s
		}
		if x.t == nil {
			return Str{s: "<invalid Value>"}
		}
		return Str{s: "<" + x.t.String() + " Value>"}
	})
	r("Interface", func(m *Machine, x *RVal, a []Value) Value {
		if i, ok := x.v.(Iface); ok {
			return i
		}
		return Iface{t: x.t, v: copyVal(x.v)}
	})
	r("CanInterface", func(m *Machine, x *RVal, a []Value) Value { return term.True })
	r("IsNil", func(m *Machine, x *RVal, a []Value) Value {
		switch v := x.v.(type) {
		case *Value:
			return term.Bool(v == nil)
		case Slice:
			return term.Bool(v == nil)
		case *Map:
			return term.Bool(v == nil)
		case Iface:
			return term.Bool(v.t == nil)
		case *Chan:
			return term.Bool(v == nil)
		case *ssa.Function:
			return term.Bool(v == nil)
		case *Closure:
			return term.False
		}
		m.userPanic("reflect: call of reflect.Value.IsNil on " + x.t.String() + " Value")
		return nil
	})
	r("Elem", func(m *Machine, x *RVal, a []Value) Value {
		switch v := x.v.(type) {
		case *Value:
			if v == nil {
				return &RVal{}
			}
			return &RVal{t: x.t.Underlying().(*types.Pointer).Elem(), v: *v, addr: v}
		case Iface:
			if v.t == nil {
				return &RVal{}
			}
			return &RVal{t: v.t, v: v.v}
		}
		panic(m.unsupported("reflect Elem"))
	})
	r("Len", func(m *Machine, x *RVal, a []Value) Value {
		switch v := x.v.(type) {
		case Slice:
			return k64(len(v))
		case Array:
			return k64(len(v))
		case *Map:
			if v == nil {
				return k64(0)
			}
			return k64(v.n)
		case Str:
			return k64(v.Len())
		}
		panic(m.unsupported("reflect Len"))
	})
	relem := func(t types.Type) types.Type {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return u.Elem()
		case *types.Array:
			return u.Elem()
		case *types.Map:
			return u.Elem()
		}
		return nil
	}
	r("Index", func(m *Machine, x *RVal, a []Value) Value {
		i := int(m.concretize(tm(a[0]), 4096))
		switch v := x.v.(type) {
		case Slice:
			return &RVal{t: relem(x.t), v: v[i], addr: &v[i]}
		case Array:
			return &RVal{t: relem(x.t), v: v[i]}
		}
		panic(m.unsupported("reflect Index"))
	})
	r("MapKeys", func(m *Machine, x *RVal, a []Value) Value {
		out := Slice{}
		if mp, ok := x.v.(*Map); ok && mp != nil {
			var order []int
			for i := range mp.keys {
				if mp.live[i] {
					order = append(order, i)
				}
			}
			if m.permuteMaps && len(order) > 1 {
				order = m.permute(order)
			}
			kt := x.t.Underlying().(*types.Map).Key()
			for _, i := range order {
				out = append(out, &RVal{t: kt, v: mp.keys[i]})
			}
		}
		return out
	})
	r("MapIndex", func(m *Machine, x *RVal, a []Value) Value {
		mp := x.v.(*Map)
		i := m.mapFind(mp, rv(m, a[0]).v)
		if i < 0 {
			return &RVal{}
		}
		return &RVal{t: relem(x.t), v: mp.vals[i]}
	})
	r("MapRange", func(m *Machine, x *RVal, a []Value) Value {
		mp, _ := x.v.(*Map)
		it := &mapIter{t: x.t.Underlying().(*types.Map), m: mp, pos: -1}
		if mp != nil {
			for i := range mp.keys {
				if mp.live[i] {
					it.order = append(it.order, i)
				}
			}
			if m.permuteMaps && len(it.order) > 1 {
				it.order = m.permute(it.order)
			}
		}
		cell := new(Value)
		*cell = it
		return cell
	})
	mi := func(v Value) *mapIter { return (*v.(*Value)).(*mapIter) }
	reg("(*reflect.MapIter).Next", func(m *Machine, fn *ssa.Function, a []Value) Value {
		it := mi(a[0])
		it.pos++
		return term.Bool(it.pos < len(it.order))
	})
	reg("(*reflect.MapIter).Key", func(m *Machine, fn *ssa.Function, a []Value) Value {
		it := mi(a[0])
		return &RVal{t: it.t.Key(), v: it.m.keys[it.order[it.pos]]}
	})
	reg("(*reflect.MapIter).Value", func(m *Machine, fn *ssa.Function, a []Value) Value {
		it := mi(a[0])
		return &RVal{t: it.t.Elem(), v: it.m.vals[it.order[it.pos]]}
	})
	r("NumField", func(m *Machine, x *RVal, a []Value) Value {
		return k64(x.t.Underlying().(*types.Struct).NumFields())
	})
	r("Field", func(m *Machine, x *RVal, a []Value) Value {
		i := int(m.concretize(tm(a[0]), 64))
		return &RVal{t: x.t.Underlying().(*types.Struct).Field(i).Type(), v: x.v.(Struct)[i]}
	})
	r("Type", func(m *Machine, x *RVal, a []Value) Value { return Iface{t: hashT, v: &rtype{x.t}} })
}

func tagGet(tag, key string) string { return reflect.StructTag(tag).Get(key) }

func (m *Machine) structsMap(x Iface) Value {
	t := x.t
	v := x.v
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		v = *m.derefPtr(v)
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		m.userPanic("not struct")
	}
	mp := newMap()
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		name := f.Name()
		tag := tagGet(st.Tag(i), "structs")
		omit := false
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		if parts[0] != "" {
			name = parts[0]
		}
		for _, o := range parts[1:] {
			if o == "omitempty" {
				omit = true
			}
		}
		fv := v.(Struct)[i]
		if omit && m.isZero(fv) {
			continue
		}
		ft := f.Type()
		var val Value
		switch u := ft.Underlying().(type) {
		case *types.Struct:
			val = Iface{t: types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil)), v: m.structsMap(Iface{t: ft, v: fv})}
		case *types.Interface:
			val = fv
		default:
			_ = u
			val = Iface{t: ft, v: copyVal(fv)}
		}
		m.mapSet(mp, Str{s: name}, val)
	}
	return mp
}

func (m *Machine) isZero(v Value) bool {
	switch v := v.(type) {
	case *term.Term:
		return m.branch(m.c.Eq(v, term.K(v.W, 0)))
	case Str:
		return v.Len() == 0
	case Slice:
		return v == nil
	case *Map:
		return v == nil
	case Iface:
		return v.t == nil
	case *Value:
		return v == nil
	}
	return false
}

func (m *Machine) msDecode(in, out Iface) Value {
	if in.t == nil {
		return Iface{}
	}
	p, ok := out.t.Underlying().(*types.Pointer)
	if !ok {
		return m.mkErr("result must be a pointer")
	}
	return m.msDec(in, p.Elem(), out.v.(*Value))
}

func (m *Machine) msErr(s string) Value { return m.mkErr(s) }

func (m *Machine) msDec(in Iface, t types.Type, cell *Value) Value {
	if in.t == nil {
		return Iface{}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if types.Identical(in.t, t) {
			storeVal(cell, in.v)
			return Iface{}
		}
		mt, ok := in.t.Underlying().(*types.Map)
		if !ok {
			return m.msErr("expected a map, got " + in.t.String())
		}
		kk := rkind(mt.Key())
		if kk != reflect.String && kk != reflect.Interface {
			return m.msErr("needs a map with string keys")
		}
		mp := in.v.(*Map)
		st := (*cell).(Struct)
		var firstErr Value = Iface{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			name := f.Name()
			if tg := strings.SplitN(tagGet(u.Tag(i), "mapstructure"), ",", 2)[0]; tg != "" {
				name = tg
			}
			j := -1
			if mp != nil {
				j = m.mapFind(mp, Str{s: name})
				if j < 0 {
					for q := range mp.keys {
						if !mp.live[q] {
							continue
						}
						ks, ok := mp.keys[q].(Str)
						if !ok || ks.Len() != len(name) {
							continue
						}
						if ks.b == nil {
							if strings.EqualFold(ks.s, name) {
								j = q
								break
							}
							continue
						}
						// symbolic key: ASCII case-fold comparison
						c := m.c
						eq := term.True
						for b := 0; b < len(name); b++ {
							ch := name[b]
							lo, up := strings.ToLower(string(ch))[0], strings.ToUpper(string(ch))[0]
							eq = c.And1(eq, c.Or1(c.Eq(ks.At(b), term.K(8, uint64(lo))), c.Eq(ks.At(b), term.K(8, uint64(up)))))
						}
						if m.branch(eq) {
							j = q
							break
						}
					}
				}
			}
			if j < 0 || !f.Exported() {
				continue
			}
			v := mp.vals[j]
			iv, ok := v.(Iface)
			if !ok {
				iv = Iface{t: mt.Elem(), v: v}
			}
			if e := m.msDec(iv, f.Type(), &st[i]); e.(Iface).t != nil && firstErr.(Iface).t == nil {
				firstErr = e
			}
		}
		return firstErr
	case *types.Basic:
		ik := rkind(in.t)
		num := func() bool {
			return ik >= reflect.Int && ik <= reflect.Int64 || ik >= reflect.Uint && ik <= reflect.Uint64 || ik == reflect.Float32 || ik == reflect.Float64
		}
		switch {
		case u.Info()&types.IsString != 0:
			if ik != reflect.String {
				return m.msErr("expected type string, got " + in.t.String())
			}
			storeVal(cell, in.v)
			return Iface{}
		case u.Info()&types.IsBoolean != 0:
			if ik != reflect.Bool {
				return m.msErr("expected type bool")
			}
			storeVal(cell, in.v)
			return Iface{}
		case u.Info()&(types.IsInteger|types.IsFloat) != 0:
			if !num() {
				return m.msErr("expected number, got " + in.t.String())
			}
			storeVal(cell, m.convert(in.t, t, in.v))
			return Iface{}
		}
	case *types.Interface:
		if u.NumMethods() == 0 {
			storeVal(cell, in)
			return Iface{}
		}
	}
	if types.Identical(in.t, t) {
		storeVal(cell, in.v)
		return Iface{}
	}
	panic(m.unsupported("mapstructure " + in.t.String() + " -> " + t.String()))
}

type mapIter struct {
	t     *types.Map
	m     *Map
	order []int
	pos   int
}
