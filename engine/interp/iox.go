package interp

import (
	"gosym/term"

	"golang.org/x/tools/go/ssa"
)

// readerAvail tells how many bytes a reader is certain to still hold, when
// it is a plain in-memory reader (or a thin wrapper around one) whose Read
// hands out min(len(p), available) bytes.
func (m *Machine) readerAvail(v Value) (int, bool) {
	for d := 0; d < 4; d++ {
		it, ok := v.(Iface)
		if !ok || it.t == nil {
			return 0, false
		}
		p, ok := it.v.(*Value)
		if !ok || p == nil {
			return 0, false
		}
		st, ok := (*p).(Struct)
		if !ok {
			return 0, false
		}
		cst := func(i int) (int, bool) {
			t, ok := st[i].(*term.Term)
			if !ok || t.Op != term.Const {
				return 0, false
			}
			return int(int64(t.V)), true
		}
		switch it.t.String() {
		case "*bytes.Reader":
			i, ok := cst(1)
			return len(st[0].(Slice)) - i, ok
		case "*strings.Reader":
			i, ok := cst(1)
			return st[0].(Str).Len() - i, ok
		case "*bytes.Buffer":
			i, ok := cst(1)
			return len(st[0].(Slice)) - i, ok
		case "*github.com/SmartBrave/Athena/easyio.easyReader":
			v = st[0]
		default:
			return 0, false
		}
	}
	return 0, false
}

func init() {
	// io.LimitedReader.Read with a symbolic limit: executed as written except
	// that a limit beyond what an in-memory reader still holds is kept
	// symbolic instead of being enumerated.
	reg("(*io.LimitedReader).Read", func(m *Machine, fn *ssa.Function, a []Value) Value {
		lp, ok := a[0].(*Value)
		if !ok || lp == nil {
			return m.interp(fn, a)
		}
		st := (*lp).(Struct)
		n, ok := st[1].(*term.Term)
		p := a[1].(Slice)
		avail, known := m.readerAvail(st[0])
		if !ok || n.Op == term.Const || !known || avail >= len(p) {
			return m.interp(fn, a)
		}
		if m.branch(m.c.SLe(n, term.K(64, uint64(avail)))) {
			return m.interp(fn, a)
		}
		// n > avail and len(p) > avail: however p is clipped, avail bytes arrive
		r := m.invoke(st[0], "Read", p).(Tuple)
		got := r[0].(*term.Term)
		st[1] = m.c.Sub(n, got)
		return Tuple{got, r[1]}
	})
}

func init() {
	// easyio's ReadN(n) with symbolic n over an in-memory reader: as written
	// for every n the reader can satisfy; all larger n fail alike, and are
	// kept as one path on which the returned buffer has one byte more than
	// was available.
	reg("(*github.com/SmartBrave/Athena/easyio.easyReader).ReadN", func(m *Machine, fn *ssa.Function, a []Value) Value {
		n, ok := a[1].(*term.Term)
		if !ok || n.Op == term.Const {
			return m.interp(fn, a)
		}
		avail, known := m.readerAvail(Iface{t: fn.Signature.Recv().Type(), v: a[0]})
		if !known {
			return m.interp(fn, a)
		}
		if m.branch(m.c.ULe(n, term.K(n.W, uint64(avail)))) {
			return m.interp(fn, a)
		}
		if m.allocBound > 0 && m.inInit == 0 {
			if m.branch(m.c.ULt(term.K(n.W, uint64(m.allocBound)), n)) {
				if m.ensureModel() {
					m.addViol("assert", "memory use is bounded by the input", m.where())
				}
				panic(pathEnd{"violation", ""})
			}
		}
		return m.interp(fn, []Value{a[0], term.K(n.W, uint64(avail+1))})
	})
}
