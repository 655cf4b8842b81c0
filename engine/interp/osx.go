package interp

import (
	"go/types"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gosym/term"
)

func (m *Machine) file(v Value) *openFile {
	if p, ok := v.(*Value); ok && p != nil {
		if f, ok := m.side[sideKey{"file", p}].(*openFile); ok {
			return f
		}
	}
	return nil
}

func (m *Machine) pathErr(op, p string) Value {
	// *fs.PathError wrapping ErrNotExist
	pt := m.eng.pkgType("io/fs", "PathError")
	en := m.global("io/fs", "ErrNotExist")
	if e, ok := en.(Iface); !ok || e.t == nil {
		en = m.mkErr("file does not exist")
		m.side["errnotexist"] = en
	}
	if pt == nil {
		return en
	}
	cell := new(Value)
	*cell = Struct{Str{s: op}, Str{s: p}, en}
	return Iface{t: types.NewPointer(pt), v: cell}
}

func (m *Machine) newFile(name string, f *memFile) Value {
	cell := new(Value)
	*cell = Struct{}
	m.side[sideKey{"file", cell}] = &openFile{f: f, name: name}
	return cell
}

func regOS() {
	create := func(m *Machine, name string) Value {
		p := clean(name)
		m.trace = append(m.trace, "create "+p)
		if !m.fs.dirs[path.Dir(p)] {
			return Tuple{(*Value)(nil), m.pathErr("open", name)}
		}
		f := &memFile{name: p}
		m.fs.files[p] = f
		return Tuple{m.newFile(name, f), Iface{}}
	}
	reg("os.Create", func(m *Machine, fn *ssa.Function, a []Value) Value { return create(m, m.concStr(a[0])) })
	reg("os.Open", func(m *Machine, fn *ssa.Function, a []Value) Value {
		n := m.concStr(a[0])
		f := m.fs.files[clean(n)]
		if f == nil {
			return Tuple{(*Value)(nil), m.pathErr("open", n)}
		}
		return Tuple{m.newFile(n, f), Iface{}}
	})
	reg("os.OpenFile", func(m *Machine, fn *ssa.Function, a []Value) Value {
		n := m.concStr(a[0])
		flag := int(m.concretize(tm(a[1]), 4))
		f := m.fs.files[clean(n)]
		if f == nil {
			if flag&0x40 == 0 {
				return Tuple{(*Value)(nil), m.pathErr("open", n)}
			}
			return create(m, n)
		}
		if flag&0x200 != 0 {
			f.data = nil
		}
		h := m.newFile(n, f)
		if flag&0x400 != 0 {
			m.file(h).pos = len(f.data)
		}
		return Tuple{h, Iface{}}
	})
	write := func(m *Machine, f *openFile, b []Value) Value {
		if f == nil || f.closed {
			return Tuple{k64(0), m.mkErr("file already closed")}
		}
		f.f.data = append(f.f.data[:f.pos:f.pos], b...)
		f.pos += len(b)
		return Tuple{k64(len(b)), Iface{}}
	}
	reg("(*os.File).Write", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return write(m, m.file(a[0]), a[1].(Slice))
	})
	reg("(*os.File).WriteString", func(m *Machine, fn *ssa.Function, a []Value) Value {
		s := a[1].(Str)
		b := make(Slice, s.Len())
		for i := range b {
			b[i] = s.At(i)
		}
		return write(m, m.file(a[0]), b)
	})
	reg("(*os.File).Read", func(m *Machine, fn *ssa.Function, a []Value) Value {
		f := m.file(a[0])
		if f == nil || f.closed {
			return Tuple{k64(0), m.mkErr("file already closed")}
		}
		if f.pos >= len(f.f.data) {
			return Tuple{k64(0), m.global("io", "EOF")}
		}
		n := copy(a[1].(Slice), f.f.data[f.pos:])
		f.pos += n
		return Tuple{k64(n), Iface{}}
	})
	reg("(*os.File).Close", func(m *Machine, fn *ssa.Function, a []Value) Value {
		f := m.file(a[0])
		if f == nil || f.closed {
			return m.mkErr("file already closed")
		}
		f.closed = true
		return Iface{}
	})
	reg("(*os.File).Sync", constRet(Iface{}))
	reg("(*os.File).Name", func(m *Machine, fn *ssa.Function, a []Value) Value {
		if f := m.file(a[0]); f != nil {
			return Str{s: f.name}
		}
		m.rtPanic("invalid memory address or nil pointer dereference")
		return nil
	})
	reg("os.WriteFile", func(m *Machine, fn *ssa.Function, a []Value) Value {
		n := m.concStr(a[0])
		p := clean(n)
		m.trace = append(m.trace, "writefile "+p)
		if !m.fs.dirs[path.Dir(p)] {
			return m.pathErr("open", n)
		}
		m.fs.files[p] = &memFile{name: p, data: append([]Value{}, a[1].(Slice)...)}
		return Iface{}
	})
	reg("os.ReadFile", func(m *Machine, fn *ssa.Function, a []Value) Value {
		n := m.concStr(a[0])
		f := m.fs.files[clean(n)]
		if f == nil {
			return Tuple{Slice(nil), m.pathErr("open", n)}
		}
		return Tuple{append(Slice{}, f.data...), Iface{}}
	})
	reg("os.Remove", func(m *Machine, fn *ssa.Function, a []Value) Value {
		n := m.concStr(a[0])
		p := clean(n)
		m.trace = append(m.trace, "remove "+p)
		if m.fs.files[p] != nil {
			delete(m.fs.files, p)
			return Iface{}
		}
		if m.fs.dirs[p] {
			delete(m.fs.dirs, p)
			return Iface{}
		}
		return m.pathErr("remove", n)
	})
	reg("os.RemoveAll", func(m *Machine, fn *ssa.Function, a []Value) Value {
		p := clean(m.concStr(a[0]))
		for n := range m.fs.files {
			if n == p || strings.HasPrefix(n, p+"/") {
				delete(m.fs.files, n)
			}
		}
		for n := range m.fs.dirs {
			if n == p || strings.HasPrefix(n, p+"/") {
				delete(m.fs.dirs, n)
			}
		}
		return Iface{}
	})
	reg("os.Rename", func(m *Machine, fn *ssa.Function, a []Value) Value {
		o, n := clean(m.concStr(a[0])), clean(m.concStr(a[1]))
		m.trace = append(m.trace, "rename "+o+" "+n)
		f := m.fs.files[o]
		if f == nil || !m.fs.dirs[path.Dir(n)] {
			return m.pathErr("rename", o)
		}
		delete(m.fs.files, o)
		m.fs.files[n] = f
		f.name = n
		return Iface{}
	})
	mk := func(m *Machine, fn *ssa.Function, a []Value) Value {
		for p := clean(m.concStr(a[0])); ; p = path.Dir(p) {
			if m.fs.files[p] != nil {
				return m.mkErr("mkdir " + p + ": not a directory")
			}
			if p == path.Dir(p) {
				break
			}
		}
		m.fs.mkdirAll(m.concStr(a[0]))
		return Iface{}
	}
	reg("os.MkdirAll", mk)
	reg("os.Mkdir", mk)
	reg("os.IsNotExist", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return intr["errors.Is"](m, fn, []Value{a[0], m.global("io/fs", "ErrNotExist")})
	})
	reg("os.Stat", func(m *Machine, fn *ssa.Function, a []Value) Value {
		n := m.concStr(a[0])
		p := clean(n)
		if f := m.fs.files[p]; f != nil {
			return Tuple{Iface{t: hashT, v: &finfo{p, len(f.data), false}}, Iface{}}
		}
		if m.fs.dirs[p] {
			return Tuple{Iface{t: hashT, v: &finfo{p, 0, true}}, Iface{}}
		}
		return Tuple{Iface{}, m.pathErr("stat", n)}
	})
	reg("os.Lstat", intr["os.Stat"])
	reg("os.ReadDir", func(m *Machine, fn *ssa.Function, a []Value) Value {
		d := clean(m.concStr(a[0]))
		out := Slice{}
		for _, n := range m.fs.names(d) {
			p := path.Join(d, n)
			fi := &finfo{p, 0, m.fs.dirs[p]}
			if f := m.fs.files[p]; f != nil {
				fi.size = len(f.data)
			}
			out = append(out, Iface{t: hashT, v: fi})
		}
		return Tuple{out, Iface{}}
	})
	reg("os.TempDir", constRet(Str{s: "/tmp"}))
	reg("os.Getwd", constRet(Tuple{Str{s: "/cwd"}, Iface{}}))
	// harness view of the recorded effects
	reg(ndPkg+".Tree", func(m *Machine, fn *ssa.Function, a []Value) Value {
		d := clean(m.concStr(a[0]))
		var l []string
		for n := range m.fs.files {
			if strings.HasPrefix(n, d+"/") {
				l = append(l, n[len(d)+1:])
			}
		}
		sort.Strings(l)
		return strList(l)
	})
	reg(ndPkg+".ListFiles", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return strList(m.fs.names(m.concStr(a[0])))
	})
}

type finfo struct {
	p    string
	size int
	dir  bool
}

func (f *finfo) CallMethod(m *Machine, name string, args []Value) Value {
	switch name {
	case "Name":
		return Str{s: path.Base(f.p)}
	case "Size":
		return k64(f.size)
	case "IsDir":
		return term.Bool(f.dir)
	case "Mode":
		return term.K(32, 0644)
	}
	panic(m.unsupported("FileInfo." + name))
}
