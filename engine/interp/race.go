package interp

import (
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Happens-before race detection (vector clocks), on for harnesses with the
// race option. Only accesses made by repository code, directly or through the
// standard library, are looked at; a candidate is reported only when the
// native race detector sees it too.

type raceAcc struct {
	g      int
	clk    uint32
	in     *frame
	pos    ssa.Instruction
	atomic bool
	write  bool
}

type raceState struct {
	cells map[interface{}][]raceAcc
	objs  map[interface{}][]uint32
	seen  map[string]bool
}

var raceAll = os.Getenv("GOSYM_RACE") != ""

func (m *Machine) raceOn() {
	if m.race == nil {
		m.race = &raceState{cells: map[interface{}][]raceAcc{}, objs: map[interface{}][]uint32{}, seen: map[string]bool{}}
	}
}

func joinVC(d *[]uint32, s []uint32) {
	for len(*d) < len(s) {
		*d = append(*d, 0)
	}
	for i, c := range s {
		if c > (*d)[i] {
			(*d)[i] = c
		}
	}
}

func (g *G) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

// raceSpawn orders what the current goroutine did before what g does.
func (m *Machine) raceSpawn(g *G) {
	if m.race == nil {
		return
	}
	if m.g != nil {
		joinVC(&g.vc, m.g.vc)
		m.g.tick()
	}
	g.tick()
}

type raceKey struct {
	kind string
	p    interface{}
}

func (m *Machine) raceRelease(k interface{}) {
	if m.race == nil {
		return
	}
	vc := m.race.objs[k]
	joinVC(&vc, m.g.vc)
	m.race.objs[k] = vc
	m.g.tick()
}

func (m *Machine) raceAcquire(k interface{}) {
	if m.race == nil {
		return
	}
	joinVC(&m.g.vc, m.race.objs[k])
}

func (m *Machine) raceSync(k interface{}) {
	if m.race == nil {
		return
	}
	m.raceAcquire(k)
	m.raceRelease(k)
}

// raceAll lets the current goroutine know of everything done so far.
func (m *Machine) raceBarrier() {
	if m.race == nil {
		return
	}
	for _, g := range m.gs {
		joinVC(&m.g.vc, g.vc)
		if g != m.g {
			g.tick()
		}
	}
}

// raceFrame finds the repository function on whose behalf the current
// instruction runs: the first one below the standard library.
func (m *Machine) raceFrame() *frame {
	for fr := m.g.top; fr != nil; fr = fr.caller {
		switch m.eng.raceClass(fr.fi) {
		case 2:
			return fr
		case 3:
			return nil
		}
	}
	return nil
}

// raceClass: 1 standard library, 2 repository, 3 anything else.
func (e *Engine) raceClass(fi *fnInfo) int8 {
	if fi.race != 0 {
		return fi.race
	}
	c := int8(3)
	fn := fi.fn
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	path := ""
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if ob := fn.Object(); ob != nil && ob.Pkg() != nil {
		path = ob.Pkg().Path()
	}
	switch {
	case path == "" || path == ndPkg:
	case strings.HasPrefix(path, e.RepoMod+"/"):
		f := filepath.Base(e.Fset.Position(fn.Pos()).Filename)
		if !strings.HasPrefix(f, "zz_verif_") {
			c = 2
		}
	case !strings.Contains(strings.SplitN(path, "/", 2)[0], "."):
		c = 1
	}
	fi.race = c
	return c
}

func (m *Machine) raceCell(p Value, write bool) {
	if m.race == nil || m.inInit > 0 || len(m.gs) < 2 {
		return
	}
	fr := m.raceFrame()
	if fr == nil {
		return
	}
	switch p := p.(type) {
	case *Value:
		if p != nil {
			m.raceTree(fr, p, write, 0)
		}
	case SymPtr:
		for i := range p.arr {
			if i < 64 {
				m.raceTree(fr, &p.arr[i], write, 0)
			}
		}
	}
}

func (m *Machine) raceTree(fr *frame, p *Value, write bool, depth int) {
	m.raceAccess(fr, p, write, false)
	if depth > 3 {
		return
	}
	switch x := (*p).(type) {
	case Struct:
		for i := range x {
			m.raceTree(fr, &x[i], write, depth+1)
		}
	case Array:
		for i := range x {
			if i < 64 {
				m.raceTree(fr, &x[i], write, depth+1)
			}
		}
	}
}

func (m *Machine) raceSlice(s []Value, write bool) {
	if m.race == nil || m.inInit > 0 || len(m.gs) < 2 {
		return
	}
	fr := m.raceFrame()
	if fr == nil {
		return
	}
	for i := range s {
		if i < 64 {
			m.raceAccess(fr, &s[i], write, false)
		}
	}
}

func (m *Machine) raceMap(mp *Map, write bool) {
	if m.race == nil || m.inInit > 0 || len(m.gs) < 2 || mp == nil {
		return
	}
	if fr := m.raceFrame(); fr != nil {
		m.raceAccess(fr, mp, write, false)
	}
}

func (m *Machine) raceAtomic(p Value, write bool) {
	if m.race == nil {
		return
	}
	if fr := m.raceFrame(); fr != nil && len(m.gs) > 1 && m.inInit == 0 {
		m.raceAccess(fr, p, write, true)
	}
	m.raceAcquire(raceKey{"atomic", p})
	if write {
		m.raceRelease(raceKey{"atomic", p})
	}
}

func (m *Machine) raceAccess(fr *frame, k interface{}, write, atomic bool) {
	g := m.g
	if len(g.vc) <= g.id {
		g.tick()
	}
	accs := m.race.cells[k]
	out := accs[:0]
	for _, a := range accs {
		if a.g == g.id {
			if a.write && !write || a.write == write && a.atomic != atomic {
				out = append(out, a) // a write stays the stronger access
			}
			continue
		}
		ordered := len(g.vc) > a.g && a.clk <= g.vc[a.g]
		if !ordered && (write || a.write) && !(atomic && a.atomic) {
			m.raceFound(a, fr, write, atomic)
		}
		if ordered && write {
			continue
		}
		out = append(out, a)
	}
	m.race.cells[k] = append(out, raceAcc{g: g.id, clk: g.vc[g.id], pos: fr.cur, write: write, atomic: atomic, in: fr})
}

func rw(w, atomic bool) string {
	s := "read"
	if w {
		s = "write"
	}
	if atomic {
		s = "atomic " + s
	}
	return s
}

func (m *Machine) racePos(fr *frame, in ssa.Instruction) string {
	p := fr.fi.fn.Pos()
	if in != nil && in.Pos().IsValid() {
		p = in.Pos()
	}
	return m.eng.PosStr(p)
}

func (m *Machine) raceFound(a raceAcc, fr *frame, write, atomic bool) {
	one := rw(a.write, a.atomic) + " in " + a.in.fi.fn.Name() + "@" + m.racePos(a.in, a.pos)
	two := rw(write, atomic) + " in " + fr.fi.fn.Name() + "@" + m.racePos(fr, fr.cur)
	label := "data race: " + one + " and " + two
	if m.race.seen[label] {
		return
	}
	m.race.seen[label] = true
	if m.ensureModel() {
		m.addViol("race", label, m.where())
	}
}

var _ = types.Typ
