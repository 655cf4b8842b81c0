package interp

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"

	"gosym/solver"
	"gosym/term"
)

// Decision is one recorded choice on a path.
type Decision struct {
	Val    uint64
	Forced bool
}

// Item is a unit of exploration: a decision prefix plus a model for it.
type Item struct {
	Prefix []Decision
	Model  map[string]uint64 // by var name; nil = unknown
}

// NDVal is a nondeterministic value drawn on a path.
type NDVal struct {
	Label string
	W     uint8
	T     []*term.Term // one per scalar / byte
	Bytes bool
}

// Violation is a candidate counterexample.
type Violation struct {
	Kind   string // assert | panic | deadlock | steplimit
	Label  string
	Where  string
	ND     []NDJSON
	Trace  []string
	Repro  string // filled by replay
	Detail string
}

// NDJSON is the serialised form consumed by the native replay library.
type NDJSON struct {
	L string   `json:"l"`
	V []uint64 `json:"v"`
}

// Worker owns a term context and a solver.
type Worker struct {
	eng    *Engine
	c      *term.Ctx
	s      *solver.Solver
	stdG   map[*ssa.Global]*Value
	stdIni map[*ssa.Package]bool

	Thorough bool
	Paths    int
}

// Solver exposes the worker's solver.
func (w *Worker) Solver() *solver.Solver { return w.s }

// Close ends the worker's solver process.
func (w *Worker) Close() { w.s.Close() }

// Recycle drops the term context when it has grown large.
func (w *Worker) Recycle(maxTerms int) {
	if w.c.Size() > maxTerms {
		w.s.Restart()
		w.reset()
	}
}

func NewWorker(e *Engine, timeoutMs int) *Worker {
	w := &Worker{eng: e, s: solver.New(timeoutMs)}
	w.reset()
	return w
}

func (w *Worker) reset() {
	w.c = term.NewCtx()
	w.stdG = map[*ssa.Global]*Value{}
	w.stdIni = map[*ssa.Package]bool{}
}

// Limits bounds one harness exploration.
type Limits struct {
	MaxSteps int64
	MaxDepth int
	MaxPaths int
	MaxAlloc int
	MaxFork  int
	Deadline time.Time
	Stop     *atomic.Bool
	StepViol bool
	NoMerge  bool
	Raw      bool
	WantND   bool
	Race     bool
}

// Result aggregates a harness exploration.
type Result struct {
	Paths       int
	Completed   int
	Pruned      int // assume-infeasible
	Asserts     int
	AssertTriv  int // closed by the simplifier
	Steps       int64
	Branches    int
	Forks       int
	Limits      map[string]int
	Unsupported map[string]int
	Reach       map[string]int
	Reached     map[string]bool
	Violations  []Violation
	Fns         map[string]int
	Stubs       map[string]int
	Inconcl     map[string]int
	Known       map[string]int
	Samples     []string
	DoneND      []NDJSON
	TimedOut    bool
	Solver      solver.Stats
	Wall        time.Duration
}

// NewResult makes an empty result.
func NewResult() *Result {
	return &Result{Limits: map[string]int{}, Unsupported: map[string]int{}, Reach: map[string]int{}, Reached: map[string]bool{},
		Fns: map[string]int{}, Stubs: map[string]int{}, Inconcl: map[string]int{}, Known: map[string]int{}}
}

// Machine executes one path.
type Machine struct {
	race *raceState
	eng *Engine
	w   *Worker
	c   *term.Ctx
	s   *solver.Solver

	prefix []Decision
	trail  []Decision
	pos    int
	pc     []*term.Term
	model  term.Model
	hasMod bool
	memo   map[*term.Term]uint64

	newItems []Item

	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool

	steps                  int64
	maxSteps               int64
	deadline               time.Time
	stop                   *atomic.Bool
	maxDepth               int
	allocBound, depthBound int
	allocd                 int
	maxAlloc               int
	maxFork                int
	stepViol               bool
	noMerge                bool

	nd       []NDVal
	ndCount  map[string]int
	res      *Result
	viols    []Violation
	trace    []string
	curLabel string

	permuteMaps bool
	preempt     int

	g     *G
	gs    []*G
	nextG int
	now   int64

	side     map[interface{}]interface{}
	fs       *memFS
	objSeq   int
	inInit   int
	initing  *ssa.Function
	violK    int
	dead     bool
	opaque   int
	debugOut bool
}

// RunPath runs one path of entry.
func (w *Worker) RunPath(entry *ssa.Function, it Item, lim Limits, res *Result) (items []Item, viols []Violation) {
	m := &Machine{eng: w.eng, w: w, c: w.c, s: w.s, prefix: it.Prefix, res: res,
		globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{},
		maxSteps: lim.MaxSteps, deadline: lim.Deadline, stop: lim.Stop, maxDepth: lim.MaxDepth, maxAlloc: lim.MaxAlloc, maxFork: lim.MaxFork, stepViol: lim.StepViol, noMerge: lim.NoMerge,
		ndCount: map[string]int{}, side: map[interface{}]interface{}{}, memo: map[*term.Term]uint64{}}
	m.fs = newMemFS()
	if lim.Race || raceAll {
		m.raceOn()
	}
	m.debugOut = os.Getenv("GOSYM_OUT") != ""
	w.c.Raw = lim.Raw
	if it.Model != nil {
		m.model = term.Model{}
		for k, v := range it.Model {
			// name|width
			i := strings.LastIndexByte(k, '#')
			var wd int
			fmt.Sscan(k[i+1:], &wd)
			m.model[w.c.MkVar(k[:i], uint8(wd))] = v
		}
		m.hasMod = true
	}
	if len(it.Prefix) == 0 {
		m.model = term.Model{}
		m.hasMod = true
	}
	end := m.runMain(entry)
	res.Paths++
	res.Steps += m.steps
	switch end.kind {
	case "done":
		res.Completed++
		if len(res.Samples) < 3 {
			res.Samples = append(res.Samples, m.sample())
		}
		if lim.WantND && len(m.viols) == 0 && m.ensureModel() {
			res.DoneND = m.ndJSON(m.model)
		}
	case "assume", "infeasible":
		res.Pruned++
	case "unsupported":
		res.Unsupported[end.msg]++
	case "limit":
		res.Limits[end.msg]++
	case "violation":
		res.Completed++
	}
	return m.newItems, m.viols
}

func (m *Machine) sample() string {
	if !m.ensureModel() {
		return "(no model)"
	}
	s := ""
	for _, n := range m.ndJSON(m.model) {
		v := fmt.Sprint(n.V)
		if len(v) > 60 {
			v = v[:60] + "..."
		}
		s += n.L + "=" + v + " "
		if len(s) > 300 {
			s += "..."
			break
		}
	}
	return s
}

func (m *Machine) runMain(entry *ssa.Function) (end pathEnd) {
	g := &G{m: m, id: 0, main: true, resume: make(chan bool, 1)}
	m.g = g
	m.gs = []*G{g}
	defer m.killAll()
	func() {
		defer func() {
			x := recover()
			switch x := x.(type) {
			case nil:
			case pathEnd:
				end = x
			case *targetPanic:
				end = m.uncaught(x)
			default:
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "engine panic at", m.where())
					panic(x)
				}
				end = pathEnd{"unsupported", fmt.Sprintf("engine: %v at %s", x, m.where())}
			}
		}()
		m.callFn(entry, nil, nil)
		end = pathEnd{"done", ""}
	}()
	return end
}

func (m *Machine) uncaught(x *targetPanic) pathEnd {
	if m.inInit > 0 {
		return pathEnd{"unsupported", "panic in init: " + x.msg}
	}
	if !m.ensureModel() {
		m.res.Inconcl["no model for panic "+x.msg]++
		return pathEnd{"violation", ""}
	}
	m.addViol("panic", x.msg, x.where)
	return pathEnd{"violation", ""}
}

func (m *Machine) addViol(kind, label, where string) {
	m.viols = append(m.viols, Violation{Kind: kind, Label: label, Where: where, ND: m.ndJSON(m.model), Trace: append([]string(nil), m.trace...)})
}

func (m *Machine) ndJSON(mod term.Model) []NDJSON {
	memo := map[*term.Term]uint64{}
	var out []NDJSON
	for _, n := range m.nd {
		j := NDJSON{L: n.Label, V: make([]uint64, len(n.T))}
		for i, t := range n.T {
			j.V[i] = t.Eval(mod, memo)
		}
		out = append(out, j)
	}
	return out
}

func (m *Machine) eval(t *term.Term) uint64 {
	return t.Eval(m.model, m.memo)
}

func (m *Machine) setModel(mod term.Model) {
	m.model = mod
	m.hasMod = true
	m.memo = map[*term.Term]uint64{}
}

// ensureModel makes m.model satisfy the path condition.
func (m *Machine) ensureModel() bool {
	if m.hasMod {
		return true
	}
	r, mod := m.s.Check(m.pc, nil, true)
	if r != solver.Sat {
		return false
	}
	m.setModel(mod)
	return true
}

func (m *Machine) addPC(c *term.Term) {
	if c.Op == term.Const {
		return
	}
	m.pc = append(m.pc, c)
}

func (m *Machine) exportModel(mod term.Model) map[string]uint64 {
	r := make(map[string]uint64, len(mod))
	for t, v := range mod {
		if t.Op == term.UF {
			return nil
		}
		r[fmt.Sprintf("%s#%d", t.Name, t.W)] = v
	}
	return r
}

// merged model: base overlaid by new (solver models only cover relevant leaves).
func (m *Machine) branch(c *term.Term) bool {
	if c.Op == term.Const {
		return c.V != 0
	}
	nc := m.c.Not1(c)
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.trail = append(m.trail, d)
		if !d.Forced {
			if d.Val == 1 {
				m.addPC(c)
			} else {
				m.addPC(nc)
			}
		}
		return d.Val == 1
	}
	if m.inInit > 0 {
		panic(m.unsupported("symbolic branch in package init"))
	}
	m.res.Branches++
	m.poll()
	if !m.ensureModel() {
		m.res.Inconcl["no model at branch"]++
		panic(pathEnd{"limit", "solver could not produce a model"})
	}
	side := m.eval(c) != 0
	other := nc
	if !side {
		other = c
	}
	r, mod := m.s.Check(m.pc, other, true)
	take := Decision{Val: b2u(side)}
	switch r {
	case solver.Unsat:
		take.Forced = true
	case solver.Sat:
		m.res.Forks++
		alt := append(append(make([]Decision, 0, len(m.trail)+1), m.trail...), Decision{Val: b2u(!side)})
		m.newItems = append(m.newItems, Item{Prefix: alt, Model: m.exportModel(m.mergeModel(mod))})
	default:
		m.res.Inconcl["branch: solver unknown at "+m.where()]++
		// the other side is dropped (reported as inconclusive)
	}
	m.trail = append(m.trail, take)
	m.pos++
	m.prefix = m.trail
	if !take.Forced {
		if side {
			m.addPC(c)
		} else {
			m.addPC(nc)
		}
	}
	return side
}

func (m *Machine) mergeModel(mod term.Model) term.Model {
	return mod
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// concretize forks over all feasible values of t (n-way), up to limit.
func (m *Machine) concretize(t *term.Term, limit int) uint64 {
	if t.Op == term.Const {
		return t.V
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.trail = append(m.trail, d)
		if !d.Forced {
			m.addPC(m.c.Eq(t, term.K(t.W, d.Val)))
		}
		return d.Val
	}
	if m.inInit > 0 {
		panic(m.unsupported("symbolic value in package init"))
	}
	if limit > m.maxFork {
		limit = m.maxFork
	}
	m.res.Branches++
	if !m.ensureModel() {
		m.res.Inconcl["no model at concretisation"]++
		panic(pathEnd{"limit", "solver could not produce a model"})
	}
	v0 := m.eval(t)
	excl := m.c.Not1(m.c.Eq(t, term.K(t.W, v0)))
	var alts []uint64
	for {
		m.poll()
		r, mod := m.s.Check(m.pc, excl, true)
		if r == solver.Unsat {
			break
		}
		if r == solver.Unknown {
			m.res.Inconcl["concretisation: solver unknown at "+m.where()]++
			break
		}
		v := t.Eval(mod, map[*term.Term]uint64{})
		if len(alts) >= limit {
			m.res.Limits["concretisation over "+fmt.Sprint(limit)+" values at "+m.where()]++
			break
		}
		alts = append(alts, v)
		m.newItems = append(m.newItems, Item{Prefix: append(append(make([]Decision, 0, len(m.trail)+1), m.trail...), Decision{Val: v}), Model: m.exportModel(mod)})
		excl = m.c.And1(excl, m.c.Not1(m.c.Eq(t, term.K(t.W, v))))
	}
	d := Decision{Val: v0, Forced: len(alts) == 0}
	m.trail = append(m.trail, d)
	m.pos++
	m.prefix = m.trail
	if !d.Forced {
		m.res.Forks += len(alts)
		m.addPC(m.c.Eq(t, term.K(t.W, v0)))
	}
	return v0
}

// concretizeLen concretises an allocation length; sizes above the
// allocation bound are represented by a single path that is cut.
func (m *Machine) concretizeLen(t *term.Term) uint64 {
	if t.Op == term.Const {
		return t.V
	}
	lim := uint64(m.maxAlloc)
	if m.branch(m.c.ULt(term.K(t.W, lim), t)) {
		// attacker-sized allocation: pick one representative value
		if f := m.side["onHuge"]; f != nil {
			m.violateIf(term.True, "huge allocation", "alloc")
		}
		panic(pathEnd{"limit", fmt.Sprintf("allocation > %d at %s", lim, m.where())})
	}
	const full = 256
	if m.branch(m.c.ULt(term.K(t.W, full), t)) {
		// long but allocatable: representatives only
		return m.concretize(t, 2)
	}
	return m.concretize(t, full+1)
}

func (m *Machine) alloc(n int) {
	m.allocd += n
	if m.allocd > 1<<24 {
		panic(pathEnd{"limit", "memory bound at " + m.where()})
	}
}

// poll ends the path when exploration has been told to stop.
func (m *Machine) poll() {
	if m.stop != nil && m.stop.Load() {
		panic(pathEnd{"limit", "time budget"})
	}
}

func (m *Machine) stepLimit() {
	if m.stepViol && m.inInit == 0 {
		if m.ensureModel() {
			m.addViol("steplimit", "work bound exceeded", m.where())
			panic(pathEnd{"violation", ""})
		}
	}
	panic(pathEnd{"limit", "step bound at " + m.where()})
}

// assume adds a constraint; ends the path if infeasible.
func (m *Machine) assume(c *term.Term) {
	if c.Op == term.Const {
		if c.V == 0 {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.trail = append(m.trail, d)
		m.addPC(c)
		return
	}
	if m.ensureModel() && m.eval(c) != 0 {
		m.addPC(c)
	} else {
		r, mod := m.s.Check(m.pc, c, true)
		if r == solver.Unsat {
			panic(pathEnd{"assume", ""})
		}
		if r == solver.Unknown {
			m.res.Inconcl["assume: solver unknown"]++
			panic(pathEnd{"limit", "assume unknown"})
		}
		m.addPC(c)
		m.setModel(mod)
	}
	m.trail = append(m.trail, Decision{Val: 1, Forced: true})
	m.pos++
	m.prefix = m.trail
}

// assert checks that c holds on every state of this path.
func (m *Machine) assert(c *term.Term, label string) {
	replaying := m.pos < len(m.prefix)
	if !replaying {
		m.res.Asserts++
	}
	if c.IsTrue() {
		if !replaying {
			m.res.AssertTriv++
		}
		return
	}
	if replaying {
		d := m.prefix[m.pos]
		m.pos++
		m.trail = append(m.trail, d)
		m.addPC(c)
		return
	}
	var r solver.Result
	var mod term.Model
	if m.ensureModel() && m.eval(c) == 0 {
		r, mod = solver.Sat, m.model
	} else {
		r, mod = m.s.Check(m.pc, m.c.Not1(c), true)
	}
	switch r {
	case solver.Sat:
		save, sm := m.model, m.hasMod
		m.setModel(mod)
		m.addViol("assert", label, m.where())
		if c.IsFalse() {
			panic(pathEnd{"violation", ""})
		}
		m.model, m.hasMod = save, sm
		m.memo = map[*term.Term]uint64{}
		// continue with c assumed
		if m.hasMod && m.eval(c) != 0 {
			break
		}
		r2, mod2 := m.s.Check(m.pc, c, true)
		if r2 != solver.Sat {
			panic(pathEnd{"violation", ""})
		}
		m.setModel(mod2)
	case solver.Unknown:
		m.res.Inconcl["assert "+label+": solver unknown"]++
		panic(pathEnd{"limit", "assert unknown: " + label})
	}
	m.addPC(c)
	m.trail = append(m.trail, Decision{Val: 1, Forced: true})
	m.pos++
	m.prefix = m.trail
}

func (m *Machine) violateIf(c *term.Term, label, kind string) {
	if m.ensureModel() {
		m.addViol(kind, label, m.where())
	}
}

// fresh creates a named nondeterministic variable.
func (m *Machine) fresh(label string, w uint8) *term.Term {
	n := m.ndCount[label]
	m.ndCount[label] = n + 1
	return m.c.MkVar(fmt.Sprintf("%s.%d", label, n), w)
}

func (m *Machine) noteFn(fi *fnInfo, stub bool) {
	if stub {
		m.res.Stubs[fi.name]++
	} else if fi.isRepo {
		m.res.Fns[fi.name]++
	}
}

// ---- globals & init ----

func (m *Machine) globalPtr(g *ssa.Global) *Value {
	if p, ok := m.globals[g]; ok {
		return p
	}
	std := isStd(g.Pkg.Pkg.Path())
	if std {
		if p, ok := m.w.stdG[g]; ok {
			return p
		}
	}
	if strings.HasPrefix(g.Name(), "init$guard") {
		// allow init to run exactly once under our control
		cell := new(Value)
		*cell = term.False
		m.globals[g] = cell
		return cell
	}
	if f := globalStub[g.String()]; f != nil {
		cell := new(Value)
		*cell = f(m)
		m.globals[g] = cell
		return cell
	}
	m.ensureInit(g.Pkg)
	if std {
		if p, ok := m.w.stdG[g]; ok {
			return p
		}
	} else if p, ok := m.globals[g]; ok {
		return p
	}
	cell := new(Value)
	*cell = zero(g.Type().Underlying().(*types.Pointer).Elem())
	if std {
		m.w.stdG[g] = cell
	} else {
		m.globals[g] = cell
	}
	return cell
}

var noInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "reflect": true, "time": false, "internal/poll": false,
	"net": false, "internal/godebug": true, "unsafe": true, "crypto/rand": true, "internal/cpu": true, "sync": true, "internal/bytealg": true}

var globalStub = map[string]func(m *Machine) Value{}

// ensureInit runs a package's initialiser (without its imports').
func (m *Machine) ensureInit(p *ssa.Package) {
	std := isStd(p.Pkg.Path())
	if std {
		if m.w.stdIni[p] {
			return
		}
		m.w.stdIni[p] = true
	} else {
		if m.inited[p] {
			return
		}
		m.inited[p] = true
	}
	m.eng.build(p)
	for _, mem := range p.Members {
		if g, ok := mem.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$guard") {
			if f := globalStub[g.String()]; f != nil {
				continue
			}
			cell := new(Value)
			*cell = zero(g.Type().Underlying().(*types.Pointer).Elem())
			if std {
				m.w.stdG[g] = cell
			} else {
				m.globals[g] = cell
			}
		}
	}
	if noInit[p.Pkg.Path()] || strings.HasPrefix(p.Pkg.Path(), "internal/") || strings.HasPrefix(p.Pkg.Path(), "crypto/") {
		return
	}
	init := p.Func("init")
	if init == nil || len(init.Blocks) == 0 {
		return
	}
	m.inInit++
	saveTop := m.g.top
	saveSteps := m.steps
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(pathEnd); ok || std {
					if os.Getenv("GOSYM_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, "init", p.Pkg.Path(), "stopped:", x)
					}
					return
				}
				panic(x)
			}
		}()
		m.initing = init
		m.callFn(init, nil, nil)
	}()
	m.g.top = saveTop
	m.steps = saveSteps
	m.inInit--
}

func (m *Machine) permute(order []int) []int {
	rest := append([]int(nil), order...)
	var out []int
	for len(rest) > 1 {
		t := m.fresh("maporder", 8)
		m.assume(m.c.ULt(t, term.K(8, uint64(len(rest)))))
		i := int(m.concretize(t, len(rest)))
		out = append(out, rest[i])
		rest = append(rest[:i:i], rest[i+1:]...)
	}
	return append(out, rest...)
}

func sortedKeys(m map[string]int) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
