package interp

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gosym/term"
)

// G is a goroutine of the target, run on a host goroutine with baton passing.
type G struct {
	m       *Machine
	id      int
	main    bool
	top     *frame
	ready   func() bool // nil = runnable
	wakeAt  int64       // >0: sleeping until
	dead    bool
	resume  chan bool // false = die
	started bool
	fn      Value
	args    []Value
	exit    chan struct{}
	end     *pathEnd
	timer   bool
	vc      []uint32 // vector clock, see race.go
}

type Chan struct {
	cap    int
	buf    []Value
	closed bool
	recvW  int // waiting receivers
	sendQ  []*sendItem
}

type sendItem struct {
	v    Value
	done bool
}

type gEnd struct{ e interface{} }

func (m *Machine) spawn(fn Value, args []Value) {
	g := &G{m: m, id: len(m.gs), fn: fn, args: args, resume: make(chan bool, 1), exit: make(chan struct{})}
	m.gs = append(m.gs, g)
	m.raceSpawn(g)
	m.maybePreempt()
}

// mainResume is used to hand the baton back to the main goroutine.
func (m *Machine) killAll() {
	m.dead = true
	for _, g := range m.gs {
		if !g.main && g.started && !g.dead {
			g.resume <- false
			<-g.exit
		}
	}
}

func (g *G) loop() {
	defer close(g.exit)
	var rec interface{}
	func() {
		defer func() { rec = recover() }()
		g.m.callValue(g.fn, g.args)
	}()
	g.dead = true
	if pe, ok := rec.(pathEnd); ok && pe.kind == "killed" {
		return
	}
	m := g.m
	if rec != nil {
		switch x := rec.(type) {
		case *targetPanic:
			rec = m.uncaught(x)
		case pathEnd:
		default:
			rec = pathEnd{"unsupported", "engine panic in goroutine at " + m.where()}
		}
		// propagate to main: end the path
		m.gs[0].end = &pathEnd{}
		m.side["gpanic"] = rec
		m.gs[0].resume <- true
		return
	}
	m.passBaton(true)
}

// passBaton picks the next runnable goroutine and transfers control.
func (m *Machine) passBaton(dying bool) {
	n := m.pick()
	if n == nil {
		// deadlock: give control to main, which reports it
		n = m.gs[0]
		m.side["deadlock"] = true
	}
	m.transfer(n, dying)
}

func (m *Machine) transfer(n *G, dying bool) {
	cur := m.g
	if n == cur {
		return
	}
	m.g = n
	if !n.started && !n.main {
		n.started = true
		go func() {
			n.loop()
		}()
	} else {
		n.resume <- true
	}
	if dying {
		return
	}
	cur.wait()
}

func (g *G) wait() {
	ok := <-g.resume
	if !ok {
		panic(pathEnd{"killed", ""})
	}
	m := g.m
	m.g = g
	if g.main {
		if rec, ok := m.side["gpanic"]; ok {
			delete(m.side, "gpanic")
			panic(rec)
		}
		if m.side["deadlock"] != nil {
			delete(m.side, "deadlock")
			if g.ready != nil {
				if m.ensureModel() {
					m.addViol("deadlock", "all goroutines blocked", m.where())
				}
				panic(pathEnd{"violation", ""})
			}
		}
	}
}

func (g *G) runnable() bool {
	if g.dead {
		return false
	}
	if g.wakeAt > 0 {
		return g.wakeAt <= g.m.now
	}
	return g.ready == nil || g.ready()
}

func (m *Machine) pick() *G {
	for {
		n := len(m.gs)
		start := m.g.id
		for i := 1; i <= n; i++ {
			g := m.gs[(start+i)%n]
			if g.runnable() {
				return g
			}
		}
		// advance virtual time to the earliest sleeper
		var best *G
		for _, g := range m.gs {
			if !g.dead && g.wakeAt > 0 && (best == nil || g.wakeAt < best.wakeAt) {
				best = g
			}
		}
		if best == nil {
			return nil
		}
		m.now = best.wakeAt
	}
}

// block suspends the current goroutine until cond holds.
func (m *Machine) block(cond func() bool) {
	g := m.g
	for !cond() {
		g.ready = cond
		n := m.pick()
		if n == nil {
			if g.main {
				if m.ensureModel() {
					m.addViol("deadlock", "all goroutines blocked", m.where())
				}
				panic(pathEnd{"violation", ""})
			}
			n = m.gs[0]
			m.side["deadlock"] = true
		}
		m.transfer(n, false)
		g.ready = nil
	}
	g.ready = nil
}

func (m *Machine) yield() {
	n := m.pick()
	if n != nil && n != m.g {
		m.transfer(n, false)
	}
}

func (m *Machine) sleep(d int64) {
	g := m.g
	if d <= 0 {
		d = 1
	}
	g.wakeAt = m.now + d
	n := m.pick()
	if n != g {
		m.transfer(n, false)
	}
	g.wakeAt = 0
}

// quiesce runs every other goroutine until all are blocked or asleep.
func (m *Machine) quiesce() {
	for k := 0; k < 100000; k++ {
		cur := m.g
		var n *G
		for i := 1; i < len(m.gs); i++ {
			g := m.gs[(cur.id+i)%len(m.gs)]
			if g != cur && !g.dead && g.wakeAt == 0 && (g.ready == nil || g.ready()) {
				n = g
				break
			}
		}
		if n == nil {
			m.raceBarrier()
			return
		}
		m.transfer(n, false)
	}
}

// maybePreempt explores a context switch at this point when enabled.
func (m *Machine) maybePreempt() {
	if m.preempt <= 0 || m.inInit > 0 {
		return
	}
	var cands []*G
	for i := 1; i < len(m.gs); i++ {
		g := m.gs[(m.g.id+i)%len(m.gs)]
		if g.runnable() {
			cands = append(cands, g)
		}
	}
	if len(cands) == 0 {
		return
	}
	t := m.fresh("sched", 8)
	m.assume(m.c.ULe(t, term.K(8, uint64(len(cands)))))
	k := int(m.concretize(t, len(cands)+1))
	if k == 0 {
		return
	}
	m.preempt--
	m.transfer(cands[k-1], false)
}

// ---- channels ----

func (m *Machine) send(c *Chan, v Value) {
	if c == nil {
		m.block(func() bool { return false })
	}
	if c.closed {
		m.userPanic("send on closed channel")
	}
	m.raceSync(c)
	m.maybePreempt()
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, copyVal(v))
		return
	}
	it := &sendItem{v: copyVal(v)}
	c.sendQ = append(c.sendQ, it)
	m.block(func() bool { return it.done || c.closed })
	m.raceSync(c)
	if !it.done {
		m.userPanic("send on closed channel")
	}
}

func (c *Chan) canRecv() bool { return len(c.buf) > 0 || len(c.sendQ) > 0 || c.closed }

func (c *Chan) take() (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if len(c.sendQ) > 0 {
			it := c.sendQ[0]
			c.sendQ = c.sendQ[1:]
			c.buf = append(c.buf, it.v)
			it.done = true
		}
		return v, true
	}
	if len(c.sendQ) > 0 {
		it := c.sendQ[0]
		c.sendQ = c.sendQ[1:]
		it.done = true
		return it.v, true
	}
	return nil, false
}

func (m *Machine) recv(c *Chan, et types.Type) (Value, bool) {
	if c == nil {
		m.block(func() bool { return false })
	}
	m.maybePreempt()
	c.recvW++
	m.block(c.canRecv)
	c.recvW--
	m.raceSync(c)
	v, ok := c.take()
	if !ok {
		return zero(et), false
	}
	return v, true
}

func (m *Machine) closeChan(c *Chan) {
	if c == nil {
		m.userPanic("close of nil channel")
	}
	if c.closed {
		m.userPanic("close of closed channel")
	}
	m.raceRelease(c)
	c.closed = true
}

func (m *Machine) selectStmt(fr *frame, ci *cinstr, in *ssa.Select) Value {
	type st struct {
		c *Chan
		v Value
	}
	sts := make([]st, len(in.States))
	k := 0
	for i, s := range in.States {
		sts[i].c = fr.get(&ci.ops[k]).(*Chan)
		k++
		if s.Dir == types.SendOnly {
			sts[i].v = fr.get(&ci.ops[k])
			k++
		} else {
			// Operands() yields Chan and Send for each state; Send is nil for recv
			if k < len(ci.ops) && ci.ops[k].kind == 3 {
				k++
			}
		}
	}
	ready := func() int {
		for i, s := range in.States {
			c := sts[i].c
			if c == nil {
				continue
			}
			if s.Dir == types.SendOnly {
				if c.closed || len(c.buf) < c.cap || c.recvW > 0 {
					return i
				}
			} else if c.canRecv() {
				return i
			}
		}
		return -1
	}
	i := ready()
	if i < 0 {
		if !in.Blocking {
			i = -1
		} else {
			m.block(func() bool { return ready() >= 0 })
			i = ready()
		}
	}
	recvOk := false
	out := Tuple{term.K(64, uint64(int64(i))), nil}
	for j, s := range in.States {
		if s.Dir == types.RecvOnly {
			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			v := zero(et)
			if j == i {
				m.raceSync(sts[j].c)
				var ok bool
				x, ok := sts[j].c.take()
				if ok {
					v = x
					recvOk = true
				}
			}
			out = append(out, v)
		} else if j == i {
			c := sts[j].c
			m.raceSync(c)
			if c.closed {
				m.userPanic("send on closed channel")
			}
			if len(c.buf) < c.cap {
				c.buf = append(c.buf, copyVal(sts[j].v))
			} else {
				it := &sendItem{v: copyVal(sts[j].v)}
				c.sendQ = append(c.sendQ, it)
				m.block(func() bool { return it.done || c.closed })
			}
		}
	}
	out[1] = term.Bool(recvOk)
	return out
}
