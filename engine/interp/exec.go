package interp

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"unsafe"

	"golang.org/x/tools/go/ssa"

	"gosym/term"
)

type pathEnd struct {
	kind string // assume, unsupported, limit, killed, done, infeasible
	msg  string
}

type targetPanic struct {
	v     Value
	msg   string
	where string
	rt    bool
}

func constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	if b, ok := c.Type().Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return Str{s: constant.StringVal(c.Value)}
			}
			return Str{s: string(rune(c.Int64()))}
		case b.Info()&types.IsBoolean != 0:
			return term.Bool(constant.BoolVal(c.Value))
		case b.Info()&types.IsFloat != 0:
			f := c.Float64()
			if b.Kind() == types.Float32 {
				return term.K(32, uint64(math.Float32bits(float32(f))))
			}
			return term.K(64, math.Float64bits(f))
		case b.Info()&types.IsInteger != 0:
			w, signed := intWidth(b)
			if signed {
				return term.K(w, uint64(c.Int64()))
			}
			return term.K(w, c.Uint64())
		case b.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		}
	}
	return nil // unsupported constant (complex); fails on use
}

type deferred struct {
	fn   Value
	args []Value
	in   *ssa.Defer
}

type frame struct {
	m         *Machine
	fi        *fnInfo
	caller    *frame
	regs      []Value
	block     int
	prev      int
	done      bool
	result    Value
	defers    []deferred
	panicking bool
	pan       *targetPanic
	cur       ssa.Instruction
	depth     int
}

func (fr *frame) get(o *operand) Value {
	switch o.kind {
	case 0:
		return fr.regs[o.slot]
	case 1:
		return o.v
	case 2:
		return fr.m.globalPtr(o.g)
	}
	return nil
}

func (m *Machine) where() string {
	s := ""
	n := 0
	for fr := m.g.top; fr != nil && n < 6; fr = fr.caller {
		if fr.cur == nil {
			continue
		}
		p := fr.cur.Pos()
		if !p.IsValid() {
			p = fr.fi.fn.Pos()
		}
		if s != "" {
			s += " < "
		}
		s += fr.fi.fn.Name() + "@" + m.eng.PosStr(p)
		n++
	}
	return s
}

func (m *Machine) unsupported(msg string) pathEnd {
	return pathEnd{"unsupported", msg + " at " + m.where()}
}

func (m *Machine) rtPanic(msg string) {
	panic(&targetPanic{v: Iface{t: types.Typ[types.String], v: Str{s: "runtime error: " + msg}}, msg: "runtime error: " + msg, where: m.where(), rt: true})
}

// callValue calls any function value.
func (m *Machine) callValue(fn Value, args []Value) Value {
	switch fn := fn.(type) {
	case *ssa.Function:
		if fn == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return m.callFn(fn, args, nil)
	case *Closure:
		return m.callFn(fn.fn, args, fn.env)
	case *NativeFn:
		return fn.f(m, args)
	case *ssa.Builtin:
		return m.builtin(fn, args, nil)
	}
	panic(m.unsupported(fmt.Sprintf("call of %T", fn)))
}

func (m *Machine) callFn(fn *ssa.Function, args, env []Value) Value {
	fi := m.eng.info(fn)
	if fn.Synthetic == "package initializer" && fn != m.initing {
		return nil // imports are initialised lazily
	}
	if fi.intr != nil {
		m.noteFn(fi, true)
		return fi.intr(m, fn, args)
	}
	if len(fn.Blocks) == 0 {
		panic(m.unsupported("external function " + fi.name))
	}
	if fn.Pkg != nil {
		m.ensureInit(fn.Pkg)
	}
	m.noteFn(fi, false)
	fr := &frame{m: m, fi: fi, caller: m.g.top, regs: make([]Value, fi.nslots), prev: -1}
	if fr.caller != nil {
		fr.depth = fr.caller.depth + 1
		if m.depthBound > 0 && fr.depth > m.depthBound && m.inInit == 0 {
			if m.ensureModel() {
				m.addViol("panic", "recursion depth is bounded", m.where())
			}
			panic(pathEnd{"violation", ""})
		}
		if fr.depth > m.maxDepth && m.depthBound == 0 {
			panic(pathEnd{"limit", "call depth at " + m.where()})
		}
	}
	copy(fr.regs, args)
	copy(fr.regs[fi.params:], env)
	m.g.top = fr
	if fi.hasDefer {
		for !fr.done {
			fr.runProtected()
		}
	} else {
		fr.run()
	}
	m.g.top = fr.caller
	return fr.result
}

func (fr *frame) runProtected() {
	m := fr.m
	defer func() {
		if fr.done {
			return
		}
		x := recover()
		if x == nil {
			return
		}
		tp, ok := x.(*targetPanic)
		if !ok {
			panic(x)
		}
		m.g.top = fr
		fr.panicking = true
		fr.pan = tp
		fr.runDefers()
		// recovered
		if fr.fi.fn.Recover == nil {
			// return zero values
			fr.result = zero(fr.fi.fn.Signature.Results())
			if fr.fi.fn.Signature.Results().Len() == 0 {
				fr.result = nil
			}
			fr.done = true
			return
		}
		fr.prev = -1
		fr.block = fr.fi.fn.Recover.Index
	}()
	fr.run()
}

// runDefers runs pending defers; re-panics if still panicking.
func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
	if fr.panicking {
		p := fr.pan
		panic(p)
	}
}

func (fr *frame) runDefer(d deferred) {
	ok := false
	defer func() {
		if !ok {
			x := recover()
			if tp, is := x.(*targetPanic); is {
				fr.m.g.top = fr
				fr.panicking = true
				fr.pan = tp
				return
			}
			if x != nil {
				panic(x)
			}
		}
	}()
	if b, isB := d.fn.(*ssa.Builtin); isB {
		fr.m.builtin(b, d.args, nil)
	} else {
		fr.m.callValue(d.fn, d.args)
	}
	ok = true
}

func (fr *frame) run() {
	m := fr.m
	for {
		b := &fr.fi.blocks[fr.block]
		if len(b.phis) > 0 {
			edge := -1
			for i, p := range b.preds {
				if p == fr.prev {
					edge = i
					break
				}
			}
			if edge < 0 {
				panic(m.unsupported("phi edge"))
			}
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].dst] = fr.get(&b.phis[0].ops[edge])
			} else {
				tmp := make([]Value, len(b.phis))
				for i := range b.phis {
					tmp[i] = fr.get(&b.phis[i].ops[edge])
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = tmp[i]
				}
			}
		}
	next:
		code := b.code
		for i := range code {
			m.steps++
			if m.steps > m.maxSteps {
				m.stepLimit()
			}
			if m.steps&4095 == 0 {
				m.poll()
			}
			ci := &code[i]
			fr.cur = ci.in
			if traceOn {
				m.traceInstr(fr, ci)
			}
			switch in := ci.in.(type) {
			case *ssa.Jump:
				fr.prev = fr.block
				fr.block = in.Block().Succs[0].Index
			case *ssa.If:
				c := fr.get(&ci.ops[0]).(*term.Term)
				succ := in.Block().Succs
				if c.Op != term.Const {
					if fr.ifConvert(c, succ) {
						b = &fr.fi.blocks[fr.block]
						goto next // phis already set
					}
				}
				fr.prev = fr.block
				if m.branch(c) {
					fr.block = succ[0].Index
				} else {
					fr.block = succ[1].Index
				}
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = fr.get(&ci.ops[0])
				default:
					t := make(Tuple, len(ci.ops))
					for j := range ci.ops {
						t[j] = fr.get(&ci.ops[j])
					}
					fr.result = t
				}
				fr.done = true
				return
			default:
				fr.step(ci)
			}
		}
	}
}

// ifConvert evaluates short pure diamonds/triangles with ite-merged phis.
func (fr *frame) ifConvert(c *term.Term, succ []*ssa.BasicBlock) bool {
	if fr.m.noMerge {
		return false
	}
	t, f := succ[0], succ[1]
	tb, fb := &fr.fi.blocks[t.Index], &fr.fi.blocks[f.Index]
	var join *ssa.BasicBlock
	tpred, fpred := fr.block, fr.block
	switch {
	case tb.pure && fb.pure && t.Succs[0] == f.Succs[0]:
		join = t.Succs[0]
		tpred, fpred = t.Index, f.Index
	case tb.pure && t.Succs[0] == f:
		join = f
		tpred = t.Index
	case fb.pure && f.Succs[0] == t:
		join = t
		fpred = f.Index
	default:
		return false
	}
	jb := &fr.fi.blocks[join.Index]
	if len(jb.phis) == 0 && tpred != fr.block && len(tb.code) > 1 {
		// nothing merged; values unused - still fine
	}
	te, fe := -1, -1
	for i, p := range jb.preds {
		if p == tpred && te < 0 {
			te = i
		}
		if p == fpred && fe < 0 {
			fe = i
		}
	}
	if te < 0 || fe < 0 || te == fe {
		return false
	}
	// check phi mergeability by static type first
	for i := range jb.phis {
		if !isScalarish(jb.phis[i].in.(*ssa.Phi).Type()) {
			to, fo := jb.phis[i].ops[te], jb.phis[i].ops[fe]
			if to.kind == 0 && fo.kind == 0 && to.slot == fo.slot {
				continue
			}
			return false
		}
	}
	run := func(b *cblock) {
		for i := range b.code {
			if _, ok := b.code[i].in.(*ssa.Jump); ok {
				continue
			}
			fr.m.steps++
			fr.step(&b.code[i])
		}
	}
	if tpred != fr.block {
		run(tb)
	}
	if fpred != fr.block {
		run(fb)
	}
	tmp := make([]Value, len(jb.phis))
	for i := range jb.phis {
		x, y := fr.get(&jb.phis[i].ops[te]), fr.get(&jb.phis[i].ops[fe])
		xt, ok1 := x.(*term.Term)
		yt, ok2 := y.(*term.Term)
		if ok1 && ok2 {
			tmp[i] = fr.m.c.Ite(c, xt, yt)
		} else {
			tmp[i] = x
		}
	}
	for i := range jb.phis {
		fr.regs[jb.phis[i].dst] = tmp[i]
	}
	fr.prev = tpred
	fr.block = join.Index
	return true
}

func isScalarish(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean|types.IsFloat) != 0 && b.Kind() != types.UnsafePointer
}

func (fr *frame) step(ci *cinstr) {
	m := fr.m
	switch in := ci.in.(type) {
	case *ssa.BinOp:
		fr.regs[ci.dst] = m.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.UnOp:
		x := fr.get(&ci.ops[0])
		switch in.Op {
		case token.MUL:
			if m.race != nil {
				m.raceCell(x, false)
			}
			fr.regs[ci.dst] = m.load(x)
		case token.NOT:
			fr.regs[ci.dst] = m.c.Not1(x.(*term.Term))
		case token.SUB:
			t := x.(*term.Term)
			if isFloat(in.Type()) {
				fr.regs[ci.dst] = m.c.FUn(term.FNeg, t, t.W)
			} else {
				fr.regs[ci.dst] = m.c.Neg(t)
			}
		case token.XOR:
			fr.regs[ci.dst] = m.c.BVNot(x.(*term.Term))
		case token.ARROW:
			v, ok := m.recv(x.(*Chan), in.X.Type().Underlying().(*types.Chan).Elem())
			if in.CommaOk {
				fr.regs[ci.dst] = Tuple{v, term.Bool(ok)}
			} else {
				fr.regs[ci.dst] = v
			}
		default:
			panic(m.unsupported("unop " + in.Op.String()))
		}
	case *ssa.Store:
		if m.race != nil {
			m.raceCell(fr.get(&ci.ops[0]), true)
		}
		m.store(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.Alloc:
		cell := new(Value)
		*cell = zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.regs[ci.dst] = cell
	case *ssa.FieldAddr:
		p := m.derefPtr(fr.get(&ci.ops[0]))
		s, ok := (*p).(Struct)
		if !ok {
			panic(m.unsupported(fmt.Sprintf("FieldAddr on %T", *p)))
		}
		fr.regs[ci.dst] = &s[in.Field]
	case *ssa.Field:
		fr.regs[ci.dst] = fr.get(&ci.ops[0]).(Struct)[in.Field]
	case *ssa.IndexAddr:
		fr.regs[ci.dst] = m.indexAddr(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]).(*term.Term), in.Index.Type())
	case *ssa.Index:
		x := fr.get(&ci.ops[0])
		idx := m.toInt64(fr.get(&ci.ops[1]).(*term.Term), in.Index.Type())
		switch x := x.(type) {
		case Array:
			fr.regs[ci.dst] = m.indexVal(x, idx)
		case Str:
			fr.regs[ci.dst] = m.indexStr(x, idx)
		default:
			panic(m.unsupported(fmt.Sprintf("Index on %T", x)))
		}
	case *ssa.Lookup:
		x := fr.get(&ci.ops[0])
		switch x := x.(type) {
		case Str:
			fr.regs[ci.dst] = m.indexStr(x, m.toInt64(fr.get(&ci.ops[1]).(*term.Term), in.Index.Type()))
		case *Map:
			k := fr.get(&ci.ops[1])
			m.raceMap(x, false)
			i := m.mapFind(x, k)
			var v Value
			if i >= 0 {
				v = copyVal(x.vals[i])
			} else {
				v = zero(in.X.Type().Underlying().(*types.Map).Elem())
			}
			if in.CommaOk {
				fr.regs[ci.dst] = Tuple{v, term.Bool(i >= 0)}
			} else {
				fr.regs[ci.dst] = v
			}
		}
	case *ssa.MapUpdate:
		mp := fr.get(&ci.ops[0]).(*Map)
		if mp == nil {
			m.userPanic("assignment to entry in nil map")
		}
		m.raceMap(mp, true)
		m.mapSet(mp, fr.get(&ci.ops[1]), fr.get(&ci.ops[2]))
	case *ssa.Call:
		fr.regs[ci.dst] = fr.doCall(ci, &in.Call)
	case *ssa.Go:
		fn, args := fr.prepCall(ci, &in.Call)
		m.spawn(fn, args)
	case *ssa.Defer:
		fn, args := fr.prepCall(ci, &in.Call)
		fr.defers = append(fr.defers, deferred{fn, args, in})
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		v := fr.get(&ci.ops[0])
		panic(&targetPanic{v: v, msg: m.showPanic(v), where: m.where()})
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = Iface{t: in.X.Type(), v: copyVal(fr.get(&ci.ops[0]))}
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.ChangeType:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.Convert:
		fr.regs[ci.dst] = m.convert(in.X.Type(), in.Type(), fr.get(&ci.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = m.convert(in.X.Type(), in.Type(), fr.get(&ci.ops[0]))
	case *ssa.SliceToArrayPointer:
		s := fr.get(&ci.ops[0]).(Slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			m.rtPanic("cannot convert slice to array pointer: length mismatch")
		}
		if s == nil {
			fr.regs[ci.dst] = (*Value)(nil)
		} else {
			cell := new(Value)
			*cell = Array(s[:n:n])
			fr.regs[ci.dst] = cell
		}
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = m.typeAssert(in, fr.get(&ci.ops[0]).(Iface))
	case *ssa.Extract:
		fr.regs[ci.dst] = fr.get(&ci.ops[0]).(Tuple)[in.Index]
	case *ssa.MakeClosure:
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for i := 1; i < len(ci.ops); i++ {
			c.env = append(c.env, fr.get(&ci.ops[i]))
		}
		fr.regs[ci.dst] = c
	case *ssa.MakeSlice:
		fr.regs[ci.dst] = m.makeSlice(in.Type().Underlying().(*types.Slice).Elem(),
			m.toInt64(fr.get(&ci.ops[0]).(*term.Term), in.Len.Type()), m.toInt64(fr.get(&ci.ops[1]).(*term.Term), in.Cap.Type()))
	case *ssa.MakeMap:
		fr.regs[ci.dst] = newMap()
	case *ssa.MakeChan:
		n := fr.get(&ci.ops[0]).(*term.Term)
		fr.regs[ci.dst] = &Chan{cap: int(m.concretize(n, 64))}
	case *ssa.Slice:
		fr.regs[ci.dst] = fr.slice(ci, in)
	case *ssa.Range:
		x := fr.get(&ci.ops[0])
		switch x := x.(type) {
		case Str:
			fr.regs[ci.dst] = &iter{s: x, isStr: true}
		case *Map:
			m.raceMap(x, false)
			it := &iter{m: x}
			if x != nil {
				for i := range x.keys {
					if x.live[i] {
						it.order = append(it.order, i)
					}
				}
				if m.permuteMaps && len(it.order) > 1 {
					it.order = m.permute(it.order)
				}
			}
			fr.regs[ci.dst] = it
		}
	case *ssa.Next:
		fr.regs[ci.dst] = m.next(fr.get(&ci.ops[0]).(*iter), in)
	case *ssa.Send:
		m.send(fr.get(&ci.ops[0]).(*Chan), fr.get(&ci.ops[1]))
	case *ssa.Select:
		fr.regs[ci.dst] = m.selectStmt(fr, ci, in)
	default:
		panic(m.unsupported(fmt.Sprintf("instr %T", in)))
	}
}

func (m *Machine) userPanic(msg string) {
	panic(&targetPanic{v: Iface{t: types.Typ[types.String], v: Str{s: msg}}, msg: msg, where: m.where(), rt: true})
}

func (m *Machine) showPanic(v Value) string {
	if i, ok := v.(Iface); ok {
		switch x := i.v.(type) {
		case Str:
			if x.b == nil {
				return "panic: " + x.s
			}
		}
		if i.t != nil {
			return "panic: " + i.t.String()
		}
	}
	return "panic"
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	_, s := intWidth(b)
	return s
}

// toInt64 widens an integer term to 64 bits by its Go type.
func (m *Machine) toInt64(t *term.Term, ty types.Type) *term.Term {
	if t.W == 64 {
		return t
	}
	if isSigned(ty) {
		return m.c.SExt(t, 64)
	}
	return m.c.ZExt(t, 64)
}

func (m *Machine) derefPtr(v Value) *Value {
	switch p := v.(type) {
	case *Value:
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return p
	case SymPtr:
		i := m.concretize(p.idx, 4096)
		return &p.arr[i]
	}
	panic(m.unsupported(fmt.Sprintf("deref %T", v)))
}

func (m *Machine) load(v Value) Value {
	switch p := v.(type) {
	case *Value:
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return copyVal(*p)
	case SymPtr:
		if len(p.arr) > 0 {
			if _, ok := p.arr[0].(*term.Term); ok {
				return m.selectTerm(p.arr, p.idx)
			}
		}
		return copyVal(*m.derefPtr(p))
	}
	panic(m.unsupported(fmt.Sprintf("load %T", v)))
}

func (m *Machine) store(addr, v Value) {
	switch p := addr.(type) {
	case *Value:
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		storeVal(p, v)
	case SymPtr:
		if t, ok := v.(*term.Term); ok && len(p.arr) <= 512 {
			for i := range p.arr {
				old := p.arr[i].(*term.Term)
				p.arr[i] = m.c.Ite(m.c.Eq(p.idx, term.K(64, uint64(i))), t, old)
			}
			return
		}
		storeVal(m.derefPtr(p), v)
	default:
		panic(m.unsupported(fmt.Sprintf("store %T", addr)))
	}
}

// selectTerm builds arr[idx] for in-range symbolic idx.
func (m *Machine) selectTerm(arr []Value, idx *term.Term) *term.Term {
	n := len(arr)
	c := m.c
	// narrow by bound
	if u := idx.UMax(); u < uint64(n) {
		n = int(u) + 1
	}
	if r := m.affineTable(arr[:n], idx); r != nil {
		return r
	}
	k := uint8(0)
	for 1<<k < n {
		k++
	}
	var build func(lo int, bit int) *term.Term
	build = func(lo int, bit int) *term.Term {
		if lo >= n {
			return nil
		}
		if bit < 0 {
			return arr[lo].(*term.Term)
		}
		z := build(lo, bit-1)
		o := build(lo+1<<uint(bit), bit-1)
		if o == nil {
			return z
		}
		return c.Ite(c.Eq(c.Extract(idx, uint8(bit), uint8(bit)), term.K(1, 1)), o, z)
	}
	return build(0, int(k)-1)
}

// affineTable recognises constant GF(2)-affine tables (e.g. CRC tables).
func (m *Machine) affineTable(arr []Value, idx *term.Term) *term.Term {
	n := len(arr)
	if n < 16 || n&(n-1) != 0 {
		return nil
	}
	for _, v := range arr {
		if v.(*term.Term).Op != term.Const {
			return nil
		}
	}
	get := func(i int) uint64 { return arr[i].(*term.Term).V }
	base := get(0)
	for i := 0; i < n; i++ {
		x := base
		for b := 0; 1<<b < n; b++ {
			if i>>b&1 == 1 {
				x ^= get(1<<b) ^ base
			}
		}
		if x != get(i) {
			return nil
		}
	}
	w := arr[0].(*term.Term).W
	r := term.K(w, base)
	for b := 0; 1<<b < n; b++ {
		bit := m.c.Extract(idx, uint8(b), uint8(b))
		d := get(1<<b) ^ base
		// sign-extended bit AND d
		t := m.c.And(m.c.SExt(bit, w), term.K(w, d))
		r = m.c.Xor(r, t)
	}
	return r
}

func (m *Machine) indexAddr(x Value, idx *term.Term, ity types.Type) Value {
	idx = m.toInt64(idx, ity)
	var arr []Value
	switch x := x.(type) {
	case Slice:
		arr = x
	case *Value:
		if x == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		arr = (*x).(Array)
	case SymPtr:
		arr = (*m.derefPtr(x)).(Array)
	default:
		panic(m.unsupported(fmt.Sprintf("IndexAddr %T", x)))
	}
	if idx.Op == term.Const {
		i := int64(idx.V)
		if i < 0 || i >= int64(len(arr)) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(arr)))
		}
		return &arr[i]
	}
	if !m.branch(m.c.ULt(idx, term.K(64, uint64(len(arr))))) {
		m.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", len(arr)))
	}
	if len(arr) == 1 {
		return &arr[0]
	}
	return SymPtr{arr, idx}
}

func (m *Machine) indexVal(arr []Value, idx *term.Term) Value {
	p := m.indexAddr(Slice(arr), idx, types.Typ[types.Int])
	return m.load(p)
}

func (m *Machine) indexStr(s Str, idx *term.Term) Value {
	n := s.Len()
	if idx.Op == term.Const {
		i := int64(idx.V)
		if i < 0 || i >= int64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return s.At(int(i))
	}
	arr := make([]Value, n)
	for i := range arr {
		arr[i] = s.At(i)
	}
	return m.indexVal(arr, idx)
}

func (m *Machine) makeSlice(et types.Type, ln, cp *term.Term) Value {
	maxLen := uint64(1) << 46
	if ln.Op != term.Const || cp.Op != term.Const {
		// negative or absurd lengths panic in Go
		if m.branch(m.c.ULt(term.K(64, maxLen), ln)) {
			m.rtPanic("makeslice: len out of range")
		}
	} else if ln.V > maxLen || int64(cp.V) < int64(ln.V) {
		m.rtPanic("makeslice: len out of range")
	}
	same := ln == cp
	if m.allocBound > 0 && m.inInit == 0 {
		big := m.c.ULt(term.K(64, uint64(m.allocBound)), cp)
		if m.branch(big) {
			if m.ensureModel() {
				m.addViol("assert", "memory use is bounded by the input", m.where())
			}
			panic(pathEnd{"violation", ""})
		}
	}
	n := int(m.concretizeLen(ln))
	c := n
	if !same {
		c = int(m.concretizeLen(cp))
		if c < n {
			m.rtPanic("makeslice: cap out of range")
		}
	}
	m.alloc(c)
	s := make(Slice, n, c)
	full := s[:c]
	if c > 0 {
		z := zero(et)
		if _, ok := z.(*term.Term); ok {
			for i := range full {
				full[i] = z
			}
		} else {
			full[0] = z
			for i := 1; i < c; i++ {
				full[i] = zero(et)
			}
		}
	}
	return s
}

func (fr *frame) slice(ci *cinstr, in *ssa.Slice) Value {
	m := fr.m
	x := fr.get(&ci.ops[0])
	var ln, cp int
	var arr []Value
	var str Str
	isStr := false
	isArr := false
	switch x := x.(type) {
	case Slice:
		arr = x
		ln, cp = len(x), cap(x)
	case Str:
		str = x
		isStr = true
		ln = x.Len()
		cp = ln
	case *Value:
		if x == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		arr = (*x).(Array)
		ln, cp = len(arr), len(arr)
		arr = arr[:ln:ln]
		isArr = true
	default:
		panic(m.unsupported(fmt.Sprintf("slice %T", x)))
	}
	get := func(i int, v ssa.Value, def int) *term.Term {
		if i >= len(ci.ops) || ci.ops[i].kind == 3 || v == nil {
			return term.K(64, uint64(def))
		}
		return m.toInt64(fr.get(&ci.ops[i]).(*term.Term), v.Type())
	}
	lo, hi := get(1, in.Low, 0), get(2, in.High, ln)
	mx := get(3, in.Max, cp)
	c := m.c
	okc := c.And1(c.ULe(lo, hi), c.And1(c.ULe(hi, mx), c.ULe(mx, term.K(64, uint64(cp)))))
	if !m.branch(okc) {
		d := func(t *term.Term) string {
			if t.Op == term.Const {
				return fmt.Sprint(int64(t.V))
			}
			return "sym"
		}
		m.rtPanic(fmt.Sprintf("slice bounds out of range [%s:%s] with capacity %d", d(lo), d(hi), cp))
	}
	l := int(m.concretize(lo, 5000))
	h := int(m.concretize(hi, 5000))
	if isStr {
		return str.Sub(l, h)
	}
	M := int(m.concretize(mx, 5000))
	if arr == nil && !isArr {
		return Slice(nil)
	}
	return Slice(arr[l:h:M])
}

func (fr *frame) prepCall(ci *cinstr, call *ssa.CallCommon) (Value, []Value) {
	m := fr.m
	if call.IsInvoke() {
		recv := fr.get(&ci.ops[0]).(Iface)
		if recv.t == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		args := make([]Value, len(ci.ops))
		args[0] = recv.v
		for i := 1; i < len(ci.ops); i++ {
			args[i] = fr.get(&ci.ops[i])
		}
		if no, ok := recv.v.(NativeObj); ok {
			name := call.Method.Name()
			return &NativeFn{name, func(m *Machine, a []Value) Value { return no.CallMethod(m, name, a[1:]) }}, args
		}
		f := m.eng.method(recv.t, call.Method.Pkg(), call.Method.Name())
		if f == nil {
			panic(m.unsupported(fmt.Sprintf("no method %s on %s", call.Method.Name(), recv.t)))
		}
		return f, args
	}
	args := make([]Value, len(ci.ops)-1)
	for i := range args {
		args[i] = fr.get(&ci.ops[i+1])
	}
	return fr.get(&ci.ops[0]), args
}

func (fr *frame) doCall(ci *cinstr, call *ssa.CallCommon) Value {
	fn, args := fr.prepCall(ci, call)
	switch f := fn.(type) {
	case *ssa.Builtin:
		return fr.m.builtin(f, args, call)
	case *ssa.Function:
		// copy aggregate args (by value)
		for i, a := range args {
			switch a.(type) {
			case Struct, Array:
				args[i] = copyVal(a)
			}
		}
		if f == nil {
			fr.m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return fr.m.callFn(f, args, nil)
	}
	return fr.m.callValue(fn, args)
}

func (m *Machine) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil && m.eng.implements(x.t, it) {
			ok = true
			v = x
		} else {
			v = Iface{}
		}
	} else {
		if x.t != nil && (x.t == in.AssertedType || types.Identical(x.t, in.AssertedType)) {
			ok = true
			v = copyVal(x.v)
		} else {
			v = zero(in.AssertedType)
		}
	}
	if in.CommaOk {
		return Tuple{v, term.Bool(ok)}
	}
	if !ok {
		ts := "nil"
		if x.t != nil {
			ts = x.t.String()
		}
		m.userPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", ts, in.AssertedType))
	}
	return v
}

func (m *Machine) next(it *iter, in *ssa.Next) Value {
	if it.isStr {
		if it.pos >= it.s.Len() {
			return Tuple{term.False, term.K(64, 0), term.K(32, 0)}
		}
		r, sz := m.decodeRune(it.s, it.pos)
		p := it.pos
		it.pos += sz
		return Tuple{term.True, term.K(64, uint64(p)), r}
	}
	for it.pos < len(it.order) {
		i := it.order[it.pos]
		it.pos++
		if it.m.live[i] {
			return Tuple{term.True, copyVal(it.m.keys[i]), copyVal(it.m.vals[i])}
		}
	}
	tup := in.Type().(*types.Tuple)
	zk, zv := Value(nil), Value(nil)
	if b, ok := tup.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
		zk = zero(tup.At(1).Type())
	}
	if b, ok := tup.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
		zv = zero(tup.At(2).Type())
	}
	return Tuple{term.False, zk, zv}
}

// decodeRune decodes one rune; symbolic bytes fork on ASCII-ness.
func (m *Machine) decodeRune(s Str, i int) (*term.Term, int) {
	b := s.At(i)
	if b.Op == term.Const && b.V < 0x80 {
		return term.K(32, b.V), 1
	}
	if b.Op != term.Const {
		if m.branch(m.c.ULt(b, term.K(8, 0x80))) {
			return m.c.ZExt(b, 32), 1
		}
	}
	if s.b == nil {
		for j, r := range s.s[i:] {
			_ = j
			n := 1
			if r != 0xFFFD {
				n = len(string(r))
			} else if len(s.s[i:]) >= 3 && s.s[i:i+3] == "\uFFFD" {
				n = 3
			}
			return term.K(32, uint64(r)), n
		}
	}
	// interpreted utf8.DecodeRuneInString
	f := m.eng.Func("unicode/utf8", "DecodeRuneInString")
	if f == nil {
		panic(m.unsupported("utf8"))
	}
	t := m.callFn(f, []Value{s.Sub(i, s.Len())}, nil).(Tuple)
	return t[0].(*term.Term), int(m.concretize(t[1].(*term.Term), 8))
}

func (m *Machine) binop(op token.Token, tx, ty types.Type, x, y Value) Value {
	c := m.c
	switch op {
	case token.EQL:
		return m.equals(x, y)
	case token.NEQ:
		return c.Not1(m.equals(x, y))
	}
	if xs, ok := x.(Str); ok {
		ys := y.(Str)
		switch op {
		case token.ADD:
			return concatStr(xs, ys)
		case token.LSS:
			return m.strLess(xs, ys)
		case token.GTR:
			return m.strLess(ys, xs)
		case token.LEQ:
			return c.Not1(m.strLess(ys, xs))
		case token.GEQ:
			return c.Not1(m.strLess(xs, ys))
		}
	}
	a, ok1 := x.(*term.Term)
	b, ok2 := y.(*term.Term)
	if !ok1 || !ok2 {
		panic(m.unsupported(fmt.Sprintf("binop %s %T %T", op, x, y)))
	}
	if isFloat(tx) {
		switch op {
		case token.ADD:
			return c.FBin(term.FAdd, a, b)
		case token.SUB:
			return c.FBin(term.FSub, a, b)
		case token.MUL:
			return c.FBin(term.FMul, a, b)
		case token.QUO:
			return c.FBin(term.FDiv, a, b)
		case token.LSS:
			return m.fcmp(term.FLt, a, b)
		case token.LEQ:
			return m.fcmp(term.FLe, a, b)
		case token.GTR:
			return m.fcmp(term.FLt, b, a)
		case token.GEQ:
			return m.fcmp(term.FLe, b, a)
		}
	}
	signed := isSigned(tx)
	switch op {
	case token.ADD:
		return c.Add(a, b)
	case token.SUB:
		return c.Sub(a, b)
	case token.MUL:
		return c.Mul(a, b)
	case token.QUO, token.REM:
		if m.branch(c.Eq(b, term.K(b.W, 0))) {
			m.rtPanic("integer divide by zero")
		}
		switch {
		case op == token.QUO && signed:
			return c.SDiv(a, b)
		case op == token.QUO:
			return c.UDiv(a, b)
		case signed:
			return c.SRem(a, b)
		default:
			return c.URem(a, b)
		}
	case token.AND:
		if a.W == 0 {
			return c.And1(a, b)
		}
		return c.And(a, b)
	case token.OR:
		if a.W == 0 {
			return c.Or1(a, b)
		}
		return c.Or(a, b)
	case token.XOR:
		return c.Xor(a, b)
	case token.AND_NOT:
		return c.And(a, c.BVNot(b))
	case token.SHL, token.SHR:
		if isSigned(ty) {
			if m.branch(c.SLt(b, term.K(b.W, 0))) {
				m.rtPanic("negative shift amount")
			}
		}
		var sh *term.Term
		big := term.False
		if b.W > a.W {
			big = c.ULe(term.K(b.W, uint64(a.W)), b)
			sh = c.Extract(b, a.W-1, 0)
		} else {
			sh = c.ZExt(b, a.W)
		}
		switch {
		case op == token.SHL:
			return c.Ite(big, term.K(a.W, 0), c.Shl(a, sh))
		case signed:
			return c.Ite(big, c.AShr(a, term.K(a.W, uint64(a.W-1))), c.AShr(a, sh))
		default:
			return c.Ite(big, term.K(a.W, 0), c.LShr(a, sh))
		}
	case token.LSS:
		if signed {
			return c.SLt(a, b)
		}
		return c.ULt(a, b)
	case token.GTR:
		if signed {
			return c.SLt(b, a)
		}
		return c.ULt(b, a)
	case token.LEQ:
		if signed {
			return c.SLe(a, b)
		}
		return c.ULe(a, b)
	case token.GEQ:
		if signed {
			return c.SLe(b, a)
		}
		return c.ULe(b, a)
	}
	panic(m.unsupported("binop " + op.String()))
}

func (m *Machine) strLess(a, b Str) *term.Term {
	if a.b == nil && b.b == nil {
		return term.Bool(a.s < b.s)
	}
	c := m.c
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	r := term.Bool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		r = c.Ite(c.Eq(a.At(i), b.At(i)), r, c.ULt(a.At(i), b.At(i)))
	}
	return r
}

func (m *Machine) convert(from, to types.Type, x Value) Value {
	c := m.c
	uf, ut := from.Underlying(), to.Underlying()
	if bt, ok := ut.(*types.Basic); ok {
		if bt.Kind() == types.UnsafePointer {
			return x
		}
		if bt.Info()&types.IsString != 0 {
			switch x := x.(type) {
			case Str:
				return x
			case Slice:
				et := uf.(*types.Slice).Elem().Underlying().(*types.Basic)
				if et.Kind() == types.Uint8 {
					return mkStr(sliceTerms(x))
				}
				// []rune
				out := Str{}
				for _, r := range x {
					out = concatStr(out, m.runeStr(r.(*term.Term)))
				}
				return out
			case *term.Term:
				return m.runeStr(m.toInt64(x, from))
			}
		}
		if xt, ok := x.(*term.Term); ok {
			w, sgn := intWidth(bt)
			ff, ft := isFloat(from), isFloat(to)
			switch {
			case ff && ft:
				if xt.W == w {
					return xt
				}
				return c.FUn(term.FCvt, xt, w)
			case ff:
				if xt.Op == term.Const {
					// host conversion semantics
					f := math.Float64frombits(xt.V)
					if xt.W == 32 {
						f = float64(math.Float32frombits(uint32(xt.V)))
					}
					if sgn {
						return term.K(w, uint64(int64(f)))
					}
					return term.K(w, uint64(f))
				}
				if t, ok := m.quotToInt(xt, w); ok {
					return t
				}
				if sgn {
					return c.FUn(term.FToS, xt, w)
				}
				if w < 64 {
					return c.Extract(c.FUn(term.FToS, xt, 64), w-1, 0)
				}
				return c.FUn(term.FToU, xt, w)
			case ft:
				if isSigned(from) {
					return c.FUn(term.FFromS, xt, w)
				}
				return c.FUn(term.FFromU, xt, w)
			}
			if w == xt.W {
				return xt
			}
			if w < xt.W {
				return c.Extract(xt, w-1, 0)
			}
			if isSigned(from) {
				return c.SExt(xt, w)
			}
			return c.ZExt(xt, w)
		}
		// unsafe.Pointer -> uintptr
		if p, ok := x.(*Value); ok {
			return term.K(64, uint64(uintptr(unsafe.Pointer(p))))
		}
	}
	if st, ok := ut.(*types.Slice); ok {
		if s, ok := x.(Str); ok {
			eb := st.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				n := s.Len()
				r := make(Slice, n)
				for i := 0; i < n; i++ {
					r[i] = s.At(i)
				}
				return r
			}
			r := Slice{}
			for i := 0; i < s.Len(); {
				rn, sz := m.decodeRune(s, i)
				r = append(r, rn)
				i += sz
			}
			return r
		}
	}
	switch x.(type) {
	case *Value, Slice, *Map, *Chan, Iface, Struct, Array, SymPtr, *ssa.Function, *Closure, NativeObj, Str:
		return x
	}
	panic(m.unsupported(fmt.Sprintf("convert %s -> %s (%T)", from, to, x)))
}

func (m *Machine) runeStr(t *term.Term) Str {
	if t.Op == term.Const {
		v := t.SVal()
		if v < 0 || v > 0x10ffff {
			v = 0xfffd
		}
		return Str{s: string(rune(v))}
	}
	if m.branch(m.c.ULt(t, term.K(t.W, 0x80))) {
		return mkStr([]*term.Term{m.c.Extract(t, 7, 0)})
	}
	f := m.eng.Func("unicode/utf8", "AppendRune")
	r := m.callFn(f, []Value{Slice(nil), m.c.Extract(m.c.SExt(t, 64), 31, 0)}, nil)
	return mkStr(sliceTerms(r.(Slice)))
}

func (m *Machine) builtin(b *ssa.Builtin, args []Value, call *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return term.K(64, uint64(len(x)))
		case Str:
			return term.K(64, uint64(x.Len()))
		case *Map:
			if x == nil {
				return term.K(64, 0)
			}
			m.raceMap(x, false)
			return term.K(64, uint64(x.n))
		case *Chan:
			if x == nil {
				return term.K(64, 0)
			}
			return term.K(64, uint64(len(x.buf)))
		case Array:
			return term.K(64, uint64(len(x)))
		case *Value:
			return term.K(64, uint64(len((*x).(Array))))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return term.K(64, uint64(cap(x)))
		case Array:
			return term.K(64, uint64(len(x)))
		case *Chan:
			return term.K(64, uint64(x.cap))
		case *Value:
			return term.K(64, uint64(len((*x).(Array))))
		}
	case "append":
		d := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = y
			if m.race != nil {
				m.raceSlice(src, false)
			}
		case Str:
			src = make([]Value, y.Len())
			for i := range src {
				src[i] = y.At(i)
			}
		}
		var et types.Type
		if call != nil {
			et = call.Args[0].Type().Underlying().(*types.Slice).Elem()
		}
		r := m.appendSlice(d, src, et)
		if m.race != nil {
			if x, ok := r.(Slice); ok {
				m.raceSlice(x[len(d):], true)
			}
		}
		return r
	case "copy":
		d := args[0].(Slice)
		switch y := args[1].(type) {
		case Slice:
			n := len(d)
			if len(y) < n {
				n = len(y)
			}
			if m.race != nil {
				m.raceSlice(y[:n], false)
				m.raceSlice(d[:n], true)
			}
			if n > 0 {
				if _, agg := y[0].(*term.Term); agg {
					copy(d, y)
				} else {
					tmp := make([]Value, n)
					for i := 0; i < n; i++ {
						tmp[i] = copyVal(y[i])
					}
					for i := 0; i < n; i++ {
						storeVal(&d[i], tmp[i])
					}
				}
			}
			m.steps += int64(n / 8)
			return term.K(64, uint64(n))
		case Str:
			n := len(d)
			if y.Len() < n {
				n = y.Len()
			}
			for i := 0; i < n; i++ {
				d[i] = y.At(i)
			}
			return term.K(64, uint64(n))
		}
	case "delete":
		if mp := args[0].(*Map); mp != nil {
			m.raceMap(mp, true)
			m.mapDelete(mp, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				*x = *newMap()
			}
		case Slice:
			et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				x[i] = zero(et)
			}
		}
		return nil
	case "close":
		m.closeChan(args[0].(*Chan))
		return nil
	case "print", "println":
		return nil
	case "panic":
		panic(&targetPanic{v: args[0], msg: m.showPanic(args[0]), where: m.where()})
	case "recover":
		return m.doRecover()
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			ty := call.Args[0].Type()
			var lt *term.Term
			if b.Name() == "min" {
				lt = m.binop(token.LSS, ty, ty, y, r).(*term.Term)
			} else {
				lt = m.binop(token.LSS, ty, ty, r, y).(*term.Term)
			}
			if rt, ok := r.(*term.Term); ok {
				r = m.c.Ite(lt, y.(*term.Term), rt)
			} else if m.branch(lt) {
				r = y
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "SliceData":
		s := args[0].(Slice)
		if cap(s) == 0 {
			return (*Value)(nil)
		}
		return &s[:1][0]
	case "String":
		n := int(m.concretize(m.toInt64(args[1].(*term.Term), types.Typ[types.Int]), 4096))
		p, _ := args[0].(*Value)
		if n == 0 || p == nil {
			return Str{}
		}
		return mkStr(sliceTerms(unsafe.Slice(p, n)))
	case "Slice":
		n := int(m.concretize(m.toInt64(args[1].(*term.Term), types.Typ[types.Int]), 4096))
		p, _ := args[0].(*Value)
		if p == nil {
			return Slice(nil)
		}
		return Slice(unsafe.Slice(p, n))
	case "StringData":
		s := args[0].(Str)
		if s.Len() == 0 {
			return (*Value)(nil)
		}
		r := make(Slice, s.Len())
		for i := range r {
			r[i] = s.At(i)
		}
		return &r[0]
	}
	panic(m.unsupported("builtin " + b.Name() + fmt.Sprintf(" %T", args[0])))
}

func (m *Machine) appendSlice(d Slice, src []Value, et types.Type) Value {
	n := len(d) + len(src)
	if len(src) == 0 {
		return d
	}
	m.steps += int64(len(src) / 8)
	agg := false
	switch src[0].(type) {
	case Struct, Array:
		agg = true
	}
	if n <= cap(d) {
		r := d[:n]
		if agg {
			tmp := make([]Value, len(src))
			for i := range src {
				tmp[i] = copyVal(src[i])
			}
			copy(r[len(d):], tmp)
		} else {
			copy(r[len(d):], src)
		}
		return r
	}
	esz := 8
	if et != nil {
		esz = int(m.sizeof(et))
	}
	nc := growCap(len(d), cap(d), len(src), esz)
	m.alloc(nc - cap(d))
	r := make(Slice, n, nc)
	copy(r, d)
	for i := range src {
		if agg {
			r[len(d)+i] = copyVal(src[i])
		} else {
			r[len(d)+i] = src[i]
		}
	}
	if nc > n && et != nil {
		full := r[:nc]
		z := zero(et)
		_, sc := z.(*term.Term)
		for i := n; i < nc; i++ {
			if sc || i == n {
				full[i] = z
			} else {
				full[i] = zero(et)
			}
		}
	}
	return r
}

var sizes = types.SizesFor("gc", "amd64")

func (m *Machine) sizeof(t types.Type) int64 { return sizes.Sizeof(t) }

// growCap mirrors the Go runtime's capacity growth (via host appends).
func growCap(l, c, add, esz int) int {
	switch {
	case esz == 1:
		return cap(append(make([]byte, l, c), make([]byte, add)...))
	case esz <= 2:
		return cap(append(make([]uint16, l, c), make([]uint16, add)...))
	case esz <= 4:
		return cap(append(make([]uint32, l, c), make([]uint32, add)...))
	case esz <= 8:
		return cap(append(make([]uint64, l, c), make([]uint64, add)...))
	case esz <= 16:
		return cap(append(make([][2]uint64, l, c), make([][2]uint64, add)...))
	case esz <= 24:
		return cap(append(make([][3]uint64, l, c), make([][3]uint64, add)...))
	default:
		nc := 2 * c
		if nc < l+add {
			nc = l + add
		}
		return nc
	}
}

// doRecover implements recover() called from a deferred function.
func (m *Machine) doRecover() Value {
	fr := m.g.top // the deferred function's frame
	if fr == nil || fr.caller == nil {
		return Iface{}
	}
	c := fr.caller
	if c.panicking {
		c.panicking = false
		v := c.pan.v
		if i, ok := v.(Iface); ok {
			return i
		}
		return Iface{t: types.Typ[types.String], v: Str{s: c.pan.msg}}
	}
	return Iface{}
}

var traceOn = os.Getenv("GOSYM_TRACE") != ""

func (m *Machine) traceInstr(fr *frame, ci *cinstr) {
	s := ""
	for i := range ci.ops {
		v := fmt.Sprintf("%v", fr.get(&ci.ops[i]))
		if len(v) > 60 {
			v = v[:60]
		}
		s += " [" + v + "]"
	}
	nm := ""
	if v, ok := ci.in.(ssa.Value); ok {
		nm = v.Name() + " = "
	}
	fmt.Fprintf(os.Stderr, "%*s%s: %s%s %s\n", fr.depth, "", fr.fi.fn.Name(), nm, ci.in, s)
}
