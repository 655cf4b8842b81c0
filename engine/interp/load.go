package interp

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Engine holds the loaded program, shared read-only between workers.
type Engine struct {
	Prog    *ssa.Program
	Fset    *token.FileSet
	RepoMod string
	pkgs    map[string]*ssa.Package

	mu      sync.Mutex
	infos   sync.Map // *ssa.Function -> *fnInfo
	impl    sync.Map // implKey -> bool
	meth    sync.Map // methKey -> *ssa.Function
	rtti    types.Type
	perPath sync.Map // *ssa.Package -> bool
}

type implKey struct {
	t types.Type
	i *types.Interface
}
type methKey struct {
	t    types.Type
	name string
}

// LoadError reports compile problems by file.
type LoadError struct {
	Files map[string]string
	Other string
}

func (e *LoadError) Error() string {
	s := e.Other
	for f, m := range e.Files {
		s += "\n" + f + ": " + m
	}
	return s
}

// Load loads the given package patterns from dir with overlay files.
func Load(dir string, overlay map[string][]byte, patterns ...string) (*Engine, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     dir,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
	}
	init, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	le := &LoadError{Files: map[string]string{}}
	bad := false
	packages.Visit(init, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			bad = true
			pos := e.Pos
			if i := strings.Index(pos, ":"); i > 0 {
				pos = pos[:i]
			}
			if _, ok := overlay[pos]; ok {
				le.Files[pos] = e.Error()
			} else {
				le.Other += e.Error() + "\n"
			}
		}
	})
	if bad {
		return nil, le
	}
	prog, _ := ssautil.AllPackages(init, ssa.InstantiateGenerics)
	e := &Engine{Prog: prog, Fset: prog.Fset, pkgs: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	return e, nil
}

// Func finds a package-level function.
func (e *Engine) Func(pkg, name string) *ssa.Function {
	p := e.pkgs[pkg]
	if p == nil {
		return nil
	}
	e.build(p)
	return p.Func(name)
}

func (e *Engine) build(p *ssa.Package) { p.Build() }

// pkgType finds a named type's types.Type.
func (e *Engine) pkgType(pkg, name string) types.Type {
	p := e.pkgs[pkg]
	if p == nil {
		return nil
	}
	m := p.Type(name)
	if m == nil {
		return nil
	}
	return m.Type()
}

func isStd(path string) bool {
	first := path
	if i := strings.Index(path, "/"); i >= 0 {
		first = path[:i]
	}
	return !strings.Contains(first, ".")
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	if _, ok := t.(*nativeType); ok {
		return true
	}
	k := implKey{t, it}
	if v, ok := e.impl.Load(k); ok {
		return v.(bool)
	}
	e.mu.Lock()
	r := types.Implements(t, it)
	e.mu.Unlock()
	e.impl.Store(k, r)
	return r
}

func (e *Engine) method(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := methKey{t, name}
	if pkg != nil && !token.IsExported(name) {
		k.name = pkg.Path() + "." + name
	}
	if v, ok := e.meth.Load(k); ok {
		return v.(*ssa.Function)
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	sel := e.Prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	f := e.Prog.MethodValue(sel)
	e.meth.Store(k, f)
	return f
}

// operand is a pre-resolved instruction operand.
type operand struct {
	kind byte // 0 slot, 1 const, 2 global, 3 nil(absent)
	slot int
	v    Value
	g    *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	ops []operand
	dst int
}

type cblock struct {
	phis  []cinstr
	code  []cinstr
	preds []int
	pure  bool // only pure code followed by a Jump
}

type fnInfo struct {
	fn       *ssa.Function
	name     string
	nslots   int
	blocks   []cblock
	hasDefer bool
	intr     Intrinsic
	params   int
	isRepo   bool
	race     int8
}

type Intrinsic func(m *Machine, fn *ssa.Function, args []Value) Value

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if v, ok := e.infos.Load(fn); ok {
		return v.(*fnInfo)
	}
	if fn.Pkg != nil {
		e.build(fn.Pkg)
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		e.build(o.Pkg)
	} else if ob := fn.Object(); ob != nil && ob.Pkg() != nil {
		if p := e.pkgs[ob.Pkg().Path()]; p != nil {
			e.build(p)
		}
	}
	if r := redirects[fnName(fn)]; r != "" {
		if t := e.Func(ndPkg, r); t != nil {
			fi := e.info(t)
			e.infos.Store(fn, fi)
			return fi
		}
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if v, ok := e.infos.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := &fnInfo{fn: fn, name: fnName(fn)}
	fi.intr = findIntrinsic(fi.name, fn)
	if fn.Pkg != nil {
		fi.isRepo = strings.HasPrefix(fn.Pkg.Pkg.Path(), e.RepoMod) && e.RepoMod != ""
	}
	if fi.intr == nil {
		compileFn(fi)
	}
	e.infos.Store(fn, fi)
	return fi
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func compileFn(fi *fnInfo) {
	fn := fi.fn
	slots := map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) {
		slots[v] = n
		n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	fi.params = n
	for _, f := range fn.FreeVars {
		add(f)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nslots = n
	op := func(v ssa.Value) operand {
		switch v := v.(type) {
		case nil:
			return operand{kind: 3}
		case *ssa.Const:
			return operand{kind: 1, v: constValue(v)}
		case *ssa.Function, *ssa.Builtin:
			return operand{kind: 1, v: v}
		case *ssa.Global:
			return operand{kind: 2, g: v}
		}
		s, ok := slots[v]
		if !ok {
			panic(fmt.Sprintf("no slot for %v in %v", v, fn))
		}
		return operand{kind: 0, slot: s}
	}
	fi.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &fi.blocks[bi]
		for _, p := range b.Preds {
			cb.preds = append(cb.preds, p.Index)
		}
		cb.pure = true
		for _, in := range b.Instrs {
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = slots[v]
			}
			for _, o := range in.Operands(nil) {
				if o == nil || *o == nil {
					ci.ops = append(ci.ops, operand{kind: 3})
				} else {
					ci.ops = append(ci.ops, op(*o))
				}
			}
			switch in := in.(type) {
			case *ssa.Defer:
				fi.hasDefer = true
				cb.pure = false
			case *ssa.BinOp:
				switch in.Op {
				case token.QUO, token.REM, token.SHL, token.SHR:
					if !isConstNZ(in.Y) {
						cb.pure = false
					}
				}
				if !isScalar(in.X.Type()) {
					cb.pure = false
				}
			case *ssa.Convert:
				if !isScalar(in.X.Type()) || !isScalar(in.Type()) {
					cb.pure = false
				}
			case *ssa.UnOp:
				if in.Op == token.MUL || in.Op == token.ARROW {
					cb.pure = false
				}
			case *ssa.ChangeType, *ssa.Jump, *ssa.DebugRef:
			case *ssa.Phi:
				cb.pure = false
			default:
				cb.pure = false
			}
			if _, ok := in.(*ssa.Phi); ok {
				cb.phis = append(cb.phis, ci)
			} else if _, ok := in.(*ssa.DebugRef); !ok {
				cb.code = append(cb.code, ci)
			}
		}
		if len(b.Succs) != 1 || len(cb.code) > 12 || len(cb.preds) != 1 {
			cb.pure = false
		}
	}
}

func isScalar(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0 && b.Kind() != types.UnsafePointer
}

func isConstNZ(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return false
	}
	t, ok := constValue(c).(interface{ IsConst() bool })
	return ok && t != nil && c.Value.String() != "0"
}

// PosStr renders a position relative to dir.
func (e *Engine) PosStr(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := e.Fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(filepath.Dir(ps.Filename))+"/"+filepath.Base(ps.Filename), ps.Line)
}
