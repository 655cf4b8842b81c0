package term

import (
	"fmt"
	"strings"
)

// Printer emits declarations/definitions once per solver process.
type Printer struct {
	declared map[*Term]bool
	ufs      map[string]bool
	defs     map[*Term]string
	out      *strings.Builder
}

func NewPrinter() *Printer {
	return &Printer{declared: map[*Term]bool{}, ufs: map[string]bool{}, defs: map[*Term]string{}}
}

func sort(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	if t.W == 0 {
		if t.V != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.V, t.W)
}

func fsort(w uint8) string {
	if w == 32 {
		return "(_ to_fp 8 24)"
	}
	return "(_ to_fp 11 53)"
}
func fsortU(w uint8) string {
	if w == 32 {
		return "(_ to_fp_unsigned 8 24)"
	}
	return "(_ to_fp_unsigned 11 53)"
}

// Ref returns an expression for t, emitting needed definitions to out.
func (p *Printer) Ref(t *Term, out *strings.Builder) string {
	if t.Op == Const {
		return constStr(t)
	}
	if s, ok := p.defs[t]; ok {
		return s
	}
	var s string
	switch t.Op {
	case Var:
		s = "|" + t.Name + "|"
		fmt.Fprintf(out, "(declare-const %s %s)\n", s, sort(t.W))
		p.defs[t] = s
		return s
	}
	as := t.A
	if t.Op == BAnd || t.Op == BOr {
		// one wide connective instead of a chain of definitions, which
		// the solver would expand one into the other
		as = p.flatten(t, t.Op, nil)
	}
	args := make([]string, len(as))
	for i, a := range as {
		args[i] = p.Ref(a, out)
	}
	j := strings.Join(args, " ")
	fp := func(i int) string { return "(" + fsort(t.A[i].W) + " " + args[i] + ")" }
	switch t.Op {
	case UF:
		fn := fmt.Sprintf("|%s/%d/%d|", t.Name, len(t.A), t.W)
		if !p.ufs[fn] {
			p.ufs[fn] = true
			ss := make([]string, len(t.A))
			for i, a := range t.A {
				ss[i] = sort(a.W)
			}
			fmt.Fprintf(out, "(declare-fun %s (%s) %s)\n", fn, strings.Join(ss, " "), sort(t.W))
		}
		if len(args) == 0 {
			s = fn
		} else {
			s = "(" + fn + " " + j + ")"
		}
	case Extract:
		s = fmt.Sprintf("((_ extract %d %d) %s)", t.hi(), t.lo(), j)
	case SExt:
		s = fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.A[0].W, j)
	case FAdd, FSub, FMul, FDiv:
		n := map[Op]string{FAdd: "fp.add", FSub: "fp.sub", FMul: "fp.mul", FDiv: "fp.div"}[t.Op]
		s = fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s %s))", n, fp(0), fp(1))
	case FNeg:
		s = fmt.Sprintf("(fp.to_ieee_bv (fp.neg %s))", fp(0))
	case FLt, FLe, FEq:
		n := map[Op]string{FLt: "fp.lt", FLe: "fp.leq", FEq: "fp.eq"}[t.Op]
		s = fmt.Sprintf("(%s %s %s)", n, fp(0), fp(1))
	case FFromS:
		s = fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s))", fsort(t.W), args[0])
	case FFromU:
		s = fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s))", fsortU(t.W), args[0])
	case FToS:
		s = fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.W, fp(0))
	case FToU:
		s = fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.W, fp(0))
	case FCvt:
		s = fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s))", fsort(t.W), fp(0))
	case FCeil:
		s = fmt.Sprintf("(fp.to_ieee_bv (fp.roundToIntegral RTP %s))", fp(0))
	case FFloor:
		s = fmt.Sprintf("(fp.to_ieee_bv (fp.roundToIntegral RTN %s))", fp(0))
	default:
		s = "(" + opNames[t.Op] + " " + j + ")"
	}
	if len(s) > 60 || t.Op == UF || t.Size > 12 {
		n := fmt.Sprintf("t%d", t.ID)
		fmt.Fprintf(out, "(define-fun %s () %s %s)\n", n, sort(t.W), s)
		s = n
	}
	p.defs[t] = s
	return s
}

// flatten lists the operands of a tree of equal connectives, left to right.
func (p *Printer) flatten(t *Term, op Op, into []*Term) []*Term {
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if _, ok := p.defs[x]; (!ok || x == t) && x.Op == op && len(into) < 1<<14 {
			for i := len(x.A) - 1; i >= 0; i-- {
				stack = append(stack, x.A[i])
			}
			continue
		}
		into = append(into, x)
	}
	return into
}
