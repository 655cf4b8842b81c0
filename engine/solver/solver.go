// Package solver drives SMT solver processes over pipes.
package solver

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"

	"gosym/term"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type Stats struct {
	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	Fallback int
	Time     time.Duration
	Cross    int
	CrossBad int
}

// Sub is the difference of two snapshots.
func (a Stats) Sub(b Stats) Stats {
	return Stats{a.Queries - b.Queries, a.Sat - b.Sat, a.Unsat - b.Unsat, a.Unknown - b.Unknown, a.Fallback - b.Fallback, a.Time - b.Time, a.Cross - b.Cross, a.CrossBad - b.CrossBad}
}

type Solver struct {
	bin    []string
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	p      *term.Printer
	stack  []*term.Term
	TO     int // ms
	Stats  Stats
	buf    strings.Builder
	n      int
	Cross  string // cross-check solver binary ("" = off)
	crossN int
}

func New(timeoutMs int) *Solver {
	s := &Solver{TO: timeoutMs}
	s.bin = []string{"z3", "-in", "-smt2"}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	s.cmd.Stderr = os.Stderr
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.p = term.NewPrinter()
	s.stack = nil
	s.n = 0
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.TO)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Restart replaces the solver process.
func (s *Solver) Restart() { s.restart() }

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) sync(pc []*term.Term) {
	k := 0
	for k < len(pc) && k < len(s.stack) && pc[k] == s.stack[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		fmt.Fprintf(&s.buf, "(pop %d)\n", n)
		s.stack = s.stack[:k]
	}
	for _, c := range pc[k:] {
		r := s.p.Ref(c, &s.buf)
		fmt.Fprintf(&s.buf, "(push 1)\n(assert %s)\n", r)
		s.stack = append(s.stack, c)
	}
}

// Check decides pc ∧ extra. If sat and want != nil, returns a model for the leaves.
func (s *Solver) Check(pc []*term.Term, extra *term.Term, wantModel bool) (Result, term.Model) {
	t0 := time.Now()
	defer func() { s.Stats.Time += time.Since(t0) }()
	s.Stats.Queries++
	s.n++
	if s.n > 20000 {
		s.restart()
	}
	s.buf.Reset()
	s.sync(pc)
	r := "true"
	if extra != nil {
		r = s.p.Ref(extra, &s.buf)
	}
	fmt.Fprintf(&s.buf, "(push 1)\n(assert %s)\n(check-sat)\n", r)
	io.WriteString(s.in, s.buf.String())
	s.buf.Reset()
	line := s.readLine()
	res := Unknown
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	}
	var m term.Model
	if res == Sat && wantModel {
		m = s.model(pc, extra)
		if m == nil {
			res = Unknown
		}
	}
	io.WriteString(s.in, "(pop 1)\n")
	if strings.HasPrefix(line, "(error") || line == "" {
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver error:", line)
		}
		s.restart()
	}
	if d := os.Getenv("GOSYM_DUMP"); d != "" && time.Since(t0) > time.Second {
		os.WriteFile(fmt.Sprintf("%s/slow%d-%d.smt2", d, time.Since(t0).Milliseconds(), time.Now().UnixNano()), []byte(script(pc, extra, term.NewPrinter())+"(check-sat)\n"), 0o644)
	}
	if res == Unknown {
		s.Stats.Fallback++
		res, m = s.oneShot(pc, extra, wantModel)
	}
	switch res {
	case Sat:
		s.Stats.Sat++
	case Unsat:
		s.Stats.Unsat++
		if s.Cross != "" {
			s.crossN++
			if s.crossN%17 == 1 {
				s.crossCheck(pc, extra)
			}
		}
	default:
		s.Stats.Unknown++
	}
	return res, m
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if err != nil {
			return l
		}
		if l != "" {
			return l
		}
	}
}

func (s *Solver) readSexp() string {
	var b strings.Builder
	depth, started := 0, false
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return b.String()
		}
		b.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
			if started && depth == 0 {
				return b.String()
			}
		}
	}
}

func (s *Solver) model(pc []*term.Term, extra *term.Term) term.Model {
	seen := map[*term.Term]bool{}
	var leaves []*term.Term
	for _, c := range pc {
		c.Leaves(seen, &leaves)
	}
	if extra != nil {
		extra.Leaves(seen, &leaves)
	}
	m := term.Model{}
	if len(leaves) == 0 {
		return m
	}
	var b strings.Builder
	b.WriteString("(get-value (")
	var defs strings.Builder
	for _, l := range leaves {
		b.WriteString(s.p.Ref(l, &defs))
		b.WriteByte(' ')
	}
	b.WriteString("))\n")
	io.WriteString(s.in, b.String())
	txt := s.readSexp()
	vals := parseValues(txt)
	if len(vals) != len(leaves) {
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "model parse mismatch", len(vals), len(leaves), txt)
		}
		return nil
	}
	for i, l := range leaves {
		m[l] = vals[i]
	}
	return m
}

// parseValues extracts the last token of each (name value) pair.
func parseValues(txt string) []uint64 {
	var out []uint64
	// tokens
	i := 0
	n := len(txt)
	depth := 0
	var last string
	for i < n {
		c := txt[i]
		switch {
		case c == '(':
			depth++
			i++
			if depth >= 3 || (depth == 2 && last == "(_") {
			}
		case c == ')':
			if depth == 2 {
				if v, ok := parseVal(last); ok {
					out = append(out, v)
				}
			}
			depth--
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '|':
			j := i + 1
			for j < n && txt[j] != '|' {
				j++
			}
			last = txt[i : j+1]
			i = j + 1
		default:
			j := i
			for j < n && txt[j] != ' ' && txt[j] != ')' && txt[j] != '(' && txt[j] != '\n' {
				j++
			}
			last = txt[i:j]
			i = j
		}
	}
	return out
}

func parseVal(s string) (uint64, bool) {
	switch {
	case s == "true":
		return 1, true
	case s == "false":
		return 0, true
	case strings.HasPrefix(s, "#x"):
		v, err := strconv.ParseUint(s[2:], 16, 64)
		return v, err == nil
	case strings.HasPrefix(s, "#b"):
		v, err := strconv.ParseUint(s[2:], 2, 64)
		return v, err == nil
	}
	return 0, false
}

func script(pc []*term.Term, extra *term.Term, p *term.Printer) string {
	var b strings.Builder
	for _, c := range pc {
		r := p.Ref(c, &b)
		fmt.Fprintf(&b, "(assert %s)\n", r)
	}
	if extra != nil {
		r := p.Ref(extra, &b)
		fmt.Fprintf(&b, "(assert %s)\n", r)
	}
	return b.String()
}

func (s *Solver) oneShot(pc []*term.Term, extra *term.Term, want bool) (Result, term.Model) {
	for _, bin := range [][]string{{"z3-new", "-in", "-smt2"}, {"z3", "-in", "-smt2"}} {
		p := term.NewPrinter()
		txt := "(set-option :produce-models true)\n" + script(pc, extra, p)
		seen := map[*term.Term]bool{}
		var leaves []*term.Term
		for _, c := range pc {
			c.Leaves(seen, &leaves)
		}
		if extra != nil {
			extra.Leaves(seen, &leaves)
		}
		txt += "(check-sat)\n"
		if want && len(leaves) > 0 {
			var d strings.Builder
			txt += "(get-value ("
			for _, l := range leaves {
				txt += p.Ref(l, &d) + " "
			}
			txt += "))\n"
		}
		if d := os.Getenv("GOSYM_DUMP"); d != "" && bin[0] == "z3-new" {
			os.WriteFile(fmt.Sprintf("%s/%d-%d.smt2", d, os.Getpid(), time.Now().UnixNano()), []byte(txt), 0o644)
		}
		out := run(bin, txt, time.Duration(s.TO)*8*time.Millisecond)
		line, rest, _ := strings.Cut(out, "\n")
		line = strings.TrimSpace(line)
		if line == "unsat" {
			return Unsat, nil
		}
		if line == "sat" {
			m := term.Model{}
			if want {
				vals := parseValues(rest)
				if len(vals) != len(leaves) {
					continue
				}
				for i, l := range leaves {
					m[l] = vals[i]
				}
			}
			return Sat, m
		}
	}
	return Unknown, nil
}

func run(bin []string, txt string, to time.Duration) string {
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	c := exec.CommandContext(ctx, bin[0], bin[1:]...)
	c.Stdin = strings.NewReader(txt)
	var o bytes.Buffer
	c.Stdout = &o
	c.Run()
	return o.String()
}

func (s *Solver) crossCheck(pc []*term.Term, extra *term.Term) {
	txt := script(pc, extra, term.NewPrinter())
	if strings.Contains(txt, "fp.to_ieee_bv") && s.Cross == "cvc5" {
		return
	}
	bin := []string{s.Cross, "-in"}
	if s.Cross == "cvc5" {
		bin = []string{"cvc5", "--lang=smt2", "-"}
		txt = "(set-logic ALL)\n" + txt
	}
	out := run(bin, txt+"(check-sat)\n", 20*time.Second)
	line, _, _ := strings.Cut(out, "\n")
	switch strings.TrimSpace(line) {
	case "unsat":
		s.Stats.Cross++
	case "sat":
		s.Stats.Cross++
		s.Stats.CrossBad++
	}
}
