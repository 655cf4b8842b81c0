package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"gosym/interp"
)

type replayFile struct {
	Property string          `json:"property"`
	Pkg      string          `json:"pkg"`
	Harness  string          `json:"harness"`
	Kind     string          `json:"kind"`
	Label    string          `json:"label"`
	Where    string          `json:"where"`
	Native   string          `json:"native_outcome"`
	Thorough bool            `json:"thorough"`
	ND       []interp.NDJSON `json:"nd"`
	Trace    []string        `json:"trace,omitempty"`
	HowTo    string          `json:"how_to"`
}

type replayer struct {
	tmp      string
	disk     map[string]string // virtual -> real harness files
	thorough bool
	mu       sync.Mutex
	bins     map[string]string
	errs     map[string]string
	n        int
	Count    int
}

func newReplayer(tmp string, disk map[string]string, thorough bool) *replayer {
	return &replayer{tmp: tmp, disk: disk, thorough: thorough, bins: map[string]string{}, errs: map[string]string{}}
}

func (r *replayer) cleanup() {}

var fnRe = regexp.MustCompile(`(?m)^func ([A-Z]\w*)\(\) \{`)

// build compiles the native replay binary for one package.
func (r *replayer) build(pkg string, race bool) (string, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	bk := pkg
	if race {
		bk += ".race"
	}
	if b, ok := r.bins[bk]; ok {
		return b, nil
	}
	if e, ok := r.errs[bk]; ok {
		return "", fmt.Errorf("%s", e)
	}
	ov := map[string]string{}
	var fns []string
	pkgName := pkg
	for v, d := range r.disk {
		dir := filepath.Base(filepath.Dir(v))
		if dir != pkg && dir != "verifnd" {
			continue
		}
		ov[v] = d
		if dir == pkg {
			b, _ := os.ReadFile(d)
			for _, m := range fnRe.FindAllSubmatch(b, -1) {
				fns = append(fns, string(m[1]))
			}
			if i := bytes.Index(b, []byte("\npackage ")); i >= 0 {
				pkgName = strings.TrimSpace(strings.SplitN(string(b[i+9:]), "\n", 2)[0])
			} else if bytes.HasPrefix(b, []byte("package ")) {
				pkgName = strings.TrimSpace(strings.SplitN(string(b[8:]), "\n", 2)[0])
			}
		}
	}
	sort.Strings(fns)
	// the package's own tests are hidden: only the replay entry is built
	ts, _ := filepath.Glob(filepath.Join(repoDir, pkg, "*_test.go"))
	for _, t := range ts {
		ov[t] = ""
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"testing\"\n\n\tvnd \"%s/verifnd\"\n)\n\nfunc TestVerifReplay(t *testing.T) {\n\tswitch vnd.Harness() {\n", pkgName, repoMod)
	for _, f := range fns {
		fmt.Fprintf(&b, "\tcase %q:\n\t\t%s()\n", f, f)
	}
	b.WriteString("\tdefault:\n\t\tt.Fatal(\"no harness\")\n\t}\n\tvnd.Done()\n\tprintln(\"VERIF-DONE\")\n}\n")
	tf := filepath.Join(r.tmp, pkg+"_replay_test.go")
	os.WriteFile(tf, []byte(b.String()), 0o644)
	ov[filepath.Join(repoDir, pkg, "zz_verif_replay_test.go")] = tf
	j, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(r.tmp, pkg+"_ov.json")
	os.WriteFile(of, j, 0o644)
	bin := filepath.Join(r.tmp, bk+".test")
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	args := []string{"test", "-c", "-vet=off", "-overlay", of, "-o", bin}
	if race {
		//every access keeps its own line
		args = append(args, "-race", "-gcflags=github.com/sbraveyoung/GGmpeg/...=-l")
	}
	c := exec.CommandContext(ctx, "go", append(args, "./"+pkg)...)
	if race {
		c.Env = append(os.Environ(), "CGO_ENABLED=1")
	}
	c.Dir = repoDir
	out, err := c.CombinedOutput()
	if err != nil {
		e := fmt.Sprintf("native build of %s: %v: %s", pkg, err, tail(string(out), 600))
		r.errs[bk] = e
		return "", fmt.Errorf("%s", e)
	}
	r.bins[bk] = bin
	return bin, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type outcome struct {
	kind string // ok assert panic timeout assume desync error
	out  string
}

func (o outcome) bad() bool { return o.kind == "assert" || o.kind == "panic" || o.kind == "timeout" || o.kind == "race" }

// run executes the harness natively under the given assignment.
func (r *replayer) run(h *Harness, nd []interp.NDJSON, kind string) outcome {
	race := kind == "race"
	bin, err := r.build(h.Pkg, race)
	if err != nil {
		return outcome{"error", err.Error()}
	}
	r.mu.Lock()
	r.n++
	id := r.n
	r.Count++
	r.mu.Unlock()
	dir := filepath.Join(r.tmp, fmt.Sprintf("run%d", id))
	os.MkdirAll(filepath.Join(dir, "t", "d"), 0o755)
	defer os.RemoveAll(dir)
	j, _ := json.Marshal(map[string]interface{}{"harness": h.Func, "thorough": r.thorough, "nd": nd})
	jf := filepath.Join(dir, "in.json")
	os.WriteFile(jf, j, 0o644)
	to := 30 * time.Second
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	c := exec.CommandContext(ctx, "bash", "-c", `ulimit -v 6000000; exec "$0" -test.run '^TestVerifReplay$' -test.timeout 25s -test.count 1`, bin)
	if race { // the detector reserves a large address range
		c = exec.CommandContext(ctx, bin, "-test.run", "^TestVerifReplay$", "-test.timeout", "25s", "-test.count", "1")
	}
	c.Dir = dir
	c.Env = append(os.Environ(), "GORACE=history_size=4", "VERIF_REPLAY="+jf, "VERIF_TMP="+filepath.Join(dir, "t"), "GOMAXPROCS=4")
	var o bytes.Buffer
	c.Stdout = &limWriter{b: &o}
	c.Stderr = c.Stdout
	err = c.Run()
	s := o.String()
	switch {
	case race && strings.Contains(s, "WARNING: DATA RACE"):
		return outcome{"race", s}
	case strings.Contains(s, "VERIF-ASSERT-FAILED"):
		return outcome{"assert", s}
	case strings.Contains(s, "VERIF-ASSUME-FAILED"):
		return outcome{"assume", s}
	case strings.Contains(s, "VERIF-DESYNC"):
		return outcome{"desync", s}
	case ctx.Err() != nil || strings.Contains(s, "panic: test timed out"):
		return outcome{"timeout", s}
	case err != nil && (strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") || strings.Contains(s, "runtime: out of memory")):
		return outcome{"panic", s}
	case err == nil && strings.Contains(s, "VERIF-DONE"):
		return outcome{"ok", s}
	}
	return outcome{"error", s}
}

type limWriter struct {
	mu sync.Mutex
	b  *bytes.Buffer
}

func (w *limWriter) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.b.Len() < 1<<20 {
		w.b.Write(p)
	} else {
		// keep the tail: the verdict line is printed last
		k := w.b.Bytes()
		n := copy(k, k[len(k)/2:])
		w.b.Truncate(n)
		w.b.Write(p)
	}
	return len(p), nil
}

// matches tells whether a native outcome confirms the candidate.
func (o outcome) matches(v *interp.Violation) bool {
	switch v.Kind {
	case "race":
		return o.kind == "race" && sameRace(v.Label, o.out)
	case "deadlock":
		return o.kind == "timeout" || (o.kind == "panic" && strings.Contains(o.out, "deadlock")) || o.kind == "assert"
	case "steplimit":
		return o.kind == "timeout" || o.kind == "assert" || o.kind == "panic"
	case "panic":
		return o.kind == "panic" || o.kind == "assert"
	}
	return o.kind == "assert" || o.kind == "panic"
}

var racePosRe = regexp.MustCompile(`(atomic )?(?:read|write) in \S+@(\S+:\d+)`)

// sameRace tells whether the detector's output has a race between the two
// places the label names.
func sameRace(label, out string) bool {
	ps := racePosRe.FindAllStringSubmatch(label, -1)
	if len(ps) != 2 {
		return false
	}
	for _, rep := range strings.Split(out, "WARNING: DATA RACE")[1:] {
		if i := strings.Index(rep, "\n=================="); i >= 0 {
			rep = rep[:i]
		}
		//the detector leaves out where an atomic operation is called
		same := true
		for _, p := range ps {
			at := "/" + p[2] + " "
			if p[1] != "" {
				at = "sync/atomic."
			}
			same = same && strings.Contains(rep, at)
		}
		if same {
			return true
		}
	}
	return false
}
