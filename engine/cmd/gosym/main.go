// Command gosym decides the properties of /verif/properties.jsonl by
// symbolic execution of the repository's Go SSA with an SMT solver.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"gosym/interp"
)

const repoMod = "github.com/sbraveyoung/GGmpeg"

var (
	verifDir = "/verif"
	repoDir  = "/repo"
)

func main() {
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verifDir = v
	}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repoDir = v
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: gosym check|replay|list ...")
		os.Exit(0)
	}
	if f := os.Getenv("GOSYM_PROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			_ = pprof.StartCPUProfile(w)
			go func() { time.Sleep(25 * time.Second); pprof.StopCPUProfile() }()
		}
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "list":
		fs, err := scanHarnesses(filepath.Join(verifDir, "harness"))
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, f := range fs {
			for _, h := range f.hs {
				fmt.Printf("%s %s.%s  %s\n", h.Prop, h.Pkg, h.Func, h.Bounds)
			}
		}
	}
}

type job struct {
	h       *Harness
	entry   interface{}
	queue   []interp.Item
	active  int
	started int
	res     *interp.Result
	mu      sync.Mutex
	cands   []cand
	stop    bool
	t0      time.Time
	wall    time.Duration
	dead    time.Time
	seen    map[string]int
	val     []valTrace
}

type cand struct {
	h *Harness
	v interp.Violation
}

type valTrace struct {
	h  *Harness
	nd []interp.NDJSON
}

func cmdCheck(args []string) int {
	// flags may follow the property id
	prop := ""
	if len(args) > 0 && !strings.HasPrefix(args[0], "-") {
		prop = args[0]
		args = args[1:]
	}
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fs.String("tier", "", "quick|thorough")
	strict := fs.Bool("strict", false, "development: fail on vacuity, unsupported code, mismatches")
	only := fs.String("only", "", "only this harness")
	nw := fs.Int("j", runtime.NumCPU(), "workers")
	budget := fs.Int("budget", 0, "seconds for exploration")
	verbose := fs.Bool("v", false, "verbose")
	fs.Parse(args)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	thorough := *tier == "thorough"
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	if *budget == 0 {
		*budget = 420
		if thorough {
			*budget = 620
		}
	}
	t0 := time.Now()
	os.Setenv("GOTOOLCHAIN", "local")
	os.Setenv("GOPROXY", "off")
	os.Setenv("GOFLAGS", "-mod=mod")
	os.Setenv("CGO_ENABLED", "0")
	if os.Getenv("HOME") == "" {
		os.Setenv("HOME", "/root")
	}

	files, err := scanHarnesses(filepath.Join(verifDir, "harness"))
	if err != nil {
		fmt.Println("REDUCED-BOUND: harness scan:", err)
		if *strict {
			return 2
		}
		files = nil
	}
	notes := []string{}
	// overlay: harness files of this property plus helpers of those packages
	pkgs := map[string]bool{}
	for _, f := range files {
		if f.props[prop] {
			pkgs[f.pkg] = true
		}
	}
	ndSrc, _ := os.ReadFile(filepath.Join(verifDir, "harness/verifnd/nd.go"))
	ov := map[string][]byte{filepath.Join(repoDir, "verifnd/nd.go"): ndSrc}
	src := map[string]*harnessFile{}
	disk := map[string]string{filepath.Join(repoDir, "verifnd/nd.go"): filepath.Join(verifDir, "harness/verifnd/nd.go")}
	if pkgs["librtmp"] || pkgs["libsrt"] {
		b, _ := os.ReadFile(filepath.Join(verifDir, "harness/verifnd/udp.go"))
		ov[filepath.Join(repoDir, "verifnd/udp.go")] = b
		disk[filepath.Join(repoDir, "verifnd/udp.go")] = filepath.Join(verifDir, "harness/verifnd/udp.go")
	}
	if pkgs["librtmp"] {
		b, _ := os.ReadFile(filepath.Join(verifDir, "harness/verifnd/tcp.go"))
		ov[filepath.Join(repoDir, "verifnd/tcp.go")] = b
		disk[filepath.Join(repoDir, "verifnd/tcp.go")] = filepath.Join(verifDir, "harness/verifnd/tcp.go")
	}
	for _, f := range files {
		if !pkgs[f.pkg] || (len(f.props) > 0 && !f.props[prop]) {
			continue
		}
		b, err := os.ReadFile(f.path)
		if err != nil {
			continue
		}
		vp := filepath.Join(repoDir, f.pkg, "zz_verif_"+filepath.Base(f.path))
		ov[vp] = b
		src[vp] = f
		disk[vp] = f.path
	}
	var eng *interp.Engine
	dropped := map[string]string{}
	var loadT time.Duration
	for try := 0; try < 6 && len(pkgs) > 0; try++ {
		var pats []string
		for p := range pkgs {
			pats = append(pats, "./"+p)
		}
		sort.Strings(pats)
		pats = append(pats, "./verifnd")
		eng, err = interp.Load(repoDir, ov, pats...)
		if err == nil {
			break
		}
		eng = nil
		le, ok := err.(*interp.LoadError)
		if !ok || len(le.Files) == 0 {
			notes = append(notes, "load: "+err.Error())
			break
		}
		for f, msg := range le.Files {
			if strings.HasPrefix(f, filepath.Join(repoDir, "verifnd")) {
				continue
			}
			dropped[f] = msg
			delete(ov, f)
			delete(src, f)
			delete(disk, f)
			notes = append(notes, "harness file dropped (does not compile against this tree): "+filepath.Base(f)+": "+msg)
		}
	}
	loadT = time.Since(t0)
	var jobs []*job
	if eng != nil {
		eng.RepoMod = repoMod
		for _, f := range files {
			if src[filepath.Join(repoDir, f.pkg, "zz_verif_"+filepath.Base(f.path))] == nil {
				continue
			}
			for _, h := range f.hs {
				if h.Prop != prop || (*only != "" && h.Func != *only) || (h.Tier == "thorough" && !thorough) || (h.Tier == "quick" && thorough) {
					continue
				}
				fn := eng.Func(repoMod+"/"+h.Pkg, h.Func)
				if fn == nil {
					notes = append(notes, "harness not found: "+h.Func)
					continue
				}
				jobs = append(jobs, &job{h: h, entry: fn, res: interp.NewResult(), queue: []interp.Item{{}}, seen: map[string]int{}})
			}
		}
	}
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		tmp = filepath.Join(verifDir, "evidence", "tmp")
		os.MkdirAll(tmp, 0o755)
	}
	defer os.RemoveAll(tmp)
	rp := newReplayer(tmp, disk, thorough)
	defer rp.cleanup()

	known := readKnown(filepath.Join(verifDir, "known-findings.txt"))
	st := explore(eng, jobs, *nw, time.Now().Add(time.Duration(*budget)*time.Second), thorough, rp, known, *verbose)

	code := report(prop, *tier, seed, jobs, st, rp, notes, known, t0, loadT, *strict, *only != "", files)
	return code
}

type knownEntry struct{ id, prop, text string }

// readKnown parses lines "finding: property=<id> id=<kid> <text>".
func readKnown(p string) map[string]knownEntry {
	out := map[string]knownEntry{}
	b, err := os.ReadFile(p)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		var e knownEntry
		var rest []string
		for _, w := range strings.Fields(l[len("finding:"):]) {
			switch {
			case strings.HasPrefix(w, "property=") && e.prop == "":
				e.prop = w[9:]
			case strings.HasPrefix(w, "id=") && e.id == "":
				e.id = w[3:]
			default:
				rest = append(rest, w)
			}
		}
		e.text = strings.Join(rest, " ")
		out[e.id] = e
	}
	return out
}

func cmdReplay(args []string) int {
	if len(args) < 1 {
		fmt.Println("usage: gosym replay FILE")
		return 0
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return 0
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		return 0
	}
	files, err := scanHarnesses(filepath.Join(verifDir, "harness"))
	if err != nil {
		fmt.Println(err)
		return 0
	}
	disk := map[string]string{filepath.Join(repoDir, "verifnd/nd.go"): filepath.Join(verifDir, "harness/verifnd/nd.go")}
	disk[filepath.Join(repoDir, "verifnd/udp.go")] = filepath.Join(verifDir, "harness/verifnd/udp.go")
	disk[filepath.Join(repoDir, "verifnd/tcp.go")] = filepath.Join(verifDir, "harness/verifnd/tcp.go")
	var h *Harness
	for _, hf := range files {
		for _, x := range hf.hs {
			if x.Func == f.Harness && x.Pkg == f.Pkg {
				h = x
			}
		}
	}
	if h == nil {
		fmt.Println("no such harness")
		return 0
	}
	for _, hf := range files {
		if hf.pkg == f.Pkg && (len(hf.props) == 0 || hf.props[h.Prop]) {
			disk[filepath.Join(repoDir, hf.pkg, "zz_verif_"+filepath.Base(hf.path))] = hf.path
		}
	}
	tmp, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(tmp)
	rp := newReplayer(tmp, disk, f.Thorough)
	r := rp.run(h, f.ND, f.Kind)
	fmt.Println(r.out)
	fmt.Println("outcome:", r.kind)
	if r.bad() {
		return 1
	}
	return 0
}
