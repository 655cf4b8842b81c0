// Package verifnd is the harness-side API of the symbolic executor. The
// engine intercepts every function here; the bodies below are the native
// semantics used when a solver assignment is replayed against the real build.
package verifnd

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"time"
)

type draw struct {
	L string   `json:"l"`
	V []uint64 `json:"v"`
}

type replay struct {
	Harness  string `json:"harness"`
	Thorough bool   `json:"thorough"`
	ND       []draw `json:"nd"`
}

var (
	mu   sync.Mutex
	rp   *replay
	pos  int
	seq  int
	once sync.Once
)

func load() {
	once.Do(func() {
		rp = &replay{}
		f := os.Getenv("VERIF_REPLAY")
		if f == "" {
			return
		}
		b, err := os.ReadFile(f)
		if err == nil {
			err = json.Unmarshal(b, rp)
		}
		if err != nil {
			die("VERIF-DESYNC "+err.Error(), 5)
		}
	})
}

func die(msg string, code int) {
	fmt.Fprintln(os.Stderr, "\n"+msg)
	if code == 3 {
		os.Stderr.Write(debug.Stack())
	}
	os.Exit(code)
}

func next(label string, n int) []uint64 {
	load()
	mu.Lock()
	defer mu.Unlock()
	if pos >= len(rp.ND) {
		// past the recorded assignment: any value is as good as another
		return make([]uint64, n)
	}
	d := rp.ND[pos]
	if d.L != label || len(d.V) != n {
		die(fmt.Sprintf("VERIF-DESYNC want %s/%d have %s/%d", label, n, d.L, len(d.V)), 5)
	}
	pos++
	return d.V
}

// Harness names the harness selected for this run.
func Harness() string { load(); return rp.Harness }

// Bound selects a bound by tier.
func Bound(quick, thorough int) int {
	load()
	if rp.Thorough {
		return thorough
	}
	return quick
}

func U8(label string) uint8   { return uint8(next(label, 1)[0]) }
func U16(label string) uint16 { return uint16(next(label, 1)[0]) }
func U32(label string) uint32 { return uint32(next(label, 1)[0]) }
func U64(label string) uint64 { return next(label, 1)[0] }
func I64(label string) int64  { return int64(next(label, 1)[0]) }
func I32(label string) int32  { return int32(next(label, 1)[0]) }
func I16(label string) int16  { return int16(next(label, 1)[0]) }
func Bool(label string) bool  { return next(label, 1)[0]&1 != 0 }

// Range draws an int in [lo,hi] that stays symbolic.
func Range(label string, lo, hi int) int {
	v := int(next(label, 1)[0])
	if v < lo || v > hi {
		v = lo
	}
	return v
}

// Pick draws an int in [lo,hi]; every value is explored on its own path.
func Pick(label string, lo, hi int) int { return Range(label, lo, hi) }

func Bytes(label string, n int) []byte {
	v := next(label, n)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v[i])
	}
	return b
}

func String(label string, n int) string { return string(Bytes(label, n)) }

func Assume(c bool) {
	if !c {
		die("VERIF-ASSUME-FAILED", 4)
	}
}

func Assert(c bool, label string) {
	if !c {
		die("VERIF-ASSERT-FAILED "+label, 3)
	}
}

func Fail(label string) { Assert(false, label) }

func Reach(label string) {}

func Concrete(x int) int { return x }
func Symbolic() bool     { return false }

func Eq(a, b []byte) bool    { return string(a) == string(b) }
func EqStr(a, b string) bool { return a == b }

func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }

func Ite(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// Quiesce waits until every other goroutine is blocked.
func Quiesce() { time.Sleep(120 * time.Millisecond) }

func TempDir() string {
	mu.Lock()
	defer mu.Unlock()
	seq++
	d := filepath.Join(os.Getenv("VERIF_TMP"), "d", fmt.Sprintf("vf%d", seq))
	if os.Getenv("VERIF_TMP") == "" {
		d, _ = os.MkdirTemp("", "vf")
	}
	os.MkdirAll(d, 0o755)
	return d
}

// Steps bounds the work the code under test may do from here on.
func Steps(n int) {
	time.AfterFunc(10*time.Second, func() { die("VERIF-ASSERT-FAILED work bound exceeded", 3) })
}

var allocLimit, allocBase uint64

func totalAlloc() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc
}

// AllocBound bounds the size of any single allocation from here on.
func AllocBound(n int) { allocBase, allocLimit = totalAlloc(), uint64(n) }

// DepthBound bounds the call depth from here on (a native frame is taken to
// need at least 64 bytes of stack).
func DepthBound(n int) { debug.SetMaxStack(n*64 + 65536) }

// Done is called when the harness returns.
func Done() {
	if allocLimit > 0 && totalAlloc()-allocBase >= allocLimit {
		die("VERIF-ASSERT-FAILED memory use is bounded by the input", 3)
	}
}

func PermuteMaps(on bool) {}
func Preempt(n int)       {}
func Note(s string)       {}

// ListFiles lists the entries of dir, sorted.
func ListFiles(dir string) []string {
	es, _ := os.ReadDir(dir)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	sort.Strings(out)
	return out
}

// Tree lists every file below dir with its slash-separated relative path.
func Tree(dir string) []string {
	var out []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			r, _ := filepath.Rel(dir, p)
			out = append(out, filepath.ToSlash(r))
		}
		return nil
	})
	sort.Strings(out)
	return out
}

// Read returns the contents of a file, nil if absent.
func Read(name string) []byte {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil
	}
	return b
}
