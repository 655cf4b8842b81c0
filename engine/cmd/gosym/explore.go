package main

import (
	"fmt"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"

	"gosym/interp"
)

type confirmed struct {
	c     cand
	o     outcome
	path  string
	known string
}

type exploreStats struct {
	confirmed  []confirmed
	unconf     []cand
	unconfO    []outcome
	validated  int
	mismatch   []string
	mismatchND []valTrace
	timedOut   bool
	wall       time.Duration
}

func explore(eng *interp.Engine, jobs []*job, nw int, deadline time.Time, thorough bool, rp *replayer, known map[string]knownEntry, verbose bool) *exploreStats {
	st := &exploreStats{}
	if len(jobs) == 0 {
		return st
	}
	t0 := time.Now()
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	stopAll := false
	var abort atomic.Bool
	timer := time.AfterFunc(time.Until(deadline), func() {
		mu.Lock()
		stopAll = true
		abort.Store(true)
		st.timedOut = true
		cond.Broadcast()
		mu.Unlock()
	})
	defer timer.Stop()

	candCh := make(chan cand, 10000)
	var rwg sync.WaitGroup
	for i := 0; i < 3; i++ {
		rwg.Add(1)
		go func() {
			defer rwg.Done()
			for c := range candCh {
				var o outcome
				ok := false
				for k := 0; k < 2 && !ok; k++ {
					o = rp.run(c.h, c.v.ND, c.v.Kind)
					ok = o.matches(&c.v)
					if surveyRaces && o.kind == "race" {
						os.WriteFile(fmt.Sprintf("/tmp/races/%s-%d", c.h.Func, time.Now().UnixNano()), []byte(c.v.Label+"\n"+o.out), 0o644)
					}
					if o.kind == "desync" || o.kind == "assume" || o.kind == "error" {
						break
					}
				}
				mu.Lock()
				if ok && surveyRaces && c.v.Kind == "race" {
					st.confirmed = append(st.confirmed, confirmed{c: c, o: o})
				} else if ok {
					st.confirmed = append(st.confirmed, confirmed{c: c, o: o})
					// one confirmed counterexample settles this harness
					for _, j := range jobs {
						if j.h == c.h {
							j.stop = true
							j.queue = nil
						}
					}
					if _, kn := known[c.h.Known]; !kn {
						stopAll = true
						abort.Store(true)
					}
					cond.Broadcast()
				} else {
					st.unconf = append(st.unconf, c)
					st.unconfO = append(st.unconfO, o)
				}
				mu.Unlock()
			}
		}()
	}

	pick := func() *job {
		var best *job
		for _, j := range jobs {
			if j.stop || len(j.queue) == 0 {
				continue
			}
			if best == nil || j.started < best.started {
				best = j
			}
		}
		return best
	}
	idle := func() bool {
		for _, j := range jobs {
			if j.active > 0 || (!j.stop && len(j.queue) > 0) {
				return false
			}
		}
		return true
	}

	// merge is called with mu held
	merge := func(j *job, r *interp.Result) {
		d := j.res
		d.Paths += r.Paths
		d.Completed += r.Completed
		d.Pruned += r.Pruned
		d.Asserts += r.Asserts
		d.AssertTriv += r.AssertTriv
		d.Steps += r.Steps
		d.Branches += r.Branches
		d.Forks += r.Forks
		for k, v := range r.Limits {
			d.Limits[k] += v
		}
		for k, v := range r.Unsupported {
			d.Unsupported[k] += v
		}
		for k, v := range r.Reach {
			d.Reach[k] += v
			d.Reached[k] = true
		}
		for k, v := range r.Fns {
			d.Fns[k] += v
		}
		for k, v := range r.Stubs {
			d.Stubs[k] += v
		}
		for k, v := range r.Inconcl {
			d.Inconcl[k] += v
		}
		if len(r.Samples) > 0 && len(d.Samples) < 3 {
			d.Samples = append(d.Samples, r.Samples[0])
		}
		if r.DoneND != nil {
			n := d.Completed
			if n <= 2 || n == 7 || n == 40 || n == 200 || n == 1000 || n == 5000 {
				j.val = append(j.val, valTrace{j.h, r.DoneND})
			}
		}
		s := &d.Solver
		s.Queries += r.Solver.Queries
		s.Sat += r.Solver.Sat
		s.Unsat += r.Solver.Unsat
		s.Unknown += r.Solver.Unknown
		s.Fallback += r.Solver.Fallback
		s.Time += r.Solver.Time
		s.Cross += r.Solver.Cross
		s.CrossBad += r.Solver.CrossBad
	}

	var wg sync.WaitGroup
	stuck := false
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			qto := 5000
			if thorough {
				qto = 15000
			}
			w := interp.NewWorker(eng, qto)
			w.Thorough = thorough
			w.Solver().Cross = "z3-new"
			if id%2 == 1 {
				w.Solver().Cross = "cvc5"
			}
			defer w.Close()
			mu.Lock()
			defer mu.Unlock()
			for {
				var j *job
				for !stopAll {
					j = pick()
					if j != nil || idle() {
						break
					}
					cond.Wait()
				}
				if stopAll || j == nil {
					cond.Broadcast()
					return
				}
				it := j.queue[len(j.queue)-1]
				j.queue = j.queue[:len(j.queue)-1]
				j.active++
				j.started++
				if j.t0.IsZero() {
					j.t0 = time.Now()
				}
				want := j.res.Completed < 6000
				mu.Unlock()
				r := interp.NewResult()
				lim := interp.Limits{MaxSteps: j.h.Steps, MaxDepth: j.h.Depth, MaxAlloc: j.h.Alloc, MaxFork: j.h.Fork, NoMerge: j.h.NoMrg, Raw: j.h.Raw, Race: j.h.Race, WantND: want, Deadline: deadline, Stop: &abort}
				s0 := w.Solver().Stats
				pt := time.Now()
				items, viols := w.RunPath(j.entry.(*ssa.Function), it, lim, r)
				r.Solver = w.Solver().Stats.Sub(s0)
				w.Recycle(600000)
				if verbose && time.Since(pt) > 5*time.Second {
					fmt.Fprintf(os.Stderr, "[slow path %s %v steps=%d q=%d]\n", j.h.Func, time.Since(pt).Round(time.Millisecond), r.Steps, r.Solver.Queries)
				}
				mu.Lock()
				if stuck {
					return
				}
				j.active--
				j.wall = time.Since(j.t0)
				merge(j, r)
				if !j.stop {
					j.queue = append(j.queue, items...)
					for _, v := range viols {
						k := v.Kind + "|" + v.Label + "|" + v.Where
						if j.seen[k] < 3 && !(surveyRaces && j.seen[k] > 0) {
							j.seen[k]++
							candCh <- cand{j.h, v}
						}
					}
					if j.h.Paths > 0 && j.res.Paths >= j.h.Paths && len(j.queue) > 0 {
						j.res.Limits[fmt.Sprintf("path bound %d", j.h.Paths)] += len(j.queue)
						j.queue = nil
					}
					if j.h.Secs > 0 && j.wall > time.Duration(j.h.Secs)*time.Second && len(j.queue) > 0 {
						j.res.Limits[fmt.Sprintf("time bound %ds, pending paths", j.h.Secs)] += len(j.queue)
						j.queue = nil
					}
				}
				cond.Broadcast()
			}
		}(i)
	}
	if verbose {
		go func() {
			for {
				time.Sleep(10 * time.Second)
				mu.Lock()
				s := ""
				for _, j := range jobs {
					if j.active > 0 || len(j.queue) > 0 {
						s += fmt.Sprintf(" %s:%d/q%d/a%d", j.h.Func, j.res.Paths, len(j.queue), j.active)
					}
				}
				done := idle() || stopAll
				mu.Unlock()
				fmt.Fprintf(os.Stderr, "[%v]%s\n", time.Since(t0).Round(time.Second), s)
				if done {
					return
				}
			}
		}()
	}
	joined := make(chan bool)
	go func() { wg.Wait(); close(joined) }()
	select {
	case <-joined:
	case <-time.After(time.Until(deadline) + 90*time.Second):
		mu.Lock()
		stuck, stopAll = true, true
		for _, j := range jobs {
			if j.active > 0 {
				j.res.Limits["worker did not return"] += j.active
				j.stop = true
			}
		}
		cond.Broadcast()
		mu.Unlock()
	}
	close(candCh)
	rwg.Wait()
	for _, j := range jobs {
		if len(j.queue) > 0 && !j.stop {
			if st.timedOut {
				j.res.TimedOut = true
				j.res.Limits["time budget, pending paths"] += len(j.queue)
			}
		}
	}
	// translation validation: passing paths must pass natively as well
	if len(st.confirmed) == 0 {
		var vw sync.WaitGroup
		sem := make(chan bool, 4)
		for _, j := range jobs {
			if j.h.Known != "" {
				continue
			}
			for _, v := range j.val {
				v := v
				vw.Add(1)
				sem <- true
				go func() {
					defer vw.Done()
					o := rp.run(v.h, v.nd, "")
					mu.Lock()
					if o.kind == "ok" {
						st.validated++
					} else {
						st.mismatch = append(st.mismatch, fmt.Sprintf("%s: native %s: %s", v.h.Func, o.kind, tail(o.out, 700)))
						st.mismatchND = append(st.mismatchND, v)
					}
					mu.Unlock()
					<-sem
				}()
			}
		}
		vw.Wait()
	}
	st.wall = time.Since(t0)
	return st
}

// surveyRaces (GOSYM_RACE set) looks for races in every harness and goes on after each.
var surveyRaces = os.Getenv("GOSYM_RACE") != ""
