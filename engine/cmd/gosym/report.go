package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func topKeys(m map[string]int, n int) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Slice(k, func(i, j int) bool { return m[k[i]] > m[k[j]] || (m[k[i]] == m[k[j]] && k[i] < k[j]) })
	if len(k) > n {
		k = k[:n]
	}
	for i := range k {
		k[i] = fmt.Sprintf("%s x%d", k[i], m[k[i]])
	}
	return k
}

func writeReplay(prop string, n int, c cand, o outcome, thorough bool) string {
	dir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, n))
	f := replayFile{Property: prop, Pkg: c.h.Pkg, Harness: c.h.Func, Kind: c.v.Kind, Label: c.v.Label, Where: c.v.Where,
		Native: o.kind, Thorough: thorough, ND: c.v.ND, Trace: c.v.Trace,
		HowTo: "/verif/bin/gosym replay " + p + "   (runs the harness natively on /repo under this assignment)"}
	b, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

func report(prop, tier string, seed int, jobs []*job, st *exploreStats, rp *replayer, notes []string, known map[string]knownEntry, t0 time.Time, loadT time.Duration, strict, partial bool, files []*harnessFile) int {
	code := 0
	strictFail := false
	reduced := append([]string{}, notes...)
	assumptions := []string{}
	knownSeen := map[string]bool{}
	violations := 0
	n := 0
	for _, c := range st.confirmed {
		n++
		path := writeReplay(prop, n, c.c, c.o, tier == "thorough")
		if e, ok := known[c.c.h.Known]; ok && e.prop == prop {
			if !knownSeen[e.id] {
				knownSeen[e.id] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, e.text)
			}
			continue
		}
		violations++
		fmt.Printf("%s.%s: %s: %s\n  at %s\n  native replay: %s\n", c.c.h.Pkg, c.c.h.Func, c.c.v.Kind, c.c.v.Label, c.c.v.Where, c.o.kind)
		if strict {
			fmt.Println("  native output:", tail(c.o.out, 1500))
			for _, d := range c.c.v.ND {
				fmt.Println("   ", d.L, d.V)
			}
		}
		if code == 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		}
		code = 1
	}
	for i, c := range st.unconf {
		msg := fmt.Sprintf("candidate not reproduced natively (not reported): %s %s %q at %s: native %s", c.h.Func, c.v.Kind, c.v.Label, c.v.Where, st.unconfO[i].kind)
		reduced = append(reduced, msg)
		if strict {
			strictFail = true
			fmt.Println("UNCONFIRMED:", msg)
			fmt.Println(tail(st.unconfO[i].out, 1000))
			for _, d := range c.v.ND {
				fmt.Println("   ", d.L, d.V)
			}
		}
	}
	for _, m := range st.mismatch {
		reduced = append(reduced, "translation mismatch: "+m)
		if strict {
			strictFail = true
			fmt.Println("MISMATCH:", m)
		}
	}

	totP, totB, totQ, totA, totT := 0, 0, 0, 0, 0
	var solverT time.Duration
	sat, unsat, unk, fb, cross, crossBad := 0, 0, 0, 0, 0, 0
	fns := map[string]bool{}
	stubs := map[string]bool{}
	var hs []map[string]interface{}
	samples := []string{}
	complete := len(jobs) > 0
	var steps int64
	for _, j := range jobs {
		r := j.res
		totP += r.Paths
		totB += r.Branches
		totQ += r.Solver.Queries
		totA += r.Asserts
		totT += r.AssertTriv
		steps += r.Steps
		solverT += r.Solver.Time
		sat += r.Solver.Sat
		unsat += r.Solver.Unsat
		unk += r.Solver.Unknown
		fb += r.Solver.Fallback
		cross += r.Solver.Cross
		crossBad += r.Solver.CrossBad
		for f := range r.Fns {
			f = strings.ReplaceAll(f, repoMod+"/", "")
			if !strings.Contains(f, ".Vf") && !strings.Contains(f, ".vf") {
				fns[f] = true
			}
		}
		for f := range r.Stubs {
			if !strings.Contains(f, "verifnd") {
				stubs[f] = true
			}
		}
		full := len(r.Limits) == 0 && len(r.Unsupported) == 0 && len(r.Inconcl) == 0 && !j.stop && !r.TimedOut
		if !full {
			complete = false
		}
		vac := []string{}
		for _, l := range j.h.Reach {
			if !r.Reached[l] {
				vac = append(vac, l)
			}
		}
		h := map[string]interface{}{
			"harness": j.h.Pkg + "." + j.h.Func, "bounds": j.h.Bounds, "paths": r.Paths, "completed": r.Completed, "pruned_by_assumption": r.Pruned,
			"assertions": r.Asserts, "assertions_closed_by_simplifier": r.AssertTriv, "queries": r.Solver.Queries, "solver_s": round(r.Solver.Time.Seconds()),
			"instructions": r.Steps, "exhausted_within_bounds": full, "reach_witnesses": r.Reach, "wall_s": round(j.wall.Seconds()),
		}
		if len(vac) > 0 {
			h["unreached_witnesses"] = vac
			reduced = append(reduced, j.h.Func+": witness not reached: "+strings.Join(vac, ","))
		}
		for _, x := range []struct {
			n string
			m map[string]int
		}{{"limits", r.Limits}, {"unsupported", r.Unsupported}, {"inconclusive", r.Inconcl}} {
			if len(x.m) > 0 {
				h[x.n] = topKeys(x.m, 6)
				reduced = append(reduced, j.h.Func+": "+x.n+": "+strings.Join(topKeys(x.m, 3), "; "))
			}
		}
		hs = append(hs, h)
		for _, s := range r.Samples {
			samples = append(samples, j.h.Func+": "+s)
		}
		if strict && j.h.Known == "" && !j.stop {
			if len(vac) > 0 {
				strictFail = true
				fmt.Println("VACUOUS:", j.h.Func, vac)
			}
			for k, v := range r.Unsupported {
				strictFail = true
				fmt.Println("UNSUPPORTED:", j.h.Func, k, v)
			}
			for k, v := range r.Limits {
				fmt.Println("LIMIT:", j.h.Func, k, v)
			}
			for k, v := range r.Inconcl {
				strictFail = true
				fmt.Println("INCONCLUSIVE:", j.h.Func, k, v)
			}
		}
		if strict {
			fmt.Printf("  %-34s paths=%d done=%d pruned=%d asserts=%d(triv %d) q=%d unk=%d solver=%.1fs wall=%.1fs steps=%d reach=%v\n", j.h.Func, r.Paths, r.Completed, r.Pruned, r.Asserts, r.AssertTriv, r.Solver.Queries, r.Solver.Unknown, r.Solver.Time.Seconds(), j.wall.Seconds(), r.Steps, r.Reach)
		}
	}
	for id, e := range known {
		if e.prop == prop && !knownSeen[id] && !partial {
			reduced = append(reduced, "listed finding "+id+" did not fail on this tree")
			if strict {
				fmt.Println("NOT-FAILING known finding", id)
			}
		}
	}
	if len(samples) == 0 {
		samples = []string{"(no completed path)"}
	}
	if len(samples) > 24 {
		samples = samples[:24]
	}
	ks := func(m map[string]bool) []string {
		var o []string
		for k := range m {
			o = append(o, k)
		}
		sort.Strings(o)
		return o
	}
	assumptions = append(assumptions, "Every claim is bounded: see coverage.harnesses[].bounds; inputs, sizes and schedules outside those bounds are not covered.",
		"Stubs (see coverage.stubs) stand for clock, randomness, crypto, file system, formatting, synchronisation and reflection; their contracts are part of the claim.",
		"Trusted: go/ssa lowering, the gosym interpreter and simplifier (validated by native replay of solver assignments), z3 (sampled unsat verdicts cross-checked with z3-new/cvc5).")
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": totP, "transitions": totB, "traces_validated_against_impl": st.validated, "samples": samples,
			"states_are":          "symbolic paths explored (each covers every value of the symbolic inputs satisfying its path condition)",
			"transitions_are":     "symbolic branch / concretisation points decided by the solver or the path condition",
			"exhaustive":          complete,
			"assertions_decided":  totA,
			"assertions_trivial":  totT,
			"queries":             totQ,
			"queries_sat":         sat,
			"queries_unsat":       unsat,
			"queries_unknown":     unk,
			"queries_fallback":    fb,
			"solver_s":            round(solverT.Seconds()),
			"cross_checked":       cross,
			"cross_disagreements": crossBad,
			"ssa_instructions":    steps,
			"native_replays":      rp.Count,
			"functions_encoded":   ks(fns),
			"stubs":               ks(stubs),
			"harnesses":           hs,
			"reduced_bounds":      reduced,
			"load_s":              round(loadT.Seconds()),
		},
		"assumptions": assumptions,
		"wall_s":      round(time.Since(t0).Seconds()),
		"violations":  violations,
	}
	if !partial {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
		os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0o644)
	}
	for i, s := range reduced {
		if i < 12 {
			fmt.Println("REDUCED-BOUND:", tail(s, 900))
		}
	}
	fmt.Printf("%s %s: harnesses=%d paths=%d queries=%d (unsat %d, unknown %d) assertions=%d solver=%.1fs functions=%d native-traces=%d wall=%.1fs exhausted=%v\n",
		prop, tier, len(jobs), totP, totQ, unsat, unk, totA, solverT.Seconds(), len(fns), st.validated, time.Since(t0).Seconds(), complete)
	if crossBad > 0 && strict {
		strictFail = true
		fmt.Println("CROSS-CHECK DISAGREEMENT", crossBad)
	}
	if strict && strictFail && code == 0 {
		return 2
	}
	return code
}

func round(x float64) float64 { return float64(int(x*100)) / 100 }
