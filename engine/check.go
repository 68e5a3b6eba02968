package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type harnessInfo struct {
	Name        string
	Parts, Deep int
	Only, Race  bool
}

type propInfo struct {
	Bounds      string   `json:"bounds"`
	Outside     string   `json:"outside"`
	Assumptions []string `json:"assumptions"`
}

// check decides one property: all of its harnesses, symbolically, on /repo's current tree.
func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("property", "", "property id")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	only := fs.String("only", "", "substring of the harness names to run")
	workers := fs.Int("workers", 0, "")
	fs.Parse(args)
	if *tier != "thorough" {
		*tier = "quick"
	}
	thorough := *tier == "thorough"
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()
	total := 600.0
	if thorough {
		total = 800
	}
	verif := verifDir()
	tmp, err := os.MkdirTemp("", "symgo")
	chk(err)
	defer os.RemoveAll(tmp)
	hd := filepath.Join(verif, "harness")

	// the native runner, from the current tree
	runner := filepath.Join(tmp, "runner")
	bc := exec.Command("go", "build", "-o", runner, "./cmd/runner")
	bc.Dir = hd
	if out, err := bc.CombinedOutput(); err != nil {
		fmt.Printf("cannot build the harness against /repo:\n%s\n", out)
		return 2
	}
	raceBin := filepath.Join(tmp, "runner-race")
	race := fmt.Sprintf("test -x %s || (cd %s && go build -race -o %s ./cmd/runner) || exit 3; exec %s", raceBin, hd, raceBin, raceBin)

	exe, _ := os.Executable()
	sb := filepath.Join(tmp, "runner-sched")
	sched := fmt.Sprintf("test -x %s || (export SYM_VERIF=%s; d=$(mktemp -d -p %s) && %s instrument $d && cd %s && go build -overlay $d/overlay.json -o $d/r ./cmd/runner && mv $d/r %s) || exit 3; exec %s", sb, verif, tmp, exe, hd, sb, sb)

	share := filepath.Join(tmp, "answers")
	chk(os.Mkdir(share, 0o755))

	lo, err := exec.Command(runner, "-list").Output()
	chk(err)
	var all []harnessInfo
	chk(json.Unmarshal(lo, &all))
	var jobs []Job
	var names []string
	for _, h := range all {
		if !strings.HasPrefix(h.Name, *prop+"_") || h.Only && !thorough || !strings.Contains(h.Name, *only) {
			continue
		}
		names = append(names, h.Name)
		n := h.Parts
		if thorough {
			n = h.Deep
		}
		for k := 0; k < n; k++ {
			jobs = append(jobs, Job{Harness: h.Name, Part: k, Thorough: thorough, Runner: runner, Race: race, Sched: sched})
		}
	}
	if len(jobs) == 0 {
		fmt.Println("no harness for property", *prop)
		return 2
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if *workers > 0 {
		nw = *workers
	}
	if nw > len(jobs) {
		nw = len(jobs)
	}

	// the worker pool
	var mu sync.Mutex
	results := make([]*Result, len(jobs))
	next := 0
	stop := false
	procs := map[*exec.Cmd]bool{}
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var cmd *exec.Cmd
			var in io.WriteCloser
			var out *bufio.Reader
			closeW := func() {
				if cmd != nil {
					in.Close()
					cmd.Process.Kill()
					cmd.Wait()
					mu.Lock()
					delete(procs, cmd)
					mu.Unlock()
					cmd = nil
				}
			}
			defer closeW()
			for {
				mu.Lock()
				if stop || next >= len(jobs) {
					mu.Unlock()
					return
				}
				i := next
				next++
				mu.Unlock()
				j := jobs[i]
				left := total - time.Since(t0).Seconds()
				if left < 5 {
					results[i] = &Result{Harness: j.Harness, Part: j.Part, Err: "no time left"}
					continue
				}
				j.Deadline = left
				for try := 0; try < 2; try++ {
					if cmd == nil {
						cmd = exec.Command(exe, "worker")
						cmd.Env = append(os.Environ(), "SYM_VERIF="+verif, "SYM_SHARE="+share, "GOMAXPROCS=2")
						cmd.Stderr = os.Stderr
						in, _ = cmd.StdinPipe()
						p, _ := cmd.StdoutPipe()
						out = bufio.NewReaderSize(p, 1<<20)
						if err := cmd.Start(); err != nil {
							results[i] = &Result{Harness: j.Harness, Part: j.Part, Err: err.Error()}
							cmd = nil
							continue
						}
						mu.Lock()
						procs[cmd] = true
						mu.Unlock()
					}
					b, _ := json.Marshal(j)
					in.Write(append(b, '\n'))
					kill := time.AfterFunc(time.Duration((j.Deadline+100)*float64(time.Second)), func() { cmd.Process.Kill() })
					line, err := out.ReadBytes('\n')
					kill.Stop()
					r := &Result{}
					if err == nil {
						err = json.Unmarshal(line, r)
					}
					if err != nil {
						r = &Result{Harness: j.Harness, Part: j.Part, Err: "worker: " + err.Error()}
						closeW()
					}
					results[i] = r
					mu.Lock()
					st := stop
					mu.Unlock()
					if r.Err == "" || st {
						break
					}
				}
				if len(results[i].Confirmed) > 0 {
					mu.Lock()
					if !stop {
						stop = true
						for c := range procs {
							if c != cmd {
								c.Process.Kill()
							}
						}
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	if os.Getenv("SYM_TIMES") != "" {
		for _, r := range results {
			fmt.Fprintf(os.Stderr, "%6.1fs solver %6.1fs max %5.1fs queries %5d rewrites %6d paths %4d %s %d\n", r.WallS, r.SolverS, r.MaxQueryS, r.Queries, r.Rewrites, r.Paths, r.Harness, r.Part)
		}
	}
	return report(verif, *prop, *tier, seed, t0, names, jobs, results)
}

func report(verif, prop, tier string, seed int, t0 time.Time, names []string, jobs []Job, results []*Result) int {
	info := map[string]propInfo{}
	if b, err := os.ReadFile(filepath.Join(verif, "harness", "bounds.json")); err == nil {
		if err := json.Unmarshal(b, &info); err != nil {
			fmt.Println("bounds.json:", err)
		}
	}
	sum := Result{Incon: map[string]int{}, Reach: map[string]int{}}
	fns, libs := map[string]bool{}, map[string]bool{}
	type hsum struct {
		Parts     int      `json:"parts"`
		Paths     int      `json:"paths"`
		Forks     int      `json:"forks"`
		Merges    int      `json:"merges"`
		Asserts   int      `json:"assertions"`
		Folded    int      `json:"assertions_folded_to_true"`
		Queries   int      `json:"queries"`
		SolverS   float64  `json:"solver_s"`
		WallS     float64  `json:"wall_s"`
		Bits      int      `json:"symbolic_bits"`
		Witnesses []string `json:"witnesses"`
	}
	hs := map[string]*hsum{}
	var samples []interface{}
	var confirmed *Candidate
	var replayOut string
	var unconf, mism, errs, certBad []string
	done := 0
	for i, r := range results {
		if r == nil {
			continue
		}
		h := hs[jobs[i].Harness]
		if h == nil {
			h = &hsum{}
			hs[jobs[i].Harness] = h
		}
		if r.Err != "" {
			errs = append(errs, fmt.Sprintf("%s part %d: %s", jobs[i].Harness, jobs[i].Part, r.Err))
		} else {
			done++
		}
		h.Parts++
		h.Paths += r.Paths
		h.Forks += r.Forks
		h.Merges += r.Merges
		h.Asserts += r.Asserts
		h.Folded += r.Trivial
		h.Queries += r.Queries
		h.SolverS += r.SolverS
		h.WallS += r.WallS
		if r.VarBits > h.Bits {
			h.Bits = r.VarBits
		}
		sum.Paths += r.Paths
		sum.Forks += r.Forks
		sum.Merges += r.Merges
		sum.Steps += r.Steps
		sum.Asserts += r.Asserts
		sum.Trivial += r.Trivial
		sum.Queries += r.Queries
		sum.Hits += r.Hits
		sum.Shared += r.Shared
		sum.Guesses += r.Guesses
		sum.Sat += r.Sat
		sum.Unsat += r.Unsat
		sum.Unknown += r.Unknown
		sum.AssertQ += r.AssertQ
		sum.SolverS += r.SolverS
		sum.Validated += r.Validated
		sum.Replayed += r.Replayed
		sum.CrossOK += r.CrossOK
		sum.Certified += r.Certified
		sum.Rewrites += r.Rewrites
		if r.MaxQueryS > sum.MaxQueryS {
			sum.MaxQueryS = r.MaxQueryS
		}
		for _, f := range r.Functions {
			fns[f] = true
		}
		for _, f := range r.Libs {
			libs[f] = true
		}
		for k, v := range r.Incon {
			sum.Incon[k] += v
		}
		for k, v := range r.Reach {
			sum.Reach[jobs[i].Harness+": "+k] += v
		}
		for _, m := range r.Mismatch {
			mism = append(mism, jobs[i].Harness+": "+m)
		}
		certBad = append(certBad, r.CertBad...)
		certBad = append(certBad, r.CrossBad...)
		for _, u := range r.Unconfirmed {
			b, _ := json.Marshal(u)
			unconf = append(unconf, cut(string(b), 500))
		}
		if len(samples) < 12 && len(r.Samples) > 0 {
			samples = append(samples, map[string]interface{}{"harness": jobs[i].Harness, "part": jobs[i].Part,
				"assignment": r.Samples[0].Vars, "observed": cutObs(r.Samples[0].Obs)})
		}
		if len(r.Confirmed) > 0 && confirmed == nil {
			confirmed = &r.Confirmed[0]
			replayOut = r.ReplayOut
		}
	}
	var vac []string
	if confirmed == nil {
		for k, v := range sum.Reach {
			h := strings.SplitN(k, ": ", 2)
			if v == 0 {
				vac = append(vac, k)
			} else if x := hs[h[0]]; x != nil {
				x.Witnesses = append(x.Witnesses, h[1])
			}
		}
		for n, h := range hs {
			sort.Strings(h.Witnesses)
			if h.Asserts == 0 && h.Paths > 0 && !strings.HasPrefix(n, "C23") {
				vac = append(vac, n+": no assertion reached")
			}
		}
	}
	sort.Strings(vac)
	exit := 0
	violations := 0
	if confirmed != nil {
		exit = 1
		violations = 1
		rd := filepath.Join(verif, "replays")
		os.MkdirAll(rd, 0o755)
		rp := filepath.Join(rd, prop+".json")
		in, _ := json.Marshal(confirmed)
		doc := map[string]interface{}{"candidate": confirmed, "native_result": replayOut,
			"how_to_replay": fmt.Sprintf("cd %s/harness && echo '%s' | go run ./cmd/runner", verif, in)}
		b, _ := json.MarshalIndent(doc, "", " ")
		os.WriteFile(rp, b, 0o644)
		fmt.Printf("%s: %s\n", confirmed.Harness, cut(confirmed.Msg, 600))
		v, _ := json.Marshal(confirmed.Vars)
		fmt.Printf("assignment: %s part %d\nnative run: %s\n", cut(string(v), 1500), confirmed.Part, cut(replayOut, 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	}
	if confirmed != nil {
		errs = nil // the others were stopped
	}
	for _, x := range errs {
		fmt.Println("NOT-EXPLORED:", x)
	}
	for k, n := range sum.Incon {
		fmt.Printf("REDUCED-BOUND: %s (%d)\n", k, n)
	}
	for _, x := range unconf {
		fmt.Println("UNCONFIRMED (does not reproduce natively, not reported):", x)
	}
	for _, x := range mism {
		fmt.Println("ENCODING-MISMATCH:", x)
	}
	for _, x := range certBad {
		fmt.Println("SOLVER-DISAGREEMENT:", x)
	}
	for _, x := range vac {
		fmt.Println("VACUOUS:", x)
	}
	if exit == 0 && (done == 0 || sum.Paths == 0) {
		fmt.Println("nothing could be explored")
		exit = 2
	}
	pi := info[prop]
	keys := func(m map[string]bool) []string {
		var l []string
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		return l
	}
	fl, ll := keys(fns), keys(libs)
	if ll == nil {
		ll = []string{}
	}
	if len(ll) > 150 {
		ll = append(ll[:150], fmt.Sprintf("... %d more", len(ll)-150))
	}
	lim := func(l []string) []string {
		if len(l) > 20 {
			return append(l[:20], fmt.Sprintf("... %d more", len(l)-20))
		}
		if l == nil {
			return []string{}
		}
		return l
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states":                        sum.Paths + sum.Forks,
			"transitions":                   sum.Steps,
			"traces_validated_against_impl": sum.Validated,
			"samples":                       samples,
			"meaning":                       "states: symbolic states (completed paths and forks), each standing for all values of the symbolic variables that satisfy its path condition; transitions: SSA instructions of the real code executed symbolically; traces: solver models of complete paths executed on the compiled code with equal observations",
			"functions_encoded":             fl,
			"library_functions_encoded":     ll,
			"bounds":                        pi.Bounds,
			"outside_the_bounds":            pi.Outside,
			"harnesses":                     hs,
			"solver": map[string]interface{}{
				"name": "z3 (z3-new), QF_BV, incremental over a pipe", "queries": sum.Queries, "answered_from_cache": sum.Hits, "answered_by_another_worker_of_this_run": sum.Shared,
				"sat": sum.Sat, "unsat": sum.Unsat, "unknown": sum.Unknown, "time_s": round(sum.SolverS), "max_query_s": round(sum.MaxQueryS),
				"branch_models_found_without_solver": sum.Guesses,
			},
			"assertions": map[string]interface{}{
				"checked_on_symbolic_paths": sum.Asserts, "decided_by_solver_query": sum.AssertQ,
				"folded_to_true_by_term_rewriting": sum.Trivial,
			},
			"rewritings":                     sum.Rewrites,
			"rewritings_certified_by_solver": sum.Certified,
			"queries_confirmed_by_cvc5":      sum.CrossOK,
			"candidates_replayed":            sum.Replayed,
			"candidates_not_reproduced":      lim(unconf),
			"encoding_mismatches":            lim(mism),
			"solver_disagreements":           lim(certBad),
			"inconclusive_paths":             sum.Incon,
			"not_explored":                   lim(errs),
			"vacuous":                        lim(vac),
			"jobs":                           len(jobs),
			"jobs_completed":                 done,
		},
		"assumptions": append(append([]string{}, pi.Assumptions...), commonAssumptions...),
		"wall_s":      round(time.Since(t0).Seconds()),
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
	}
	fmt.Printf("%s %s: %d harnesses, %d jobs, %d paths, %d merges, %d assertions (%d by query), %d queries, %d/%d rewritings certified, solver %.1fs, %d traces validated, wall %.1fs\n",
		prop, tier, len(names), len(jobs), sum.Paths, sum.Merges, sum.Asserts, sum.AssertQ, sum.Queries, sum.Certified, sum.Rewrites, sum.SolverS, sum.Validated, time.Since(t0).Seconds())
	return exit
}

var commonAssumptions = []string{
	"the encoder (engine/) gives go/ssa instructions their Go semantics on linux/amd64; every violation is replayed on the compiled code before it is reported and the models of explored paths are executed on it too",
	"map iteration is modelled in one fixed order; append grows capacity as the gc run time does; fmt output is opaque; unsafe memory layout is outside the encoding",
	"z3 answers correctly; a sample of assertion queries is confirmed by cvc5 and a sample of term rewritings by z3",
}

func round(x float64) float64 { return float64(int(x*100+0.5)) / 100 }

func cutObs(o []ObsOut) []ObsOut {
	var out []ObsOut
	for i, x := range o {
		if i >= 6 {
			break
		}
		out = append(out, ObsOut{x.Label, cut(x.Val, 120)})
	}
	return out
}
