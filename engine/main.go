package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const propsPath = "verif/harness/props"

func load(dir string) (prog *ssa.Program, err error) {
	p, err := packages.Load(&packages.Config{Mode: packages.LoadAllSyntax, Dir: dir}, "./...")
	if err != nil {
		return nil, err
	}
	if packages.PrintErrors(p) > 0 {
		return nil, fmt.Errorf("the code does not compile")
	}
	prog, _ = ssautil.AllPackages(p, ssa.InstantiateGenerics)
	prog.Build()
	return prog, nil
}

// Job is one harness function (or one part of it) for a worker.
type Job struct {
	Harness  string  `json:"harness"`
	Part     int     `json:"part"`
	Thorough bool    `json:"thorough"`
	Deadline float64 `json:"deadline_s"` // seconds from the start of the job
	Runner   string  `json:"runner"`
	Race     string  `json:"race"`  // command of the race-detecting runner
	Sched    string  `json:"sched"` // command of the runner that executes given schedules
}

func main() {
	if f := os.Getenv("SYM_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() { time.Sleep(20 * time.Second); pprof.StopCPUProfile(); os.Exit(3) }()
	}
	if len(os.Args) < 2 {
		fatal("usage: symgo check|worker|run ...")
	}
	switch os.Args[1] {
	case "worker":
		worker()
	case "check":
		os.Exit(check(os.Args[2:]))
	case "run":
		runOne(os.Args[2:])
	case "instrument":
		if err := instrument(os.Args[2]); err != nil {
			fatal("%v", err)
		}
	default:
		fatal("unknown command %s", os.Args[1])
	}
}

// worker executes jobs read from stdin, one JSON result per line.
func worker() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(3 << 30)
	out := json.NewEncoder(os.Stdout)
	prog, err := load(harnessDir())
	if err != nil {
		out.Encode(&Result{Err: err.Error()})
		return
	}
	rd := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if err != nil {
			return
		}
		var j Job
		chk(json.Unmarshal(line, &j))
		out.Encode(runJob(prog, j))
		runtime.GC()
	}
}

func harnessDir() string { return filepath.Join(verifDir(), "harness") }

func verifDir() string {
	if d := os.Getenv("SYM_VERIF"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err == nil {
		if d := filepath.Dir(filepath.Dir(exe)); exists(filepath.Join(d, "harness", "go.mod")) {
			return d
		}
	}
	wd, _ := os.Getwd()
	for d := wd; d != "/"; d = filepath.Dir(d) {
		if exists(filepath.Join(d, "harness", "go.mod")) {
			return d
		}
	}
	return wd
}

func exists(p string) bool { _, err := os.Stat(p); return err == nil }

func runJob(prog *ssa.Program, j Job) (res *Result) {
	t0 := time.Now()
	res = &Result{Harness: j.Harness, Part: j.Part, Reach: map[string]int{}}
	E := NewEng(prog, []string{"z3-new", "-in", "memory_max_size=4000"}, 60000)
	defer E.S.Close()
	E.out, E.harness, E.part, E.thorough = res, j.Harness, j.Part, j.Thorough
	if j.Thorough {
		crossMax = 60
	} else {
		crossMax = 4
	}
	crossQueries = nil
	if os.Getenv("SYM_DEBUG") == "" {
		defer func() {
			if r := recover(); r != nil {
				res.Err = fmt.Sprint(r)
				if len(res.Err) > 600 {
					res.Err = res.Err[:600]
				}
			}
		}()
	}
	if j.Deadline > 0 {
		E.deadline = t0.Add(time.Duration(j.Deadline * float64(time.Second)))
	}
	if j.Runner != "" {
		E.onFail = func(c Candidate) bool {
			res.Replayed++
			ok, msg := confirm(j, c)
			if ok {
				res.ReplayOut = msg
			}
			return ok
		}
	}
	pkg := prog.ImportedPackage(propsPath)
	fn := pkg.Func(j.Harness)
	if fn == nil {
		res.Err = "no such harness"
		return
	}
	E.initPkg(pkg)
	samples, aborted := E.Explore(fn)
	if len(res.Confirmed) == 0 {
		E.certify()
		E.crossCheck()
	}
	E.finish(t0)
	if len(res.Confirmed) == 0 && j.Runner != "" {
		validate(j, res, samples, aborted)
	}
	if len(samples) > 3 {
		samples = samples[:3]
	}
	res.Samples = samples
	res.WallS = time.Since(t0).Seconds()
	return
}

// ---- native runs ----

type native struct {
	Outcome string   `json:"outcome"`
	Msg     string   `json:"msg"`
	Obs     []ObsOut `json:"obs"`
}

// nativeRun executes assignments with the runner; results may be fewer than inputs if it died.
func nativeRun(cmd string, env []string, in []Candidate) (outs []native, errText string) {
	for len(outs) < len(in) {
		c := exec.Command("sh", "-c", cmd)
		c.Env = append(os.Environ(), env...)
		var b strings.Builder
		e := json.NewEncoder(&b)
		for _, x := range in[len(outs):] {
			e.Encode(x)
		}
		c.Stdin = strings.NewReader(b.String())
		var so, se strings.Builder
		c.Stdout, c.Stderr = &so, &se
		err := c.Run()
		n := len(outs)
		for _, l := range strings.Split(strings.TrimSpace(so.String()), "\n") {
			var o native
			if json.Unmarshal([]byte(l), &o) == nil && o.Outcome != "" {
				outs = append(outs, o)
			}
		}
		if err != nil {
			t := se.String()
			if len(t) > 3000 {
				t = t[:3000]
			}
			if strings.Contains(t, "DATA RACE") {
				outs = append(outs, native{Outcome: "race", Msg: t})
				return outs, t
			}
			if len(outs) < len(in) {
				// the process died on the next input (a fatal error cannot be recovered)
				o := native{Outcome: "panic", Msg: "process died: " + t}
				if !strings.Contains(t, "fatal error:") && !strings.Contains(t, "panic:") && !strings.Contains(t, "SIG") {
					o.Outcome = "killed" // from outside, for want of memory perhaps
				}
				outs = append(outs, o)
				errText = t
			}
		} else if len(outs) == n {
			return outs, "no output"
		}
	}
	return outs, errText
}

// confirm replays a candidate against the compiled code.
func confirm(j Job, c Candidate) (bool, string) {
	cmd, env := j.Runner, []string(nil)
	if c.Kind == "race" {
		cmd = j.Race
		env = []string{"RUNNER_ROUNDS=300", "GORACE=halt_on_error=1 exitcode=66"}
	}
	if c.Kind == "schedule" {
		for k := 1; k <= 200 && j.Sched != ""; k++ {
			outs, _ := nativeRun(j.Sched, []string{fmt.Sprintf("RUNNER_SWITCH=%d", k)}, []Candidate{c})
			if len(outs) == 0 || outs[0].Outcome == "end" {
				break
			}
			if o := outs[0]; o.Outcome == "assert" || o.Outcome == "panic" {
				return true, fmt.Sprintf("%s: %s (the second call runs before synchronisation operation %d of the first)", o.Outcome, o.Msg, k)
			}
		}
		env = []string{"RUNNER_ROUNDS=300000"}
	}
	if cmd == "" {
		return false, ""
	}
	outs, _ := nativeRun(cmd, env, []Candidate{c})
	if len(outs) == 0 {
		return false, ""
	}
	o := outs[0]
	if o.Outcome == "timeout" && env != nil && !strings.Contains(o.Msg, "blocked") {
		return false, o.Outcome // so many rounds take their time
	}
	switch o.Outcome {
	case "assert", "panic", "timeout", "race":
		return true, o.Outcome + ": " + o.Msg
	}
	return false, o.Outcome
}

// validate runs the model of every explored path natively and compares the observations.
func validate(j Job, res *Result, samples []PathSample, aborted []Candidate) {
	max := 300
	step := 1
	if len(samples) > max {
		step = (len(samples) + max - 1) / max
	}
	var in []Candidate
	var exp []PathSample
	tier := ""
	if j.Thorough {
		tier = "thorough"
	}
	for i := 0; i < len(samples); i += step {
		in = append(in, Candidate{Harness: j.Harness, Part: j.Part, Kind: "path", Tier: tier, Vars: samples[i].Vars})
		exp = append(exp, samples[i])
	}
	n := len(in)
	for i, c := range aborted {
		if i >= 100 {
			break
		}
		c.Tier = tier
		in = append(in, c)
	}
	if len(in) == 0 {
		return
	}
	outs, _ := nativeRun(j.Runner, nil, in)
	for i, o := range outs {
		switch o.Outcome {
		case "assert", "panic", "timeout":
			c := in[i]
			c.Msg = o.Outcome + " on the model of an explored path: " + o.Msg
			if ok, msg := confirm(j, c); ok { // reproducible
				res.Confirmed = append(res.Confirmed, c)
				res.ReplayOut = msg
				return
			}
		case "ok":
			if i >= n {
				continue
			}
			a, _ := json.Marshal(exp[i].Obs)
			b, _ := json.Marshal(o.Obs)
			if string(a) != string(b) && len(exp[i].Obs)+len(o.Obs) > 0 {
				v, _ := json.Marshal(exp[i].Vars)
				if len(res.Mismatch) < 5 {
					res.Mismatch = append(res.Mismatch, cut(fmt.Sprintf("vars %s: encoded %s, native %s", v, a, b), 800))
				}
			} else {
				res.Validated++
			}
		default:
			if i < n && len(res.Mismatch) < 5 {
				v, _ := json.Marshal(exp[i].Vars)
				res.Mismatch = append(res.Mismatch, cut(fmt.Sprintf("vars %s: native outcome %s", v, o.Outcome), 400))
			}
		}
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// runOne runs harnesses in this process, for development.
func runOne(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	thorough := fs.Bool("thorough", false, "")
	part := fs.Int("part", 0, "")
	dl := fs.Float64("deadline", 0, "")
	runner := fs.String("runner", "", "")
	fs.Parse(args)
	prog, err := load(harnessDir())
	if err != nil {
		fatal("%v", err)
	}
	for _, h := range fs.Args() {
		r := runJob(prog, Job{Harness: h, Part: *part, Thorough: *thorough, Deadline: *dl, Runner: *runner})
		b, _ := json.MarshalIndent(r, "", " ")
		fmt.Println(string(b))
	}
}
