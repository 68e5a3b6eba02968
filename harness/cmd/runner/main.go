// Command runner executes harness functions natively on given assignments.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"verif/harness/props"
	"verif/harness/sym"
)

type input struct {
	Harness string            `json:"harness"`
	Part    int               `json:"part"`
	Tier    string            `json:"tier"`
	Vars    map[string]uint64 `json:"vars"`
}

type output struct {
	Outcome string   `json:"outcome"` // ok, assume, assert, panic, timeout
	Msg     string   `json:"msg,omitempty"`
	Obs     []sym.Ob `json:"obs,omitempty"`
}

func run(f func(), in input) (o output) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case sym.AssertFailed:
				o = output{Outcome: "assert", Msg: x.Msg}
			case sym.NoSwitch:
				o = output{Outcome: "end"}
			case sym.AssumeFailed:
				o = output{Outcome: "assume"}
			default:
				o = output{Outcome: "panic", Msg: fmt.Sprint(r) + "\n" + string(debug.Stack())}
			}
		}
		o.Obs = sym.Observed
	}()
	sym.Start(in.Vars, in.Part, in.Tier == "thorough")
	f()
	return output{Outcome: "ok"}
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-list" {
		type item struct {
			Name        string
			Parts, Deep int
			Only, Race  bool
		}
		var l []item
		for _, h := range props.All {
			l = append(l, item{h.Name, h.Parts, h.Deep, h.Only, h.Race})
		}
		json.NewEncoder(os.Stdout).Encode(l)
		return
	}
	if os.Getenv("RUNNER_ROUNDS") != "" {
		fmt.Sscan(os.Getenv("RUNNER_ROUNDS"), &sym.Rounds)
	}
	if os.Getenv("RUNNER_SWITCH") != "" {
		fmt.Sscan(os.Getenv("RUNNER_SWITCH"), &sym.SwitchAt)
	}
	fns := map[string]func(){}
	for _, h := range props.All {
		fns[h.Name] = h.F
	}
	rd := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(w)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 0 {
			var in input
			if e := json.Unmarshal(line, &in); e != nil {
				fmt.Fprintln(os.Stderr, "runner:", e)
				os.Exit(2)
			}
			f := fns[in.Harness]
			if f == nil {
				fmt.Fprintln(os.Stderr, "runner: no harness", in.Harness)
				os.Exit(2)
			}
			done := make(chan output, 1)
			go func() { done <- run(f, in) }()
			start, cpu := time.Now(), userTime()
			tick := time.NewTicker(100 * time.Millisecond)
			blocked := 0
			var o output
			stop := func(outcome, msg string) {
				enc.Encode(output{Outcome: outcome, Msg: msg})
				w.Flush()
				os.Exit(0)
			}
		wait:
			for {
				select {
				case o = <-done:
					break wait
				case <-tick.C:
					var ms runtime.MemStats
					runtime.ReadMemStats(&ms)
					if ms.HeapAlloc > 3<<30 {
						stop("timeout", "memory grows without bound")
					}
					// A machine that is busy with other things is no reason to report anything:
					// what counts is the time this process has used, or that it waits for itself.
					if userTime()-cpu > 20*time.Second {
						stop("timeout", "no result after 20s of processor time")
					}
					if t := time.Since(start); t > 400*time.Second {
						stop("slow", "no result within 400s")
					} else if t > 10*time.Second && allBlocked() {
						if blocked++; blocked == 50 {
							stop("timeout", "blocked for ever")
						}
					} else {
						blocked = 0
					}
				}
			}
			tick.Stop()
			enc.Encode(o)
			w.Flush()
		}
		if err != nil {
			return
		}
	}
}

// userTime is the processor time of this process so far.
func userTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano())
}

var goState = regexp.MustCompile(`(?m)^goroutine \d+ [^\[]*\[([^\]]*)\]:`)

// allBlocked says whether every goroutine but the calling one waits for another one.
func allBlocked() bool {
	buf := make([]byte, 1<<20)
	all := goState.FindAllSubmatch(buf[:runtime.Stack(buf, true)], -1)
	for _, m := range all[1:] {
		switch s, _, _ := strings.Cut(string(m[1]), ","); {
		case strings.HasPrefix(s, "chan "), strings.HasPrefix(s, "select"), strings.HasPrefix(s, "sync."), s == "semacquire":
		default:
			return false
		}
	}
	return true
}
