// Package sym is the harness interface. Under the symbolic executor its functions
// are intercepted; run natively they read the values of a replayed assignment.
package sym

import (
	"fmt"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

// State of a native run.
var (
	Vars     map[string]uint64
	PartNo   int
	Deep     bool
	Observed []Ob
	count    map[string]int
	Rounds   = 1 // repetitions of Par, for the race detector
	SwitchAt int // if not 0, Par runs its second call before this operation of the first
)

// NoSwitch ends a run in which the first call has fewer synchronisation operations.
type NoSwitch struct{}

// Ob is one observed value.
type Ob struct {
	Label string `json:"l"`
	Val   string `json:"v"`
}

// AssertFailed and AssumeFailed end a native run.
type AssertFailed struct{ Msg string }
type AssumeFailed struct{}

// Start prepares a native run.
func Start(vars map[string]uint64, part int, deep bool) {
	Vars, PartNo, Deep, Observed, count = vars, part, deep, nil, map[string]int{}
}

func next(name string) uint64 {
	count[name]++
	return Vars[fmt.Sprintf("%s#%d", name, count[name])]
}

func Byte(name string) byte     { return byte(next(name)) }
func Uint16(name string) uint16 { return uint16(next(name)) }
func Rune(name string) rune     { return rune(uint32(next(name))) }
func Int(name string) int       { return int(next(name)) }
func Bool(name string) bool     { return next(name) == 1 }

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name))
	}
	return b
}

// Str returns a string of n arbitrary bytes.
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Choose returns an arbitrary number below n, one path for each.
func Choose(name string, n int) int {
	v := int(next(name))
	if v >= n {
		panic(AssumeFailed{})
	}
	return v
}

// Part is the number of the worker when a harness is split.
func Part(n int) int { return PartNo }

// Thorough reports the tier.
func Thorough() bool { return Deep }

// Symbolic reports whether the symbolic executor is running the harness.
func Symbolic() bool { return false }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(AssertFailed{msg})
	}
}

// Fail is Assert(false).
func Fail(msg string) { panic(AssertFailed{msg}) }

// Reach is a reachability witness.
func Reach(msg string) {}

// Steps sets how many instructions a path may have before it counts as endless (4 million
// otherwise).
func Steps(n int) {}

// ReachIf is a satisfiability witness for a condition at this point.
func ReachIf(c bool, msg string) {}

func Obs(label string, v int) { Observed = append(Observed, Ob{label, fmt.Sprint(v)}) }
func ObsBool(label string, v bool) {
	n := 0
	if v {
		n = 1
	}
	Obs(label, n)
}
func ObsBytes(label string, b []byte) {
	s := make([]byte, 0, 4*len(b))
	for i, x := range b {
		if i > 0 {
			s = append(s, ' ')
		}
		s = strconv.AppendInt(s, int64(int8(x)), 10)
	}
	Observed = append(Observed, Ob{label, string(s)})
}
func ObsStr(label string, s string) { ObsBytes(label, []byte(s)) }

// EqBytes compares without branching.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// And, Or and the Ite functions are evaluated without branching.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteRune(c bool, a, b rune) rune {
	if c {
		return a
	}
	return b
}

// Share marks all existing memory as shared.
func Share() {}

// At is called before every synchronisation operation of instrumented code.
func At[T any](x T) T {
	if atomic.LoadInt32(&armed) == 1 && atomic.AddInt32(&ops, 1) == int32(SwitchAt) {
		atomic.StoreInt32(&armed, 0)
		second()
	}
	return x
}

var (
	armed, ops int32
	second     func()
)

func switchPar(f, g func()) {
	var p1, p2 interface{}
	done := make(chan bool)
	started := false
	second = func() {
		started = true
		go func() {
			defer close(done)
			defer func() { p2 = recover() }()
			g()
		}()
		select {
		case <-done:
		case <-time.After(300 * time.Millisecond): // it waits for the first
		}
	}
	ops, armed = 0, 1
	func() {
		defer func() { p1 = recover() }()
		f()
	}()
	armed = 0
	if !started {
		panic(NoSwitch{})
	}
	<-done
	if p1 != nil {
		panic(p1)
	}
	if p2 != nil {
		panic(p2)
	}
}

// Par runs two calls concurrently.
func Par(f, g func()) {
	if SwitchAt > 0 {
		switchPar(f, g)
		return
	}
	end := time.Now().Add(10 * time.Second)
	for i := 0; i < Rounds && time.Now().Before(end); i++ {
		var wg sync.WaitGroup
		start := make(chan bool)
		var p1, p2 interface{}
		run := func(h func(), p *interface{}) {
			defer wg.Done()
			defer func() { *p = recover() }()
			<-start
			h()
		}
		wg.Add(2)
		go run(f, &p1)
		go run(g, &p2)
		close(start)
		wg.Wait()
		if p1 != nil {
			panic(p1)
		}
		if p2 != nil {
			panic(p2)
		}
	}
}
