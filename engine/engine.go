package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(E *Eng, st *State, f *Func, args []Value, ps *panicState) []Exit

type sideKey struct {
	kind     string
	obj, off int
}

// Eng is the symbolic executor.
type Eng struct {
	guesses  int
	pooled   map[int]bool
	switches int
	T        *Terms
	S        *Solver
	base     map[int]*Obj
	muxes    map[muxKey]muxVal
	nextObj  int
	virts    map[string]int // see virt.go

	ncache    map[types.Type]int
	fninfo    map[*ssa.Function]*FnInfo
	fnvals    map[*ssa.Function]*Func
	consts    map[*ssa.Const]Value
	byteConst [256]*Term

	prog       *ssa.Program
	intrinsics map[string]intrinsic
	models     map[string]*ssa.Function
	decodeRune *ssa.Function
	rtErrType  types.Type

	globals map[*ssa.Global]int
	inited  map[*ssa.Package]bool
	side    map[sideKey]int
	inInit  bool

	stack      []*Frame
	depth      int
	maxSteps   int
	totalSteps int
	deadline   time.Time
	noMerge    bool

	Forks, Merges, MergeFails int

	fnsSeen map[*ssa.Function]bool
	incon   map[string]int

	harness  string
	part     int
	thorough bool
	out      *Result
	onFail   func(c Candidate) bool // replays a candidate; true = confirmed
	stopAll  bool
}

func NewEng(prog *ssa.Program, solver []string, timeoutMS int) *Eng {
	E := &Eng{
		muxes: map[muxKey]muxVal{},
		T:     &Terms{}, base: map[int]*Obj{}, ncache: map[types.Type]int{}, fninfo: map[*ssa.Function]*FnInfo{},
		fnvals: map[*ssa.Function]*Func{}, consts: map[*ssa.Const]Value{}, prog: prog,
		intrinsics: map[string]intrinsic{}, models: map[string]*ssa.Function{}, globals: map[*ssa.Global]int{},
		inited: map[*ssa.Package]bool{}, side: map[sideKey]int{}, maxSteps: 4000000,
		fnsSeen: map[*ssa.Function]bool{}, incon: map[string]int{}, deadline: time.Now().Add(24 * time.Hour),
	}
	E.T.init()
	for i := range E.byteConst {
		E.byteConst[i] = E.T.Const(uint64(i), 8)
	}
	E.S = NewSolver(E.T, solver, timeoutMS)
	if p := prog.ImportedPackage("unicode/utf8"); p != nil {
		E.decodeRune = p.Func("DecodeRuneInString")
	}
	if p := prog.ImportedPackage("runtime"); p != nil {
		if t := p.Type("errorString"); t != nil {
			E.rtErrType = t.Type()
		}
	}
	E.registerIntrinsics()
	return E
}

func (E *Eng) newState() *State {
	return &State{heap: map[int]*Obj{}, own: &own{}, model: Model{}, known: map[int32]bool{}, names: map[string]int{}}
}

func isRepoPkg(path string) bool {
	return path == repoPath || strings.HasPrefix(path, repoPath+"/")
}

const repoPath = "github.com/suapapa/go_hangul"

// eager reports whether a package's initialisation is executed as a whole before the harness.
func eager(path string) bool {
	return isRepoPkg(path) || strings.HasPrefix(path, "verif/") || strings.HasPrefix(path, "golang.org/x/text")
}

// opaqueInit packages are never initialised: their variables cannot be read.
func opaqueInit(path string) bool {
	switch path {
	case "runtime", "os", "syscall", "reflect", "time", "unsafe", "testing", "plugin":
		return true
	}
	return strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "crypto")
}

func zeroGlobalOK(g *ssa.Global) bool {
	switch g.String() {
	case "internal/bytealg.MaxLen":
		return true
	}
	return false
}

func (E *Eng) global(g *ssa.Global) int {
	if id, ok := E.globals[g]; ok {
		if g.Pkg != nil && !E.inited[g.Pkg] && !eager(g.Pkg.Pkg.Path()) {
			E.initPkg(g.Pkg)
		}
		return id
	}
	if g.Pkg != nil {
		path := g.Pkg.Pkg.Path()
		if opaqueInit(path) && !zeroGlobalOK(g) && g.Name() != "init$guard" {
			panic(unsup{"variable " + g.String()})
		}
		E.nextObj++
		id := E.nextObj
		t := g.Type().Underlying().(*types.Pointer).Elem()
		E.base[id] = &Obj{cells: E.zeroCells(t, nil), tag: g.String()}
		E.globals[g] = id
		if !E.inited[g.Pkg] && !opaqueInit(path) {
			E.initPkg(g.Pkg)
		}
		return id
	}
	panic(unsup{"global " + g.String()})
}

// initPkg executes the package initialiser concretely.
func (E *Eng) initPkg(p *ssa.Package) {
	if E.inited[p] {
		return
	}
	E.inited[p] = true
	path := p.Pkg.Path()
	if opaqueInit(path) {
		return
	}
	if eager(path) {
		for _, im := range p.Pkg.Imports() {
			if q := E.prog.Package(im); q != nil && eager(im.Path()) {
				E.initPkg(q)
			}
		}
	}
	fn := p.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	saveInit, saveDepth, saveStack, saveMax := E.inInit, E.depth, E.stack, E.maxSteps
	E.inInit, E.depth, E.stack, E.maxSteps = true, 0, nil, 400000000
	defer func() { E.inInit, E.depth, E.stack, E.maxSteps = saveInit, saveDepth, saveStack, saveMax }()
	st := E.newState()
	seen := E.fnsSeen
	if !isRepoPkg(path) {
		E.fnsSeen = map[*ssa.Function]bool{}
	}
	exits := E.call(st, fn, nil, nil, nil)
	E.fnsSeen = seen
	if len(exits) != 1 || exits[0].kind != xRet {
		m := "no exit"
		if len(exits) > 0 {
			m = exits[0].msg
		}
		if eager(path) {
			fatal("initialisation of %s could not be executed: %s", path, m)
		}
		return
	}
	for id, o := range exits[0].st.heap {
		E.base[id] = o
	}
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "ERROR: "+f+"\n", a...)
	os.Exit(2)
}

// ---- accesses to memory shared between concurrent calls ----

type access struct {
	obj    int
	write  bool
	locks  string
	phase  int
	where  string
	tag    string
	parent *access
}

func (E *Eng) where() string {
	for i := len(E.stack) - 1; i >= 0; i-- {
		fn := E.stack[i].info.fn
		if fn.Pkg != nil && isRepoPkg(fn.Pkg.Pkg.Path()) {
			return fn.String()
		}
	}
	if len(E.stack) > 0 {
		return E.stack[len(E.stack)-1].info.name
	}
	return "?"
}

func (E *Eng) noteAccess(st *State, id int, o *Obj, write bool) {
	if st.phase == 0 || st.atomic || id > st.sharedMax || strings.HasPrefix(o.tag, "side:") || strings.HasPrefix(o.tag, "verif/") {
		return
	}
	locks := st.locks
	if !E.pooled[id] {
		locks = nil
		for _, l := range st.locks {
			if !strings.HasPrefix(l, "Xpool") {
				locks = append(locks, l)
			}
		}
	}
	lk := strings.Join(locks, ",")
	for a := st.acc; a != nil; a = a.parent {
		if a.obj == id && a.phase == st.phase && (a.write || !write) && a.locks == lk {
			return
		}
	}
	n := &access{obj: id, write: write, locks: lk, phase: st.phase, where: E.where(), tag: o.tag, parent: st.acc}
	for a := st.acc; a != nil; a = a.parent {
		if a.obj == id && a.phase != st.phase && (a.write || write) && !protected(a.locks, lk) {
			E.raceCandidate(st, a, n)
			break
		}
	}
	st.acc = n
}

// protected: the two locksets share a lock held exclusively by at least one side.
func protected(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	for _, x := range strings.Split(a, ",") {
		for _, y := range strings.Split(b, ",") {
			if x[1:] == y[1:] && (x[0] == 'X' || y[0] == 'X') {
				return true
			}
		}
	}
	return false
}

// markPooled records the memory reachable from an item put into a sync.Pool: who gets the
// item next may use it without further synchronisation.
func (E *Eng) markPooled(st *State, v Value) {
	if E.pooled == nil {
		E.pooled = map[int]bool{}
	}
	var walk func(v Value)
	obj := func(id int) {
		if id == 0 || E.pooled[id] {
			return
		}
		E.pooled[id] = true
		for _, c := range E.obj(st, id).cells {
			walk(c)
		}
	}
	walk = func(v Value) {
		switch x := v.(type) {
		case Ptr:
			obj(x.obj)
		case Slice:
			obj(x.obj)
		case Iface:
			if x.v != nil {
				walk(x.v)
			}
		}
	}
	walk(v)
}

// syncOp reports whether a function is a point where another goroutine can be observed to run.
func syncOp(name string) bool {
	return strings.HasPrefix(name, "(*sync.") || strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "(*sync/atomic.")
}

// preempt runs the second concurrent call before a synchronisation operation of the first.
func (E *Eng) preempt(st *State) (outs []*State, exits []Exit) {
	if st.phase != 1 || st.parG == nil || st.atomic {
		return nil, nil
	}
	s := st.fork()
	E.Forks++
	E.switches++
	s.tag = s.tag*1000003 + 7 + uint64(E.switches)
	g, locks := s.parG, s.locks
	s.parG, s.held, s.locks, s.phase, s.switched = nil, locks, nil, 2, true
	for _, x := range E.callFunc(s, g, nil, nil) {
		x.st.phase, x.st.locks, x.st.held = 1, locks, nil
		if x.kind != xRet {
			exits = append(exits, x)
			continue
		}
		outs = append(outs, x.st)
	}
	return
}

// guarded runs f; a schedule that cannot exist has no exits.
func (E *Eng) guarded(st *State, f func() []Exit) (outs []Exit) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(killPath); !ok {
				panic(r)
			}
			outs = []Exit{{kind: xKill, st: st}}
		}
	}()
	return f()
}

func (E *Eng) raceCandidate(st *State, a, b *access) {
	kind := func(x *access) string {
		if x.write {
			return "write in " + x.where
		}
		return "read in " + x.where
	}
	tag := a.tag
	if tag == "" {
		tag = "object"
	}
	E.violation(st, fmt.Sprintf("unsynchronised concurrent access to %s: %s and %s", tag, kind(a), kind(b)), "race", st.model)
}

func (E *Eng) noteSharedWrite(st *State, id int, o *Obj) {}

func (E *Eng) encoded(fn *ssa.Function) { E.fnsSeen[fn] = true }

func (E *Eng) inconclusive(msg string) { E.incon[msg]++ }

// sideObj returns an object holding engine-side state (once flags, pools) attached to a program address.
func (E *Eng) sideObj(kind string, p Ptr, init func() *Obj) int {
	if p.idx != nil {
		panic(unsup{kind + " at a symbolic address"})
	}
	k := sideKey{kind, p.obj, p.off}
	if id, ok := E.side[k]; ok {
		return id
	}
	E.nextObj++
	o := init()
	o.tag = "side:" + kind
	E.base[E.nextObj] = o
	E.side[k] = E.nextObj
	return E.nextObj
}

// ---- results ----

type Candidate struct {
	Harness string            `json:"harness"`
	Part    int               `json:"part"`
	Msg     string            `json:"msg"`
	Kind    string            `json:"kind"` // assert, panic, limit, race, abort
	Tier    string            `json:"tier"`
	Vars    map[string]uint64 `json:"vars"`
}

type PathSample struct {
	Vars map[string]uint64 `json:"vars"`
	Obs  []ObsOut          `json:"obs"`
}

type ObsOut struct {
	Label string `json:"l"`
	Val   string `json:"v"`
}

type Result struct {
	Harness     string         `json:"harness"`
	Part        int            `json:"part"`
	Paths       int            `json:"paths"`
	Forks       int            `json:"forks"`
	Merges      int            `json:"merges"`
	Steps       int            `json:"steps"`
	Asserts     int            `json:"asserts"`
	Trivial     int            `json:"trivial"`
	Queries     int            `json:"queries"`
	Hits        int            `json:"cache_hits"`
	Shared      int            `json:"shared_hits"`
	Sat         int            `json:"sat"`
	Unsat       int            `json:"unsat"`
	Unknown     int            `json:"unknown"`
	SolverS     float64        `json:"solver_s"`
	MaxQueryS   float64        `json:"max_query_s"`
	WallS       float64        `json:"wall_s"`
	Vars        int            `json:"vars"`
	VarBits     int            `json:"var_bits"`
	Functions   []string       `json:"functions"`
	Libs        []string       `json:"lib_functions"`
	Incon       map[string]int `json:"inconclusive"`
	Reach       map[string]int `json:"reach"`
	Replayed    int            `json:"replayed"`
	Mismatch    []string       `json:"mismatch"`
	Confirmed   []Candidate    `json:"confirmed"`
	Replay      string         `json:"replay"`
	ReplayOut   string         `json:"replay_out"`
	Unconfirmed []Candidate    `json:"unconfirmed"`
	Samples     []PathSample   `json:"samples"`
	Validated   int            `json:"validated"`
	Guesses     int            `json:"guesses"`
	AssertQ     int            `json:"assert_queries"`
	CrossOK     int            `json:"cross_ok"`
	Certified   int            `json:"certified"`
	Rewrites    int            `json:"rewrites"`
	CertBad     []string       `json:"certbad"`
	CrossBad    []string       `json:"crossbad"`
	Err         string         `json:"err"`
}

func (E *Eng) varsOf(st *State, m Model) map[string]uint64 {
	out := map[string]uint64{}
	for name, n := range st.names {
		for i := 1; i <= n; i++ {
			full := fmt.Sprintf("%s#%d", name, i)
			if t, ok := E.T.varByNm[full]; ok {
				v := m[int(t.k)]
				if t.w > 0 {
					v &= mask(t.w)
				}
				if v != 0 {
					out[full] = v
				}
			}
		}
	}
	return out
}

// violation reports a candidate; if the replay confirms it, exploration stops.
func (E *Eng) violation(st *State, msg, kind string, m Model) {
	if st.switched && kind == "assert" {
		kind = "schedule"
	}
	c := Candidate{Harness: E.harness, Part: E.part, Msg: msg, Kind: kind, Vars: E.varsOf(st, m)}
	if E.thorough {
		c.Tier = "thorough"
	}
	if E.onFail == nil {
		E.out.Unconfirmed = append(E.out.Unconfirmed, c)
		return
	}
	n := 0
	for _, u := range E.out.Unconfirmed {
		if u.Msg == msg {
			n++
		}
	}
	if n >= 3 {
		return
	}
	if E.onFail(c) {
		E.out.Confirmed = append(E.out.Confirmed, c)
		E.stopAll = true
		panic(stopRun{})
	}
	E.out.Unconfirmed = append(E.out.Unconfirmed, c)
}

type stopRun struct{}

// assertion checks that cond holds on every input of this path.
func (E *Eng) assertion(st *State, c *Term, msg string) {
	E.out.Asserts++
	if c == E.T.True {
		E.out.Trivial++
		return
	}
	nc := E.T.Not(c)
	if d := E.decide(st, nc); d == 0 {
		E.out.Trivial++
		return
	}
	if E.T.Eval(nc, st.model) == 1 {
		E.violation(st, msg, "assert", st.model)
	} else {
		conds := append(E.slicePC(st, nc.sup), nc)
		E.S.what = msg
		res, m := E.S.Check(conds)
		E.S.what = ""
		E.noteQuery(conds, res)
		switch res {
		case unsat:
			if c.size < 2000 {
				st.assume(c) // implied; a lemma for what follows
			}
			if c.size < 64 {
				st.setKnown(c.id, true)
			}
			return
		case unknown:
			if os.Getenv("SYM_DEBUG") != "" {
				describe(nc)
			}
			E.inconclusive("assertion not decided by the solver: " + msg)
			return
		default:
			full := make(Model, len(st.model)+len(m))
			for k, v := range st.model {
				full[k] = v
			}
			for k, v := range m {
				full[k] = v
			}
			E.violation(st, msg, "assert", full)
		}
	}
	ok, m := E.feasible(st, c)
	if !ok {
		panic(killPath{})
	}
	st.assume(c)
	st.model = m
}

type killPath struct{}

// noteQuery remembers assertion queries for cross-checking with a second solver.
func (E *Eng) noteQuery(conds []*Term, res int) {
	E.out.AssertQ++
	if res == unknown || len(crossQueries) >= crossMax {
		return
	}
	n := 0
	for _, c := range conds {
		n += int(c.size)
	}
	if n > 40000 {
		return
	}
	crossQueries = append(crossQueries, crossQuery{Script(conds), res})
}

type crossQuery struct {
	script string
	res    int
}

var crossMax = 4
var crossQueries []crossQuery

// Explore runs one harness function symbolically.
func (E *Eng) Explore(fn *ssa.Function) (samples []PathSample, aborted []Candidate) {
	st := E.newState()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopRun); ok {
				return
			}
			panic(r)
		}
	}()
	exits := E.call(st, fn, nil, nil, nil)
	for _, x := range exits {
		E.out.Paths++
		switch x.kind {
		case xRet:
			samples = append(samples, PathSample{E.varsOf(x.st, x.st.model), E.obsOf(x.st)})
		case xPanic:
			E.violation(x.st, x.msg, "panic", x.st.model)
		case xAbort:
			E.inconclusive(x.msg)
			c := Candidate{Harness: E.harness, Part: E.part, Msg: x.msg, Kind: "abort", Vars: E.varsOf(x.st, x.st.model)}
			if strings.Contains(x.msg, "instructions in") {
				c.Kind = "limit"
			}
			aborted = append(aborted, c)
		}
	}
	return
}

func (E *Eng) obsOf(st *State) []ObsOut {
	var list []*Obs
	for o := st.obs; o != nil; o = o.parent {
		list = append(list, o)
	}
	var out []ObsOut
	for i := len(list) - 1; i >= 0; i-- {
		o := list[i]
		var b strings.Builder
		switch o.val.kind {
		case "str":
			b.WriteString(o.val.str)
		default:
			for j, t := range o.val.terms {
				if j > 0 {
					b.WriteByte(' ')
				}
				v := E.T.Eval(t, st.model)
				if t.w == 0 {
					fmt.Fprint(&b, v)
				} else {
					fmt.Fprint(&b, sext(v, t.w))
				}
			}
		}
		out = append(out, ObsOut{o.label, b.String()})
	}
	return out
}

func (E *Eng) finish(t0 time.Time) {
	o := E.out
	o.Forks, o.Merges, o.Steps = E.Forks, E.Merges, E.totalSteps
	o.Shared = E.S.SharedN
	o.Queries, o.Hits, o.Sat, o.Unsat, o.Unknown = E.S.Queries, E.S.Hits, E.S.Sat, E.S.Unsat, E.S.Unknowns
	o.Guesses = E.guesses
	o.SolverS = E.S.Time.Seconds()
	o.MaxQueryS = E.S.MaxTime.Seconds()
	o.WallS = time.Since(t0).Seconds()
	o.Vars = len(E.T.vars)
	for _, v := range E.T.vars {
		if v.term.w == 0 {
			o.VarBits++
		} else {
			o.VarBits += int(v.term.w)
		}
	}
	o.Incon = E.incon
	for fn := range E.fnsSeen {
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Pkg == nil {
			if fn.Object() != nil && fn.Object().Pkg() != nil && isRepoPkg(fn.Object().Pkg().Path()) {
				o.Functions = append(o.Functions, fn.String())
			} else {
				o.Libs = append(o.Libs, fn.String())
			}
			continue
		}
		p := root.Pkg.Pkg.Path()
		switch {
		case isRepoPkg(p):
			n := 0
			for _, b := range fn.Blocks {
				n += len(b.Instrs)
			}
			o.Functions = append(o.Functions, fmt.Sprintf("%s (%d instructions)", fn.String(), n))
		case strings.HasPrefix(p, "verif/"):
		default:
			o.Libs = append(o.Libs, fn.String())
		}
	}
	sort.Strings(o.Functions)
	sort.Strings(o.Libs)
}
