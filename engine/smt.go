package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Solver drives one SMT solver process over a pipe (SMT-LIB 2, QF_BV, incremental).
type Solver struct {
	T         *Terms
	cmd       *exec.Cmd
	in        io.WriteCloser
	w         *bufio.Writer
	out       *bufio.Reader
	defined   map[int32]bool
	cache     map[string]cached
	Queries   int
	Hits      int
	Unknowns  int
	Sat       int
	Unsat     int
	Time      time.Duration
	MaxTime   time.Duration
	TimeoutMS int
	bin       []string
	log       io.Writer
	hashes    map[int32]hash
	shareDir  string // where the answers of this run are shared
	SharedN   int
	checkCmd  string
	what      string // the current assertion, for SYM_SLOW
}

var slowN int

var slowLog = os.Getenv("SYM_SLOW") != ""

type cached struct {
	res   int
	model Model
}

const (
	unsat   = 0
	sat     = 1
	unknown = 2
)

func NewSolver(T *Terms, bin []string, timeoutMS int) *Solver {
	s := &Solver{T: T, cache: map[string]cached{}, bin: bin, TimeoutMS: timeoutMS, hashes: map[int32]hash{}, shareDir: os.Getenv("SYM_SHARE")}
	if p := os.Getenv("SYM_SMTLOG"); p != "" {
		f, _ := os.Create(p)
		s.log = f
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	chk(err)
	out, err := s.cmd.StdoutPipe()
	chk(err)
	s.cmd.Stderr = os.Stderr
	chk(s.cmd.Start())
	s.in = in
	s.w = bufio.NewWriterSize(in, 1<<20)
	s.out = bufio.NewReaderSize(out, 1<<20)
	s.defined = map[int32]bool{}
	s.send("(set-option :print-success false)\n(set-option :produce-models true)\n")
	s.checkCmd = "(check-sat)\n"
	if strings.Contains(s.bin[0], "z3") {
		s.checkCmd = fmt.Sprintf("(check-sat-using (try-for qfbv %d))\n", s.TimeoutMS)
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.TimeoutMS))
	}
	s.send("(set-logic QF_BV)\n")
}

func (s *Solver) Close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) send(x string) {
	s.w.WriteString(x)
	if s.log != nil {
		io.WriteString(s.log, x)
	}
}

func chk(err error) {
	if err != nil {
		panic(err)
	}
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func bvlit(k uint64, w uint8) string {
	return fmt.Sprintf("(_ bv%d %d)", k, w)
}

func termName(t *Term) string { return "t" + strconv.Itoa(int(t.id)) }
func varName(t *Term) string  { return "v" + strconv.Itoa(int(t.k)) }

func ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		return bvlit(t.k, t.w)
	case OVar:
		return varName(t)
	}
	return termName(t)
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUle: "bvule", OSle: "bvsle",
	OAdd: "bvadd", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat"}

func exprOf(t *Term) string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.k)+int(t.w)-1, t.k, ref(t.a))
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, ref(t.a))
	}
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(opNames[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			b.WriteByte(' ')
			b.WriteString(ref(x))
		}
	}
	b.WriteByte(')')
	return b.String()
}

// defineInto emits definitions for t and everything below it.
func defineInto(t *Term, defined map[int32]bool, send func(string)) {
	if t.op == OConst || defined[t.id] {
		return
	}
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		kids := [3]*Term{f.t.a, f.t.b, f.t.c}
		if f.i < 3 {
			k := kids[f.i]
			f.i++
			if k != nil && k.op != OConst && !defined[k.id] {
				st = append(st, fr{k, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if defined[x.id] {
			continue
		}
		defined[x.id] = true
		if x.op == OVar {
			send("(declare-const " + varName(x) + " " + sortOf(x.w) + ")\n")
		} else {
			send("(define-fun " + termName(x) + " () " + sortOf(x.w) + " " + exprOf(x) + ")\n")
		}
	}
}

func (s *Solver) key(conds []*Term) string {
	ids := make([]int, len(conds))
	for i, c := range conds {
		ids[i] = int(c.id)
	}
	sort.Ints(ids)
	var b bytes.Buffer
	for _, i := range ids {
		b.WriteByte(byte(i))
		b.WriteByte(byte(i >> 8))
		b.WriteByte(byte(i >> 16))
		b.WriteByte(byte(i >> 24))
	}
	return b.String()
}

// Check decides the conjunction of conds. The model covers the variables of conds.
func (s *Solver) Check(conds []*Term) (int, Model) {
	var cs []*Term
	sup := s.T.empty
	for _, c := range conds {
		if c.op == OConst {
			if c.k == 0 {
				return unsat, nil
			}
			continue
		}
		cs = append(cs, c)
		sup = s.T.union(sup, c.sup)
	}
	if len(cs) == 0 {
		return sat, Model{}
	}
	k := s.key(cs)
	if r, ok := s.cache[k]; ok {
		s.Hits++
		return r.res, r.model
	}
	var path string
	if s.shareDir != "" {
		path = s.sharePath(cs)
		if r, ok := s.shared(path, cs, sup); ok {
			s.SharedN++
			s.cache[k] = r
			return r.res, r.model
		}
	}
	t0 := time.Now()
	for _, c := range cs {
		defineInto(c, s.defined, s.send)
	}
	s.send("(push 1)\n")
	for _, c := range cs {
		s.send("(assert " + ref(c) + ")\n")
	}
	s.send(s.checkCmd)
	s.w.Flush()
	line := s.readLine()
	res := unknown
	var m Model
	switch line {
	case "sat":
		res = sat
		m = Model{}
		var vars []*Term
		for i, wd := range sup.bits {
			for b := 0; b < 64; b++ {
				if wd>>b&1 == 1 {
					vars = append(vars, s.T.vars[i*64+b].term)
				}
			}
		}
		var q strings.Builder
		q.WriteString("(get-value (")
		for _, v := range vars {
			q.WriteString(varName(v) + " ")
		}
		q.WriteString("))\n")
		s.send(q.String())
		s.w.Flush()
		vals := s.readSexp()
		s.parseModel(vals, vars, m)
	case "unsat":
		res = unsat
	case "unknown", "timeout":
	default:
		panic("solver said: " + line)
	}
	s.send("(pop 1)\n")
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxTime {
		s.MaxTime = d
	}
	s.Queries++
	if slowLog && d > 300*time.Millisecond {
		fmt.Fprintf(os.Stderr, "SLOW %.2fs res %d what %q sizes", d.Seconds(), res, s.what)
		for _, c := range cs {
			fmt.Fprint(os.Stderr, " ", c.size)
		}
		fmt.Fprintln(os.Stderr)
		slowN++
		os.WriteFile(fmt.Sprintf("%s/q%03d.smt2", os.Getenv("SYM_SLOW"), slowN), []byte(Script(cs)), 0o644)
	}
	switch res {
	case sat:
		s.Sat++
		for _, c := range cs {
			if s.T.Eval(c, m) != 1 {
				panic("solver model does not satisfy the query (encoding and evaluator disagree)")
			}
		}
	case unsat:
		s.Unsat++
	default:
		s.Unknowns++
	}
	s.cache[k] = cached{res, m}
	if path != "" {
		s.share(path, s.cache[k])
	}
	return res, m
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic("solver died: " + err.Error())
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			panic("solver error: " + l)
		}
		return l
	}
}

func (s *Solver) readSexp() string {
	var b strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic("solver died: " + err.Error())
		}
		if strings.HasPrefix(l, "(error") {
			panic("solver error: " + l)
		}
		b.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth == 0 && strings.TrimSpace(b.String()) != "" {
			return b.String()
		}
	}
}

func (s *Solver) parseModel(x string, vars []*Term, m Model) {
	x = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(x)
	f := strings.Fields(x)
	byName := map[string]*Term{}
	for _, v := range vars {
		byName[varName(v)] = v
	}
	n := 0
	for i := 0; i < len(f); i++ {
		v, ok := byName[f[i]]
		if !ok || i+1 >= len(f) {
			continue
		}
		val := f[i+1]
		var k uint64
		var err error
		switch {
		case val == "true":
			k = 1
		case val == "false":
			k = 0
		case strings.HasPrefix(val, "#x"):
			k, err = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			k, err = strconv.ParseUint(val[2:], 2, 64)
		case val == "(" && strings.HasPrefix(f[i+3], "bv"):
			k, err = strconv.ParseUint(f[i+3][2:], 10, 64)
		default:
			err = fmt.Errorf("bad value %q", val)
		}
		chk(err)
		m[int(v.k)] = k
		n++
	}
	if n != len(vars) {
		panic("incomplete model: " + x)
	}
}

// Script renders a standalone SMT-LIB script for the conjunction of conds.
func Script(conds []*Term) string {
	var b strings.Builder
	b.WriteString("(set-logic QF_BV)\n")
	def := map[int32]bool{}
	for _, c := range conds {
		defineInto(c, def, func(x string) { b.WriteString(x) })
	}
	for _, c := range conds {
		b.WriteString("(assert " + ref(c) + ")\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}
