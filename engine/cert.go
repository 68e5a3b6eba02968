package main

import (
	"fmt"
	"os/exec"
	"strings"
	"time"
)

// Certification of the term rewriting: rewritten operations are given back to the solver,
// which must show that the plain operation on the same operands equals the rewritten term.
// Small programs are certified step by step; of large ones, the first steps and a sample.

type rewrite struct{ raw, res *Term }

func (T *Terms) noteRewrite(op Op, rw uint8, a, b, c, res *Term) {
	if T.rwOff || T.budget > 0 {
		return
	}
	T.rwSeen++
	sz := a.size
	for _, x := range []*Term{b, c, res} {
		if x != nil {
			sz += x.size
		}
	}
	if sz > 6000 || sz < 0 {
		return
	}
	if len(T.rws) < 1500 || T.rwSeen&(T.rwSeen-1) == 0 || T.rwSeen%997 == 0 {
		T.rws = append(T.rws, rewrite{T.raw(op, rw, a, b, c, 0), res})
	}
}

// certify checks recorded rewrites in batches, the newest first.
func (E *Eng) certify() {
	T := E.T
	T.rwOff = true
	t0 := time.Now()
	limit := 4 * time.Second
	if E.thorough {
		limit = 60 * time.Second
	}
	var flush func(l []*Term, rs []rewrite)
	flush = func(l []*Term, rs []rewrite) {
		if len(l) == 0 {
			return
		}
		or := l[0]
		for _, x := range l[1:] {
			or = T.raw(OOr, 0, or, x, nil, 0)
		}
		res, _ := E.S.Check([]*Term{or})
		switch res {
		case unsat:
			E.out.Certified += len(l)
		case sat:
			if len(l) == 1 {
				E.out.CertBad = append(E.out.CertBad, cut(exprOf(rs[0].raw), 3000)+" => "+cut(exprOf(rs[0].res), 1000))
				return
			}
			m := len(l) / 2
			flush(l[:m], rs[:m])
			flush(l[m:], rs[m:])
		}
	}
	var l []*Term
	var rs []rewrite
	seen := map[rewrite]bool{}
	var sz int32
	for i := len(T.rws) - 1; i >= 0; i-- {
		r := T.rws[i]
		if r.raw == r.res || seen[r] {
			continue
		}
		seen[r] = true
		if time.Since(t0) > limit || time.Now().After(E.deadline) {
			break
		}
		eq := T.raw(OEq, 0, r.raw, r.res, nil, 0)
		l = append(l, T.raw(ONot, 0, eq, nil, nil, 0))
		rs = append(rs, r)
		sz += int32(r.raw.size)
		if len(l) == 24 || sz > 3000 {
			flush(l, rs)
			l, rs, sz = nil, nil, 0
		}
	}
	flush(l, rs)
	E.out.Rewrites = T.rwSeen
}

// crossCheck gives assertion queries to a second solver.
func (E *Eng) crossCheck() {
	t0 := time.Now()
	budget, lim := 5*time.Second, 2500
	if E.thorough {
		budget, lim = 90*time.Second, 20000
	}
	for _, q := range crossQueries {
		if time.Since(t0) > budget || time.Now().After(E.deadline) {
			return
		}
		c := exec.Command("cvc5", "--lang", "smt2", fmt.Sprintf("--tlimit=%d", lim), "-")
		c.Stdin = strings.NewReader(q.script)
		out, _ := c.Output()
		ans := strings.TrimSpace(string(out))
		want := "unsat"
		if q.res == sat {
			want = "sat"
		}
		switch ans {
		case want:
			E.out.CrossOK++
		case "sat", "unsat":
			E.out.CrossBad = append(E.out.CrossBad, "cvc5 says "+ans+", z3 says "+want)
		}
	}
}
