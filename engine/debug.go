package main

import (
	"fmt"
	"os"
)

var dbgNames = map[Op]string{OConst: "const", OVar: "var", OIte: "ite", ONot: "not", OAnd: "and", OOr: "or", OEq: "eq", OUle: "ule", OSle: "sle", OAdd: "add", OConcat: "concat", OExtract: "extract", OZext: "zext", OSext: "sext"}

// describe prints the top of a term and a census of the bases of its atoms.
func describe(t *Term) {
	seen := map[*Term]bool{}
	bases := map[string]int{}
	var str func(t *Term, d int) string
	str = func(t *Term, d int) string {
		if t.op == OConst {
			return fmt.Sprintf("%#x", t.k)
		}
		if t.op == OVar {
			return fmt.Sprintf("v%d:%d", t.k, t.w)
		}
		if d == 0 {
			return fmt.Sprintf("#%d", t.id)
		}
		n := dbgNames[t.op]
		if n == "" {
			n = fmt.Sprintf("op%d", t.op)
		}
		s := fmt.Sprintf("(%s:%d", n, t.w)
		if t.op == OExtract {
			s += fmt.Sprintf("[%d]", t.k)
		}
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				s += " " + str(x, d-1)
			}
		}
		return s + ")"
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.w == 0 && (isCmp(t.op)) {
			bases[str(t.a, 3)+dbgNames[t.op]]++
			if t.b.op != OConst {
				bases["nonconst: "+str(t, 4)]++
			}
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	walk(t)
	fmt.Fprintln(os.Stderr, "UNDECIDED", str(t, 6))
	i := 0
	for k, n := range bases {
		fmt.Fprintln(os.Stderr, "   ", n, k)
		if i++; i > 40 {
			break
		}
	}
}
