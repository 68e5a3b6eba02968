package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type unsup struct{ msg string }    // construct outside the encoder
type goPanic struct{ msg string }  // run-time panic of the program
type forkReq struct{ cond *Term }  // the instruction needs cond decided
type limitHit struct{ msg string } // resource bound of the exploration

type exitKind int

const (
	xRet exitKind = iota
	xPanic
	xStop  // reached the stop block (phis done)
	xAbort // path abandoned: unsupported or limit
	xKill  // assumption infeasible
)

type Exit struct {
	kind exitKind
	st   *State
	fr   *Frame
	val  Value // return value
	pan  Value // panic value (Iface)
	msg  string
}

type deferred struct {
	fn   *Func
	args []Value
	inv  string
}

type Frame struct {
	info   *FnInfo
	regs   []Value
	bind   []Value
	defers []deferred
	pan    *panicState // shared with deferred calls (recover)
	caller *panicState
}

type panicState struct {
	active bool
	val    Value
}

func (f *Frame) copy() *Frame {
	n := *f
	n.regs = append([]Value(nil), f.regs...)
	n.defers = append([]deferred(nil), f.defers...)
	return &n
}

type FnInfo struct {
	fn    *ssa.Function
	idx   map[ssa.Value]int
	n     int
	ipdom []*ssa.BasicBlock
	live  [][]bool // live registers after the phis of each block
	name  string
}

func (E *Eng) info(fn *ssa.Function) *FnInfo {
	if fi, ok := E.fninfo[fn]; ok {
		return fi
	}
	fi := &FnInfo{fn: fn, idx: map[ssa.Value]int{}, name: fn.String()}
	add := func(v ssa.Value) { fi.idx[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.ipdom = ipdoms(fn)
	fi.live = liveness(fi)
	E.fninfo[fn] = fi
	return fi
}

// ipdoms computes immediate post-dominators over paths that return.
func ipdoms(fn *ssa.Function) []*ssa.BasicBlock {
	n := len(fn.Blocks)
	// post-dominator sets as bitsets over blocks reaching a return
	reach := make([]bool, n)
	var q []*ssa.BasicBlock
	isRet := make([]bool, n)
	for _, b := range fn.Blocks {
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				isRet[b.Index] = true
				reach[b.Index] = true
				q = append(q, b)
			}
		}
	}
	for len(q) > 0 {
		b := q[0]
		q = q[1:]
		for _, p := range b.Preds {
			if !reach[p.Index] {
				reach[p.Index] = true
				q = append(q, p)
			}
		}
	}
	pd := make([][]bool, n)
	for i := range pd {
		pd[i] = make([]bool, n)
		for j := range pd[i] {
			pd[i][j] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			if !reach[i] {
				continue
			}
			b := fn.Blocks[i]
			nw := make([]bool, n)
			if !isRet[i] {
				first := true
				for _, s := range b.Succs {
					if !reach[s.Index] {
						continue
					}
					if first {
						copy(nw, pd[s.Index])
						first = false
					} else {
						for j := range nw {
							nw[j] = nw[j] && pd[s.Index][j]
						}
					}
				}
			}
			nw[i] = true
			for j := range nw {
				if nw[j] != pd[i][j] {
					changed = true
				}
			}
			pd[i] = nw
		}
	}
	res := make([]*ssa.BasicBlock, n)
	for i := 0; i < n; i++ {
		if !reach[i] {
			continue
		}
		// the immediate post-dominator is the strict post-dominator with the most post-dominators
		best, bestN := -1, -1
		for j := 0; j < n; j++ {
			if j == i || !pd[i][j] || !reach[j] {
				continue
			}
			c := 0
			for k := range pd[j] {
				if pd[j][k] {
					c++
				}
			}
			if c > bestN {
				best, bestN = j, c
			}
		}
		if best >= 0 {
			res[i] = fn.Blocks[best]
		}
	}
	return res
}

func liveness(fi *FnInfo) [][]bool {
	fn := fi.fn
	n := len(fn.Blocks)
	live := make([][]bool, n)
	for i := range live {
		live[i] = make([]bool, fi.n)
	}
	var rands []*ssa.Value
	for changed := true; changed; {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			cur := make([]bool, fi.n)
			for _, s := range b.Succs {
				copyOr(cur, live[s.Index])
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					cur[fi.idx[ph]] = false
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b {
							if j, ok := fi.idx[ph.Edges[k]]; ok {
								cur[j] = true
							}
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if _, ok := in.(*ssa.Phi); ok {
					break
				}
				if v, ok := in.(ssa.Value); ok {
					cur[fi.idx[v]] = false
				}
				rands = in.Operands(rands[:0])
				for _, r := range rands {
					if *r == nil {
						continue
					}
					if j, ok := fi.idx[*r]; ok {
						cur[j] = true
					}
				}
			}
			for j := range cur {
				if cur[j] && !live[bi][j] {
					live[bi][j] = true
					changed = true
				}
			}
		}
	}
	return live
}

func copyOr(d, s []bool) {
	for i, x := range s {
		if x {
			d[i] = true
		}
	}
}

// ---- feasibility ----

// slice returns the path conditions that share variables (transitively) with sup.
func (E *Eng) slicePC(st *State, sup *Sup) []*Term {
	var all []*Term
	for p := st.pc; p != nil; p = p.parent {
		all = append(all, p.t)
	}
	used := make([]bool, len(all))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, t := range all {
			if !used[i] && t.sup.intersects(sup) {
				used[i] = true
				out = append(out, t)
				n := E.T.union(sup, t.sup)
				if n != sup {
					sup = n
					changed = true
				}
			}
		}
	}
	return out
}

// feasible reports whether pc && c is satisfiable, with a model of the whole pc && c.
func (E *Eng) feasible(st *State, c *Term) (bool, Model) {
	if c.op == OConst {
		return c.k == 1, st.model
	}
	if E.T.Eval(c, st.model) == 1 {
		return true, st.model
	}
	nc := E.T.Not(c)
	for p := st.pc; p != nil; p = p.parent {
		if p.t == nc {
			return false, nil
		}
	}
	if E.quick(st, c) == 0 {
		return false, nil
	}
	E.checkTime()
	conds := append(E.slicePC(st, c.sup), c)
	if m := E.guess(st, conds, c); m != nil {
		E.guesses++
		return true, m
	}
	res, m := E.S.Check(conds)
	switch res {
	case unsat:
		return false, nil
	case unknown:
		E.inconclusive("solver returned unknown on a branch condition")
		panic(limitHit{"solver unknown on branch"})
	}
	n := make(Model, len(st.model)+len(m))
	for k, v := range st.model {
		n[k] = v
	}
	for k, v := range m {
		n[k] = v
	}
	return true, n
}

// decide returns 1/0 if cond is already decided on this path, -1 otherwise.
func (E *Eng) decide(st *State, c *Term) int {
	if c.op == OConst {
		return int(c.k)
	}
	if v, ok := st.known[c.id]; ok {
		return int(b2u(v))
	}
	if c.op == ONot {
		if v, ok := st.known[c.a.id]; ok {
			return int(b2u(!v))
		}
	}
	return -1
}

// must returns a boolean's value, requesting a fork if both are possible.
func (E *Eng) must(st *State, c *Term) bool {
	switch E.decide(st, c) {
	case 1:
		return true
	case 0:
		return false
	}
	panic(forkReq{c})
}

// concretize returns the value of t on this path, forking over its feasible values.
func (E *Eng) concretize(st *State, t *Term) uint64 {
	if t.op == OConst {
		return t.k
	}
	for i := 0; ; i++ {
		v := E.T.Eval(t, st.model)
		c := E.T.Eq(t, E.T.Const(v, t.w))
		switch E.decide(st, c) {
		case 1:
			return v
		case 0:
			panic(unsup{"concretize: model contradicts known conditions"})
		}
		panic(forkReq{c})
	}
}

func (E *Eng) concInt(st *State, v Value) int {
	return int(int64(E.concretize(st, v.(*Term))))
}

// ---- running ----

func (E *Eng) checkTime() {
	if time.Now().After(E.deadline) {
		E.inconclusive("time limit")
		panic(limitHit{"time limit"})
	}
}

func (E *Eng) call(st *State, fn *ssa.Function, args, bind []Value, callerPan *panicState) []Exit {
	if E.depth > 400 {
		return []Exit{{kind: xAbort, st: st, msg: "limit: call depth"}}
	}
	E.depth++
	defer func() { E.depth-- }()
	if fn.Blocks == nil {
		return []Exit{{kind: xAbort, st: st, msg: "unsupported: no body for " + fn.String()}}
	}
	E.encoded(fn)
	fi := E.info(fn)
	fr := &Frame{info: fi, regs: make([]Value, fi.n), bind: bind, caller: callerPan}
	for i, p := range fn.Params {
		fr.regs[fi.idx[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.regs[fi.idx[p]] = bind[i]
	}
	exits := E.run(st, fr, fn.Blocks[0], 0, nil, nil)
	// panics run deferred functions
	var out []Exit
	for _, x := range exits {
		if x.kind == xPanic && x.fr != nil && len(x.fr.defers) > 0 {
			out = append(out, E.unwind(x, fn)...)
		} else {
			x.fr = nil
			out = append(out, x)
		}
	}
	return E.mergeRets(out)
}

// unwind runs the deferred calls of a panicking frame.
func (E *Eng) unwind(x Exit, fn *ssa.Function) []Exit {
	fr := x.fr
	if len(fr.defers) == 0 {
		x.fr = nil
		return []Exit{x}
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	ps := &panicState{active: true, val: x.pan}
	var out []Exit
	ns := len(E.stack)
	E.stack = append(E.stack, fr)
	defer func() { E.stack = E.stack[:ns] }()
	for _, y := range E.callFunc(x.st, d.fn, d.args, ps) {
		switch y.kind {
		case xRet:
			f2 := fr.copy()
			if y.st.recovered == ps {
				y.st.recovered = nil
				f2.pan = nil
				if len(f2.defers) > 0 {
					r := E.runDefers(y.st, f2)
					for _, z := range r {
						if z.kind == xRet {
							out = append(out, E.recoverRet(z.st, z.fr, fn)...)
						} else {
							out = append(out, z)
						}
					}
				} else {
					out = append(out, E.recoverRet(y.st, f2, fn)...)
				}
			} else {
				out = append(out, E.unwind(Exit{kind: xPanic, st: y.st, fr: f2, pan: x.pan, msg: x.msg}, fn)...)
			}
		case xPanic:
			out = append(out, E.unwind(Exit{kind: xPanic, st: y.st, fr: fr.copy(), pan: y.pan, msg: y.msg}, fn)...)
		default:
			out = append(out, y)
		}
	}
	return out
}

func (E *Eng) recoverRet(st *State, fr *Frame, fn *ssa.Function) []Exit {
	if fn.Recover == nil {
		return []Exit{{kind: xRet, st: st, val: E.zeroResults(fn)}}
	}
	return E.run(st, fr, fn.Recover, 0, nil, nil)
}

// opaqueResult is the value of a call that was not executed.
func (E *Eng) opaqueResult(t types.Type, what string) Value {
	if tt, ok := t.(*types.Tuple); ok {
		r := make(Tuple, tt.Len())
		for i := range r {
			r[i] = Opaque{what}
		}
		return r
	}
	return Opaque{what}
}

func (E *Eng) zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return E.zero(r.At(0).Type())
	}
	return E.zero(r)
}

// runDefers runs all pending deferred calls of fr in order; results are xRet exits carrying fr.
func (E *Eng) runDefers(st *State, fr *Frame) []Exit {
	if len(fr.defers) == 0 {
		return []Exit{{kind: xRet, st: st, fr: fr}}
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	ns := len(E.stack)
	E.stack = append(E.stack, fr)
	defer func() { E.stack = E.stack[:ns] }()
	outs := E.callFunc(st, d.fn, d.args, nil)
	var out []Exit
	for i, y := range outs {
		f := fr
		if i < len(outs)-1 {
			f = fr.copy()
		}
		switch y.kind {
		case xRet:
			out = append(out, E.runDefers(y.st, f)...)
		case xPanic:
			y.fr = f
			out = append(out, y)
		default:
			out = append(out, y)
		}
	}
	return out
}

// run executes from instruction i of blk until the function returns, panics or reaches stop.
func (E *Eng) run(st *State, fr *Frame, blk *ssa.BasicBlock, i int, prev, stop *ssa.BasicBlock) []Exit {
	goTo := func(target *ssa.BasicBlock) (stopped bool) {
		E.phis(fr, blk, target)
		prev, blk = blk, target
		i = 0
		for i < len(blk.Instrs) {
			if _, ok := blk.Instrs[i].(*ssa.Phi); !ok {
				break
			}
			i++
		}
		return target == stop
	}
	for {
		st.steps++
		E.totalSteps++
		if E.totalSteps&0xffff == 0 {
			if time.Now().After(E.deadline) {
				E.inconclusive("time limit")
				return []Exit{{kind: xAbort, st: st, msg: "limit: time"}}
			}
		}
		if st.steps > E.maxSteps {
			return []Exit{{kind: xAbort, st: st, msg: "limit: path of more than " + fmt.Sprint(E.maxSteps) + " instructions in " + fr.info.name}}
		}
		switch in := blk.Instrs[i].(type) {
		case *ssa.Jump:
			if goTo(blk.Succs[0]) {
				return []Exit{{kind: xStop, st: st, fr: fr}}
			}
			continue
		case *ssa.If:
			c := E.get(st, fr, in.Cond).(*Term)
			var tgt *ssa.BasicBlock
			switch E.decide(st, c) {
			case 1:
				tgt = blk.Succs[0]
			case 0:
				tgt = blk.Succs[1]
			}
			if tgt == nil {
				sideT, mT, sideF, mF, ab := E.sides(st, c)
				if ab != nil {
					return []Exit{*ab}
				}
				switch {
				case sideT && !sideF:
					tgt = blk.Succs[0]
				case sideF && !sideT:
					tgt = blk.Succs[1]
				default:
					return E.branch(st, fr, blk, c, mT, mF, stop)
				}
			}
			if goTo(tgt) {
				return []Exit{{kind: xStop, st: st, fr: fr}}
			}
			continue
		case *ssa.Return:
			var v Value
			switch len(in.Results) {
			case 0:
			case 1:
				v = E.get(st, fr, in.Results[0])
			default:
				t := make(Tuple, len(in.Results))
				for k, r := range in.Results {
					t[k] = E.get(st, fr, r)
				}
				v = t
			}
			return []Exit{{kind: xRet, st: st, fr: fr, val: v}}
		case *ssa.Panic:
			v := E.get(st, fr, in.X)
			return []Exit{{kind: xPanic, st: st, fr: fr, pan: v, msg: "panic: " + E.show(v)}}
		case *ssa.RunDefers:
			outs := E.runDefers(st, fr)
			if len(outs) == 1 && outs[0].kind == xRet {
				st, fr = outs[0].st, outs[0].fr
				i++
				continue
			}
			var res []Exit
			for _, y := range outs {
				if y.kind == xRet {
					res = append(res, E.run(y.st, y.fr, blk, i+1, prev, stop)...)
				} else {
					res = append(res, y)
				}
			}
			return res
		case ssa.CallInstruction:
			if call, ok := in.(*ssa.Call); ok {
				outs, ab, fork := E.doCall(st, fr, call)
				if fork != nil {
					more, one := E.forkAt(st, fr, blk, i, prev, stop, fork.cond)
					if one {
						continue
					}
					return more
				}
				if ab != nil {
					return []Exit{*ab}
				}
				if len(outs) == 1 && outs[0].kind == xRet {
					st = outs[0].st
					fr.regs[fr.info.idx[call]] = outs[0].val
					i++
					continue
				}
				var res []Exit
				for k, y := range outs {
					switch y.kind {
					case xRet:
						f := fr
						if k < len(outs)-1 {
							f = fr.copy()
						}
						f.regs[fr.info.idx[call]] = y.val
						res = append(res, E.run(y.st, f, blk, i+1, prev, stop)...)
					case xPanic:
						y.fr = fr.copy()
						res = append(res, y)
					default:
						res = append(res, y)
					}
				}
				return res
			}
			if _, ok := in.(*ssa.Go); ok {
				return []Exit{{kind: xAbort, st: st, msg: "unsupported: go statement in " + fr.info.name}}
			}
			// defer
			d := in.(*ssa.Defer)
			fn, args, err := E.callee(st, fr, d.Common())
			if err != "" {
				return []Exit{{kind: xAbort, st: st, msg: err}}
			}
			fr.defers = append(fr.defers, deferred{fn: fn, args: args})
			i++
			continue
		default:
			ab, fork, many := E.exec1(st, fr, blk.Instrs[i])
			if fork != nil {
				more, one := E.forkAt(st, fr, blk, i, prev, stop, fork.cond)
				if one {
					continue
				}
				return more
			}
			if ab != nil {
				return []Exit{*ab}
			}
			if many != nil {
				var res []Exit
				v := blk.Instrs[i].(ssa.Value)
				if len(many) == 1 && many[0].kind == xRet {
					st = many[0].st
					fr.regs[fr.info.idx[v]] = many[0].val
					i++
					continue
				}
				for k, y := range many {
					if y.kind == xRet {
						f := fr
						if k < len(many)-1 {
							f = fr.copy()
						}
						f.regs[fr.info.idx[v]] = y.val
						res = append(res, E.run(y.st, f, blk, i+1, prev, stop)...)
					} else {
						if y.kind == xPanic {
							y.fr = fr.copy()
						}
						res = append(res, y)
					}
				}
				return res
			}
			i++
		}
	}
}

// sides decides which values of c are feasible.
func (E *Eng) sides(st *State, c *Term) (sT bool, mT Model, sF bool, mF Model, ab *Exit) {
	defer func() {
		if r := recover(); r != nil {
			if l, ok := r.(limitHit); ok {
				ab = &Exit{kind: xAbort, st: st, msg: "limit: " + l.msg}
				return
			}
			panic(r)
		}
	}()
	sT, mT = E.feasible(st, c)
	sF, mF = E.feasible(st, E.T.Not(c))
	return
}

// forkAt splits the state on cond and re-executes instruction i on both sides.
func (E *Eng) forkAt(st *State, fr *Frame, blk *ssa.BasicBlock, i int, prev, stop *ssa.BasicBlock, c *Term) (res []Exit, one bool) {
	sT, mT, sF, mF, ab := E.sides(st, c)
	if ab != nil {
		return []Exit{*ab}, false
	}
	if sT && !sF {
		st.setKnown(c.id, true)
		return nil, true
	}
	if sF && !sT {
		st.setKnown(c.id, false)
		return nil, true
	}
	if !sT && !sF {
		return nil, false
	}
	E.Forks++
	s2 := st.fork()
	f2 := fr.copy()
	st.assume(c)
	st.model = mT
	st.setKnown(c.id, true)
	s2.assume(E.T.Not(c))
	s2.model = mF
	s2.setKnown(c.id, false)
	res = E.run(st, fr, blk, i, prev, stop)
	res = append(res, E.run(s2, f2, blk, i, prev, stop)...)
	return res, false
}

func (E *Eng) branch(st *State, fr *Frame, blk *ssa.BasicBlock, c *Term, mT, mF Model, stop *ssa.BasicBlock) []Exit {
	E.Forks++
	nc := E.T.Not(c)
	s2 := st.fork()
	f2 := fr.copy()
	st.assume(c)
	st.model = mT
	s2.assume(nc)
	s2.model = mF
	E.restrictRegs(fr, c)
	E.restrictRegs(f2, nc)
	join := fr.info.ipdom[blk.Index]
	if E.noMerge {
		join = stop
	}
	inner := join
	if inner == nil {
		inner = stop
	}
	side := func(s *State, f *Frame, tgt *ssa.BasicBlock) []Exit {
		E.phis(f, blk, tgt)
		if tgt == inner {
			return []Exit{{kind: xStop, st: s, fr: f}}
		}
		return E.run(s, f, tgt, nphis(tgt), blk, inner)
	}
	ex := side(st, fr, blk.Succs[0])
	ex = append(ex, side(s2, f2, blk.Succs[1])...)
	if join == nil || E.noMerge {
		return ex
	}
	var at, res []Exit
	for _, x := range ex {
		if x.kind == xStop {
			at = append(at, x)
		} else {
			res = append(res, x)
		}
	}
	at = E.mergeStops(at, join)
	if join == stop {
		return append(res, at...)
	}
	for _, x := range at {
		res = append(res, E.run(x.st, x.fr, join, nphis(join), nil, stop)...)
	}
	return res
}

func (E *Eng) restrictRegs(fr *Frame, c *Term) {
	if c.op != OIte {
		return
	}
	for i, v := range fr.regs {
		if t, ok := v.(*Term); ok && t.op == OIte && t.tree {
			fr.regs[i] = E.T.Restrict(t, c)
		}
	}
}

func nphis(b *ssa.BasicBlock) int {
	i := 0
	for i < len(b.Instrs) {
		if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	return i
}

func (E *Eng) phis(fr *Frame, from, to *ssa.BasicBlock) {
	k := -1
	for j, p := range to.Preds {
		if p == from {
			k = j
			break
		}
	}
	var vals []Value
	n := nphis(to)
	for i := 0; i < n; i++ {
		vals = append(vals, E.get(nil, fr, to.Instrs[i].(*ssa.Phi).Edges[k]))
	}
	for i := 0; i < n; i++ {
		fr.regs[fr.info.idx[to.Instrs[i].(*ssa.Phi)]] = vals[i]
	}
}

// get reads an operand. st may be nil for operands that need no state.
func (E *Eng) get(st *State, fr *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return E.constVal(x)
	case *ssa.Global:
		return Ptr{obj: E.global(x)}
	case *ssa.Function:
		return E.fnVal(x)
	case *ssa.Builtin:
		return &Func{bi: x}
	}
	i, ok := fr.info.idx[v]
	if !ok {
		panic(unsup{"operand " + v.String()})
	}
	r := fr.regs[i]
	return r
}

func (E *Eng) fnVal(f *ssa.Function) *Func {
	if v, ok := E.fnvals[f]; ok {
		return v
	}
	v := &Func{fn: f}
	E.fnvals[f] = v
	return v
}

func (E *Eng) constVal(c *ssa.Const) Value {
	if v, ok := E.consts[c]; ok {
		return v
	}
	var v Value
	if c.Value == nil {
		v = E.zero(c.Type())
	} else {
		switch u := c.Type().Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsBoolean != 0:
				v = E.T.Bool(constant.BoolVal(c.Value))
			case u.Info()&types.IsInteger != 0:
				if u.Info()&types.IsUnsigned != 0 {
					v = E.T.Const(c.Uint64(), width(u))
				} else {
					v = E.T.Const(uint64(c.Int64()), width(u))
				}
			case u.Info()&types.IsString != 0:
				v = Str{c: constant.StringVal(c.Value)}
			case u.Info()&types.IsFloat != 0:
				v = Float(c.Float64())
			default:
				v = Opaque{"const " + c.String()}
			}
		default:
			panic(unsup{"constant " + c.String()})
		}
	}
	E.consts[c] = v
	return v
}

// exec1 executes one non-control instruction.
func (E *Eng) exec1(st *State, fr *Frame, in ssa.Instruction) (ab *Exit, fork *forkReq, many []Exit) {
	n := len(E.stack)
	E.stack = append(E.stack, fr)
	defer func() {
		E.stack = E.stack[:n]
		if r := recover(); r != nil {
			ab, fork = E.caught(st, fr, r)
		}
	}()
	many = E.exec(st, fr, in)
	return
}

func (E *Eng) caught(st *State, fr *Frame, r interface{}) (*Exit, *forkReq) {
	switch x := r.(type) {
	case forkReq:
		return nil, &x
	case goPanic:
		return &Exit{kind: xPanic, st: st, fr: fr, pan: E.rtError(x.msg), msg: "panic: runtime error: " + x.msg + " in " + fr.info.name}, nil
	case unsup:
		return &Exit{kind: xAbort, st: st, msg: "unsupported: " + x.msg + " in " + fr.info.name}, nil
	case killPath:
		return &Exit{kind: xKill, st: st}, nil
	case runtime.Error:
		if os.Getenv("SYM_DEBUG") != "" {
			panic(r)
		}
		return &Exit{kind: xAbort, st: st, msg: "unsupported: " + x.Error() + " in " + fr.info.name}, nil
	case limitHit:
		return &Exit{kind: xAbort, st: st, msg: "limit: " + x.msg}, nil
	}
	panic(r)
}

func (E *Eng) rtError(msg string) Value {
	if E.rtErrType != nil {
		return Iface{t: E.rtErrType, v: Str{c: msg}}
	}
	return Iface{t: types.Typ[types.String], v: Str{c: msg}}
}

// doCall performs a call instruction.
func (E *Eng) doCall(st *State, fr *Frame, call *ssa.Call) (outs []Exit, ab *Exit, fork *forkReq) {
	n := len(E.stack)
	E.stack = append(E.stack, fr)
	defer func() {
		E.stack = E.stack[:n]
		if r := recover(); r != nil {
			ab, fork = E.caught(st, fr, r)
			if ab != nil && ab.kind == xAbort && E.inInit {
				// initialisers of library packages: what cannot be executed becomes an opaque value
				ab = nil
				outs = []Exit{{kind: xRet, st: st, val: E.opaqueResult(call.Type(), call.String())}}
			}
		}
	}()
	fn, args, err := E.callee(st, fr, call.Common())
	if err != "" {
		return nil, &Exit{kind: xAbort, st: st, msg: err}, nil
	}
	if fn != nil && fn.bi != nil {
		v := E.builtin(st, fn.bi, args, call.Call.Args, call.Type(), fr.caller)
		return []Exit{{kind: xRet, st: st, val: v}}, nil, nil
	}
	outs = E.callFunc(st, fn, args, nil)
	if E.inInit && len(outs) == 1 && outs[0].kind == xAbort {
		outs = []Exit{{kind: xRet, st: outs[0].st, val: E.opaqueResult(call.Type(), call.String())}}
	}
	return
}

// callee resolves the target of a call.
func (E *Eng) callee(st *State, fr *Frame, c *ssa.CallCommon) (*Func, []Value, string) {
	var args []Value
	if c.IsInvoke() {
		recv := E.get(st, fr, c.Value)
		iv, ok := recv.(Iface)
		if !ok {
			return nil, nil, fmt.Sprintf("unsupported: invoke on %T", recv)
		}
		if iv.t == nil {
			panic(goPanic{"invalid memory address or nil pointer dereference"})
		}
		m := E.prog.LookupMethod(iv.t, c.Method.Pkg(), c.Method.Name())
		if m == nil {
			return nil, nil, "unsupported: method " + c.Method.FullName() + " of " + iv.t.String()
		}
		args = append(args, iv.v)
		for _, a := range c.Args {
			args = append(args, E.get(st, fr, a))
		}
		return E.fnVal(m), args, ""
	}
	fv := E.get(st, fr, c.Value)
	f, ok := fv.(*Func)
	if !ok {
		return nil, nil, fmt.Sprintf("unsupported: call of %T", fv)
	}
	if f == nil {
		panic(goPanic{"invalid memory address or nil pointer dereference"})
	}
	for _, a := range c.Args {
		args = append(args, E.get(st, fr, a))
	}
	return f, args, ""
}

func (E *Eng) callFunc(st *State, f *Func, args []Value, ps *panicState) []Exit {
	if f.native != nil {
		return []Exit{{kind: xRet, st: st, val: f.native(E, st, args)}}
	}
	if f.bi != nil {
		return []Exit{{kind: xRet, st: st, val: E.builtin(st, f.bi, args, nil, nil, ps)}}
	}
	name := f.fn.String()
	if f.fn.Origin() != nil {
		name = f.fn.Origin().String()
	}
	if h, ok := E.intrinsics[name]; ok {
		if st.phase == 1 && st.parG != nil && syncOp(name) {
			sts, outs := E.preempt(st)
			outs = append(outs, h(E, st, f, args, ps)...)
			for _, s := range sts {
				outs = append(outs, E.guarded(s, func() []Exit { return h(E, s, f, args, ps) })...)
			}
			return outs
		}
		return h(E, st, f, args, ps)
	}
	if m, ok := E.models[name]; ok {
		return E.call(st, m, args, nil, ps)
	}
	if f.fn.Name() == "init" && f.fn.Synthetic != "" && f.fn.Pkg != nil && f.fn.Signature.Recv() == nil {
		E.initPkg(f.fn.Pkg)
		return []Exit{{kind: xRet, st: st}}
	}
	return E.call(st, f.fn, args, f.bind, ps)
}

func (E *Eng) exec(st *State, fr *Frame, in ssa.Instruction) []Exit {
	T := E.T
	set := func(v ssa.Value, x Value) { fr.regs[fr.info.idx[v]] = x }
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		set(x, Ptr{obj: E.alloc(st, E.zeroCells(t, nil), x.Comment)})
	case *ssa.Store:
		E.store(st, E.get(st, fr, x.Addr).(Ptr), E.get(st, fr, x.Val))
	case *ssa.UnOp:
		v := E.get(st, fr, x.X)
		switch x.Op {
		case token.MUL:
			set(x, E.load(st, v.(Ptr), x.Type()))
		case token.NOT:
			set(x, T.Not(v.(*Term)))
		case token.SUB:
			switch y := v.(type) {
			case *Term:
				set(x, T.Neg(y))
			case Float:
				set(x, -y)
			default:
				panic(unsup{"negation"})
			}
		case token.XOR:
			y := v.(*Term)
			set(x, T.Bin(OBXor, y, T.Const(mask(y.w), y.w)))
		default:
			panic(unsup{"unary " + x.Op.String()})
		}
	case *ssa.BinOp:
		set(x, E.binop(st, x.Op, E.get(st, fr, x.X), E.get(st, fr, x.Y), x.X.Type(), x.Y.Type()))
	case *ssa.ChangeType, *ssa.ChangeInterface:
		var op ssa.Value
		if y, ok := x.(*ssa.ChangeType); ok {
			op = y.X
		} else {
			op = x.(*ssa.ChangeInterface).X
		}
		set(in.(ssa.Value), E.get(st, fr, op))
	case *ssa.Convert:
		v, many := E.convert(st, E.get(st, fr, x.X), x.X.Type(), x.Type())
		if many != nil {
			return many
		}
		set(x, v)
	case *ssa.MultiConvert:
		v, many := E.convert(st, E.get(st, fr, x.X), x.X.Type(), x.Type())
		if many != nil {
			return many
		}
		set(x, v)
	case *ssa.MakeInterface:
		set(x, Iface{t: x.X.Type(), v: E.get(st, fr, x.X)})
	case *ssa.MakeClosure:
		var b []Value
		for _, y := range x.Bindings {
			b = append(b, E.get(st, fr, y))
		}
		set(x, &Func{fn: x.Fn.(*ssa.Function), bind: b})
	case *ssa.MakeSlice:
		n := E.concInt(st, E.get(st, fr, x.Len))
		c := E.concInt(st, E.get(st, fr, x.Cap))
		if n < 0 || n > 1<<24 {
			if n < 0 {
				panic(goPanic{"makeslice: len out of range"})
			}
			panic(unsup{fmt.Sprint("makeslice of ", n)})
		}
		if c < n {
			panic(goPanic{"makeslice: cap out of range"})
		}
		if c > 1<<24 {
			panic(unsup{fmt.Sprint("makeslice cap ", c)})
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		set(x, Slice{obj: E.alloc(st, E.repZero(el, c), "make"), len: n, cap: c})
	case *ssa.MakeMap:
		E.nextObj++
		st.heap[E.nextObj] = &Obj{m: &MapData{idx: map[string]int{}}, owner: st.own, tag: "map"}
		set(x, MapRef{E.nextObj})
	case *ssa.MakeChan:
		set(x, Opaque{"chan"})
	case *ssa.FieldAddr:
		p := E.get(st, fr, x.X).(Ptr)
		if p.obj == 0 {
			panic(goPanic{"invalid memory address or nil pointer dereference"})
		}
		p.off += E.fieldOff(x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field)
		set(x, p)
	case *ssa.Field:
		a := E.get(st, fr, x.X).(*Agg)
		o := E.fieldOff(x.X.Type(), x.Field)
		set(x, fromCells(a.cells[o:o+E.ncells(x.Type())], x.Type()))
	case *ssa.IndexAddr:
		set(x, E.indexAddr(st, fr, x))
	case *ssa.Index:
		v := E.get(st, fr, x.X)
		idx := E.index64(E.get(st, fr, x.Index).(*Term), x.Index.Type())
		switch y := v.(type) {
		case Str:
			set(x, E.strIndex(st, y, idx))
		case *Agg:
			n := int(x.X.Type().Underlying().(*types.Array).Len())
			E.boundsCheck(st, idx, n)
			sz := E.ncells(x.Type())
			if idx.op == OConst {
				set(x, fromCells(y.cells[int(idx.k)*sz:int(idx.k)*sz+sz], x.Type()))
			} else {
				o := E.alloc(st, y.cells, "tmp")
				set(x, E.load(st, Ptr{obj: o, idx: idx, stride: sz, n: n}, x.Type()))
			}
		default:
			panic(unsup{fmt.Sprintf("index of %T", v)})
		}
	case *ssa.Lookup:
		v := E.get(st, fr, x.X)
		if s, ok := v.(Str); ok {
			set(x, E.strIndex(st, s, E.index64(E.get(st, fr, x.Index).(*Term), x.Index.Type())))
			break
		}
		var et types.Type
		if x.CommaOk {
			et = x.Type().(*types.Tuple).At(0).Type()
		} else {
			et = x.Type()
		}
		val, ok := E.mapLookup(st, v.(MapRef), E.get(st, fr, x.Index), et)
		if x.CommaOk {
			set(x, Tuple{val, ok})
		} else {
			set(x, val)
		}
	case *ssa.MapUpdate:
		E.mapUpdate(st, E.get(st, fr, x.Map).(MapRef), E.get(st, fr, x.Key), E.get(st, fr, x.Value))
	case *ssa.Extract:
		set(x, E.get(st, fr, x.Tuple).(Tuple)[x.Index])
	case *ssa.Slice:
		set(x, E.slice(st, fr, x))
	case *ssa.SliceToArrayPointer:
		s := E.get(st, fr, x.X).(Slice)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.len < n {
			panic(goPanic{"cannot convert slice to array pointer: length too short"})
		}
		if s.obj == 0 {
			set(x, Ptr{})
		} else {
			set(x, Ptr{obj: s.obj, off: s.off})
		}
	case *ssa.TypeAssert:
		set(x, E.typeAssert(E.get(st, fr, x.X), x))
	case *ssa.Range:
		v := E.get(st, fr, x.X)
		cells := []Value{v, Float(0)}
		if m, ok := v.(MapRef); ok && m.obj != 0 {
			md := E.obj(st, m.obj).m
			var ks Tuple
			for i, k := range md.keys {
				if md.vals[i] != nil {
					ks = append(ks, k)
				}
			}
			cells = append(cells, ks)
		}
		set(x, Iter{E.alloc(st, cells, "range")})
	case *ssa.Next:
		return E.next(st, fr, x)
	default:
		panic(unsup{fmt.Sprintf("instruction %T", in)})
	}
	return nil
}

func (E *Eng) repZero(el types.Type, n int) []Value {
	one := E.zeroCells(el, nil)
	out := make([]Value, 0, n*len(one))
	for i := 0; i < n; i++ {
		out = append(out, one...)
	}
	return out
}

func (E *Eng) index64(t *Term, ty types.Type) *Term {
	if t.w == 64 {
		return t
	}
	if isSigned(ty) {
		return E.T.Sext(t, 64)
	}
	return E.T.Zext(t, 64)
}

// boundsCheck panics (in the program) if idx >= n on this path.
func (E *Eng) boundsCheck(st *State, idx *Term, n int) {
	c := E.T.Ult(idx, E.T.Const(uint64(n), 64))
	if c.op == OConst && c.k == 1 {
		return
	}
	if !E.must(st, c) {
		s := "?"
		if idx.op == OConst {
			s = fmt.Sprint(int64(idx.k))
		}
		panic(goPanic{fmt.Sprintf("index out of range [%s] with length %d", s, n)})
	}
}

func (E *Eng) indexAddr(st *State, fr *Frame, x *ssa.IndexAddr) Value {
	v := E.get(st, fr, x.X)
	idx := E.index64(E.get(st, fr, x.Index).(*Term), x.Index.Type())
	el := x.Type().Underlying().(*types.Pointer).Elem()
	sz := E.ncells(el)
	switch y := v.(type) {
	case Slice:
		E.boundsCheck(st, idx, y.len)
		if idx.op == OConst {
			return Ptr{obj: y.obj, off: y.off + int(idx.k)*sz}
		}
		return Ptr{obj: y.obj, off: y.off, idx: idx, stride: sz, n: y.len}
	case Ptr:
		n := int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if y.obj == 0 {
			panic(goPanic{"invalid memory address or nil pointer dereference"})
		}
		E.boundsCheck(st, idx, n)
		if y.idx != nil {
			return E.elemPtr(st, y, idx, sz, n)
		}
		if idx.op == OConst {
			return Ptr{obj: y.obj, off: y.off + int(idx.k)*sz}
		}
		return Ptr{obj: y.obj, off: y.off, idx: idx, stride: sz, n: n}
	}
	panic(unsup{fmt.Sprintf("IndexAddr of %T", v)})
}

func (E *Eng) strIndex(st *State, s Str, idx *Term) Value {
	E.boundsCheck(st, idx, s.Len())
	b := E.strBytes(s)
	if idx.op == OConst {
		return b[idx.k]
	}
	cells := make([]Value, len(b))
	for i, t := range b {
		cells[i] = t
	}
	v, ok := E.muxRead(st, &Obj{cells: cells}, Ptr{idx: idx, stride: 1, n: len(b)}, 0)
	if !ok {
		return b[E.concretize(st, idx)]
	}
	return v
}

func (E *Eng) slice(st *State, fr *Frame, x *ssa.Slice) Value {
	v := E.get(st, fr, x.X)
	opt := func(y ssa.Value, def int) int {
		if y == nil {
			return def
		}
		t := E.index64(E.get(st, fr, y).(*Term), y.Type())
		return int(int64(E.concretize(st, t)))
	}
	bad := func(lo, hi, max, lim int) bool { return lo < 0 || hi < lo || max < hi || max > lim }
	switch y := v.(type) {
	case Str:
		n := y.Len()
		lo, hi := opt(x.Low, 0), opt(x.High, n)
		if bad(lo, hi, n, n) {
			panic(goPanic{fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n)})
		}
		if y.b == nil {
			return Str{c: y.c[lo:hi]}
		}
		if lo == hi {
			return Str{}
		}
		return E.mkStr(y.b[lo:hi])
	case Slice:
		lo, hi := opt(x.Low, 0), opt(x.High, y.len)
		max := opt(x.Max, y.cap)
		if bad(lo, hi, max, y.cap) {
			panic(goPanic{fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, max, y.cap)})
		}
		if y.obj == 0 {
			return y
		}
		sz := E.ncells(x.X.Type().Underlying().(*types.Slice).Elem())
		return Slice{obj: y.obj, off: y.off + lo*sz, len: hi - lo, cap: max - lo}
	case Ptr:
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := int(at.Len())
		if y.obj == 0 {
			panic(goPanic{"invalid memory address or nil pointer dereference"})
		}
		if y.idx != nil {
			k := int(E.concretize(st, y.idx))
			y = Ptr{obj: y.obj, off: y.off + k*y.stride}
		}
		lo, hi := opt(x.Low, 0), opt(x.High, n)
		max := opt(x.Max, n)
		if bad(lo, hi, max, n) {
			panic(goPanic{fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, max, n)})
		}
		sz := E.ncells(at.Elem())
		return Slice{obj: y.obj, off: y.off + lo*sz, len: hi - lo, cap: max - lo}
	}
	panic(unsup{fmt.Sprintf("slice of %T", v)})
}

func (E *Eng) typeAssert(v Value, x *ssa.TypeAssert) Value {
	iv, ok := v.(Iface)
	if !ok {
		panic(unsup{fmt.Sprintf("type assertion on %T", v)})
	}
	good := false
	var res Value
	if iv.t != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			good = types.Implements(iv.t, it)
			res = iv
		} else {
			good = types.Identical(iv.t, x.AssertedType)
			res = iv.v
		}
	}
	if x.CommaOk {
		if !good {
			return Tuple{E.zero(x.AssertedType), E.T.False}
		}
		return Tuple{res, E.T.True}
	}
	if !good {
		panic(goPanic{"interface conversion: not " + x.AssertedType.String()})
	}
	return res
}

func (E *Eng) next(st *State, fr *Frame, x *ssa.Next) []Exit {
	it := E.get(st, fr, x.Iter).(Iter)
	o := E.obj(st, it.obj)
	pos := int(o.cells[1].(Float))
	reg := fr.info.idx[x]
	T := E.T
	tup := x.Type().(*types.Tuple)
	zk := func(i int) Value {
		t := tup.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return E.zero(t)
	}
	if x.IsString {
		s := o.cells[0].(Str)
		if pos >= s.Len() {
			fr.regs[reg] = Tuple{T.False, T.Const(0, 64), T.Const(0, 32)}
			return nil
		}
		b := E.strBytes(s)
		var outs []Exit
		// ASCII fast path on concrete bytes
		if b[pos].op == OConst && b[pos].k < 0x80 {
			w := E.wobj(st, it.obj)
			w.cells[1] = Float(pos + 1)
			fr.regs[reg] = Tuple{T.True, T.Const(uint64(pos), 64), T.Zext(b[pos], 32)}
			return nil
		}
		rest := E.mkStr(b[pos:])
		for _, y := range E.call(st, E.decodeRune, []Value{rest}, nil, nil) {
			if y.kind != xRet {
				outs = append(outs, y)
				continue
			}
			r := y.val.(Tuple)
			outs = append(outs, E.splitSize(y.st, r[1].(*Term), 4, func(s2 *State, n int) Value {
				w := E.wobj(s2, it.obj)
				w.cells[1] = Float(pos + n)
				return Tuple{T.True, T.Const(uint64(pos), 64), r[0]}
			})...)
		}
		return outs
	}
	m := o.cells[0].(MapRef)
	if m.obj != 0 {
		ks := o.cells[2].(Tuple)
		for pos < len(ks) {
			k := ks[pos]
			pos++
			md := E.obj(st, m.obj).m
			i := md.find(k)
			if i < 0 || md.vals[i] == nil {
				continue
			}
			w := E.wobj(st, it.obj)
			w.cells[1] = Float(pos)
			fr.regs[reg] = Tuple{T.True, k, md.vals[i]}
			return nil
		}
	}
	fr.regs[reg] = Tuple{T.False, zk(1), zk(2)}
	return nil
}

func (m *MapData) find(k Value) int {
	ck := constKey(k)
	if ck != "" {
		if i, ok := m.idx[ck]; ok {
			return i
		}
		return -1
	}
	for i, x := range m.keys {
		if identical(x, k) {
			return i
		}
	}
	return -1
}

// splitSize forks st over the feasible values 0..max of t.
func (E *Eng) splitSize(st *State, t *Term, max int, f func(*State, int) Value) []Exit {
	var outs []Exit
	if t.op == OConst {
		return []Exit{{kind: xRet, st: st, val: f(st, int(t.k))}}
	}
	for n := 0; n <= max; n++ {
		c := E.T.Eq(t, E.T.Const(uint64(n), t.w))
		ok, m := E.feasible(st, c)
		if !ok {
			continue
		}
		s2 := st.fork()
		s2.assume(c)
		s2.model = m
		E.Forks++
		outs = append(outs, Exit{kind: xRet, st: s2, val: f(s2, n)})
	}
	return outs
}

// ---- maps ----

func isTerm(v Value) bool { _, ok := v.(*Term); return ok }

// mapFind locates key k: returns the entry index or -1, forking when equality is undecided.
func (E *Eng) mapFind(st *State, md *MapData, k Value) int {
	if ck := constKey(k); ck != "" {
		if i, ok := md.idx[ck]; ok {
			return i
		}
		if md.sym == 0 {
			return -1
		}
		for i, x := range md.keys {
			if md.vals[i] == nil || constKey(x) != "" {
				continue
			}
			if E.must(st, E.valEq(x, k)) {
				return i
			}
		}
		return -1
	}
	for i, x := range md.keys {
		if md.vals[i] == nil {
			continue
		}
		c := E.valEq(x, k)
		if c == E.T.False {
			continue
		}
		if E.must(st, c) {
			return i
		}
	}
	return -1
}

func (E *Eng) mapLookup(st *State, m MapRef, k Value, et types.Type) (Value, *Term) {
	T := E.T
	if m.obj == 0 {
		return E.zero(et), T.False
	}
	md := E.obj(st, m.obj).m
	kt, isT := k.(*Term)
	if isT && kt.op != OConst && md.sym == 0 && !isAggType(et) && len(md.keys) > 0 {
		if v, ok, done := E.treeLookup(st, md, kt, et); done {
			return v, ok
		}
	}
	if !isT && md.sym == 0 && !isAggType(et) && len(md.keys) > 8 && constKey(k) == "" {
		if kt, view := E.keyView(md, k); view != nil {
			if len(view.keys) == 0 {
				return E.zero(et), T.False
			}
			if v, ok, done := E.treeLookup(st, view, kt, et); done {
				return v, ok
			}
		}
	}
	i := E.mapFind(st, md, k)
	if i < 0 || md.vals[i] == nil {
		return E.zero(et), T.False
	}
	return md.vals[i], T.True
}

type treeKey struct {
	id     int32
	lo, hi uint64
}

// treeLookup reads a map with constant integer keys at a symbolic key as decision-tree terms.
func (E *Eng) treeLookup(st *State, md *MapData, k *Term, et types.Type) (Value, *Term, bool) {
	T := E.T
	zero := E.zero(et)
	zt, scalar := zero.(*Term)
	if md.trees == nil {
		md.trees = map[treeKey][2]*Term{}
	}
	rg := E.termRng(st, k, map[*Term]rng{})
	if rg.empty {
		rg = fullRng(k.w)
	}
	tk := treeKey{k.id, rg.lo, rg.hi}
	if r, ok := md.trees[tk]; ok {
		if !scalar {
			return E.refLookup(st, md, k, zero, r[1], et)
		}
		return r[0], r[1], true
	}
	if md.sorted == nil {
		for i := range md.keys {
			if md.vals[i] != nil {
				md.sorted = append(md.sorted, i)
			}
		}
		sort.Slice(md.sorted, func(a, b int) bool {
			return md.keys[md.sorted[a]].(*Term).k < md.keys[md.sorted[b]].(*Term).k
		})
	}
	so := md.sorted
	read := func(out *Term, leaf func(v Value) *Term) *Term {
		var ps plist
		next, full := rg.lo, false
		for _, i := range so {
			x := md.keys[i].(*Term).k
			if x < rg.lo {
				continue
			}
			if x > rg.hi {
				break
			}
			if x > next {
				ps.emit(x-1, out)
			}
			ps.emit(x, leaf(md.vals[i]))
			full = x == rg.hi
			next = x + 1
		}
		if !full {
			ps.emit(rg.hi, out)
		}
		ps.out[len(ps.out)-1].hi = mask(k.w)
		return T.read(k, ps.out)
	}
	var val *Term
	ok := read(T.False, func(Value) *Term { return T.True })
	if ok == nil {
		return nil, nil, false
	}
	if scalar {
		if val = read(zt, func(v Value) *Term { return v.(*Term) }); val == nil {
			return nil, nil, false
		}
	}
	md.trees[tk] = [2]*Term{val, ok}
	if !scalar {
		return E.refLookup(st, md, k, zero, ok, et)
	}
	return val, ok, true
}

// refLookup reads a map of non-scalar values: fork on membership, then on the key.
func (E *Eng) refLookup(st *State, md *MapData, k *Term, zero Value, ok *Term, et types.Type) (Value, *Term, bool) {
	if !E.must(st, ok) {
		return zero, E.T.False, true
	}
	if len(md.sorted) > 32 {
		key := func(i int) uint64 { return md.keys[md.sorted[i]].(*Term).k }
		var ps plist
		for i := range md.sorted {
			ps.emit(key(i), E.T.Const(uint64(i), 64)) // other keys are excluded
		}
		ps.out[len(ps.out)-1].hi = mask(k.w)
		if pos := E.T.read(k, ps.out); pos != nil {
			return E.muxVals(st, pos, len(md.sorted), func(i int) Value { return md.vals[md.sorted[i]] }, et), E.T.True, true
		}
	}
	v := E.concretize(st, k)
	i := md.find(E.T.Const(v, k.w))
	if i < 0 {
		panic(unsup{"map lookup: key vanished"})
	}
	return md.vals[i], E.T.True, true
}

func (E *Eng) mapUpdate(st *State, m MapRef, k, v Value) {
	if m.obj == 0 {
		panic(goPanic{"assignment to entry in nil map"})
	}
	i := E.mapFind(st, E.obj(st, m.obj).m, k)
	md := E.wobj(st, m.obj).m
	md.trees, md.sorted, md.views = nil, nil, nil
	if i >= 0 {
		if md.vals[i] == nil {
			md.count++
		}
		md.vals[i] = v
		return
	}
	md.keys = append(md.keys, k)
	md.vals = append(md.vals, v)
	md.count++
	if ck := constKey(k); ck != "" {
		md.idx[ck] = len(md.keys) - 1
	} else {
		md.sym++
	}
}

func (E *Eng) mapDelete(st *State, m MapRef, k Value) {
	if m.obj == 0 {
		return
	}
	i := E.mapFind(st, E.obj(st, m.obj).m, k)
	if i < 0 {
		return
	}
	md := E.wobj(st, m.obj).m
	md.trees, md.sorted, md.views = nil, nil, nil
	if md.vals[i] != nil {
		md.count--
		md.vals[i] = nil
	}
}

func (E *Eng) show(v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return E.show(x.v)
	case Str:
		if x.b == nil {
			return x.c
		}
		return "<symbolic string>"
	case *Term:
		if x.op == OConst {
			return fmt.Sprint(x.k)
		}
		return "<symbolic>"
	}
	return strings.TrimPrefix(fmt.Sprintf("%T", v), "main.")
}
