package main

import (
	"math/bits"
	"sort"
)

// Canonical form of trees: interval decision diagrams.
//
// A boolean, or a bit-vector Ite whose leaves are constants, is a function of some base
// terms (variables, extracts, quotients, ...). Comparisons of one base with constants cut
// the unsigned range of the base into pieces; the tree is, for its smallest base, a list of
// pieces, each with a tree over larger bases. Lists are laid out as balanced search trees
// of "base <= K" atoms, so that equal functions of one base are equal terms and repeated
// comparisons of the same base (a binary search) never multiply.

type piece struct {
	hi uint64 // last value of the piece
	t  *Term
}

// atomBase returns the term an atom's comparison is about (the atom itself if it is none).
func atomBase(c *Term) *Term {
	switch c.op {
	case OUle, OSle, OEq:
		if c.b.op == OConst && c.a.op != OConst && c.a.w > 0 {
			return c.a
		}
	}
	return c
}

// baseOf returns the base a boolean or Ite tests first (nil for leaves).
func baseOf(t *Term) *Term {
	switch t.op {
	case OConst:
		return nil
	case OIte:
		if t.a.op == ONot {
			return atomBase(t.a.a)
		}
		return atomBase(t.a)
	case ONot:
		return baseOf(t.a)
	}
	if t.w == 0 {
		return atomBase(t)
	}
	return nil
}

// treeBase is baseOf for terms that may be taken apart (constant-leaf trees and booleans).
func treeBase(t *Term) *Term {
	if !t.tree {
		return nil
	}
	return baseOf(t)
}

func maxOf(b *Term) uint64 {
	if b.w == 0 {
		return 1
	}
	return mask(b.w)
}

type plist struct {
	out []piece
}

func (p *plist) emit(hi uint64, t *Term) {
	if n := len(p.out); n > 0 && p.out[n-1].t == t {
		p.out[n-1].hi = hi
		return
	}
	p.out = append(p.out, piece{hi, t})
}

// atomPieces lists the values of atom c over the range of its base.
func (T *Terms) atomPieces(c *Term) (ps [3]piece, n int) {
	b := atomBase(c)
	add := func(hi uint64, v *Term) { ps[n] = piece{hi, v}; n++ }
	if b == c {
		add(0, T.False)
		add(1, T.True)
		return
	}
	mx, k := mask(b.w), c.b.k
	half := mx>>1 + 1
	switch c.op {
	case OUle:
		add(k, T.True)
		if k < mx {
			add(mx, T.False)
		}
	case OEq:
		if k > 0 {
			add(k-1, T.False)
		}
		add(k, T.True)
		if k < mx {
			add(mx, T.False)
		}
	case OSle:
		if k < half {
			add(k, T.True)
			if k < half-1 {
				add(half-1, T.False)
			}
			if n == 1 {
				ps[0].hi = mx
			} else {
				add(mx, T.True)
			}
		} else {
			add(half-1, T.False)
			add(k, T.True)
			if k < mx {
				add(mx, T.False)
			}
		}
	}
	return
}

func (T *Terms) flat(t, b *Term, lo, hi uint64, p *plist) {
	if baseOf(t) != b {
		p.emit(hi, t)
		return
	}
	switch t.op {
	case ONot:
		var q plist
		T.flat(t.a, b, lo, hi, &q)
		for _, x := range q.out {
			p.emit(x.hi, T.Not(x.t))
		}
		return
	case OIte:
		c, x, y := t.a, t.b, t.c
		if c.op == ONot {
			c, x, y = c.a, y, x
		}
		ps, n := T.atomPieces(c)
		from := uint64(0)
		for i := 0; i < n; i++ {
			l, h := from, ps[i].hi
			from = h + 1
			if h < lo {
				continue
			}
			if l > hi {
				break
			}
			if l < lo {
				l = lo
			}
			if h > hi {
				h = hi
			}
			if ps[i].t == T.True {
				T.flat(x, b, l, h, p)
			} else {
				T.flat(y, b, l, h, p)
			}
		}
		return
	}
	ps, n := T.atomPieces(t)
	for i := 0; i < n; i++ {
		if ps[i].hi < lo {
			continue
		}
		h := ps[i].hi
		if h >= hi {
			p.emit(hi, ps[i].t)
			return
		}
		p.emit(h, ps[i].t)
	}
}

// pieces lists t over the whole range of base b.
func (T *Terms) pieces(t, b *Term) []piece {
	if !t.tree || baseOf(t) != b {
		return []piece{{maxOf(b), t}}
	}
	if r, ok := T.pcs[t]; ok {
		return r
	}
	var p plist
	T.flat(t, b, 0, maxOf(b), &p)
	if len(p.out) > 4 {
		if len(T.pcs) > 20000 {
			T.pcs = map[*Term][]piece{}
		}
		T.pcs[t] = p.out
	}
	if T.budget > 0 {
		T.budget -= len(p.out) / 4
	}
	return p.out
}

// uleAtom, eqAtom and sleAtom build comparison atoms of a base, which needs no further rewriting.
func (T *Terms) uleAtom(b *Term, k uint64) *Term {
	if k == 0 {
		return T.raw(OEq, 0, b, T.Const(0, b.w), nil, 0)
	}
	if k == mask(b.w)-1 {
		return T.raw(ONot, 0, T.raw(OEq, 0, b, T.Const(mask(b.w), b.w), nil, 0), nil, nil, 0)
	}
	return T.raw(OUle, 0, b, T.Const(k, b.w), nil, 0)
}

// build makes the canonical tree of a piece list over base b.
func (T *Terms) build(b *Term, ps []piece) *Term {
	var q plist
	lo := uint64(0)
	for _, x := range ps {
		if x.t.tree && baseOf(x.t) == b {
			T.flat(x.t, b, lo, x.hi, &q)
		} else {
			q.emit(x.hi, x.t)
		}
		lo = x.hi + 1
	}
	ps = q.out
	if len(ps) == 1 {
		return ps[0].t
	}
	for _, x := range ps {
		if !x.t.tree {
			continue
		}
		if c := baseOf(x.t); c != nil && c.id < b.id {
			return T.compose(b, ps)
		}
	}
	if b.w == 0 {
		return T.node(b, ps[1].t, ps[0].t)
	}
	if len(ps) == 3 && ps[0].t == ps[2].t {
		if ps[1].hi == ps[0].hi+1 {
			return T.node(T.raw(OEq, 0, b, T.Const(ps[1].hi, b.w), nil, 0), ps[1].t, ps[0].t)
		}
		half := mask(b.w)>>1 + 1
		if ps[1].hi == half-1 { // T F T
			return T.node(T.raw(OSle, 0, b, T.Const(ps[0].hi, b.w), nil, 0), ps[0].t, ps[1].t)
		}
		if ps[0].hi == half-1 { // F T F
			return T.node(T.raw(OSle, 0, b, T.Const(ps[1].hi, b.w), nil, 0), ps[1].t, ps[0].t)
		}
	}
	return T.bst(b, ps)
}

// compose is build for pieces that test smaller bases first.
func (T *Terms) compose(b *Term, ps []piece) *Term {
	if len(ps) == 1 {
		return ps[0].t
	}
	m := len(ps) / 2
	var at *Term
	if b.w == 0 {
		at = T.Not(b)
	} else {
		at = T.uleAtom(b, ps[m-1].hi)
	}
	return T.ite3(at, T.compose(b, ps[:m]), T.compose(b, ps[m:]))
}

func (T *Terms) bst(b *Term, ps []piece) *Term {
	if len(ps) == 1 {
		return ps[0].t
	}
	m := len(ps) / 2
	return T.node(T.uleAtom(b, ps[m-1].hi), T.bst(b, ps[:m]), T.bst(b, ps[m:]))
}

// minBase picks the smallest of the bases.
func minBase(bs ...*Term) *Term {
	var m *Term
	for _, b := range bs {
		if b != nil && (m == nil || b.id < m.id) {
			m = b
		}
	}
	return m
}

// over merges piece lists and maps each common piece through f.
func over(f func(ts []*Term) *Term, lists ...[]piece) []piece {
	idx := make([]int, len(lists))
	ts := make([]*Term, len(lists))
	var out plist
	for {
		var hi uint64
		for i, l := range lists {
			x := l[idx[i]]
			ts[i] = x.t
			if i == 0 || x.hi < hi {
				hi = x.hi
			}
		}
		out.emit(hi, f(ts))
		done := false
		for i, l := range lists {
			if l[idx[i]].hi == hi {
				idx[i]++
				if idx[i] == len(l) {
					done = true
				}
			}
		}
		if done {
			return out.out
		}
	}
}

func (T *Terms) ite3(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	key := applyKey{OIte, a.w, 0, c.id, a.id, b.id}
	if r, ok := T.memo[key]; ok {
		return r
	}
	T.spend()
	v := minBase(baseOf(c), treeBase(a), treeBase(b))
	r := T.build(v, over(func(ts []*Term) *Term { return T.ite3(ts[0], ts[1], ts[2]) },
		T.pieces(c, v), T.pieces(a, v), T.pieces(b, v)))
	T.memo[key] = r
	return r
}

// shallowPieces is pieces for an Ite with leaves that are no constants.
func (T *Terms) shallowPieces(t, b *Term) []piece {
	if t.tree || t.op != OIte {
		return T.pieces(t, b)
	}
	if baseOf(t) != b {
		return []piece{{maxOf(b), t}}
	}
	var p plist
	T.flat(t, b, 0, maxOf(b), &p)
	return p.out
}

func iteBase(t *Term) *Term {
	if t.op != OIte {
		return nil
	}
	return baseOf(t)
}

func (T *Terms) apply2(op Op, w uint8, a, b *Term) *Term {
	if a.op != OIte && b.op != OIte {
		return T.bin(op, w, a, b, false)
	}
	key := applyKey{op, w, 0, a.id, b.id, -2}
	if r, ok := T.memo[key]; ok {
		return r
	}
	T.spend()
	v := minBase(iteBase(a), iteBase(b))
	r := T.buildMix(v, over(func(ts []*Term) *Term { return T.apply2(op, w, ts[0], ts[1]) },
		T.shallowPieces(a, v), T.shallowPieces(b, v)))
	T.memo[key] = r
	return r
}

// buildMix is build for results that may contain atoms older than the base.
func (T *Terms) buildMix(b *Term, ps []piece) *Term { return T.build(b, ps) }

func (T *Terms) apply1(key Op, w uint8, k uint64, a *Term, f func(*Term) *Term) *Term {
	if a.op != OIte {
		return f(a)
	}
	mk := applyKey{key, w, k, a.id, -3, -3}
	if r, ok := T.memo[mk]; ok {
		return r
	}
	T.spend()
	v := baseOf(a)
	r := T.build(v, over(func(ts []*Term) *Term { return T.apply1(key, w, k, ts[0], f) }, T.shallowPieces(a, v)))
	T.memo[mk] = r
	return r
}

func (T *Terms) applyConcat(a, b *Term) *Term {
	if a.op != OIte && b.op != OIte {
		return T.Concat(a, b)
	}
	key := applyKey{OConcat, a.w, uint64(b.w), a.id, b.id, -4}
	if r, ok := T.memo[key]; ok {
		return r
	}
	T.spend()
	v := minBase(iteBase(a), iteBase(b))
	r := T.build(v, over(func(ts []*Term) *Term { return T.applyConcat(ts[0], ts[1]) },
		T.shallowPieces(a, v), T.shallowPieces(b, v)))
	T.memo[key] = r
	return r
}

// MapLeaves maps each constant leaf of a tree through f (no global memo); nil = impossible.
func (T *Terms) MapLeaves(t *Term, f func(uint64) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.op == OConst {
			return f(t.k)
		}
		if r, ok := memo[t]; ok {
			return r
		}
		v := baseOf(t)
		r := T.buildOpt(v, over(func(ts []*Term) *Term { return rec(ts[0]) }, T.pieces(t, v)))
		memo[t] = r
		return r
	}
	return rec(t)
}

// buildOpt is build where nil pieces may take any value.
func (T *Terms) buildOpt(b *Term, ps []piece) *Term {
	var out []piece
	for _, x := range ps {
		n := len(out)
		switch {
		case n > 0 && (x.t == nil || out[n-1].t == nil || out[n-1].t == x.t):
			if out[n-1].t == nil {
				out[n-1].t = x.t
			}
			out[n-1].hi = x.hi
		default:
			out = append(out, x)
		}
	}
	if out[0].t == nil {
		return nil
	}
	return T.build(b, out)
}

// Restrict simplifies f assuming care (generalised cofactor). nil = don't care.
func (T *Terms) Restrict(f, care *Term) *Term {
	if !f.tree || !related(f.sup, care.sup) || care.size > treeLimit || f.size > treeLimit {
		return f
	}
	if r, ok := T.restr[[2]int32{f.id, care.id}]; ok {
		return r
	}
	memo := map[[2]int32]*Term{}
	n := 0
	var rec func(f, c *Term) *Term
	rec = func(f, c *Term) *Term {
		if c.op == OConst {
			if c.k == 0 {
				return nil
			}
			return f
		}
		if f.op == OConst {
			return f
		}
		k := [2]int32{f.id, c.id}
		if r, ok := memo[k]; ok {
			return r
		}
		n++
		if n > 100000 {
			panic(budgetExceeded{})
		}
		v := minBase(baseOf(c), treeBase(f))
		if v != baseOf(f) {
			// f does not test v: drop v from the care set rather than bring it into f
			any := T.False
			for _, x := range T.pieces(c, v) {
				any = T.ite3(x.t, T.True, any)
			}
			r := rec(f, any)
			memo[k] = r
			return r
		}
		r := T.buildOpt(v, over(func(ts []*Term) *Term { return rec(ts[0], ts[1]) }, T.pieces(f, v), T.pieces(c, v)))
		memo[k] = r
		return r
	}
	res := func() (res *Term) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(budgetExceeded); !ok {
					panic(r)
				}
				res = f
			}
		}()
		return T.withBudget(func() *Term { return rec(f, care) })
	}()
	if res == nil {
		res = f
	}
	if len(T.restr) > 300000 {
		T.restr = map[[2]int32]*Term{}
	}
	T.restr[[2]int32{f.id, care.id}] = res
	return res
}

// inRange is lo <= x <= hi, modulo 2^w (lo > hi wraps around).
func (T *Terms) inRange(x *Term, lo, hi uint64) *Term {
	w := x.w
	lo, hi = lo&mask(w), hi&mask(w)
	a := T.Ule(T.Const(lo, w), x)
	b := T.Ule(x, T.Const(hi, w))
	if lo <= hi {
		return T.And(a, b)
	}
	return T.Or(a, b)
}

// read is the function of k given by a piece list over k's unsigned range (nil pieces may
// take any value), as a tree over the base of k; nil if it is too large.
func (T *Terms) read(k *Term, ps []piece) *Term {
	T.reads = map[readKey]*Term{}
	return T.withBudget(func() *Term { return T.rebase(k, ps, 0) })
}

type readKey struct {
	k   *Term
	ps  *piece
	n   int
	off uint64
}

// subList is the part of a piece list from off to off+mx, moved to 0.
func subList(ps []piece, off, mx uint64) []piece {
	if off == 0 && ps[len(ps)-1].hi == mx {
		return ps
	}
	i := sort.Search(len(ps), func(i int) bool { return ps[i].hi >= off })
	var out []piece
	for ; ; i++ {
		if ps[i].hi-off >= mx {
			return append(out, piece{mx, ps[i].t})
		}
		out = append(out, piece{ps[i].hi - off, ps[i].t})
	}
}

// rebase is read for the values off to off+max(k) of the list.
func (T *Terms) rebase(k *Term, ps []piece, off uint64) *Term {
	switch k.op {
	case OConst:
		v := off + k.k
		return ps[sort.Search(len(ps), func(i int) bool { return ps[i].hi >= v })].t
	case OZext:
		return T.rebase(k.a, ps, off)
	case OSext:
		// the upper half of the values of a becomes the top of the range of k
		h := mask(k.a.w) >> 1
		d := mask(k.w) - mask(k.a.w)
		out := append([]piece(nil), subList(ps, off, h)...)
		for _, x := range subList(ps, off+d+h+1, h) {
			out = append(out, piece{x.hi + h + 1, x.t})
		}
		return T.rebase(k.a, out, 0)
	case OAdd:
		if k.b.op == OConst && k.b.k != 0 {
			// k = a + c: the values k = c.. come first
			c, m := k.b.k, mask(k.w)
			out := append([]piece(nil), subList(ps, off+c, m-c)...)
			for _, x := range subList(ps, off, c-1) {
				out = append(out, piece{x.hi + (m - c) + 1, x.t})
			}
			return T.rebase(k.a, out, 0)
		}
		if r := T.rebaseSum(k, subList(ps, off, mask(k.w))); r != nil {
			return r
		}
	case OMul, OShl:
		if r := T.rebaseSum(k, subList(ps, off, mask(k.w))); r != nil {
			return r
		}
	case OConcat:
		w := k.b.w
		if k.a.op == OConst {
			return T.rebase(k.b, ps, off+k.a.k<<w)
		}
		if k.b.op == OConst {
			var out []piece
			for _, x := range subList(ps, off, mask(k.w)) {
				// values a with a<<w|c <= hi
				h := x.hi >> w
				if x.hi&mask(w) < k.b.k {
					if h == 0 {
						continue
					}
					h--
				}
				if n := len(out); n > 0 && out[n-1].hi == h {
					continue
				}
				out = append(out, piece{h, x.t})
			}
			return T.rebase(k.a, out, 0)
		}
		// one list over k.b for each value of k.a
		var out []piece
		list := subList(ps, off, mask(k.w))
		for i, lo := 0, uint64(0); ; {
			end := lo | mask(w)
			if list[i].hi >= end {
				end = ((list[i].hi - mask(w)) &^ mask(w)) | mask(w) // whole rows
				out = append(out, piece{end >> w, list[i].t})
			} else {
				out = append(out, piece{lo >> w, T.rebase(k.b, list, lo)})
				for list[i].hi < end {
					i++
				}
			}
			if end == mask(k.w) {
				return T.rebase(k.a, out, 0)
			}
			if list[i].hi == end {
				i++
			}
			lo = end + 1
		}
	case OUDiv:
		if k.b.op == OConst && k.b.k != 0 {
			var out []piece
			for _, x := range subList(ps, off, mask(k.w)) {
				h, l := bits.Mul64(x.hi, k.b.k)
				e := l + k.b.k - 1
				if h != 0 || e < l || e >= mask(k.w) {
					out = append(out, piece{mask(k.w), x.t})
					break
				}
				out = append(out, piece{e, x.t})
			}
			return T.rebase(k.a, out, 0)
		}
	case OIte:
		key := readKey{k, &ps[0], len(ps), off}
		if r, ok := T.reads[key]; ok {
			return r
		}
		T.spend()
		v := baseOf(k)
		r := T.buildOpt(v, over(func(ts []*Term) *Term { return T.rebase(ts[0], ps, off) }, T.shallowPieces(k, v)))
		T.reads[key] = r
		return r
	}
	return T.buildOpt(k, subList(ps, off, mask(k.w)))
}

// rebaseSum is rebase for arithmetic on two or three small terms (at most 17 bits in all),
// whose values are enumerated. nil if k is no such term.
func (T *Terms) rebaseSum(k *Term, ps []piece) *Term {
	const maxBits = 17
	var leaves []*Term
	bits := 0
	leaf := func(x *Term) int {
		for i, l := range leaves {
			if l == x {
				return i
			}
		}
		leaves = append(leaves, x)
		bits += int(x.w)
		return len(leaves) - 1
	}
	// compile k to a function of the leaves
	var comp func(x *Term) func(v *[3]uint64) uint64
	comp = func(x *Term) func(v *[3]uint64) uint64 {
		switch x.op {
		case OConst:
			c := x.k
			return func(*[3]uint64) uint64 { return c }
		case OZext:
			return comp(x.a)
		case OSext:
			f, w, m := comp(x.a), x.a.w, mask(x.w)
			return func(v *[3]uint64) uint64 { return uint64(sext(f(v), w)) & m }
		case OAdd, OMul, OShl:
			if x.op == OAdd || x.b.op == OConst {
				f, g, op, w := comp(x.a), comp(x.b), x.op, x.w
				return func(v *[3]uint64) uint64 { return evalBin(op, w, f(v), g(v)) }
			}
		case OConcat:
			f, g, w := comp(x.a), comp(x.b), x.b.w
			return func(v *[3]uint64) uint64 { return f(v)<<w | g(v) }
		}
		i := leaf(x)
		if len(leaves) > 3 || bits > maxBits || x.op == OIte {
			bits = maxBits + 1
			return func(*[3]uint64) uint64 { return 0 }
		}
		return func(v *[3]uint64) uint64 { return v[i] }
	}
	f := comp(k)
	if len(leaves) == 0 || len(leaves) > 3 || bits > maxBits || len(leaves) == 1 && leaves[0] == k {
		return nil
	}
	var v [3]uint64
	last := 0
	var rec func(i int) *Term
	rec = func(i int) *Term {
		if i == len(leaves) {
			x := f(&v)
			if !(x <= ps[last].hi && (last == 0 || ps[last-1].hi < x)) {
				last = sort.Search(len(ps), func(i int) bool { return ps[i].hi >= x })
			}
			return ps[last].t
		}
		x := leaves[i]
		var out plist
		for n := uint64(0); n <= mask(x.w); n++ {
			v[i] = n
			out.emit(n, rec(i+1))
		}
		return T.rebase(x, out.out, 0)
	}
	return rec(0)
}
