package main

import (
	"fmt"
	"math/bits"
	"os"
)

// Terms: hash-consed bit-vector / boolean expressions. Width 0 means Bool.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUle
	OSle
	OAdd
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OZext
	OSext
)

type Term struct {
	op      Op
	w       uint8
	tree    bool // constant, or Ite tree with constant leaves only (booleans: any)
	id      int32
	size    int32
	a, b, c *Term
	k       uint64 // const value; var index; extract: lo
	sup     *Sup
}

// Sup is an interned set of variable indices.
type Sup struct {
	id   int32
	bits []uint64
	n    int
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int32
	k       uint64
}

type Terms struct {
	reads    map[readKey]*Term // of the read in progress
	tab      map[termKey]*Term
	next     int32
	True     *Term
	False    *Term
	vars     []*VarInfo
	varByNm  map[string]*Term
	sups     map[string]*Sup
	supUnion map[[2]int32]*Sup
	supNext  int32
	empty    *Sup
	memo     map[applyKey]*Term
	budget   int
	pcs      map[*Term][]piece
	rws      []rewrite
	restr    map[[2]int32]*Term
	rwSeen   int
	rwOff    bool
}

type VarInfo struct {
	name string
	term *Term
}

type applyKey struct {
	op   Op
	w    uint8
	k    uint64
	a, b int32
	c    int32
}

func (T *Terms) init() {
	T.tab = make(map[termKey]*Term, 1<<18)
	T.pcs = map[*Term][]piece{}
	T.restr = map[[2]int32]*Term{}
	T.varByNm = map[string]*Term{}
	T.sups = map[string]*Sup{}
	T.supUnion = map[[2]int32]*Sup{}
	T.memo = make(map[applyKey]*Term, 1<<16)
	T.empty = T.internSup(nil)
	T.False = T.raw(OConst, 0, nil, nil, nil, 0)
	T.True = T.raw(OConst, 0, nil, nil, nil, 1)
}

func (T *Terms) internSup(b []uint64) *Sup {
	for len(b) > 0 && b[len(b)-1] == 0 {
		b = b[:len(b)-1]
	}
	key := make([]byte, 0, len(b)*8)
	n := 0
	for _, x := range b {
		n += bits.OnesCount64(x)
		for i := 0; i < 8; i++ {
			key = append(key, byte(x>>(8*i)))
		}
	}
	if s, ok := T.sups[string(key)]; ok {
		return s
	}
	T.supNext++
	s := &Sup{id: T.supNext, bits: append([]uint64(nil), b...), n: n}
	T.sups[string(key)] = s
	return s
}

func (T *Terms) union(a, b *Sup) *Sup {
	if a == b || b.n == 0 {
		return a
	}
	if a.n == 0 {
		return b
	}
	k := [2]int32{a.id, b.id}
	if a.id > b.id {
		k = [2]int32{b.id, a.id}
	}
	if s, ok := T.supUnion[k]; ok {
		return s
	}
	x, y := a.bits, b.bits
	if len(x) < len(y) {
		x, y = y, x
	}
	r := append([]uint64(nil), x...)
	for i := range y {
		r[i] |= y[i]
	}
	s := T.internSup(r)
	T.supUnion[k] = s
	return s
}

func (s *Sup) subset(t *Sup) bool {
	if s == t {
		return true
	}
	if s.n > t.n || len(s.bits) > len(t.bits) {
		return false
	}
	for i, x := range s.bits {
		if x&^t.bits[i] != 0 {
			return false
		}
	}
	return true
}

func (s *Sup) intersects(t *Sup) bool {
	n := len(s.bits)
	if len(t.bits) < n {
		n = len(t.bits)
	}
	for i := 0; i < n; i++ {
		if s.bits[i]&t.bits[i] != 0 {
			return true
		}
	}
	return false
}

func related(a, b *Sup) bool { return a.subset(b) || b.subset(a) }

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (T *Terms) raw(op Op, w uint8, a, b, c *Term, k uint64) *Term {
	key := termKey{op, w, tid(a), tid(b), tid(c), k}
	if t, ok := T.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, k: k, id: T.next}
	T.next++
	t.sup = T.empty
	sz := int64(1)
	for i, x := range []*Term{a, b, c} {
		if x != nil {
			t.sup = T.union(t.sup, x.sup)
			if i == 0 && op == OIte && a.op >= OEq && a.op <= OSle {
				continue // branching on a comparison counts 1
			}
			sz += int64(x.size)
		}
	}
	if sz > 1<<20-1 {
		sz = 1<<20 - 1
	}
	t.size = int32(sz)
	switch op {
	case OConst:
		t.tree = true
	case OIte:
		t.tree = b.tree && c.tree
	}
	if w == 0 {
		t.tree = true
	}
	T.tab[key] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	if v>>(w-1)&1 == 1 {
		return int64(v | ^mask(w))
	}
	return int64(v)
}

func (T *Terms) Const(v uint64, w uint8) *Term {
	if w == 0 {
		panic("bv const of width 0")
	}
	return T.raw(OConst, w, nil, nil, nil, v&mask(w))
}

func (T *Terms) Bool(b bool) *Term {
	if b {
		return T.True
	}
	return T.False
}

func (T *Terms) Var(name string, w uint8) *Term {
	if t, ok := T.varByNm[name]; ok {
		if t.w != w {
			panic("variable " + name + " used at two widths")
		}
		return t
	}
	idx := len(T.vars)
	t := T.raw(OVar, w, nil, nil, nil, uint64(idx))
	b := make([]uint64, idx/64+1)
	b[idx/64] |= 1 << (idx % 64)
	t.sup = T.internSup(b)
	T.vars = append(T.vars, &VarInfo{name, t})
	T.varByNm[name] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

// ---- tree nodes (see idd.go for the canonical form) ----

func (T *Terms) node(c, hi, lo *Term) *Term {
	if hi == lo {
		return hi
	}
	if hi.w == 0 {
		if hi == T.True && lo == T.False {
			return c
		}
		if hi == T.False && lo == T.True {
			return T.raw(ONot, 0, c, nil, nil, 0)
		}
		if hi == c {
			return T.node(c, T.True, lo)
		}
		if lo == c {
			return T.node(c, hi, T.False)
		}
	}
	if c.op == ONot {
		return T.node(c.a, lo, hi)
	}
	if hi.op == OIte && hi.a == c {
		return T.node(c, hi.b, lo)
	}
	if lo.op == OIte && lo.a == c {
		return T.node(c, hi, lo.c)
	}
	return T.raw(OIte, hi.w, c, hi, lo, 0)
}

type budgetExceeded struct{}

const applyBudget = 1500000

var debugTrees = os.Getenv("SYM_TREES") != ""

// treeLimit bounds the size of trees that are still taken apart.
const treeLimit = 1<<20 - 1

// withBudget runs f; if the apply budget is exhausted it returns nil.
func (T *Terms) withBudget(f func() *Term) (res *Term) {
	outer := T.budget
	if outer == 0 {
		T.budget = applyBudget
		defer func() {
			T.budget = 0
			if r := recover(); r != nil {
				if _, ok := r.(budgetExceeded); ok {
					res = nil
					return
				}
				panic(r)
			}
		}()
	}
	if len(T.memo) > 6000000 {
		T.memo = make(map[applyKey]*Term, 1<<16)
	}
	return f()
}

func (T *Terms) spend() {
	T.budget--
	if T.budget <= 1 {
		panic(budgetExceeded{})
	}
}

func isTreeIte(t *Term) bool { return t.tree && t.op == OIte }

// ---- Ite ----

func (T *Terms) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return T.Ite(c.a, b, a)
	}
	if a.w == 0 && a.op == OConst && b.op == OConst {
		return T.node(c, a, b)
	}
	okA := !isTreeOrBool(a) || related(a.sup, c.sup) || int64(a.size)*int64(c.size) <= 4096
	okB := !isTreeOrBool(b) || related(b.sup, c.sup) || int64(b.size)*int64(c.size) <= 4096
	if okA && okB && (c.size <= treeLimit) {
		r := T.withBudget(func() *Term { return T.ite3(c, a, b) })
		if r != nil {
			T.noteRewrite(OIte, a.w, c, a, b, r)
			return r
		}
	}
	if debugTrees && (a.tree && b.tree) {
		println("opaque ite: sizes", c.size, a.size, b.size, okA, okB, c.op, "w", a.w)
	}
	if a.w == 0 {
		// opaque boolean ite
		if a.op == OConst {
			if a.k == 1 {
				return T.Or(c, b)
			}
			return T.And(T.Not(c), b)
		}
		if b.op == OConst {
			if b.k == 1 {
				return T.Or(T.Not(c), a)
			}
			return T.And(c, a)
		}
	}
	return T.node(c, a, b)
}

func isTreeOrBool(t *Term) bool { return t.w == 0 || isTreeIte(t) }

// ---- booleans ----

func (T *Terms) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return T.Bool(a.k == 0)
	case ONot:
		return a.a
	case OIte:
		if a.size <= treeLimit {
			r := T.withBudget(func() *Term { return T.ite3(a, T.False, T.True) })
			if r != nil {
				T.noteRewrite(ONot, 0, a, nil, nil, r)
				return r
			}
		}
	}
	return T.raw(ONot, 0, a, nil, nil, 0)
}

func (T *Terms) distBool(a, b *Term) bool {
	if related(a.sup, b.sup) {
		return int64(a.size)+int64(b.size) < treeLimit
	}
	return int64(a.size)*int64(b.size) <= 1024
}

func (T *Terms) And(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OConst {
		if a.k == 1 {
			return b
		}
		return a
	}
	if b.op == OConst {
		return T.And(b, a)
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return T.False
	}
	if T.distBool(a, b) {
		r := T.withBudget(func() *Term { return T.ite3(a, b, T.False) })
		if r != nil {
			T.noteRewrite(OAnd, 0, a, b, nil, r)
			return r
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.raw(OAnd, 0, a, b, nil, 0)
}

func (T *Terms) Or(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OConst {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.op == OConst {
		return T.Or(b, a)
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return T.True
	}
	if T.distBool(a, b) {
		r := T.withBudget(func() *Term { return T.ite3(a, T.True, b) })
		if r != nil {
			T.noteRewrite(OOr, 0, a, b, nil, r)
			return r
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.raw(OOr, 0, a, b, nil, 0)
}

// ---- generic distribution over constant-leaf trees ----

// dist decides whether op(a,b) may be pushed into the leaves.
func (T *Terms) dist(cmp bool, a, b *Term) bool {
	ta, tb := a.op == OIte, b.op == OIte
	if !ta && !tb {
		return false
	}
	full := func(x *Term) bool { return isTreeIte(x) && x.size < treeLimit }
	if ta && tb {
		if full(a) && full(b) {
			return related(a.sup, b.sup) || int64(a.size)*int64(b.size) <= 4096
		}
		return cmp && int64(a.size)*int64(b.size) <= 256
	}
	x, y := a, b
	if tb {
		x, y = b, a
	}
	if y.op == OConst {
		return full(x) || x.size <= 64
	}
	return cmp && full(x)
}

// Leaves collects the distinct constant leaves of a tree, up to max (nil if more).
func (T *Terms) Leaves(t *Term, max int) []uint64 {
	seen := map[*Term]bool{}
	vals := map[uint64]bool{}
	var out []uint64
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.op == OConst {
			if !vals[t.k] {
				vals[t.k] = true
				out = append(out, t.k)
			}
			return len(out) <= max
		}
		if seen[t] {
			return true
		}
		seen[t] = true
		return rec(t.b) && rec(t.c)
	}
	if !rec(t) {
		return nil
	}
	return out
}

// ---- bit-vector operations ----

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	case OEq:
		return b2u(x == y)
	case OUle:
		return b2u(x <= y)
	case OSle:
		return b2u(sext(x, w) <= sext(y, w))
	}
	panic(fmt.Sprint("evalBin ", op))
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func isCmp(op Op) bool { return op == OEq || op == OUle || op == OSle }

// bin builds op(a,b). w is the operand width.
func (T *Terms) bin(op Op, w uint8, a, b *Term, distribute bool) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch op %d: %d %d", op, a.w, b.w))
	}
	cmp := isCmp(op)
	if a.op == OConst && b.op == OConst {
		v := evalBin(op, w, a.k, b.k)
		if cmp {
			return T.Bool(v == 1)
		}
		return T.Const(v, w)
	}
	if distribute && T.dist(cmp, a, b) {
		r := T.withBudget(func() *Term { return T.apply2(op, w, a, b) })
		if r != nil {
			rw := w
			if cmp {
				rw = 0
			}
			T.noteRewrite(op, rw, a, b, nil, r)
			return r
		}
	}
	if debugTrees && distribute && (a.op == OIte || b.op == OIte) {
		println("opaque bin: op", op, "sizes", a.size, b.size, isTreeIte(a), isTreeIte(b))
	}
	switch op {
	case OEq:
		r := T.eqLeaf(a, b)
		T.noteRewrite(op, 0, a, b, nil, r)
		return r
	case OUle:
		r := T.uleLeaf(a, b)
		T.noteRewrite(op, 0, a, b, nil, r)
		return r
	case OSle:
		r := T.sleLeaf(a, b)
		T.noteRewrite(op, 0, a, b, nil, r)
		return r
	}
	r := T.arith(op, w, a, b)
	T.noteRewrite(op, w, a, b, nil, r)
	return r
}

func (T *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return T.True
	}
	if a.w == 0 {
		if a.op == OConst {
			if a.k == 1 {
				return b
			}
			return T.Not(b)
		}
		if b.op == OConst {
			return T.Eq(b, a)
		}
		return T.Ite(a, b, T.Not(b))
	}
	return T.bin(OEq, a.w, a, b, true)
}
func (T *Terms) Ule(a, b *Term) *Term { return T.bin(OUle, a.w, a, b, true) }
func (T *Terms) Ult(a, b *Term) *Term { return T.Not(T.Ule(b, a)) }
func (T *Terms) Sle(a, b *Term) *Term { return T.bin(OSle, a.w, a, b, true) }
func (T *Terms) Slt(a, b *Term) *Term { return T.Not(T.Sle(b, a)) }
func (T *Terms) Add(a, b *Term) *Term { return T.bin(OAdd, a.w, a, b, true) }
func (T *Terms) Sub(a, b *Term) *Term {
	if a == b {
		return T.Const(0, a.w)
	}
	return T.Add(a, T.Neg(b))
}
func (T *Terms) Neg(a *Term) *Term {
	// -x = (x ^ ones) + 1
	if a.op == OConst {
		return T.Const(-a.k, a.w)
	}
	return T.Mul(a, T.Const(mask(a.w), a.w))
}
func (T *Terms) Mul(a, b *Term) *Term { return T.bin(OMul, a.w, a, b, true) }
func (T *Terms) Bin(op Op, a, b *Term) *Term {
	if op == OEq {
		return T.Eq(a, b)
	}
	return T.bin(op, a.w, a, b, true)
}

// lz: number of leading bits known zero.
func lz(t *Term) uint8 {
	switch t.op {
	case OConst:
		return t.w - uint8(bits.Len64(t.k))
	case OZext:
		return t.w - t.a.w + lz(t.a)
	case OConcat:
		n := lz(t.a)
		if n == t.a.w {
			n += lz(t.b)
		}
		return n
	case OIte:
		if t.size > 64 {
			return 0
		}
		x, y := lz(t.b), lz(t.c)
		if y < x {
			x = y
		}
		return x
	case OURem:
		return max8(lz(t.a), lz(t.b))
	case OUDiv:
		return lz(t.a)
	case OBAnd:
		return max8(lz(t.a), lz(t.b))
	case OBOr, OBXor:
		return min8(lz(t.a), lz(t.b))
	case OAdd:
		if m := min8(lz(t.a), lz(t.b)); m > 0 {
			return m - 1
		}
	}
	return 0
}
func max8(a, b uint8) uint8 {
	if a > b {
		return a
	}
	return b
}
func min8(a, b uint8) uint8 {
	if a < b {
		return a
	}
	return b
}

// splitConcat: comparisons of a concatenation are decided by its fields, so that trees over a part and
// over the whole share their bases.
const splitConcat = true

func (T *Terms) eqLeaf(a, b *Term) *Term {
	if a == b {
		return T.True
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		switch a.op {
		case OZext:
			if b.k > mask(a.a.w) {
				return T.False
			}
			return T.Eq(a.a, T.Const(b.k, a.a.w))
		case OAdd:
			if a.b.op == OConst {
				return T.Eq(a.a, T.Const(b.k-a.b.k, a.w))
			}
		case OUDiv:
			if a.b.op == OConst && a.b.k != 0 {
				h, l := bits.Mul64(b.k, a.b.k)
				if h != 0 || l > mask(a.w) {
					return T.False
				}
				top := l + (a.b.k - 1)
				if top < l || top > mask(a.w) {
					top = mask(a.w)
				}
				return T.inRange(a.a, l, top)
			}
		case OBXor:
			if a.b.op == OConst {
				return T.Eq(a.a, T.Const(b.k^a.b.k, a.w))
			}
		case OConcat:
			lw := a.b.w
			if !splitConcat && a.a.op != OConst && a.b.op != OConst {
				break
			}
			return T.And(T.Eq(a.a, T.Const(b.k>>lw, a.a.w)), T.Eq(a.b, T.Const(b.k, lw)))
		case OSext:
			iw := a.a.w
			if uint64(sext(b.k&mask(iw), iw))&mask(a.w) != b.k {
				return T.False
			}
			return T.Eq(a.a, T.Const(b.k, iw))
		case OBAnd:
			if b.k == 0 && a.b.op == OConst && a.b.k == 1<<(a.w-1) {
				return T.Ule(a.a, T.Const(a.b.k-1, a.w))
			}
			if a.b.op == OConst && b.k&^a.b.k != 0 {
				return T.False
			}
		case OExtract:
			// top-bit extraction: x[w-1:w-1]==0  <=> x <= max/2
			if a.w == 1 && uint8(a.k) == a.a.w-1 {
				le := T.Ule(a.a, T.Const(mask(a.a.w)>>1, a.a.w))
				if b.k == 0 {
					return le
				}
				return T.Not(le)
			}
		}
		// x == 0 / x == max as Ule atoms are not canonicalised further
	} else {
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return T.Eq(a.a, b.a)
		}
		if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
			return T.Eq(a.a, b.a)
		}
		if a.op == OAdd && b.op == OAdd && a.b == b.b {
			return T.Eq(a.a, b.a)
		}
		if a.op == OConcat && b.op == OConcat && a.a.w == b.a.w {
			return T.And(T.Eq(a.a, b.a), T.Eq(a.b, b.b))
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return T.raw(OEq, 0, a, b, nil, 0)
}

func (T *Terms) uleLeaf(a, b *Term) *Term {
	if a == b {
		return T.True
	}
	w := a.w
	if b.op == OConst {
		if b.k == mask(w) {
			return T.True
		}
		if b.k == 0 {
			return T.Eq(a, b)
		}
		if b.k == mask(w)-1 {
			return T.Not(T.Eq(a, T.Const(mask(w), w)))
		}
		switch a.op {
		case OAdd:
			if a.b.op == OConst {
				return T.inRange(a.a, -a.b.k, b.k-a.b.k)
			}
		case OUDiv:
			if a.b.op == OConst && a.b.k != 0 {
				h, l := bits.Mul64(b.k+1, a.b.k)
				if h != 0 || l-1 >= mask(w) {
					return T.True
				}
				return T.Ule(a.a, T.Const(l-1, w))
			}
		case OZext:
			if b.k >= mask(a.a.w) {
				return T.True
			}
			return T.Ule(a.a, T.Const(b.k, a.a.w))
		case OConcat:
			if a.a.op == OConst {
				h := b.k >> a.b.w
				if a.a.k < h {
					return T.True
				}
				if a.a.k > h {
					return T.False
				}
				return T.Ule(a.b, T.Const(b.k, a.b.w))
			}
			if a.b.op == OConst {
				// a.a:c <= K  <=>  a.a <= Kh, or a.a < Kh when c > Kl
				h := b.k >> a.b.w
				if a.b.k <= b.k&mask(a.b.w) {
					return T.Ule(a.a, T.Const(h, a.a.w))
				}
				if h == 0 {
					return T.False
				}
				return T.Ule(a.a, T.Const(h-1, a.a.w))
			}
			if splitConcat {
				// by the fields: a.a < Kh, or a.a = Kh and a.b <= Kl
				h := T.Const(b.k>>a.b.w, a.a.w)
				return T.Or(T.And(T.Ule(a.a, h), T.Not(T.Eq(a.a, h))), T.And(T.Eq(a.a, h), T.Ule(a.b, T.Const(b.k, a.b.w))))
			}
		}
		if z := lz(a); z > 0 && b.k >= mask(w-z) {
			return T.True
		}
	} else if a.op == OConst {
		if a.k == 0 {
			return T.True
		}
		// c <= x  <=> !(x <= c-1)
		return T.Not(T.Ule(b, T.Const(a.k-1, w)))
	} else if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return T.Ule(a.a, b.a)
	}
	return T.raw(OUle, 0, a, b, nil, 0)
}

func (T *Terms) sleLeaf(a, b *Term) *Term {
	if a == b {
		return T.True
	}
	w := a.w
	if lz(a) > 0 && lz(b) > 0 {
		return T.Ule(a, b)
	}
	if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
		return T.Sle(a.a, b.a)
	}
	maxp := mask(w) >> 1
	if b.op == OConst {
		if b.k == maxp {
			return T.True
		}
		if b.k == mask(w) {
			return T.Not(T.Ule(a, T.Const(maxp, w)))
		}
		if a.op == OAdd && a.b.op == OConst {
			return T.inRange(a.a, maxp+1-a.b.k, b.k-a.b.k)
		}
		if lz(a) > 0 { // b negative here (or lz(b)>0 handled above)
			if b.k > maxp {
				return T.False
			}
		}
		if a.op == OSext {
			iw := a.a.w
			bv := sext(b.k, w)
			lo, hi := -(int64(1) << (iw - 1)), int64(1)<<(iw-1)-1
			if bv >= hi {
				return T.True
			}
			if bv < lo {
				return T.False
			}
			return T.Sle(a.a, T.Const(uint64(bv), iw))
		}
	} else if a.op == OConst {
		if a.k == maxp+1 {
			return T.True
		}
		return T.Not(T.Sle(b, T.Const(a.k-1, w)))
	}
	return T.raw(OSle, 0, a, b, nil, 0)
}

type seg struct {
	t *Term
}

func (T *Terms) segs(t *Term, out []*Term) []*Term {
	switch t.op {
	case OConcat:
		return T.segs(t.b, T.segs(t.a, out))
	case OZext:
		return T.segs(t.a, append(out, T.Const(0, t.w-t.a.w)))
	}
	return append(out, t)
}

func (T *Terms) fromSegs(s []*Term) *Term {
	r := s[0]
	for _, x := range s[1:] {
		r = T.Concat(r, x)
	}
	return r
}

// align splits two segment lists at common boundaries.
func (T *Terms) align(x, y []*Term) (p, q []*Term) {
	for len(x) > 0 {
		a, b := x[0], y[0]
		switch {
		case a.w == b.w:
			p, q = append(p, a), append(q, b)
			x, y = x[1:], y[1:]
		case a.w < b.w:
			p, q = append(p, a), append(q, T.Extract(b, b.w-1, b.w-a.w))
			x = x[1:]
			y = append([]*Term{T.Extract(b, b.w-a.w-1, 0)}, y[1:]...)
		default:
			p, q = append(p, T.Extract(a, a.w-1, a.w-b.w)), append(q, b)
			y = y[1:]
			x = append([]*Term{T.Extract(a, a.w-b.w-1, 0)}, x[1:]...)
		}
	}
	return
}

// bySegs tries to compute a bitwise op (or a carry-free add) piecewise.
func (T *Terms) bySegs(op Op, a, b *Term) *Term {
	segged := func(t *Term) bool { return t.op == OConcat || t.op == OZext || t.op == OConst }
	if !segged(a) && !segged(b) {
		return nil
	}
	p, q := T.align(T.segs(a, nil), T.segs(b, nil))
	var out []*Term
	for i := range p {
		x, y := p[i], q[i]
		if y.op != OConst {
			x, y = y, x
		}
		if y.op != OConst {
			return nil
		}
		switch {
		case x.op == OConst && op != OAdd:
			out = append(out, T.Const(evalBin(op, x.w, x.k, y.k), x.w))
		case y.k == 0 && op != OBAnd:
			out = append(out, x)
		case y.k == 0 && op == OBAnd:
			out = append(out, y)
		case y.k == mask(y.w) && op == OBAnd:
			out = append(out, x)
		case y.k == mask(y.w) && op == OBOr:
			out = append(out, y)
		default:
			if op == OAdd {
				return nil
			}
			if len(p) == 1 {
				return nil
			}
			// split constants into runs of equal bits so that each run is all 0 or all 1
			if op == OBXor {
				return nil
			}
			bit := y.k >> (y.w - 1) & 1
			n := uint8(1)
			for n < y.w && y.k>>(y.w-1-n)&1 == bit {
				n++
			}
			out = append(out, T.Bin(op, T.Extract(x, x.w-1, x.w-n), T.Extract(y, y.w-1, y.w-n)),
				T.Bin(op, T.Extract(x, x.w-n-1, 0), T.Extract(y, y.w-n-1, 0)))
		}
	}
	return T.fromSegs(out)
}

func (T *Terms) splitConstRuns(op Op, x *Term, k uint64) *Term {
	w := x.w
	bit := k >> (w - 1) & 1
	n := uint8(1)
	for n < w && k>>(w-1-n)&1 == bit {
		n++
	}
	if n == w {
		switch {
		case op == OBAnd && bit == 0:
			return T.Const(0, w)
		case op == OBAnd:
			return x
		case bit == 0:
			return x
		default:
			return T.Const(mask(w), w)
		}
	}
	hi := T.splitConstRuns(op, T.Extract(x, w-1, w-n), k>>(w-n))
	lo := T.splitConstRuns(op, T.Extract(x, w-n-1, 0), k&mask(w-n))
	return T.Concat(hi, lo)
}

func (T *Terms) arith(op Op, w uint8, a, b *Term) *Term {
	comm := op == OAdd || op == OMul || op == OBAnd || op == OBOr || op == OBXor
	if comm && (a.op == OConst || (b.op != OConst && a.id > b.id)) {
		a, b = b, a
	}
	bc := b.op == OConst
	switch op {
	case OAdd:
		if bc && b.k == 0 {
			return a
		}
		if bc && a.op == OAdd && a.b.op == OConst {
			return T.Add(a.a, T.Const(a.b.k+b.k, w))
		}
		if !bc && a.op == OAdd && a.b.op == OConst {
			return T.Add(T.Add(a.a, b), a.b)
		}
		if !bc && b.op == OAdd && b.b.op == OConst {
			return T.Add(T.Add(a, b.a), b.b)
		}
		// x + (-1)*x
		if !bc && b.op == OMul && b.a == a && b.b.op == OConst && b.b.k == mask(w) {
			return T.Const(0, w)
		}
		if !bc && a.op == OMul && a.a == b && a.b.op == OConst && a.b.k == mask(w) {
			return T.Const(0, w)
		}
		if r := T.bySegs(OAdd, a, b); r != nil {
			return r
		}
	case OMul:
		if bc {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if b.k&(b.k-1) == 0 {
				return T.Bin(OShl, a, T.Const(uint64(bits.TrailingZeros64(b.k)), w))
			}
			if a.op == OMul && a.b.op == OConst {
				return T.Mul(a.a, T.Const(a.b.k*b.k, w))
			}
			if a.op == OAdd && a.b.op == OConst && b.k == mask(w) {
				return T.Add(T.Mul(a.a, b), T.Const(-a.b.k, w))
			}
		}
	case OUDiv, OURem:
		if bc {
			if b.k == 1 {
				if op == OUDiv {
					return a
				}
				return T.Const(0, w)
			}
			if b.k != 0 && b.k&(b.k-1) == 0 {
				n := uint8(bits.TrailingZeros64(b.k))
				if op == OUDiv {
					return T.Bin(OLshr, a, T.Const(uint64(n), w))
				}
				return T.Zext(T.Extract(a, n-1, 0), w)
			}
			if z := lz(a); z > 0 && w-z > 0 && b.k <= mask(w-z) && z >= 4 {
				nw := w - z
				return T.Zext(T.arithTop(op, T.Extract(a, nw-1, 0), T.Const(b.k, nw)), w)
			}
		}
	case OSDiv, OSRem:
		if lz(a) > 0 && lz(b) > 0 {
			if op == OSDiv {
				return T.Bin(OUDiv, a, b)
			}
			return T.Bin(OURem, a, b)
		}
		if bc && b.k == 1 {
			if op == OSDiv {
				return a
			}
			return T.Const(0, w)
		}
	case OBAnd:
		if a == b {
			return a
		}
		if bc {
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			if b.k == 1<<(w-1) && a.op == OVar {
				break // sign-bit test: eqLeaf turns (x & 0x80) == 0 into a range atom
			}
			return T.splitConstRuns(op, a, b.k)
		}
		if r := T.bySegs(op, a, b); r != nil {
			return r
		}
	case OBOr:
		if a == b {
			return a
		}
		if bc {
			return T.splitConstRuns(op, a, b.k)
		}
		if r := T.bySegs(op, a, b); r != nil {
			return r
		}
	case OBXor:
		if a == b {
			return T.Const(0, w)
		}
		if bc && b.k == 0 {
			return a
		}
		if r := T.bySegs(op, a, b); r != nil {
			return r
		}
	case OShl:
		if bc {
			n := b.k
			if n == 0 {
				return a
			}
			if n >= uint64(w) {
				return T.Const(0, w)
			}
			return T.Concat(T.Extract(a, w-1-uint8(n), 0), T.Const(0, uint8(n)))
		}
	case OLshr:
		if bc {
			n := b.k
			if n == 0 {
				return a
			}
			if n >= uint64(w) {
				return T.Const(0, w)
			}
			return T.Zext(T.Extract(a, w-1, uint8(n)), w)
		}
	case OAshr:
		if lz(a) > 0 {
			return T.Bin(OLshr, a, b)
		}
		if bc {
			n := b.k
			if n == 0 {
				return a
			}
			if n >= uint64(w) {
				n = uint64(w) - 1
			}
			return T.Sext(T.Extract(a, w-1, uint8(n)), w)
		}
	}
	return T.raw(op, w, a, b, nil, 0)
}

func (T *Terms) arithTop(op Op, a, b *Term) *Term { return T.bin(op, a.w, a, b, true) }

func (T *Terms) un(key Op, w uint8, k uint64, a *Term, f func(*Term) *Term) *Term {
	if a.op == OIte && (isTreeIte(a) && a.size < treeLimit || a.size <= 64) {
		r := T.withBudget(func() *Term { return T.apply1(key, w, k, a, f) })
		if r != nil {
			return r
		}
	}
	return f(a)
}

func (T *Terms) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if hi < lo || hi >= a.w {
		panic("bad extract")
	}
	return T.un(OExtract, w, uint64(lo), a, func(a *Term) *Term {
		switch a.op {
		case OConst:
			return T.Const(a.k>>lo, w)
		case OExtract:
			return T.Extract(a.a, hi+uint8(a.k), lo+uint8(a.k))
		case OConcat:
			lw := a.b.w
			if hi < lw {
				return T.Extract(a.b, hi, lo)
			}
			if lo >= lw {
				return T.Extract(a.a, hi-lw, lo-lw)
			}
			return T.Concat(T.Extract(a.a, hi-lw, 0), T.Extract(a.b, lw-1, lo))
		case OZext:
			iw := a.a.w
			if hi < iw {
				return T.Extract(a.a, hi, lo)
			}
			if lo >= iw {
				return T.Const(0, w)
			}
			return T.Zext(T.Extract(a.a, iw-1, lo), w)
		case OSext:
			iw := a.a.w
			if hi < iw {
				return T.Extract(a.a, hi, lo)
			}
		case OAdd, OMul:
			if lo == 0 && a.b.op == OConst {
				return T.bin(a.op, w, T.Extract(a.a, hi, 0), T.Const(a.b.k, w), true)
			}
		}
		return T.raw(OExtract, w, a, nil, nil, uint64(lo))
	})
}

func (T *Terms) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	return T.un(OZext, w, 0, a, func(a *Term) *Term {
		switch a.op {
		case OConst:
			return T.Const(a.k, w)
		case OZext:
			return T.Zext(a.a, w)
		}
		return T.raw(OZext, w, a, nil, nil, 0)
	})
}

func (T *Terms) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	return T.un(OSext, w, 0, a, func(a *Term) *Term {
		switch a.op {
		case OConst:
			return T.Const(uint64(sext(a.k, a.w)), w)
		case OSext:
			return T.Sext(a.a, w)
		}
		if lz(a) > 0 {
			return T.Zext(a, w)
		}
		return T.raw(OSext, w, a, nil, nil, 0)
	})
}

func (T *Terms) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.op == OConst && b.op == OConst {
		return T.Const(a.k<<b.w|b.k, w)
	}
	if a.op == OConst && a.k == 0 {
		return T.Zext(b, w)
	}
	if a.op == OExtract && b.op == OExtract && a.a == b.a && uint8(a.k) == uint8(b.k)+b.w {
		return T.Extract(a.a, uint8(a.k)+a.w-1, uint8(b.k))
	}
	// trees: push in when cheap
	if a.op == OIte || b.op == OIte {
		if isTreeIte(a) && b.op == OConst || isTreeIte(b) && a.op == OConst || isTreeIte(a) && isTreeIte(b) && (related(a.sup, b.sup) || int64(a.size)*int64(b.size) <= 4096) {
			r := T.withBudget(func() *Term { return T.applyConcat(a, b) })
			if r != nil {
				return r
			}
		}
	}
	if b.op == OConcat && a.op != OConcat {
		// left-associate
		return T.Concat(T.Concat(a, b.a), b.b)
	}
	if a.op == OConcat && a.b.op == OConst && b.op == OConst {
		return T.Concat(a.a, T.Const(a.b.k<<b.w|b.k, a.b.w+b.w))
	}
	if a.op == OConcat && a.b.op == OExtract && b.op == OExtract && a.b.a == b.a && uint8(a.b.k) == uint8(b.k)+b.w {
		return T.Concat(a.a, T.Extract(b.a, uint8(a.b.k)+a.b.w-1, uint8(b.k)))
	}
	if a.op == OZext && b.w+a.w <= 64 {
		return T.Zext(T.Concat(a.a, b), w)
	}
	return T.raw(OConcat, w, a, b, nil, 0)
}

// ---- evaluation under a model ----

type Model map[int]uint64 // var index -> value (missing = 0)

func (T *Terms) Eval(t *Term, m Model) uint64 {
	memo := map[int32]uint64{}
	var ev func(t *Term) uint64
	ev = func(t *Term) uint64 {
		switch t.op {
		case OConst:
			return t.k
		case OVar:
			return m[int(t.k)] & func() uint64 {
				if t.w == 0 {
					return 1
				}
				return mask(t.w)
			}()
		}
		if v, ok := memo[t.id]; ok {
			return v
		}
		var r uint64
		switch t.op {
		case ONot:
			r = 1 - ev(t.a)
		case OAnd:
			r = ev(t.a) & ev(t.b)
		case OOr:
			r = ev(t.a) | ev(t.b)
		case OIte:
			if ev(t.a) == 1 {
				r = ev(t.b)
			} else {
				r = ev(t.c)
			}
		case OConcat:
			r = ev(t.a)<<t.b.w | ev(t.b)
		case OExtract:
			r = ev(t.a) >> t.k & mask(t.w)
		case OZext:
			r = ev(t.a)
		case OSext:
			r = uint64(sext(ev(t.a), t.a.w)) & mask(t.w)
		default:
			r = evalBin(t.op, t.a.w, ev(t.a), ev(t.b))
		}
		memo[t.id] = r
		return r
	}
	return ev(t)
}
