package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of *Term, Str, Slice, Ptr, MapRef, Iface, *Func, *Agg, Tuple, Float, Opaque.
type Value interface{}

type Str struct {
	c string  // concrete contents, if b == nil
	b []*Term // symbolic contents
}

type Slice struct {
	obj, off, len, cap int // off in cells, len/cap in elements; obj 0 = nil
}

type Ptr struct {
	obj, off  int
	idx       *Term // optional symbolic index (64 bit): address off + idx*stride, idx < n
	stride, n int
}

type MapRef struct{ obj int }

type Iface struct {
	t types.Type
	v Value
}

type Func struct {
	fn     *ssa.Function
	bind   []Value
	native func(E *Eng, st *State, args []Value) Value
	bi     *ssa.Builtin
}

type Agg struct{ cells []Value }
type Tuple []Value
type Float float64
type Opaque struct{ what string }
type Iter struct{ obj int }

func (s Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.c)
}

func (E *Eng) strBytes(s Str) []*Term {
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.c))
	for i := range r {
		r[i] = E.byteConst[s.c[i]]
	}
	return r
}

func (E *Eng) mkStr(b []*Term) Str {
	for _, t := range b {
		if t.op != OConst {
			return Str{b: b}
		}
	}
	c := make([]byte, len(b))
	for i, t := range b {
		c[i] = byte(t.k)
	}
	return Str{c: string(c)}
}

// ---- heap ----

type own struct{ _ int }

type Obj struct {
	cells []Value
	m     *MapData
	owner *own
	tag   string // what the object is (globals: name), for reports
	virt  *virt
}

type MapData struct {
	keys  []Value
	vals  []Value // nil = deleted
	idx   map[string]int
	sym   int // number of entries with symbolic keys
	count int
	// cache of decision trees for lookups with a symbolic integer key
	trees  map[treeKey][2]*Term
	views  map[string]*MapData // with keys as integers
	sorted []int
}

func (m *MapData) clone() *MapData {
	n := &MapData{keys: append([]Value(nil), m.keys...), vals: append([]Value(nil), m.vals...), sym: m.sym, count: m.count, idx: make(map[string]int, len(m.idx))}
	for k, v := range m.idx {
		n.idx[k] = v
	}
	return n
}

type PC struct {
	t      *Term
	parent *PC
	depth  int
}

type Obs struct {
	label  string
	val    ObsVal
	parent *Obs
	n      int
}

// ObsVal is an observed value as terms.
type ObsVal struct {
	kind  string // int, uint, bool, bytes, runes, string, err
	terms []*Term
	str   string
}

type State struct {
	heap  map[int]*Obj
	own   *own
	pc    *PC
	model Model
	known map[int32]bool
	names map[string]int
	obs   *Obs
	locks []string
	steps int

	phase     int  // which of two concurrent calls is running (0: none)
	sharedMax int  // objects up to this number are shared between the concurrent calls
	atomic    bool // inside an atomic access
	acc       *access
	recovered *panicState
	parG      *Func    // the other concurrent call, not yet started
	held      []string // locks held by the suspended call
	switched  bool     // the second call ran inside the first
	tag       uint64   // which choices were taken; paths that differ are not merged
}

func (st *State) fork() *State {
	n := &State{heap: make(map[int]*Obj, len(st.heap)+8), pc: st.pc, model: st.model, obs: st.obs, steps: st.steps}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.own = &own{}
	st.own = &own{}
	n.known = st.known // copy-on-write: setKnown always copies
	n.names = st.names
	n.locks = st.locks
	n.tag = st.tag
	n.parG, n.held, n.switched = st.parG, st.held, st.switched
	n.phase, n.sharedMax, n.atomic, n.acc, n.recovered = st.phase, st.sharedMax, st.atomic, st.acc, st.recovered
	return n
}

func (st *State) setKnown(id int32, v bool) {
	m := make(map[int32]bool, len(st.known)+1)
	for k, x := range st.known {
		m[k] = x
	}
	m[id] = v
	st.known = m
}

func (st *State) assume(t *Term) {
	if t.op == OConst {
		return
	}
	d := 0
	if st.pc != nil {
		d = st.pc.depth
	}
	st.pc = &PC{t, st.pc, d + 1}
}

func (E *Eng) obj(st *State, id int) *Obj {
	o, ok := st.heap[id]
	if !ok {
		o, ok = E.base[id]
	}
	if ok {
		if st.phase != 0 {
			E.noteAccess(st, id, o, false)
		}
		if o.virt != nil && o.cells == nil {
			E.fillVirt(st, o)
		}
		return o
	}
	panic(unsup{fmt.Sprint("dangling object ", id)})
}

// wobj returns a version of the object that st may write.
func (E *Eng) wobj(st *State, id int) *Obj {
	o, ok := st.heap[id]
	if !ok {
		o, ok = E.base[id]
		if !ok {
			panic(unsup{fmt.Sprint("dangling object ", id)})
		}
	}
	if st.phase != 0 {
		E.noteAccess(st, id, o, true)
	}
	if o.owner == st.own {
		return o
	}
	if o.virt != nil {
		panic(unsup{"write through a pointer read at a symbolic index"})
	}
	n := &Obj{owner: st.own, tag: o.tag}
	if o.m != nil {
		n.m = o.m.clone()
	} else {
		n.cells = append(make([]Value, 0, len(o.cells)), o.cells...)
	}
	st.heap[id] = n
	return n
}

func (E *Eng) alloc(st *State, cells []Value, tag string) int {
	E.nextObj++
	st.heap[E.nextObj] = &Obj{cells: cells, owner: st.own, tag: tag}
	return E.nextObj
}

// ---- layout ----

func (E *Eng) ncells(t types.Type) int {
	if n, ok := E.ncache[t]; ok {
		return n
	}
	n := 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += E.ncells(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * E.ncells(u.Elem())
	}
	E.ncache[t] = n
	return n
}

func (E *Eng) fieldOff(t types.Type, idx int) int {
	u := t.Underlying().(*types.Struct)
	n := 0
	for i := 0; i < idx; i++ {
		n += E.ncells(u.Field(i).Type())
	}
	return n
}

func isAggType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (E *Eng) zeroCells(t types.Type, out []Value) []Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = E.zeroCells(u.Field(i).Type(), out)
		}
		return out
	case *types.Array:
		n := int(u.Len())
		if n == 0 {
			return out
		}
		el := E.zeroCells(u.Elem(), nil)
		for i := 0; i < n; i++ {
			out = append(out, el...)
		}
		return out
	}
	return append(out, E.zeroLeaf(t))
}

func (E *Eng) zeroLeaf(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return E.T.False
		case u.Info()&types.IsInteger != 0:
			return E.T.Const(0, width(u))
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Info()&types.IsFloat != 0:
			return Float(0)
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return nil
		}
		return Opaque{u.String()}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return MapRef{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Func)(nil)
	case *types.Chan:
		return Opaque{"chan"}
	case *types.TypeParam:
		panic(unsup{"type parameter"})
	}
	panic(unsup{"zero of " + t.String()})
}

func (E *Eng) zero(t types.Type) Value {
	if isAggType(t) {
		return &Agg{E.zeroCells(t, nil)}
	}
	if tt, ok := t.(*types.Tuple); ok {
		r := make(Tuple, tt.Len())
		for i := range r {
			r[i] = E.zero(tt.At(i).Type())
		}
		return r
	}
	return E.zeroLeaf(t)
}

func width(b *types.Basic) uint8 {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Bool, types.UntypedBool:
		return 0
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func cellsOf(v Value) []Value {
	if a, ok := v.(*Agg); ok {
		return a.cells
	}
	return []Value{v}
}

// fromCells packs cells into a register value of type t.
func fromCells(c []Value, t types.Type) Value {
	if isAggType(t) {
		return &Agg{append([]Value(nil), c...)}
	}
	return c[0]
}

// load reads a value of type t. It may request a fork.
func (E *Eng) load(st *State, p Ptr, t types.Type) Value {
	if p.obj == 0 {
		panic(goPanic{"invalid memory address or nil pointer dereference"})
	}
	n := E.ncells(t)
	if b, ok := E.base[p.obj]; ok && b.virt != nil {
		if !E.current(st, b.virt) {
			return E.load(st, E.target(st, b.virt, p), t)
		}
		out := make([]Value, n)
		for j := range out {
			out[j] = E.loadVirt(st, b.virt, p, j, t)
		}
		if isAggType(t) {
			return &Agg{out}
		}
		return out[0]
	}
	o := E.obj(st, p.obj)
	if p.idx == nil {
		if p.off+n > len(o.cells) {
			panic(unsup{fmt.Sprintf("load of %s beyond object %s", t, o.tag)})
		}
		return fromCells(o.cells[p.off:p.off+n], t)
	}
	out := make([]Value, n)
	for j := 0; j < n; j++ {
		v, ok := E.muxRead(st, o, p, j)
		if !ok {
			v = E.muxVals(st, p.idx, p.n, func(i int) Value { return o.cells[p.off+i*p.stride+j] }, E.leafType(t, j))
		}
		out[j] = v
	}
	if isAggType(t) {
		return &Agg{out}
	}
	return out[0]
}

// muxRead reads cell j of a symbolically indexed element.
func (E *Eng) muxRead(st *State, o *Obj, p Ptr, j int) (Value, bool) {
	if b, ok := E.base[p.obj]; !ok || b != o {
		return E.muxRead1(st, o, p, j, E.idxRng(st, p.idx))
	}
	// objects of the initial state never change
	r := E.idxRng(st, p.idx)
	k := muxKey{o, p.off, p.stride, p.n, j, p.idx.id, r.lo, r.hi}
	if v, ok := E.muxes[k]; ok {
		return v.v, v.ok
	}
	v, ok := E.muxRead1(st, o, p, j, r)
	if len(E.muxes) > 200000 {
		E.muxes = map[muxKey]muxVal{}
	}
	E.muxes[k] = muxVal{v, ok}
	return v, ok
}

type muxKey struct {
	o              *Obj
	off, stride, n int
	j              int
	idx            int32
	lo, hi         uint64
}

type muxVal struct {
	v  Value
	ok bool
}

func (E *Eng) idxRng(st *State, idx *Term) rng {
	r := E.termRng(st, idx, map[*Term]rng{})
	if r.empty {
		r = fullRng(idx.w)
	}
	return r
}

func (E *Eng) muxRead1(st *State, o *Obj, p Ptr, j int, r rng) (Value, bool) {
	at := func(i int) Value { return o.cells[p.off+i*p.stride+j] }
	first := at(0)
	same := true
	allTerm := true
	for i := 0; i < p.n; i++ {
		v := at(i)
		if _, ok := v.(*Term); !ok {
			allTerm = false
		}
		if same && !identical(v, first) {
			same = false
		}
		if !same && !allTerm {
			return nil, false
		}
	}
	if same {
		return first, true
	}
	T := E.T
	if p.idx.tree {
		r := T.MapLeaves(p.idx, func(k uint64) *Term {
			if k >= uint64(p.n) {
				return nil
			}
			return at(int(k)).(*Term)
		})
		return r, true
	}
	// tree over idx; positions that the path excludes may read anything
	var ps plist
	hi := p.n - 1
	if r.hi < uint64(hi) {
		hi = int(r.hi)
	}
	lo := 0
	if r.lo < uint64(p.n) {
		lo = int(r.lo)
	}
	for i := lo; i <= hi; i++ {
		ps.emit(uint64(i), at(i).(*Term))
	}
	if len(ps.out) == 0 {
		return first, true
	}
	ps.out[len(ps.out)-1].hi = mask(p.idx.w)
	if r := T.read(p.idx, ps.out); r != nil {
		return r, true
	}
	return nil, false
}

func identical(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case Str:
		y, ok := b.(Str)
		if !ok || x.Len() != y.Len() || (x.b == nil) != (y.b == nil) {
			return false
		}
		if x.b == nil {
			return x.c == y.c
		}
		for i := range x.b {
			if x.b[i] != y.b[i] {
				return false
			}
		}
		return true
	case Slice, Ptr, MapRef, Float, Opaque, Iter:
		return a == b
	case *Func:
		y, ok := b.(*Func)
		if !ok || (x == nil) != (y == nil) {
			return false
		}
		if x == nil || x == y {
			return true
		}
		if x.native != nil || y.native != nil || x.fn != y.fn || x.bi != y.bi || len(x.bind) != len(y.bind) {
			return false
		}
		for i := range x.bind {
			if !identical(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case Iface:
		y, ok := b.(Iface)
		if !ok || (x.t == nil) != (y.t == nil) {
			return false
		}
		return x.t == nil || (types.Identical(x.t, y.t) && identical(x.v, y.v))
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.cells) != len(y.cells) {
			return false
		}
		for i := range x.cells {
			if !identical(x.cells[i], y.cells[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !identical(x[i], y[i]) {
				return false
			}
		}
		return true
	case nil:
		return b == nil
	}
	return false
}

func (E *Eng) store(st *State, p Ptr, v Value) {
	if p.obj == 0 {
		panic(goPanic{"invalid memory address or nil pointer dereference"})
	}
	cs := cellsOf(v)
	if b, ok := E.base[p.obj]; ok && b.virt != nil {
		p = E.target(st, b.virt, p)
	}
	if p.idx == nil {
		o := E.wobj(st, p.obj)
		if p.off+len(cs) > len(o.cells) {
			panic(unsup{"store beyond object " + o.tag})
		}
		copy(o.cells[p.off:], cs)
		return
	}
	ok := true
	ro := E.obj(st, p.obj)
	for j := range cs {
		if _, t := cs[j].(*Term); !t {
			ok = false
		}
		for i := 0; i < p.n && ok; i++ {
			if _, t := ro.cells[p.off+i*p.stride+j].(*Term); !t {
				ok = false
			}
		}
	}
	if !ok || p.n > 5000 {
		k := int(E.concretize(st, p.idx))
		o := E.wobj(st, p.obj)
		copy(o.cells[p.off+k*p.stride:], cs)
		return
	}
	o := E.wobj(st, p.obj)
	for i := 0; i < p.n; i++ {
		c := E.T.Eq(p.idx, E.T.Const(uint64(i), 64))
		if c == E.T.False {
			continue
		}
		for j := range cs {
			at := p.off + i*p.stride + j
			o.cells[at] = E.T.Ite(c, cs[j].(*Term), o.cells[at].(*Term))
		}
	}
}

// ---- equality ----

func (E *Eng) valEq(a, b Value) *Term {
	T := E.T
	switch x := a.(type) {
	case *Term:
		return T.Eq(x, b.(*Term))
	case Float:
		return T.Bool(x == b.(Float))
	case Str:
		y := b.(Str)
		if x.Len() != y.Len() {
			return T.False
		}
		if x.b == nil && y.b == nil {
			return T.Bool(x.c == y.c)
		}
		return E.termsEq(E.strBytes(x), E.strBytes(y))
	case Ptr:
		y := b.(Ptr)
		if x != y && (E.isVirt(x.obj) || E.isVirt(y.obj)) {
			return E.virtEq(x, y)
		}
		if x.idx != nil || y.idx != nil {
			if x == y {
				return T.True
			}
			if x.obj != y.obj {
				return T.False
			}
			panic(unsup{"comparison of symbolic pointers"})
		}
		return T.Bool(x == y)
	case Slice:
		y := b.(Slice)
		return T.Bool(x.obj == 0 && y.obj == 0)
	case MapRef:
		return T.Bool(x == b.(MapRef))
	case *Func:
		y := b.(*Func)
		return T.Bool(x == nil && y == nil)
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return T.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return T.False
		}
		switch x.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			panic(goPanic{"comparing uncomparable type " + x.t.String()})
		}
		return E.valEq(x.v, y.v)
	case *Agg:
		y := b.(*Agg)
		r := T.True
		for i := range x.cells {
			r = T.And(r, E.valEq(x.cells[i], y.cells[i]))
		}
		return r
	case Opaque:
		if y, ok := b.(Opaque); ok && x == y {
			return T.True
		}
	}
	panic(unsup{fmt.Sprintf("comparison of %T", a)})
}

func (E *Eng) termsEq(a, b []*Term) *Term {
	r := E.T.True
	for i := range a {
		r = E.T.And(r, E.T.Eq(a[i], b[i]))
		if r == E.T.False {
			return r
		}
	}
	return r
}

// constKey renders a fully concrete map key; "" if it has symbolic parts.
func constKey(v Value) string {
	switch x := v.(type) {
	case *Term:
		if x.op == OConst {
			return fmt.Sprintf("i%d", x.k)
		}
		return ""
	case Str:
		if x.b == nil {
			return "s" + x.c
		}
		return ""
	case Ptr:
		if x.idx == nil {
			return fmt.Sprintf("p%d.%d", x.obj, x.off)
		}
		return ""
	case Float:
		return fmt.Sprintf("f%v", float64(x))
	case Iface:
		if x.t == nil {
			return "nil"
		}
		k := constKey(x.v)
		if k == "" {
			return ""
		}
		return "I" + x.t.String() + ":" + k
	case *Agg:
		var b strings.Builder
		b.WriteString("A")
		for _, c := range x.cells {
			k := constKey(c)
			if k == "" {
				return ""
			}
			fmt.Fprintf(&b, "%d:%s", len(k), k)
		}
		return b.String()
	}
	panic(unsup{fmt.Sprintf("map key %T", v)})
}
