package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Reads at a symbolic index whose elements are no plain terms: pointers, slices, strings.
//
// The elements are grouped by shape (nil or not, lengths); the path forks on the group, and
// within a group the read is one value: a string of trees, or a pointer or slice to a virtual
// object that stands for "the target selected by sel". Targets are objects of the initial
// state that this path has not changed, so that the virtual object can share their cells.

type virt struct {
	sel *Term // 64 bits, an index into tgt
	tgt []Ptr
	m   int // cells of each target
}

// leafType is the type of cell j of a value of type t.
func (E *Eng) leafType(t types.Type, j int) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			n := E.ncells(u.Field(i).Type())
			if j < n {
				return E.leafType(u.Field(i).Type(), j)
			}
			j -= n
		}
	case *types.Array:
		n := E.ncells(u.Elem())
		return E.leafType(u.Elem(), j%n)
	}
	return t
}

// constant reports whether object id is as the initial state has it.
func (E *Eng) constant(st *State, id int) (*Obj, bool) {
	b, ok := E.base[id]
	if o, over := st.heap[id]; over && o != b {
		return nil, false
	}
	return b, ok && b.m == nil
}

// mkVirt returns the object for the m cells at the target that sel selects.
func (E *Eng) mkVirt(st *State, sel *Term, tgt []Ptr, m int) (int, bool) {
	if len(tgt)*m > 1<<21 {
		return 0, false
	}
	var b strings.Builder
	fmt.Fprint(&b, sel.id, " ", m)
	for _, p := range tgt {
		o, ok := E.constant(st, p.obj)
		if !ok || o.virt != nil || p.idx != nil || p.off+m > len(o.cells) {
			return 0, false
		}
		fmt.Fprint(&b, " ", p.obj, ".", p.off)
	}
	if id, ok := E.virts[b.String()]; ok {
		return id, true
	}
	E.nextObj++
	E.base[E.nextObj] = &Obj{virt: &virt{sel, tgt, m}, tag: "virtual"}
	if E.virts == nil {
		E.virts = map[string]int{}
	}
	E.virts[b.String()] = E.nextObj
	return E.nextObj, true
}

// target replaces a pointer to a virtual object by one to its target on this path.
func (E *Eng) target(st *State, v *virt, p Ptr) Ptr {
	t := v.tgt[E.concretize(st, v.sel)]
	p.obj = t.obj
	p.off += t.off
	return p
}

// current reports whether no target has changed, and notes the accesses.
func (E *Eng) current(st *State, v *virt) bool {
	last := 0
	for _, t := range v.tgt {
		if t.obj == last {
			continue
		}
		last = t.obj
		E.obj(st, t.obj)
		if _, ok := E.constant(st, t.obj); !ok {
			return false
		}
	}
	return true
}

// fill gives a virtual object its cells, for code that reads them one by one.
func (E *Eng) fillVirt(st *State, o *Obj) {
	v := o.virt
	if !E.current(st, v) {
		panic(unsup{"a table changed after it was read"})
	}
	cells := make([]Value, v.m)
	for c := range cells {
		x, ok := E.muxTerms(nil, v.sel, len(v.tgt), func(k int) Value { return E.base[v.tgt[k].obj].cells[v.tgt[k].off+c] }, nil)
		if !ok {
			panic(unsup{"a copy of table elements that are no scalars"})
		}
		cells[c] = x
	}
	o.cells = cells
}

// loadVirt reads cell j of an element of type t in a virtual object.
func (E *Eng) loadVirt(st *State, v *virt, p Ptr, j int, t types.Type) Value {
	cell := func(k, i int) Value {
		return E.base[v.tgt[k].obj].cells[v.tgt[k].off+p.off+i*p.stride+j]
	}
	if p.idx == nil {
		return E.muxVals(st, v.sel, len(v.tgt), func(k int) Value { return cell(k, 0) }, E.leafType(t, j))
	}
	n := uint64(p.n)
	for k := range v.tgt {
		for i := 0; i < p.n; i++ {
			if _, ok := cell(k, i).(*Term); !ok {
				k := int(E.concretize(st, v.sel))
				return E.muxVals(st, p.idx, p.n, func(i int) Value { return cell(k, i) }, E.leafType(t, j))
			}
		}
	}
	T := E.T
	if v.sel.op == OIte || p.idx.op == OIte {
		flat := T.Add(T.Mul(v.sel, T.Const(n, 64)), p.idx)
		if r, ok := E.muxTerms(st, flat, len(v.tgt)*p.n, func(x int) Value { return cell(x/p.n, x%p.n) }, nil); ok {
			return r
		}
	}
	if r, ok := E.muxTerms(st, v.sel, len(v.tgt), func(k int) Value {
		r, ok := E.muxTerms(st, p.idx, p.n, func(i int) Value { return cell(k, i) }, nil)
		if !ok {
			return nil
		}
		return r
	}, nil); ok {
		return r
	}
	k := int(E.concretize(st, v.sel))
	return E.muxVals(st, p.idx, p.n, func(i int) Value { return cell(k, i) }, E.leafType(t, j))
}

// muxTerms is the tree of n terms over idx; with in, the others may be anything.
func (E *Eng) muxTerms(st *State, idx *Term, n int, at func(int) Value, in func(int) bool) (*Term, bool) {
	T := E.T
	if in == nil {
		in = func(int) bool { return true }
	}
	if idx.op == OConst {
		r, ok := at(int(idx.k)).(*Term)
		return r, ok
	}
	memo := map[int]*Term{}
	get := func(i int) *Term {
		if r, ok := memo[i]; ok {
			return r
		}
		r, _ := at(i).(*Term)
		memo[i] = r
		return r
	}
	if idx.tree {
		bad := false
		r := T.MapLeaves(idx, func(k uint64) *Term {
			if k >= uint64(n) || !in(int(k)) {
				return nil
			}
			t := get(int(k))
			if t == nil {
				bad = true
			}
			return t
		})
		return r, r != nil && !bad
	}
	r := fullRng(idx.w)
	if st != nil { // else for all paths
		r = E.idxRng(st, idx)
	}
	var ps plist
	var any *Term
	for i := 0; i < n; i++ {
		if uint64(i) < r.lo || uint64(i) > r.hi || !in(i) {
			continue
		}
		t := get(i)
		if t == nil {
			return nil, false
		}
		if any == nil {
			any = t
		}
		ps.emit(uint64(i), t) // what is left out belongs to the next one
	}
	if any == nil {
		return nil, false
	}
	ps.out[len(ps.out)-1].hi = mask(idx.w)
	x := T.read(idx, ps.out)
	return x, x != nil
}

// shape is the group of a value.
func shape(v Value) string {
	switch x := v.(type) {
	case *Term:
		return "t"
	case Str:
		return fmt.Sprint("s", x.Len())
	case Ptr:
		if x.obj == 0 {
			return "nil"
		}
		return "p"
	case Slice:
		if x.obj == 0 {
			return "nil"
		}
		return fmt.Sprint("l", x.len, ".", x.cap)
	}
	return ""
}

// muxVals reads one of n values of type t at idx, forking where the values cannot be one.
func (E *Eng) muxVals(st *State, idx *Term, n int, at func(int) Value, t types.Type) Value {
	k := int(E.T.Eval(idx, st.model))
	if k >= n {
		panic(unsup{"read beyond a table"})
	}
	g := shape(at(k))
	if g == "" {
		return at(int(E.concretize(st, idx)))
	}
	T := E.T
	in := func(i int) bool { return shape(at(i)) == g }
	member, ok := E.muxTerms(st, idx, n, func(i int) Value { return T.Bool(in(i)) }, nil)
	if !ok {
		return at(int(E.concretize(st, idx)))
	}
	if !E.must(st, member) {
		panic(unsup{"table read: model contradicts known conditions"})
	}
	switch x := at(k).(type) {
	case *Term:
		if r, ok := E.muxTerms(st, idx, n, at, in); ok {
			return r
		}
	case Str:
		b := make([]*Term, x.Len())
		for c := range b {
			r, ok := E.muxTerms(st, idx, n, func(i int) Value {
				s := at(i).(Str)
				if s.b != nil {
					return s.b[c]
				}
				return T.Const(uint64(s.c[c]), 8)
			}, in)
			if !ok {
				return at(int(E.concretize(st, idx)))
			}
			b[c] = r
		}
		if len(b) == 0 {
			return Str{}
		}
		return E.mkStr(b)
	case Ptr, Slice:
		if g == "nil" {
			return x
		}
		var el types.Type
		m := 1
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			el = u.Elem()
		case *types.Slice:
			el = u.Elem()
			m = x.(Slice).cap
		default: // unsafe.Pointer and the like
			return at(int(E.concretize(st, idx)))
		}
		m *= E.ncells(el)
		no := map[Ptr]int{}
		var tgt []Ptr
		sel, ok := E.muxTerms(st, idx, n, func(i int) Value {
			var p Ptr
			switch y := at(i).(type) {
			case Ptr:
				p = y
			case Slice:
				p = Ptr{obj: y.obj, off: y.off}
			}
			c, ok := no[p]
			if !ok {
				c = len(tgt)
				no[p] = c
				tgt = append(tgt, p)
			}
			return T.Const(uint64(c), 64)
		}, in)
		if !ok {
			break
		}
		if len(tgt) == 1 {
			return x
		}
		id, ok := E.mkVirt(st, sel, tgt, m)
		if !ok {
			break
		}
		if s, ok := x.(Slice); ok {
			return Slice{obj: id, len: s.len, cap: s.cap}
		}
		return Ptr{obj: id}
	}
	return at(int(E.concretize(st, idx)))
}

// elemPtr is &p[idx] for an array of n elements of sz cells at a symbolic address p.
func (E *Eng) elemPtr(st *State, y Ptr, idx *Term, sz, n int) Ptr {
	T := E.T
	if idx.op == OConst {
		return Ptr{obj: y.obj, off: y.off + int(idx.k)*sz, idx: y.idx, stride: y.stride, n: y.n}
	}
	if y.stride == n*sz {
		if y.idx.op == OIte || idx.op == OIte {
			return Ptr{obj: y.obj, off: y.off, idx: T.Add(T.Mul(y.idx, T.Const(uint64(n), 64)), idx), stride: sz, n: y.n * n}
		}
		if n&(n-1) == 0 && n > 1 {
			w := uint8(0)
			for 1<<w < n {
				w++
			}
			hi := y.idx
			for hi.op == OZext {
				hi = hi.a
			}
			if hi.w+w <= 63 {
				return Ptr{obj: y.obj, off: y.off, idx: T.Zext(T.Concat(hi, T.Extract(idx, w-1, 0)), 64), stride: sz, n: y.n * n}
			}
		}
	}
	tgt := make([]Ptr, y.n)
	for k := range tgt {
		tgt[k] = Ptr{obj: y.obj, off: y.off + k*y.stride}
	}
	if id, ok := E.mkVirt(st, y.idx, tgt, n*sz); ok {
		return Ptr{obj: id, idx: idx, stride: sz, n: n}
	}
	k := int(E.concretize(st, y.idx))
	return Ptr{obj: y.obj, off: y.off + k*y.stride, idx: idx, stride: sz, n: n}
}

func (E *Eng) isVirt(id int) bool {
	o, ok := E.base[id]
	return ok && o.virt != nil
}

// virtEq compares pointers at least one of which is virtual.
func (E *Eng) virtEq(x, y Ptr) *Term {
	T := E.T
	if x.obj == 0 || y.obj == 0 {
		return T.False
	}
	if x.idx != nil || y.idx != nil {
		panic(unsup{"comparison of symbolic pointers"})
	}
	alts := func(p Ptr) ([]Ptr, *Term) {
		if !E.isVirt(p.obj) {
			return []Ptr{p}, T.Const(0, 64)
		}
		v := E.base[p.obj].virt
		var out []Ptr
		for _, t := range v.tgt {
			out = append(out, Ptr{obj: t.obj, off: t.off + p.off})
		}
		return out, v.sel
	}
	xs, xi := alts(x)
	ys, yi := alts(y)
	r := T.False
	for i, a := range xs {
		for j, b := range ys {
			if a == b {
				r = T.Or(r, T.And(T.Eq(xi, T.Const(uint64(i), 64)), T.Eq(yi, T.Const(uint64(j), 64))))
			}
		}
	}
	return r
}

// keyView is the map with its array or string keys of the form of k as integers, and k as one.
func (E *Eng) keyView(md *MapData, k Value) (*Term, *MapData) {
	flat := func(v Value) (*Term, string) {
		var ts []*Term
		tag := "a"
		switch x := v.(type) {
		case Str:
			ts = E.strBytes(x)
			tag = fmt.Sprint("s", len(ts))
		case *Agg:
			for _, c := range x.cells {
				t, ok := c.(*Term)
				if !ok || t.w == 0 {
					return nil, ""
				}
				ts = append(ts, t)
			}
		default:
			return nil, ""
		}
		w := 0
		for _, t := range ts {
			w += int(t.w)
		}
		if len(ts) == 0 || w > 64 {
			return nil, tag
		}
		r := ts[0]
		for _, t := range ts[1:] {
			r = E.T.Concat(r, t)
		}
		return r, tag
	}
	kt, tag := flat(k)
	if kt == nil {
		return nil, nil
	}
	if v, ok := md.views[tag]; ok {
		return kt, v
	}
	v := &MapData{idx: map[string]int{}}
	for i, x := range md.keys {
		if md.vals[i] == nil {
			continue
		}
		t, g := flat(x)
		if g != tag {
			if g == "" {
				return nil, nil
			}
			continue
		}
		if t.op != OConst {
			return nil, nil
		}
		v.keys = append(v.keys, t)
		v.vals = append(v.vals, md.vals[i])
		v.idx[constKey(t)] = len(v.keys) - 1
		v.count++
	}
	if md.views == nil {
		md.views = map[string]*MapData{}
	}
	md.views[tag] = v
	return kt, v
}
