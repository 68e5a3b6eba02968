package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- state merging ----

type merger struct {
	E      *Eng
	g      *Term // condition of the first state, relative to the common ancestor
	x, y   *State
	a2b    map[int]int // objects private to x -> objects private to y
	b2a    map[int]int
	queue  [][2]int
	merged map[int]*Obj
	own    *own
}

func pcDepth(p *PC) int {
	if p == nil {
		return 0
	}
	return p.depth
}

// ancestor returns the common part of two path conditions and the two rests.
func ancestor(a, b *PC) (c *PC, ra, rb []*Term) {
	for pcDepth(a) > pcDepth(b) {
		ra = append(ra, a.t)
		a = a.parent
	}
	for pcDepth(b) > pcDepth(a) {
		rb = append(rb, b.t)
		b = b.parent
	}
	for a != b {
		ra = append(ra, a.t)
		rb = append(rb, b.t)
		a, b = a.parent, b.parent
	}
	return a, ra, rb
}

func (E *Eng) conj(ts []*Term) *Term {
	r := E.T.True
	for i := len(ts) - 1; i >= 0; i-- {
		r = E.T.And(r, ts[i])
	}
	return r
}

func (m *merger) isBase(id int) bool { _, ok := m.E.base[id]; return ok }

func (m *merger) unify(a, b int) (int, bool) {
	if a == b {
		return a, true
	}
	if a == 0 || b == 0 || m.isBase(a) || m.isBase(b) {
		return 0, false
	}
	if y, ok := m.a2b[a]; ok {
		return a, y == b
	}
	if _, ok := m.b2a[b]; ok {
		return 0, false
	}
	if _, ok := m.y.heap[a]; ok {
		return 0, false
	}
	if _, ok := m.x.heap[b]; ok {
		return 0, false
	}
	m.a2b[a] = b
	m.b2a[b] = a
	m.queue = append(m.queue, [2]int{a, b})
	return a, true
}

func (m *merger) val(a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w {
			return nil, false
		}
		if x == y {
			return x, true
		}
		return m.E.T.Ite(m.g, x, y), true
	case Str:
		y, ok := b.(Str)
		if !ok || x.Len() != y.Len() {
			return nil, false
		}
		if identical(a, b) {
			return a, true
		}
		p, q := m.E.strBytes(x), m.E.strBytes(y)
		r := make([]*Term, len(p))
		for i := range p {
			r[i] = m.E.T.Ite(m.g, p[i], q[i])
		}
		return m.E.mkStr(r), true
	case Slice:
		y, ok := b.(Slice)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x.off != y.off || x.len != y.len || x.cap != y.cap {
			return nil, false
		}
		o, ok := m.unify(x.obj, y.obj)
		x.obj = o
		return x, ok
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x.off != y.off || x.idx != y.idx || x.stride != y.stride || x.n != y.n {
			return nil, false
		}
		o, ok := m.unify(x.obj, y.obj)
		x.obj = o
		return x, ok
	case MapRef:
		y, ok := b.(MapRef)
		if !ok {
			return nil, false
		}
		o, ok := m.unify(x.obj, y.obj)
		return MapRef{o}, ok
	case Iter:
		y, ok := b.(Iter)
		if !ok {
			return nil, false
		}
		o, ok := m.unify(x.obj, y.obj)
		return Iter{o}, ok
	case Iface:
		y, ok := b.(Iface)
		if !ok || (x.t == nil) != (y.t == nil) {
			return nil, false
		}
		if x.t == nil {
			return x, true
		}
		if !types.Identical(x.t, y.t) {
			return nil, false
		}
		v, ok := m.val(x.v, y.v)
		return Iface{x.t, v}, ok
	case *Func:
		y, ok := b.(*Func)
		if !ok {
			return nil, false
		}
		if identical(x, y) {
			return x, true
		}
		if x == nil || y == nil || x.fn == nil || x.fn != y.fn || x.native != nil || y.native != nil || len(x.bind) != len(y.bind) {
			return nil, false
		}
		n := &Func{fn: x.fn, bind: make([]Value, len(x.bind))}
		for i := range x.bind {
			if n.bind[i], ok = m.val(x.bind[i], y.bind[i]); !ok {
				return nil, false
			}
		}
		return n, true
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.cells) != len(y.cells) {
			return nil, false
		}
		if x == y {
			return x, true
		}
		n := &Agg{make([]Value, len(x.cells))}
		for i := range x.cells {
			if n.cells[i], ok = m.val(x.cells[i], y.cells[i]); !ok {
				return nil, false
			}
		}
		return n, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		n := make(Tuple, len(x))
		for i := range x {
			if n[i], ok = m.val(x[i], y[i]); !ok {
				return nil, false
			}
		}
		return n, true
	}
	return a, identical(a, b)
}

func (m *merger) obj(p, q *Obj) (*Obj, bool) {
	if p == q {
		return p, true
	}
	if (p.m == nil) != (q.m == nil) {
		return nil, false
	}
	if p.m != nil {
		if len(p.m.keys) != len(q.m.keys) {
			return nil, false
		}
		n := p.m.clone()
		for i := range n.keys {
			if !identical(p.m.keys[i], q.m.keys[i]) || (p.m.vals[i] == nil) != (q.m.vals[i] == nil) {
				return nil, false
			}
			if n.vals[i] == nil {
				continue
			}
			v, ok := m.val(p.m.vals[i], q.m.vals[i])
			if !ok {
				return nil, false
			}
			n.vals[i] = v
		}
		return &Obj{m: n, owner: m.own, tag: p.tag}, true
	}
	if len(p.cells) != len(q.cells) {
		return nil, false
	}
	c := make([]Value, len(p.cells))
	for i := range c {
		v, ok := m.val(p.cells[i], q.cells[i])
		if !ok {
			return nil, false
		}
		c[i] = v
	}
	return &Obj{cells: c, owner: m.own, tag: p.tag}, true
}

// reach computes the objects of st reachable from the given roots and the frame stack.
func (E *Eng) reach(st *State, roots []Value) map[int]bool {
	seen := map[int]bool{}
	var q []int
	var add func(v Value)
	push := func(id int) {
		if id != 0 && !seen[id] {
			seen[id] = true
			q = append(q, id)
		}
	}
	add = func(v Value) {
		switch x := v.(type) {
		case Slice:
			push(x.obj)
		case Ptr:
			push(x.obj)
		case MapRef:
			push(x.obj)
		case Iter:
			push(x.obj)
		case Iface:
			if x.t != nil {
				add(x.v)
			}
		case *Func:
			if x != nil {
				for _, b := range x.bind {
					add(b)
				}
			}
		case *Agg:
			for _, c := range x.cells {
				if _, ok := c.(*Term); !ok {
					add(c)
				}
			}
		case Tuple:
			for _, c := range x {
				add(c)
			}
		}
	}
	frame := func(f *Frame) {
		for _, r := range f.regs {
			add(r)
		}
		for _, d := range f.defers {
			add(d.fn)
			for _, a := range d.args {
				add(a)
			}
		}
	}
	for _, r := range roots {
		add(r)
	}
	for _, f := range E.stack {
		frame(f)
	}
	for id := range st.heap {
		if _, ok := E.base[id]; ok {
			push(id)
		}
	}
	for len(q) > 0 {
		id := q[0]
		q = q[1:]
		o, ok := st.heap[id]
		if !ok {
			continue
		}
		if o.m != nil {
			for i, k := range o.m.keys {
				add(k)
				if o.m.vals[i] != nil {
					add(o.m.vals[i])
				}
			}
			continue
		}
		for _, c := range o.cells {
			if _, ok := c.(*Term); !ok {
				add(c)
			}
		}
	}
	return seen
}

func sameNames(a, b map[string]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// merge tries to join states x and y whose live values are vx and vy (same shape).
func (E *Eng) merge(x, y *State, vx, vy []Value) (*State, []Value, bool) {
	if x.tag != y.tag || x.parG != y.parG || x.switched != y.switched || len(x.held) != len(y.held) || x.obs != y.obs || x.phase != y.phase || x.atomic != y.atomic || x.sharedMax != y.sharedMax || x.recovered != y.recovered || len(x.locks) != len(y.locks) || !sameNames(x.names, y.names) {
		return nil, nil, false
	}
	for i := range x.locks {
		if x.locks[i] != y.locks[i] {
			return nil, nil, false
		}
	}
	anc, rx, ry := ancestor(x.pc, y.pc)
	gx, gy := E.conj(rx), E.conj(ry)
	m := &merger{E: E, g: gx, x: x, y: y, a2b: map[int]int{}, b2a: map[int]int{}, own: &own{}}
	out := make([]Value, len(vx))
	for i := range vx {
		v, ok := m.val(vx[i], vy[i])
		if !ok {
			return nil, nil, false
		}
		out[i] = v
	}
	n := &State{own: m.own, tag: x.tag, parG: x.parG, held: x.held, switched: x.switched, obs: x.obs, phase: x.phase, sharedMax: x.sharedMax, recovered: x.recovered, atomic: x.atomic, names: x.names, locks: x.locks, steps: x.steps, model: x.model}
	if y.steps > n.steps {
		n.steps = y.steps
	}
	n.acc = x.acc
	if x.acc != y.acc {
		for a := y.acc; a != nil; a = a.parent {
			c := *a
			c.parent = n.acc
			n.acc = &c
		}
	}
	n.heap = make(map[int]*Obj, len(x.heap)+4)
	var rxs, rys map[int]bool
	dead := func(id int) bool {
		if rxs == nil {
			rxs, rys = E.reach(x, vx), E.reach(y, vy)
		}
		return !rxs[id] && !rys[id]
	}
	handle := func(id int, p, q *Obj) bool {
		if p == q {
			n.heap[id] = p
			return true
		}
		nq := len(m.queue)
		o, ok := m.obj(p, q)
		if ok {
			n.heap[id] = o
			return true
		}
		if m.isBase(id) || !dead(id) {
			return false
		}
		// garbage: forget what it asked to unify
		for _, pr := range m.queue[nq:] {
			delete(m.a2b, pr[0])
			delete(m.b2a, pr[1])
		}
		m.queue = m.queue[:nq]
		return true
	}
	for id, p := range x.heap {
		q, ok := y.heap[id]
		if !ok {
			q, ok = E.base[id]
			if !ok {
				continue // private to x: kept below if it was unified
			}
		}
		if !handle(id, p, q) {
			return nil, nil, false
		}
	}
	for id, q := range y.heap {
		if _, ok := x.heap[id]; ok {
			continue
		}
		if p, ok := E.base[id]; ok {
			if !handle(id, p, q) {
				return nil, nil, false
			}
		}
	}
	for len(m.queue) > 0 {
		pr := m.queue[0]
		m.queue = m.queue[1:]
		p, ok1 := x.heap[pr[0]]
		q, ok2 := y.heap[pr[1]]
		if !ok1 || !ok2 {
			return nil, nil, false
		}
		o, ok := m.obj(p, q)
		if !ok {
			return nil, nil, false
		}
		n.heap[pr[0]] = o
	}
	// fresh owner: objects taken over unchanged from x or y belong to them
	x.own, y.own = &own{}, &own{}
	n.pc = anc
	n.assume(E.T.Or(gx, gy))
	n.known = map[int32]bool{}
	for k, v := range x.known {
		if w, ok := y.known[k]; ok && w == v {
			n.known[k] = v
		}
	}
	return n, out, true
}

// mergeStops joins exits waiting at block b.
func (E *Eng) mergeStops(ex []Exit, b *ssa.BasicBlock) []Exit {
	var out []Exit
next:
	for _, x := range ex {
		live := x.fr.info.live[b.Index]
		gather := func(f *Frame) (vals []Value) {
			n := nphis(b)
			for i := 0; i < n; i++ {
				vals = append(vals, f.regs[f.info.idx[b.Instrs[i].(*ssa.Phi)]])
			}
			for i, l := range live {
				if l {
					vals = append(vals, f.regs[i])
				}
			}
			return
		}
		for k := range out {
			o := &out[k]
			if !sameDefers(o.fr, x.fr) {
				continue
			}
			st, vals, ok := E.merge(o.st, x.st, gather(o.fr), gather(x.fr))
			if !ok {
				E.MergeFails++
				continue
			}
			E.Merges++
			f := o.fr.copy()
			for i := range f.regs {
				f.regs[i] = nil
			}
			j := 0
			n := nphis(b)
			for i := 0; i < n; i++ {
				f.regs[f.info.idx[b.Instrs[i].(*ssa.Phi)]] = vals[j]
				j++
			}
			for i, l := range live {
				if l {
					f.regs[i] = vals[j]
					j++
				}
			}
			out[k] = Exit{kind: xStop, st: st, fr: f}
			continue next
		}
		out = append(out, x)
	}
	return out
}

func sameDefers(a, b *Frame) bool {
	if len(a.defers) != len(b.defers) || a.pan != b.pan || a.caller != b.caller {
		return false
	}
	for i := range a.defers {
		p, q := a.defers[i], b.defers[i]
		if !identical(p.fn, q.fn) || len(p.args) != len(q.args) {
			return false
		}
		for j := range p.args {
			if !identical(p.args[j], q.args[j]) {
				return false
			}
		}
	}
	return true
}

// keepApart: results with several components whose constant integers differ (sizes, counts)
// stay on separate paths, so that later slicing sees constants.
func keepApart(a, b Value) bool {
	x, ok1 := a.(Tuple)
	y, ok2 := b.(Tuple)
	if !ok1 || !ok2 || len(x) != len(y) {
		return false
	}
	for i := range x {
		p, ok1 := x[i].(*Term)
		q, ok2 := y[i].(*Term)
		if ok1 && ok2 && p.w == 64 && p.op == OConst && q.op == OConst && p != q {
			return true
		}
	}
	return false
}

// mergeRets joins the normal returns of a call.
func (E *Eng) mergeRets(ex []Exit) []Exit {
	if E.noMerge {
		return ex
	}
	n := 0
	for _, x := range ex {
		if x.kind == xRet {
			n++
		}
	}
	if n < 2 {
		return ex
	}
	var out []Exit
next:
	for _, x := range ex {
		if x.kind == xRet {
			for k := range out {
				o := &out[k]
				if o.kind != xRet || keepApart(o.val, x.val) {
					continue
				}
				st, vals, ok := E.merge(o.st, x.st, []Value{o.val}, []Value{x.val})
				if !ok {
					E.MergeFails++
					continue
				}
				E.Merges++
				out[k] = Exit{kind: xRet, st: st, val: vals[0]}
				continue next
			}
		}
		out = append(out, x)
	}
	return out
}
