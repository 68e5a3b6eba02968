package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const symPkg = "verif/harness/sym."

func ret(st *State, v Value) []Exit { return []Exit{{kind: xRet, st: st, val: v}} }

func (E *Eng) pure(f func(st *State, a []Value) Value) intrinsic {
	return func(E *Eng, st *State, fn *Func, args []Value, ps *panicState) []Exit {
		return ret(st, f(st, args))
	}
}

// fresh returns a new symbolic variable for this path.
func (E *Eng) fresh(st *State, name string, w uint8) *Term {
	n := make(map[string]int, len(st.names)+1)
	for k, v := range st.names {
		n[k] = v
	}
	n[name]++
	st.names = n
	return E.T.Var(fmt.Sprintf("%s#%d", name, n[name]), w)
}

func str(v Value) string {
	s := v.(Str)
	if s.b != nil {
		panic(unsup{"symbolic name"})
	}
	return s.c
}

func (E *Eng) observe(st *State, label string, v ObsVal) {
	n := 1
	if st.obs != nil {
		n = st.obs.n + 1
	}
	st.obs = &Obs{label: label, val: v, parent: st.obs, n: n}
}

func (E *Eng) registerIntrinsics() {
	T := E.T
	in := E.intrinsics
	pure := E.pure

	// ---- the harness interface ----
	for n, w := range map[string]uint8{"Byte": 8, "Uint16": 16, "Rune": 32, "Bool": 0, "Int": 64} {
		w := w
		in[symPkg+n] = pure(func(st *State, a []Value) Value { return E.fresh(st, str(a[0]), w) })
	}
	in[symPkg+"Bytes"] = pure(func(st *State, a []Value) Value {
		n := E.concInt(st, a[1])
		cells := make([]Value, n)
		for i := range cells {
			cells[i] = E.fresh(st, str(a[0]), 8)
		}
		return Slice{obj: E.alloc(st, cells, "sym.Bytes"), len: n, cap: n}
	})
	in[symPkg+"Str"] = pure(func(st *State, a []Value) Value {
		n := E.concInt(st, a[1])
		b := make([]*Term, n)
		for i := range b {
			b[i] = E.fresh(st, str(a[0]), 8)
		}
		return E.mkStr(b)
	})
	in[symPkg+"Choose"] = func(E *Eng, st *State, f *Func, a []Value, ps *panicState) []Exit {
		n := E.concInt(st, a[1])
		t := E.fresh(st, str(a[0]), 8)
		var outs []Exit
		st0 := *st
		for i := 0; i < n; i++ {
			s := st
			if i < n-1 {
				s = st.fork()
			}
			s.assume(T.Eq(t, T.Const(uint64(i), 8)))
			m := make(Model, len(st.model)+1)
			for k, v := range st.model {
				m[k] = v
			}
			m[int(t.k)] = uint64(i)
			s.model = m
			s.tag = (st0.tag*1000003+uint64(t.k))*1000003 + uint64(i) + 1
			if i > 0 {
				E.Forks++
			}
			outs = append(outs, Exit{kind: xRet, st: s, val: T.Const(uint64(i), 64)})
		}
		return outs
	}
	in[symPkg+"Part"] = pure(func(st *State, a []Value) Value { return T.Const(uint64(E.part), 64) })
	in[symPkg+"Thorough"] = pure(func(st *State, a []Value) Value { return T.Bool(E.thorough) })
	in[symPkg+"Symbolic"] = pure(func(st *State, a []Value) Value { return T.True })
	in[symPkg+"Assume"] = func(E *Eng, st *State, f *Func, a []Value, ps *panicState) []Exit {
		c := a[0].(*Term)
		ok, m := E.feasible(st, c)
		if !ok {
			return []Exit{{kind: xKill, st: st}}
		}
		st.assume(c)
		st.model = m
		return ret(st, nil)
	}
	in[symPkg+"Assert"] = func(E *Eng, st *State, f *Func, a []Value, ps *panicState) []Exit {
		E.assertion(st, a[0].(*Term), str(a[1]))
		return ret(st, nil)
	}
	in[symPkg+"Fail"] = func(E *Eng, st *State, f *Func, a []Value, ps *panicState) []Exit {
		E.assertion(st, T.False, str(a[0]))
		return []Exit{{kind: xKill, st: st}}
	}
	in[symPkg+"Reach"] = pure(func(st *State, a []Value) Value {
		E.out.Reach[str(a[0])]++
		return nil
	})
	in[symPkg+"Steps"] = pure(func(st *State, a []Value) Value {
		E.maxSteps = int(a[0].(*Term).k)
		return nil
	})
	in[symPkg+"ReachIf"] = pure(func(st *State, a []Value) Value {
		l := str(a[1])
		if E.out.Reach[l] > 0 {
			return nil
		}
		if ok, _ := E.feasible(st, a[0].(*Term)); ok {
			E.out.Reach[l]++
		} else if _, in := E.out.Reach[l]; !in {
			E.out.Reach[l] = 0
		}
		return nil
	})
	in[symPkg+"Obs"] = pure(func(st *State, a []Value) Value {
		E.observe(st, str(a[0]), ObsVal{kind: "int", terms: []*Term{a[1].(*Term)}})
		return nil
	})
	in[symPkg+"ObsBool"] = in[symPkg+"Obs"]
	in[symPkg+"ObsBytes"] = pure(func(st *State, a []Value) Value {
		E.observe(st, str(a[0]), ObsVal{kind: "bytes", terms: E.sliceTerms(st, a[1].(Slice))})
		return nil
	})
	in[symPkg+"ObsStr"] = pure(func(st *State, a []Value) Value {
		E.observe(st, str(a[0]), ObsVal{kind: "bytes", terms: E.strBytes(a[1].(Str))})
		return nil
	})
	in[symPkg+"EqBytes"] = pure(func(st *State, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		if x.len != y.len {
			return T.False
		}
		return E.termsEq(E.sliceTerms(st, x), E.sliceTerms(st, y))
	})
	in[symPkg+"And"] = pure(func(st *State, a []Value) Value { return T.And(a[0].(*Term), a[1].(*Term)) })
	in[symPkg+"Or"] = pure(func(st *State, a []Value) Value { return T.Or(a[0].(*Term), a[1].(*Term)) })
	in[symPkg+"IteInt"] = pure(func(st *State, a []Value) Value { return T.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)) })
	in[symPkg+"IteRune"] = in[symPkg+"IteInt"]
	in[symPkg+"Share"] = pure(func(st *State, a []Value) Value { st.sharedMax = E.nextObj; return nil })
	in[symPkg+"Par"] = func(E *Eng, st *State, f *Func, a []Value, ps *panicState) []Exit {
		st.sharedMax = E.nextObj
		st.acc = nil
		var outs []Exit
		st.phase = 1
		st.parG = a[1].(*Func)
		end := func(y Exit) {
			y.st.phase = 0
			y.st.locks, y.st.held, y.st.parG = nil, nil, nil
			y.val = nil
			outs = append(outs, y)
		}
		for _, x := range E.callFunc(st, a[0].(*Func), nil, nil) {
			if x.kind != xRet || x.st.parG == nil {
				end(x)
				continue
			}
			x.st.phase = 2
			x.st.locks, x.st.parG = nil, nil
			for _, y := range E.callFunc(x.st, a[1].(*Func), nil, nil) {
				end(y)
			}
		}
		return outs
	}

	// ---- code without Go bodies or with run-time internals ----
	for _, n := range []string{"IndexByte", "IndexByteString", "Count", "CountString", "Compare", "CompareString", "Equal", "LastIndexByte", "LastIndexByteString", "Index", "IndexString"} {
		n := n
		in["internal/bytealg."+n] = func(E *Eng, st *State, f *Func, a []Value, ps *panicState) []Exit {
			return E.call(st, E.model(n), a, nil, ps)
		}
	}
	in["internal/stringslite.Index"] = in["internal/bytealg.IndexString"]
	in["strings.Index"] = in["internal/bytealg.IndexString"]
	in["bytes.Index"] = in["internal/bytealg.Index"]
	in["internal/bytealg.MakeNoZero"] = pure(func(st *State, a []Value) Value {
		n := E.concInt(st, a[0])
		c := roundupsize(n)
		cells := make([]Value, c)
		for i := range cells {
			cells[i] = E.byteConst[0]
		}
		return Slice{obj: E.alloc(st, cells, "make"), len: n, cap: c}
	})
	noop := pure(func(st *State, a []Value) Value { return nil })
	for _, n := range []string{"(*strings.Builder).copyCheck", "runtime.KeepAlive", "runtime.GC", "runtime.Gosched", "runtime.SetFinalizer", "internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "(*sync.noCopy).Lock", "(*sync.noCopy).Unlock"} {
		in[n] = noop
	}
	ident := pure(func(st *State, a []Value) Value { return a[0] })
	in["internal/abi.NoEscape"] = ident
	in["internal/abi.Escape"] = ident
	in["strings.noescape"] = ident
	in["runtime.NumCPU"] = pure(func(st *State, a []Value) Value { return T.Const(8, 64) })
	in["runtime.GOMAXPROCS"] = in["runtime.NumCPU"]

	// ---- locks ----
	lockName := func(mode string, v Value) string {
		p := v.(Ptr)
		return fmt.Sprintf("%s%d.%d", mode, p.obj, p.off)
	}
	// blocked: the suspended call holds the lock, so this schedule does not exist
	blocked := func(st *State, mode string, v Value) {
		n := lockName("", v)
		for _, x := range st.held {
			if x[1:] == n && (x[0] == 'X' || mode == "X") {
				panic(killPath{})
			}
		}
	}
	lock := func(mode string) intrinsic {
		return pure(func(st *State, a []Value) Value {
			blocked(st, mode, a[0])
			st.locks = append(append([]string(nil), st.locks...), lockName(mode, a[0]))
			return nil
		})
	}
	unlock := func(mode string) intrinsic {
		return func(E *Eng, st *State, f *Func, a []Value, ps *panicState) []Exit {
			l := lockName(mode, a[0])
			for i := len(st.locks) - 1; i >= 0; i-- {
				if st.locks[i] == l {
					st.locks = append(append([]string(nil), st.locks[:i]...), st.locks[i+1:]...)
					return ret(st, nil)
				}
			}
			return []Exit{{kind: xPanic, st: st, pan: E.rtError("unlock of unlocked mutex"), msg: "fatal error: unlock of unlocked mutex"}}
		}
	}
	in["(*sync.Mutex).Lock"] = func(E *Eng, st *State, f *Func, a []Value, ps *panicState) []Exit {
		l := lockName("X", a[0])
		blocked(st, "X", a[0])
		for _, x := range st.locks {
			if x == l {
				return []Exit{{kind: xPanic, st: st, pan: E.rtError("deadlock"), msg: "deadlock: mutex locked twice"}}
			}
		}
		st.locks = append(append([]string(nil), st.locks...), l)
		return ret(st, nil)
	}
	in["(*sync.Mutex).Unlock"] = unlock("X")
	in["(*sync.RWMutex).Lock"] = in["(*sync.Mutex).Lock"]
	in["(*sync.RWMutex).Unlock"] = unlock("X")
	in["(*sync.RWMutex).RLock"] = lock("S")
	in["(*sync.RWMutex).RUnlock"] = unlock("S")
	tryLock := func(mode string) intrinsic {
		return pure(func(st *State, a []Value) Value {
			n := lockName("", a[0])
			for _, x := range append(append([]string(nil), st.held...), st.locks...) {
				if x[1:] == n && (x[0] == 'X' || mode == "X") {
					return T.False
				}
			}
			st.locks = append(append([]string(nil), st.locks...), lockName(mode, a[0]))
			return T.True
		})
	}
	in["(*sync.Mutex).TryLock"] = tryLock("X")
	in["(*sync.RWMutex).TryLock"] = tryLock("X")
	in["(*sync.RWMutex).TryRLock"] = tryLock("S")
	in["(*sync.Once).Do"] = func(E *Eng, st *State, f *Func, a []Value, ps *panicState) []Exit {
		p := a[0].(Ptr)
		id := E.sideObj("once", p, func() *Obj { return &Obj{cells: []Value{T.False}} })
		done := E.obj(st, id).cells[0].(*Term)
		ln := lockName("", p)
		blocked(st, "X", a[0])
		if done == T.True {
			if !has(st.locks, "S"+ln) {
				st.locks = append(append([]string(nil), st.locks...), "S"+ln)
			}
			return ret(st, nil)
		}
		if done != T.False {
			panic(unsup{"sync.Once in a merged state"})
		}
		E.wobj(st, id).cells[0] = T.True
		st.locks = append(append([]string(nil), st.locks...), "X"+ln)
		outs := E.callFunc(st, a[1].(*Func), nil, nil)
		for i := range outs {
			var l []string
			for _, x := range outs[i].st.locks {
				if x != "X"+ln {
					l = append(l, x)
				}
			}
			outs[i].st.locks = append(l, "S"+ln)
			outs[i].val = nil
		}
		return outs
	}
	in["(*sync.Pool).Get"] = func(E *Eng, st *State, f *Func, a []Value, ps *panicState) []Exit {
		p := a[0].(Ptr)
		id := E.sideObj("pool", p, func() *Obj { return &Obj{} })
		if o := E.obj(st, id); len(o.cells) > 0 {
			w := E.wobj(st, id)
			v := w.cells[len(w.cells)-1]
			w.cells = w.cells[:len(w.cells)-1]
			if l := lockName("Xpool", p); !has(st.locks, l) {
				st.locks = append(append([]string(nil), st.locks...), l)
			}
			return ret(st, v)
		}
		pt := f.fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		us := pt.Underlying().(*types.Struct)
		for i := 0; i < us.NumFields(); i++ {
			if us.Field(i).Name() == "New" {
				nf, _ := E.obj(st, p.obj).cells[p.off+E.fieldOff(pt, i)].(*Func)
				if nf == nil {
					return ret(st, Iface{})
				}
				return E.callFunc(st, nf, nil, nil)
			}
		}
		panic(unsup{"sync.Pool layout"})
	}
	in["(*sync.Pool).Put"] = pure(func(st *State, a []Value) Value {
		if x, ok := a[1].(Iface); ok && x.t == nil {
			return nil
		}
		id := E.sideObj("pool", a[0].(Ptr), func() *Obj { return &Obj{} })
		w := E.wobj(st, id)
		w.cells = append(append([]Value(nil), w.cells...), a[1])
		E.markPooled(st, a[1])
		return nil
	})
	smap := func(a Value) int {
		return E.sideObj("syncmap", a.(Ptr), func() *Obj { return &Obj{m: &MapData{idx: map[string]int{}}} })
	}
	load := func(st *State, m, k Value) (Value, bool) {
		id := smap(m)
		md := E.obj(st, id).m
		i := E.mapFind(st, md, k)
		if i < 0 || md.vals[i] == nil {
			return Iface{}, false
		}
		return md.vals[i], true
	}
	in["(*sync.Map).Load"] = pure(func(st *State, a []Value) Value {
		v, ok := load(st, a[0], a[1])
		return Tuple{v, T.Bool(ok)}
	})
	in["(*sync.Map).Store"] = pure(func(st *State, a []Value) Value {
		E.mapUpdate(st, MapRef{smap(a[0])}, a[1], a[2])
		return nil
	})
	in["(*sync.Map).LoadOrStore"] = pure(func(st *State, a []Value) Value {
		v, ok := load(st, a[0], a[1])
		if !ok {
			v = a[2]
			E.mapUpdate(st, MapRef{smap(a[0])}, a[1], a[2])
		}
		return Tuple{v, T.Bool(ok)}
	})
	in["(*sync.Map).Delete"] = pure(func(st *State, a []Value) Value {
		E.mapDelete(st, MapRef{smap(a[0])}, a[1])
		return nil
	})
	in["(*sync.Map).LoadAndDelete"] = pure(func(st *State, a []Value) Value {
		v, ok := load(st, a[0], a[1])
		E.mapDelete(st, MapRef{smap(a[0])}, a[1])
		return Tuple{v, T.Bool(ok)}
	})

	// ---- atomics ----
	atomically := func(f func(st *State, a []Value, t types.Type) Value) intrinsic {
		return func(E *Eng, st *State, fn *Func, a []Value, ps *panicState) []Exit {
			st.atomic = true
			defer func() { st.atomic = false }()
			t := fn.fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
			return ret(st, f(st, a, t))
		}
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		in["sync/atomic.Load"+ty] = atomically(func(st *State, a []Value, t types.Type) Value { return E.load(st, a[0].(Ptr), t) })
		in["sync/atomic.Store"+ty] = atomically(func(st *State, a []Value, t types.Type) Value {
			E.store(st, a[0].(Ptr), a[1])
			return nil
		})
		in["sync/atomic.Swap"+ty] = atomically(func(st *State, a []Value, t types.Type) Value {
			old := E.load(st, a[0].(Ptr), t)
			E.store(st, a[0].(Ptr), a[1])
			return old
		})
		in["sync/atomic.Add"+ty] = atomically(func(st *State, a []Value, t types.Type) Value {
			n := T.Add(E.load(st, a[0].(Ptr), t).(*Term), a[1].(*Term))
			E.store(st, a[0].(Ptr), n)
			return n
		})
		in["sync/atomic.CompareAndSwap"+ty] = atomically(func(st *State, a []Value, t types.Type) Value {
			if E.must(st, E.valEq(E.load(st, a[0].(Ptr), t), a[1])) {
				E.store(st, a[0].(Ptr), a[2])
				return T.True
			}
			return T.False
		})
	}
	av := func(f func(st *State, id int, a []Value) Value) intrinsic {
		return pure(func(st *State, a []Value) Value {
			st.atomic = true
			defer func() { st.atomic = false }()
			return f(st, E.sideObj("atomic.Value", a[0].(Ptr), func() *Obj { return &Obj{cells: []Value{Iface{}}} }), a)
		})
	}
	in["(*sync/atomic.Value).Load"] = av(func(st *State, id int, a []Value) Value { return E.obj(st, id).cells[0] })
	in["(*sync/atomic.Value).Store"] = av(func(st *State, id int, a []Value) Value { E.wobj(st, id).cells[0] = a[1]; return nil })
	in["(*sync/atomic.Value).Swap"] = av(func(st *State, id int, a []Value) Value {
		old := E.obj(st, id).cells[0]
		E.wobj(st, id).cells[0] = a[1]
		return old
	})

	// ---- errors, fmt, sort ----
	in["errors.Is"] = func(E *Eng, st *State, f *Func, a []Value, ps *panicState) []Exit {
		return E.call(st, E.model("ErrorsIs"), a, nil, ps)
	}
	in["fmt.Errorf"] = func(E *Eng, st *State, f *Func, a []Value, ps *panicState) []Exit {
		return E.call(st, E.model("Errorf"), a, nil, ps)
	}
	in["fmt.Sprintf"] = pure(func(st *State, a []Value) Value {
		args, ok := E.hostArgs(st, a[1].(Slice))
		if !ok {
			return Opaque{"fmt.Sprintf"}
		}
		return Str{c: fmt.Sprintf(str(a[0]), args...)}
	})
	in["fmt.Sprint"] = pure(func(st *State, a []Value) Value {
		args, ok := E.hostArgs(st, a[0].(Slice))
		if !ok {
			return Opaque{"fmt.Sprint"}
		}
		return Str{c: fmt.Sprint(args...)}
	})
	swapper := func(st *State, s Slice, el types.Type) *Func {
		sz := E.ncells(el)
		return &Func{native: func(E *Eng, st *State, a []Value) Value {
			i, j := E.concInt(st, a[0]), E.concInt(st, a[1])
			o := E.wobj(st, s.obj)
			for k := 0; k < sz; k++ {
				p, q := s.off+i*sz+k, s.off+j*sz+k
				o.cells[p], o.cells[q] = o.cells[q], o.cells[p]
			}
			return nil
		}}
	}
	sortBy := func(model string) intrinsic {
		return func(E *Eng, st *State, f *Func, a []Value, ps *panicState) []Exit {
			iv := a[0].(Iface)
			s := iv.v.(Slice)
			return E.call(st, E.model(model), []Value{T.Const(uint64(s.len), 64), a[1], swapper(st, s, sliceElem(iv.t))}, nil, ps)
		}
	}
	in["sort.Slice"] = sortBy("SortSlice")
	in["sort.SliceStable"] = sortBy("SortSliceStable")
	in["internal/reflectlite.Swapper"] = pure(func(st *State, a []Value) Value {
		iv := a[0].(Iface)
		return swapper(st, iv.v.(Slice), sliceElem(iv.t))
	})
	in["(*strings.Builder).Grow"] = noop
	in["hash/maphash.rthash"] = nil
	delete(in, "hash/maphash.rthash")
	_ = strings.Contains
	var _ *ssa.Function
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// hostArgs converts a concrete []interface{} to host values for fmt.
func (E *Eng) hostArgs(st *State, s Slice) ([]interface{}, bool) {
	var out []interface{}
	if s.len == 0 {
		return nil, true
	}
	o := E.obj(st, s.obj)
	for i := 0; i < s.len; i++ {
		iv, ok := o.cells[s.off+i].(Iface)
		if !ok {
			return nil, false
		}
		if iv.t == nil {
			out = append(out, nil)
			continue
		}
		if n, ok := iv.t.(*types.Named); ok && n.NumMethods() > 0 {
			return nil, false
		}
		switch v := iv.v.(type) {
		case *Term:
			if v.op != OConst {
				return nil, false
			}
			b := iv.t.Underlying().(*types.Basic)
			switch b.Kind() {
			case types.Bool:
				out = append(out, v.k == 1)
			case types.Int32:
				out = append(out, int32(v.k))
			case types.Uint8:
				out = append(out, uint8(v.k))
			case types.Uint16:
				out = append(out, uint16(v.k))
			case types.Uint32:
				out = append(out, uint32(v.k))
			case types.Uint64:
				out = append(out, v.k)
			default:
				out = append(out, int(sext(v.k, v.w)))
			}
		case Str:
			if v.b != nil {
				return nil, false
			}
			out = append(out, v.c)
		default:
			return nil, false
		}
	}
	return out, true
}
