package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---- binary operators ----

func (E *Eng) binop(st *State, op token.Token, a, b Value, ta, tb types.Type) Value {
	T := E.T
	switch op {
	case token.EQL:
		return E.valEq(a, b)
	case token.NEQ:
		return T.Not(E.valEq(a, b))
	}
	switch x := a.(type) {
	case Str:
		y := b.(Str)
		switch op {
		case token.ADD:
			if x.b == nil && y.b == nil {
				return Str{c: x.c + y.c}
			}
			p, q := E.strBytes(x), E.strBytes(y)
			r := make([]*Term, 0, len(p)+len(q))
			return E.mkStr(append(append(r, p...), q...))
		case token.LSS:
			return E.strLess(x, y)
		case token.GTR:
			return E.strLess(y, x)
		case token.LEQ:
			return T.Not(E.strLess(y, x))
		case token.GEQ:
			return T.Not(E.strLess(x, y))
		}
	case Float:
		y := b.(Float)
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return T.Bool(x < y)
		case token.LEQ:
			return T.Bool(x <= y)
		case token.GTR:
			return T.Bool(x > y)
		case token.GEQ:
			return T.Bool(x >= y)
		}
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			break
		}
		return E.intOp(st, op, x, y, isSigned(ta), isSigned(tb))
	}
	panic(unsup{fmt.Sprintf("operator %s on %T", op, a)})
}

func (E *Eng) strLess(a, b Str) *Term {
	T := E.T
	if a.b == nil && b.b == nil {
		return T.Bool(a.c < b.c)
	}
	p, q := E.strBytes(a), E.strBytes(b)
	n := len(p)
	if len(q) < n {
		n = len(q)
	}
	r := T.Bool(len(p) < len(q))
	for i := n - 1; i >= 0; i-- {
		r = T.Ite(T.Ult(p[i], q[i]), T.True, T.Ite(T.Eq(p[i], q[i]), r, T.False))
	}
	return r
}

func (E *Eng) intOp(st *State, op token.Token, x, y *Term, signed, shSigned bool) Value {
	T := E.T
	switch op {
	case token.ADD:
		return T.Add(x, y)
	case token.SUB:
		return T.Sub(x, y)
	case token.MUL:
		if x.op == OConst {
			x, y = y, x
		}
		if r := E.narrow(st, OMul, x, y); r != nil {
			return r
		}
		return T.Mul(x, y)
	case token.QUO, token.REM:
		z := T.Eq(y, T.Const(0, y.w))
		if E.must(st, z) {
			panic(goPanic{"integer divide by zero"})
		}
		o := OUDiv
		switch {
		case op == token.QUO && signed:
			o = OSDiv
		case op == token.REM && signed:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		if r := E.narrow(st, o, x, y); r != nil {
			return r
		}
		switch {
		case op == token.QUO && signed:
			return T.Bin(OSDiv, x, y)
		case op == token.QUO:
			return T.Bin(OUDiv, x, y)
		case signed:
			return T.Bin(OSRem, x, y)
		}
		return T.Bin(OURem, x, y)
	case token.AND:
		if x.w == 0 {
			return T.And(x, y)
		}
		return T.Bin(OBAnd, x, y)
	case token.OR:
		if x.w == 0 {
			return T.Or(x, y)
		}
		return T.Bin(OBOr, x, y)
	case token.XOR:
		return T.Bin(OBXor, x, y)
	case token.AND_NOT:
		return T.Bin(OBAnd, x, T.Bin(OBXor, y, T.Const(mask(y.w), y.w)))
	case token.SHL, token.SHR:
		if shSigned {
			if E.must(st, T.Slt(y, T.Const(0, y.w))) {
				panic(goPanic{"negative shift amount"})
			}
		}
		// bring the count to x's width, saturating
		c := y
		if y.w > x.w {
			big := T.Not(T.Ule(y, T.Const(uint64(x.w), y.w)))
			c = T.Ite(big, T.Const(uint64(x.w), x.w), T.Extract(y, x.w-1, 0))
		} else if y.w < x.w {
			c = T.Zext(y, x.w)
		}
		switch {
		case op == token.SHL:
			return T.Bin(OShl, x, c)
		case signed:
			return T.Bin(OAshr, x, c)
		}
		return T.Bin(OLshr, x, c)
	case token.LSS:
		if signed {
			return T.Slt(x, y)
		}
		return T.Ult(x, y)
	case token.LEQ:
		if signed {
			return T.Sle(x, y)
		}
		return T.Ule(x, y)
	case token.GTR:
		if signed {
			return T.Slt(y, x)
		}
		return T.Ult(y, x)
	case token.GEQ:
		if signed {
			return T.Sle(y, x)
		}
		return T.Ule(y, x)
	}
	panic(unsup{"operator " + op.String()})
}

// ---- conversions ----

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func sliceElem(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

func isByteElem(t types.Type) bool {
	e := sliceElem(t)
	if e == nil {
		return false
	}
	b, ok := e.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isRuneElem(t types.Type) bool {
	e := sliceElem(t)
	if e == nil {
		return false
	}
	b, ok := e.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func (E *Eng) convert(st *State, v Value, from, to types.Type) (Value, []Exit) {
	T := E.T
	switch {
	case isInt(from) && isInt(to):
		x := v.(*Term)
		w := width(to.Underlying().(*types.Basic))
		switch {
		case w == x.w:
			return x, nil
		case w < x.w:
			return T.Extract(x, w-1, 0), nil
		case isSigned(from):
			return T.Sext(x, w), nil
		}
		return T.Zext(x, w), nil
	case isInt(from) && isFloat(to):
		x := v.(*Term)
		if x.op != OConst {
			x = T.Const(E.concretize(st, x), x.w)
		}
		if isSigned(from) {
			return Float(sext(x.k, x.w)), nil
		}
		return Float(x.k), nil
	case isFloat(from) && isInt(to):
		w := width(to.Underlying().(*types.Basic))
		return T.Const(uint64(int64(v.(Float))), w), nil
	case isFloat(from) && isFloat(to):
		if b := to.Underlying().(*types.Basic); b.Kind() == types.Float32 {
			return Float(float32(v.(Float))), nil
		}
		return v, nil
	case isString(to) && isString(from):
		return v, nil
	case isString(to) && isInt(from):
		x := v.(*Term)
		if x.op == OConst {
			r := rune(utf8.RuneError)
			if s := sext(x.k, x.w); s >= 0 && s <= utf8.MaxRune {
				r = rune(s)
			}
			return Str{c: string(r)}, nil
		}
		x64 := x
		if x.w < 64 {
			if isSigned(from) {
				x64 = T.Sext(x, 64)
			} else {
				x64 = T.Zext(x, 64)
			}
		}
		in := T.Ule(x64, T.Const(utf8.MaxRune, 64))
		r := T.Ite(in, T.Extract(x64, 31, 0), T.Const(utf8.RuneError, 32))
		return nil, E.call(st, E.model("RuneToString"), []Value{r}, nil, nil)
	case isString(to) && isByteElem(from):
		return E.bytesToStr(st, v.(Slice)), nil
	case isString(to) && isRuneElem(from):
		s := v.(Slice)
		if rs, ok := E.constRunes(st, s); ok {
			return Str{c: string(rs)}, nil
		}
		return nil, E.call(st, E.model("RunesToString"), []Value{v}, nil, nil)
	case isString(from) && isByteElem(to):
		return E.strToBytes(st, v.(Str)), nil
	case isString(from) && isRuneElem(to):
		s := v.(Str)
		if s.b == nil {
			var cells []Value
			for _, r := range s.c {
				cells = append(cells, T.Const(uint64(uint32(r)), 32))
			}
			n := len(cells)
			return Slice{obj: E.alloc(st, cells, "[]rune"), len: n, cap: n}, nil
		}
		return nil, E.call(st, E.model("StringToRunes"), []Value{v}, nil, nil)
	}
	switch to.Underlying().(type) {
	case *types.Pointer:
		return v, nil
	case *types.Basic:
		if to.Underlying().(*types.Basic).Kind() == types.UnsafePointer {
			return v, nil
		}
	case *types.Slice:
		if _, ok := v.(Slice); ok {
			return v, nil
		}
	}
	panic(unsup{fmt.Sprintf("conversion %s to %s", from, to)})
}

func (E *Eng) model(name string) *ssa.Function {
	p := E.prog.ImportedPackage("verif/harness/models")
	if p == nil {
		panic(unsup{"models package missing"})
	}
	f := p.Func(name)
	if f == nil {
		panic(unsup{"model " + name})
	}
	return f
}

func (E *Eng) sliceTerms(st *State, s Slice) []*Term {
	if s.len == 0 {
		return nil
	}
	o := E.obj(st, s.obj)
	r := make([]*Term, s.len)
	for i := range r {
		r[i] = o.cells[s.off+i].(*Term)
	}
	return r
}

func (E *Eng) bytesToStr(st *State, s Slice) Value {
	return E.mkStr(E.sliceTerms(st, s))
}

func (E *Eng) constRunes(st *State, s Slice) ([]rune, bool) {
	var rs []rune
	for _, t := range E.sliceTerms(st, s) {
		if t.op != OConst {
			return nil, false
		}
		rs = append(rs, rune(t.k))
	}
	return rs, true
}

func (E *Eng) strToBytes(st *State, s Str) Slice {
	n := s.Len()
	c := roundupsize(n)
	cells := make([]Value, c)
	b := E.strBytes(s)
	for i := range cells {
		if i < n {
			cells[i] = b[i]
		} else {
			cells[i] = E.byteConst[0]
		}
	}
	return Slice{obj: E.alloc(st, cells, "[]byte"), len: n, cap: c}
}

// ---- allocation sizes of the Go runtime (observable through cap) ----

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n == 0 {
		return 0
	}
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) &^ 8191
}

func growCap(old, need, elem int) int {
	newcap := old
	if need > 2*old {
		newcap = need
	} else if old < 256 {
		newcap = 2 * old
	} else {
		for newcap < need {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if elem == 0 {
		return need
	}
	return roundupsize(newcap*elem) / elem
}

var stdSizes = types.SizesFor("gc", "amd64")

// ---- builtins ----

func (E *Eng) builtin(st *State, bi *ssa.Builtin, args []Value, ssaArgs []ssa.Value, res types.Type, ps *panicState) Value {
	T := E.T
	c64 := func(n int) *Term { return T.Const(uint64(n), 64) }
	switch bi.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return c64(x.Len())
		case Slice:
			return c64(x.len)
		case MapRef:
			if x.obj == 0 {
				return c64(0)
			}
			return c64(E.obj(st, x.obj).m.count)
		}
	case "cap":
		if x, ok := args[0].(Slice); ok {
			return c64(x.cap)
		}
	case "append":
		var el types.Type
		if res != nil {
			el = res.Underlying().(*types.Slice).Elem()
		} else {
			el = bi.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
		}
		return E.append(st, args[0].(Slice), args[1], el)
	case "copy":
		d := args[0].(Slice)
		var src []Value
		n := d.len
		sz := 1
		switch s := args[1].(type) {
		case Str:
			b := E.strBytes(s)
			if len(b) < n {
				n = len(b)
			}
			for i := 0; i < n; i++ {
				src = append(src, b[i])
			}
		case Slice:
			if s.len < n {
				n = s.len
			}
			if ssaArgs != nil {
				sz = E.ncells(sliceElem(ssaArgs[0].Type()))
			}
			if n > 0 {
				o := E.obj(st, s.obj)
				src = append(src, o.cells[s.off:s.off+n*sz]...)
			}
		}
		if n > 0 {
			o := E.wobj(st, d.obj)
			copy(o.cells[d.off:d.off+n*sz], src)
		}
		return c64(n)
	case "delete":
		E.mapDelete(st, args[0].(MapRef), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case MapRef:
			if x.obj != 0 {
				o := E.wobj(st, x.obj)
				o.m = &MapData{idx: map[string]int{}}
			}
		case Slice:
			if x.len > 0 {
				el := sliceElem(ssaArgs[0].Type())
				z := E.zeroCells(el, nil)
				o := E.wobj(st, x.obj)
				for i := 0; i < x.len; i++ {
					copy(o.cells[x.off+i*len(z):], z)
				}
			}
		}
		return nil
	case "min", "max":
		r := args[0]
		for i, a := range args[1:] {
			lt := token.LSS
			if bi.Name() == "max" {
				lt = token.GTR
			}
			ty := ssaArgs[i+1].Type()
			c := E.binop(st, lt, a, r, ty, ty).(*Term)
			x, ok1 := a.(*Term)
			y, ok2 := r.(*Term)
			if ok1 && ok2 {
				r = T.Ite(c, x, y)
			} else if E.must(st, c) {
				r = a
			}
		}
		return r
	case "print", "println":
		return nil
	case "recover":
		if ps != nil && ps.active && st.recovered != ps {
			st.recovered = ps
			return ps.val
		}
		return Iface{}
	case "panic":
		panic(unsup{"deferred panic"})
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			panic(goPanic{"invalid memory address or nil pointer dereference"})
		}
		return args[0]
	case "String": // unsafe.String
		p := args[0].(Ptr)
		n := E.concInt(st, args[1])
		if n == 0 {
			return Str{}
		}
		if p.idx != nil {
			k := int(E.concretize(st, p.idx))
			p = Ptr{obj: p.obj, off: p.off + k*p.stride}
		}
		return E.bytesToStr(st, Slice{obj: p.obj, off: p.off, len: n})
	case "StringData":
		s := args[0].(Str)
		if s.Len() == 0 {
			return Ptr{}
		}
		return Ptr{obj: E.strToBytes(st, s).obj}
	case "Slice":
		p := args[0].(Ptr)
		n := E.concInt(st, args[1])
		return Slice{obj: p.obj, off: p.off, len: n, cap: n}
	case "SliceData":
		s := args[0].(Slice)
		return Ptr{obj: s.obj, off: s.off}
	case "Add":
		p := args[0].(Ptr)
		p.off += E.concInt(st, args[1])
		return p
	}
	panic(unsup{"builtin " + bi.Name()})
}

func (E *Eng) append(st *State, s Slice, more Value, el types.Type) Value {
	sz := E.ncells(el)
	var src []Value
	n := 0
	switch m := more.(type) {
	case Str:
		for _, t := range E.strBytes(m) {
			src = append(src, t)
		}
		n = len(src)
	case Slice:
		n = m.len
		if n > 0 {
			o := E.obj(st, m.obj)
			src = append(src, o.cells[m.off:m.off+n*sz]...)
		}
	default:
		panic(unsup{fmt.Sprintf("append of %T", more)})
	}
	if n == 0 {
		return s
	}
	if s.len+n <= s.cap {
		o := E.wobj(st, s.obj)
		copy(o.cells[s.off+s.len*sz:], src)
		s.len += n
		return s
	}
	nc := growCap(s.cap, s.len+n, int(stdSizes.Sizeof(el)))
	if nc > 1<<24 {
		panic(unsup{"append beyond the memory bound"})
	}
	cells := make([]Value, 0, nc*sz)
	if s.len > 0 {
		o := E.obj(st, s.obj)
		cells = append(cells, o.cells[s.off:s.off+s.len*sz]...)
	}
	cells = append(cells, src...)
	z := E.zeroCells(el, nil)
	for len(cells) < nc*sz {
		cells = append(cells, z...)
	}
	return Slice{obj: E.alloc(st, cells, "append"), len: s.len + n, cap: nc}
}

var _ = math.MaxInt
