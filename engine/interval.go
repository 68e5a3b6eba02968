package main

// Value ranges of terms on a path. They are used to narrow divisions and multiplications
// to the bits that matter before the solver sees them.

type rng struct {
	lo, hi   uint64 // unsigned
	slo, shi int64  // signed
	empty    bool
}

func fullRng(w uint8) rng {
	m := mask(w)
	return rng{0, m, -int64(m>>1) - 1, int64(m >> 1), false}
}

func (r rng) norm(w uint8) rng {
	if r.empty || r.lo > r.hi || r.slo > r.shi {
		return rng{empty: true}
	}
	m := mask(w)
	for i := 0; i < 2; i++ {
		if r.slo >= 0 { // all values non-negative
			if uint64(r.slo) > r.lo {
				r.lo = uint64(r.slo)
			}
			if uint64(r.shi) < r.hi {
				r.hi = uint64(r.shi)
			}
		} else if r.shi < 0 {
			if l := uint64(r.slo) & m; l > r.lo {
				r.lo = l
			}
			if h := uint64(r.shi) & m; h < r.hi {
				r.hi = h
			}
		}
		if r.lo > r.hi {
			return rng{empty: true}
		}
		if r.hi <= m>>1 || r.lo > m>>1 { // one sign only
			if l := sext(r.lo, w); l > r.slo {
				r.slo = l
			}
			if h := sext(r.hi, w); h < r.shi {
				r.shi = h
			}
		}
		if r.slo > r.shi {
			return rng{empty: true}
		}
	}
	return r
}

func (r rng) and(o rng, w uint8) rng {
	if r.empty || o.empty {
		return rng{empty: true}
	}
	if o.lo > r.lo {
		r.lo = o.lo
	}
	if o.hi < r.hi {
		r.hi = o.hi
	}
	if o.slo > r.slo {
		r.slo = o.slo
	}
	if o.shi < r.shi {
		r.shi = o.shi
	}
	return r.norm(w)
}

func (r rng) or(o rng) rng {
	if r.empty {
		return o
	}
	if o.empty {
		return r
	}
	if o.lo < r.lo {
		r.lo = o.lo
	}
	if o.hi > r.hi {
		r.hi = o.hi
	}
	if o.slo < r.slo {
		r.slo = o.slo
	}
	if o.shi > r.shi {
		r.shi = o.shi
	}
	return r
}

// atomRng: the range of v implied by condition c being val.
func atomRng(c, v *Term, val bool) rng {
	w := v.w
	f := fullRng(w)
	if c.op == ONot {
		return atomRng(c.a, v, !val)
	}
	if c.op != OEq && c.op != OUle && c.op != OSle {
		return f
	}
	if c.a != v || c.b.op != OConst {
		if c.op == OEq && c.b == v && c.a.op == OConst {
			c = &Term{op: OEq, a: v, b: c.a}
		} else {
			return f
		}
	}
	k := c.b.k
	switch c.op {
	case OEq:
		if val {
			f.lo, f.hi = k, k
			return f.norm(w)
		}
		if k == 0 {
			f.lo = 1
		}
	case OUle:
		if val {
			f.hi = k
		} else {
			f.lo = k + 1
		}
	case OSle:
		if val {
			f.shi = sext(k, w)
		} else {
			f.slo = sext(k, w) + 1
		}
	}
	return f.norm(w)
}

func (E *Eng) condRng(c, v *Term, val bool, depth *int) rng {
	w := v.w
	*depth--
	if *depth < 0 || (c.op != OConst && !v.sup.intersects(c.sup)) {
		return fullRng(w)
	}
	switch c.op {
	case OConst:
		if (c.k == 1) != val {
			return rng{empty: true}
		}
		return fullRng(w)
	case ONot:
		return E.condRng(c.a, v, !val, depth)
	case OAnd:
		if val {
			return E.condRng(c.a, v, true, depth).and(E.condRng(c.b, v, true, depth), w)
		}
		return E.condRng(c.a, v, false, depth).or(E.condRng(c.b, v, false, depth))
	case OOr:
		if !val {
			return E.condRng(c.a, v, false, depth).and(E.condRng(c.b, v, false, depth), w)
		}
		return E.condRng(c.a, v, true, depth).or(E.condRng(c.b, v, true, depth))
	case OIte:
		hi := E.condRng(c.b, v, val, depth)
		if !hi.empty {
			hi = hi.and(E.condRng(c.a, v, true, depth), w)
		}
		lo := E.condRng(c.c, v, val, depth)
		if !lo.empty {
			lo = lo.and(E.condRng(c.a, v, false, depth), w)
		}
		return hi.or(lo)
	}
	return atomRng(c, v, val)
}

// varRng intersects what the path condition says about a variable (or any term it constrains directly).
func (E *Eng) pcRng(st *State, v *Term) rng {
	r := fullRng(v.w)
	n := 0
	for p := st.pc; p != nil && n < 200; p = p.parent {
		n++
		if p.t.size > 3000 || !v.sup.intersects(p.t.sup) {
			continue
		}
		d := 4000
		r = r.and(E.condRng(p.t, v, true, &d), v.w)
	}
	return r
}

// termRng bounds a bit-vector term on the path.
func (E *Eng) termRng(st *State, t *Term, memo map[*Term]rng) rng {
	if r, ok := memo[t]; ok {
		return r
	}
	w := t.w
	r := fullRng(w)
	m := mask(w)
	u := func(lo, hi uint64) rng {
		x := fullRng(w)
		x.lo, x.hi = lo, hi
		return x.norm(w)
	}
	switch t.op {
	case OConst:
		r = u(t.k, t.k)
	case OVar:
		r = E.pcRng(st, t)
	case OZext:
		a := E.termRng(st, t.a, memo)
		if !a.empty {
			r = u(a.lo, a.hi)
		}
	case OSext:
		a := E.termRng(st, t.a, memo)
		if !a.empty {
			r.slo, r.shi = a.slo, a.shi
			r = r.norm(w)
		}
	case OExtract:
		if t.k == 0 {
			a := E.termRng(st, t.a, memo)
			if !a.empty && a.hi <= m {
				r = u(a.lo, a.hi)
			}
		}
	case OAdd:
		a, b := E.termRng(st, t.a, memo), E.termRng(st, t.b, memo)
		if !a.empty && !b.empty {
			lo, hi := a.lo+b.lo, a.hi+b.hi
			wrap := func(x, y, s uint64) uint64 { // number of wraps beyond w bits
				if w < 64 {
					return s >> w
				}
				return b2u(s < x)
			}
			if wrap(a.lo, b.lo, lo) == wrap(a.hi, b.hi, hi) {
				r = u(lo&m, hi&m)
			}
			sl, sh := a.slo+b.slo, a.shi+b.shi
			if w < 64 && sl >= -int64(m>>1)-1 && sh <= int64(m>>1) {
				r.slo, r.shi = maxi(r.slo, sl), mini(r.shi, sh)
				r = r.norm(w)
			}
		}
	case OMul:
		a, b := E.termRng(st, t.a, memo), E.termRng(st, t.b, memo)
		if !a.empty && !b.empty && (a.hi == 0 || b.hi <= m/a.hi) {
			r = u(a.lo*b.lo, a.hi*b.hi)
		}
	case OUDiv:
		a := E.termRng(st, t.a, memo)
		if t.b.op == OConst && t.b.k > 0 && !a.empty {
			r = u(a.lo/t.b.k, a.hi/t.b.k)
		}
	case OURem:
		a := E.termRng(st, t.a, memo)
		if t.b.op == OConst && t.b.k > 0 && !a.empty {
			hi := t.b.k - 1
			if a.hi < hi {
				hi = a.hi
			}
			r = u(0, hi)
		}
	case OIte:
		if t.size < 2000 {
			r = E.termRng(st, t.b, memo).or(E.termRng(st, t.c, memo))
		}
	case OConcat:
		a, b := E.termRng(st, t.a, memo), E.termRng(st, t.b, memo)
		if !a.empty && !b.empty {
			r = u(a.lo<<t.b.w|b.lo, a.hi<<t.b.w|b.hi)
		}
	}
	if z := lz(t); z > 0 && r.hi > mask(w-z) && !r.empty {
		r.hi = mask(w - z)
		r = r.norm(w)
	}
	if (t.op == OAdd || t.op == OMul || t.op == OConcat) && !r.empty {
		r = r.and(E.pcRng(st, t), w)
	}
	memo[t] = r
	return r
}

func maxi(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}
func mini(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func bitsFor(x uint64) uint8 {
	n := uint8(0)
	for x > 0 {
		n++
		x >>= 1
	}
	return n
}

// narrow computes op(x, y) for a constant y on the bits that matter; nil if it cannot.
func (E *Eng) narrow(st *State, op Op, x, y *Term) *Term {
	T := E.T
	if y.op != OConst || x.op == OConst || y.k == 0 {
		return nil
	}
	if isTreeIte(x) {
		return nil // folded leaf by leaf
	}
	w := x.w
	r := E.termRng(st, x, map[*Term]rng{})
	if r.empty || r.hi > mask(w)>>1 && (op == OSDiv || op == OSRem) {
		return nil
	}
	if (op == OSDiv || op == OSRem) && y.k > mask(w)>>1 {
		return nil
	}
	switch op {
	case OSDiv, OUDiv:
		if r.lo/y.k == r.hi/y.k {
			return T.Const(r.lo/y.k, w)
		}
	case OSRem, OURem:
		if r.lo/y.k == r.hi/y.k {
			return T.Sub(x, T.Const(r.lo/y.k*y.k, w))
		}
	}
	n := bitsFor(r.hi)
	if b := bitsFor(y.k); b > n {
		n = b
	}
	if op == OMul {
		if r.hi > 0 && y.k > mask(w)/r.hi {
			return nil
		}
		n = bitsFor(r.hi * y.k)
	}
	if n >= w {
		if op == OSDiv {
			return T.Bin(OUDiv, x, y)
		}
		if op == OSRem {
			return T.Bin(OURem, x, y)
		}
		return nil
	}
	u := op
	if op == OSDiv {
		u = OUDiv
	}
	if op == OSRem {
		u = OURem
	}
	return T.Zext(T.Bin(u, T.Extract(x, n-1, 0), T.Const(y.k, n)), w)
}

// quick decides an atom from value ranges: 1 true, 0 false, -1 unknown.
func (E *Eng) quick(st *State, c *Term) int {
	neg := false
	if c.op == ONot {
		c, neg = c.a, true
	}
	if (c.op != OEq && c.op != OUle && c.op != OSle) || c.b.op != OConst || c.a.w == 0 {
		return -1
	}
	r := E.termRng(st, c.a, map[*Term]rng{})
	if r.empty {
		return -1
	}
	k := c.b.k
	res := -1
	switch c.op {
	case OEq:
		if k < r.lo || k > r.hi {
			res = 0
		}
	case OUle:
		if r.hi <= k {
			res = 1
		} else if r.lo > k {
			res = 0
		}
	case OSle:
		s := sext(k, c.a.w)
		if r.shi <= s {
			res = 1
		} else if r.slo > s {
			res = 0
		}
	}
	if res >= 0 && neg {
		res = 1 - res
	}
	return res
}
