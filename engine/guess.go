package main

// invert finds an assignment of one variable's bits under which t has value v, starting
// from m; ok=false if t is not a simple injection of variables.
func (T *Terms) invert(t *Term, v uint64, m Model) bool {
	switch t.op {
	case OConst:
		return t.k == v
	case OVar:
		m[int(t.k)] = v
		return true
	case OZext:
		return v <= mask(t.a.w) && T.invert(t.a, v, m)
	case OSext:
		iw := t.a.w
		return uint64(sext(v&mask(iw), iw))&mask(t.w) == v && T.invert(t.a, v&mask(iw), m)
	case OConcat:
		return T.invert(t.a, v>>t.b.w, m) && T.invert(t.b, v&mask(t.b.w), m)
	case OExtract:
		old := T.Eval(t.a, m)
		mk := mask(t.w) << t.k
		return T.invert(t.a, old&^mk|v<<t.k, m)
	case OAdd:
		if t.b.op == OConst {
			return T.invert(t.a, (v-t.b.k)&mask(t.w), m)
		}
	case OBXor:
		if t.b.op == OConst {
			return T.invert(t.a, v^t.b.k, m)
		}
	case OUDiv:
		if t.b.op == OConst && t.b.k != 0 && v <= mask(t.w)/t.b.k {
			return T.invert(t.a, v*t.b.k, m)
		}
	}
	return false
}

// guess looks for a model of conds near the current one by picking values that make c true.
// Every model it returns has been evaluated on all of conds.
func (E *Eng) guess(st *State, conds []*Term, c *Term) Model {
	T := E.T
	tries := 0
	ok := func(m Model) bool {
		for _, x := range conds {
			if T.Eval(x, m) != 1 {
				return false
			}
		}
		return true
	}
	var rec func(c *Term, m Model) Model
	rec = func(c *Term, m Model) Model {
		if c.op == OConst {
			if c.k == 0 {
				return nil
			}
			tries++
			if ok(m) {
				return m
			}
			return nil
		}
		b := baseOf(c)
		if b.w == 0 {
			return nil
		}
		ps := T.pieces(c, b)
		// the piece the current model is in first, then a spread of the others
		step := len(ps)/12 + 1
		for i := 0; i < len(ps) && tries < 40; i++ {
			if ps[i].t == T.False || (len(ps) > 24 && i%step != 0 && (i+1)%step != 0 && ps[i].t != T.True) {
				continue
			}
			lo := uint64(0)
			if i > 0 {
				lo = ps[i-1].hi + 1
			}
			for n, v := range []uint64{lo, ps[i].hi, lo + (ps[i].hi-lo)/2} {
				if n > 0 && v == lo {
					break
				}
				q := make(Model, len(m)+2)
				for k, x := range m {
					q[k] = x
				}
				if !T.invert(b, v, q) {
					return nil
				}
				if r := rec(ps[i].t, q); r != nil {
					return r
				}
				if tries >= 40 {
					return nil
				}
			}
		}
		return nil
	}
	return rec(c, st.model)
}
