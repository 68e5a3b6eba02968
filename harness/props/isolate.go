package props

import (
	"bytes"
	"io"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
	"golang.org/x/text/transform"
	"verif/harness/ref"
	"verif/harness/sym"
)

var (
	_ = reg(H{Name: "C20_Letters", F: C20_Letters, Parts: len(letterOps)})
	_ = reg(H{Name: "C20_History", F: C20_History, Parts: len(letterOps)})
	_ = reg(H{Name: "C20_Elements", F: C20_Elements})
	_ = reg(H{Name: "C20_From", F: C20_From, Parts: 6, Deep: 8})
	_ = reg(H{Name: "C20_To", F: C20_To, Parts: 6, Deep: 8})
	_ = reg(H{Name: "C20_Readers", F: C20_Readers, Parts: 4, Deep: 6})
	_ = reg(H{Name: "C20_Writers", F: C20_Writers, Parts: 3, Deep: 5})
	_ = reg(H{Name: "C20_Transformers", F: C20_Transformers, Parts: 4})
	_ = reg(H{Name: "C20_Wrappers", F: C20_Wrappers, Parts: 4})
	_ = reg(H{Name: "C20_Hanja", F: C20_Hanja, Parts: 2})
)

// letterOps call a function of the root package and check its result.
var letterOps = []func(r rune){
	func(r rune) {
		l, m, t := hangul.Split(r)
		rl, rm, rt := parts(r)
		sym.Assert(l == rl && m == rm && t == rt, "Split")
	},
	func(r rune) {
		l, m, t := hangul.SplitCompat(r)
		rl, rm, rt := parts(r)
		sym.Assert(l == ref.Compat(rl) && m == ref.Compat(rm) && t == ref.Compat(rt), "SplitCompat")
	},
	func(r rune) {
		want := rune(0xFFFD)
		if t := ref.Tail(r); t != 0 {
			want = 0xAC00 + t - 0x11A7
		}
		if r == 0 {
			want = 0xAC00
		}
		sym.Assert(hangul.Join(hangul.G, hangul.A, r) == want, "Join")
	},
	func(r rune) { sym.Assert(hangul.CompatJamo(r) == ref.Compat(r), "CompatJamo") },
	func(r rune) { sym.Assert(hangul.Lead(r) == ref.Lead(r), "Lead") },
	func(r rune) { sym.Assert(hangul.Medial(r) == ref.Vowel(r), "Medial") },
	func(r rune) { sym.Assert(hangul.Tail(r) == ref.Tail(r), "Tail") },
	func(r rune) {
		sym.Assert(hangul.IsHangul(r) == (ref.IsSyllable(r) || ref.Compat(r) != 0), "IsHangul")
		sym.Assert((hangul.IsJaeum(r) || hangul.IsMoeum(r)) == (ref.Compat(r) != 0), "IsJaeum, IsMoeum")
	},
	func(r rune) {
		es, ok := hangul.SplitMultiElement(r)
		sym.Assert(ok == (ref.Elem(r, 0) != 0), "SplitMultiElement")
		for i, e := range es {
			sym.Assert(e == ref.Elem(r, i), "SplitMultiElement: element")
		}
	},
	func(r rune) {
		n := ref.Strokes(r)
		if ref.IsSyllable(r) {
			l, m, t := ref.Parts(r)
			n = ref.Strokes(l) + ref.Strokes(m) + ref.Strokes(t)
		}
		sym.Assert(hangul.Stroke(r) == n, "Stroke")
	},
	func(r rune) {
		sym.Assert(hangul.LastConsonant("a"+string(r)) == tailOf(r), "LastConsonant")
	},
	func(r rune) {
		w := "말" + string(r)
		want := w + "는"
		if tailOf(r) != 0 {
			want = w + "은"
		}
		sym.Assert(hangul.AppendPostposition(w, "은", "는") == want, "AppendPostposition")
	},
}

func parts(r rune) (l, m, t rune) {
	if !ref.IsSyllable(r) {
		return 0, 0, 0
	}
	return ref.Parts(r)
}

// letter is a syllable or a jamo.
func letter(name string, kind int) rune {
	r := rune(sym.Uint16(name))
	switch kind {
	case 0:
		sym.Assume(0xAC00 <= r && r <= 0xD7A3)
	case 1:
		sym.Assume(0x1100 <= r && r <= 0x11FF)
	default:
		sym.Assume(0x3130 <= r && r <= 0x318F)
	}
	return r
}

// C20_Letters: the function of the part before and after any other, and after itself.
func C20_Letters() {
	f := letterOps[sym.Part(len(letterOps))]
	g := letterOps[sym.Choose("g", len(letterOps))]
	kind := sym.Choose("kind", 3)
	a, b := letter("a", kind), letter("b", kind)
	f(a)
	g(b)
	f(b)
	f(a)
	sym.Reach("repeated")
}

// C20_History: the function of the part after hundreds of calls of all functions.
func C20_History() {
	n := []int{40, 300}[sym.Choose("n", 2)]
	for i := 0; i < n; i++ {
		r := rune(0xAC00 + i*37%11172)
		if i%3 == 0 {
			r = rune(0x1100 + i*7%256)
		}
		if i%3 == 1 {
			r = rune(0x3130 + i*5%0x60)
		}
		hangul.Split(r)
		hangul.SplitCompat(r)
		hangul.Join(r, r+1, r+2)
		hangul.Join(0x1100+rune(i%19), 0x1161+rune(i%21), 0x11A8+rune(i%27))
		hangul.IsHangul(r)
		hangul.Stroke(r)
		hangul.Tail(r)
		hangul.LastConsonant(string(r))
		hangul.AppendPostposition(string(r), "이", "가")
		if es, _ := hangul.SplitMultiElement(r); len(es) > 0 {
			es[i%len(es)] = 'x'
		}
	}
	r := letter("r", sym.Choose("kind", 3))
	letterOps[sym.Part(len(letterOps))](r)
	sym.Reach("after a history")
}

// C20_Elements: a caller who writes into the returned elements.
func C20_Elements() {
	r := sym.Rune("r")
	es, ok := hangul.SplitMultiElement(r)
	if !ok {
		sym.Reach("not compound")
		return
	}
	strokes := hangul.Stroke(r)
	kept := append([]rune{}, es...)
	form := ref.Compat(r)
	again, _ := hangul.SplitMultiElement(form)
	switch sym.Choose("write", 3) {
	case 0:
		for i := range es {
			es[i] = 'x'
		}
	case 1:
		es = append(es[:1], 'y', 'z')
	case 2:
		es = es[:cap(es)]
		for i := range es {
			es[i] = 0
		}
	}
	for i, x := range again {
		sym.Assert(x == kept[i], "a write into a result changes another result")
	}
	third, ok := hangul.SplitMultiElement(r)
	sym.Assert(ok && len(third) == len(kept), "a write into a result changes the next result")
	for i, x := range third {
		sym.Assert(x == kept[i], "a write into a result changes the next result")
	}
	sym.Assert(hangul.Stroke(r) == strokes, "a write into a result changes Stroke")
	sym.Reach("compound")
}

// isolated checks a function from bytes to bytes.
func isolated(f func([]byte) ([]byte, error), a, wa, b, wb []byte, failing []byte) {
	in := append(make([]byte, 0, len(a)+3), a...)
	x, err := f(in)
	sym.Assert(err == nil, "error")
	sym.Assert(sym.EqBytes(in, a), "the argument is modified")
	for i := range in {
		in[i] = 'q'
	}
	if len(in) > 0 { // an argument of the same length, in the same memory
		f(in)
	}
	sym.Assert(sym.EqBytes(x, wa), "a write into the argument changes the result")
	if failing != nil {
		f(failing)
	}
	y, err := f(b)
	sym.Assert(err == nil, "error")
	sym.Assert(sym.EqBytes(y, wb), "wrong result after another call")
	sym.Assert(sym.EqBytes(x, wa), "a result changes with a later call")
	x = x[:cap(x)]
	for i := range x {
		x[i] = 'w'
	}
	sym.Assert(sym.EqBytes(y, wb), "two results share memory")
	z, err := f(append([]byte{}, a...))
	sym.Assert(err == nil, "error")
	sym.Assert(sym.EqBytes(z, wa), "the same call gives another result")
	sym.Assert(sym.EqBytes(y, wb), "a result changes with a later call")
	sym.ObsBytes("z", z)
	sym.Reach("isolated")
}

func bytesOf(kind string, n int) (src, want []byte) {
	for i := 0; i < n; i++ {
		src = append(src, "\xC7\xD1\xB1\xDBx"...)
		want = append(want, "한글x"...)
	}
	return
}

// C20_From: two calls of From, a failing one between them.
func C20_From() {
	shapes := [][2]string{{"AD", "A"}, {"A", "DA"}, {"D", "D"}, {"", "D"}, {"DA", ""}, {"AAD", "AD"}, {"DD", "A"}, {"DA", "DD"}}
	k := sym.Part(8)
	s := shapes[k]
	if k != 2 {
		s = [2]string{window(s[0]), window("A" + s[1])[1:]}
	}
	a, wa, _ := units(s[0])
	b, wb, _ := units(s[1])
	if sym.Choose("long", 2) == 1 {
		p, q := bytesOf("", 20)
		a, wa = append(p, a...), append(q, wa...)
	}
	var failing []byte
	if sym.Choose("failing", 2) == 1 {
		failing = []byte{'a', 0xC7, 0xD1, 0xC7}
	}
	isolated(cp949.From, a, wa, b, wb, failing)
}

// C20_To: two calls of To.
func C20_To() {
	shapes := [][2]string{{"13", "1"}, {"1", "31"}, {"3", "3"}, {"", "3"}, {"x3", ""}, {"113", "41"}, {"33", "1"}, {"31", "x3"}}
	k := sym.Part(8)
	s := shapes[k]
	if k != 2 {
		s = [2]string{window(s[0]), window("1" + s[1])[1:]}
	}
	a, wa, _ := chars(s[0])
	b, wb, _ := chars(s[1])
	if sym.Choose("long", 2) == 1 {
		p, q := bytesOf("", 20)
		a, wa = append(q, a...), append(p, wa...)
	}
	isolated(cp949.To, a, wa, b, wb, nil)
}

// C20_Wrappers: Bytes of one decoder or encoder, used again and again.
func C20_Wrappers() {
	e := cp949.NewCP949Encoding()
	switch sym.Part(4) {
	case 0:
		a, wa, _ := units(window("AD"))
		b, wb, _ := units("A")
		isolated(e.NewDecoder().Bytes, a, wa, b, wb, []byte{'a', 0xC7})
	case 1:
		a, wa, _ := units(window("D"))
		b, wb, _ := units(window("DA"))
		isolated(e.NewDecoder().Bytes, a, wa, b, wb, []byte{0xC7})
	case 2:
		a, wa, _ := chars(window("13"))
		b, wb, _ := chars("1")
		isolated(e.NewEncoder().Bytes, a, wa, b, wb, nil)
	case 3:
		a, wa, _ := chars(window("3"))
		b, wb, _ := chars(window("x3"))
		isolated(e.NewEncoder().Bytes, a, wa, b, wb, nil)
	}
}

// C20_Readers: two readers and From in any interleaving.
func C20_Readers() {
	shapes := [][2]string{{"AD", "DA"}, {"DA", "A"}, {"T", "D"}, {"DT", "A"}, {"DD", "D"}, {"DAT", "AD"}}
	s := shapes[sym.Part(6)]
	a, wa, ea := stream(s[0])
	b, wb, eb := stream(s[1])
	ra, err := cp949.NewReader(oneByteIf(sym.Choose("one", 2) == 1, &source{data: a, end: io.EOF}))
	sym.Assert(err == nil, "NewReader: error")
	rb, err := cp949.NewReader(&source{data: b, end: io.EOF})
	sym.Assert(err == nil, "NewReader: error")
	size := []int{1, 2, 4}[sym.Choose("size", 3)]
	got := [2][]byte{}
	var ends [2]error
	rs := [2]io.Reader{ra, rb}
	bufs := [2][]byte{make([]byte, size), make([]byte, size)}
	for step := 0; step < 60 && (ends[0] == nil || ends[1] == nil); step++ {
		k := step % 2
		if step < 4 {
			k = sym.Choose("turn", 2)
		}
		if ends[k] != nil {
			continue
		}
		n, err := rs[k].Read(bufs[k])
		got[k] = append(got[k], bufs[k][:n]...)
		for i := range bufs[k] { // the buffer belongs to the caller
			bufs[k][i] = 'w'
		}
		ends[k] = err
		if step == 2 {
			cp949.From([]byte{0xB1, 0xDB, 'f', 0xB1, 0xDB})
		}
	}
	sym.Assert(sym.EqBytes(got[0], wa) && ends[0] == ea, "first reader disturbed")
	sym.Assert(sym.EqBytes(got[1], wb) && ends[1] == eb, "second reader disturbed")
	sym.Reach("both ended")
}

func oneByteIf(c bool, r io.Reader) io.Reader {
	if c {
		return oneByte{r}
	}
	return r
}

// C20_Writers: two writers and To in any interleaving, with characters in pieces.
func C20_Writers() {
	shapes := [][2]string{{"3", "31"}, {"13", "3"}, {"4", "13"}, {"33", "1"}, {"23", "3"}}
	s := shapes[sym.Part(5)]
	a, wa, _ := chars(window(s[0]))
	b, wb, _ := chars(window("1" + s[1])[1:])
	src := [2][]byte{a, b}
	want := [2][]byte{wa, wb}
	var d [2]sink
	var ws [2]io.Writer
	for k := range ws {
		w, err := cp949.NewWriter(&d[k])
		sym.Assert(err == nil, "NewWriter: error")
		ws[k] = w
	}
	for step := 0; len(src[0]) > 0 || len(src[1]) > 0; step++ {
		k := step % 2
		if step < 5 {
			k = sym.Choose("turn", 2)
		}
		if len(src[k]) == 0 {
			k = 1 - k
		}
		p := []byte{src[k][0]}
		n, err := ws[k].Write(p)
		sym.Assert(n == 1 && err == nil, "Write: count or error")
		p[0] = 'w'
		src[k] = src[k][1:]
		if step == 2 {
			cp949.To([]byte("\xEA\xB8"))
		}
	}
	for k := range ws {
		sym.Assert(sym.EqBytes(d[k].got, want[k]), "writer disturbed")
	}
	sym.Reach("both written")
}

// C20_Transformers: Transform of one instance on unrelated inputs, and of two in turn.
func C20_Transformers() {
	e := cp949.NewCP949Encoding()
	dec, enc := e.NewDecoder().Transformer, e.NewEncoder().Transformer
	d2, e2 := e.NewDecoder().Transformer, e.NewEncoder().Transformer
	call := func(t transform.Transformer, src, want []byte, room int) {
		dst := make([]byte, room)
		n, m, err := t.Transform(dst, src, true)
		sym.Assert(err == nil && m == len(src), "Transform: error or count")
		sym.Assert(sym.EqBytes(dst[:n], want), "Transform: wrong output")
	}
	a, wa, _ := units(window("AD"))
	b, wb, _ := units(window("D"))
	x, wx, _ := chars(window("13"))
	y, wy, _ := chars(window("3"))
	switch sym.Part(4) {
	case 0: // short of room, then something else
		dec.Transform(make([]byte, 1), a, true)
		if sym.Choose("reset", 2) == 1 {
			dec.Reset()
		}
		call(dec, b, wb, 8)
		call(dec, a, wa, 8)
	case 1: // truncated, then something else
		dec.Transform(make([]byte, 8), []byte{0xC7}, sym.Choose("eof", 2) == 1)
		dec.Reset()
		call(dec, b, wb, 8)
		call(d2, a, wa, 8)
	case 2:
		enc.Transform(make([]byte, 1), x, true)
		enc.Transform(make([]byte, 8), []byte{0xED, 0x95}, sym.Choose("eof", 2) == 1)
		enc.Reset()
		call(enc, y, wy, 8)
		call(e2, x, wx, 8)
	case 3: // in turn
		k := sym.Choose("order", 2)
		if k == 1 {
			dec, d2, enc, e2 = d2, dec, e2, enc
		}
		call(dec, a, wa, 8)
		call(enc, x, wx, 8)
		call(d2, b, wb, 8)
		call(e2, y, wy, 8)
		call(dec, b, wb, 8)
		call(enc, y, wy, 8)
	}
	sym.Reach("called")
}

// C20_Hanja: Convert and IsHanja again and again.
func C20_Hanja() {
	var r, q rune
	if sym.Part(2) == 0 {
		r = rune3()
		q = '漢'
	} else {
		r = rune(sym.Uint16("r"))
		sym.Assume(0x4E00 <= r && r <= 0x9FFF)
		q = rune(sym.Uint16("q"))
		sym.Assume(0x3400 <= q && q <= 0x4DBF)
	}
	in := string(r) + "a"
	first := hanja.Convert(in)
	is := hanja.IsHanja(r)
	other := hanja.Convert("字" + string(q))
	hanja.IsHanja(q)
	hanja.Convert("")
	sym.Assert(hanja.Convert(in) == first, "Convert: another result")
	sym.Assert(hanja.IsHanja(r) == is, "IsHanja: another result")
	sym.Assert(hanja.Convert("字"+string(q)) == other, "Convert: another result")
	sym.Reach("repeated")
}

var _ = bytes.Equal

var (
	_ = reg(H{Name: "C20_Join", F: C20_Join, Parts: 4})
	_ = reg(H{Name: "C20_Particles", F: C20_Particles, Parts: 4})
)

func join(l, m, t rune) rune {
	rl, rm, rt := ref.Lead(l), ref.Vowel(m), ref.Tail(t)
	valid := sym.And(rl != 0, sym.And(rm != 0, sym.Or(t == 0, rt != 0)))
	ti := sym.IteRune(t == 0, 0, rt-0x11A7)
	return sym.IteRune(valid, 0xAC00+((rl-0x1100)*21+(rm-0x1161))*28+ti, 0xFFFD)
}

// C20_Join: Join after any other Join. The letters are of the forms of the part, or anything.
func C20_Join() {
	p := sym.Part(4)
	get := func(name string, form int) rune {
		r := rune(sym.Uint16(name))
		if form == 0 {
			sym.Assume(0x1100 <= r && r <= 0x11FF)
		} else {
			sym.Assume(0x3130 <= r && r <= 0x318F)
		}
		return r
	}
	l, m := get("l", p&1), get("m", p&1)
	l2, m2 := get("l2", p>>1), get("m2", p>>1)
	t, t2 := rune(0), rune(0)
	if sym.Choose("t", 2) == 1 {
		t = get("t", p&1)
	}
	if sym.Choose("t2", 2) == 1 {
		t2 = get("t2", p>>1)
	}
	sym.Assert(hangul.Join(l, m, t) == join(l, m, t), "Join: first")
	sym.Assert(hangul.Join(l2, m2, t2) == join(l2, m2, t2), "Join after Join")
	sym.Assert(hangul.Join(l, m, t) == join(l, m, t), "Join again")
	sym.Reach("repeated")
}

// C20_Particles: words and particles after other words and particles.
func C20_Particles() {
	pairs := [][2]string{{"이", "가"}, {"으로", "로"}, {"은", "는"}, {"으로서", "로서"}}
	call := func(name string, p int) {
		r := rune(sym.Uint16(name))
		sym.Assume(0xAC00 <= r && r <= 0xD7A3)
		w := []string{"", "말", "가나다"}[sym.Choose(name+"w", 3)] + string(r)
		t := tailOf(r)
		with, without := pairs[p][0], pairs[p][1]
		sym.Assert(hangul.LastConsonant(w) == t, "LastConsonant after another word")
		if sym.Choose(name+"no", 2) == 1 {
			with = ""
		}
		want := w + without
		if t != 0 && !(with == "으로" && t == hangul.TailL) {
			want = w + with
		}
		sym.Assert(hangul.AppendPostposition(w, with, without) == want, "AppendPostposition after another word")
	}
	p := sym.Part(4)
	call("a", p)
	call("b", (p+sym.Choose("p", 4))%4)
	sym.Reach("repeated")
}
