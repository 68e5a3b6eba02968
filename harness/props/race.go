package props

import (
	"bytes"
	"io"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
	"golang.org/x/text/transform"
	"verif/harness/ref"
	"verif/harness/sym"
)

var (
	_ = reg(H{Name: "C23_Pairs", F: C23_Pairs, Parts: len(parOps), Race: true})
	_ = reg(H{Name: "C23_Same", F: C23_Same, Parts: len(parOps), Race: true})
	_ = reg(H{Name: "C23_Letters", F: C23_Letters, Parts: len(letterOps), Race: true})
)

// A parOp prepares a call: run performs it and checks its result; check, if not nil, checks
// the result once more when the other call has ended too. Nothing symbolic is created in run.
type parOp struct {
	name string
	prep func() (run, check func())
}

// conversion is a parOp from bytes to bytes.
func conversion(f func([]byte) ([]byte, error), src, want []byte) (run, check func()) {
	var out []byte
	run = func() {
		x, err := f(src)
		sym.Assert(err == nil && sym.EqBytes(x, want), "wrong result of a concurrent call")
		out = x
	}
	check = func() {
		sym.Assert(sym.EqBytes(out, want), "the result of a concurrent call changes afterwards")
	}
	return
}

func throughReader(src []byte) ([]byte, error) {
	r, err := cp949.NewReader(&source{data: src, end: io.EOF})
	if err != nil {
		return nil, err
	}
	out, err := readAll(r, 4)
	if isEOF(err) {
		err = nil
	}
	return out, err
}

func throughWriter(src []byte) ([]byte, error) {
	var d sink
	w, err := cp949.NewWriter(&d)
	if err != nil {
		return nil, err
	}
	if _, err := w.Write(src[:len(src)-1]); err != nil {
		return nil, err
	}
	_, err = w.Write(src[len(src)-1:])
	return d.got, err
}

func through(t transform.Transformer) func([]byte) ([]byte, error) {
	return func(src []byte) ([]byte, error) {
		var out []byte
		dst := make([]byte, 4)
		for {
			n, m, err := t.Transform(dst, src, true)
			out = append(out, dst[:n]...)
			src = src[m:]
			if err != transform.ErrShortDst {
				return out, err
			}
		}
	}
}

var parOps = []parOp{
	{"letters", func() (func(), func()) {
		r := letter("letter", 0)
		return func() { letterOps[0](r); letterOps[9](r); letterOps[10](r); letterOps[11](r) }, nil
	}},
	{"jamo", func() (func(), func()) {
		r := letter("jamo", 1)
		return func() { letterOps[2](r); letterOps[3](r); letterOps[7](r); letterOps[9](r) }, nil
	}},
	{"compatibility jamo", func() (func(), func()) {
		r := letter("compat", 2)
		var es []rune
		return func() {
				letterOps[4](r)
				letterOps[5](r)
				letterOps[6](r)
				letterOps[9](r)
				es, _ = hangul.SplitMultiElement(r)
			}, func() {
				for i, e := range es {
					sym.Assert(e == ref.Elem(r, i), "the result of a concurrent call changes afterwards")
				}
			}
	}},
	{"From", func() (func(), func()) {
		a, wa, _ := units(window("DA"))
		return conversion(cp949.From, a, wa)
	}},
	{"From ASCII", func() (func(), func()) {
		a, wa, _ := units("AA")
		return conversion(cp949.From, a, wa)
	}},
	{"From truncated", func() (func(), func()) {
		a, _, _ := units(window("D"))
		a = append(a, 0xC7)
		return func() {
			_, err := cp949.From(a)
			sym.Assert(err != nil, "no error for a truncated text")
		}, nil
	}},
	{"To", func() (func(), func()) {
		a, wa, _ := chars(window("31"))
		return conversion(cp949.To, a, wa)
	}},
	{"To outside the code page", func() (func(), func()) {
		a, wa, _ := chars("x4")
		return conversion(cp949.To, a, wa)
	}},
	{"reader", func() (func(), func()) {
		a, wa, _ := units(window("AD"))
		return conversion(throughReader, a, wa)
	}},
	{"writer", func() (func(), func()) {
		a, wa, _ := chars(window("13"))
		return conversion(throughWriter, a, wa)
	}},
	{"decoder", func() (func(), func()) {
		a, wa, _ := units(window("AD"))
		return conversion(func(p []byte) ([]byte, error) {
			return cp949.NewCP949Encoding().NewDecoder().Bytes(p)
		}, a, wa)
	}},
	{"encoder", func() (func(), func()) {
		a, wa, _ := chars(window("13"))
		return conversion(func(p []byte) ([]byte, error) {
			return cp949.NewCP949Encoding().NewEncoder().Bytes(p)
		}, a, wa)
	}},
	{"decoding Transform", func() (func(), func()) {
		a, wa, _ := units(window("DA"))
		return conversion(func(p []byte) ([]byte, error) {
			return through(cp949.NewCP949Encoding().NewDecoder().Transformer)(p)
		}, a, wa)
	}},
	{"encoding Transform", func() (func(), func()) {
		a, wa, _ := chars(window("31"))
		return conversion(func(p []byte) ([]byte, error) {
			return through(cp949.NewCP949Encoding().NewEncoder().Transformer)(p)
		}, a, wa)
	}},
	{"hanja", func() (func(), func()) {
		r := rune3()
		hj := hanjaSplit(r)
		want := string(r)
		if hj {
			want = string(ref.Reading(r))
		}
		want = "a" + want + "국"
		in := "a" + string(r) + "國"
		return conversion(func(p []byte) ([]byte, error) {
			return []byte(hanja.Convert(string(p))), nil
		}, []byte(in), []byte(want))
	}},
	{"long From", func() (func(), func()) {
		p, q := bytesOf("", 30)
		a, wa, _ := units(window("D"))
		return conversion(cp949.From, append(p, a...), append(q, wa...))
	}},
	{"long To", func() (func(), func()) {
		p, q := bytesOf("", 30)
		a, wa, _ := chars(window("3"))
		return conversion(cp949.To, append(q, a...), append(p, wa...))
	}},
}

// warm calls everything once before the concurrent calls begin.
func warm() {
	for i, c := range []rune{0xAC01, 0x1100, 0x3133} {
		for _, f := range letterOps {
			f(c + rune(i))
		}
	}
	x, _ := cp949.From([]byte("\xC7\xD1x\xB1\xDB"))
	sym.Assert(bytes.Equal(x, []byte("한x글")), "From")
	y, _ := cp949.To([]byte("한x글\U0001F600\xff"))
	sym.Assert(bytes.Equal(y, []byte("\xC7\xD1x\xB1\xDB??")), "To")
	cp949.From([]byte{0xC7})
	throughReader([]byte("\xC7\xD1x"))
	throughWriter([]byte("x글"))
	e := cp949.NewCP949Encoding()
	e.NewDecoder().Bytes([]byte("\xC7\xD1x"))
	e.NewEncoder().Bytes([]byte("한x"))
	hanja.Convert("大韓a")
}

func par(p, q parOp, warmed bool) {
	f, fc := p.prep()
	g, gc := q.prep()
	if warmed {
		warm()
	}
	sym.Share()
	sym.Par(f, g)
	if fc != nil {
		fc()
	}
	if gc != nil {
		gc()
	}
	sym.Reach("both ended")
}

// C23_Pairs: the call of the part with each of the others, as the first calls of the process
// and later.
func C23_Pairs() {
	k := sym.Part(len(parOps))
	par(parOps[k], parOps[sym.Choose("other", len(parOps))], sym.Choose("warm", 2) == 1)
}

// C23_Same: a call with itself, and three calls.
func C23_Same() {
	p := parOps[sym.Part(len(parOps))]
	f, fc := p.prep()
	g, gc := p.prep()
	h, hc := p.prep()
	h()
	sym.Share()
	sym.Par(f, g)
	for _, c := range []func(){fc, gc, hc} {
		if c != nil {
			c()
		}
	}
	sym.Reach("all ended")
}

// C23_Letters: each pair of functions of the root package.
func C23_Letters() {
	f := letterOps[sym.Part(len(letterOps))]
	g := letterOps[sym.Choose("g", len(letterOps))]
	kind := sym.Choose("kind", 3)
	a, b := letter("a", kind), letter("b", kind)
	if sym.Choose("warm", 2) == 1 {
		g(b)
		f(a)
	}
	sym.Share()
	sym.Par(func() { f(a) }, func() { g(b) })
	sym.Reach("both ended")
}
