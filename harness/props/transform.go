package props

import (
	"bytes"
	"io"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"golang.org/x/text/transform"
	"verif/harness/ref"
	"verif/harness/sym"
)

var (
	_ = reg(H{Name: "C17_Transform", F: C17_Transform, Parts: 10, Deep: 16})
	_ = reg(H{Name: "C17_Blocks", F: C17_Blocks, Parts: 2})
	_ = reg(H{Name: "C18_Blocks", F: C18_Blocks, Parts: 3})
	_ = reg(H{Name: "C17_Wrappers", F: C17_Wrappers, Parts: 8, Deep: 12})
	_ = reg(H{Name: "C17_Long", F: C17_Long, Parts: 6, Deep: 8})
	_ = reg(H{Name: "C18_Transform", F: C18_Transform, Parts: 10, Deep: 15})
	_ = reg(H{Name: "C18_Bytes", F: C18_Bytes, Parts: 4, Deep: 5})
	_ = reg(H{Name: "C18_Wrappers", F: C18_Wrappers, Parts: 8, Deep: 10})
	_ = reg(H{Name: "C18_Long", F: C18_Long, Parts: 6, Deep: 8})
)

// item is one unit of the input of a transformation and what it becomes.
type item struct {
	in, out []byte
	part    bool // incomplete, may still be completed
}

// transformOnce calls Transform once and checks all that the contract says about it.
func transformOnce(t transform.Transformer, items []item, size int, atEOF bool) {
	var src []byte
	for _, x := range items {
		src = append(src, x.in...)
	}
	in := append(make([]byte, 0, len(src)+4), src...)
	back := bytes.Repeat([]byte{0x55}, size+4)
	nDst, nSrc, err := t.Transform(back[:size:size+4], in, atEOF)
	sym.Obs("nDst", nDst)
	sym.Obs("nSrc", nSrc)
	sym.Assert(0 <= nDst && nDst <= size, "nDst out of range")
	sym.Assert(0 <= nSrc && nSrc <= len(src), "nSrc out of range")
	sym.ObsBytes("dst", back[:nDst])
	for i := 0; i < 4; i++ {
		sym.Assert(back[size+i] == 0x55, "Transform writes beyond dst")
	}
	sym.Assert(sym.EqBytes(in, src), "Transform changes src")
	// the consumed items
	var out []byte
	k, pos := 0, 0
	for k < len(items) && pos < nSrc {
		pos += len(items[k].in)
		out = append(out, items[k].out...)
		sym.Assert(!items[k].part || atEOF, "an incomplete unit is consumed")
		k++
	}
	sym.Assert(pos == nSrc, "a unit is consumed in part")
	sym.Assert(len(out) == nDst, "nDst does not belong to nSrc")
	sym.Assert(sym.EqBytes(back[:nDst], out), "output is not that of the consumed input")
	switch {
	case err == nil:
		sym.Assert(nSrc == len(src), "nil, but not everything is consumed")
		sym.Reach("nil")
	case err == transform.ErrShortDst:
		sym.Assert(k < len(items) && !items[k].part && nDst+len(items[k].out) > size ||
			k < len(items) && items[k].part && atEOF && nDst+len(items[k].out) > size, "ErrShortDst, but the next unit fits")
		sym.Reach("short dst")
	case err == transform.ErrShortSrc:
		sym.Assert(!atEOF && k < len(items) && items[k].part, "ErrShortSrc, but the next unit is complete")
		sym.Reach("short src")
	default:
		sym.Assert(atEOF && k < len(items) && items[k].part, "error on complete input")
		sym.Reach("truncated")
	}
}

func decItems(shape string) (items []item, trunc bool) {
	for i := range shape {
		s, w, whole := units(shape[i : i+1])
		items = append(items, item{s, w, !whole})
		trunc = !whole
	}
	return
}

var decShapes = []string{"", "A", "D", "T", "AD", "DA", "AT", "DT", "AAT", "DAT",
	"DD", "ADA", "DAD", "DDT", "ADAT", "DDD"}

func sizesFor(shape string) int { return 3*len(shape) + 2 }

// C17_Transform: any units, any room in dst, end of input or not.
func C17_Transform() {
	shape := decShapes[sym.Part(16)]
	items, trunc := decItems(shape)
	atEOF := sym.Choose("atEOF", 2) == 1
	size := sym.Choose("dst", sizesFor(shape))
	d := cp949.NewCP949Encoding().NewDecoder().Transformer
	d.Reset()
	transformOnce(d, items, size, atEOF)
	if trunc && atEOF && size >= sizesFor(shape)-2 {
		var src []byte
		for _, x := range items {
			src = append(src, x.in...)
		}
		_, _, err := d.Transform(make([]byte, size), src, true)
		sym.Assert(err != nil, "truncated input accepted")
	}
}

// around is a room for n bytes, or nearly.
func around(n int) int {
	n += []int{0, -1, -2, -3, -9, -17, 40}[sym.Choose("room", 7)]
	if n < 0 {
		n = 0
	}
	return n
}

// C17_Blocks: a unit and ASCII bytes at every offset modulo 16 and more.
func C17_Blocks() {
	n := sym.Choose("before", 18)
	u := []string{"d", "T"}[sym.Part(2)]
	m := []int{0, 1, 7, 16}[sym.Choose("behind", 4)]
	if u == "T" {
		m = 0
	}
	items, _ := decItems(block("A", u, n, m))
	need := 0
	for _, x := range items {
		need += len(x.out)
	}
	transformOnce(cp949.NewCP949Encoding().NewDecoder().Transformer, items, around(need), sym.Choose("atEOF", 2) == 1)
}

// C17_Wrappers: Bytes, String and Reader of the decoder on any units.
func C17_Wrappers() {
	shape := []string{"", "A", "D", "T", "AD", "AT", "DT", "DA", "DD", "DAT", "ADA", "DDT"}[sym.Part(12)]
	src, want, whole := units(shape)
	e := cp949.NewCP949Encoding()
	switch sym.Choose("wrapper", 3) {
	case 0:
		got, err := e.NewDecoder().Bytes(src)
		sym.ObsBytes("got", got)
		if whole {
			sym.Assert(err == nil && sym.EqBytes(got, want), "Bytes differs from the decoding")
		} else {
			sym.Assert(err != nil, "Bytes: truncated input accepted")
		}
		sym.Reach("Bytes")
	case 1:
		got, err := e.NewDecoder().String(string(src))
		sym.ObsStr("got", got)
		if whole {
			sym.Assert(err == nil && sym.EqBytes([]byte(got), want), "String differs from the decoding")
		} else {
			sym.Assert(err != nil, "String: truncated input accepted")
		}
		sym.Reach("String")
	case 2:
		s := &source{data: src, max: 3, end: io.EOF, withEnd: sym.Choose("withEnd", 2) == 1}
		got, err := drain(e.NewDecoder().Reader(s), always([]int{1, 2, 16}[sym.Choose("size", 3)]), len(want)+8)
		sym.ObsBytes("got", got)
		if whole {
			sym.Assert(sym.EqBytes(got, want), "Reader differs from the decoding")
			sym.Assert(err == io.EOF, "Reader: wrong end")
		} else {
			sym.Assert(err != nil && err != io.EOF, "Reader: truncated input accepted")
			sym.Assert(len(got) <= len(want) && sym.EqBytes(got, want[:len(got)]), "Reader: wrong text before the error")
		}
		sym.Reach("Reader")
	}
}

// C17_Long: inputs longer than the buffers of the wrappers.
func C17_Long() {
	n := []int{120, 1361, 2046, 2730, 4093, 5461, 8190, 300}[sym.Part(8)]
	var src, want []byte
	add := func(b, w string) {
		src = append(src, b...)
		want = append(want, w...)
	}
	// the output passes the buffer size (4096) in the middle of a character
	for len(want) < n-4 {
		add("\xC7\xD1", "한")
	}
	for len(want) < n {
		add("x", "x")
	}
	s, w, _ := units("DA")
	src = append(append(src, s...), "\xC7\xD1z"...)
	want = append(append(want, w...), "한z"...)
	trunc := sym.Choose("truncated", 2) == 1
	if trunc {
		src = append(src, 0xC7)
	}
	e := cp949.NewCP949Encoding()
	var got []byte
	var err error
	switch sym.Choose("wrapper", 3) {
	case 0:
		got, err = e.NewDecoder().Bytes(src)
	case 1:
		var s string
		s, err = e.NewDecoder().String(string(src))
		got = []byte(s)
	case 2:
		got, err = drain(e.NewDecoder().Reader(bytes.NewReader(src)), always(2000), len(want)+8)
		if !trunc {
			sym.Assert(sym.EqBytes(got, want), "Reader differs from the decoding")
		}
		if err == io.EOF {
			err = nil
		}
	}
	if trunc {
		sym.Assert(err != nil, "truncated input accepted")
		sym.Reach("truncated")
		return
	}
	sym.Assert(err == nil, "error")
	sym.Assert(sym.EqBytes(got, want), "differs from the decoding")
	sym.Reach("whole")
}

// ---- encoder ----

func encItems(shape string) (items []item) {
	for i := range shape {
		k := shape[i]
		s, w, _ := chars(shape[i : i+1])
		if k == 'h' || k == 'i' || k == 'j' {
			if i == len(shape)-1 {
				items = append(items, item{s, w, true})
				continue
			}
		}
		if k >= 'h' && k <= 'j' {
			for j := range s {
				items = append(items, item{s[j : j+1], w[j : j+1], false})
			}
			continue
		}
		items = append(items, item{s, w, false})
	}
	return
}

var encShapes = []string{"", "1", "2", "3", "4", "13", "31", "x3", "3h", "1i",
	"33", "j", "x1x", "h3", "323"}

// C18_Transform: any characters, any room in dst, end of input or not.
func C18_Transform() {
	shape := encShapes[sym.Part(15)]
	items := encItems(shape)
	atEOF := sym.Choose("atEOF", 2) == 1
	if n := len(items); n > 0 && items[n-1].part && atEOF {
		// no more input: each byte is malformed
		last := items[n-1]
		items = items[:n-1]
		for j := range last.in {
			items = append(items, item{last.in[j : j+1], last.out[j : j+1], false})
		}
	}
	size := sym.Choose("dst", 2*len(shape)+3)
	t := cp949.NewCP949Encoding().NewEncoder().Transformer
	t.Reset()
	transformOnce(t, items, size, atEOF)
}

// C18_Bytes: any byte string of the length of the part + 1.
func C18_Bytes() {
	n := sym.Part(5) + 1
	b := sym.Bytes("b", n)
	atEOF := sym.Choose("atEOF", 2) == 1
	var items []item
	for i := 0; i < n; {
		if !atEOF && i+3 >= n {
			if sym.Choose("incomplete", 2) == 1 {
				sym.Assume(ref.Incomplete(b[i:]))
				items = append(items, item{in: b[i:], part: true})
				break
			}
			sym.Assume(!ref.Incomplete(b[i:]))
		}
		r, k := nextRune(b[i:])
		c := ref.EncodeRune(r)
		w := []byte{byte(c)}
		if k > 1 {
			w = appendCode(nil, c)
		}
		items = append(items, item{in: b[i : i+k], out: w})
		i += k
	}
	size := []int{0, 1, 2, 3, 8}[sym.Choose("dst", 5)]
	transformOnce(cp949.NewCP949Encoding().NewEncoder().Transformer, items, size, atEOF)
}

// C18_Blocks: a character and ASCII bytes at every offset modulo 16 and more.
func C18_Blocks() {
	n := sym.Choose("before", 18)
	u := []string{"s", "x", "h"}[sym.Part(3)]
	m := []int{0, 1, 7, 16}[sym.Choose("behind", 4)]
	if u == "h" {
		m = 0
	}
	items := encItems(block("1", u, n, m))
	need := 0
	for _, x := range items {
		need += len(x.out)
	}
	transformOnce(cp949.NewCP949Encoding().NewEncoder().Transformer, items, around(need), sym.Choose("atEOF", 2) == 1)
}

// C18_Wrappers: Bytes, String and Writer of the encoder on any characters.
func C18_Wrappers() {
	shape := []string{"", "1", "2", "3", "4", "x1", "h", "3h", "31", "j1"}[sym.Part(10)]
	src, want, _ := chars(shape)
	e := cp949.NewCP949Encoding()
	switch sym.Choose("wrapper", 3) {
	case 0:
		got, err := e.NewEncoder().Bytes(src)
		sym.ObsBytes("got", got)
		sym.Assert(err == nil && sym.EqBytes(got, want), "Bytes differs from the encoding")
		sym.Reach("Bytes")
	case 1:
		got, err := e.NewEncoder().String(string(src))
		sym.ObsStr("got", got)
		sym.Assert(err == nil && sym.EqBytes([]byte(got), want), "String differs from the encoding")
		sym.Reach("String")
	case 2:
		d := &sink{}
		w := e.NewEncoder().Writer(d)
		for pos := 0; pos < len(src); {
			n := len(src) - pos
			n -= sym.Choose("n", n)
			k, err := w.Write(src[pos : pos+n])
			sym.Assert(err == nil && k == n, "Writer: count or error")
			pos += n
		}
		err := w.(io.Closer).Close()
		sym.ObsBytes("got", d.got)
		sym.Assert(err == nil, "Writer: error of Close")
		sym.Assert(sym.EqBytes(d.got, want), "Writer differs from the encoding")
		sym.Reach("Writer")
	}
}

// C18_Long: inputs longer than the buffers of the wrappers.
func C18_Long() {
	n := []int{120, 1361, 2046, 4094, 4096, 6141, 8190, 300}[sym.Part(8)]
	var src, want []byte
	add := func(b, w string) {
		src = append(src, b...)
		want = append(want, w...)
	}
	for len(src) < n-4 {
		add("한", "\xC7\xD1")
	}
	for len(src) < n {
		add("x", "x")
	}
	s, w, _ := chars("31")
	src = append(append(src, s...), "한z"...)
	want = append(append(want, w...), "\xC7\xD1z"...)
	e := cp949.NewCP949Encoding()
	var got []byte
	var err error
	switch sym.Choose("wrapper", 3) {
	case 0:
		got, err = e.NewEncoder().Bytes(src)
	case 1:
		var s string
		s, err = e.NewEncoder().String(string(src))
		got = []byte(s)
	case 2:
		d := &sink{}
		w := e.NewEncoder().Writer(d)
		half := len(src) / 2
		k, err1 := w.Write(src[:half])
		sym.Assert(err1 == nil && k == half, "Writer: count or error")
		k, err1 = w.Write(src[half:])
		sym.Assert(err1 == nil && k == len(src)-half, "Writer: count or error")
		err = w.(io.Closer).Close()
		got = d.got
	}
	sym.Assert(err == nil, "error")
	sym.Assert(sym.EqBytes(got, want), "differs from the encoding")
	sym.Reach("whole")
}
