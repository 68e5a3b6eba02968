package props

import (
	"io"
	"strings"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
	"verif/harness/ref"
	"verif/harness/sym"
)

// Two characters at any distance: a fixed one of each kind, ASCII bytes, an arbitrary one,
// and ASCII bytes, so that code that takes several bytes in one step meets every mixture.

var (
	_ = reg(H{Name: "C13_Apart", F: C13_Apart, Parts: 4})
	_ = reg(H{Name: "C14_Apart", F: C14_Apart, Parts: 6})
	_ = reg(H{Name: "C15_Apart", F: C15_Apart, Parts: 4})
	_ = reg(H{Name: "C16_Apart", F: C16_Apart, Parts: 6})
	_ = reg(H{Name: "C17_Apart", F: C17_Apart, Parts: 4})
	_ = reg(H{Name: "C18_Apart", F: C18_Apart, Parts: 6})
	_ = reg(H{Name: "C21_Apart", F: C21_Apart, Parts: 4})
)

func apart(x, wx string, y, wy []byte) (src, want []byte) {
	n := 18
	if sym.Thorough() {
		n = 67
	}
	k := sym.Choose("between", n)
	pre := strings.Repeat("p", []int{0, 3}[sym.Choose("before", 2)])
	behind := strings.Repeat("z", []int{0, 9}[sym.Choose("behind", 2)])
	a := strings.Repeat("Q", k)
	src = append(append([]byte(pre+x+a), y...), behind...)
	want = append(append([]byte(pre+wx+a), wy...), behind...)
	return
}

func decApart() (src, want []byte) {
	f := [][2]string{{"\xC7\xD1", "한"}, {"\xC9\xA1", "\uFFFD"}, {"\xA8\xAA", "Ø"}, {"\x81\x20", "\uFFFD"}}[sym.Part(4)]
	y, wy, _ := units([]string{"d", "e"}[sym.Part(4)%2])
	return apart(f[0], f[1], y, wy)
}

func encApart() (src, want []byte) {
	f := [][2]string{{"é", "?"}, {"한", "\xC7\xD1"}, {"\U0001F600", "?"}, {"\x80", "?"}, {"\xED\x95", "??"}, {"\uFFFD", "?"}}[sym.Part(6)]
	y, wy, _ := chars([]string{"s", "x", "k", "x", "s", "k"}[sym.Part(6)])
	return apart(f[0], f[1], y, wy)
}

// C13_Apart: From.
func C13_Apart() {
	src, want := decApart()
	got, err := cp949.From(src)
	sym.Assert(err == nil, "From: error on whole units")
	sym.Assert(sym.EqBytes(got, want), "From: not the concatenation of its units")
	sym.Reach("end")
}

// C14_Apart: To.
func C14_Apart() {
	src, want := encApart()
	got, err := cp949.To(src)
	sym.Assert(err == nil, "To: error")
	sym.Assert(sym.EqBytes(got, want), "To: not the concatenation of its characters")
	sym.Reach("end")
}

// C15_Apart: the reader.
func C15_Apart() {
	src, want := decApart()
	r, err := cp949.NewReader(&source{data: src, max: []int{100, 9}[sym.Choose("max", 2)], step: true, end: io.EOF})
	sym.Assert(err == nil, "NewReader: error")
	checkReader(r, always([]int{200, 7}[sym.Choose("size", 2)]), want, io.EOF)
	sym.Reach("end")
}

// C16_Apart: the writer.
func C16_Apart() {
	src, want := encApart()
	d := &sink{}
	w, err := cp949.NewWriter(d)
	sym.Assert(err == nil, "NewWriter: error")
	n := []int{200, 11}[sym.Choose("size", 2)]
	for len(src) > 0 {
		if n > len(src) {
			n = len(src)
		}
		k, err := w.Write(src[:n])
		sym.Assert(err == nil && k == n, "Write: error or count")
		src = src[n:]
	}
	sym.Assert(sym.EqBytes(d.got, want), "Writer: wrong bytes at the destination")
	sym.Reach("end")
}

// C17_Apart: the decoder.
func C17_Apart() {
	src, want := decApart()
	t := cp949.NewCP949Encoding().NewDecoder()
	sym.Assert(sym.EqBytes(pump(t.Transformer, src, []int{200, 11}[sym.Choose("room", 2)]), want), "differs from the decoding")
	sym.Reach("end")
}

// C18_Apart: the encoder.
func C18_Apart() {
	src, want := encApart()
	t := cp949.NewCP949Encoding().NewEncoder()
	sym.Assert(sym.EqBytes(pump(t.Transformer, src, []int{200, 11}[sym.Choose("room", 2)]), want), "differs from the encoding")
	sym.Reach("end")
}

// C21_Apart: hanja.Convert.
func C21_Apart() {
	f := [][2]string{{"é", "é"}, {"漢", "한"}, {"\U00020000", "\U00020000"}, {"\x80", "\uFFFD"}}[sym.Part(4)]
	r := 0x6F00 | rune(sym.Byte("r"))
	w := string(r)
	if hanjaSplit(r) {
		w = string(ref.Reading(r))
	}
	src, want := apart(f[0], f[1], []byte(string(r)), []byte(w))
	sym.Assert(hanja.Convert(string(src)) == string(want), "Convert is not character by character")
	sym.Reach("end")
}
