package props

import (
	"bytes"
	"io"
	"strings"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
	"golang.org/x/text/transform"
	"verif/harness/ref"
	"verif/harness/sym"
)

// Long texts of one kind of character at every phase, so that the end of any block of the
// code falls at any place inside one, with arbitrary characters at the end.

var (
	_ = reg(H{Name: "C13_Fill", F: C13_Fill, Parts: 4, Deep: 4})
	_ = reg(H{Name: "C14_Fill", F: C14_Fill, Parts: 6, Deep: 6})
	_ = reg(H{Name: "C15_Fill", F: C15_Fill, Parts: 4, Deep: 4})
	_ = reg(H{Name: "C16_Fill", F: C16_Fill, Parts: 6, Deep: 6})
	_ = reg(H{Name: "C17_Fill", F: C17_Fill, Parts: 4, Deep: 4})
	_ = reg(H{Name: "C18_Fill", F: C18_Fill, Parts: 6, Deep: 6})
	_ = reg(H{Name: "C21_Fill", F: C21_Fill, Parts: 4, Deep: 4})
)

// fillLen is longer than the usual block sizes.
func fillLen(quick, thorough int) int {
	sym.Steps(60000000)
	if sym.Thorough() {
		return thorough
	}
	return quick
}

// fill is phase ASCII bytes and n bytes of the repeated text.
func fill(in, out string, phase, n int) (src, want []byte) {
	k := n/len(in) + 1
	p := strings.Repeat("p", phase)
	return []byte(p + strings.Repeat(in, k)), []byte(p + strings.Repeat(out, k))
}

func decFill(n int) (src, want []byte) {
	f := [][2]string{{"\xC7\xD1", "한"}, {"\xC9\xA1", "\uFFFD"}, {"\xA8\xAA", "Ø"}, {"ab\xC7\xD1\x81\x20c", "ab한\uFFFDc"}}[sym.Part(4)]
	return fill(f[0], f[1], sym.Choose("phase", 2), n)
}

func encFill(n int) (src, want []byte) {
	f := [][2]string{{"é", "?"}, {"한", "\xC7\xD1"}, {"\U0001F600", "?"}, {"\x80", "?"}, {"\xED\x95", "??"},
		{"\xF0\x9F\x98a한é\U0001F600\xFF", "???a\xC7\xD1???"}}[sym.Part(6)]
	return fill(f[0], f[1], sym.Choose("phase", 4), n)
}

// C13_Fill: From.
func C13_Fill() {
	src, want := decFill(fillLen(33000, 70000))
	s, w, _ := units("dA")
	got, err := cp949.From(append(src, s...))
	sym.Assert(err == nil, "From: error on whole units")
	sym.Assert(sym.EqBytes(got, append(want, w...)), "From: not the concatenation of its units")
	sym.Reach("end")
}

// C14_Fill: To.
func C14_Fill() {
	src, want := encFill(fillLen(33000, 70000))
	s, w, _ := chars("1s")
	got, err := cp949.To(append(src, s...))
	sym.Assert(err == nil, "To: error")
	sym.Assert(sym.EqBytes(got, append(want, w...)), "To: not the concatenation of its characters")
	sym.Reach("end")
}

// C15_Fill: the reader.
func C15_Fill() {
	src, want := decFill(fillLen(8500, 33000))
	s, w, end := stream("dT")
	src, want = append(src, s...), append(want, w...)
	size := []int{512, 1000, 4096, 1 << 17}[sym.Choose("size", 4)]
	var rd io.Reader = bytes.NewReader(src)
	if sym.Choose("source", 2) == 1 {
		rd = &source{data: src, max: 1001, step: true, end: io.EOF}
	}
	r, err := cp949.NewReader(rd)
	sym.Assert(err == nil, "NewReader: error")
	checkReader(r, always(size), want, end)
	sym.Reach("end")
}

// C16_Fill: the writer.
func C16_Fill() {
	src, want := encFill(fillLen(8500, 33000))
	s, w, _ := chars("1s")
	src, want = append(src, s...), append(want, w...)
	n := []int{len(src), 1000, 4096}[sym.Choose("size", 3)]
	d := &sink{}
	wr, err := cp949.NewWriter(d)
	sym.Assert(err == nil, "NewWriter: error")
	for len(src) > 0 {
		if n > len(src) {
			n = len(src)
		}
		k, err := wr.Write(src[:n])
		sym.Assert(err == nil && k == n, "Write: error or count")
		src = src[n:]
	}
	sym.Assert(sym.EqBytes(d.got, want), "Writer: wrong bytes at the destination")
	sym.Reach("end")
}

// pump transforms src by calls with the given room, and checks the contract by the way.
func pump(t transform.Transformer, src []byte, room int) []byte {
	var out []byte
	dst := make([]byte, room)
	for i := len(src); i >= 0; i-- {
		nDst, nSrc, err := t.Transform(dst, src, true)
		sym.Assert(0 <= nDst && nDst <= room && 0 <= nSrc && nSrc <= len(src), "nDst or nSrc out of range")
		out = append(out, dst[:nDst]...)
		src = src[nSrc:]
		if err == nil {
			sym.Assert(len(src) == 0, "nil, but not everything is consumed")
			return out
		}
		sym.Assert(err == transform.ErrShortDst, "error on complete input")
		sym.Assert(nDst > room-4, "ErrShortDst, but the next unit fits")
	}
	sym.Fail("no progress")
	return nil
}

// C17_Fill: the decoder.
func C17_Fill() {
	src, want := decFill(fillLen(8500, 33000))
	s, w, _ := units("dA")
	src, want = append(src, s...), append(want, w...)
	t := cp949.NewCP949Encoding().NewDecoder()
	var got []byte
	if k := sym.Choose("call", 4); k == 0 {
		var err error
		got, err = t.Bytes(src)
		sym.Assert(err == nil, "Bytes: error")
	} else {
		got = pump(t.Transformer, src, []int{0, 1000, 4096, len(want)}[k])
	}
	sym.Assert(sym.EqBytes(got, want), "differs from the decoding")
	sym.Reach("end")
}

// C18_Fill: the encoder.
func C18_Fill() {
	src, want := encFill(fillLen(8500, 33000))
	s, w, _ := chars("1s")
	src, want = append(src, s...), append(want, w...)
	t := cp949.NewCP949Encoding().NewEncoder()
	var got []byte
	if k := sym.Choose("call", 4); k == 0 {
		var err error
		got, err = t.Bytes(src)
		sym.Assert(err == nil, "Bytes: error")
	} else {
		got = pump(t.Transformer, src, []int{0, 1000, 4096, len(want)}[k])
	}
	sym.Assert(sym.EqBytes(got, want), "differs from the encoding")
	sym.Reach("end")
}

// C21_Fill: hanja.Convert.
func C21_Fill() {
	f := [][2]string{{"é", "é"}, {"漢", "한"}, {"\U00020000", "\U00020000"}, {"a國한é𠀋", "a국한é𠀋"}}[sym.Part(4)]
	src, want := fill(f[0], f[1], sym.Choose("phase", 4), fillLen(33000, 140000))
	r := 0x6F00 | rune(sym.Byte("r"))
	w := string(r)
	if hanjaSplit(r) {
		w = string(ref.Reading(r))
	}
	sym.Assert(hanja.Convert(string(src)+string(r)) == string(want)+w, "Convert is not character by character")
	sym.Reach("end")
}
