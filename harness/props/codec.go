package props

import (
	"bytes"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"golang.org/x/text/transform"
	"verif/harness/ref"
	"verif/harness/sym"
)

var (
	_ = reg(H{Name: "C10_From", F: C10_From, Parts: 2})
	_ = reg(H{Name: "C10_Reader", F: C10_Reader, Parts: 2})
	_ = reg(H{Name: "C10_Decoder", F: C10_Decoder, Parts: 2})
	_ = reg(H{Name: "C11_To", F: C11_To, Parts: 4})
	_ = reg(H{Name: "C11_Writer", F: C11_Writer, Parts: 4})
	_ = reg(H{Name: "C11_Encoder", F: C11_Encoder, Parts: 4})
	_ = reg(H{Name: "C11_Malformed", F: C11_Malformed, Parts: 3, Deep: 4})
	_ = reg(H{Name: "C12_CodeRoundtrip", F: C12_CodeRoundtrip, Parts: 2})
	_ = reg(H{Name: "C12_TextRoundtrip", F: C12_TextRoundtrip, Parts: 3})
	_ = reg(H{Name: "C12_Text", F: C12_Text, Parts: 4, Deep: 6})
)

// code is any unit: one ASCII byte (part 0) or two bytes of which the first is no ASCII.
func code(part int) (src, want []byte) {
	if part == 0 {
		b := sym.Byte("b")
		sym.Assume(b < 0x80)
		return []byte{b}, []byte{b}
	}
	b := sym.Bytes("b", 2)
	sym.Assume(b[0] >= 0x80)
	r := ref.DecodeUnit(b[0], b[1])
	sym.ReachIf(r == 0xFFFD, "unassigned code")
	sym.ReachIf(r >= 0xAC00 && r <= 0xD7A3, "syllable")
	sym.ReachIf(r < 0x800, "two-byte UTF-8")
	return b, appendUTF8(nil, r)
}

// C10_From: every code.
func C10_From() {
	src, want := code(sym.Part(2))
	got, err := cp949.From(src)
	sym.ObsBytes("got", got)
	sym.Assert(err == nil, "From: error")
	sym.Assert(sym.EqBytes(got, want), "From: wrong character")
}

func readAll(r interface{ Read([]byte) (int, error) }, size int) ([]byte, error) {
	out := []byte{}
	buf := make([]byte, size)
	for i := 0; i < 64; i++ {
		n, err := r.Read(buf)
		out = append(out, buf[:n]...)
		if err != nil {
			return out, err
		}
	}
	sym.Fail("the reader does not come to an end")
	return nil, nil
}

// C10_Reader: every code.
func C10_Reader() {
	src, want := code(sym.Part(2))
	r, err := cp949.NewReader(bytes.NewReader(src))
	sym.Assert(err == nil, "NewReader: error")
	got, err := readAll(r, 16)
	sym.ObsBytes("got", got)
	sym.Assert(isEOF(err), "Reader: error")
	sym.Assert(sym.EqBytes(got, want), "Reader: wrong character")
}

// C10_Decoder: every code.
func C10_Decoder() {
	src, want := code(sym.Part(2))
	got, err := cp949.NewCP949Encoding().NewDecoder().Bytes(src)
	sym.ObsBytes("got", got)
	sym.Assert(err == nil, "Decoder: error")
	sym.Assert(sym.EqBytes(got, want), "Decoder: wrong character")
}

// char is any character, in four parts by the length of its UTF-8 form.
func char(part int) (src, want []byte) {
	var r rune
	switch part {
	case 0:
		r = rune(sym.Byte("r1"))
		sym.Assume(r < 0x80)
	case 1:
		r = rune2()
	case 2:
		r = rune3()
	case 3:
		r = rune4()
	}
	c := ref.EncodeRune(r)
	if part > 0 {
		sym.ReachIf(c == '?', "not in the code page")
	}
	if part == 1 || part == 2 {
		sym.ReachIf(c > 0xFF, "in the code page")
	}
	if part == 0 {
		return []byte{byte(r)}, []byte{byte(r)}
	}
	return ref.AppendUTF8(nil, r), appendCode(nil, c)
}

// C11_To: every character.
func C11_To() {
	src, want := char(sym.Part(4))
	got, err := cp949.To(src)
	sym.ObsBytes("got", got)
	sym.Assert(err == nil, "To: error")
	sym.Assert(sym.EqBytes(got, want), "To: wrong code")
}

// C11_Writer: every character.
func C11_Writer() {
	src, want := char(sym.Part(4))
	var dst bytes.Buffer
	w, err := cp949.NewWriter(&dst)
	sym.Assert(err == nil, "NewWriter: error")
	n, err := w.Write(src)
	got := dst.Bytes()
	sym.ObsBytes("got", got)
	sym.Assert(err == nil && n == len(src), "Writer: error")
	sym.Assert(sym.EqBytes(got, want), "Writer: wrong code")
}

// C11_Encoder: every character.
func C11_Encoder() {
	src, want := char(sym.Part(4))
	dst := make([]byte, 8)
	n, m, err := cp949.NewCP949Encoding().NewEncoder().Transformer.Transform(dst, src, true)
	sym.ObsBytes("got", dst[:n])
	sym.Assert(err == nil && m == len(src), "Encoder: error")
	sym.Assert(sym.EqBytes(dst[:n], want), "Encoder: wrong code")
	got, err := cp949.NewCP949Encoding().NewEncoder().Bytes(src)
	sym.Assert(err == nil, "Encoder: error of Bytes")
	sym.Assert(sym.EqBytes(got, want), "Encoder: wrong code from Bytes")
}

// C11_Malformed: every byte string of the length of the part + 1.
func C11_Malformed() {
	src := sym.Bytes("b", sym.Part(4)+1)
	want := encodeAll(src)
	got, err := cp949.To(src)
	sym.ObsBytes("got", got)
	sym.Assert(err == nil, "To: error")
	sym.Assert(sym.EqBytes(got, want), "To: wrong code")
	e, n, err := transform.Bytes(cp949.NewCP949Encoding().NewEncoder().Transformer, src)
	sym.Assert(err == nil && n == len(src), "Encoder: error")
	sym.Assert(sym.EqBytes(e, want), "Encoder: wrong code")
}

// C12_CodeRoundtrip: every valid code.
func C12_CodeRoundtrip() {
	src, _ := code(sym.Part(2))
	if len(src) == 2 {
		sym.Assume(ref.DecodeUnit(src[0], src[1]) != 0xFFFD)
	}
	text, err := cp949.From(src)
	sym.Assert(err == nil, "From: error")
	back, err := cp949.To(text)
	sym.ObsBytes("back", back)
	sym.Assert(err == nil, "To: error")
	sym.Assert(sym.EqBytes(back, src), "To(From(code)) differs")
}

// C12_TextRoundtrip: every character of the repertoire. (That both directions give back what
// they were given implies that neither maps two things alike.)
func C12_TextRoundtrip() {
	src, _ := char(sym.Part(3))
	if sym.Part(3) > 0 {
		r, _ := ref.DecodeRune(src)
		sym.Assume(ref.EncodeRune(r) != '?')
	}
	enc, err := cp949.To(src)
	sym.Assert(err == nil, "To: error")
	back, err := cp949.From(enc)
	sym.ObsBytes("back", back)
	sym.Assert(err == nil, "From: error")
	sym.Assert(sym.EqBytes(back, src), "From(To(character)) differs")
}

// C12_Text: texts of several characters (part: how many are not ASCII).
func C12_Text() {
	var codes []byte
	for i, n := 0, sym.Part(6)%3+1; i < n; i++ {
		if sym.Part(6) >= 3 {
			b := sym.Byte("ascii")
			sym.Assume(b < 0x80)
			codes = append(codes, b)
		}
		b := sym.Bytes("b", 2)
		sym.Assume(b[0] >= 0x80)
		sym.Assume(ref.DecodeUnit(b[0], b[1]) >= 0x800 && ref.DecodeUnit(b[0], b[1]) != 0xFFFD)
		codes = append(codes, b...)
	}
	text, err := cp949.From(codes)
	sym.Assert(err == nil, "From: error")
	back, err := cp949.To(text)
	sym.ObsBytes("back", back)
	sym.Assert(err == nil, "To: error")
	sym.Assert(sym.EqBytes(back, codes), "To(From(text)) differs")
	again, err := cp949.From(back)
	sym.Assert(err == nil && sym.EqBytes(again, text), "From(To(text)) differs")
}
