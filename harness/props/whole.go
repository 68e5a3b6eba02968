package props

import (
	"strings"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"verif/harness/ref"
	"verif/harness/sym"
)

var (
	_ = reg(H{Name: "C13_Units", F: C13_Units, Parts: 7, Deep: 17})
	_ = reg(H{Name: "C13_Blocks", F: C13_Blocks, Parts: 4})
	_ = reg(H{Name: "C13_Huge", F: C13_Huge, Parts: 1, Deep: 3})
	_ = reg(H{Name: "C14_Blocks", F: C14_Blocks, Parts: 6})
	_ = reg(H{Name: "C14_Huge", F: C14_Huge, Parts: 1, Deep: 3})
	_ = reg(H{Name: "C13_Position", F: C13_Position, Parts: 6, Deep: 12})
	_ = reg(H{Name: "C14_Chars", F: C14_Chars, Parts: 9, Deep: 12})
	_ = reg(H{Name: "C14_Bytes", F: C14_Bytes, Parts: 4, Deep: 5})
	_ = reg(H{Name: "C14_Position", F: C14_Position, Parts: 6, Deep: 12})
)

// unit kinds of a CP949 stream: A is one ASCII byte, D two bytes, T a lone first byte.
func units(shape string) (src, want []byte, whole bool) {
	want, whole = []byte{}, true
	for _, k := range shape {
		switch k {
		case 'A':
			b := sym.Byte("a")
			sym.Assume(b < 0x80)
			src = append(src, b)
			want = append(want, b)
		case 'D':
			b := sym.Bytes("d", 2)
			sym.Assume(b[0] >= 0x80)
			src = append(src, b...)
			want = appendUTF8(want, ref.DecodeUnit(b[0], b[1]))
		case 'd', 'e': // with one lead byte: syllables, signs
			l := map[rune]byte{'d': 0xC7, 'e': 0xA1}[k]
			b := sym.Byte("v")
			src = append(src, l, b)
			want = appendUTF8(want, ref.DecodeUnit(l, b))
		case 'T':
			b := sym.Byte("t")
			sym.Assume(b >= 0x80)
			src = append(src, b)
			whole = false
		}
	}
	return
}

func checkFrom(src, want []byte, whole bool) {
	got, err := cp949.From(src)
	sym.ObsBytes("got", got)
	if whole {
		sym.Assert(err == nil, "From: error on whole units")
		sym.Assert(sym.EqBytes(got, want), "From: not the concatenation of its units")
		sym.Reach("whole")
	} else {
		sym.Assert(err == cp949.ErrCP949UnexpectedStream, "From: truncated input accepted")
		sym.Assert(len(got) == 0, "From: text with an error")
		sym.Reach("truncated")
	}
}

var unitShapes = [][]string{
	{"", "A", "D", "T"},
	{"AA", "AD", "AT", "DT", "AAA", "AAAA"},
	{"DA"},
	{"DD"},
	{"ADA", "AAT", "DAT"},
	{"AADA", "ADAA", "DAA"},
	{"DDT"},
	// thorough
	{"DDD"},
	{"DADAD"},
	{"DDAT", "ADDA"},
	{"DDDT"},
	{"AAAAAAAA", "AAAAAAAT"},
	{"ADADA", "AADAADAA"},
	{"DDDD"},
	{"DDDDD"},
	{"ADADADAD"},
	{"DDADDA", "DDDAAA"},
}

// C13_Units: every stream of the unit shapes of the part, all bytes arbitrary.
func C13_Units() {
	l := unitShapes[sym.Part(17)]
	src, want, whole := units(l[sym.Choose("shape", len(l))])
	checkFrom(src, want, whole)
}

// block is a shape with u between n and m characters of kind a.
func block(a, u string, n, m int) string { return strings.Repeat(a, n) + u + strings.Repeat(a, m) }

// C13_Blocks: a unit and ASCII bytes at every offset modulo 16 and more.
func C13_Blocks() {
	n := sym.Choose("before", 18)
	m := []int{0, 1, 7, 16}[sym.Choose("behind", 4)]
	u := []string{"D", "d", "e", "T"}[sym.Part(4)]
	if u == "D" && n%5 != 4 && !sym.Thorough() {
		u = "e"
	}
	if u == "T" {
		m = 0
	}
	src, want, whole := units(block("A", u, n, m))
	checkFrom(src, want, whole)
}

// C13_Huge: texts longer than 2^16 bytes.
func C13_Huge() {
	var pre, out []byte
	for len(out) < 1<<16-1+sym.Part(3) {
		pre = append(pre, 'x')
		out = append(out, 'x')
	}
	src, want, whole := units("dA")
	checkFrom(append(pre, src...), append(out, want...), whole)
}

// C13_Position: an arbitrary unit behind long texts.
func C13_Position() {
	var pre, out []byte
	lens := []int{7, 100, 510, 1022, 1366, 2045}
	if sym.Part(12) >= 6 {
		lens = []int{255, 800, 1700, 3000, 4090, 5000}
	}
	n := lens[sym.Part(12)%6]
	kind := sym.Choose("text", 3)
	for len(out) < n {
		switch kind {
		case 0:
			pre = append(pre, 'x')
			out = append(out, 'x')
		case 1: // 한
			pre = append(pre, 0xC7, 0xD1)
			out = append(out, 0xED, 0x95, 0x9C)
		case 2: // á is U+00E1 in no KS X 1001 code; Ø is a8aa
			pre = append(pre, 0xA8, 0xAA, 'y', 0xC7, 0xD1)
			out = append(out, 0xC3, 0x98, 'y', 0xED, 0x95, 0x9C)
		}
	}
	shapes := []string{"DA", "AT", "AD"}
	src, want, whole := units(shapes[sym.Choose("shape", 3)])
	checkFrom(append(pre, src...), append(out, want...), whole)
}

// character kinds of a text: 1 to 4 are well-formed characters of that many bytes, x is any
// byte that starts none, h, i, j are the first 1, 2, 3 bytes of a longer character.
func chars(shape string) (src, want []byte, good bool) {
	want, good = []byte{}, true
	for _, k := range shape {
		switch k {
		case '1':
			b := sym.Byte("c")
			sym.Assume(b < 0x80)
			src = append(src, b)
			want = append(want, b)
		case '2', '3', '4':
			var r rune
			switch k {
			case '2':
				r = rune2()
			case '3':
				r = rune3()
			default:
				r = rune4()
			}
			src = ref.AppendUTF8(src, r)
			want = appendCode(want, ref.EncodeRune(r))
		case 's', 'k': // in a window: syllables, symbols (some outside the code page)
			r := map[rune]rune{'s': 0xD500, 'k': 0x2500}[k] | rune(sym.Byte("w"))
			src = append(src, 0xE0|byte(r>>12), 0x80|byte(r>>6&0x3F), 0x80|byte(r&0x3F))
			if k == 's' {
				c := ref.EncodeRune(r)
				want = append(want, byte(c>>8), byte(c))
			} else {
				want = appendCode(want, ref.EncodeRune(r))
			}
		case 'x':
			b := sym.Byte("x")
			sym.Assume(0x80 <= b && b < 0xC2 || b >= 0xF5)
			src = append(src, b)
			want = append(want, '?')
			good = false
		case 'h', 'i', 'j':
			good = false
			p := ref.AppendUTF8(nil, rune4())[:int(k-'h')+1]
			src = append(src, p...)
			for range p {
				want = append(want, '?')
			}
		}
	}
	return
}

func checkTo(src, want []byte, good bool) {
	got, err := cp949.To(src)
	sym.ObsBytes("got", got)
	sym.Assert(err == nil, "To: error")
	sym.Assert(sym.EqBytes(got, want), "To: not the concatenation of its characters")
	if good {
		sym.Assert(len(got) <= len(src), "To: output longer than a well-formed input")
		sym.Reach("well-formed")
	} else {
		sym.Reach("malformed")
	}
}

var charShapes = [][]string{
	{"", "1", "2", "x", "11", "h", "i", "j"},
	{"3"},
	{"4", "14", "44"},
	{"13"},
	{"31"},
	{"33"},
	{"23"},
	{"x3", "3x"},
	{"x1x", "1x1", "4x", "h1", "2j", "xxx", "hh", "ih"},
	// thorough
	{"333"},
	{"1313", "242"},
	{"3h3", "x34"},
}

// C14_Chars: every text of the character shapes of the part.
func C14_Chars() {
	l := charShapes[sym.Part(12)]
	src, want, good := chars(l[sym.Choose("shape", len(l))])
	checkTo(src, want, good)
}

// C14_Bytes: every byte string of the length of the part.
func C14_Bytes() {
	src := sym.Bytes("b", sym.Part(5))
	checkTo(src, encodeAll(src), false)
}

// C14_Blocks: a character and ASCII bytes at every offset modulo 16 and more.
func C14_Blocks() {
	n := sym.Choose("before", 18)
	m := []int{0, 1, 7, 16}[sym.Choose("behind", 4)]
	u := []string{"s", "k", "x", "2", "4", "h"}[sym.Part(6)]
	src, want, good := chars(block("1", u, n, m))
	checkTo(src, want, good)
}

// C14_Huge: texts longer than 2^16 bytes.
func C14_Huge() {
	var pre, out []byte
	for len(pre) < 1<<16-1+sym.Part(3) {
		pre = append(pre, 'x')
		out = append(out, 'x')
	}
	src, want, good := chars("s1")
	checkTo(append(pre, src...), append(out, want...), good)
}

// C14_Position: an arbitrary character behind long texts.
func C14_Position() {
	var pre, out []byte
	lens := []int{7, 100, 510, 1022, 1366, 2045}
	if sym.Part(12) >= 6 {
		lens = []int{255, 800, 1700, 3000, 4090, 5000}
	}
	n := lens[sym.Part(12)%6]
	kind := sym.Choose("text", 3)
	for len(pre) < n {
		switch kind {
		case 0:
			pre = append(pre, 'x')
			out = append(out, 'x')
		case 1: // 한
			out = append(out, 0xC7, 0xD1)
			pre = append(pre, 0xED, 0x95, 0x9C)
		case 2:
			out = append(out, 0xA8, 0xAA, 'y', 0xC7, 0xD1, '?', '?')
			pre = append(pre, 0xC3, 0x98, 'y', 0xED, 0x95, 0x9C, 0xF0, 0x9F, 0x98, 0x80, 0xFF)
		}
	}
	shapes := []string{"31", "x1", "13"}
	src, want, _ := chars(shapes[sym.Choose("shape", 3)])
	checkTo(append(pre, src...), append(out, want...), false)
}
