package props

import (
	"io"

	"verif/harness/ref"
	"verif/harness/sym"
)

func isEOF(err error) bool { return err == io.EOF }

// The functions below are those of ref, with one path for each layout of the result.

// appendUTF8 is for characters from U+0080 to U+FFFF.
func appendUTF8(b []byte, r rune) []byte {
	if sym.Choose("short", 2) == 1 {
		sym.Assume(r < 0x800)
		return append(b, 0xC0|byte(r>>6), 0x80|byte(r&0x3F))
	}
	sym.Assume(r >= 0x800)
	return append(b, 0xE0|byte(r>>12), 0x80|byte(r>>6&0x3F), 0x80|byte(r&0x3F))
}

// appendCode is for characters from U+0080.
func appendCode(b []byte, c uint16) []byte {
	if sym.Choose("coded", 2) == 1 {
		sym.Assume(c != '?')
		return append(b, byte(c>>8), byte(c))
	}
	sym.Assume(c == '?')
	return append(b, '?')
}

// nextRune is ref.DecodeRune.
func nextRune(p []byte) (rune, int) {
	r, n := ref.DecodeRune(p)
	m := len(p)
	if m > 4 {
		m = 4
	}
	k := 1 + sym.Choose("size", m)
	sym.Assume(n == k)
	return r, k
}

func encodeAll(p []byte) []byte {
	out := []byte{}
	for len(p) > 0 {
		r, n := nextRune(p)
		if n == 1 {
			out = append(out, byte(ref.EncodeRune(r)))
		} else {
			out = appendCode(out, ref.EncodeRune(r))
		}
		p = p[n:]
	}
	return out
}

func decodeAll(p []byte) (out []byte, whole bool) {
	out = []byte{}
	for len(p) > 0 {
		if sym.Choose("ascii", 2) == 1 {
			sym.Assume(p[0] < 0x80)
			out = append(out, p[0])
			p = p[1:]
			continue
		}
		sym.Assume(p[0] >= 0x80)
		if len(p) < 2 {
			return out, false
		}
		out = appendUTF8(out, ref.DecodeUnit(p[0], p[1]))
		p = p[2:]
	}
	return out, true
}

// rune2, rune3 and rune4 are any character of so many bytes in UTF-8.
func rune2() rune {
	r := rune(sym.Byte("r2a")&31)<<6 | rune(sym.Byte("r2b")&63)
	sym.Assume(r >= 0x80)
	return r
}

func rune3() rune {
	r := rune(sym.Byte("r3a")&15)<<12 | rune(sym.Byte("r3b")&63)<<6 | rune(sym.Byte("r3c")&63)
	sym.Assume(r >= 0x800 && (r < 0xD800 || r > 0xDFFF))
	return r
}

func rune4() rune {
	r := sym.Rune("r4")
	sym.Assume(r > 0xFFFF && r <= 0x10FFFF)
	return r
}

// hangulRune is any precomposed syllable.
func hangulRune() rune {
	r := rune(sym.Uint16("h"))
	sym.Assume(0xAC00 <= r && r <= 0xD7A3)
	return r
}

// window narrows a shape in the quick tier: every other 3 and D becomes a window of it.
func window(shape string) string {
	if sym.Thorough() {
		return shape
	}
	out := ""
	for i, k := range shape {
		switch {
		case k == '3' && i%2 == 0:
			k = 'k'
		case k == '3':
			k = 's'
		case k == 'D' && i%2 == 0:
			k = 'd'
		case k == 'D':
			k = 'e'
		}
		out += string(k)
	}
	return out
}
