package ref

// DecodeUnit is the UTF-8 form of one two-byte code (first byte from 0x80).
func DecodeUnit(b0, b1 byte) rune { return rune(Dec[(int(b0)<<8|int(b1))-0x8000]) }

// EncodeRune is the code of a character: one byte below 0x80, else two, or '?'.
func EncodeRune(r rune) uint16 {
	if r < 0x80 {
		return uint16(r)
	}
	if r > 0xFFFF {
		return '?'
	}
	if c := Enc[r]; c != 0 {
		return c
	}
	return '?'
}

// AppendUTF8 appends the UTF-8 form of a character up to U+FFFF that is no surrogate.
func AppendUTF8(b []byte, r rune) []byte {
	switch {
	case r < 0x80:
		return append(b, byte(r))
	case r < 0x800:
		return append(b, 0xC0|byte(r>>6), 0x80|byte(r&0x3F))
	case r < 0x10000:
		return append(b, 0xE0|byte(r>>12), 0x80|byte(r>>6&0x3F), 0x80|byte(r&0x3F))
	}
	return append(b, 0xF0|byte(r>>18), 0x80|byte(r>>12&0x3F), 0x80|byte(r>>6&0x3F), 0x80|byte(r&0x3F))
}

// AppendCode appends a code as EncodeRune returns it.
func AppendCode(b []byte, c uint16) []byte {
	if c < 0x80 {
		return append(b, byte(c))
	}
	return append(b, byte(c>>8), byte(c))
}

// DecodeRune reads the first character of p by the Unicode definition of well-formed UTF-8
// (table 3-7 of the standard); a byte that starts none is U+FFFD of size 1.
func DecodeRune(p []byte) (r rune, size int) {
	const bad = 0xFFFD
	if len(p) == 0 {
		return bad, 0
	}
	b0 := p[0]
	var lo, hi byte = 0x80, 0xBF
	n := 0
	switch {
	case b0 < 0x80:
		return rune(b0), 1
	case b0 < 0xC2:
		return bad, 1
	case b0 < 0xE0:
		n = 2
	case b0 < 0xF0:
		n = 3
		if b0 == 0xE0 {
			lo = 0xA0
		}
		if b0 == 0xED {
			hi = 0x9F
		}
	case b0 < 0xF5:
		n = 4
		if b0 == 0xF0 {
			lo = 0x90
		}
		if b0 == 0xF4 {
			hi = 0x8F
		}
	default:
		return bad, 1
	}
	if len(p) < n || p[1] < lo || p[1] > hi {
		return bad, 1
	}
	for i := 2; i < n; i++ {
		if p[i] < 0x80 || p[i] > 0xBF {
			return bad, 1
		}
	}
	switch n {
	case 2:
		return rune(b0&0x1F)<<6 | rune(p[1]&0x3F), 2
	case 3:
		return rune(b0&0x0F)<<12 | rune(p[1]&0x3F)<<6 | rune(p[2]&0x3F), 3
	}
	return rune(b0&0x07)<<18 | rune(p[1]&0x3F)<<12 | rune(p[2]&0x3F)<<6 | rune(p[3]&0x3F), 4
}

// Incomplete reports whether p is a proper prefix of a well-formed character.
func Incomplete(p []byte) bool {
	if len(p) == 0 || len(p) > 3 {
		return false
	}
	b0 := p[0]
	n := 0
	var lo, hi byte = 0x80, 0xBF
	switch {
	case 0xC2 <= b0 && b0 < 0xE0:
		n = 2
	case 0xE0 <= b0 && b0 < 0xF0:
		n = 3
		if b0 == 0xE0 {
			lo = 0xA0
		}
		if b0 == 0xED {
			hi = 0x9F
		}
	case 0xF0 <= b0 && b0 < 0xF5:
		n = 4
		if b0 == 0xF0 {
			lo = 0x90
		}
		if b0 == 0xF4 {
			hi = 0x8F
		}
	}
	if len(p) >= n {
		return false
	}
	if len(p) > 1 && (p[1] < lo || p[1] > hi) {
		return false
	}
	return len(p) < 3 || 0x80 <= p[2] && p[2] <= 0xBF
}

// Encode is the encoding of a whole text.
func Encode(p []byte) []byte {
	out := []byte{}
	for len(p) > 0 {
		r, n := DecodeRune(p)
		out = AppendCode(out, EncodeRune(r))
		p = p[n:]
	}
	return out
}

// Decode is the decoding of a whole stream; ok is false if it ends inside a unit.
func Decode(p []byte) (out []byte, ok bool) {
	out = []byte{}
	for len(p) > 0 {
		if p[0] < 0x80 {
			out = append(out, p[0])
			p = p[1:]
			continue
		}
		if len(p) < 2 {
			return out, false
		}
		out = AppendUTF8(out, DecodeUnit(p[0], p[1]))
		p = p[2:]
	}
	return out, true
}

// Reading is the reading of a hanja, 0 if there is none.
func Reading(r rune) rune {
	if r < 0x3400 || r > 0xFAFF {
		return 0
	}
	return rune(Hanja[r-0x3400])
}
