// Package ref holds what the properties are checked against.
package ref

// pos is the row of a jamo in the tables by letter, -1 if r is outside their blocks.
func pos(r rune) int {
	if 0x1100 <= r && r <= 0x11FF {
		return int(r) - 0x1100
	}
	if 0x3130 <= r && r <= 0x318F {
		return int(r) - 0x3130 + 0x100
	}
	return -1
}

func row(t *[352]rune, r rune) rune {
	if i := pos(r); i >= 0 {
		return t[i]
	}
	return 0
}

// Compat is the compatibility form of any jamo; Lead, Vowel and Tail are the form of a jamo
// that is given in that form or in the compatibility form. 0 if there is none.
func Compat(r rune) rune { return row(&CompatTab, r) }
func Lead(r rune) rune   { return row(&LeadTab, r) }
func Vowel(r rune) rune  { return row(&VowelTab, r) }
func Tail(r rune) rune   { return row(&TailTab, r) }

// Elem is basic letter i (0 to 2) of a compound letter, 0 if there is none.
func Elem(r rune, i int) rune {
	switch i {
	case 0:
		return row(&Elem0Tab, r)
	case 1:
		return row(&Elem1Tab, r)
	}
	return row(&Elem2Tab, r)
}

// Strokes counts the strokes of a letter.
func Strokes(r rune) int {
	if i := pos(r); i >= 0 {
		return StrokeTab[i]
	}
	return 0
}

// IsSyllable reports whether r is a precomposed Hangul syllable.
func IsSyllable(r rune) bool { return 0xAC00 <= r && r <= 0xD7A3 }

// Parts is the canonical decomposition of a syllable.
func Parts(s rune) (l, v, t rune) {
	i := s - 0xAC00
	l, v = 0x1100+i/588, 0x1161+i%588/28
	if i%28 != 0 {
		t = 0x11A7 + i%28
	}
	return
}
