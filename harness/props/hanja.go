package props

import (
	"strings"
	"unicode/utf8"

	"github.com/suapapa/go_hangul/hanja"
	"verif/harness/ref"
	"verif/harness/sym"
)

var (
	_ = reg(H{Name: "C21_Runes", F: C21_Runes})
	_ = reg(H{Name: "C21_Single", F: C21_Single, Parts: 4})
	_ = reg(H{Name: "C21_Text", F: C21_Text, Parts: 21})
	_ = reg(H{Name: "C21_Bytes", F: C21_Bytes, Parts: 4, Deep: 5})
	_ = reg(H{Name: "C21_Long", F: C21_Long, Parts: 3, Deep: 6})
	_ = reg(H{Name: "C21_Blocks", F: C21_Blocks})
	_ = reg(H{Name: "C21_Huge", F: C21_Huge, Parts: 1, Deep: 3})
	_ = reg(H{Name: "C22_Members", F: C22_Members})
	_ = reg(H{Name: "C22_Readings", F: C22_Readings, Parts: 4})
	_ = reg(H{Name: "C22_Order", F: C22_Order})
)

func ideograph(r rune) bool {
	return 0x3400 <= r && r <= 0x4DBF || 0x4E00 <= r && r <= 0x9FFF || 0xF900 <= r && r <= 0xFAFF || 0x20000 <= r && r <= 0x3FFFF
}

// C21_Runes: IsHanja of every 32-bit value.
func C21_Runes() {
	r := sym.Rune("r")
	is := hanja.IsHanja(r)
	sym.ObsBool("is", is)
	sym.Assert(!is || ideograph(r), "IsHanja of something that is no CJK ideograph")
	sym.ReachIf(is, "hanja")
	sym.ReachIf(!is, "no hanja")
}

func runeOf(part int) rune {
	switch part {
	case 0:
		r := rune(sym.Byte("r1"))
		sym.Assume(r < 0x80)
		return r
	case 1:
		return rune2()
	case 2:
		return rune3()
	}
	return rune4()
}

// hanjaSplit examines the hanja and the other characters apart.
func hanjaSplit(r rune) bool {
	hj := sym.Choose("hanja", 2) == 1
	sym.Assume(hanja.IsHanja(r) == hj)
	return hj
}

// C21_Single: every character on its own.
func C21_Single() {
	r := runeOf(sym.Part(4))
	in := string(r)
	hj := hanjaSplit(r)
	out := hanja.Convert(in)
	sym.ObsStr("out", out)
	if hj {
		c, n := ref.DecodeRune([]byte(out))
		sym.Assert(len(out) == n && n > 0, "a hanja becomes something other than one character")
		sym.Assert(ref.IsSyllable(c), "a hanja becomes something other than a syllable")
		sym.Assert(!hanja.IsHanja(c), "the reading is itself hanja")
		sym.Reach("hanja")
	} else {
		sym.Assert(out == in, "a character that is no hanja changes")
		sym.Reach("no hanja")
	}
	sym.Assert(hanja.Convert(out) == out, "converting again changes the text")
}

var hanjaShapes = []string{"", "33", "13", "31", "23", "34", "43", "331", "3x", "x3",
	"333", "3131", "1343", "x33",
	"3333", "33333", "331343", "232323", "x3x3", "333333", "43434"}

// C21_Text: texts of any characters.
func C21_Text() {
	var in, want string
	bad := false
	for _, k := range hanjaShapes[sym.Part(21)] {
		var c string
		switch k {
		case '1':
			c = string(runeOf(0))
		case '2':
			c = string(runeOf(1))
		case '3':
			r := runeOf(2)
			hanjaSplit(r)
			c = string(r)
		case '4':
			c = string(runeOf(3))
		case 'x':
			b := sym.Byte("x")
			sym.Assume(b >= 0x80 && b < 0xC2 || b >= 0xF5)
			in += string([]byte{b})
			want += "\uFFFD"
			bad = true
			continue
		}
		in += c
		want += hanja.Convert(c)
	}
	out := hanja.Convert(in)
	sym.ObsStr("out", out)
	if bad {
		sym.Assert(utf8.ValidString(out), "Convert of malformed input returns malformed text")
		sym.Reach("malformed")
		return
	}
	sym.Assert(out == want, "Convert is not character by character")
	sym.Reach("well-formed")
}

// C21_Bytes: every byte string of the length of the part.
func C21_Bytes() {
	b := sym.Bytes("b", sym.Part(5))
	good := true
	for i := 0; i < len(b); {
		r, n := nextRune(b[i:])
		if n == 1 && sym.Choose("bad", 2) == 1 {
			sym.Assume(r == 0xFFFD)
			good = false
		} else if n == 1 {
			sym.Assume(r != 0xFFFD)
		} else if n == 3 {
			hanjaSplit(r)
		}
		i += n
	}
	out := hanja.Convert(string(b))
	sym.ObsStr("out", out)
	sym.Assert(utf8.ValidString(out), "Convert returns malformed text")
	if good {
		sym.Assert(utf8.RuneCountInString(out) == utf8.RuneCount(b), "Convert changes the number of characters")
		sym.Assert(hanja.Convert(out) == out, "converting again changes the text")
		sym.Reach("well-formed")
	} else {
		sym.Reach("malformed")
	}
}

// C21_Long: any character in a long text.
func C21_Long() {
	n := []int{31, 33, 300, 130, 1025, 2000}[sym.Part(6)]
	pre, want := "", ""
	for i := 0; i < n; i++ {
		switch i % 4 {
		case 0:
			pre += "一"
			want += hanja.Convert("一")
		case 1:
			pre += "a"
			want += "a"
		case 2:
			pre += "é"
			want += "é"
		default:
			pre += "한"
			want += "한"
		}
	}
	r := rune3()
	hanjaSplit(r)
	c := string(r)
	pos := sym.Choose("position", 3)
	end := ""
	if pos == 1 {
		pre, want = "", ""
		end = "b"
	}
	if pos == 2 {
		end = "國."
	}
	sym.Assert(hanja.Convert(pre+c+end) == want+hanja.Convert(c)+hanja.Convert(end), "Convert is not character by character")
	sym.Reach("long")
}

// C21_Blocks: a character and ASCII bytes at every offset modulo 16 and more.
func C21_Blocks() {
	n := sym.Choose("before", 18)
	m := []int{0, 1, 7, 16}[sym.Choose("behind", 4)]
	a := strings.Repeat("a", n)
	b := strings.Repeat("b", m)
	r := 0x6F00 | rune(sym.Byte("r")) // 漢
	want := string(r)
	if hanjaSplit(r) {
		want = string(ref.Reading(r))
	}
	sym.Assert(hanja.Convert(a+string(r)+b) == a+want+b, "Convert is not character by character")
	sym.Reach("converted")
}

// C21_Huge: a text longer than 2^16 bytes.
func C21_Huge() {
	a := strings.Repeat("x", 1<<16-1+sym.Part(3))
	r := 0x6F00 | rune(sym.Byte("r"))
	want := string(r)
	if hanjaSplit(r) {
		want = string(ref.Reading(r))
	}
	sym.Assert(hanja.Convert(a+string(r)+"國") == a+want+"국", "Convert is not character by character")
	sym.Reach("converted")
}

// C22_Members: IsHanja of every 32-bit value.
func C22_Members() {
	r := sym.Rune("r")
	is := hanja.IsHanja(r)
	sym.ObsBool("is", is)
	sym.Assert(is == (ref.Reading(r) != 0), "IsHanja")
	sym.ReachIf(is, "hanja")
}

// C22_Readings: Convert of every character.
func C22_Readings() {
	r := runeOf(sym.Part(4))
	in := string(r)
	h := ref.Reading(r)
	if sym.Choose("hanja", 2) == 1 {
		sym.Assume(h != 0)
		out := hanja.Convert(in)
		sym.ObsStr("out", out)
		sym.Assert(out == string(h), "another reading than the published one")
		sym.Reach("hanja")
	} else {
		sym.Assume(h == 0)
		out := hanja.Convert(in)
		sym.ObsStr("out", out)
		sym.Assert(out == in, "a character without a reading changes")
		sym.Reach("no hanja")
	}
}

// C22_Order: any two neighbours of the hanja of KS X 1001.
func C22_Order() {
	i := sym.Uint16("i")
	sym.Assume(int(i) < len(ref.Order)-1)
	a, b := rune(ref.Order[i]), rune(ref.Order[i+1])
	x, _ := ref.DecodeRune([]byte(hanja.Convert(string(a))))
	y, _ := ref.DecodeRune([]byte(hanja.Convert(string(b))))
	sym.Assert(x <= y, "readings out of the order of KS X 1001")
	sym.ReachIf(x < y, "two readings")
	sym.ReachIf(x == y, "one reading")
}
