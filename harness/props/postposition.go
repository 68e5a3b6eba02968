package props

import (
	hangul "github.com/suapapa/go_hangul"
	"verif/harness/ref"
	"verif/harness/sym"
)

var (
	_ = reg(H{Name: "C08_Bytes", F: C08_Bytes, Parts: 6, Deep: 8})
	_ = reg(H{Name: "C08_LastChar", F: C08_LastChar, Parts: 4, Deep: 4})
	_ = reg(H{Name: "C08_Long", F: C08_Long})
	_ = reg(H{Name: "C09_Bytes", F: C09_Bytes, Parts: 4, Deep: 6})
	_ = reg(H{Name: "C09_Syllable", F: C09_Syllable, Parts: 6, Deep: 6})
	_ = reg(H{Name: "C09_Particles", F: C09_Particles, Parts: 3, Deep: 3})
)

// lastRune is the last character of a string, 0 if it is empty.
func lastRune(w string) rune {
	p := []byte(w)
	last := rune(0)
	for len(p) > 0 {
		r, n := ref.DecodeRune(p)
		last = r
		p = p[n:]
	}
	return last
}

// tailOf is the tail of a syllable, 0 for any other rune.
func tailOf(r rune) rune {
	if !ref.IsSyllable(r) {
		return 0
	}
	_, _, t := ref.Parts(r)
	return t
}

func checkLast(w string, want rune) {
	t := hangul.LastConsonant(w)
	sym.Obs("t", int(t))
	sym.Assert(t == want, "LastConsonant")
	sym.Assert(hangul.EndsWithConsonant(w) == (want != 0), "EndsWithConsonant")
}

// C08_Bytes: every byte string of the length of the part.
func C08_Bytes() {
	w := sym.Str("w", sym.Part(8))
	want := tailOf(lastRune(w))
	checkLast(w, want)
	sym.ReachIf(want == 0, "no tail")
}

// C08_LastChar: a last character of every kind after texts of every kind.
func C08_LastChar() {
	r := sym.Rune("r")
	switch sym.Part(4) {
	case 0:
		sym.Assume(0xAC00 <= r && r <= 0xD7A3)
	case 1:
		sym.Assume(0 <= r && r < 0x800)
	case 2:
		sym.Assume(0x800 <= r && r < 0xAC00 || 0xD7A3 < r && r < 0xD800 || 0xE000 <= r && r <= 0xFFFF)
	case 3:
		sym.Assume(0xFFFF < r && r <= 0x10FFFF)
	}
	pre := ""
	switch sym.Choose("prefix", 6) {
	case 1:
		pre = sym.Str("p", 1)
	case 2:
		pre = sym.Str("p", 2)
	case 3:
		p := sym.Rune("q")
		sym.Assume(0xAC00 <= p && p <= 0xD7A3)
		pre = string(p)
	case 4:
		pre = "한글 \xff\xed\xa0 값"
	case 5:
		p := sym.Rune("q")
		sym.Assume(0xAC00 <= p && p <= 0xD7A3)
		pre = string(p) + sym.Str("p", 1)
	}
	checkLast(pre+string(r), tailOf(r))
	if sym.Part(4) == 0 {
		sym.ReachIf(tailOf(r) == 0x11AF, "tail ㄹ")
		sym.ReachIf(tailOf(r) == 0, "no tail")
	} else {
		sym.Reach("no syllable")
	}
}

// C08_Long: long words.
func C08_Long() {
	n := []int{15, 16, 17, 31, 32, 33, 64, 100, 300}[sym.Choose("n", 9)]
	w := ""
	for i := 0; i < n; i++ {
		w += []string{"강", "a", "가", "漢"}[i%4]
	}
	r := sym.Rune("r")
	sym.Assume(0xAC00 <= r && r <= 0xD7A3)
	end := ""
	if sym.Choose("end", 2) == 1 {
		b := sym.Byte("b")
		end = string([]byte{b})
		checkLast(w+string(r)+end, 0)
		return
	}
	checkLast(w+string(r), tailOf(r))
	sym.Reach("syllable")
}

func checkAppend(word, with, without string, tail rune) {
	got := hangul.AppendPostposition(word, with, without)
	sym.ObsStr("got", got)
	exc := sym.And(with == "으로", tail == 0x11AF)
	if tail != 0 && !exc {
		sym.Assert(got == word+with, "word with a tail")
		sym.Reach("with")
	} else {
		sym.Assert(got == word+without, "word without a tail")
		sym.Reach("without")
	}
}

// C09_Bytes: every word of the length of the part, every pair of short particles.
func C09_Bytes() {
	w := sym.Str("w", sym.Part(6))
	with := sym.Str("with", 1+sym.Choose("n", 2))
	without := sym.Str("without", sym.Choose("m", 2))
	got := hangul.AppendPostposition(w, with, without)
	sym.ObsStr("got", got)
	if tailOf(lastRune(w)) != 0 {
		sym.Assert(got == w+with, "word with a tail")
	} else {
		sym.Assert(got == w+without, "word without a tail")
		sym.Reach("without")
	}
}

// C09_Syllable: words that end in any syllable, any particles of the length of the
// part, among them 으로.
func C09_Syllable() {
	n := []int{0, 1, 3, 6, 7, 9}[sym.Part(6)]
	r := sym.Rune("r")
	sym.Assume(0xAC00 <= r && r <= 0xD7A3)
	w := ""
	switch sym.Choose("prefix", 3) {
	case 1:
		w = sym.Str("p", 1)
	case 2:
		w = "서울 \xff사람"
	}
	checkAppend(w+string(r), sym.Str("with", n), sym.Str("without", sym.Choose("m", 4)), tailOf(r))
}

// C09_Particles: the usual particles, after any syllable or any other character.
func C09_Particles() {
	ps := [][2]string{{"이", "가"}, {"은", "는"}, {"을", "를"}, {"과", "와"}, {"으로", "로"}, {"이랑", "랑"}, {"로", "으로"},
		{"으로서", "로서"}, {"으로써", "로써"}, {"으로부터", "로부터"}, {"", "으로"}, {"으", "로"}, {"아", "야"}}
	p := ps[sym.Choose("particle", len(ps))]
	r := sym.Rune("r")
	switch sym.Part(3) {
	case 0:
		sym.Assume(0xAC00 <= r && r <= 0xD7A3)
		checkAppend(string(r), p[0], p[1], tailOf(r))
		sym.Reach("syllable")
		return
	case 1:
		sym.Assume(0 <= r && r < 0xAC00)
	case 2:
		sym.Assume(0xD7A3 < r && r < 0xD800 || 0xE000 <= r && r <= 0x10FFFF)
	}
	w := "길" + string(r)
	got := hangul.AppendPostposition(w, p[0], p[1])
	sym.ObsStr("got", got)
	sym.Assert(got == w+p[1], "word that does not end in Hangul")
}
