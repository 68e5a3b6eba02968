package props

import (
	hangul "github.com/suapapa/go_hangul"
	"verif/harness/ref"
	"verif/harness/sym"
)

var (
	_ = reg(H{Name: "C01_Split", F: C01_Split})
	_ = reg(H{Name: "C01_Compat", F: C01_Compat})
	_ = reg(H{Name: "C02_Triples", F: C02_Triples})
	_ = reg(H{Name: "C02_Decompose", F: C02_Decompose})
	_ = reg(H{Name: "C03_NoSyllable", F: C03_NoSyllable})
	_ = reg(H{Name: "C04_Forms", F: C04_Forms})
	_ = reg(H{Name: "C05_Classes", F: C05_Classes})
	_ = reg(H{Name: "C06_Compound", F: C06_Compound})
	_ = reg(H{Name: "C07_Letters", F: C07_Letters})
	_ = reg(H{Name: "C07_Syllables", F: C07_Syllables})
)

func syllable() rune {
	r := sym.Rune("r")
	sym.Assume(0xAC00 <= r && r <= 0xD7A3)
	return r
}

// C01_Split: every syllable.
func C01_Split() {
	r := syllable()
	l, m, t := hangul.Split(r)
	rl, rm, rt := ref.Parts(r)
	sym.Assert(l == rl, "Split: lead")
	sym.Assert(m == rm, "Split: vowel")
	sym.Assert(t == rt, "Split: tail")
	sym.ReachIf(t == 0, "no tail")
	sym.ReachIf(t != 0, "tail")
	sym.Assert(hangul.Join(l, m, t) == r, "Join(Split)")
	sym.Obs("l", int(l))
	sym.Obs("m", int(m))
	sym.Obs("t", int(t))
}

// C01_Compat: every syllable, compatibility forms.
func C01_Compat() {
	r := syllable()
	l, m, t := hangul.SplitCompat(r)
	rl, rm, rt := ref.Parts(r)
	sym.Assert(l == ref.Compat(rl), "SplitCompat: lead")
	sym.Assert(m == ref.Compat(rm), "SplitCompat: vowel")
	sym.Assert(t == ref.Compat(rt), "SplitCompat: tail")
	sym.ReachIf(t == 0, "no tail")
	sym.ReachIf(t != 0, "tail")
	sym.Assert(hangul.Join(l, m, t) == r, "Join(SplitCompat)")
	sym.Obs("l", int(l))
	sym.Obs("m", int(m))
	sym.Obs("t", int(t))
}

// C02_Triples: every three runes, against the table of modern jamo.
func C02_Triples() {
	l, m, t := sym.Rune("l"), sym.Rune("m"), sym.Rune("t")
	got := hangul.Join(l, m, t)
	rl, rm, rt := ref.Lead(l), ref.Vowel(m), ref.Tail(t)
	valid := sym.And(rl != 0, sym.And(rm != 0, sym.Or(t == 0, rt != 0)))
	ti := sym.IteRune(t == 0, 0, rt-0x11A7)
	want := sym.IteRune(valid, 0xAC00+((rl-0x1100)*21+(rm-0x1161))*28+ti, 0xFFFD)
	sym.Assert(got == want, "Join")
	sym.ReachIf(got == 0xFFFD, "rejected")
	sym.ReachIf(got != 0xFFFD, "composed")
	sym.Obs("got", int(got))
}

// C02_Decompose: what Join composes has exactly the given components.
func C02_Decompose() {
	l, m, t := sym.Rune("l"), sym.Rune("m"), sym.Rune("t")
	got := hangul.Join(l, m, t)
	if got == 0xFFFD {
		sym.Reach("rejected")
		return
	}
	sym.Reach("composed")
	sym.Assert(ref.IsSyllable(got), "Join returns a syllable or U+FFFD")
	rl, rm, rt := ref.Parts(got)
	sym.Assert(rl == ref.Lead(l), "lead of Join")
	sym.Assert(rm == ref.Vowel(m), "vowel of Join")
	if t == 0 {
		sym.Assert(rt == 0, "Join invents a tail")
	} else {
		sym.Assert(rt != 0, "Join drops the tail")
		sym.Assert(rt == ref.Tail(t), "tail of Join")
	}
}

// C03_NoSyllable: every 32-bit value that is no syllable.
func C03_NoSyllable() {
	r := sym.Rune("r")
	sym.Assume(r < 0xAC00 || r > 0xD7A3)
	l, m, t := hangul.Split(r)
	sym.Obs("l", int(l))
	sym.Obs("m", int(m))
	sym.Obs("t", int(t))
	sym.Assert(l == 0 && m == 0 && t == 0, "Split of a rune that is no syllable")
	l, m, t = hangul.SplitCompat(r)
	sym.Assert(l == 0 && m == 0 && t == 0, "SplitCompat of a rune that is no syllable")
	sym.ReachIf(r < 0, "negative")
	sym.ReachIf(r < 0x80, "ASCII")
	sym.ReachIf(0x1100 <= r && r < 0x1200, "jamo")
	sym.ReachIf(r > 0x10FFFF, "out of range")
}

// C04_Forms: every 32-bit value.
func C04_Forms() {
	r := sym.Rune("r")
	c, l, m, t := hangul.CompatJamo(r), hangul.Lead(r), hangul.Medial(r), hangul.Tail(r)
	sym.Obs("c", int(c))
	sym.Obs("l", int(l))
	sym.Obs("m", int(m))
	sym.Obs("t", int(t))
	sym.Assert(c == ref.Compat(r), "CompatJamo")
	sym.Assert(l == ref.Lead(r), "Lead")
	sym.Assert(m == ref.Vowel(r), "Medial")
	sym.Assert(t == ref.Tail(r), "Tail")
	sym.ReachIf(c != 0 && c != r, "converted")
	sym.ReachIf(c == 0, "no jamo")
	sym.ReachIf(l != 0 && t == 0, "lead without tail")
}

// C05_Classes: every 32-bit value.
func C05_Classes() {
	r := sym.Rune("r")
	lead := 0x1100 <= r && r <= 0x1112
	vowel := 0x1161 <= r && r <= 0x1175
	tail := 0x11A8 <= r && r <= 0x11C2
	cons := 0x3131 <= r && r <= 0x314E
	vow := 0x314F <= r && r <= 0x3163
	sym.ObsBool("h", hangul.IsHangul(r))
	sym.Assert(hangul.IsLead(r) == lead, "IsLead")
	sym.Assert(hangul.IsMedial(r) == vowel, "IsMedial")
	sym.Assert(hangul.IsTail(r) == tail, "IsTail")
	sym.Assert(hangul.IsJaeum(r) == (lead || tail || cons), "IsJaeum")
	sym.Assert(hangul.IsMoeum(r) == (vowel || vow), "IsMoeum")
	sym.Assert(hangul.IsHangul(r) == (lead || tail || cons || vowel || vow || ref.IsSyllable(r)), "IsHangul")
	sym.ReachIf(r < 0, "negative")
	sym.ReachIf(cons, "compatibility consonant")
	sym.ReachIf(vow, "compatibility vowel")
}

// C06_Compound: every 32-bit value.
func C06_Compound() {
	r := sym.Rune("r")
	es, ok := hangul.SplitMultiElement(r)
	sym.ObsBool("ok", ok)
	compound := ref.Elem(r, 0) != 0
	sym.Assert(ok == compound, "SplitMultiElement: success")
	if !ok {
		sym.Reach("not compound")
		sym.Assert(len(es) == 0, "elements of a rune that is not compound")
		return
	}
	n := sym.IteInt(ref.Elem(r, 2) != 0, 3, 2)
	sym.Assert(len(es) == n, "number of elements")
	for i, e := range es {
		sym.Obs("e", int(e))
		sym.Assert(e == ref.Elem(r, i), "element")
		_, again := hangul.SplitMultiElement(e)
		sym.Assert(!again, "element is itself compound")
	}
	if len(es) == 3 {
		sym.Reach("three elements")
	} else {
		sym.Reach("two elements")
	}
}

// C07_Letters: every 32-bit value that is no syllable.
func C07_Letters() {
	r := sym.Rune("r")
	sym.Assume(!ref.IsSyllable(r))
	n := hangul.Stroke(r)
	sym.Obs("n", n)
	sym.Assert(n == ref.Strokes(r), "Stroke")
	sym.Assert(n == hangul.Stroke(ref.Compat(r)), "forms of a letter differ in strokes")
	if es, ok := hangul.SplitMultiElement(r); ok {
		s := 0
		for _, e := range es {
			s += hangul.Stroke(e)
		}
		sym.Assert(n == s, "Stroke of a compound letter is not the sum")
		sym.Reach("compound")
	}
	sym.ReachIf(n == 0, "no jamo")
	sym.ReachIf(n > 4, "many strokes")
}

// C07_Syllables: every syllable.
func C07_Syllables() {
	r := syllable()
	n := hangul.Stroke(r)
	l, m, t := ref.Parts(r)
	sym.Obs("n", n)
	sym.Assert(n == hangul.Stroke(l)+hangul.Stroke(m)+hangul.Stroke(t), "Stroke of a syllable is not the sum")
	sym.Assert(n == ref.Strokes(l)+ref.Strokes(m)+ref.Strokes(t), "Stroke of a syllable")
	sym.ReachIf(t == 0, "no tail")
	sym.ReachIf(t != 0, "tail")
}
