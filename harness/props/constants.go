package props

import (
	hangul "github.com/suapapa/go_hangul"
	"verif/harness/sym"
)

var (
	_ = reg(H{Name: "C26_Values", F: C26_Values})
	_ = reg(H{Name: "C26_Forms", F: C26_Forms})
	_ = reg(H{Name: "C26_Cover", F: C26_Cover})
)

// One row for each name: the constants of the letter in its four forms (compatibility, lead,
// vowel, tail), and the code points of the characters with the Unicode names they stand for.
var constants = [52]struct{ c, want [4]rune }{
	{[4]rune{hangul.G, hangul.LeadG, 0, hangul.TailG}, [4]rune{0x3131, 0x1100, 0, 0x11A8}},
	{[4]rune{hangul.GG, hangul.LeadGG, 0, hangul.TailGG}, [4]rune{0x3132, 0x1101, 0, 0x11A9}},
	{[4]rune{hangul.GS, 0, 0, hangul.TailGS}, [4]rune{0x3133, 0, 0, 0x11AA}},
	{[4]rune{hangul.N, hangul.LeadN, 0, hangul.TailN}, [4]rune{0x3134, 0x1102, 0, 0x11AB}},
	{[4]rune{hangul.NJ, 0, 0, hangul.TailNJ}, [4]rune{0x3135, 0, 0, 0x11AC}},
	{[4]rune{hangul.NH, 0, 0, hangul.TailNH}, [4]rune{0x3136, 0, 0, 0x11AD}},
	{[4]rune{hangul.D, hangul.LeadD, 0, hangul.TailD}, [4]rune{0x3137, 0x1103, 0, 0x11AE}},
	{[4]rune{hangul.DD, hangul.LeadDD, 0, 0}, [4]rune{0x3138, 0x1104, 0, 0}},
	{[4]rune{hangul.L, hangul.LeadR, 0, hangul.TailL}, [4]rune{0x3139, 0x1105, 0, 0x11AF}},
	{[4]rune{hangul.LG, 0, 0, hangul.TailLG}, [4]rune{0x313A, 0, 0, 0x11B0}},
	{[4]rune{hangul.LM, 0, 0, hangul.TailLM}, [4]rune{0x313B, 0, 0, 0x11B1}},
	{[4]rune{hangul.LB, 0, 0, hangul.TailLB}, [4]rune{0x313C, 0, 0, 0x11B2}},
	{[4]rune{hangul.LS, 0, 0, hangul.TailLS}, [4]rune{0x313D, 0, 0, 0x11B3}},
	{[4]rune{hangul.LT, 0, 0, hangul.TailLT}, [4]rune{0x313E, 0, 0, 0x11B4}},
	{[4]rune{hangul.LP, 0, 0, hangul.TailLP}, [4]rune{0x313F, 0, 0, 0x11B5}},
	{[4]rune{hangul.LH, 0, 0, hangul.TailLH}, [4]rune{0x3140, 0, 0, 0x11B6}},
	{[4]rune{hangul.M, hangul.LeadM, 0, hangul.TailM}, [4]rune{0x3141, 0x1106, 0, 0x11B7}},
	{[4]rune{hangul.B, hangul.LeadB, 0, hangul.TailB}, [4]rune{0x3142, 0x1107, 0, 0x11B8}},
	{[4]rune{hangul.BB, hangul.LeadBB, 0, 0}, [4]rune{0x3143, 0x1108, 0, 0}},
	{[4]rune{hangul.BS, 0, 0, hangul.TailBS}, [4]rune{0x3144, 0, 0, 0x11B9}},
	{[4]rune{hangul.S, hangul.LeadS, 0, hangul.TailS}, [4]rune{0x3145, 0x1109, 0, 0x11BA}},
	{[4]rune{hangul.SS, hangul.LeadSS, 0, hangul.TailSS}, [4]rune{0x3146, 0x110A, 0, 0x11BB}},
	{[4]rune{hangul.ZS, hangul.LeadZS, 0, hangul.TailNG}, [4]rune{0x3147, 0x110B, 0, 0x11BC}},
	{[4]rune{hangul.J, hangul.LeadJ, 0, hangul.TailJ}, [4]rune{0x3148, 0x110C, 0, 0x11BD}},
	{[4]rune{hangul.JJ, hangul.LeadJJ, 0, 0}, [4]rune{0x3149, 0x110D, 0, 0}},
	{[4]rune{hangul.C, hangul.LeadC, 0, hangul.TailC}, [4]rune{0x314A, 0x110E, 0, 0x11BE}},
	{[4]rune{hangul.K, hangul.LeadK, 0, hangul.TailK}, [4]rune{0x314B, 0x110F, 0, 0x11BF}},
	{[4]rune{hangul.T, hangul.LeadT, 0, hangul.TailT}, [4]rune{0x314C, 0x1110, 0, 0x11C0}},
	{[4]rune{hangul.P, hangul.LeadP, 0, hangul.TailP}, [4]rune{0x314D, 0x1111, 0, 0x11C1}},
	{[4]rune{hangul.H, hangul.LeadH, 0, hangul.TailH}, [4]rune{0x314E, 0x1112, 0, 0x11C2}},
	{[4]rune{hangul.A, 0, hangul.MedialA, 0}, [4]rune{0x314F, 0, 0x1161, 0}},
	{[4]rune{hangul.AE, 0, hangul.MedialAE, 0}, [4]rune{0x3150, 0, 0x1162, 0}},
	{[4]rune{hangul.YA, 0, hangul.MedialYA, 0}, [4]rune{0x3151, 0, 0x1163, 0}},
	{[4]rune{hangul.YAE, 0, hangul.MedialYAE, 0}, [4]rune{0x3152, 0, 0x1164, 0}},
	{[4]rune{hangul.EO, 0, hangul.MedialEO, 0}, [4]rune{0x3153, 0, 0x1165, 0}},
	{[4]rune{hangul.E, 0, hangul.MedialE, 0}, [4]rune{0x3154, 0, 0x1166, 0}},
	{[4]rune{hangul.YEO, 0, hangul.MedialYEO, 0}, [4]rune{0x3155, 0, 0x1167, 0}},
	{[4]rune{hangul.YE, 0, hangul.MedialYE, 0}, [4]rune{0x3156, 0, 0x1168, 0}},
	{[4]rune{hangul.O, 0, hangul.MedialO, 0}, [4]rune{0x3157, 0, 0x1169, 0}},
	{[4]rune{hangul.WA, 0, hangul.MedialWA, 0}, [4]rune{0x3158, 0, 0x116A, 0}},
	{[4]rune{hangul.WAE, 0, hangul.MedialWAE, 0}, [4]rune{0x3159, 0, 0x116B, 0}},
	{[4]rune{hangul.OE, 0, hangul.MedialOE, 0}, [4]rune{0x315A, 0, 0x116C, 0}},
	{[4]rune{hangul.YO, 0, hangul.MedialYO, 0}, [4]rune{0x315B, 0, 0x116D, 0}},
	{[4]rune{hangul.U, 0, hangul.MedialU, 0}, [4]rune{0x315C, 0, 0x116E, 0}},
	{[4]rune{hangul.WEO, 0, hangul.MedialWEO, 0}, [4]rune{0x315D, 0, 0x116F, 0}},
	{[4]rune{hangul.WE, 0, hangul.MedialWE, 0}, [4]rune{0x315E, 0, 0x1170, 0}},
	{[4]rune{hangul.WI, 0, hangul.MedialWI, 0}, [4]rune{0x315F, 0, 0x1171, 0}},
	{[4]rune{hangul.YU, 0, hangul.MedialYU, 0}, [4]rune{0x3160, 0, 0x1172, 0}},
	{[4]rune{hangul.EU, 0, hangul.MedialEU, 0}, [4]rune{0x3161, 0, 0x1173, 0}},
	{[4]rune{hangul.YI, 0, hangul.MedialYI, 0}, [4]rune{0x3162, 0, 0x1174, 0}},
	{[4]rune{hangul.I, 0, hangul.MedialI, 0}, [4]rune{0x3163, 0, 0x1175, 0}},
	{[4]rune{hangul.NG, hangul.LeadZS, 0, hangul.TailNG}, [4]rune{0x3147, 0x110B, 0, 0x11BC}},
}

func constant() (i int) {
	i = int(sym.Byte("i"))
	sym.Assume(i < len(constants))
	return i
}

// C26_Values: every constant.
func C26_Values() {
	row := constants[constant()]
	for f := range row.c {
		sym.Assert(row.c[f] == row.want[f], "the constant is not the letter it is named for")
		sym.ReachIf(row.c[f] != 0, "the letter has this form")
	}
}

// C26_Forms: the functions take the constant of one form to the constant of the other, and
// letters to what the constants say about them.
func C26_Forms() {
	row := constants[constant()]
	x, l, m, t := row.c[0], row.c[1], row.c[2], row.c[3]
	for f, c := range row.c {
		if c != 0 {
			sym.Assert(hangul.CompatJamo(c) == x, "CompatJamo of a constant")
			sym.Assert(hangul.IsHangul(c), "IsHangul of a constant")
			sym.Assert(hangul.IsLead(c) == (f == 1), "IsLead of a constant")
			sym.Assert(hangul.IsMedial(c) == (f == 2), "IsMedial of a constant")
			sym.Assert(hangul.IsTail(c) == (f == 3), "IsTail of a constant")
			sym.Assert(hangul.IsMoeum(c) == (m != 0), "IsMoeum of a constant")
			sym.Assert(hangul.IsJaeum(c) == (m == 0), "IsJaeum of a constant")
		}
	}
	sym.Assert(hangul.Lead(x) == l, "Lead of a constant")
	sym.Assert(hangul.Medial(x) == m, "Medial of a constant")
	sym.Assert(hangul.Tail(x) == t, "Tail of a constant")
	sym.ReachIf(l != 0, "lead")
	sym.ReachIf(m != 0, "vowel")
	sym.ReachIf(t != 0, "tail")
}

// C26_Cover: every rune that is a letter by one of the predicates has a constant.
func C26_Cover() {
	r := sym.Rune("r")
	sym.Assume(sym.Or(hangul.IsJaeum(r), hangul.IsMoeum(r)))
	found := false
	for _, row := range constants {
		for _, c := range row.c {
			found = sym.Or(found, c == r)
		}
	}
	sym.Assert(found, "a letter without a constant")
	sym.Reach("letter")
}
