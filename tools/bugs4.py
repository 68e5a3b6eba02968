exec(open("/verif/tools/bugs1.py").read().split("BUGS = [")[0])
CPF = "encoding/cp949/cp949.go"; PUB = "encoding/cp949/public.go"; ENC = "encoding/cp949/encoding.go"
HANG = "hangul.go"; CON = "constant.go"
BUGS = [
dict(id="medial-names", property="C26", edits=[(CON, "	MedialWEO // HANGUL JUNGSEONG WEO\n	MedialWE  // HANGUL JUNGSEONG WE\n", "	MedialWE  // HANGUL JUNGSEONG WE\n	MedialWEO // HANGUL JUNGSEONG WEO\n")],
  needs="the constants MedialWE and MedialWEO", breaks="each stands for the vowel of the other",
  demo=demo("hangul_test", [HANGUL], "	if r := hangul.CompatJamo(hangul.MedialWE); r != hangul.WE {\n		t.Fatalf(\"%x\", r)\n	}")),
dict(id="tail-names", property="C26", edits=[(CON, "	TailLT // HANGUL JONGSEONG RIEUL-THIEUTH\n	TailLP // HANGUL JONGSEONG RIEUL-PHIEUPH\n", "	TailLP // HANGUL JONGSEONG RIEUL-PHIEUPH\n	TailLT // HANGUL JONGSEONG RIEUL-THIEUTH\n"), ("jamo.go", "	TailLT: LT,\n	TailLP: LP,\n", "	TailLT: LP,\n	TailLP: LT,\n"), ("jamo.go", "	LT: TailLT,\n	LP: TailLP,\n", "	LT: TailLP,\n	LP: TailLT,\n")],
  needs="the constants TailLT and TailLP", breaks="each stands for the tail of the other (the functions are right about both)",
  demo=demo("hangul_test", [HANGUL], "	if hangul.TailLT != 0x11B4 || hangul.CompatJamo(hangul.TailLP) != hangul.LP {\n		t.Fatalf(\"%x\", hangul.TailLT)\n	}")),
]
