T = 'package %s\n\nimport (\n%s\n)\n\nfunc TestDemo(t *testing.T) {\n%s\n}\n'
def demo(pkg, imports, body):
    return T % (pkg, "\n".join('\t"%s"' % x for x in ["testing"] + imports), body)
HANGUL = "github.com/suapapa/go_hangul"
CP = HANGUL + "/encoding/cp949"
HJ = HANGUL + "/hanja"
BUGS = [
dict(id="join-tail-h", property="C02", edits=[("jamo.go", "	if TailG <= c && c <= TailH {\n		return c\n	}\n	if t, ok", "	if tailBase <= c && c < tailBase+maxTailIdx {\n		return c\n	}\n	if t, ok")],
  needs="the very last tail consonant (U+11C2) in conjoining form", breaks="Join rejects every syllable with the conjoining tail HIEUH, although the compatibility form works",
  demo=demo("hangul_test", [HANGUL], "	if r := hangul.Join(0x1112, 0x1161, 0x11C2); r != '핳' {\n		t.Fatalf(\"%x\", r)\n	}")),
dict(id="compat-tail-lp", property="C04", edits=[("jamo.go", "	TailLT: LT,\n", "	TailLT: LP,\n")],
  needs="the tail ㄾ (U+11B4), for instance of 핥", breaks="CompatJamo of the tail LT is LP; the other direction is right, so the two no longer agree",
  demo=demo("hangul_test", [HANGUL], "	if r := hangul.CompatJamo(0x11B4); r != 'ㄾ' {\n		t.Fatalf(\"%x\", r)\n	}")),
dict(id="medial-offset", property="C04", edits=[("jamo.go", "	case A <= c && c <= I:\n		return c - A + medialBase\n", "	case A-1 < c && c < I+2:\n		return c - A + medialBase\n")],
  needs="U+3164 HANGUL FILLER as the argument of Medial", breaks="Medial maps the filler to the jamo behind the last vowel instead of 0",
  demo=demo("hangul_test", [HANGUL], "	if r := hangul.Medial(0x3164); r != 0 {\n		t.Fatalf(\"%x\", r)\n	}")),
dict(id="is-jaeum-gap", property="C05", edits=[("jamo.go", "	case IsLead(r):\n		return true\n	case IsTail(r):\n		return true\n	}\n	return false\n}\n\n// IsMoeum", "	case IsLead(r), LeadH < r && r < medialBase-1 && Tail(r) != 0:\n		return true\n	case TailG <= r && r < TailG+maxTailIdx:\n		return true\n	}\n	return false\n}\n\n// IsMoeum")],
  needs="the tail U+11C2", breaks="IsJaeum, and so IsHangul, deny the last tail consonant",
  demo=demo("hangul_test", [HANGUL], "	if !hangul.IsHangul(0x11C2) || !hangul.IsJaeum(0x11C2) {\n		t.Fatal()\n	}")),
dict(id="elements-bs", property="C06", edits=[("jamo.go", "	BS:  []rune{B, S},\n	SS:  []rune{S, S},\n", "	BS:  []rune{B, SS},\n	SS:  []rune{S, S},\n")],
  needs="the compound ㅄ (as in 값, 없)", breaks="SplitMultiElement(ㅄ) returns ㅂ and ㅆ, which is itself a compound",
  demo=demo("hangul_test", [HANGUL], "	es, _ := hangul.SplitMultiElement('ㅄ')\n	if string(es) != \"ㅂㅅ\" {\n		t.Fatal(string(es))\n	}")),
dict(id="stroke-forms", property="C07", edits=[("stroke.go", "	jm := CompatJamo(r)\n	if es, ok := SplitMultiElement(jm); ok {", "	jm := CompatJamo(r)\n	if es, ok := multiElements[r]; ok {")],
  needs="a compound letter in a conjoining form, such as the tail of 닭", breaks="Stroke of conjoining compounds, and of syllables that contain one, is too low by theirs",
  demo=demo("hangul_test", [HANGUL], "	if hangul.Stroke(0x11B0) != hangul.Stroke('ㄺ') {\n		t.Fatal(hangul.Stroke(0x11B0))\n	}")),
dict(id="last-consonant-window", property="C08", edits=[("hangul.go", "	runes := []rune(word)\n	_, _, t := Split(runes[len(runes)-1])", "	for len(word) > 4 && word[len(word)-1] < ' ' {\n		word = word[:len(word)-1]\n	}\n	runes := []rune(word)\n	_, _, t := Split(runes[len(runes)-1])")],
  needs="a word longer than four bytes that ends in a control character such as a newline", breaks="LastConsonant looks behind the last character",
  demo=demo("hangul_test", [HANGUL], "	if c := hangul.LastConsonant(\"사람\\n\"); c != 0 {\n		t.Fatalf(\"%x\", c)\n	}")),
dict(id="euro-family", property="C09", edits=[("hangul.go", '	if with == "으로" && lastTail == TailL {', '	if len(with) > 5 && with[:6] == "으로" && lastTail == TailL {')],
  needs="a particle that only begins with 으로 (으로서, 으로부터) after a tail ㄹ", breaks="AppendPostposition drops the particle asked for",
  demo=demo("hangul_test", [HANGUL], "	if s := hangul.AppendPostposition(\"서울\", \"으로서\", \"로서\"); s != \"서울으로서\" {\n		t.Fatal(s)\n	}")),
dict(id="euro-compound", property="C09", edits=[("hangul.go", '	if with == "으로" && lastTail == TailL {', '	if with == "으로" && TailL <= lastTail && lastTail < TailLH && lastTail != TailLG {')],
  needs="으로 after a syllable with a compound tail that begins with ㄹ other than ㄺ, such as 삶, 여덟", breaks="the exception for ㄹ is extended to compounds: 삶로 instead of 삶으로",
  demo=demo("hangul_test", [HANGUL], "	if s := hangul.AppendPostposition(\"삶\", \"으로\", \"로\"); s != \"삶으로\" {\n		t.Fatal(s)\n	}")),
dict(id="last-0x80", property="C13", pkg="encoding/cp949", edits=[("encoding/cp949/cp949.go", "func (p *translateFromCp949) Translate(data []byte) (int, []byte, error) {\n	p.scratch = p.scratch[:0]\n	c := 0\n	for len(data) > 0 {\n		if data[0]&0x80 == 0 {", "func (p *translateFromCp949) Translate(data []byte) (int, []byte, error) {\n	p.scratch = p.scratch[:0]\n	c := 0\n	for len(data) > 0 {\n		if data[0]&0x80 == 0 || data[0] == 0x80 && len(data) == 1 {")],
  needs="a text that ends in a lone byte 0x80", breaks="the lone byte is passed through: the output is not valid UTF-8 and no error is returned",
  demo=demo("cp949_test", [CP], "	if out, err := cp949.From([]byte(\"a\\x80\")); err == nil {\n		t.Fatalf(\"%q\", out)\n	}")),
dict(id="malformed-run", property="C14", pkg="encoding/cp949", edits=[("encoding/cp949/cp949.go", "		} else {\n			p.scratch = append(p.scratch, '?')\n		}\n\n		data = data[s:]", "		} else {\n			p.scratch = append(p.scratch, '?')\n			for r == utf8.RuneError && s > 1 && s < len(data) && !utf8.RuneStart(data[s]) {\n				s++\n			}\n		}\n\n		data = data[s:]")],
  needs="the character U+FFFD itself followed by stray continuation bytes", breaks="the stray bytes behind a U+FFFD disappear instead of becoming '?' each",
  demo=demo("cp949_test", [CP], "	out, _ := cp949.To([]byte(\"\\uFFFD\\x80a\"))\n	if string(out) != \"??a\" {\n		t.Fatalf(\"%q\", out)\n	}")),
dict(id="reader-room", property="C15", pkg="encoding/cp949", edits=[("encoding/cp949/public.go", "			r.rdata = ensureCap(r.rdata, len(r.rdata)+len(buf))", "			r.rdata = ensureCap(r.rdata, len(buf))")],
  needs="a caller's buffer of one byte and a two-byte character that does not come whole in the first read", breaks="the reader has no room behind the first byte, reads nothing for ever",
  demo=demo("cp949_test", ["io", "strings", "testing/iotest", CP], "	r, _ := cp949.NewReader(iotest.OneByteReader(strings.NewReader(\"a\\xC7\\xD1\")))\n	out, err := io.ReadAll(io.LimitReader(iotest.OneByteReader(r), 100))\n	if string(out) != \"a한\" || err != nil {\n		t.Fatalf(\"%q %v\", out, err)\n	}")),
dict(id="reader-eof-data", property="C15", pkg="encoding/cp949", edits=[("encoding/cp949/public.go", "			r.rdata = r.rdata[0 : len(r.rdata)+n]\n			r.err = err", "			if err == io.EOF && len(r.rdata) > 0 && n == 1 {\n				n = 0 // the end of the stream\n			}\n			r.rdata = r.rdata[0 : len(r.rdata)+n]\n			r.err = err")],
  needs="a source that delivers the second byte of the last character together with io.EOF", breaks="the last character is lost",
  demo=demo("cp949_test", ["io", "strings", "testing/iotest", CP], "	r, _ := cp949.NewReader(iotest.DataErrReader(iotest.OneByteReader(strings.NewReader(\"\\xC7\\xD1\"))))\n	out, err := io.ReadAll(r)\n	if string(out) != \"한\" || err != nil {\n		t.Fatalf(\"%q %v\", out, err)\n	}")),
dict(id="reader-failure", property="C19", pkg="encoding/cp949", edits=[("encoding/cp949/public.go", "			r.rdata = r.rdata[0 : len(r.rdata)+n]\n			r.err = err", "			r.rdata = r.rdata[0 : len(r.rdata)+n]\n			if r.err = err; err == io.ErrUnexpectedEOF {\n				r.err = io.EOF\n			}")],
  needs="a source that fails with io.ErrUnexpectedEOF", breaks="the reader reports a regular end, so a cut stream looks complete",
  demo=demo("cp949_test", ["io", "strings", "testing/iotest", CP], "	r, _ := cp949.NewReader(io.MultiReader(strings.NewReader(\"a\\xC7\\xD1\"), iotest.ErrReader(io.ErrUnexpectedEOF)))\n	out, err := io.ReadAll(r)\n	if string(out) != \"a한\" || err != io.ErrUnexpectedEOF {\n		t.Fatalf(\"%q %v\", out, err)\n	}")),
dict(id="writer-error", property="C19", pkg="encoding/cp949", edits=[("encoding/cp949/public.go", "			w.buf = w.buf[:held]\n			return 0, err", "			w.buf = w.buf[:held]\n			if err == io.ErrShortWrite {\n				return len(data), nil\n			}\n			return 0, err")],
  needs="a destination that fails with io.ErrShortWrite", breaks="the writer reports success",
  demo=demo("cp949_test", ["io", CP], "	w, _ := cp949.NewWriter(short{})\n	if _, err := w.Write([]byte(\"한\")); err != io.ErrShortWrite {\n		t.Fatal(err)\n	}") + "\ntype short struct{}\n\nfunc (short) Write(p []byte) (int, error) { return 0, io.ErrShortWrite }\n"),
dict(id="shared-encoder", property="C20", pkg="encoding/cp949", edits=[("encoding/cp949/cp949.go", "func toCp949() (translator, error) {\n	return &translateToCp949{table: toTable}, nil", "var defaultToCp949 = &translateToCp949{table: toTable}\n\nfunc toCp949() (translator, error) {\n	return defaultToCp949, nil")],
  needs="the result of one To is kept while another To is called", breaks="all encoders share one output buffer: a later call overwrites earlier results",
  demo=demo("cp949_test", [CP], "	a, _ := cp949.To([]byte(\"한글\"))\n	cp949.To([]byte(\"漢字\"))\n	if string(a) != \"\\xC7\\xD1\\xB1\\xDB\" {\n		t.Fatalf(\"%q\", a)\n	}")),
dict(id="lazy-table", property="C23", pkg="encoding/cp949", flags="-race", edits=[("encoding/cp949/cp949.go", "func fromCp949() (translator, error) {\n	return &translateFromCp949{table: fromTable}, nil", "var lastFrom int // how often decoding was asked for\n\nfunc fromCp949() (translator, error) {\n	lastFrom++\n	return &translateFromCp949{table: fromTable}, nil")],
  needs="two goroutines that decode at the same time", breaks="unsynchronised writes to a package variable",
  demo=demo("cp949_test", ["sync", CP], "	var wg sync.WaitGroup\n	for i := 0; i < 8; i++ {\n		wg.Add(1)\n		go func() {\n			defer wg.Done()\n			for k := 0; k < 100; k++ {\n				cp949.From([]byte(\"\\xC7\\xD1\"))\n			}\n		}()\n	}\n	wg.Wait()")),
dict(id="initial-sound", property="C21", pkg="hanja", edits=[("hanja/hanja.go", "		if ok {\n			rh[i] = h\n		}", "		if ok {\n			rh[i] = h\n		}\n		// 不 is read 부 before ㄷ and ㅈ\n		if i > 0 && (rh[i-1] == '불') && ok && ((h-0xAC00)/588 == 3 || (h-0xAC00)/588 == 12) {\n			rh[i-1] = '부'\n		}")],
  needs="a character read 불 followed by one whose reading begins with ㄷ or ㅈ", breaks="the conversion of a character depends on its neighbour",
  demo=demo("hanja_test", [HJ], "	a, b := hanja.Convert(\"不\"), hanja.Convert(\"正\")\n	if s := hanja.Convert(\"不正\"); s != a+b {\n		t.Fatal(s)\n	}")),
dict(id="swapped-codes", property="C10", pkg="encoding/cp949", edits=[
   ("encoding/cp949/lookup_from.go", "{cp949: 0xddcf, ucs2: 0x7c89}", "{cp949: 0xddcf, ucs2: 0x7cde}"),
   ("encoding/cp949/lookup_from.go", "{cp949: 0xddd0, ucs2: 0x7cde}", "{cp949: 0xddd0, ucs2: 0x7c89}"),
   ("encoding/cp949/lookup_to.go", "{ucs2: 0x7c89, cp949: 0xddcf}", "{ucs2: 0x7c89, cp949: 0xddd0}"),
   ("encoding/cp949/lookup_to.go", "{ucs2: 0x7cde, cp949: 0xddd0}", "{ucs2: 0x7cde, cp949: 0xddcf}")],
  needs="one of two rare hanja (codes DDCF, DDD0)", breaks="the two codes are exchanged in both tables, so round trips still work",
  demo=demo("cp949_test", [CP], "	if out, _ := cp949.From([]byte(\"\\xDD\\xCF\")); string(out) != \"粉\" && string(out) != \"\\u7c89\" {\n		t.Fatalf(\"%q\", out)\n	}")),
dict(id="duplicate-code", property="C12", pkg="encoding/cp949", edits=[("encoding/cp949/lookup_to.go", "{ucs2: 0xb782, cp949: 0x8dee}", "{ucs2: 0xb782, cp949: 0x8def}")],
  needs="the syllable U+B782", breaks="it is encoded as its neighbour and does not survive a round trip",
  demo=demo("cp949_test", [CP], "	x, _ := cp949.To([]byte(\"\\ub782\"))\n	if y, _ := cp949.From(x); string(y) != \"\\ub782\" {\n		t.Fatalf(\"%q\", y)\n	}")),
dict(id="writer-count", property="C16", pkg="encoding/cp949", edits=[("encoding/cp949/public.go", "	return len(data), nil\n}\n\n// incompleteTail", "	return len(data) - len(w.buf), nil\n}\n\n// incompleteTail")],
  needs="a Write that ends inside a character", breaks="the count leaves out the held back bytes, so a caller writes them again",
  demo=demo("cp949_test", ["bytes", CP], "	var b bytes.Buffer\n	w, _ := cp949.NewWriter(&b)\n	if n, err := w.Write([]byte(\"a\\xED\\x95\")); n != 3 || err != nil {\n		t.Fatal(n, err)\n	}")),
dict(id="writers-share", property="C20", pkg="encoding/cp949", edits=[("encoding/cp949/public.go", "	return &cp949Writer{w: w, tr: tr}, nil\n}", "	return &cp949Writer{w: w, tr: tr, buf: pending[:0]}, nil\n}\n\n// room for the bytes of one character\nvar pending [4]byte")],
  needs="two writers used in turn, both in the middle of a character", breaks="the held back bytes of one writer are overwritten by the other's",
  demo=demo("cp949_test", ["bytes", CP], "	var a, b bytes.Buffer\n	v, _ := cp949.NewWriter(&a)\n	w, _ := cp949.NewWriter(&b)\n	v.Write([]byte(\"\\xED\\x95\"))\n	w.Write([]byte(\"\\xEA\"))\n	v.Write([]byte(\"\\x9C\"))\n	if a.String() != \"\\xC7\\xD1\" {\n		t.Fatalf(\"%q\", a.String())\n	}")),
dict(id="decoder-keeps", property="C20", pkg="encoding/cp949", edits=[
   ("encoding/cp949/encoding.go", "type cp949Decoder struct{}", "type cp949Decoder struct {\n	ready []byte // converted, but dst was full\n}"),
   ("encoding/cp949/encoding.go", "		_, converted, err := tr.Translate(src[nSrc : nSrc+size])\n		if err != nil {\n			return nDst, nSrc, err\n		}\n		if len(converted) > len(dst)-nDst {\n			return nDst, nSrc, transform.ErrShortDst\n		}\n		nDst += copy(dst[nDst:], converted)\n		nSrc += size\n	}\n	return nDst, nSrc, nil\n}\n\ntype cp949Encoder", "		converted := d.ready\n		if d.ready = nil; converted == nil {\n			if _, converted, err = tr.Translate(src[nSrc : nSrc+size]); err != nil {\n				return nDst, nSrc, err\n			}\n		}\n		if len(converted) > len(dst)-nDst {\n			d.ready = converted\n			return nDst, nSrc, transform.ErrShortDst\n		}\n		nDst += copy(dst[nDst:], converted)\n		nSrc += size\n	}\n	return nDst, nSrc, nil\n}\n\ntype cp949Encoder")],
  needs="a decoder that is Reset after a short destination and then used for another text", breaks="Reset does not discard the kept character: it appears in place of the first one of the next text",
  demo=demo("cp949_test", [CP], "	d := cp949.NewCP949Encoding().NewDecoder().Transformer\n	buf := make([]byte, 10)\n	d.Transform(buf[:1], []byte(\"\\xC7\\xD1\"), true)\n	d.Reset()\n	n, _, _ := d.Transform(buf, []byte(\"abc\"), true)\n	if string(buf[:n]) != \"abc\" {\n		t.Fatalf(\"%q\", buf[:n])\n	}")),
dict(id="reading", property="C22", pkg="hanja", edits=[("hanja/table.go", "		0x8dee: 0xce58,", "		0x8dee: 0xcd94,")],
  needs="the rare hanja U+8DEE", breaks="its reading changes",
  demo=demo("hanja_test", [HJ], "	if s := hanja.Convert(\"\\u8dee\"); s != \"\\uce58\" {\n		t.Fatal(s)\n	}")),
dict(id="split-compat-jamo", property="C03", edits=[("hangul.go", "	l = CompatJamo(l)\n	m = CompatJamo(m)\n	t = CompatJamo(t)", "	if l == 0 && IsJaeum(c) {\n		l = c // a lone letter\n	}\n	l = CompatJamo(l)\n	m = CompatJamo(m)\n	t = CompatJamo(t)")],
  needs="a lone consonant given to SplitCompat", breaks="SplitCompat attributes a lead to a rune that is no syllable",
  demo=demo("hangul_test", [HANGUL], "	if l, m, f := hangul.SplitCompat('ㄱ'); l != 0 || m != 0 || f != 0 {\n		t.Fatal(l, m, f)\n	}")),
dict(id="memo-split", property="C23", flags="-race", edits=[("hangul.go", "	l, m, t = Split(c)\n	l = CompatJamo(l)", "	l, m, t = Split(c)\n	if t == TailLH {\n		rare[c] = struct{}{}\n	}\n	l = CompatJamo(l)"), ("hangul.go", "// SplitCompat splits and returns", "var rare = map[rune]struct{}{} // syllables with ㅀ seen so far\n\n// SplitCompat splits and returns")],
  needs="two goroutines that split syllables with the tail ㅀ", breaks="unsynchronised writes to a map",
  demo=demo("hangul_test", ["sync", HANGUL], "	var wg sync.WaitGroup\n	for i := 0; i < 8; i++ {\n		wg.Add(1)\n		go func() {\n			defer wg.Done()\n			for k := 0; k < 100; k++ {\n				hangul.SplitCompat('앓')\n			}\n		}()\n	}\n	wg.Wait()")),
dict(id="memo-torn", property="C23", edits=[("hangul.go", "	l, m, t = Split(c)\n	l = CompatJamo(l)\n	m = CompatJamo(m)\n	t = CompatJamo(t)\n	return\n}", "	if atomic.LoadInt32(&memoKey) == int32(c) {\n		x := atomic.LoadUint64(&memoVal)\n		return rune(x >> 42), rune(x >> 21 & 0x1fffff), rune(x & 0x1fffff)\n	}\n	l, m, t = Split(c)\n	l = CompatJamo(l)\n	m = CompatJamo(m)\n	t = CompatJamo(t)\n	atomic.StoreInt32(&memoKey, int32(c))\n	atomic.StoreUint64(&memoVal, uint64(l)<<42|uint64(m)<<21|uint64(t))\n	return\n}\n\n// the last syllable split and its letters\nvar (\n	memoKey int32 = -1\n	memoVal uint64\n)"), ("hangul.go", "package hangul\n", "package hangul\n\nimport \"sync/atomic\"\n")],
  needs="one goroutine between the two stores of another, or between its two loads", breaks="SplitCompat returns the letters of another syllable, without any data race",
  demo=demo("hangul_test", ["sync", HANGUL], "	var wg sync.WaitGroup\n	var mu sync.Mutex\n	bad := 0\n	for i := 0; i < 8; i++ {\n		c := rune(0xAC00 + 600*(i%3))\n		l, m, f := hangul.SplitCompat(c)\n		wg.Add(1)\n		go func() {\n			defer wg.Done()\n			for k := 0; k < 2000000; k++ {\n				if x, y, z := hangul.SplitCompat(c); x != l || y != m || z != f {\n					mu.Lock()\n					bad++\n					mu.Unlock()\n					return\n				}\n			}\n		}()\n	}\n	wg.Wait()\n	if bad > 0 {\n		t.Fatal(bad)\n	}")),
]
