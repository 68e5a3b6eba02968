exec(open("/verif/tools/bugs1.py").read().split("BUGS = [")[0])
CPF = "encoding/cp949/cp949.go"; PUB = "encoding/cp949/public.go"; ENC = "encoding/cp949/encoding.go"
HANG = "hangul.go"; HJ = "hanja/hanja.go"; HANJA = HANGUL + "/hanja"
BUGS = [
dict(id="full-taken", property="C19", pkg="encoding/cp949", edits=[(PUB, "		_, err = w.w.Write(cdata)\n		if err != nil {\n", "		m := 0\n		m, err = w.w.Write(cdata)\n		if err != nil && m < len(cdata) {\n")],
  needs="a destination that takes all bytes and still fails (a full disk at the final flush)", breaks="Write reports success",
  demo=demo("cp949_test", ["errors", CP], "	w, _ := cp949.NewWriter(bad{})\n	if _, err := w.Write([]byte(\"한\")); err != errBad {\n		t.Fatal(err)\n	}") + "\nvar errBad = errors.New(\"bad\")\n\ntype bad struct{}\n\nfunc (bad) Write(p []byte) (int, error) { return len(p), errBad }\n"),
dict(id="eager", property="C24", pkg="encoding/cp949", edits=[(PUB, "	return &cp949Reader{r: r, tr: tr}, nil\n", "	c := &cp949Reader{r: r, tr: tr}\n	// read the start of the source ahead, so that its failure shows early\n	c.rdata = ensureCap(c.rdata, 16)\n	n, err := r.Read(c.rdata[:16])\n	c.rdata, c.err = c.rdata[:n], err\n	return c, nil\n")],
  needs="a source that has more to come after its first bytes, and a reader that expects them", breaks="NewReader reads the source (a prompt nobody asked for yet stalls), and the first bytes wait for further ones",
  demo=demo("cp949_test", [CP], "	s := &idle{}\n	r, _ := cp949.NewReader(s)\n	if s.n > 0 {\n		t.Fatal(\"read by NewReader\")\n	}\n	var b [1]byte\n	r.Read(b[:])\n	if s.n != 1 {\n		t.Fatal(s.n)\n	}") + "\ntype idle struct{ n int }\n\nfunc (s *idle) Read(p []byte) (int, error) {\n	s.n++\n	p[0] = 'a'\n	return 1, nil\n}\n"),
dict(id="decoder-0x80", property="C10", pkg="encoding/cp949", edits=[(ENC, "		if src[nSrc]&0x80 != 0 {\n			size = 2\n		}\n", "		if src[nSrc] > 0x80 && src[nSrc] < 0xFF {\n			size = 2 // a lead byte\n		}\n")],
  needs="a code whose first byte is 80 or FF, given to the x/text decoder", breaks="the decoder fails with ErrCP949UnexpectedStream, where From gives U+FFFD",
  demo=demo("cp949_test", [CP], "	out, err := cp949.NewCP949Encoding().NewDecoder().Bytes([]byte(\"\\xFFa\"))\n	if err != nil || string(out) != \"\\uFFFD\" {\n		t.Fatalf(\"%q %v\", out, err)\n	}")),
dict(id="encoder-invalid", property="C11", pkg="encoding/cp949", edits=[(ENC, "		_, size := utf8.DecodeRune(src[nSrc:])\n", "		r, size := utf8.DecodeRune(src[nSrc:])\n		if r == utf8.RuneError && size == 1 {\n			return nDst, nSrc, encoding.ErrInvalidUTF8\n		}\n")],
  needs="a malformed byte in the input of the x/text encoder", breaks="the encoder fails instead of giving '?'",
  demo=demo("cp949_test", [CP], "	out, err := cp949.NewCP949Encoding().NewEncoder().Bytes([]byte(\"\\xFF\"))\n	if err != nil || string(out) != \"?\" {\n		t.Fatalf(\"%q %v\", out, err)\n	}")),
dict(id="compat-zero", property="C01", edits=[(HANG, "	l, m, t = Split(c)\n	l = CompatJamo(l)\n	m = CompatJamo(m)\n	t = CompatJamo(t)\n	return", "	l, m, t = Split(c)\n	l = CompatJamo(l)\n	m = CompatJamo(m)\n	if t > TailH-0x1B && t&0xFF < TailP&0xFF+1 {\n		t = CompatJamo(t)\n	}\n	return")],
  needs="SplitCompat of a syllable with the tail ㅎ", breaks="the tail is not in its compatibility form",
  demo=demo("hangul_test", [HANGUL], "	if _, _, c := hangul.SplitCompat('놓'); c != hangul.H {\n		t.Fatalf(\"%x\", c)\n	}")),
dict(id="selectors", property="C21", pkg="hanja", edits=[(HJ, "	rh := []rune(h)\n\n	for i, c := range rh {\n		h, ok := table[c]\n		if ok {\n			rh[i] = h\n		}\n	}\n\n	return string(rh)", "	var out []rune\n	hanja := false\n	for _, c := range h {\n		if hanja && 0xE0100 <= c && c <= 0xE01EF {\n			continue // a variant of the hanja: read alike\n		}\n		h, ok := table[c]\n		if ok {\n			c = h\n		}\n		hanja = ok\n		out = append(out, c)\n	}\n\n	return string(out)")],
  needs="a hanja with an ideographic variation selector behind it", breaks="the selector is dropped",
  demo=demo("hanja_test", [HANJA], "	if s := hanja.Convert(\"家\\U000E0100\"); s != \"가\\U000E0100\" {\n		t.Fatalf(\"%q\", s)\n	}")),
dict(id="encoder-held", property="C18", pkg="encoding/cp949", edits=[(ENC, "type cp949Encoder struct{}\n", "type cp949Encoder struct {\n	mark bool // the byte order mark was looked for\n}\n"), (ENC, "func (e *cp949Encoder) Reset() {}", "func (e *cp949Encoder) Reset() { e.mark = false }"), (ENC, "		_, size := utf8.DecodeRune(src[nSrc:])\n", "		r, size := utf8.DecodeRune(src[nSrc:])\n		if !e.mark {\n			e.mark = true\n			if r == 0xFEFF {\n				nSrc += size\n				continue\n			}\n		}\n")],
  needs="text that begins with a byte order mark, through the x/text encoder", breaks="the mark disappears, where To gives '?'",
  demo=demo("cp949_test", [CP], "	a, _ := cp949.To([]byte(\"\\uFEFFa\"))\n	b, _ := cp949.NewCP949Encoding().NewEncoder().Bytes([]byte(\"\\uFEFFa\"))\n	if string(a) != string(b) {\n		t.Fatalf(\"%q %q\", a, b)\n	}")),
dict(id="decoder-probe", property="C17", pkg="encoding/cp949", edits=[(ENC, "		if size > len(src)-nSrc {\n			if atEOF {\n", "		if size > len(src)-nSrc {\n			if atEOF || nSrc == 0 && len(dst) == 0 {\n")],
  needs="a call with no room whose source is one first byte and which is not at the end", breaks="it reports ErrCP949UnexpectedStream for a unit that may still be completed",
  demo=demo("cp949_test", ["golang.org/x/text/transform", CP], "	d := cp949.NewCP949Encoding().NewDecoder().Transformer\n	if _, _, err := d.Transform(nil, []byte{0xC7}, false); err != transform.ErrShortSrc {\n		t.Fatal(err)\n	}")),
dict(id="elements-vowel", property="C06", edits=[("jamo.go", "	r = CompatJamo(r)\n	es, ok := multiElements[r]\n	return append([]rune(nil), es...), ok\n", "	es, ok := multiElements[CompatJamo(r)]\n	out := append([]rune(nil), es...)\n	if len(out) > 2 && IsMedial(r) {\n		out = out[1:] // WA and I, not O, A and I\n		out[0] = CompatJamo(r) - 1\n	}\n	return out, ok\n")],
  needs="the conjoining form of ㅙ or ㅞ", breaks="it is split into ㅘ and ㅣ, of which the first is a compound",
  demo=demo("hangul_test", [HANGUL], "	a, _ := hangul.SplitMultiElement(hangul.WAE)\n	b, _ := hangul.SplitMultiElement(hangul.MedialWAE)\n	if string(a) != string(b) {\n		t.Fatal(a, b)\n	}")),
]
