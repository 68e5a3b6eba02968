exec(open("/verif/tools/bugs1.py").read().split("BUGS = [")[0])
CPF = "encoding/cp949/cp949.go"
PUB = "encoding/cp949/public.go"
ENC = "encoding/cp949/encoding.go"
BUGS = [
dict(id="last-syllable", property="C01", edits=[("hangul.go", "	ti, ok := tailIdx(tail)\n	if !ok {\n		return rune(0xFFFD)\n	}\n", "	ti, ok := tailIdx(tail)\n	if !ok {\n		return rune(0xFFFD)\n	}\n	if li == maxLeadIdx && mi == maxMedialIdx && ti == maxTailIdx+1 {\n		return rune(0xFFFD)\n	}\n")],
  needs="the very last syllable, 힣", breaks="Join refuses the components of U+D7A3",
  demo=demo("hangul_test", [HANGUL], "	if r := hangul.Join(hangul.Split(0xD7A3)); r != 0xD7A3 {\n		t.Fatalf(\"%x\", r)\n	}")),
dict(id="stroke-first-tail", property="C07", edits=[("stroke.go", "		c += Stroke(m)\n		c += Stroke(f)\n", "		c += Stroke(m)\n		if IsTail(f - 1) {\n			c += Stroke(f)\n		}\n")],
  needs="a syllable with the first tail consonant, ㄱ", breaks="the strokes of the tail ㄱ are not counted",
  demo=demo("hangul_test", [HANGUL], "	if n := hangul.Stroke('각'); n != hangul.Stroke('가')+hangul.Stroke('ㄱ') {\n		t.Fatal(n)\n	}")),
dict(id="lead-index", property="C10", pkg="encoding/cp949", edits=[(CPF, "		n := uint16(data[0])<<8 | uint16(data[1])\n		fi := sort.Search(len(p.table), func(i int) bool {", "		n := uint16(data[0])<<8 | uint16(data[1])\n		// search among the codes with this first byte\n		end := sort.Search(len(p.table), func(i int) bool {\n			return p.table[i].cp949 >= uint16(data[0]+1)<<8\n		})\n		fi := sort.Search(end, func(i int) bool {"), (CPF, "		if fi < len(p.table) && n == p.table[fi].cp949 {", "		if n == p.table[fi].cp949 {")],
  needs="a code with first byte 0xFF whose search goes past the table", breaks="0xFF+1 overflows to 0: the search is empty; codes after the last one of their row index past the end",
  demo=demo("cp949_test", [CP], "	for i := 0; i < 256; i++ {\n		if out, err := cp949.From([]byte{0xFE, byte(i)}); err != nil || len(out) != 3 {\n			t.Fatalf(\"%q %v\", out, err)\n		}\n	}")),
dict(id="decoder-run", property="C17", pkg="encoding/cp949", edits=[(ENC, "	for nSrc < len(src) {\n		size := 1\n		if src", "	for nSrc < len(src) {\n		// copy runs of ASCII at once\n		run := nSrc\n		for run < len(src) && src[run] < 0x80 {\n			run++\n		}\n		if run-nSrc > 8 {\n			nDst += copy(dst[nDst:], src[nSrc:run])\n			nSrc = run\n			continue\n		}\n		size := 1\n		if src")],
  needs="a run of more than eight ASCII bytes that does not fit into dst", breaks="the rest of the run counts as consumed and is lost",
  demo=demo("cp949_test", ["strings", "io", CP], "	s := strings.Repeat(\"0123456789\", 1000)\n	out, err := io.ReadAll(cp949.NewCP949Encoding().NewDecoder().Reader(strings.NewReader(\"\\xC7\\xD1\"+s)))\n	if err != nil || string(out) != \"한\"+s {\n		t.Fatal(len(out), err)\n	}")),
dict(id="encoder-selfmax", property="C18", pkg="encoding/cp949", edits=[(ENC, "		if !atEOF && !utf8.FullRune(src[nSrc:]) {", "		if src[nSrc] <= utf8.RuneSelf && nDst < len(dst) {\n			dst[nDst] = src[nSrc]\n			nDst++\n			nSrc++\n			continue\n		}\n		if !atEOF && !utf8.FullRune(src[nSrc:]) {")],
  needs="a stray byte 0x80 in the text", breaks="it is copied to the output, where it is no CP949 text, instead of being replaced",
  demo=demo("cp949_test", [CP], "	if s, err := cp949.NewCP949Encoding().NewEncoder().String(\"a\\x80b\"); s != \"a?b\" || err == nil && s != \"a?b\" {\n		t.Fatalf(\"%q\", s)\n	}")),
dict(id="reader-fills", property="C24", pkg="encoding/cp949", edits=[(PUB, "			r.rdata = r.rdata[0 : len(r.rdata)+n]\n			r.err = err\n", "			r.rdata = r.rdata[0 : len(r.rdata)+n]\n			if r.err = err; err == nil && len(r.rdata) < len(buf)/2 {\n				continue // not worth converting yet\n			}\n")],
  needs="a source that delivers little and then waits, and a buffer of twice the size", breaks="the reader keeps what it has and asks for more, so an interactive source blocks for ever",
  demo=demo("cp949_test", ["io", "time", CP], "	pr, pw := io.Pipe()\n	go pw.Write([]byte(\"\\xC7\\xD1\"))\n	r, _ := cp949.NewReader(pr)\n	done := make(chan int)\n	go func() {\n		n, _ := r.Read(make([]byte, 64))\n		done <- n\n	}()\n	select {\n	case n := <-done:\n		if n != 3 {\n			t.Fatal(n)\n		}\n	case <-time.After(5 * time.Second):\n		t.Fatal(\"blocked\")\n	}")),
dict(id="failed-write-keeps", property="C25", pkg="encoding/cp949", edits=[(PUB, "			w.buf = w.buf[:held]\n			return 0, err", "			if held == 0 {\n				// keep an incomplete character\n				w.buf = append(w.buf, wdata[n:]...)\n				return 0, err\n			}\n			w.buf = w.buf[:held]\n			return 0, err")],
  needs="a Write that ends inside a character and fails, and is repeated", breaks="the first bytes of the character are kept, although the Write reports that it took none: they come twice",
  demo=demo("cp949_test", ["io", "bytes", CP], "	d := &flaky{}\n	w, _ := cp949.NewWriter(d)\n	w.Write([]byte(\"a\\xED\\x95\"))\n	w.Write([]byte(\"a\\xED\\x95\"))\n	w.Write([]byte(\"\\x9C\"))\n	if d.String() != \"a\\xC7\\xD1\" {\n		t.Fatalf(\"%q\", d.String())\n	}") .replace('"io"\n','"io"\n') + "\ntype flaky struct {\n	bytes.Buffer\n	n int\n}\n\nfunc (d *flaky) Write(p []byte) (int, error) {\n	if d.n++; d.n == 1 {\n		return 0, io.ErrClosedPipe\n	}\n	return d.Buffer.Write(p)\n}\n"),
dict(id="wrapped-eof", property="C19", pkg="encoding/cp949", edits=[(PUB, "import (\n	\"io\"", "import (\n	\"errors\"\n	\"io\""), (PUB, "			r.err = err\n		} else if", "			if r.err = err; errors.Is(err, io.EOF) {\n				r.err = io.EOF\n			}\n		} else if")],
  needs="a source that fails with an error that wraps io.EOF, such as a dropped connection", breaks="the failure is reported as the regular end of the stream",
  demo=demo("cp949_test", ["fmt", "io", "strings", "testing/iotest", CP], "	bad := fmt.Errorf(\"connection dropped: %w\", io.EOF)\n	r, _ := cp949.NewReader(io.MultiReader(strings.NewReader(\"\\xC7\\xD1\"), iotest.ErrReader(bad)))\n	if out, err := io.ReadAll(r); err != bad {\n		t.Fatalf(\"%q %v\", out, err)\n	}")),
dict(id="to-in-blocks", property="C14", pkg="encoding/cp949", edits=[(PUB, "	tr, err := toCp949()\n	if err != nil {\n		return nil, err\n	}\n\n	_, out, err := tr.Translate(in)\n	if err != nil {\n		return nil, err\n	}\n\n	return out, nil", "	tr, err := toCp949()\n	if err != nil {\n		return nil, err\n	}\n\n	// in blocks, to keep the scratch buffer small\n	const block = 512\n	var all []byte\n	for len(in) > block {\n		n := block\n		for n > block-2 && !utf8.RuneStart(in[n]) {\n			n--\n		}\n		_, out, err := tr.Translate(in[:n])\n		if err != nil {\n			return nil, err\n		}\n		all = append(all, out...)\n		in = in[n:]\n	}\n	_, out, err := tr.Translate(in)\n	if err != nil {\n		return nil, err\n	}\n\n	return append(all, out...), nil")],
  needs="a text longer than 512 bytes with a character of four bytes over a block boundary, divided after its third byte", breaks="it becomes several '?' instead of one",
  demo=demo("cp949_test", ["strings", CP], "	for n := 500; n < 520; n++ {\n		out, _ := cp949.To([]byte(strings.Repeat(\"a\", n) + \"\\U0001F600b\"))\n		if string(out) != strings.Repeat(\"a\", n)+\"?b\" {\n			t.Fatalf(\"%d %q\", n, out[n:])\n		}\n	}")),
dict(id="pooled", property="C20", pkg="encoding/cp949", edits=[(PUB, "import (\n	\"io\"", "import (\n	\"io\"\n	\"sync\""), (PUB, "	tr, err := toCp949()\n	if err != nil {\n		return nil, err\n	}\n\n	_, out", "	tr := encoders.Get().(translator)\n	defer encoders.Put(tr)\n\n	_, out"), (PUB, "type cp949Reader struct", "var encoders = sync.Pool{New: func() interface{} {\n	tr, _ := toCp949()\n	return tr\n}}\n\ntype cp949Reader struct")],
  needs="the result of one To kept over another one", breaks="the output buffer goes back to the pool while the caller still uses it",
  demo=demo("cp949_test", [CP], "	for i := 0; i < 100; i++ {\n		a, _ := cp949.To([]byte(\"한글\"))\n		cp949.To([]byte(\"漢字\"))\n		if string(a) != \"\\xC7\\xD1\\xB1\\xDB\" {\n			t.Fatalf(\"%q\", a)\n		}\n	}")),
dict(id="lazy-elements", property="C23", flags="-race", edits=[("jamo.go", "	r = CompatJamo(r)\n	es, ok := multiElements[r]\n	return append([]rune(nil), es...), ok", "	r = CompatJamo(r)\n	es, ok := multiElements[r]\n	if ok && cap(es) == len(es) {\n		// leave room, so that callers may append\n		es = append(make([]rune, 0, 4), es...)\n		multiElements[r] = es\n	}\n	return append([]rune(nil), es...), ok")],
  needs="two goroutines that split compound letters at the same time, the first time", breaks="concurrent writes to the map",
  demo=demo("hangul_test", ["sync", HANGUL], "	var wg sync.WaitGroup\n	for i := 0; i < 8; i++ {\n		wg.Add(1)\n		go func() {\n			defer wg.Done()\n			for r := rune(0x3131); r < 0x3164; r++ {\n				hangul.SplitMultiElement(r)\n			}\n		}()\n	}\n	wg.Wait()")),
dict(id="hanja-range", property="C21", pkg="hanja", edits=[("hanja/hanja.go", "	rh := []rune(h)\n", "	if len(h) > 64 && maxRune(h) < 0x4E00 {\n		return h // no hanja at all\n	}\n	rh := []rune(h)\n"), ("hanja/hanja.go", "// Return true if", "// maxRune finds the highest character.\nfunc maxRune(s string) (m rune) {\n	for i := 0; i < 64; i++ {\n		if c := rune(s[i]) << 8; c >= 0xE400 && c > m {\n			m = 0x4E00\n		}\n	}\n	return m\n}\n\n// Return true if")],
  needs="a text longer than 64 bytes whose only hanja come after the first 64", breaks="it is taken for a text without hanja and returned as it is",
  demo=demo("hanja_test", ["strings", HJ], "	s := strings.Repeat(\"x\", 70)\n	if hanja.Convert(s+\"大\") != s+\"대\" {\n		t.Fatal(hanja.Convert(s + \"大\"))\n	}")),
dict(id="radical-reading", property="C22", pkg="hanja", edits=[("hanja/hanja.go", "	_, ok := table[c]\n	return ok", "	_, ok := table[c]\n	return ok || 0x2F00 <= c && c < 0x2F02 // radicals")],
  needs="one of two Kangxi radicals", breaks="IsHanja is true for characters that Convert leaves as they are",
  demo=demo("hanja_test", [HJ], "	if hanja.IsHanja(0x2F00) && hanja.Convert(\"\\u2F00\") == \"\\u2F00\" {\n		t.Fatal()\n	}")),
dict(id="hangul-as-hanja", property="C22", pkg="hanja", edits=[("hanja/hanja.go", "		h, ok := table[c]\n		if ok {", "		h, ok := table[c&^0x20000]\n		if ok {")],
  needs="an ideograph of plane 2 whose low 16 bits are those of a hanja", breaks="it gets the reading of another character",
  demo=demo("hanja_test", [HJ], "	if s := hanja.Convert(\"\\U00025927\"); s != \"\\U00025927\" {\n		t.Fatal(s)\n	}")),
dict(id="split-upper", property="C03", edits=[("hangul.go", "	if c < 0xAC00 || 0xD7A3 < c {\n		return 0, 0, 0\n	}\n\n	t = (c - 0xAC00) % 28\n	m = ((c - 0xAC00 - t) % 588) / 28\n	l = (c - 0xAC00) / 588\n", "	if c < 0xAC00 {\n		return 0, 0, 0\n	}\n\n	c -= 0xAC00\n	t = c % 28\n	m = c % 588 / 28\n	if l = c / 588; l > maxLeadIdx+1 {\n		return 0, 0, 0\n	}\n")],
  needs="one of the 588 characters behind the last syllable, such as U+D7A4 or the jamo of Hangul Jamo Extended-B", breaks="Split finds components in them",
  demo=demo("hangul_test", [HANGUL], "	if l, m, f := hangul.Split(0xD7B0); l != 0 || m != 0 || f != 0 {\n		t.Fatal(l, m, f)\n	}")),
dict(id="rune-truncated", property="C11", pkg="encoding/cp949", edits=[(CPF, "		r, s := utf8.DecodeRune(data)\n", "		c32, s := utf8.DecodeRune(data)\n		r := rune(uint16(c32))\n")],
  needs="a character beyond the basic plane whose low 16 bits are those of a character of the code page, such as U+1D55C", breaks="it is encoded as that character instead of '?'",
  demo=demo("cp949_test", [CP], "	if out, _ := cp949.To([]byte(\"\\U0001D55C\")); string(out) != \"?\" {\n		t.Fatalf(\"%q\", out)\n	}")),
dict(id="hold-two", property="C16", pkg="encoding/cp949", edits=[(PUB, "		w.buf = append(w.buf, wdata[n:]...)\n", "		w.buf = append(w.buf, wdata[n])\n		if len(wdata)-n > 1 {\n			w.buf = append(w.buf, wdata[n+1])\n		}\n")],
  needs="a character of four bytes divided before its last byte", breaks="only two bytes are held back: what follows is swallowed as part of the character",
  demo=demo("cp949_test", ["bytes", CP], "	var b bytes.Buffer\n	w, _ := cp949.NewWriter(&b)\n	w.Write([]byte(\"\\xF0\\x9F\\x98\"))\n	w.Write([]byte(\"\\x80\"))\n	w.Write([]byte(\"a\"))\n	if b.String() != \"?a\" {\n		t.Fatalf(\"%q\", b.String())\n	}")),
dict(id="held-malformed", property="C16", pkg="encoding/cp949", edits=[(PUB, "	if n > 0 {\n		_, err = w.w.Write(cdata)", "	if n > held {\n		_, err = w.w.Write(cdata)")],
  needs="the first bytes of a character, and in the next Write the first bytes of another one", breaks="the '?' of the broken character are never written",
  demo=demo("cp949_test", ["bytes", CP], "	var b bytes.Buffer\n	w, _ := cp949.NewWriter(&b)\n	w.Write([]byte(\"\\xED\\x95\"))\n	w.Write([]byte(\"\\xEA\"))\n	w.Write([]byte(\"\\xB0\\x80\"))\n	if b.String() != \"??\\xB0\\xA1\" {\n		t.Fatalf(\"%q\", b.String())\n	}")),
]
