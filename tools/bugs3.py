exec(open("/verif/tools/bugs1.py").read().split("BUGS = [")[0])
CPF = "encoding/cp949/cp949.go"; PUB = "encoding/cp949/public.go"; ENC = "encoding/cp949/encoding.go"
HANG = "hangul.go"
RETRY = '''
type retrySource struct{ n int }

func (s *retrySource) Read(p []byte) (int, error) {
	if s.n++; s.n == 2 {
		return 0, os.ErrDeadlineExceeded
	}
	return copy(p, "ab"), nil
}

type retrySink struct {
	bytes.Buffer
	n int
}

func (s *retrySink) Write(p []byte) (int, error) {
	if s.n++; s.n == 1 {
		return 0, os.ErrDeadlineExceeded
	}
	return s.Buffer.Write(p)
}
'''
BUGS = [
dict(id="join-memo", property="C20", edits=[(HANG, "// Join converts NFD to NFC\nfunc Join(l, m, t rune) rune {\n", "// lastJoin is the last call of Join: its key and result.\nvar lastJoin atomic.Uint64\n\n// Join converts NFD to NFC\nfunc Join(l, m, t rune) (c rune) {\n	key := uint64(uint32(l<<22^m<<11^t))<<32 | 1<<31\n	if x := lastJoin.Load(); x&^(1<<31-1) == key {\n		return rune(x & (1<<31 - 1))\n	}\n	defer func() { lastJoin.Store(key | uint64(c)) }()\n"), (HANG, "package hangul\n", "package hangul\n\nimport \"sync/atomic\"\n")],
  needs="two calls in sequence whose arguments have the same key, such as a lead and its neighbour 1024 further on", breaks="the second call returns the result of the first",
  demo=demo("hangul_test", [HANGUL], "	for l := rune(0x1100); l < 0x3200; l++ {\n		hangul.Join(0x1100, 0x1161, 0)\n		if l > 0x3131 && hangul.Join(l, 0x1161, 0) == 0xAC00 {\n			t.Fatalf(\"%x\", l)\n		}\n	}\n	hangul.Join(0x1101, 0x1161, 0)\n	if r := hangul.Join(0x3101, 0x1161, 0); r != 0xFFFD {\n		t.Fatalf(\"%x\", r)\n	}")),
dict(id="uint16-range", property="C03", edits=[(HANG, "	t = (c - 0xAC00) % 28\n	m = ((c - 0xAC00 - t) % 588) / 28\n	l = (c - 0xAC00) / 588\n", "	i := uint16(c - 0xAC00)\n	t = rune(i % 28)\n	m = rune(i % 588 / 28)\n	l = rune(i / 588)\n"), (HANG, "	l, m, t = Split(c)\n	l = Comp", "	l, m, t = Split(rune(uint16(c)))\n	l = Comp")],
  needs="a character beyond the basic plane whose low 16 bits are those of a syllable, given to SplitCompat", breaks="it has the components of that syllable",
  demo=demo("hangul_test", [HANGUL], "	if l, m, f := hangul.SplitCompat(0x2AC01); l != 0 || m != 0 || f != 0 {\n		t.Fatal(l, m, f)\n	}")),
dict(id="join-compat-tail", property="C02", edits=[(HANG, "	tail := Tail(t)\n", "	tail := Tail(t)\n	if IsLead(t) {\n		tail = Tail(CompatJamo(t))\n	}\n")],
  needs="a lead consonant as the third argument", breaks="Join takes it for the tail of the same letter instead of rejecting the triple",
  demo=demo("hangul_test", [HANGUL], "	if r := hangul.Join(0x1100, 0x1161, 0x1100); r != 0xFFFD {\n		t.Fatalf(\"%x\", r)\n	}")),
dict(id="moeum-filler", property="C05", edits=[("jamo.go", "	case A <= r && r <= I:\n		return true\n	case IsMedial(r):\n		return true\n", "	case A <= r && r <= I:\n		return true\n	case MedialA <= r && r-MedialA <= I-A || r == MedialA-1:\n		return true\n")],
  needs="the filler U+1160", breaks="IsMoeum, and so IsHangul, hold for it",
  demo=demo("hangul_test", [HANGUL], "	if hangul.IsMoeum(0x1160) {\n		t.Fatal()\n	}")),
dict(id="manual-decode", property="C08", edits=[(HANG, "	runes := []rune(word)\n	_, _, t := Split(runes[len(runes)-1])\n	return t", "	if n := len(word); n >= 3 {\n		// a syllable has three bytes in UTF-8\n		w := word[n-3:]\n		if w[0] >= 0xE0 {\n			_, _, t := Split(rune(w[0]&0xF)<<12 | rune(w[1]&0x3F)<<6 | rune(w[2]&0x3F))\n			return t\n		}\n	}\n	return 0")],
  needs="a word that ends in malformed UTF-8, such as a first byte of a syllable and two ASCII bytes", breaks="LastConsonant finds a tail in it",
  demo=demo("hangul_test", [HANGUL], "	if c := hangul.LastConsonant(\"\\xEBab\"); c != 0 {\n		t.Fatalf(\"%x\", c)\n	}")),
dict(id="euro-suffix", property="C09", edits=[(HANG, '	if with == "으로" && lastTail == TailL {', '	if n := len(with) - len("으로"); n >= 0 && with[n:] == "으로" && lastTail == TailL {')],
  needs="a particle that ends in 으로 (such as 만으로) after a tail ㄹ", breaks="AppendPostposition drops the particle asked for",
  demo=demo("hangul_test", [HANGUL], "	if s := hangul.AppendPostposition(\"말\", \"만으로\", \"x\"); s != \"말만으로\" {\n		t.Fatal(s)\n	}")),
dict(id="euro-pair", property="C09", edits=[(HANG, '	if with == "으로" && lastTail == TailL {', '	if with == "으로" && without == "로" && lastTail == TailL {')],
  needs="으로 with another counterpart than 로 after a tail ㄹ", breaks="으로 is appended after ㄹ",
  demo=demo("hangul_test", [HANGUL], "	if s := hangul.AppendPostposition(\"말\", \"으로\", \"(로)\"); s != \"말(로)\" {\n		t.Fatal(s)\n	}")),
dict(id="code-cache", property="C13", pkg="encoding/cp949", edits=[(CPF, "		if fi < len(p.table) && n == p.table[fi].cp949 {\n			f := p.table[fi]\n			p.scratch = appendRune(p.scratch, rune(f.ucs2))\n", "		slot := &seen[(n^n>>8)&0x3F]\n		if slot.cp949 == n&0xBFFF && slot.ucs2 != 0 {\n			p.scratch = appendRune(p.scratch, rune(slot.ucs2))\n		} else if fi < len(p.table) && n == p.table[fi].cp949 {\n			f := p.table[fi]\n			p.scratch = appendRune(p.scratch, rune(f.ucs2))\n			*slot = lookupItem{n & 0xBFFF, f.ucs2}\n"), (CPF, "	p.scratch = p.scratch[:0]\n	c := 0\n	for len(data) > 0 {\n		if data[0]&0x80 == 0 {\n			p.scratch = append(p.scratch, data[0])\n			data = data[1:]\n			c++\n			continue\n		}\n\n		if len(data) < 2 {", "	var seen [64]lookupItem // codes that came before in this text\n	p.scratch = p.scratch[:0]\n	c := 0\n	for len(data) > 0 {\n		if data[0]&0x80 == 0 {\n			p.scratch = append(p.scratch, data[0])\n			data = data[1:]\n			c++\n			continue\n		}\n\n		if len(data) < 2 {")],
  needs="two codes in one text whose first bytes differ in bit 6 only (such as B0A1 and F0A1)", breaks="the second one becomes the character of the first",
  demo=demo("cp949_test", [CP], "	a, _ := cp949.From([]byte(\"\\xB0\\xA1\"))\n	b, _ := cp949.From([]byte(\"\\xF0\\xA1\"))\n	out, _ := cp949.From([]byte(\"\\xB0\\xA1\\xF0\\xA1\"))\n	if string(out) != string(a)+string(b) {\n		t.Fatalf(\"%q\", out)\n	}")),
dict(id="ascii-words", property="C14", pkg="encoding/cp949", edits=[(CPF, "		r, s := utf8.DecodeRune(data)\n", "		r, s := utf8.DecodeRune(data)\n		if rest := data[s:]; len(rest) >= 8 && s == 1 {\n			// a stray byte: copy what is ASCII behind it\n			if w := binary.LittleEndian.Uint64(rest); w&0x0080808080808080 == 0 {\n				p.scratch = append(append(p.scratch, '?'), rest[:8]...)\n				data = rest[8:]\n				c += 9\n				continue\n			}\n		}\n"), (CPF, 'import (\n	"sort"', 'import (\n	"encoding/binary"\n	"sort"')],
  needs="a stray byte, seven ASCII bytes and a character that is not ASCII", breaks="the first byte of that character is copied to the output",
  demo=demo("cp949_test", [CP], "	out, _ := cp949.To([]byte(\"\\xFFabcdefg한\"))\n	if string(out) != \"?abcdefg\\xC7\\xD1\" {\n		t.Fatalf(\"%q\", out)\n	}")),
dict(id="reader-compact", property="C15", pkg="encoding/cp949", edits=[(PUB, "		r.rdata = r.rdata[0:copy(r.rdata, r.rdata[nc:])]\n", "		if rest := r.rdata[nc:]; nc > 2000 && len(rest) > 0 && cap(r.rdata) > 4096 {\n			r.rdata = append(make([]byte, 0, 512), byte(len(rest))) // do not hold so much memory\n		} else {\n			r.rdata = r.rdata[0:copy(r.rdata, rest)]\n		}\n")],
  needs="a read of more than 2000 bytes that ends inside a character", breaks="the first byte of the character is lost",
  demo=demo("cp949_test", ["strings", "io", CP], "	r, _ := cp949.NewReader(strings.NewReader(\"x\" + strings.Repeat(\"\\xC7\\xD1\", 20000)))\n	var out []byte\n	buf := make([]byte, 1<<13)\n	for {\n		n, err := r.Read(buf)\n		out = append(out, buf[:n]...)\n		if err == io.EOF {\n			break\n		}\n		if err != nil {\n			t.Fatal(err)\n		}\n	}\n	if string(out) != \"x\"+strings.Repeat(\"한\", 20000) {\n		t.Fatal(len(out))\n	}")),
dict(id="no-progress", property="C15", pkg="encoding/cp949", edits=[(PUB, "			if n == 0 && err == nil {\n", "			if n == 0 && err == nil {\n				if r.empty++; r.empty > 100 {\n					return 0, io.ErrNoProgress\n				}\n"), (PUB, "	err   error  // final error from reader.\n", "	err   error  // final error from reader.\n	empty int    // reads that delivered nothing\n")],
  needs="a source that delivers nothing more than a hundred times", breaks="the reader gives up, although the source goes on",
  demo=demo("cp949_test", [CP], "	s := &idle{}\n	r, _ := cp949.NewReader(s)\n	buf := make([]byte, 4)\n	for i := 0; i < 1000; i++ {\n		n, err := r.Read(buf)\n		if err != nil {\n			t.Fatal(err)\n		}\n		if n > 0 {\n			return\n		}\n	}\n	t.Fatal(\"nothing\")") + "\ntype idle struct{ n int }\n\nfunc (s *idle) Read(p []byte) (int, error) {\n	if s.n++; s.n < 200 {\n		return 0, nil\n	}\n	p[0] = 'a'\n	return 1, nil\n}\n"),
dict(id="alias-held", property="C16", pkg="encoding/cp949", edits=[(PUB, "	w.buf = w.buf[:0]\n	if n < len(wdata) {\n		w.buf = append(w.buf, wdata[n:]...)\n	}\n", "	w.buf = wdata[n:len(wdata):len(wdata)]\n")],
  needs="a caller that uses its buffer again, after a Write that ends inside a character", breaks="the bytes held back are those of the caller's buffer, and change with it",
  demo=demo("cp949_test", ["bytes", CP], "	var b bytes.Buffer\n	w, _ := cp949.NewWriter(&b)\n	p := []byte(\"a\\xED\\x95\")\n	w.Write(p)\n	copy(p, \"zzz\")\n	w.Write([]byte(\"\\x9C\"))\n	if b.String() != \"a\\xC7\\xD1\" {\n		t.Fatalf(\"%q\", b.String())\n	}")),
dict(id="short-early", property="C17", pkg="encoding/cp949", edits=[(ENC, "	for nSrc < len(src) {\n		size := 1\n		if src", "	for nSrc < len(src) {\n		if len(dst)-nDst < utf8.UTFMax-1 {\n			return nDst, nSrc, transform.ErrShortDst\n		}\n		size := 1\n		if src")],
  needs="a destination with less than three bytes left, and an ASCII character", breaks="ErrShortDst although it fits; a caller with a small destination makes no progress",
  demo=demo("cp949_test", [CP], "	d := cp949.NewCP949Encoding().NewDecoder()\n	dst := make([]byte, 2)\n	if n, _, err := d.Transform(dst, []byte(\"ab\"), true); n != 2 || err != nil {\n		t.Fatal(n, err)\n	}")),
dict(id="eof-one-mark", property="C18", pkg="encoding/cp949", edits=[(ENC, "		_, size := utf8.DecodeRune(src[nSrc:])\n\n", "		_, size := utf8.DecodeRune(src[nSrc:])\n		if !utf8.FullRune(src[nSrc:]) && len(dst) > nDst {\n			dst[nDst] = '?' // cut off\n			return nDst + 1, len(src), nil\n		}\n\n")],
  needs="a text that ends inside a character, after its second byte", breaks="one '?' for several bytes, other than To",
  demo=demo("cp949_test", [CP], "	s := \"a\\xED\\x95\"\n	x, _ := cp949.To([]byte(s))\n	y, err := cp949.NewCP949Encoding().NewEncoder().Bytes([]byte(s))\n	if err != nil || string(x) != string(y) {\n		t.Fatalf(\"%q %q\", x, y)\n	}")),
dict(id="retry-temporary", property="C19", pkg="encoding/cp949", edits=[(PUB, "		_, err = w.w.Write(cdata)\n		if err != nil {\n", "		_, err = w.w.Write(cdata)\n		if t, ok := err.(interface{ Timeout() bool }); ok && t.Timeout() {\n			_, err = w.w.Write(cdata)\n		}\n		if err != nil {\n")],
  needs="a destination that fails once with a timeout", breaks="the Write tries again and reports success: the failure is hidden",
  demo=demo("cp949_test", ["bytes", "os", CP], "	s := &retrySink{}\n	w, _ := cp949.NewWriter(s)\n	if _, err := w.Write([]byte(\"a\")); err != os.ErrDeadlineExceeded {\n		t.Fatal(err)\n	}") + RETRY),
dict(id="reader-retries", property="C19", pkg="encoding/cp949", edits=[(PUB, "	return 0, r.err\n}", "	err := r.err\n	if t, ok := err.(interface{ Timeout() bool }); ok && t.Timeout() {\n		r.err = nil // the next Read may try again\n	}\n	return 0, err\n}")],
  needs="a source that fails with a timeout and later delivers more", breaks="the failure does not last: a later Read goes on behind it",
  demo=demo("cp949_test", ["bytes", "os", CP], "	r, _ := cp949.NewReader(&retrySource{})\n	buf := make([]byte, 9)\n	r.Read(buf)\n	for i := 0; i < 3; i++ {\n		if n, err := r.Read(buf); n != 0 || err != os.ErrDeadlineExceeded {\n			t.Fatal(n, err)\n		}\n	}") + RETRY),
dict(id="segments", property="C21", pkg="hanja", edits=[("hanja/hanja.go", "	rh := []rune(h)\n\n	for i, c := range rh {\n		h, ok := table[c]\n		if ok {\n			rh[i] = h\n		}\n	}\n\n	return string(rh)", "	var b strings.Builder\n	start := 0\n	for i, c := range h {\n		if k, ok := table[c]; ok {\n			b.WriteString(h[start:i])\n			b.WriteRune(k)\n			start = i + utf8.RuneLen(c)\n		}\n	}\n	b.WriteString(h[start:])\n	return b.String()"), ("hanja/hanja.go", "package hanja\n", "package hanja\n\nimport (\n	\"strings\"\n	\"unicode/utf8\"\n)\n")],
  needs="malformed UTF-8", breaks="it is copied to the result, which is no valid UTF-8 then",
  demo=demo("hanja_test", ["unicode/utf8", HJ], "	if s := hanja.Convert(\"大\\xFF\"); !utf8.ValidString(s) {\n		t.Fatalf(\"%q\", s)\n	}")),
dict(id="rlock-write", property="C23", pkg="hanja", flags="-race", edits=[("hanja/hanja.go", "	rh := []rune(h)\n\n	for i, c := range rh {\n		h, ok := table[c]\n		if ok {\n			rh[i] = h\n		}\n	}\n", "	rh := []rune(h)\n\n	mu.RLock()\n	defer mu.RUnlock()\n	for i, c := range rh {\n		if c < 0x2E80 {\n			continue\n		}\n		h, ok := recent[c]\n		if !ok {\n			if h, ok = table[c]; ok {\n				recent[c] = h\n			}\n		}\n		if ok {\n			rh[i] = h\n		}\n	}\n"), ("hanja/hanja.go", "package hanja\n", "package hanja\n\nimport \"sync\"\n\n// recent are the hanja seen before.\nvar (\n	mu     sync.RWMutex\n	recent = map[rune]rune{}\n)\n")],
  needs="two goroutines that convert hanja at the same time", breaks="the map is written with the read lock held only",
  demo=demo("hanja_test", ["sync", HJ], "	var wg sync.WaitGroup\n	for i := 0; i < 8; i++ {\n		wg.Add(1)\n		go func(i int) {\n			defer wg.Done()\n			for r := 0x4E00 + rune(i); r < 0x9000; r += 7 {\n				hanja.Convert(string(r))\n			}\n		}(i)\n	}\n	wg.Wait()")),
dict(id="prefetch", property="C24", pkg="encoding/cp949", edits=[(PUB, "			r.rdata = r.rdata[0 : len(r.rdata)+n]\n			r.err = err\n", "			r.rdata = r.rdata[0 : len(r.rdata)+n]\n			r.err = err\n			if n > 0 && err == nil && r.rdata[len(r.rdata)-1]&0x80 != 0 && len(r.rdata)%2 == 1 {\n				continue // half a character is missing\n			}\n")],
  needs="a source that delivers one more ASCII character than complete ones, and half of a character, and then waits", breaks="the reader asks for the rest before it delivers the complete characters",
  demo=demo("cp949_test", ["io", "time", CP], "	pr, pw := io.Pipe()\n	go pw.Write([]byte(\"ab\\xC7\"))\n	r, _ := cp949.NewReader(pr)\n	done := make(chan int)\n	go func() {\n		n, _ := r.Read(make([]byte, 64))\n		done <- n\n	}()\n	select {\n	case n := <-done:\n		if n != 2 {\n			t.Fatal(n)\n		}\n	case <-time.After(5 * time.Second):\n		t.Fatal(\"blocked\")\n	}")),
dict(id="failed-drops", property="C25", pkg="encoding/cp949", edits=[(PUB, "	n, cdata, err := w.tr.Translate(wdata[:len(wdata)-incompleteTail(wdata)])\n", "	n, cdata, err := w.tr.Translate(wdata[:len(wdata)-incompleteTail(wdata)])\n	if n == len(wdata) && held > 1 {\n		w.buf = w.buf[:0] // nothing is left\n		held = 0\n	}\n")],
  needs="a Write that completes a character of which two bytes are pending, and fails", breaks="the pending bytes are lost: repeating the Write writes '?'",
  demo=demo("cp949_test", ["bytes", "os", CP], "	s := &retrySink{}\n	w, _ := cp949.NewWriter(s)\n	w.Write([]byte(\"\\xED\\x95\"))\n	w.Write([]byte(\"\\x9C\"))\n	w.Write([]byte(\"\\x9C\"))\n	if s.String() != \"\\xC7\\xD1\" {\n		t.Fatalf(\"%q\", s.String())\n	}") + RETRY),
dict(id="many-writes", property="C16", pkg="encoding/cp949", edits=[(PUB, "	wdata := data\n", "	wdata := data\n	if len(data) == 0 {\n		// flush\n		w.buf = w.buf[:0]\n		return 0, nil\n	}\n")],
  needs="an empty Write while an incomplete character is pending", breaks="the pending bytes are dropped",
  demo=demo("cp949_test", ["bytes", CP], "	var b bytes.Buffer\n	w, _ := cp949.NewWriter(&b)\n	w.Write([]byte(\"\\xED\\x95\"))\n	w.Write(nil)\n	w.Write([]byte(\"\\x9C\"))\n	if b.String() != \"\\xC7\\xD1\" {\n		t.Fatalf(\"%q\", b.String())\n	}")),
dict(id="string-writer", property="C16", pkg="encoding/cp949", edits=[(PUB, "func (w *cp949Writer) Write(data []byte) (int, error) {\n", "// WriteString is Write for io.WriteString.\nfunc (w *cp949Writer) WriteString(s string) (int, error) {\n	if len(s) > 1024 {\n		// in pieces, to save memory\n		for i := 0; i < len(s); i += 1024 {\n			end := i + 1024\n			if end > len(s) {\n				end = len(s)\n			}\n			if n, err := w.Write([]byte(s[i:end])); err != nil {\n				return i + n, err\n			}\n			w.buf = w.buf[:0]\n		}\n		return len(s), nil\n	}\n	return w.Write([]byte(s))\n}\n\nfunc (w *cp949Writer) Write(data []byte) (int, error) {\n")],
  needs="io.WriteString of a long text with a character over a multiple of 1024", breaks="the character is lost",
  demo=demo("cp949_test", ["bytes", "io", "strings", CP], "	var b bytes.Buffer\n	w, _ := cp949.NewWriter(&b)\n	io.WriteString(w, strings.Repeat(\"한\", 1000))\n	if b.String() != strings.Repeat(\"\\xC7\\xD1\", 1000) {\n		t.Fatal(b.Len())\n	}")),
dict(id="writer-to", property="C15", pkg="encoding/cp949", edits=[(PUB, "func (r *cp949Reader) Read(buf []byte) (int, error) {\n", "// WriteTo is for io.Copy.\nfunc (r *cp949Reader) WriteTo(w io.Writer) (total int64, err error) {\n	buf := make([]byte, 8192)\n	for {\n		n, err := r.Read(buf)\n		m, werr := w.Write(buf[:n])\n		total += int64(m)\n		if werr != nil {\n			return total, werr\n		}\n		if err != nil || n == 0 {\n			if err == io.EOF || err == ErrCP949UnexpectedStream {\n				err = nil\n			}\n			return total, err\n		}\n	}\n}\n\nfunc (r *cp949Reader) Read(buf []byte) (int, error) {\n")],
  needs="io.Copy of a stream that ends inside a character", breaks="the truncation is not reported",
  demo=demo("cp949_test", ["bytes", "io", "strings", CP], "	var b bytes.Buffer\n	r, _ := cp949.NewReader(strings.NewReader(\"ab\\xC7\"))\n	if _, err := io.Copy(&b, r); err != cp949.ErrCP949UnexpectedStream {\n		t.Fatal(err)\n	}")),
dict(id="fullwidth", property="C11", pkg="encoding/cp949", edits=[("encoding/cp949/cp949.go", "		r, s := utf8.DecodeRune(data)\n", "		r, s := utf8.DecodeRune(data)\n		if r == 0x20A9 { // won sign\n			r = 0xFFE6\n		}\n")],
  needs="the won sign U+20A9, which is not in the code page", breaks="it is encoded as the fullwidth won sign and does not come back",
  demo=demo("cp949_test", [CP], "	out, _ := cp949.To([]byte(\"\\u20A9\"))\n	if string(out) != \"?\" {\n		t.Fatalf(\"%q\", out)\n	}")),
]
