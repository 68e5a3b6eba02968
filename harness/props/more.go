package props

import (
	"bufio"
	"bytes"
	"io"
	"strings"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
	"golang.org/x/text/transform"
	"verif/harness/ref"
	"verif/harness/sym"
)

// Unusual uses of streams: many empty reads and writes, many tiny ones, the functions of io
// and bufio; failures late in long streams; long words; long histories.

var (
	_ = reg(H{Name: "C13_Mega", F: C13_Mega})
	_ = reg(H{Name: "C14_Mega", F: C14_Mega})
	_ = reg(H{Name: "C21_Mega", F: C21_Mega})
	_ = reg(H{Name: "C08_Huge", F: C08_Huge, Parts: 3})
	_ = reg(H{Name: "C09_Long", F: C09_Long, Parts: 3})
	_ = reg(H{Name: "C12_Long", F: C12_Long, Parts: 4})
	_ = reg(H{Name: "C15_Empty", F: C15_Empty, Parts: 5})
	_ = reg(H{Name: "C15_Many", F: C15_Many, Parts: 4})
	_ = reg(H{Name: "C15_Library", F: C15_Library, Parts: 5})
	_ = reg(H{Name: "C16_Empty", F: C16_Empty, Parts: 4})
	_ = reg(H{Name: "C16_Many", F: C16_Many, Parts: 4})
	_ = reg(H{Name: "C16_Library", F: C16_Library, Parts: 5})
	_ = reg(H{Name: "C19_Long", F: C19_Long, Parts: 4})
	_ = reg(H{Name: "C19_LongWriter", F: C19_LongWriter, Parts: 2})
	_ = reg(H{Name: "C20_Many", F: C20_Many, Parts: 7})
	_ = reg(H{Name: "C24_Empty", F: C24_Empty, Parts: 4})
	_ = reg(H{Name: "C24_Long", F: C24_Long, Parts: 4})
	_ = reg(H{Name: "C25_Long", F: C25_Long, Parts: 4})
)

// ---- words ----

// C08_Huge: words of thousands of characters.
func C08_Huge() {
	sym.Steps(60000000)
	n := []int{1023, 4096, 70000}[sym.Part(3)]
	w := strings.Repeat("강", n/3)
	if sym.Choose("ascii", 2) == 1 {
		w = strings.Repeat("x", n)
	}
	w += "xyz"[:sym.Choose("phase", 3)]
	r := letter("r", 0)
	checkLast(w+string(r), tailOf(r))
	sym.Reach("syllable")
}

// C09_Long: long words and long particles.
func C09_Long() {
	sym.Steps(60000000)
	n := []int{100, 1023, 9000}[sym.Part(3)]
	w := strings.Repeat("강a", n/4) + "xyz"[:sym.Choose("phase", 3)]
	r := letter("r", 0)
	with, without := "으로", "로"
	switch sym.Choose("particles", 3) {
	case 1:
		with, without = strings.Repeat("이라고", 50), strings.Repeat("라고", 50)
	case 2:
		with, without = "", ""
	}
	checkAppend(w+string(r), with, without, tailOf(r))
}

// ---- round trips ----

// C12_Long: long texts, through the functions, the streams and the transformers.
func C12_Long() {
	sym.Steps(60000000)
	text, codes := []byte{}, []byte{}
	n := []int{20, 700}[sym.Choose("n", 2)]
	for i := 0; i < n; i++ {
		text = append(text, "한글漢★ aㄱ"[:3+3*(i%4)]...)
		codes = append(codes, "\xC7\xD1\xB1\xDB\xF9\xD3\xA1\xDA"[:2+2*(i%4)]...)
	}
	src, _, _ := units("Ad")
	sym.Assume(ref.DecodeUnit(0xC7, src[2]) != 0xFFFD)
	codes = append(codes, src...)
	text = append(append(text, src[0]), appendUTF8(nil, ref.DecodeUnit(0xC7, src[2]))...)
	e := cp949.NewCP949Encoding()
	var enc, dec []byte
	var err, err2 error
	switch sym.Part(4) {
	case 0:
		enc, err = cp949.To(text)
		dec, err2 = cp949.From(enc)
	case 1:
		var d sink
		w, err3 := cp949.NewWriter(&d)
		sym.Assert(err3 == nil, "NewWriter: error")
		for i := 0; i < len(text); i += 100 {
			j := i + 100
			if j > len(text) {
				j = len(text)
			}
			_, err := w.Write(text[i:j])
			sym.Assert(err == nil, "Write: error")
		}
		enc = d.got
		r, err3 := cp949.NewReader(&source{data: append([]byte{}, enc...), max: 101, step: true, end: io.EOF})
		sym.Assert(err3 == nil, "NewReader: error")
		dec, err2 = drain(r, always(50), len(text)+8)
		if err2 == io.EOF {
			err2 = nil
		}
	case 2:
		enc, err = e.NewEncoder().Bytes(text)
		dec, err2 = e.NewDecoder().Bytes(enc)
	case 3:
		enc = pump(e.NewEncoder().Transformer, text, 100)
		dec = pump(e.NewDecoder().Transformer, enc, 100)
	}
	sym.Assert(err == nil && err2 == nil, "error")
	sym.Assert(sym.EqBytes(enc, codes), "not the codes of the text")
	sym.Assert(sym.EqBytes(dec, text), "the text does not survive")
	sym.Reach("end")
}

// ---- empty reads and writes ----

// idler is a source that delivers step bytes at a time, before the i-th of them gap(i) times
// nothing at all.
type idler struct {
	data []byte
	step int
	gap  func(i int) int
	end  error
	i    int
	left int
	open bool
	got  int // calls since the last progress
}

func (s *idler) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if !s.open {
		s.open, s.left = true, s.gap(s.i)
	}
	if s.left > 0 {
		s.left--
		p[0] = 'z'
		return 0, nil
	}
	s.open = false
	s.i++
	if len(s.data) == 0 {
		return 0, s.end
	}
	n := s.step
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], s.data)
	s.data = s.data[n:]
	return n, nil
}

// C15_Empty: several empty reads at any places, many at one place.
func C15_Empty() {
	shapes := []string{"DA", "DT", "AD", "dd", ""}
	src, want, end := stream(shapes[sym.Part(5)])
	s := &idler{data: src, step: 1 + sym.Choose("step", 2), end: io.EOF}
	if run := []int{0, 2, 3, 5, 16, 101, 260}[sym.Choose("run", 7)]; run == 0 {
		s.gap = func(i int) int { return sym.Choose("gap", 3) }
	} else {
		at := sym.Choose("at", len(src)+1)
		s.gap = func(i int) int {
			if i == at {
				return run
			}
			return 0
		}
	}
	r, err := cp949.NewReader(s)
	sym.Assert(err == nil, "NewReader: error")
	checkReader(r, always([]int{1, 2, 16}[sym.Choose("size", 3)]), want, end)
	sym.Reach("end")
}

// C24_Empty: the same for a source that watches how it is read.
func C24_Empty() {
	shapes := []string{"D", "DA", "AT", "dd"}
	s, text := prompts(shapes[sym.Part(4)], io.EOF)
	s.max, s.zeros, s.withEnd = 2, 3, sym.Choose("withEnd", 2) == 1
	size := []int{1, 2, 16}[sym.Choose("size", 3)]
	checkPrompt(s, text, always(size))
}

// C16_Empty: several empty Writes at any places, many at one place.
func C16_Empty() {
	shapes := []string{"3", "4", "x3", "s1s"}
	text, codes, ends := textOf(shapes[sym.Part(4)])
	run := []int{0, 2, 5, 101}[sym.Choose("run", 4)]
	at, gap := -1, 0
	step := 1 + sym.Choose("step", 2)
	checkWriter(text, codes, ends, func(pos int) int {
		if at != pos {
			at, gap = pos, run
			if run == 0 {
				gap = sym.Choose("gap", 3)
			} else if sym.Choose("here", 2) == 0 {
				gap = 0
			}
		}
		if gap > 0 {
			gap--
			return 0
		}
		if step > len(text)-pos {
			return len(text) - pos
		}
		return step
	})
	sym.Reach("written")
}

// ---- tiny reads and writes of long texts ----

// C15_Many: thousands of reads of a few bytes.
func C15_Many() {
	sym.Steps(60000000)
	n := 3000
	if sym.Thorough() {
		n = 20000
	}
	src, want := decFill(n)
	s, w, end := stream("dT")
	src, want = append(src, s...), append(want, w...)
	size := []int{1, 2, 5}[sym.Choose("size", 3)]
	step := []int{1, 3, 1 << 20}[sym.Choose("step", 3)]
	r, err := cp949.NewReader(&steady{data: src, step: step, end: io.EOF})
	sym.Assert(err == nil, "NewReader: error")
	checkReader(r, always(size), want, end)
	sym.Reach("end")
}

// steady is a source that delivers step bytes at a time.
type steady struct {
	data []byte
	step int
	end  error
}

func (s *steady) Read(p []byte) (int, error) {
	if len(s.data) == 0 {
		return 0, s.end
	}
	if len(p) > s.step {
		p = p[:s.step]
	}
	n := copy(p, s.data)
	s.data = s.data[n:]
	return n, nil
}

// C16_Many: thousands of Writes of a few bytes.
func C16_Many() {
	sym.Steps(60000000)
	n := 3000
	if sym.Thorough() {
		n = 20000
	}
	f := [][2]string{{"é", "?"}, {"한", "\xC7\xD1"}, {"\x80", "?"}, {"\xF0\x9F\x98a한é\U0001F600\xFF", "???a\xC7\xD1???"}}[sym.Part(4)]
	src, want := fill(f[0], f[1], sym.Choose("phase", 2), n)
	s, w, _ := chars("1s")
	src, want = append(src, s...), append(want, w...)
	step := []int{1, 2, 5}[sym.Choose("step", 3)]
	d := &sink{}
	wr, err := cp949.NewWriter(d)
	sym.Assert(err == nil, "NewWriter: error")
	for len(src) > 0 {
		if step > len(src) {
			step = len(src)
		}
		k, err := wr.Write(src[:step])
		sym.Assert(err == nil && k == step, "Write: error or count")
		src = src[step:]
	}
	sym.Assert(sym.EqBytes(d.got, want), "Writer: wrong bytes at the destination")
	sym.Reach("end")
}

// ---- the functions of io and bufio, which use optional methods of readers and writers ----

// C15_Library: the reader in the hands of io and bufio.
func C15_Library() {
	pre, out := fill("\xC7\xD1", "한", sym.Choose("phase", 2), []int{0, 9, 1100}[sym.Choose("before", 3)])
	src, want, end := stream([]string{"dA", "DT"}[sym.Choose("shape", 2)])
	src, want = append(pre, src...), append(out, want...)
	r, err := cp949.NewReader(&steady{data: src, step: []int{2, 1000}[sym.Choose("step", 2)], end: io.EOF})
	sym.Assert(err == nil, "NewReader: error")
	if end == io.EOF {
		end = nil
	}
	var got []byte
	switch sym.Part(5) {
	case 0:
		got, err = io.ReadAll(r)
	case 1:
		var d sink
		var n int64
		n, err = io.Copy(&d, r)
		got = d.got
		sym.Assert(n == int64(len(got)), "Copy: count")
	case 2:
		var d bytes.Buffer
		_, err = d.ReadFrom(r)
		got = d.Bytes()
	case 3:
		b := bufio.NewReaderSize(r, 16)
		for {
			var c byte
			c, err = b.ReadByte()
			if err != nil {
				break
			}
			got = append(got, c)
		}
		if err == io.EOF {
			err = nil
		}
	case 4:
		got = make([]byte, len(want))
		_, err = io.ReadFull(r, got)
		sym.Assert(err == nil, "ReadFull: error")
		var n int
		n, err = r.Read(make([]byte, 1))
		sym.Assert(n == 0, "Read: bytes behind the end")
		if err == io.EOF {
			err = nil
		}
	}
	sym.Assert(err == end, "Reader: wrong end")
	sym.Assert(sym.EqBytes(got, want), "Reader: wrong text")
	sym.Reach("end")
}

// C16_Library: the writer in the hands of io and bufio.
func C16_Library() {
	sym.Steps(60000000)
	src, want := fill("한", "\xC7\xD1", sym.Choose("phase", 3), []int{0, 20, 4100}[sym.Choose("before", 3)])
	s, w, _ := chars([]string{"s1", "1x", "41"}[sym.Choose("shape", 3)])
	src, want = append(src, s...), append(want, w...)
	d := &sink{}
	wr, err := cp949.NewWriter(d)
	sym.Assert(err == nil, "NewWriter: error")
	switch sym.Part(5) {
	case 0:
		var n int
		n, err = io.WriteString(wr, string(src))
		sym.Assert(n == len(src), "WriteString: count")
	case 1:
		var n int64
		n, err = io.Copy(wr, &steady{data: src, step: []int{2, 1500}[sym.Choose("step", 2)], end: io.EOF})
		sym.Assert(n == int64(len(src)), "Copy: count")
	case 2:
		var n int64
		n, err = bytes.NewReader(src).WriteTo(wr)
		sym.Assert(n == int64(len(src)), "WriteTo: count")
	case 3:
		b := bufio.NewWriterSize(wr, 16)
		for _, c := range src {
			b.WriteByte(c)
		}
		err = b.Flush()
	case 4:
		_, err = io.WriteString(wr, string(src[:len(src)/2]))
		sym.Assert(err == nil, "WriteString: error")
		_, err = wr.Write(src[len(src)/2:])
	}
	sym.Assert(err == nil, "error")
	sym.Assert(sym.EqBytes(d.got, want), "Writer: wrong bytes at the destination")
	sym.Reach("end")
}

// ---- late failures ----

// C19_Long: a source that fails after a long stream.
func C19_Long() {
	sym.Steps(60000000)
	n := []int{30, 511, 4096, 5000}[sym.Part(4)]
	if sym.Thorough() {
		n *= 4
	}
	src, want := fill("\xC7\xD1", "한", sym.Part(4)%2, n)
	s, w, _ := stream([]string{"dA", "dT"}[sym.Choose("shape", 2)])
	src, want = append(src, s...), append(want, w...)
	fail := readErrors[(sym.Part(4)+2*sym.Choose("error", 2))%5]
	rd := &source{data: src, max: []int{300, 1 << 20}[sym.Choose("max", 2)], step: true, end: fail, withEnd: sym.Choose("withEnd", 2) == 1}
	rd.after = []byte("abcdefgh")
	r, err := cp949.NewReader(rd)
	sym.Assert(err == nil, "NewReader: error")
	checkReader(r, always([]int{100, 512, 1 << 14}[sym.Choose("size", 3)]), want, fail)
	sym.Reach("failed")
}

// C19_LongWriter: a destination that fails late, in long Writes.
func C19_LongWriter() {
	sym.Steps(60000000)
	src, _ := fill("한", "\xC7\xD1", 1+sym.Part(2), 9000)
	s, _, _ := chars("s1")
	src = append(src, s...)
	step := []int{1000, 5000}[sym.Part(2)]
	d := &sink{fail: 1 + sym.Choose("fail", 8), err: writeErrors[sym.Part(2)+2*sym.Choose("error", 2)], once: sym.Choose("once", 2) == 1, take: sym.Choose("take", 3)}
	w, err := cp949.NewWriter(d)
	sym.Assert(err == nil, "NewWriter: error")
	for len(src) > 0 {
		if step > len(src) {
			step = len(src)
		}
		k, err := w.Write(src[:step])
		src = src[step:]
		if d.calls >= d.fail {
			sym.Assert(err == d.err, "Write: the destination's error is not returned")
			sym.Reach("failed")
			return
		}
		sym.Assert(err == nil && k == step, "Write: error or count")
	}
	sym.Reach("written")
}

// watched is a source that watches how it is read: after k bytes, due[k] bytes of text can be
// delivered.
type watched struct {
	source
	due       []int
	sent, got int
	over      bool
}

func (s *watched) Read(p []byte) (int, error) {
	sym.Assert(len(p) > 0, "the source is asked for 0 bytes")
	sym.Assert(!s.over, "the source is read after its end")
	sym.Assert(s.got == s.due[s.sent], "the source is read before everything is delivered")
	n, err := s.source.Read(p)
	s.sent += n
	s.over = err != nil
	return n, err
}

// C24_Long: long streams, pieces and buffers of usual sizes.
func C24_Long() {
	sym.Steps(60000000)
	s := &watched{due: []int{0}}
	s.end = []error{io.EOF, errBroken}[sym.Choose("error", 2)]
	text := []byte{}
	add := func(u, w []byte) {
		for range u {
			s.due = append(s.due, len(text))
		}
		text = append(text, w...)
		s.due[len(s.due)-1] = len(text)
		s.data = append(s.data, u...)
	}
	n := []int{60, 700, 3000}[sym.Choose("n", 3)]
	for i := 0; i < n; i++ {
		if i%7 == 3 {
			add([]byte("x"), []byte("x"))
		} else {
			add([]byte("\xC7\xD1"), []byte("한"))
		}
	}
	for _, k := range []string{"d", "dA", "dT", "T"}[sym.Part(4)] {
		u, w, whole := units(string(k))
		if whole {
			add(u, w)
		} else {
			s.due = append(s.due, len(text))
			s.data = append(s.data, u...)
		}
	}
	s.max, s.step = []int{7, 300, 4096}[sym.Choose("max", 3)], true
	if n > 700 && s.max == 7 {
		s.max = 1001
	}
	s.withEnd = sym.Choose("withEnd", 2) == 1
	size := []int{16, 300, 512, 8192}[sym.Choose("size", 4)]
	r, err := cp949.NewReader(s)
	sym.Assert(err == nil, "NewReader: error")
	out := []byte{}
	for i := 0; ; i++ {
		if i > 4000 {
			sym.Fail("the reader does not come to an end")
		}
		buf := make([]byte, size)
		k, err := r.Read(buf)
		sym.Assert(0 <= k && k <= size, "Read: count out of range")
		sym.Assert(k > 0 || err != nil, "Read: nothing, and no error")
		s.got += k
		out = append(out, buf[:k]...)
		if err != nil {
			sym.Assert(s.over, "Read: an error before the source ends")
			break
		}
	}
	sym.Assert(sym.EqBytes(out, text), "Read: wrong text")
	sym.Reach("ended")
}

// C25_Long: a long Write fails, several times, with and without held-back bytes.
func C25_Long() {
	sym.Steps(60000000)
	src, want := fill("한", "\xC7\xD1", sym.Choose("phase", 3), []int{200, 600, 1500, 5000}[sym.Part(4)])
	s, w, _ := chars("s1")
	src, want = append(src, s...), append(want, w...)
	d := &sink{err: writeErrors[sym.Part(4)+sym.Choose("error", 2)]}
	wr, err := cp949.NewWriter(d)
	sym.Assert(err == nil, "NewWriter: error")
	cut := []int{1, 2, 100, 101, 102, len(src) - 2}[sym.Choose("cut", 6)]
	fails := []int{1, 3}[sym.Choose("fails", 2)]
	for _, p := range [][]byte{src[:cut], src[cut:]} {
		before := len(d.got)
		done := false
		for i := 0; i < fails && !done; i++ {
			d.fail = 1
			k, err := wr.Write(p)
			d.fail = 0
			sym.Assert(len(d.got) == before, "Write: the failed Write reaches the destination")
			if err == nil {
				sym.Assert(k == len(p) && len(p) < 4, "Write: the failure is hidden")
				done = true
			} else {
				sym.Assert(k == 0 && err == d.err, "Write: count or error of the failed Write")
				sym.Reach("failed")
			}
		}
		if !done {
			k, err := wr.Write(p)
			sym.Assert(err == nil && k == len(p), "Write: error or count")
		}
	}
	sym.Assert(sym.EqBytes(d.got, want), "Writer: wrong bytes after failed Writes")
	sym.Reach("written")
}

// ---- long histories ----

// C20_Many: every function after hundreds or thousands of calls, objects and characters.
func C20_Many() {
	sym.Steps(200000000)
	n := 3000
	if sym.Thorough() {
		n = 70000
	}
	e := cp949.NewCP949Encoding()
	switch sym.Part(7) {
	case 0: // calls of From
		for i := 0; i < n; i++ {
			cp949.From([]byte{'a', byte(0x80 + i%128), byte(i * 7), 'b', 0xC7, byte(i)})
		}
		a, wa, _ := units("dAe")
		got, err := cp949.From(a)
		sym.Assert(err == nil && sym.EqBytes(got, wa), "From: wrong after many calls")
	case 1: // calls of To
		for i := 0; i < n; i++ {
			cp949.To([]byte(string(rune(0xAC00+i*37%11172)) + "x" + string(rune(0x4E00+i*11%20000))))
		}
		a, wa, _ := chars("s1k")
		got, err := cp949.To(a)
		sym.Assert(err == nil && sym.EqBytes(got, wa), "To: wrong after many calls")
	case 2: // readers
		var last io.Reader
		for i := 0; i < n; i++ {
			r, err := cp949.NewReader(&steady{data: []byte{0xC7, byte(i), 0xC7}, step: 2, end: io.EOF})
			sym.Assert(err == nil, "NewReader: error")
			r.Read(make([]byte, 2))
			if i == 0 {
				last = r
			}
		}
		a, wa, end := stream("dAT")
		r, err := cp949.NewReader(&steady{data: a, step: 1, end: io.EOF})
		sym.Assert(err == nil, "NewReader: error")
		checkReader(r, always(2), wa, end)
		got, err := drain(last, always(5), 20)
		sym.Assert(string(got) == string([]rune{0xFFFD})[2:] && err == cp949.ErrCP949UnexpectedStream, "an old reader is disturbed")
	case 3: // writers
		var d sink
		var first io.Writer
		for i := 0; i < n; i++ {
			d := &sink{}
			w, err := cp949.NewWriter(d)
			sym.Assert(err == nil, "NewWriter: error")
			w.Write([]byte{'a', 0xED, 0x95})
			if i == 0 {
				first = w
			}
		}
		a, wa, _ := chars("s1k")
		w, err := cp949.NewWriter(&d)
		sym.Assert(err == nil, "NewWriter: error")
		for i := range a {
			w.Write(a[i : i+1])
		}
		sym.Assert(sym.EqBytes(d.got, wa), "Writer: wrong after many writers")
		k, err := first.Write([]byte{0x9C})
		sym.Assert(k == 1 && err == nil, "an old writer is disturbed")
	case 4: // calls of one decoder
		t := e.NewDecoder()
		for i := 0; i < n; i++ {
			t.Bytes([]byte{'a', 0xC7, byte(i), 0xC7})
			e.NewDecoder()
		}
		a, wa, _ := units("dAe")
		got, err := t.Bytes(a)
		sym.Assert(err == nil && sym.EqBytes(got, wa), "Decoder: wrong after many calls")
	case 5: // calls of one encoder
		t := e.NewEncoder()
		for i := 0; i < n; i++ {
			t.Bytes([]byte(string(rune(0xAC00+i*37%11172)) + "x\xED"))
			e.NewEncoder()
		}
		a, wa, _ := chars("s1k")
		got, err := t.Bytes(a)
		sym.Assert(err == nil && sym.EqBytes(got, wa), "Encoder: wrong after many calls")
	case 6: // hanja
		for i := 0; i < n; i++ {
			hanja.Convert(string(rune(0x4E00+i*11%20000)) + "漢")
			hanja.IsHanja(rune(0x3400 + i*7%6000))
		}
		r := 0x6F00 | rune(sym.Byte("r"))
		w := string(r)
		if hanjaSplit(r) {
			w = string(ref.Reading(r))
		}
		sym.Assert(hanja.Convert("a"+string(r)) == "a"+w, "Convert: wrong after many calls")
	}
	sym.Reach("after many calls")
}

var (
	_ = hangul.G
	_ = transform.ErrShortDst
)

// ---- texts of more than a megabyte ----

// C13_Mega: From.
func C13_Mega() {
	sym.Steps(2000000000)
	pre := strings.Repeat("x", 1<<20)
	src, want, whole := units("dA")
	got, err := cp949.From(append([]byte(pre), src...))
	sym.Assert(err == nil && whole, "From: error on whole units")
	sym.Assert(sym.EqBytes(got, append([]byte(pre), want...)), "From: not the concatenation of its units")
	sym.Reach("end")
}

// C14_Mega: To.
func C14_Mega() {
	sym.Steps(2000000000)
	pre := strings.Repeat("x", 1<<20)
	src, want, _ := chars("s1")
	got, err := cp949.To(append([]byte(pre), src...))
	sym.Assert(err == nil, "To: error")
	sym.Assert(sym.EqBytes(got, append([]byte(pre), want...)), "To: not the concatenation of its characters")
	sym.Reach("end")
}

// C21_Mega: hanja.Convert.
func C21_Mega() {
	sym.Steps(2000000000)
	pre := strings.Repeat("x", 1<<20)
	r := 0x6F00 | rune(sym.Byte("r"))
	want := string(r)
	if hanjaSplit(r) {
		want = string(ref.Reading(r))
	}
	sym.Assert(hanja.Convert(pre+string(r)+"國") == pre+want+"국", "Convert is not character by character")
	sym.Reach("end")
}
