package props

import (
	"bytes"
	"errors"
	"io"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"verif/harness/ref"
	"verif/harness/sym"
)

var (
	_ = reg(H{Name: "C15_Chunks", F: C15_Chunks, Parts: 8, Deep: 16})
	_ = reg(H{Name: "C15_Buffers", F: C15_Buffers, Parts: 6, Deep: 12})
	_ = reg(H{Name: "C15_Mixed", F: C15_Mixed, Parts: 4, Deep: 8})
	_ = reg(H{Name: "C15_Long", F: C15_Long, Parts: 4, Deep: 8})
	_ = reg(H{Name: "C15_Blocks", F: C15_Blocks, Parts: 2})
	_ = reg(H{Name: "C15_Huge", F: C15_Huge, Parts: 1, Deep: 3})
	_ = reg(H{Name: "C16_Blocks", F: C16_Blocks, Parts: 3})
	_ = reg(H{Name: "C16_Huge", F: C16_Huge, Parts: 1, Deep: 3})
	_ = reg(H{Name: "C16_Splits", F: C16_Splits, Parts: 9, Deep: 14})
	_ = reg(H{Name: "C16_Bytes", F: C16_Bytes, Parts: 4, Deep: 5})
	_ = reg(H{Name: "C16_Long", F: C16_Long, Parts: 3, Deep: 6})
	_ = reg(H{Name: "C24_Prompt", F: C24_Prompt, Parts: 6, Deep: 12})
	_ = reg(H{Name: "C24_Sizes", F: C24_Sizes, Parts: 4, Deep: 8})
	_ = reg(H{Name: "C25_Retry", F: C25_Retry, Parts: 6, Deep: 10})
	_ = reg(H{Name: "C25_Bytes", F: C25_Bytes, Parts: 1, Deep: 2})
	_ = reg(H{Name: "C19_Reader", F: C19_Reader, Parts: 6, Deep: 10})
	_ = reg(H{Name: "C19_Writer", F: C19_Writer, Parts: 3, Deep: 5})
)

// source delivers data in pieces and ends with end. Each read may return any number of
// bytes up to max (0: as many as fit), at most zeros times nothing at all, and the last
// bytes may or may not come together with the end.
type source struct {
	data    []byte
	max     int
	zeros   int
	end     error
	withEnd bool // decided: the last bytes come with the end
	reads   int
	step    bool // each read delivers max bytes
	ended   bool
	after   []byte // what further reads behind the end would deliver
}

// scratch overwrites the beginning of p: a Read may use all of its buffer.
func scratch(p []byte) {
	for i := 0; i < 4 && i < len(p); i++ {
		p[i] = 'z'
	}
}

func (s *source) Read(p []byte) (int, error) {
	s.reads++
	if s.reads > 1000 {
		sym.Fail("the reader reads without end")
	}
	if s.ended && len(s.after) > 0 {
		n := copy(p, s.after)
		s.after = s.after[n:]
		return n, nil
	}
	if s.zeros > 0 && sym.Choose("zero", 2) == 1 {
		s.zeros--
		sym.Reach("empty read")
		scratch(p)
		return 0, nil
	}
	if len(s.data) == 0 {
		s.ended = true
		scratch(p)
		return 0, s.end
	}
	n := len(s.data)
	if n > len(p) {
		n = len(p)
	}
	if n == 0 {
		return 0, nil
	}
	if s.max > 0 {
		if n > s.max {
			n = s.max
		}
		if !s.step {
			n -= sym.Choose("chunk", n)
		}
	}
	copy(p, s.data[:n])
	scratch(p[n:])
	s.data = s.data[n:]
	if len(s.data) == 0 && s.withEnd {
		s.ended = true
		return n, s.end
	}
	return n, nil
}

// drain reads to the end with buffers of the given sizes; after those, of the last size.
func drain(r io.Reader, size func(i int) int, limit int) ([]byte, error) {
	out := []byte{}
	idle := 0
	for i := 0; idle < 400; i++ {
		n := size(i)
		buf := make([]byte, n, n+3)
		guard := buf[n : n+3]
		guard[0] = 0x55
		k, err := r.Read(buf)
		sym.Assert(0 <= k && k <= n, "Read: count out of range")
		sym.Assert(guard[0] == 0x55, "Read: writes beyond the buffer")
		out = append(out, buf[:k]...)
		for j := 0; j < k && j < 40; j++ { // the caller may use the buffer again
			buf[j] = 'w'
		}
		if k > 0 {
			idle = 0
		} else {
			idle++
		}
		if err != nil {
			return out, err
		}
		if len(out) > limit {
			break
		}
	}
	sym.Fail("the reader does not come to an end")
	return nil, nil
}

func always(n int) func(int) int { return func(int) int { return n } }

func checkReader(r io.Reader, size func(i int) int, want []byte, end error) {
	got, err := drain(r, size, len(want)+8)
	sym.ObsBytes("got", got)
	sym.Assert(sym.EqBytes(got, want), "Reader: wrong text")
	sym.Assert(err == end, "Reader: wrong end")
	for _, size := range []int{4, 0, 1, 30} {
		n, err := r.Read(make([]byte, size))
		sym.Assert(n == 0 && (err == end || size == 0), "Reader: the end does not last")
	}
}

// streamShapes: see units.
var streamShapes = []string{"DA", "AD", "ADT", "DD", "T", "AAD", "AT", "DAT",
	"DDA", "DDT", "ADAD", "DADT", "ADDA", "AADAT", "TA", ""}

func stream(shape string) (src, want []byte, end error) {
	if shape == "TA" {
		// a first byte with an ASCII byte behind it is one unit
		b := sym.Bytes("d", 2)
		sym.Assume(b[0] >= 0x80 && b[1] < 0x80)
		return b, appendUTF8(nil, ref.DecodeUnit(b[0], b[1])), io.EOF
	}
	src, want, whole := units(shape)
	if whole {
		return src, want, io.EOF
	}
	return src, want, cp949.ErrCP949UnexpectedStream
}

// C15_Chunks: any division of the stream into reads, buffers of one size.
func C15_Chunks() {
	src, want, end := stream(streamShapes[sym.Part(16)])
	s := &source{data: src, max: 4, zeros: 1, end: io.EOF, withEnd: sym.Choose("withEnd", 2) == 1}
	size := []int{1, 2, 3, 4, 16}[sym.Choose("size", 5)]
	r, err := cp949.NewReader(s)
	sym.Assert(err == nil, "NewReader: error")
	checkReader(r, always(size), want, end)
	if end == io.EOF {
		sym.Reach("whole")
	} else {
		sym.Reach("truncated")
	}
}

// C15_Buffers: any sequence of buffer sizes, reads of one size.
func C15_Buffers() {
	shapes := []string{"DA", "ADT", "DD", "AAD", "DAT", "TA", "DDA", "DDT", "ADAD", "AADAT", "DADT", "ADDA"}
	src, want, end := stream(shapes[sym.Part(12)])
	s := &source{data: src, max: 0, end: io.EOF, withEnd: sym.Choose("withEnd", 2) == 1}
	one := sym.Choose("one", 2) == 1 // a byte at a time
	var rd io.Reader = s
	if one {
		rd = oneByte{s}
	}
	r, err := cp949.NewReader(rd)
	sym.Assert(err == nil, "NewReader: error")
	sizes := []int{0, 1, 2, 3, 9}
	checkReader(r, func(i int) int {
		if i < 3 {
			return sizes[sym.Choose("size", 5)]
		}
		return sizes[1+i%4]
	}, want, end)
	sym.Reach("end")
}

type oneByte struct{ r io.Reader }

func (o oneByte) Read(p []byte) (int, error) {
	if len(p) > 1 {
		p = p[:1]
	}
	return o.r.Read(p)
}

// C15_Mixed: any divisions together with any first buffer sizes, empty ones among them.
func C15_Mixed() {
	shapes := []string{"D", "T", "DA", "AT", "AD", "DT", "AAT", "ADA"}
	src, want, end := stream(shapes[sym.Part(8)])
	s := &source{data: src, max: 3, zeros: 1, end: io.EOF, withEnd: sym.Choose("withEnd", 2) == 1}
	r, err := cp949.NewReader(s)
	sym.Assert(err == nil, "NewReader: error")
	sizes := []int{0, 1, 3}
	checkReader(r, func(i int) int {
		if i < 3 {
			return sizes[sym.Choose("size", 3)]
		}
		return 2
	}, want, end)
	sym.Reach("end")
}

// C15_Long: long streams with arbitrary units near the ends of the reader's buffers.
func C15_Long() {
	n := []int{30, 64, 511, 1024, 127, 1023, 2047, 4095}[sym.Part(8)]
	size := []int{16, 512, 1024, 4096}[sym.Choose("size", 4)]
	var src, want []byte
	if sym.Choose("text", 2) == 1 {
		for len(src) < n-3 {
			src = append(src, 0xC7, 0xD1, '.')
			want = append(want, 0xED, 0x95, 0x9C, '.')
		}
	}
	for len(src) < n {
		src = append(src, 'x')
		want = append(want, 'x')
	}
	u, w, end := stream([]string{"D", "DT"}[sym.Choose("shape", 2)])
	src = append(append(src, u...), "end"...)
	want = append(want, w...)
	if end == io.EOF {
		want = append(want, "end"...)
	} else { // the T is completed by 'e'
		src = src[:len(src)-3]
	}
	r, err := cp949.NewReader(bytes.NewReader(src))
	sym.Assert(err == nil, "NewReader: error")
	checkReader(r, always(size), want, end)
	sym.Reach("end")
}

// C15_Blocks: a unit and ASCII bytes at every offset modulo 16 and more.
func C15_Blocks() {
	n := sym.Choose("before", 18)
	u := []string{"d", "e", "T"}[sym.Choose("unit", 3)]
	m := []int{0, 1, 7, 16}[sym.Choose("behind", 4)]
	if u == "T" {
		m = 0
	}
	src, want, end := stream(block("A", u, n, m))
	s := &source{data: src, end: io.EOF}
	size := 100
	if sym.Part(2) == 1 {
		size = 8
	}
	r, err := cp949.NewReader(s)
	sym.Assert(err == nil, "NewReader: error")
	checkReader(r, always(size), want, end)
	sym.Reach("end")
}

// C15_Huge: a stream longer than 2^16 bytes.
func C15_Huge() {
	n := 1<<16 - 1 + sym.Part(3)
	pre := bytes.Repeat([]byte("x"), n)
	src, want, end := stream("dA")
	size := []int{4096, 1 << 17}[sym.Choose("size", 2)]
	r, err := cp949.NewReader(bytes.NewReader(append(pre[:n:n], src...)))
	sym.Assert(err == nil, "NewReader: error")
	checkReader(r, always(size), append(pre[:n:n], want...), end)
	sym.Reach("end")
}

// ---- writer ----

// pending is the length of the incomplete character a text ends with.
func pending(p []byte) int {
	i := 0
	for i < len(p) {
		if ref.Incomplete(p[i:]) {
			return len(p) - i
		}
		_, n := ref.DecodeRune(p[i:])
		i += n
	}
	return 0
}

type sink struct {
	got   []byte
	calls int
	fail  int // call from which on all fail, 0: none
	err   error
	once  bool // only that call fails
	take  int  // what a failing call takes: 0 nothing, 1 a part, 2 everything
}

func (s *sink) Write(p []byte) (int, error) {
	s.calls++
	if s.fail > 0 && (s.calls == s.fail || s.calls > s.fail && !s.once) {
		n := len(p) * s.take / 2
		s.got = append(s.got, p[:n]...)
		return n, s.err
	}
	s.got = append(s.got, p...)
	for i := range p { // the destination may use its buffer as it likes
		_ = i
	}
	return len(p), nil
}

// checkWriter writes text in pieces that end at cuts; codes[i] is the code that is due once
// ends[i] bytes are written.
func checkWriter(text []byte, codes [][]byte, ends []int, next func(pos int) int) {
	d := &sink{}
	w, err := cp949.NewWriter(d)
	sym.Assert(err == nil, "NewWriter: error")
	pos, done := 0, 0
	want := []byte{}
	for i := 0; pos < len(text) || i == 0; i++ {
		n := next(pos)
		piece := append([]byte{}, text[pos:pos+n]...)
		k, err := w.Write(piece)
		sym.Assert(err == nil, "Write: error")
		sym.Assert(k == n, "Write: wrong count")
		for j := range piece { // the caller may reuse its buffer
			piece[j] = 'z'
		}
		pos += n
		for done < len(ends) && ends[done] <= pos {
			want = append(want, codes[done]...)
			done++
		}
		sym.Assert(sym.EqBytes(d.got, want), "Writer: wrong bytes at the destination")
	}
	sym.ObsBytes("got", d.got)
}

// textOf builds a text of the given characters (see chars) and says when which code is due.
func textOf(shape string) (src []byte, codes [][]byte, ends []int) {
	for i := range shape {
		s, w, _ := chars(shape[i : i+1])
		src = append(src, s...)
		codes = append(codes, w)
		ends = append(ends, len(src))
	}
	return
}

// C16_Splits: any division of texts of any well-formed characters and stray bytes.
func C16_Splits() {
	shapes := [][]string{{"3"}, {"13"}, {"31"}, {"2", "21", "12"}, {"4", "14"}, {"23"}, {"x3", "3x"}, {"33"}, {"", "1x1", "xx", "x1x"},
		{"333"}, {"1313"}, {"43", "34"}, {"242"}, {"3x3"}}
	l := shapes[sym.Part(14)]
	text, codes, ends := textOf(l[sym.Choose("shape", len(l))])
	empties := 1
	checkWriter(text, codes, ends, func(pos int) int {
		n := len(text) - pos
		if empties > 0 && sym.Choose("empty", 2) == 1 {
			empties--
			return 0
		}
		if n == 0 {
			return 0
		}
		if n > 6 {
			n = 6
		}
		return 1 + sym.Choose("n", n)
	})
	sym.Reach("written")
}

// C16_Bytes: any byte string of the length of the part + 1, byte by byte or in two pieces.
func C16_Bytes() {
	n := sym.Part(5) + 1
	b := sym.Bytes("b", n)
	var codes [][]byte
	var ends []int
	i := 0
	for i < n {
		// the kinds of the next character: incomplete, or complete of some size
		if i+3 >= n && sym.Choose("incomplete", 2) == 1 {
			sym.Assume(ref.Incomplete(b[i:]))
			sym.Reach("incomplete")
			break
		}
		if i+3 >= n {
			sym.Assume(!ref.Incomplete(b[i:]))
		}
		r, k := nextRune(b[i:])
		c := ref.EncodeRune(r)
		var w []byte
		if k == 1 {
			w = []byte{byte(c)}
		} else {
			w = appendCode(nil, c)
		}
		i += k
		codes = append(codes, w)
		ends = append(ends, i)
	}
	// when is a stray byte due? when it can no longer start a character
	cut := sym.Choose("cut", n+1)
	d := &sink{}
	w, err := cp949.NewWriter(d)
	sym.Assert(err == nil, "NewWriter: error")
	k, err := w.Write(b[:cut])
	sym.Assert(err == nil && k == cut, "Write: count or error")
	k, err = w.Write(b[cut:])
	sym.Assert(err == nil && k == n-cut, "Write: count or error")
	want := []byte{}
	for _, c := range codes {
		want = append(want, c...)
	}
	sym.ObsBytes("got", d.got)
	sym.Assert(sym.EqBytes(d.got, want), "Writer: wrong bytes at the destination")
}

// C16_Long: long texts in pieces of one size.
func C16_Long() {
	n := []int{60, 500, 1025, 2049, 4096, 200}[sym.Part(6)]
	var text []byte
	var codes [][]byte
	var ends []int
	for i := 0; len(text) < n; i++ {
		if i%3 == 2 {
			text = append(text, 'x')
			codes = append(codes, []byte{'x'})
		} else {
			text = append(text, 0xED, 0x95, 0x9C)
			codes = append(codes, []byte{0xC7, 0xD1})
		}
		ends = append(ends, len(text))
	}
	t, c, e := textOf("31")
	for i := range c {
		codes = append(codes, c[i])
		ends = append(ends, e[i]+len(text))
	}
	text = append(text, t...)
	size := []int{n / 3, n / 2, n - 1, n, n + 1, n + 2, n + 3, n + 4, n/3 + 1}[sym.Choose("size", 9)]
	checkWriter(text, codes, ends, func(pos int) int {
		if pos+size > len(text) {
			return len(text) - pos
		}
		return size
	})
	sym.Reach("written")
}

// C16_Blocks: a character and ASCII bytes at every offset modulo 16 and more, in one or two
// pieces.
func C16_Blocks() {
	n := sym.Choose("before", 18)
	u := []string{"s", "x", "4"}[sym.Part(3)]
	m := []int{0, 1, 7, 16}[sym.Choose("behind", 4)]
	text, codes, ends := textOf(block("1", u, n, m))
	cut := []int{0, n, n + 1, len(text) / 2}[sym.Choose("cut", 4)]
	checkWriter(text, codes, ends, func(pos int) int {
		if pos < cut {
			return cut - pos
		}
		return len(text) - pos
	})
	sym.Reach("written")
}

// C16_Huge: a text longer than 2^16 bytes.
func C16_Huge() {
	n := 1<<16 - 1 + sym.Part(3)
	var d sink
	w, err := cp949.NewWriter(&d)
	sym.Assert(err == nil, "NewWriter: error")
	pre := bytes.Repeat([]byte("x"), n)
	src, want, _ := chars("s1")
	text := append(pre[:n:n], src...)
	cut := []int{0, n + 1, n}[sym.Choose("cut", 3)]
	for _, p := range [][]byte{text[:cut], text[cut:]} {
		k, err := w.Write(p)
		sym.Assert(err == nil && k == len(p), "Write: error or count")
	}
	sym.Assert(sym.EqBytes(d.got, append(pre[:n:n], want...)), "Writer: wrong bytes at the destination")
	sym.Reach("written")
}

// ---- failures ----

var errBroken = errors.New("broken")

// A tempError calls itself temporary, a timeout, and a kind of io.EOF.
type tempError struct{ code int }

func (e tempError) Error() string   { return "temporary" }
func (e tempError) Temporary() bool { return true }
func (e tempError) Timeout() bool   { return true }
func (e tempError) Unwrap() error   { return io.EOF }

var (
	readErrors  = []error{errBroken, io.ErrUnexpectedEOF, tempError{1}, io.ErrNoProgress, cp949.ErrCP949UnexpectedStream}
	writeErrors = []error{errBroken, io.ErrShortWrite, tempError{2}, io.EOF, io.ErrClosedPipe}
)

// C19_Reader: the source fails after any part of the stream.
func C19_Reader() {
	shapes := []string{"", "D", "T", "AD", "DT", "AT", "DAT", "DD", "ADA", "DDT"}
	src, want, _ := stream(shapes[sym.Part(10)])
	fail := readErrors[sym.Choose("error", len(readErrors))]
	s := &source{data: src, max: 3, zeros: 1, end: fail, withEnd: sym.Choose("withEnd", 2) == 1}
	if sym.Choose("recovers", 2) == 1 {
		s.after = []byte("abcdefgh")
	}
	r, err := cp949.NewReader(s)
	sym.Assert(err == nil, "NewReader: error")
	size := []int{1, 2, 3, 16}[sym.Choose("size", 4)]
	checkReader(r, always(size), want, fail)
	n, err := r.Read(make([]byte, 1))
	sym.Assert(n == 0 && err == fail, "Reader: the failure does not last")
	sym.Reach("failed")
}

// C19_Writer: the destination fails at any call.
func C19_Writer() {
	shapes := []string{"31", "13", "x1", "231", "141"}
	text, codes, ends := textOf(shapes[sym.Part(5)])
	d := &sink{fail: 1 + sym.Choose("fail", 3), err: writeErrors[sym.Choose("error", len(writeErrors))], once: sym.Choose("once", 2) == 1, take: sym.Choose("take", 3)}
	w, err := cp949.NewWriter(d)
	sym.Assert(err == nil, "NewWriter: error")
	pos, done := 0, 0
	want := []byte{}
	for pos < len(text) {
		n := 1 + sym.Choose("n", len(text)-pos)
		_, err := w.Write(text[pos : pos+n])
		pos += n
		for done < len(ends) && ends[done] <= pos {
			want = append(want, codes[done]...)
			done++
		}
		if d.calls >= d.fail {
			sym.Assert(err == d.err, "Write: the destination's error is not returned")
			sym.Reach("failed")
			return
		}
		sym.Assert(err == nil, "Write: error")
		sym.Assert(sym.EqBytes(d.got, want), "Writer: wrong bytes before the failure")
	}
	sym.Reach("written")
}

// ---- promptness ----

// prompt is a source that watches how it is read.
type prompt struct {
	source
	ends, due []int // after ends[i] bytes, due[i] bytes of text can be delivered
	sent      int   // bytes of the stream
	got       int   // bytes of text delivered
	over      bool
	idle      bool // a read that delivered nothing, since the flag was cleared
}

func (s *prompt) Read(p []byte) (int, error) {
	sym.Assert(len(p) > 0, "the source is asked for 0 bytes")
	sym.Assert(!s.over, "the source is read after its end")
	due := 0
	for i, e := range s.ends {
		if e <= s.sent {
			due = s.due[i]
		}
	}
	sym.Assert(s.got == due, "the source is read before everything is delivered")
	n, err := s.source.Read(p)
	s.sent += n
	s.over = err != nil
	s.idle = s.idle || n == 0 && err == nil
	return n, err
}

// prompts builds the source for a stream of units and the text it stands for.
func prompts(shape string, end error) (*prompt, []byte) {
	s := &prompt{}
	s.end = end
	var text []byte
	for i := range shape {
		u, w, _ := units(shape[i : i+1])
		s.data = append(s.data, u...)
		if shape[i] != 'T' {
			text = append(text, w...)
			s.ends = append(s.ends, len(s.data))
			s.due = append(s.due, len(text))
		}
	}
	return s, text
}

func checkPrompt(s *prompt, text []byte, size func(i int) int) {
	r, err := cp949.NewReader(s)
	sym.Assert(err == nil, "NewReader: error")
	out := []byte{}
	for i := 0; ; i++ {
		if i > 60 {
			sym.Fail("the reader does not come to an end")
		}
		n := size(i)
		buf := make([]byte, n)
		s.idle = false
		reads := s.reads
		k, err := r.Read(buf)
		sym.Assert(0 <= k && k <= n, "Read: count out of range")
		sym.Assert(k > 0 || err != nil || n == 0 || s.idle, "Read: nothing, and no error")
		sym.Assert(n > 0 || s.reads == reads, "Read: reads the source for an empty buffer")
		s.got += k
		out = append(out, buf[:k]...)
		if err != nil {
			sym.Assert(s.over, "Read: an error before the source ends")
			break
		}
	}
	sym.ObsBytes("got", out)
	sym.Assert(sym.EqBytes(out, text), "Read: wrong text")
	n, err := r.Read(make([]byte, 3))
	sym.Assert(n == 0 && err != nil, "Read: the end does not last")
	sym.Reach("ended")
}

// C24_Prompt: any division of the stream, buffers of one size.
func C24_Prompt() {
	shapes := []string{"ADT", "DA", "DD", "AADA", "T", "DDT", "ADAD", "DDA", "AAA", "ADDA", "DADT", "DDD"}
	end := []error{io.EOF, errBroken}[sym.Choose("error", 2)]
	s, text := prompts(shapes[sym.Part(12)], end)
	s.max, s.zeros, s.withEnd = 4, 1, sym.Choose("withEnd", 2) == 1
	size := []int{1, 2, 3, 5, 64}[sym.Choose("size", 5)]
	checkPrompt(s, text, always(size))
}

// C24_Sizes: any first buffer sizes, the source as fast as it may or a byte at a time.
func C24_Sizes() {
	shapes := []string{"ADT", "DA", "AAD", "T", "DD", "ADAD", "DDT", "DAT"}
	s, text := prompts(shapes[sym.Part(8)], io.EOF)
	s.withEnd = sym.Choose("withEnd", 2) == 1
	one := sym.Choose("one", 2) == 1
	if one {
		s.max, s.step = 1, true
	}
	sizes := []int{0, 1, 2, 4}
	checkPrompt(s, text, func(i int) int {
		if i < 4 {
			return sizes[sym.Choose("size", 4)]
		}
		return sizes[1+i%3]
	})
}

// ---- repeated writes ----

// C25_Retry: failed Writes, repeated or replaced by others, at any points of a text.
func C25_Retry() {
	shapes := []string{"31", "13", "x3", "23", "41", "33", "3x1", "333", "242", "1414"}
	k := sym.Part(10)
	text, codes, ends := textOf(window(shapes[k]))
	d := &sink{err: writeErrors[k%len(writeErrors)]}
	w, err := cp949.NewWriter(d)
	sym.Assert(err == nil, "NewWriter: error")
	failures := 1
	if sym.Thorough() && len(text) <= 6 {
		failures = 2
	}
	pos, done := 0, 0
	want := []byte{}
	for pos < len(text) {
		n := len(text) - pos
		if n > 5 {
			n = 5
		}
		n = 1 + sym.Choose("n", n)
		calls := d.calls
		if failures > 0 {
			switch sym.Choose("how", 3) {
			case 1: // the Write fails and is repeated below, perhaps in other pieces
				failures--
				d.fail = 1
				k, err := w.Write(text[pos : pos+n])
				d.fail = 0
				sym.Assert(sym.EqBytes(d.got, want), "Writer: wrong bytes at the destination")
				if err != nil {
					sym.Assert(err == d.err, "Write: not the destination's error")
					sym.Assert(k == 0, "Write: the failed Write counts bytes as written")
					sym.Reach("failed")
					continue
				}
				sym.Assert(d.calls == calls, "Write: the failure is hidden")
				sym.Assert(k == n, "Write: wrong count")
				pos += n // nothing was due; all is held back
				for done < len(ends) && ends[done] <= pos {
					sym.Fail("Write: what is due is not written")
				}
				continue
			case 2: // something else fails
				failures--
				d.fail = 1
				other := []byte("\xED\x95\x9C!\xED")
				k, err := w.Write(other)
				d.fail = 0
				sym.Assert(err == d.err && k == 0, "Write: the failure is not reported")
				sym.Assert(sym.EqBytes(d.got, want), "Writer: wrong bytes at the destination")
			}
		}
		k, err := w.Write(text[pos : pos+n])
		sym.Assert(err == nil && k == n, "Write: error or count")
		pos += n
		for done < len(ends) && ends[done] <= pos {
			want = append(want, codes[done]...)
			done++
		}
		sym.Assert(sym.EqBytes(d.got, want), "Writer: wrong bytes after a failed Write")
	}
	sym.ObsBytes("got", d.got)
	sym.Reach("written")
}

// C25_Bytes: any bytes, of which the second half fails first.
func C25_Bytes() {
	n := sym.Part(2) + 2
	b := sym.Bytes("b", n)
	cut := sym.Choose("cut", n)
	var d, e sink
	d.err = errBroken
	w, err := cp949.NewWriter(&d)
	sym.Assert(err == nil, "NewWriter: error")
	v, err := cp949.NewWriter(&e) // without failures
	sym.Assert(err == nil, "NewWriter: error")
	for _, p := range [][]byte{b[:cut], b[cut:], []byte("\x9C.")} {
		before := len(d.got)
		d.fail = 1
		k, err := w.Write(p)
		d.fail = 0
		sym.Assert(len(d.got) == before, "Write: the failed Write reaches the destination")
		if err != nil {
			sym.Assert(k == 0 && err == errBroken, "Write: count or error of the failed Write")
			k, err = w.Write(p)
			sym.Reach("failed")
		}
		sym.Assert(k == len(p) && err == nil, "Write: error or count")
		v.Write(p)
		sym.Assert(sym.EqBytes(d.got, e.got), "Writer: other bytes than without the failure")
	}
	sym.ObsBytes("got", d.got)
	sym.Reach("written")
}
