// C02: decoding any byte sequence is safe, and I/O failures are never swallowed.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"runtime"
	"strings"
	"time"

	"github.com/muguangyi/ferry/codec"
	"zzplain/pk"
	"zzplain/val"
)

// source is a reader under full control: it hands out data in pieces, and ends in its own way.
type source struct {
	data    []byte
	pos     int
	pieces  func(pos int) int // how much to give at most
	end     error             // what comes after the data
	eofWith bool              // the end comes together with the last bytes
	empty   int               // every so many reads gives (0, nil) first
	reads   int
	atEnd   int // reads after the end
}

var errRead = errors.New("read failed")
var errWrite = errors.New("write failed")

type tooMany struct{}

func (s *source) Read(p []byte) (int, error) {
	s.reads++
	if s.empty > 0 && s.reads%s.empty != 0 {
		return 0, nil
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.pos >= len(s.data) {
		if s.atEnd++; s.atEnd > 1000000 {
			panic("reads on and on after the end")
		}
		return 0, s.end
	}
	n := len(p)
	if s.pieces != nil {
		if k := s.pieces(s.pos); k < n {
			n = k
		}
	}
	n = copy(p[:n], s.data[s.pos:])
	s.pos += n
	if s.eofWith && s.pos == len(s.data) {
		return n, io.EOF
	}
	return n, nil
}

// outcome decodes and says what came out.
type outcome struct {
	crash    string
	err      bool
	text     string
	show     string
	consumed int
	hitEnd   bool
	val      interface{}
}

func decode(s *source) (o outcome) {
	a := codec.NewAny(nil)
	o.crash = pk.Guard(func() {
		err := a.Decode(s)
		if err != nil {
			o.err, o.text = true, err.Error()
		} else {
			o.val = a.Any()
		}
	})
	o.consumed = s.pos
	o.hitEnd = s.atEnd > 0
	return o
}

func equal(a, b outcome) string {
	if a.crash != "" || b.crash != "" {
		return a.crash + b.crash
	}
	if a.err != b.err {
		return fmt.Sprintf("error: %v (%s) and %v (%s)", a.err, a.text, b.err, b.text)
	}
	if a.err {
		return ""
	}
	if m := val.Same(a.val, b.val, false); m != "" {
		return m
	}
	if fmt.Sprintf("%T", a.val) != fmt.Sprintf("%T", b.val) {
		return fmt.Sprintf("%T and %T", a.val, b.val)
	}
	if a.consumed != b.consumed {
		return fmt.Sprintf("%d and %d bytes consumed", a.consumed, b.consumed)
	}
	return ""
}

// checks of one byte string: it decodes to a value or an error, the same however it's read.
func one(t *pk.T, b []byte) (o outcome) {
	t.State()
	o = decode(&source{data: b, end: io.EOF})
	t.Step(1)
	if o.crash != "" {
		t.Fail("crash", "%s", o.crash)
		return o
	}
	for i, s := range []*source{
		{data: b, end: io.EOF, pieces: func(int) int { return 1 }},
		{data: b, end: io.EOF, eofWith: true},
		{data: b, end: io.EOF, empty: 2, pieces: func(p int) int { return 1 + p%3 }},
	} {
		t.Step(1)
		x := decode(s)
		if i == 1 && o.consumed == len(b) {
			x.consumed = o.consumed
		}
		if m := equal(o, x); m != "" {
			t.Fail("fragments", "read in another way (%d): %s", i, m)
		}
	}
	// a failure instead of the end of the data is an error if it's reached
	x := decode(&source{data: b, end: errRead})
	t.Step(1)
	if x.crash != "" {
		t.Fail("crash", "%s", x.crash)
	} else if x.hitEnd && !x.err {
		t.Fail("swallowed", "the reader failed and %s was returned", val.Show(x.val))
	}
	t.Trace(1)
	return o
}

// strings explores the tree of byte strings: one is made longer as long as decoding runs into
// its end (what is decoded before cannot depend on bytes that weren't read).
func tree(t *pk.T, alphabets [][]byte) {
	n := 0
	var rec func(b []byte)
	rec = func(b []byte) {
		if t.Stop() {
			return
		}
		run := false
		if n++; n%64 == 0 {
			t.Alive()
		}
		// the whole tree is walked by every child; each checks its share in full
		var o outcome
		cp := append([]byte{}, b...)
		if run = t.Case(func() string { return fmt.Sprintf("% x", cp) }); run {
			o = one(t, b)
		} else {
			o = decode(&source{data: b, end: io.EOF})
		}
		if o.crash != "" || !o.hitEnd || len(b) == len(alphabets) {
			return
		}
		for _, c := range alphabets[len(b)] {
			rec(append(b[:len(b):len(b)], c))
		}
	}
	rec(nil)
}

func full() []byte {
	var a []byte
	for i := 0; i < 256; i++ {
		a = append(a, byte(i))
	}
	return a
}

var codes = []byte{0xc0, 0xc2, 0xc3, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3, 0xdb, 0xdd, 0xdf}
var other = []byte{0xc4, 0xd9, 0xdc, 0xde, 0x90, 0x81, 0xe0, 0x7f}

func fulls(t *pk.T) {
	k := 3
	tail := []byte{0x00, 0x01, 0x80, 0xff, 0xc0, 0xdd}
	var al [][]byte
	for i := 0; i < k; i++ {
		al = append(al, full())
	}
	deep := 1
	if t.Thorough {
		deep = 4
	}
	for i := 0; i < deep; i++ {
		al = append(al, tail)
	}
	tree(t, al)
}

// structured explores byte strings made of well-formed headers with small or extreme counts.
func structured(t *pk.T) {
	heads := [][]byte{}
	for _, c := range codes {
		switch c {
		case 0xdb, 0xdd, 0xdf:
			for _, n := range []uint32{0, 1, 2, 3, 0x7fffffff, 0xffffffff} {
				heads = append(heads, []byte{c, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
			}
		case 0xcc, 0xd0:
			heads = append(heads, []byte{c, 0}, []byte{c, 0xff})
		case 0xcd, 0xd1:
			heads = append(heads, []byte{c, 0, 1}, []byte{c, 0xff, 0xff})
		case 0xce, 0xd2:
			heads = append(heads, []byte{c, 0, 0, 0, 1}, []byte{c, 0xff, 0xff, 0xff, 0xff})
		case 0xcf, 0xd3:
			heads = append(heads, []byte{c, 0, 0, 0, 0, 0, 0, 0, 1}, []byte{c, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff})
		default:
			heads = append(heads, []byte{c})
		}
	}
	for _, c := range other {
		heads = append(heads, []byte{c})
	}
	heads = append(heads, []byte("xyz"), []byte{0xdb, 0, 0}, []byte{0xcf, 1, 2, 3})
	depth := 4
	if t.Thorough {
		depth = 5
	}
	var rec func(b []byte, d int)
	n := 0
	rec = func(b []byte, d int) {
		if t.Stop() {
			return
		}
		if n++; n%64 == 0 {
			t.Alive()
		}
		var o outcome
		if t.Case(func() string { return fmt.Sprintf("% x", b) }) {
			o = one(t, b)
		} else {
			o = decode(&source{data: b, end: io.EOF})
		}
		if o.crash != "" || !o.hitEnd || d == 0 {
			return
		}
		for _, h := range heads {
			rec(append(b[:len(b):len(b)], h...), d-1)
		}
	}
	rec(nil, depth)
}

// encodings calls f with the encoding of every value of a fixed collection.
func encodings(t *pk.T, f func(v interface{}, enc []byte)) {
	emit := func(v interface{}) {
		var buf bytes.Buffer
		if crash := pk.Guard(func() {
			if codec.NewAny(v).Encode(&buf) != nil {
				buf.Reset()
			}
		}); crash == "" && buf.Len() > 0 {
			f(v, buf.Bytes())
		}
	}
	for _, tp := range val.Scalars {
		for _, v := range val.Edges(tp) {
			emit(v)
		}
	}
	val.Typed(1, emit)
	k := 3
	if t.Thorough {
		k = 4
	}
	for n := 1; n <= k; n++ {
		val.Trees(n, val.Leaves, emit)
	}
	for _, n := range []int{1, 31, 255, 256, 4095, 4096, 4097, 5000, 8192, 8193, 12289} {
		emit(strings.Repeat("q", n))
		emit([]interface{}{strings.Repeat("\xdd", n), 1})
		if n < 5000 {
			emit(make([]int, n))
		}
	}
}

// truncations: no strict prefix of an encoding decodes.
func truncations(t *pk.T) {
	encodings(t, func(v interface{}, enc []byte) {
		step := 1
		if len(enc) > 300 {
			step = len(enc)/300 + 1
		}
		for cut := 0; cut < len(enc); cut++ {
			if cut > 20 && len(enc)-cut > 20 && cut%step != 0 {
				continue
			}
			cut := cut
			if !t.Case(func() string { return fmt.Sprintf("%s cut to %d of %d bytes", val.Show(v), cut, len(enc)) }) {
				continue
			}
			t.State()
			t.Trace(1)
			for i, s := range []*source{{data: enc[:cut], end: io.EOF}, {data: enc[:cut], end: io.EOF, eofWith: true},
				{data: enc[:cut], end: errRead}, {data: enc[:cut], end: io.ErrUnexpectedEOF, pieces: func(int) int { return 2 }}} {
				o := decode(s)
				t.Step(1)
				if o.crash != "" {
					t.Fail("crash", "%s", o.crash)
				} else if !o.err {
					t.Fail("prefix", "decoded to %s (reader %d)", val.Show(o.val), i)
				}
			}
		}
	})
}

// fragments: the outcome doesn't depend on where the reader splits.
func fragments(t *pk.T) {
	encodings(t, func(v interface{}, enc []byte) {
		data := append(append([]byte{}, enc...), 0xc2, 0xff, 0x00)
		step := 1
		if len(enc) > 200 {
			step = len(enc)/200 + 1
		}
		want := outcome{val: v}
		check := func(desc string, s *source) {
			if !t.Case(func() string { return fmt.Sprintf("%s (%d bytes) read %s", val.Show(v), len(enc), desc) }) {
				return
			}
			t.State()
			t.Step(1)
			t.Trace(1)
			o := decode(s)
			if o.crash != "" {
				t.Fail("crash", "%s", o.crash)
			} else if o.err {
				t.Fail("error", "%s", o.text)
			} else if m := val.Same(want.val, o.val, false); m != "" {
				t.Fail("value", "%s", m)
			} else if o.consumed != len(enc) {
				t.Fail("consumed", "%d of %d bytes consumed", o.consumed, len(enc))
			}
		}
		for a := 0; a <= len(enc); a++ {
			if a > 20 && len(enc)-a > 20 && a%step != 0 {
				continue
			}
			a := a
			check(fmt.Sprintf("up to %d first", a), &source{data: data, end: io.EOF, pieces: func(pos int) int {
				if pos < a {
					return a - pos
				}
				return len(data)
			}})
			if len(enc) <= 24 {
				for b := a + 1; b <= len(enc); b++ {
					b := b
					check(fmt.Sprintf("up to %d and %d first", a, b), &source{data: data, end: io.EOF, pieces: func(pos int) int {
						switch {
						case pos < a:
							return a - pos
						case pos < b:
							return b - pos
						}
						return len(data)
					}})
				}
			}
		}
		for _, k := range []int{1, 2, 3, 5, 7, 100, 4095, 4096, 4097} {
			k := k
			check(fmt.Sprintf("by %d", k), &source{data: data, end: io.EOF, pieces: func(int) int { return k }})
			check(fmt.Sprintf("by %d with empty reads", k), &source{data: data, end: io.EOF, empty: 2, pieces: func(int) int { return k }})
		}
		check("with the end announced at once", &source{data: enc, end: io.EOF, eofWith: true})
		check("with a failure after it", &source{data: enc, end: errRead})
	})
}

// failReader and failWriter: a failure at any point is an error.
type sink struct {
	left    int
	partial bool // accept what fits before failing
	once    bool // only one write fails
	failed  bool
	wrote   int
}

func (s *sink) Write(p []byte) (int, error) {
	if s.failed && s.once {
		s.wrote += len(p)
		return len(p), nil
	}
	if s.failed {
		return 0, errWrite
	}
	if len(p) <= s.left {
		s.left -= len(p)
		s.wrote += len(p)
		return len(p), nil
	}
	s.failed = true
	if s.partial {
		n := s.left
		s.left = 0
		s.wrote += n
		return n, errWrite
	}
	return 0, errWrite
}

func faults(t *pk.T) {
	encodings(t, func(v interface{}, enc []byte) {
		step := 1
		if len(enc) > 200 {
			step = len(enc)/200 + 1
		}
		for at := 0; at < len(enc); at++ {
			if at > 20 && len(enc)-at > 20 && at%step != 0 {
				continue
			}
			at := at
			if !t.Case(func() string {
				return fmt.Sprintf("%s (%d bytes), failure at byte %d", val.Show(v), len(enc), at)
			}) {
				continue
			}
			t.State()
			t.Trace(1)
			for k := 0; k < 4; k++ {
				s := &sink{left: at, partial: k&1 != 0, once: k&2 != 0}
				var err error
				crash := pk.Guard(func() { err = codec.NewAny(v).Encode(s) })
				t.Step(1)
				if crash != "" {
					t.Fail("crash", "Encode: %s", crash)
				} else if err == nil && s.failed {
					t.Fail("write", "a write failed (mode %d) and Encode returned nil", k)
				}
			}
			for k := 0; k < 2; k++ {
				s := &source{data: enc[:at], end: errRead}
				if k == 1 {
					s.pieces = func(int) int { return 1 }
				}
				o := decode(s)
				t.Step(1)
				if o.crash != "" {
					t.Fail("crash", "Decode: %s", o.crash)
				} else if !o.err {
					t.Fail("read", "a read failed and Decode returned %s", val.Show(o.val))
				}
			}
		}
		// transient failure: the reader fails once, then goes on
		for at := 0; at < len(enc) && len(enc) < 64; at++ {
			at := at
			if !t.Case(func() string {
				return fmt.Sprintf("%s (%d bytes), one failed read at byte %d", val.Show(v), len(enc), at)
			}) {
				continue
			}
			t.State()
			t.Step(1)
			t.Trace(1)
			s := &flaky{data: enc, at: at}
			var err error
			a := codec.NewAny(nil)
			if crash := pk.Guard(func() { err = a.Decode(s) }); crash != "" {
				t.Fail("crash", "%s", crash)
			} else if err == nil && s.failed {
				t.Fail("read-once", "a read failed once and Decode returned %s", val.Show(a.Any()))
			}
		}
	})
}

type flaky struct {
	data   []byte
	pos    int
	at     int
	failed bool
}

func (f *flaky) Read(p []byte) (int, error) {
	if f.pos == f.at && !f.failed && len(p) > 0 {
		f.failed = true
		return 0, errRead
	}
	end := len(f.data)
	if f.pos < f.at {
		end = f.at
	}
	n := copy(p, f.data[f.pos:end])
	f.pos += n
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

// memory: what a decode reserves is in proportion to its input.
func memory(t *pk.T) {
	var ms runtime.MemStats
	limit := func(n int) uint64 { return 1<<20 + 16384*uint64(n) }
	check := func(desc string, data []byte, more io.Reader) {
		if !t.Case(func() string { return desc }) {
			return
		}
		t.State()
		t.Trace(1)
		t.Step(1)
		runtime.ReadMemStats(&ms)
		before := ms.TotalAlloc
		var r io.Reader = bytes.NewReader(data)
		crash := pk.Guard(func() { codec.NewAny(nil).Decode(r) })
		runtime.ReadMemStats(&ms)
		if crash != "" {
			t.Fail("crash", "%s", crash)
		}
		if used := ms.TotalAlloc - before; used > limit(len(data)) {
			t.Fail("memory", "decoding %d bytes reserved %d bytes", len(data), used)
		}
	}
	be := func(c byte, n uint32) []byte { return []byte{c, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }
	var counts []uint32
	for k := uint(0); k < 32; k++ {
		counts = append(counts, 1<<k, 1<<k-1)
	}
	counts = append(counts, math.MaxUint32, math.MaxUint32-1, 5000, 100000000)
	var bodies [][]byte
	bodies = append(bodies, nil, []byte{0xc0}, []byte{0xc0, 0xc2, 0xc3}, bytes.Repeat([]byte{0xc0}, 100), bytes.Repeat([]byte{0xcc}, 5000),
		bytes.Repeat([]byte{0xdb, 0, 0, 0, 0}, 200))
	var prefixes [][]byte
	prefixes = append(prefixes, nil)
	for _, a := range []byte{0xdd, 0xdf} {
		for _, n := range []uint32{1, 2, math.MaxUint32} {
			prefixes = append(prefixes, be(a, n))
		}
	}
	prefixes = append(prefixes, []byte{0xca}, []byte{0xcb}, append(be(0xdf, 1), 0xc0))
	for _, p := range prefixes {
		for _, c := range []byte{0xdb, 0xdd, 0xdf, 0xda, 0xd9, 0xdc, 0xde, 0xc4, 0xc5, 0xc6} {
			for _, n := range counts {
				for _, body := range bodies {
					data := append(append(append([]byte{}, p...), be(c, n)...), body...)
					if len(data) > 40 {
						check(fmt.Sprintf("% x ... (%d bytes)", data[:40], len(data)), data, nil)
					} else {
						check(fmt.Sprintf("% x", data), data, nil)
					}
				}
			}
		}
	}
	// huge counts within each other
	for _, c := range []byte{0xdd, 0xdf} {
		for _, n := range []uint32{2, 1000, 1 << 16, math.MaxUint32} {
			for _, levels := range []int{2, 10, 100, 1000, 9000} {
				data := bytes.Repeat(be(c, n), levels)
				check(fmt.Sprintf("% x repeated %d times", be(c, n), levels), data, nil)
			}
		}
	}
	// a long string that is really there
	for _, n := range []int{4096, 100000, 1 << 20, 16 << 20} {
		data := append(be(0xdb, uint32(n)), bytes.Repeat([]byte{'a'}, n)...)
		check(fmt.Sprintf("a string of %d bytes", n), data, nil)
		check(fmt.Sprintf("a string of %d bytes, one missing", n), data[:len(data)-1], nil)
	}
}

// depth: nesting never kills the process.
func depth(t *pk.T) {
	max := 10000000
	if t.Thorough {
		max = 30000000
	}
	units := map[string][]byte{"array": {0xdd, 0, 0, 0, 1}, "map key": {0xdf, 0, 0, 0, 1}, "map value": {0xdf, 0, 0, 0, 1, 0xc0},
		"float32": {0xca}, "float64": {0xcb}, "array of float": {0xdd, 0, 0, 0, 1, 0xcb}, "wide array": {0xdd, 0xff, 0xff, 0xff, 0xff}}
	for _, name := range []string{"array", "map key", "map value", "float32", "float64", "array of float", "wide array"} {
		for _, levels := range []int{1, 10, 100, 1000, 5000, 9999, 10000, 10001, 10002, 20000, 100000, max} {
			name, levels := name, levels
			if !t.Case(func() string { return fmt.Sprintf("%s nested %d times", name, levels) }) {
				continue
			}
			t.State()
			t.Trace(1)
			t.Step(2)
			data := bytes.Repeat(units[name], levels)
			for _, tail := range [][]byte{nil, {0xc0}, {0xcc, 1}} {
				o := decode(&source{data: append(data[:len(data):len(data)], tail...), end: io.EOF})
				if o.crash != "" {
					t.Fail("crash", "%s", o.crash)
				}
			}
		}
	}
}

func main() {
	pk.Main("C02", []*pk.Scenario{
		{Name: "byte-strings", Bound: "all byte strings of up to 3 bytes, a 4th byte of {00,01,80,ff,c0,dd} after them, that a decoder reads to their end; each with 5 readers",
			Deep: "up to 7 bytes", Run: fulls},
		{Name: "structured", Bound: "all strings of up to 4 headers, counts, scalars and broken pieces", Deep: "up to 5", Run: structured},
		{Name: "truncations", Bound: "every cut of every encoding of a collection of values", Deep: "a larger collection", Run: truncations},
		{Name: "fragments", Bound: "every split into two pieces (three for up to 24 bytes) and fixed sizes", Deep: "a larger collection", Run: fragments},
		{Name: "faults", Bound: "every failing byte position of reader and writer", Deep: "a larger collection", Run: faults},
		{Name: "memory", Bound: "every power of two as count of every code, in every context", Run: memory, Single: false},
		{Name: "depth", Bound: "nesting up to 10,000,000 levels", Deep: "30,000,000", Run: depth, CaseTime: 60 * time.Second},
	}, "each state is one byte string, truncation, fragmentation or fault point, each transition one Decode or Encode of the real code in a process "+
		"whose death, hang (20 s) or excess memory is a violation",
		[]string{"readers and writers keep the io.Reader and io.Writer contracts", "memory in proportion: 1 MB plus 16 kB per byte of input"})
}
