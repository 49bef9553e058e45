package props

import (
	"bytes"
	"compress/zlib"
	"errors"
	"fmt"
	"io"
	"math"
	"testing"

	"github.com/direct-connect/go-dc/lineproto"
	"pgregory.net/rapid"
)

var delims = []byte{'|', '\n', 0x00, 'x', 0xff}

// drawLine draws one line (with the delimiter) whose length is near a buffer boundary or small.
func drawLine(t *rapid.T, delim byte, maxLen int) []byte {
	n := around(t, "len", 2048, 4096, 1024, 2048-1)
	if maxLen > 0 && n > maxLen-1 {
		n = maxLen - 1
	}
	seed := rapid.Byte().Draw(t, "fill")
	return append(pattern(n, seed, delim), delim)
}

func splitLines(stream []byte, delim byte) (lines [][]byte, tail []byte) {
	for {
		i := bytes.IndexByte(stream, delim)
		if i < 0 {
			return lines, stream
		}
		lines = append(lines, stream[:i+1])
		stream = stream[i+1:]
	}
}

func diffBytes(got, exp []byte) string {
	i := 0
	for i < len(got) && i < len(exp) && got[i] == exp[i] {
		i++
	}
	lo := i - 10
	if lo < 0 {
		lo = 0
	}
	cut := func(b []byte) []byte {
		if lo > len(b) {
			return nil
		}
		b = b[lo:]
		if len(b) > 40 {
			b = b[:40]
		}
		return b
	}
	return fmt.Sprintf("lengths %d (got) vs %d (expected), first difference at %d: %q vs %q", len(got), len(exp), i, cut(got), cut(exp))
}

const ruleL01 = "random streams of lines with lengths around the 2048/4096 byte buffers, random delimiter and tail, cut into random reads with empty reads and data+error results; non-trivial: at least two lines or a tail, and more than one read"

func TestL01_Framing(t *testing.T) {
	check(t, 4000, ruleL01, func(c *C) {
		delim := rapid.SampledFrom(delims).Draw(c.T, "delim")
		var stream []byte
		n := rapid.IntRange(0, 6).Draw(c.T, "lines")
		for i := 0; i < n; i++ {
			stream = append(stream, drawLine(c.T, delim, 32768)...)
		}
		if rapid.Bool().Draw(c.T, "tail") {
			l := drawLine(c.T, delim, 32768)
			stream = append(stream, l[:len(l)-1]...)
		}
		runFraming(c, stream, delim)
	})
}

// TestL01_Bytes uses raw random bytes over a tiny alphabet, so that delimiters are everywhere.
func TestL01_Bytes(t *testing.T) {
	check(t, 4000, ruleL01, func(c *C) {
		delim := rapid.SampledFrom(delims).Draw(c.T, "delim")
		alphabet := []byte{delim, 'a', '\r', '\n', '|', '$', 0}
		stream := rapid.SliceOfN(rapid.SampledFrom(alphabet), 0, 60).Draw(c.T, "stream")
		runFraming(c, stream, delim)
	})
}

func runFraming(c *C, stream []byte, delim byte) {
	src := drawReader(c.T, stream)
	lines, tail := splitLines(stream, delim)
	c.Key("delim=%q chunks=%v err=%v lines=", delim, src, src.err)
	for _, l := range lines {
		c.Key("%d:%x,", len(l), l[0])
	}
	c.Key(" tail=%d", len(tail))
	if len(stream) < 100 {
		c.Key(" stream=%q", stream)
	}
	c.NonTrivial((len(lines) >= 2 || len(tail) > 0) && src.plan[0] < len(stream))
	if len(tail) > 0 {
		c.Label("partial tail")
	}

	r := lineproto.NewReader(src, delim)
	for i, exp := range lines {
		got, err := r.ReadLine()
		if err != nil {
			c.Fatalf("line %d of %d: unexpected error: %v", i, len(lines), err)
		}
		if !bytes.Equal(got, exp) {
			c.Fatalf("line %d is wrong: %s", i, diffBytes(got, exp))
		}
	}
	for i := 0; i < 2; i++ {
		got, err := r.ReadLine()
		if err == nil {
			c.Fatalf("after the last complete line: got line %q without an error", clip(string(got), 100))
		}
		if i == 0 && !errors.Is(err, src.err) {
			c.Fatalf("the transport failed with %q, but the reader reported %q", src.err, err)
		}
	}
	if err := r.Close(); err != nil {
		c.Fatalf("close: %v", err)
	}
	if _, err := r.ReadLine(); err == nil {
		c.Fatalf("reading from a closed reader succeeded")
	}
}

type hookCall struct {
	hook int
	line string
}

var errHook = errors.New("hook failed")

func TestL01_Hooks(t *testing.T) {
	check(t, 2500, "random lines read through up to four hooks that each pass, drop or fail individual lines; non-trivial: at least one line dropped or failed and one delivered", func(c *C) {
		delim := rapid.SampledFrom(delims).Draw(c.T, "delim")
		nl := rapid.IntRange(1, 8).Draw(c.T, "lines")
		nh := rapid.IntRange(0, 4).Draw(c.T, "hooks")
		var stream []byte
		// decisions[line][hook]: 0 pass, 1 drop, 2 fail
		var decisions [][]int
		for i := 0; i < nl; i++ {
			stream = append(stream, drawLine(c.T, delim, 5000)...)
			decisions = append(decisions, rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2}), nh, nh).Draw(c.T, "decisions"))
		}
		lines, _ := splitLines(stream, delim)
		src := drawReader(c.T, stream)
		c.Key("delim=%q chunks=%v decisions=%v lens=", delim, src, decisions)
		for _, l := range lines {
			c.Key("%d,", len(l))
		}

		r := lineproto.NewReader(src, delim)
		var got, exp []hookCall
		cur := 0 // line that is being read, advanced by the first hook
		for h := 0; h < nh; h++ {
			h := h
			r.OnLine(func(line []byte) (bool, error) {
				got = append(got, hookCall{h, string(line)})
				if h == 0 {
					cur++
				}
				if cur == 0 || cur > nl {
					return true, nil // reported below
				}
				switch decisions[cur-1][h] {
				case 1:
					return false, nil
				case 2:
					return true, errHook
				}
				return true, nil
			})
		}
		type result struct {
			line string
			err  error
		}
		var results []result
		delivered, stopped := 0, 0
		for i, l := range lines {
			out := 0
			for h := 0; h < nh; h++ {
				exp = append(exp, hookCall{h, string(l)})
				if out = decisions[i][h]; out != 0 {
					break
				}
			}
			switch out {
			case 0:
				delivered++
				results = append(results, result{line: string(l)})
			case 2:
				results = append(results, result{err: errHook})
				stopped++
			default:
				stopped++
			}
		}
		c.NonTrivial(delivered > 0 && stopped > 0)
		for i, e := range results {
			line, err := r.ReadLine()
			if e.err != nil {
				if !errors.Is(err, e.err) {
					c.Fatalf("read %d: expected the hook error, got %v", i, err)
				}
				continue
			}
			if err != nil {
				c.Fatalf("read %d: unexpected error %v", i, err)
			}
			if string(line) != e.line {
				c.Fatalf("read %d: wrong line: %s", i, diffBytes(line, []byte(e.line)))
			}
		}
		if line, err := r.ReadLine(); err == nil {
			c.Fatalf("unexpected extra line %q", clip(string(line), 100))
		}
		if len(got) != len(exp) {
			c.Fatalf("hooks were called %d times, expected %d", len(got), len(exp))
		}
		for i := range got {
			if got[i] != exp[i] {
				c.Fatalf("hook call %d: hook %d with %s; expected hook %d", i, got[i].hook, diffBytes([]byte(got[i].line), []byte(exp[i].line)), exp[i].hook)
			}
		}
	})
}

// ---------------------------------------------------------------- L02

const ruleL02 = "random limits (small, around the 2048/4096 byte buffers, default, none), lines of lengths around the limit, random fragmentation, plain or compressed; non-trivial: a line within 3 bytes of the limit"

func TestL02_Limit(t *testing.T) {
	check(t, 4000, ruleL02, func(c *C) {
		delim := byte('|')
		limit, set := 0, true
		switch rapid.IntRange(0, 7).Draw(c.T, "limit-kind") {
		case 0:
			limit = rapid.IntRange(1, 20).Draw(c.T, "limit")
		case 1, 2:
			limit = rapid.SampledFrom([]int{2048, 4096, 6144}).Draw(c.T, "base") + rapid.IntRange(-4, 4).Draw(c.T, "delta")
		case 3:
			limit = rapid.IntRange(1, 9000).Draw(c.T, "limit")
		case 4:
			limit = rapid.SampledFrom([]int{0, -1, -100}).Draw(c.T, "limit")
		case 5:
			limit, set = 32768, false // the default
		case 6:
			limit = rapid.IntRange(20, 300).Draw(c.T, "limit")
		case 7:
			limit = rapid.IntRange(30000, 70000).Draw(c.T, "limit")
		}
		var lens []int
		n := rapid.IntRange(1, 5).Draw(c.T, "lines")
		near, changed := false, false
		limits := make([]int, 0, n)
		for i := 0; i < n; i++ {
			if i > 0 && rapid.IntRange(0, 2).Draw(c.T, "change-limit") == 0 {
				limit = rapid.OneOf(rapid.IntRange(-1, 30), rapid.IntRange(1, 9000), rapid.Just(2048), rapid.IntRange(30000, 50000)).Draw(c.T, "new-limit")
				changed = true
			}
			limits = append(limits, limit)
			var l int
			if limit <= 0 {
				l = around(c.T, "len", 2048, 32768, 65536) + 1
			} else {
				switch rapid.IntRange(0, 4).Draw(c.T, "len-kind") {
				case 0, 1, 2:
					l = limit + rapid.IntRange(-3, 3).Draw(c.T, "delta")
					near = true
				case 3:
					l = rapid.IntRange(1, limit).Draw(c.T, "len")
				case 4:
					l = limit + rapid.SampledFrom([]int{1, 10, 2047, 2048, 2049, 5000}).Draw(c.T, "over")
				}
				if l < 1 {
					l = 1
				}
			}
			lens = append(lens, l)
		}
		var stream []byte
		for i, l := range lens {
			stream = append(stream, pattern(l-1, byte(i), delim)...)
			stream = append(stream, delim)
		}
		compressed := rapid.IntRange(0, 3).Draw(c.T, "compressed") == 0
		wire := stream
		if compressed {
			var buf bytes.Buffer
			zw := zlib.NewWriter(&buf)
			_, _ = zw.Write(stream)
			_ = zw.Close()
			wire = buf.Bytes()
		}
		src := drawEOFReader(c.T, wire)
		c.Key("limits=%v set=%v lens=%v zlib=%v chunks=%v", limits, set, lens, compressed, src)
		c.NonTrivial(near)
		r := lineproto.NewReader(src, delim)
		if set {
			r.SetMaxLine(limits[0])
		}
		if changed {
			c.Label("limit changed between lines")
		}
		if compressed {
			if err := r.EnableZlib(); err != nil {
				c.Fatalf("cannot enable zlib: %v", err)
			}
		}
		lines, _ := splitLines(stream, delim)
		for i, l := range lines {
			limit := limits[i]
			if i > 0 && limit != limits[i-1] {
				r.SetMaxLine(limit)
			}
			got, err := r.ReadLine()
			if limit > 0 && len(l) > limit {
				c.Label("over")
				if err == nil {
					c.Fatalf("line %d of %d bytes was accepted (returned %d bytes) with a limit of %d", i, len(l), len(got), limit)
				}
				if err == io.EOF {
					c.Fatalf("line %d of %d bytes over the limit of %d reported as a regular end of stream", i, len(l), limit)
				}
				return
			}
			if err != nil {
				c.Fatalf("line %d of %d bytes was rejected with a limit of %d: %v", i, len(l), limit, err)
			}
			if !bytes.Equal(got, l) {
				c.Fatalf("line %d is wrong: %s", i, diffBytes(got, l))
			}
		}
		c.Label("all accepted")
	})
}

// endlessReader never sends a delimiter.
type endlessReader struct {
	plan     []int
	i        int
	consumed int
}

func (r *endlessReader) Read(p []byte) (int, error) {
	n := r.plan[r.i%len(r.plan)]
	r.i++
	if n > len(p) {
		n = len(p)
	}
	for i := range p[:n] {
		p[i] = 'a'
	}
	r.consumed += n
	if r.consumed > 1<<20 {
		panic("the reader consumed more than 1 MiB of a line that exceeds its limit")
	}
	return n, nil
}

func TestL02_Endless(t *testing.T) {
	check(t, 1000, "an endless stream without a delimiter, random limit, fragmentation and preceding lines; non-trivial: all", func(c *C) {
		limit := rapid.OneOf(rapid.IntRange(1, 100), rapid.IntRange(1, 70000), rapid.SampledFrom([]int{2047, 2048, 2049, 32768})).Draw(c.T, "limit")
		def := rapid.IntRange(0, 4).Draw(c.T, "default") == 0
		src := &endlessReader{plan: drawPlan(c.T, "chunks")}
		r := lineproto.NewReader(src, '|')
		if def {
			limit = 32768
		} else {
			r.SetMaxLine(limit)
		}
		c.Key("limit=%d default=%v chunks=%v", limit, def, src.plan)
		c.NonTrivial(true)
		line, err := r.ReadLine()
		if err == nil {
			c.Fatalf("got a line of %d bytes out of a stream without delimiters", len(line))
		}
		if src.consumed > limit+16384 {
			c.Fatalf("consumed %d bytes with a limit of %d", src.consumed, limit)
		}
	})
}

func TestL02_Bomb(t *testing.T) {
	var buf bytes.Buffer
	zw := zlib.NewWriter(&buf)
	block := bytes.Repeat([]byte{'a'}, 1<<16)
	for i := 0; i < 512; i++ {
		_, _ = zw.Write(block)
	}
	_ = zw.Close()
	bomb := buf.Bytes()
	check(t, 60, "a compressed section that inflates to 32 MiB without a delimiter; random limit and fragmentation; non-trivial: all", func(c *C) {
		limit := rapid.OneOf(rapid.IntRange(1, 100), rapid.IntRange(1, 40000)).Draw(c.T, "limit")
		src := drawEOFReader(c.T, bomb)
		c.Key("limit=%d chunks=%v", limit, src)
		c.NonTrivial(true)
		r := lineproto.NewReader(src, '|')
		r.SetMaxLine(limit)
		if err := r.EnableZlib(); err != nil {
			c.Fatalf("zlib: %v", err)
		}
		if line, err := r.ReadLine(); err == nil {
			c.Fatalf("got a line of %d bytes", len(line))
		}
		if src.consumed > 16384 {
			c.Fatalf("consumed %d of %d compressed bytes with a limit of %d", src.consumed, len(bomb), limit)
		}
	})
}

// ---------------------------------------------------------------- L04, L05

// item is one unit of a section: a line or a run of binary bytes.
type item struct {
	bin  bool
	data []byte
}

func drawItems(t *rapid.T, delim byte, bound int) []item {
	var out []item
	n := rapid.IntRange(0, bound).Draw(t, "items")
	for i := 0; i < n; i++ {
		if rapid.IntRange(0, 3).Draw(t, "bin") == 0 {
			sz := around(t, "size", 2048, 4096)
			out = append(out, item{bin: true, data: pattern(sz, rapid.Byte().Draw(t, "fill"))})
		} else {
			out = append(out, item{data: drawLine(t, delim, 6000)})
		}
	}
	return out
}

const zonLine = "$ZOn|"

// readItem reads one item through the drawn method and compares it.
func readItem(c *C, r *lineproto.Reader, it item, where string) {
	if !it.bin {
		got, err := r.ReadLine()
		if err != nil {
			c.Fatalf("%s: expected a line of %d bytes, got error %v", where, len(it.data), err)
		}
		if !bytes.Equal(got, it.data) {
			c.Fatalf("%s: wrong line: %s", where, diffBytes(got, it.data))
		}
		return
	}
	if rapid.Bool().Draw(c.T, "useBinary") {
		rc, err := r.Binary(uint64(len(it.data)))
		if err != nil {
			c.Fatalf("%s: binary: %v", where, err)
		}
		stop := len(it.data)
		if rapid.Bool().Draw(c.T, "partial") {
			stop = rapid.IntRange(0, len(it.data)).Draw(c.T, "readUpTo")
		}
		got := readSizes(c, rc, stop, where)
		if !bytes.Equal(got, it.data[:len(got)]) {
			c.Fatalf("%s: wrong binary data: %s", where, diffBytes(got, it.data[:len(got)]))
		}
		if len(got) < stop {
			c.Fatalf("%s: binary data is too short: %d of %d", where, len(got), stop)
		}
		if err := rc.Close(); err != nil {
			c.Fatalf("%s: close: %v", where, err)
		}
		return
	}
	got := readSizes(c, r, len(it.data), where)
	if !bytes.Equal(got, it.data) {
		c.Fatalf("%s: wrong bytes: %s", where, diffBytes(got, it.data))
	}
}

// readSizes reads n bytes with drawn buffer sizes, never asking for more than n in total.
func readSizes(c *C, r io.Reader, n int, where string) []byte {
	var out []byte
	size := rapid.SampledFrom([]int{1 << 20, 1, 7, 2048, 5000}).Draw(c.T, "bufSize")
	if n > 200 && size == 1 {
		size = 97
	}
	empty := 0
	for len(out) < n {
		k := size
		if k > n-len(out) {
			k = n - len(out)
		}
		buf := make([]byte, k)
		m, err := r.Read(buf)
		if m < 0 || m > k {
			c.Fatalf("%s: read returned %d for a buffer of %d", where, m, k)
		}
		out = append(out, buf[:m]...)
		if err != nil {
			if err == io.EOF && len(out) == n {
				break
			}
			c.Fatalf("%s: read failed after %d of %d bytes: %v", where, len(out), n, err)
		}
		if m == 0 {
			if empty++; empty > 10000 {
				c.Fatalf("%s: read returns no data forever", where)
			}
		} else {
			empty = 0
		}
	}
	return out
}

type section struct {
	zlib  bool
	level int
	items []item
}

// buildWire produces the wire form of the sections, either with the writer under test or with
// the standard library.
func buildWire(c *C, secs []section, flushes bool) []byte {
	var wire bytes.Buffer
	if rapid.Bool().Draw(c.T, "libraryWriter") {
		c.Label("library writer")
		w := lineproto.NewWriterSize(&wire, rapid.SampledFrom([]int{0, 16, 100, 4096}).Draw(c.T, "wbuf"))
		must := func(err error) {
			if err != nil {
				c.Fatalf("writer: %v", err)
			}
		}
		for _, s := range secs {
			if s.zlib {
				must(w.EnableZlibLevel(s.level))
			}
			for _, it := range s.items {
				if it.bin {
					n, err := w.Write(it.data)
					must(err)
					if n != len(it.data) {
						c.Fatalf("short write: %d of %d", n, len(it.data))
					}
				} else {
					must(w.WriteLine(it.data))
				}
				if flushes && rapid.IntRange(0, 3).Draw(c.T, "flush") == 0 {
					must(w.Flush())
				}
			}
			if s.zlib {
				must(w.DisableZlib())
			}
		}
		must(w.Flush())
		return wire.Bytes()
	}
	c.Label("stdlib writer")
	for _, s := range secs {
		if !s.zlib {
			for _, it := range s.items {
				wire.Write(it.data)
			}
			continue
		}
		zw, err := zlib.NewWriterLevel(&wire, s.level)
		if err != nil {
			panic(err)
		}
		for _, it := range s.items {
			_, _ = zw.Write(it.data)
			if flushes && rapid.IntRange(0, 3).Draw(c.T, "flush") == 0 {
				_ = zw.Flush()
			}
		}
		_ = zw.Close()
	}
	return wire.Bytes()
}

func drawLevel(t *rapid.T) int {
	return rapid.SampledFrom([]int{-1, 0, 1, 9, -2, 5}).Draw(t, "level")
}

func describe(secs []section) string {
	var b bytes.Buffer
	for _, s := range secs {
		if s.zlib {
			fmt.Fprintf(&b, "Z%d[", s.level)
		} else {
			b.WriteString("P[")
		}
		for _, it := range s.items {
			if it.bin {
				fmt.Fprintf(&b, "b%d ", len(it.data))
			} else {
				fmt.Fprintf(&b, "l%d ", len(it.data))
			}
		}
		b.WriteString("]")
	}
	return b.String()
}

func TestL04_Switch(t *testing.T) {
	check(t, 2500, "alternating plain and compressed sections of lines and binary runs, written by the library or by compress/zlib, read back through lines, Read and Binary with random fragmentation; non-trivial: at least one compressed section followed by plain data", func(c *C) {
		const delim = '|'
		n := rapid.IntRange(1, 4).Draw(c.T, "sections")
		var secs []section
		for i := 0; i < n; i++ {
			p := section{items: drawItems(c.T, delim, 2)}
			p.items = append(p.items, item{data: []byte(zonLine)})
			secs = append(secs, p, section{zlib: true, level: drawLevel(c.T), items: drawItems(c.T, delim, 4)})
		}
		tail := section{items: append(drawItems(c.T, delim, 2), item{data: []byte("end|")})}
		secs = append(secs, tail)
		wire := buildWire(c, secs, true)
		src := drawEOFReader(c.T, wire)
		c.Key("%s chunks=%v", describe(secs), src)
		c.NonTrivial(true)
		r := lineproto.NewReader(src, delim)
		for i, s := range secs {
			if s.zlib {
				if err := r.EnableZlib(); err != nil {
					c.Fatalf("section %d: enable zlib: %v", i, err)
				}
				if rapid.IntRange(0, 5).Draw(c.T, "again") == 0 {
					if err := r.EnableZlib(); err == nil {
						c.Fatalf("section %d: enabling zlib twice succeeded", i)
					}
					c.Label("enabled twice")
				}
			}
			for j, it := range s.items {
				readItem(c, r, it, fmt.Sprintf("section %d (zlib=%v) item %d", i, s.zlib, j))
			}
			if len(s.items) == 0 {
				c.Label("empty compressed section")
			}
		}
		if line, err := r.ReadLine(); err != io.EOF {
			c.Fatalf("expected the end of the stream, got %q, %v", clip(string(line), 100), err)
		}
	})
}

// TestL04_Span reads lines and byte runs that cross the ends of compressed sections.
func TestL04_Span(t *testing.T) {
	check(t, 2000, "one byte stream of lines cut at random places into compressed and plain pieces, each compressed piece ending where a plain one begins; non-trivial: a line crosses the end of a compressed section", func(c *C) {
		const delim = '|'
		var head, rest []byte
		head = []byte(zonLine)
		n := rapid.IntRange(1, 6).Draw(c.T, "lines")
		for i := 0; i < n; i++ {
			rest = append(rest, drawLine(c.T, delim, 6000)...)
		}
		cut := rapid.IntRange(0, len(rest)).Draw(c.T, "cut")
		level := drawLevel(c.T)
		var wire bytes.Buffer
		wire.Write(head)
		zw, _ := zlib.NewWriterLevel(&wire, level)
		_, _ = zw.Write(rest[:cut])
		_ = zw.Close()
		wire.Write(rest[cut:])
		src := drawEOFReader(c.T, wire.Bytes())
		lines, _ := splitLines(rest, delim)
		c.Key("cut=%d level=%d chunks=%v lens=", cut, level, src)
		pos, cross := 0, false
		for _, l := range lines {
			c.Key("%d,", len(l))
			if pos < cut && cut < pos+len(l) {
				cross = true
			}
			pos += len(l)
		}
		c.NonTrivial(cross)
		r := lineproto.NewReader(src, delim)
		if l, err := r.ReadLine(); err != nil || string(l) != zonLine {
			c.Fatalf("announcement: %q, %v", l, err)
		}
		if err := r.EnableZlib(); err != nil {
			c.Fatalf("enable: %v", err)
		}
		if rapid.Bool().Draw(c.T, "asBytes") {
			got := readSizes(c, r, len(rest), "bytes")
			if !bytes.Equal(got, rest) {
				c.Fatalf("wrong bytes: %s", diffBytes(got, rest))
			}
		} else {
			for i, l := range lines {
				got, err := r.ReadLine()
				if err != nil {
					c.Fatalf("line %d: %v", i, err)
				}
				if !bytes.Equal(got, l) {
					c.Fatalf("line %d: %s", i, diffBytes(got, l))
				}
			}
		}
		if line, err := r.ReadLine(); err != io.EOF {
			c.Fatalf("expected the end of the stream, got %q, %v", clip(string(line), 100), err)
		}
	})
}

func TestL04_Garbage(t *testing.T) {
	check(t, 1500, "decompression enabled in front of bytes that are not a zlib header, or of a truncated stream; non-trivial: all", func(c *C) {
		var hdr []byte
		if rapid.IntRange(0, 3).Draw(c.T, "truncated") == 0 {
			hdr = []byte{0x78}[:rapid.IntRange(0, 1).Draw(c.T, "n")]
		} else {
			b0, b1 := rapid.Byte().Draw(c.T, "b0"), rapid.Byte().Draw(c.T, "b1")
			if (uint(b0)<<8|uint(b1))%31 == 0 {
				b1++ // wrong check bits
			}
			hdr = append([]byte{b0, b1}, pattern(rapid.IntRange(0, 50).Draw(c.T, "more"), 3)...)
		}
		src := drawEOFReader(c.T, append([]byte(zonLine), hdr...))
		second := rapid.Bool().Draw(c.T, "second")
		c.Key("hdr=%x second=%v chunks=%v", hdr, second, src)
		c.NonTrivial(true)
		if second {
			// an earlier section was fine
			var wire bytes.Buffer
			zw := zlib.NewWriter(&wire)
			_, _ = zw.Write([]byte("abc|"))
			_ = zw.Close()
			wire.WriteString(zonLine)
			wire.Write(hdr)
			src.data = wire.Bytes()
		}
		r := lineproto.NewReader(src, '|')
		if second {
			if err := r.EnableZlib(); err != nil {
				c.Fatalf("enable: %v", err)
			}
			if l, err := r.ReadLine(); err != nil || string(l) != "abc|" {
				c.Fatalf("line: %q, %v", l, err)
			}
		}
		if l, err := r.ReadLine(); err != nil || string(l) != zonLine {
			c.Fatalf("announcement: %q, %v", l, err)
		}
		var err error
		if perr := guard(func() { err = r.EnableZlib() }); perr != nil {
			c.Fatalf("enabling zlib on %x: %v", hdr, perr)
		}
		if err == nil {
			c.Fatalf("zlib was enabled on data that is not a compressed section: %x", hdr)
		}
		if perr := guard(func() { _, _ = r.ReadLine(); _ = r.Close() }); perr != nil {
			c.Fatalf("after a failed switch: %v", perr)
		}
	})
}

// TestL04_Broken cuts a compressed section off at any point, or breaks its checksum: what is
// delivered is a part of the data, and the damage is reported instead of a regular end.
func TestL04_Broken(t *testing.T) {
	check(t, 2000, "a compressed section that is cut off by the end of the connection, or whose checksum is wrong, read as lines or as bytes; non-trivial: the section has data", func(c *C) {
		const delim = '|'
		var data []byte
		for n := rapid.IntRange(0, 6).Draw(c.T, "lines"); n > 0; n-- {
			data = append(data, drawLine(c.T, delim, 6000)...)
		}
		level := drawLevel(c.T)
		var z bytes.Buffer
		zw, _ := zlib.NewWriterLevel(&z, level)
		for rest := data; len(rest) > 0; {
			k := 1 + pick(c.T, "piece", len(rest))
			_, _ = zw.Write(rest[:k])
			if rest = rest[k:]; rapid.Bool().Draw(c.T, "flush") {
				_ = zw.Flush()
			}
		}
		_ = zw.Close()
		sec := z.Bytes()
		how := "cut"
		tail := ""
		switch pick(c.T, "how", 4) {
		case 0:
			how = "checksum"
			sec[len(sec)-1-pick(c.T, "byte", 4)] ^= byte(1 + pick(c.T, "bits", 255))
			tail = "tail|"
		case 1: // around the end of the section
			sec = sec[:len(sec)-1-pick(c.T, "off", min(8, len(sec)-2))]
		default:
			sec = sec[:2+pick(c.T, "len", len(sec)-2)]
		}
		src := drawEOFReader(c.T, append(append([]byte(zonLine), sec...), tail...))
		asBytes := rapid.Bool().Draw(c.T, "asBytes")
		c.Key("%s %d of %d bytes at level %d, chunks=%v bytes=%v", how, len(sec), z.Len(), level, src, asBytes)
		c.Label("%s", how)
		c.NonTrivial(len(data) > 0)
		r := lineproto.NewReader(src, delim)
		if l, err := r.ReadLine(); err != nil || string(l) != zonLine {
			c.Fatalf("announcement: %q, %v", l, err)
		}
		if err := r.EnableZlib(); err != nil {
			c.Fatalf("enable: %v", err)
		}
		var got []byte
		for {
			var part []byte
			var err error
			if asBytes {
				buf := make([]byte, 1+pick(c.T, "size", 5000))
				var n int
				n, err = r.Read(buf)
				part = buf[:n]
			} else {
				part, err = r.ReadLine()
			}
			got = append(got, part...)
			if !bytes.HasPrefix(data, got) {
				c.Fatalf("delivered something that was not sent: %s", diffBytes(got, data))
			}
			if err == io.EOF {
				c.Fatalf("a broken section (%s) looks like the end of the connection after %d of %d bytes", how, len(got), len(data))
			}
			if err != nil {
				break
			}
		}
		for i := 0; i < 2; i++ {
			if l, err := r.ReadLine(); err == nil || len(l) != 0 {
				c.Fatalf("%q is delivered after the section broke (%v)", l, err)
			}
		}
	})
}

func TestL05_Binary(t *testing.T) {
	check(t, 3000, "lines and binary sections with lengths around the buffer sizes, partially or fully read with random buffer sizes, closed, followed by more lines; plain, compressed, or crossing the end of a compressed section; non-trivial: at least one non-empty section and a following line", func(c *C) {
		const delim = '|'
		var items []item
		n := rapid.IntRange(1, 4).Draw(c.T, "n")
		nonEmpty := false
		for i := 0; i < n; i++ {
			sz := around(c.T, "size", 2048, 4096, 2040)
			if sz > 0 {
				nonEmpty = true
			}
			items = append(items, item{bin: true, data: pattern(sz, rapid.Byte().Draw(c.T, "fill"))})
			if rapid.IntRange(0, 4).Draw(c.T, "line") != 0 {
				items = append(items, item{data: drawLine(c.T, delim, 3000)})
			}
		}
		items = append(items, item{data: []byte("end|")})
		var all []byte
		for _, it := range items {
			all = append(all, it.data...)
		}
		mode := rapid.IntRange(0, 2).Draw(c.T, "mode")
		wire := all
		cut := 0
		if mode > 0 {
			cut = len(all)
			if mode == 2 {
				cut = rapid.IntRange(0, len(all)).Draw(c.T, "cut")
			}
			var buf bytes.Buffer
			zw, _ := zlib.NewWriterLevel(&buf, drawLevel(c.T))
			_, _ = zw.Write(all[:cut])
			_ = zw.Close()
			buf.Write(all[cut:])
			wire = buf.Bytes()
		}
		src := drawEOFReader(c.T, wire)
		c.Key("%s mode=%d cut=%d chunks=%v", describe([]section{{items: items}}), mode, cut, src)
		c.NonTrivial(nonEmpty)
		c.Label("mode %d", mode)
		r := lineproto.NewReader(src, delim)
		if mode > 0 {
			if err := r.EnableZlib(); err != nil {
				c.Fatalf("enable: %v", err)
			}
		}
		for i, it := range items {
			where := fmt.Sprintf("item %d", i)
			if !it.bin {
				readItem(c, r, it, where)
				continue
			}
			rc, err := r.Binary(uint64(len(it.data)))
			if err != nil {
				c.Fatalf("%s: %v", where, err)
			}
			stop := len(it.data)
			if rapid.Bool().Draw(c.T, "partial") {
				stop = rapid.IntRange(0, len(it.data)).Draw(c.T, "readUpTo")
			}
			got := readSizes(c, rc, stop, where)
			if !bytes.Equal(got, it.data[:stop]) {
				c.Fatalf("%s: wrong data: %s", where, diffBytes(got, it.data[:stop]))
			}
			if stop == len(it.data) && rapid.Bool().Draw(c.T, "readPastEnd") {
				// the section must not yield anything more
				buf := make([]byte, 16)
				for k := 0; k < 3; k++ {
					m, err := rc.Read(buf)
					if m != 0 {
						c.Fatalf("%s: the section of %d bytes yielded %d bytes more: %q", where, len(it.data), m, buf[:m])
					}
					if err != nil && err != io.EOF {
						c.Fatalf("%s: reading past the end: %v", where, err)
					}
				}
				c.Label("read past end")
			}
			if err := rc.Close(); err != nil {
				c.Fatalf("%s: close: %v", where, err)
			}
		}
		if line, err := r.ReadLine(); err != io.EOF {
			c.Fatalf("expected the end of the stream, got %q, %v", clip(string(line), 100), err)
		}
	})
}

// TestL05_Oversized asks for a single large read: it must stop at the announced length.
func TestL05_Oversized(t *testing.T) {
	check(t, 2000, "a binary section read with io.ReadAll-like calls using buffers larger than the section, or announced longer than the stream; non-trivial: section followed by other bytes, or longer than the stream", func(c *C) {
		size := around(c.T, "size", 2048, 4096)
		after := around(c.T, "after", 2048)
		// lengths come from the peer as unsigned numbers
		extra := rapid.SampledFrom([]uint64{0, 0, 1, 100, 1 << 30, 1 << 32, 1<<63 - 5000, 1 << 63, math.MaxUint64 - 10000}).Draw(c.T, "announcedMore")
		data := append(pattern(size, 1), pattern(after, 9)...)
		if extra > 0 {
			data = data[:size]
			after = 0
		}
		src := drawEOFReader(c.T, append([]byte("go|"), data...))
		c.Key("size=%d after=%d extra=%d chunks=%v", size, after, extra, src)
		c.NonTrivial(after > 0 || extra > 0)
		r := lineproto.NewReader(src, '|')
		if l, err := r.ReadLine(); err != nil || string(l) != "go|" {
			c.Fatalf("line: %q, %v", l, err)
		}
		rc, err := r.Binary(uint64(size) + extra)
		if err != nil {
			c.Fatalf("binary: %v", err)
		}
		got, err := io.ReadAll(rc)
		if err != nil && !(extra > 0 && err == io.ErrUnexpectedEOF) {
			c.Fatalf("read: %v", err)
		}
		if !bytes.Equal(got, data[:size]) {
			c.Fatalf("wrong data: %s", diffBytes(got, data[:size]))
		}
		_ = rc.Close()
		rest, err := io.ReadAll(readerOnly{r})
		if err != nil {
			c.Fatalf("rest: %v", err)
		}
		if !bytes.Equal(rest, data[size:]) {
			c.Fatalf("wrong data after the section: %s", diffBytes(rest, data[size:]))
		}
	})
}

// TestL05_Broken: a connection that fails in the middle of a binary section.
func TestL05_Broken(t *testing.T) {
	check(t, 2000, "a connection that fails inside a binary section, which is read up to some point and closed; non-trivial: the section is closed before the failure was seen", func(c *C) {
		size := 1 + around(c.T, "size", 2048, 4096)
		have := rapid.IntRange(0, size-1).Draw(c.T, "arrives")
		stop := rapid.IntRange(0, have).Draw(c.T, "readUpTo")
		toEnd := rapid.IntRange(0, 2).Draw(c.T, "readToEnd") == 0
		z := rapid.IntRange(0, 3).Draw(c.T, "zlib") == 0
		data := pattern(size, 3)
		wire := append([]byte("go|"), data[:have]...)
		if z {
			var buf bytes.Buffer
			zw, _ := zlib.NewWriterLevel(&buf, drawLevel(c.T))
			_, _ = zw.Write(wire)
			_ = zw.Flush() // the section does not end
			wire = buf.Bytes()
		}
		src := &chunkReader{data: wire, plan: drawPlan(c.T, "chunks"), err: errInjected, withData: rapid.Bool().Draw(c.T, "errWithData")}
		c.Key("size=%d arrives=%d read=%d toEnd=%v zlib=%v chunks=%v", size, have, stop, toEnd, z, src)
		c.NonTrivial(!toEnd)
		r := lineproto.NewReader(src, '|')
		if z {
			if err := r.EnableZlib(); err != nil {
				if err == errInjected {
					c.Skip()
				}
				c.Fatalf("enable: %v", err)
			}
		}
		if l, err := r.ReadLine(); err != nil || string(l) != "go|" {
			if z && err != nil {
				c.Skip() // the error may overtake data that is still compressed
			}
			c.Fatalf("line: %q, %v", l, err)
		}
		rc, err := r.Binary(uint64(size))
		if err != nil {
			c.Fatalf("binary: %v", err)
		}
		if toEnd {
			got, err := io.ReadAll(readerOnly{rc})
			if !bytes.HasPrefix(data[:have], got) || !z && len(got) != have {
				c.Fatalf("%d bytes arrived, but reading gives %d: %s", have, len(got), diffBytes(got, data[:have]))
			}
			if !errors.Is(err, errInjected) {
				c.Fatalf("the connection failed after %d of %d bytes, but the section reports %v", have, size, err)
			}
		} else {
			got := make([]byte, stop)
			if n, err := io.ReadFull(rc, got); err != nil && (!z || !errors.Is(err, errInjected)) || !bytes.Equal(got[:n], data[:n]) {
				c.Fatalf("reading %d of %d bytes: %d, %v", stop, have, n, err)
			}
		}
		if err := rc.Close(); !errors.Is(err, errInjected) {
			c.Fatalf("closing a section of %d bytes of which %d arrived before the connection failed reports %v", size, have, err)
		}
		if l, err := r.ReadLine(); err == nil || err == io.EOF {
			c.Fatalf("the connection failed, but reading a line gives %q, %v", l, err)
		}
	})
}

// TestL05_Closed checks that a closed reader refuses everything.
func TestL05_Closed(t *testing.T) {
	check(t, 1500, "readers closed at a random point of a stream of lines, binary data and compressed sections (also with an open binary section), then used further; non-trivial: unread data was left", func(c *C) {
		lines := rapid.IntRange(0, 6).Draw(c.T, "lines")
		read := rapid.IntRange(0, lines).Draw(c.T, "read")
		z := rapid.Bool().Draw(c.T, "zlib")
		var plain []byte
		for i := 0; i < lines; i++ {
			plain = append(plain, fmt.Sprintf("line %d|", i)...)
		}
		plain = append(plain, pattern(3000, 1)...)
		wire := plain
		if z {
			var buf bytes.Buffer
			zw, _ := zlib.NewWriterLevel(&buf, drawLevel(c.T))
			_, _ = zw.Write(plain)
			_ = zw.Close()
			wire = append(buf.Bytes(), "more|lines|"...)
		}
		src := drawEOFReader(c.T, wire)
		bin := rapid.Bool().Draw(c.T, "openSection")
		ops := rapid.SliceOfN(rapid.IntRange(0, 6), 1, 8).Draw(c.T, "after")
		c.Key("lines=%d/%d zlib=%v section=%v ops=%v chunks=%v", read, lines, z, bin, ops, src)
		c.NonTrivial(true)
		r := lineproto.NewReader(src, '|')
		hooks := 0
		r.OnLine(func([]byte) (bool, error) { hooks++; return true, nil })
		if z {
			if err := r.EnableZlib(); err != nil {
				c.Fatalf("enable: %v", err)
			}
		}
		for i := 0; i < read; i++ {
			if _, err := r.ReadLine(); err != nil {
				c.Fatalf("line %d: %v", i, err)
			}
		}
		var rc io.ReadCloser
		if bin {
			var err error
			if rc, err = r.Binary(100); err != nil {
				c.Fatalf("binary: %v", err)
			}
		}
		if err := r.Close(); err != nil {
			c.Fatalf("close: %v", err)
		}
		before := hooks
		for i, op := range ops {
			perr := guard(func() {
				switch op {
				case 0, 1:
					if l, err := r.ReadLine(); err == nil {
						c.Fatalf("op %d: a closed reader returned the line %q", i, l)
					}
				case 2:
					if n, err := r.Read(make([]byte, 10)); err == nil || n != 0 {
						c.Fatalf("op %d: a closed reader returned %d bytes, %v", i, n, err)
					}
				case 3:
					if err := r.EnableZlib(); err == nil {
						c.Fatalf("op %d: a closed reader enabled compression", i)
					}
				case 4:
					if b, err := r.Binary(5); err == nil {
						if n, err := b.Read(make([]byte, 5)); err == nil || n != 0 {
							c.Fatalf("op %d: a section of a closed reader returned %d bytes, %v", i, n, err)
						}
					}
				case 5:
					if err := r.Close(); err != nil {
						c.Fatalf("op %d: closing again: %v", i, err)
					}
				case 6:
					if rc != nil {
						if n, err := rc.Read(make([]byte, 5)); err == nil || n != 0 {
							c.Fatalf("op %d: the open section of a closed reader returned %d bytes, %v", i, n, err)
						}
						_ = rc.Close()
					}
				}
			})
			if perr != nil {
				c.Fatalf("op %d (%d) on a closed reader: %v", i, op, perr)
			}
		}
		if hooks != before {
			c.Fatalf("a closed reader called its hooks")
		}
	})
}

type readerOnly struct{ io.Reader }
