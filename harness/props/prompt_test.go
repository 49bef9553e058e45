package props

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"testing"

	"pgregory.net/rapid"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"
)

// peer is a transport whose other side says no more than limit bytes before it gets an answer. A read at
// that point would wait for ever; here it is noted and the data is delivered all the same.
type peer struct {
	data   []byte
	off    int
	limit  int
	t      *rapid.T
	chunks []int
	calls  int
	stuck  string
	what   string
}

func (p *peer) Read(b []byte) (int, error) {
	if p.off >= p.limit && p.stuck == "" {
		p.stuck = fmt.Sprintf("%s is complete with byte %d, but a read waits for more data after %d bytes", p.what, p.limit, p.off)
	}
	if p.off == len(p.data) {
		return 0, io.EOF
	}
	n := p.chunks[p.calls%len(p.chunks)]
	p.calls++
	if n > len(b) {
		n = len(b)
	}
	if n > len(p.data)-p.off {
		n = len(p.data) - p.off
	}
	copy(b, p.data[p.off:p.off+n])
	p.off += n
	copy(b[n:], scratch)
	return n, nil
}

// prompt is a part of the stream: a line, bytes or a binary section, and the wire offset it is complete at.
type prompt struct {
	kind  string
	data  []byte
	start int // only in plain sections
	end   int
}

type promptSection struct {
	zlib  bool
	items []prompt
}

// drawPrompt draws the sections of a stream, alternately plain and compressed (if asked for). Everything in
// a compressed section is flushed. The line that announces compression is part of the plain section.
func drawPrompt(c *C, compressed bool, kinds []string) ([]promptSection, []byte) {
	var secs []promptSection
	var wire bytes.Buffer
	n := 1
	if compressed {
		n = rapid.IntRange(2, 5).Draw(c.T, "sections")
	}
	for i := 0; i < n; i++ {
		s := promptSection{zlib: i%2 == 1}
		var zw *zlib.Writer
		if s.zlib {
			zw, _ = zlib.NewWriterLevel(&wire, drawLevel(c.T))
		}
		cnt := rapid.IntRange(1, 5).Draw(c.T, "items")
		for k := 0; k < cnt; k++ {
			it := prompt{kind: rapid.SampledFrom(kinds).Draw(c.T, "kind"), start: wire.Len()}
			sz := rapid.SampledFrom([]int{0, 1, 5, 60, 500, 1023, 2047, 2048, 2049, 4095, 4096, 4097, 9000}).Draw(c.T, "size")
			if it.kind == "line" || k == cnt-1 {
				it.kind = "line" // the last one announces what comes next
				it.data = append(pattern(sz, byte(k*31+i), '|'), '|')
			} else {
				it.data = pattern(sz, byte(k*31+i))
			}
			if zw != nil {
				zw.Write(it.data)
				zw.Flush()
			} else {
				wire.Write(it.data)
			}
			it.end = wire.Len()
			s.items = append(s.items, it)
		}
		if zw != nil {
			zw.Close()
		}
		secs = append(secs, s)
	}
	return secs, wire.Bytes()
}

func runPrompt(c *C, secs []promptSection, wire []byte) {
	chunks := rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 10, 100, 1000, 2048, 4096, 100000, 0}), 1, 5).Draw(c.T, "chunks")
	chunks = append(chunks, 1+pick(c.T, "last", 5000))
	p := &peer{data: wire, t: c.T, chunks: chunks}
	r := lineproto.NewReader(p, '|')
	r.SetMaxLine(0)
	var desc []string
	total := 0
	for _, s := range secs {
		for _, it := range s.items {
			desc = append(desc, fmt.Sprintf("%v %s %d", s.zlib, it.kind, len(it.data)))
			total++
		}
	}
	c.Key("%v, chunks %v", desc, chunks)
	c.NonTrivial(total > 1)
	for i, s := range secs {
		if s.zlib {
			p.what = fmt.Sprintf("the start of the compressed section %d", i)
			p.limit = s.items[0].end
			if err := r.EnableZlib(); err != nil {
				c.Fatalf("section %d: %v", i, err)
			}
		}
		for k, it := range s.items {
			p.what = fmt.Sprintf("item %d of section %d (%s, %d bytes)", k, i, it.kind, len(it.data))
			p.limit = it.end
			var got []byte
			var err error
			// need sets what a read may wait for after n bytes of the item
			need := func(n int) {
				if s.zlib {
					p.limit = it.end
				} else {
					p.limit = it.start + n + 1
				}
			}
			switch it.kind {
			case "line":
				got, err = r.ReadLine()
			case "bytes":
				sz := 1 + pick(c.T, "read", 5000)
				for len(got) < len(it.data) && err == nil {
					if sz > len(it.data)-len(got) {
						sz = len(it.data) - len(got)
					}
					buf := make([]byte, sz)
					var n int
					need(len(got))
					n, err = r.Read(buf)
					got = append(got, buf[:n]...)
				}
			case "binary":
				rc, err2 := r.Binary(uint64(len(it.data)))
				if err2 != nil {
					c.Fatalf("%s: %v", p.what, err2)
				}
				upto := len(it.data) + 1
				if pick(c.T, "part", 3) == 0 {
					upto = pick(c.T, "upto", len(it.data)+1)
				}
				buf := make([]byte, 1+pick(c.T, "read", 5000))
				for len(got) < upto && err == nil {
					var n int
					need(len(got))
					if len(got) == len(it.data) {
						p.limit = 0 // nothing to wait for
					}
					n, err = rc.Read(buf)
					got = append(got, buf[:n]...)
				}
				if err == io.EOF {
					err = nil
				}
				if err == nil {
					p.limit = it.end
					if len(got) == len(it.data) {
						p.limit = 0
					}
					err = rc.Close()
				}
				if len(got) > len(it.data) || !bytes.Equal(got, it.data[:len(got)]) {
					c.Fatalf("%s: %s", p.what, diffBytes(got, it.data))
				}
				got = it.data
			}
			if p.stuck != "" {
				c.Fatalf("%s", p.stuck)
			}
			if err != nil || !bytes.Equal(got, it.data) {
				c.Fatalf("%s: %v, %s", p.what, err, diffBytes(got, it.data))
			}
		}
	}
}

// TestL01_Prompt: a line is returned as soon as it has arrived, without waiting for anything behind it.
func TestL01_Prompt(t *testing.T) {
	check(t, 600, "lines and byte reads from a peer that waits for an answer after each of them, cut into any chunks; non-trivial: two items", func(c *C) {
		secs, wire := drawPrompt(c, false, []string{"line", "line", "bytes"})
		runPrompt(c, secs, wire)
	})
}

// TestL04_Prompt: what was flushed is returned without waiting for more compressed or plain data.
func TestL04_Prompt(t *testing.T) {
	check(t, 400, "plain and compressed sections from a peer that flushes and waits for an answer after each line; non-trivial: two items", func(c *C) {
		secs, wire := drawPrompt(c, true, []string{"line", "line", "bytes"})
		runPrompt(c, secs, wire)
	})
}

// TestL05_Prompt: reading or closing a binary section needs no data behind the section.
func TestL05_Prompt(t *testing.T) {
	check(t, 600, "binary sections, read completely or in part, from a peer that waits for an answer after each of them; non-trivial: two items", func(c *C) {
		secs, wire := drawPrompt(c, rapid.Bool().Draw(c.T, "compressed"), []string{"line", "binary", "binary"})
		runPrompt(c, secs, wire)
	})
}

// promptMessages reads messages, one per line, each of which the peer has to see answered before the next.
func promptMessages(c *C, lines []string, delim byte, keep string, next func(p *peer) func() error) {
	chunks := rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 10, 100, 1000, 4096, 0}), 1, 5).Draw(c.T, "chunks")
	chunks = append(chunks, 1+pick(c.T, "last", 500))
	var wire []byte
	var ends []int
	n := rapid.IntRange(1, 12).Draw(c.T, "messages")
	for i := 0; i < n; i++ {
		for k := pick(c.T, "keep-alive", 3); k > 0; k-- {
			wire = append(wire, keep...)
		}
		wire = append(wire, rapid.SampledFrom(lines).Draw(c.T, "line")...)
		wire = append(wire, delim)
		ends = append(ends, len(wire))
	}
	c.Key("%q, chunks %v", clip(string(wire), 300), chunks)
	c.NonTrivial(n > 1)
	p := &peer{data: wire, t: c.T, chunks: chunks}
	read := next(p)
	for i, end := range ends {
		p.what, p.limit = fmt.Sprintf("message %d of %q", i, clip(string(wire), 300)), end
		if err := read(); err != nil {
			c.Fatalf("%s: %v", p.what, err)
		}
		if p.stuck != "" {
			c.Fatalf("%s", p.stuck)
		}
	}
}

// TestN05_Prompt: a message is returned, whatever its kind, before any data behind it has arrived.
func TestN05_Prompt(t *testing.T) {
	lines := []string{"$Hello a", "$ZOn", "$HubName x", "<a> text", "text", "$Other a b", "$Lock abc Pk=x", "$GetNickList", "$Supports A B", "$Search Hub:a F?T?0?1?x"}
	check(t, 300, "NMDC messages and keep-alives from a peer that waits for an answer after each message; non-trivial: two messages", func(c *C) {
		promptMessages(c, lines, '|', "|", func(p *peer) func() error {
			r := nmdc.NewReader(p)
			return func() error {
				_, err := r.ReadMsg()
				return err
			}
		})
	})
}

// TestA07_Prompt: a packet is returned before any data behind it has arrived.
func TestA07_Prompt(t *testing.T) {
	lines := []string{"ISTA 000 ok", "BINF AAAA NIa", "HSUP ADBASE", "BMSG AAAA x", "DCTM AAAB AAAA ADC/1.0 1 x", "FSCH AAAA +TCP4 ANx", "CSTA 000", "IZZZ a b"}
	check(t, 300, "ADC packets and keep-alives from a peer that waits for an answer after each packet; non-trivial: two packets", func(c *C) {
		raw := rapid.Bool().Draw(c.T, "raw")
		promptMessages(c, lines, '\n', "\n", func(p *peer) func() error {
			r := adc.NewReader(p)
			return func() error {
				var err error
				if raw {
					_, err = r.ReadPacketRaw()
				} else {
					_, err = r.ReadPacket()
				}
				return err
			}
		})
	})
}
