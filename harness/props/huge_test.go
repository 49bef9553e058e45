package props

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/lineproto"
	"pgregory.net/rapid"
)

// zeroReader yields n bytes that nobody has to produce, and then the tail.
type zeroReader struct {
	n    uint64
	tail io.Reader
}

func (r *zeroReader) Read(p []byte) (int, error) {
	if r.n == 0 {
		return r.tail.Read(p)
	}
	if uint64(len(p)) > r.n {
		p = p[:r.n]
	}
	r.n -= uint64(len(p))
	return len(p), nil
}

// TestL05_Huge: binary sections longer than 2 and 4 GiB, which are closed before they are read to the end.
func TestL05_Huge(t *testing.T) {
	check(t, 16, "a binary section around 2^31 to 2^34 bytes, of which some is read before it is closed, between lines; non-trivial: more than 2^31 bytes are left at the close", func(c *C) {
		size := uint64(1)<<rapid.IntRange(30, 34).Draw(c.T, "log") + uint64(rapid.IntRange(0, 2000).Draw(c.T, "more"))
		if rapid.Bool().Draw(c.T, "less") {
			size -= 1001
		}
		part := rapid.SampledFrom([]int{0, 1, 5000, 1 << 20}).Draw(c.T, "part")
		c.Key("%d bytes, %d read", size, part)
		c.NonTrivial(size-uint64(part) > 1<<31)
		r := lineproto.NewReader(io.MultiReader(strings.NewReader("first|"), &zeroReader{size, strings.NewReader("second|third|")}), '|')
		if line, err := r.ReadLine(); err != nil || string(line) != "first|" {
			c.Fatalf("the line before: %q %v", line, err)
		}
		rc, err := r.Binary(size)
		if err != nil {
			c.Fatalf("%d bytes: %v", size, err)
		}
		got := make([]byte, part)
		if n, err := io.ReadFull(rc, got); err != nil || !bytes.Equal(got, make([]byte, part)) {
			c.Fatalf("read %d of %d bytes: %v", n, part, err)
		}
		if err := rc.Close(); err != nil {
			c.Fatalf("closing with %d of %d bytes read: %v", part, size, err)
		}
		for _, want := range []string{"second|", "third|"} {
			if line, err := r.ReadLine(); err != nil || string(line) != want {
				c.Fatalf("after a section of %d bytes: %q %v, want %q", size, clip(string(line), 50), err, want)
			}
		}
	})
}

// TestA07_Large: large packets, of all types and through streams, among small ones.
func TestA07_Large(t *testing.T) {
	check(t, 120, "up to six packets of all types of 0 to 300 KiB, as such and through streams; non-trivial: a packet of more than 32 KiB that is not the last", func(c *C) {
		var out bytes.Buffer
		w := adc.NewWriterSize(&out, rapid.SampledFrom([]int{0, 16, 4096, 1 << 17}).Draw(c.T, "buf"))
		z := rapid.IntRange(0, 3).Draw(c.T, "zlib") == 0
		if z {
			if err := w.EnableZlibLevel(1); err != nil {
				c.Fatalf("enable: %v", err)
			}
		}
		var wire strings.Builder
		var refs []refPacket
		var texts []string
		n := rapid.IntRange(2, 6).Draw(c.T, "n")
		for i := 0; i < n; i++ {
			size := rapid.SampledFrom([]int{0, 10, 5000, 1<<15 - 20, 1 << 15, 1<<16 - 20, 1 << 16, 300 << 10}).Draw(c.T, "size") + pick(c.T, "delta", 30)
			c.NonTrivial(size > 1<<15 && i < n-1)
			ref := drawRefPacket(c.T)
			text := string(pattern(size, byte(i), '\n', ' ', '\\'))
			text = fmt.Sprintf("%d:%s", i, strings.ToValidUTF8(text, "?"))
			text = strings.Replace(text, "\x00", "0", -1)
			m := adc.ChatMessage{Text: text}
			var err error
			how := pick(c.T, "how", 3)
			switch {
			case how == 0 && ref.kind == 'B':
				err = w.BroadcastStream(ref.id).WriteMessage(m)
			case how == 0 && ref.kind == 'F':
				err = w.FeatureStream(ref.id, ref.sel).WriteMessage(m)
			case how == 0 && ref.kind == 'I':
				err = w.WriteInfo(m)
			default:
				err = w.WritePacket(ref.build(m))
			}
			if err != nil {
				c.Fatalf("packet %d of size %d: %v", i, size, err)
			}
			if rapid.IntRange(0, 2).Draw(c.T, "flush") == 0 {
				if err := w.Flush(); err != nil {
					c.Fatalf("flush after packet %d: %v", i, err)
				}
			}
			c.Key("%c %d %d;", ref.kind, size, how)
			wire.WriteString(ref.line(adc.MsgType{'M', 'S', 'G'}, refEscape(text)))
			refs = append(refs, ref)
			texts = append(texts, text)
		}
		if err := w.Close(); err != nil {
			c.Fatalf("close: %v", err)
		}
		if !z && out.String() != wire.String() {
			c.Fatalf("written wrong: %s", diffBytes(out.Bytes(), []byte(wire.String())))
		}
		rd := adc.NewReader(drawLargeReader(c.T, out.Bytes()))
		rd.SetMaxLine(0)
		if z {
			if err := rd.EnableZlib(); err != nil {
				c.Fatalf("enable: %v", err)
			}
		}
		for i, ref := range refs {
			p, err := rd.ReadPacket()
			if err != nil {
				c.Fatalf("packet %d: %v", i, err)
			}
			if d := ref.diff(p); d != "" {
				c.Fatalf("packet %d: %s", i, d)
			}
			if m, ok := p.Message().(adc.ChatMessage); !ok || m.Text != texts[i] {
				c.Fatalf("packet %d of %d bytes is read as %s", i, len(texts[i]), clip(adcShow(p.Message()), 200))
			}
		}
		if p, err := rd.ReadPacket(); err != io.EOF {
			c.Fatalf("after the last packet: %+v, %v, want EOF", p, err)
		}
	})
}
