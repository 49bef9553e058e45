package props

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"
)

// TestL03_Levels checks that each compressed section is compressed as it was asked for: level 0 stores the
// data, all other levels make data that repeats itself much smaller, whatever the levels of earlier sections.
func TestL03_Levels(t *testing.T) {
	check(t, 150, "one writer (line protocol or NMDC) with up to six compressed sections of repetitive lines, each with its own level (0, 1 to 9, default, Huffman only); non-trivial: two levels, one of them 0", func(c *C) {
		levels := rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, -1, 1, 2, 5, 6, 9, -2}), 1, 6).Draw(c.T, "levels")
		proto := rapid.SampledFrom([]string{"line", "nmdc"}).Draw(c.T, "proto")
		deflt := pick(c.T, "default", 3) == 0 // the methods without a level
		size := rapid.IntRange(2000, 9000).Draw(c.T, "size")
		buf := rapid.SampledFrom([]int{0, 16, 1000, 1 << 16}).Draw(c.T, "buf")
		stored, packed := false, false
		for _, l := range levels {
			if l == 0 {
				stored = true
			} else {
				packed = true
			}
		}
		c.Key("%s, levels %v, default %v, %d bytes, buf %d", proto, levels, deflt, size, buf)
		c.NonTrivial(stored && packed)
		c.Label("%s", proto)

		var wire bytes.Buffer
		lw := lineproto.NewWriterSize(&wire, buf)
		var nw *nmdc.Writer
		if proto == "nmdc" {
			nw = nmdc.NewWriter(&wire)
			lw = nw.Writer
		}
		line := []byte(strings.Repeat("a", size) + "|")
		for i, l := range levels {
			var err error
			if deflt && l == -1 {
				if nw != nil {
					err = nw.ZOn()
				} else {
					err = lw.EnableZlib()
				}
			} else if nw != nil {
				err = nw.ZOnLevel(l)
			} else {
				err = lw.EnableZlibLevel(l)
			}
			if err != nil {
				c.Fatalf("section %d: %v", i, err)
			}
			if nw != nil && wire.String() != "$ZOn|" {
				c.Fatalf("section %d starts with %q, want $ZOn|", i, clip(wire.String(), 100))
			}
			wire.Reset()
			if err = lw.WriteLine(line); err == nil {
				err = lw.DisableZlib()
			}
			if err != nil {
				c.Fatalf("section %d: %v", i, err)
			}
			n := wire.Len()
			zr, err := zlib.NewReader(&wire)
			if err != nil {
				c.Fatalf("section %d: %v", i, err)
			}
			var got bytes.Buffer
			if _, err = io.Copy(&got, zr); err != nil || !bytes.Equal(got.Bytes(), line) {
				c.Fatalf("section %d: %v, %s", i, err, diffBytes(got.Bytes(), line))
			}
			what := fmt.Sprintf("section %d, level %d after %v: %d equal bytes take %d bytes on the wire", i, l, levels[:i], size, n)
			if l == 0 && n < size {
				c.Fatalf("%s, but have to be stored uncompressed", what)
			}
			if l != 0 && n > size/2 {
				c.Fatalf("%s, but have to be compressed", what)
			}
			wire.Reset()
		}
	})
}
