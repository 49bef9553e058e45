package props

import (
	"bytes"
	"encoding"
	"encoding/hex"
	"errors"
	"io"
	"strings"
	"testing"

	th "github.com/cxmcc/tiger"
	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/adc/types"
	"github.com/direct-connect/go-dc/tiger"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- T01

// refTiger is the hash of the concatenated parts.
func refTiger(parts ...[]byte) (out tiger.Hash) {
	h := th.New()
	for _, p := range parts {
		_, _ = h.Write(p)
	}
	copy(out[:], h.Sum(nil))
	return
}

func refLeaves(data []byte) (out []tiger.Hash) {
	for {
		n := len(data)
		if n > 1024 {
			n = 1024
		}
		out = append(out, refTiger([]byte{0}, data[:n]))
		data = data[n:]
		if len(data) == 0 {
			return out
		}
	}
}

// refRoot is the root of the tree over the leaves: the left subtree is the largest complete one.
func refRoot(leaves []tiger.Hash) tiger.Hash {
	n := len(leaves)
	if n == 1 {
		return leaves[0]
	}
	k := 1
	for k*2 < n {
		k *= 2
	}
	l, r := refRoot(leaves[:k]), refRoot(leaves[k:])
	return refTiger([]byte{1}, l[:], r[:])
}

func drawContent(t *rapid.T) []byte {
	var n int
	switch pick(t, "sizeKind", 5) {
	case 0:
		n = pick(t, "size", 3000)
	case 1:
		n = 1024 * pick(t, "blocks", 40)
	case 2:
		n = 1024*(1<<uint(pick(t, "pow", 7))) + pick(t, "delta", 5) - 2
	case 3:
		n = 1024*pick(t, "blocks", 40) + pick(t, "rest", 1024)
	default:
		n = around(t, "size", 0, 1024, 2048, 3072, 5*1024)
	}
	switch pick(t, "content", 3) {
	case 0:
		return make([]byte, n) // equal blocks have equal leaves
	case 1:
		return pattern(n, byte(pick(t, "seed", 256)))
	}
	out := make([]byte, n)
	x := uint32(pick(t, "seed", 1<<16)) | 1
	for i := range out {
		x = x*1664525 + 1013904223
		out[i] = byte(x >> 24)
	}
	return out
}

var tthChunk = rapid.OneOf(
	rapid.IntRange(1, 64),
	rapid.IntRange(900, 1100),
	rapid.SampledFrom([]int{1, 511, 512, 513, 1000, 1023, 1024, 1025, 1026, 2048, 4096, 1 << 20}),
)

func drawTTHReader(t *rapid.T, data []byte, final error) *chunkReader {
	r := drawReader(t, data)
	r.err = final
	if rapid.Bool().Draw(t, "tthChunks") {
		r.plan = rapid.SliceOfN(tthChunk, 1, 6).Draw(t, "tthPlan")
		if pick(t, "zeros", 3) == 0 {
			r.plan = append(r.plan, 0)
		}
	}
	return r
}

func TestT01_TreeHash(t *testing.T) {
	check(t, 1500, "more than one block, or content that is read in more than one piece", func(c *C) {
		data := drawContent(c.T)
		r := drawTTHReader(c.T, data, io.EOF)
		c.Key("%d bytes, reads %v", len(data), r)
		c.Label("blocks=%d", (len(data)+1023)/1024)
		c.NonTrivial(len(data) > 1024 || r.plan[0] < len(data))
		leaves := refLeaves(data)
		want := refRoot(leaves)
		got, err := tiger.TreeHash(r)
		if err != nil {
			c.Fatalf("TreeHash of %d bytes fails: %v", len(data), err)
		}
		if got != want {
			c.Fatalf("TreeHash of %d bytes (reads %v) is %v, want %v", len(data), r, got, want)
		}
		r2 := drawTTHReader(c.T, data, io.EOF)
		lv, err := tiger.TreeLeaves(r2)
		if err != nil {
			c.Fatalf("TreeLeaves of %d bytes fails: %v", len(data), err)
		}
		if len(lv) != len(leaves) {
			c.Fatalf("TreeLeaves of %d bytes (reads %v) returns %d leaves, want %d", len(data), r2, len(lv), len(leaves))
		}
		for i := range lv {
			if lv[i] != leaves[i] {
				c.Fatalf("TreeLeaves of %d bytes (reads %v): leaf %d is %v, want %v", len(data), r2, i, lv[i], leaves[i])
			}
		}
		for i := 0; i < 2; i++ {
			if got := lv.TreeHash(); got != want {
				c.Fatalf("the leaves of %d bytes combine to %v, want %v (attempt %d)", len(data), got, want, i+1)
			}
		}
		for i := range lv {
			if lv[i] != leaves[i] {
				c.Fatalf("combining the leaves of %d bytes changed leaf %d", len(data), i)
			}
		}
	})
}

func TestT01_Leaves(t *testing.T) {
	check(t, 1500, "at least three leaves", func(c *C) {
		n := 1 + pick(c.T, "n", 70)
		leaves := make(tiger.Leaves, n, n+pick(c.T, "spare", 4))
		for i := range leaves {
			leaves[i] = drawHash(c.T, "leaf")
			if i > 0 && pick(c.T, "same", 4) == 0 {
				leaves[i] = leaves[i-1]
			}
		}
		c.Key("%v", leaves)
		c.NonTrivial(n > 2)
		orig := append([]tiger.Hash{}, leaves...)
		want := refRoot(orig)
		for i := 0; i < 2; i++ {
			if got := leaves.TreeHash(); got != want {
				c.Fatalf("%d leaves combine to %v, want %v (attempt %d)", n, got, want, i+1)
			}
		}
		for i := range orig {
			if leaves[i] != orig[i] {
				c.Fatalf("combining %d leaves changed leaf %d", n, i)
			}
		}
	})
}

// TestT01_Large goes to contents and leaf counts that no table of examples reaches.
func TestT01_Large(t *testing.T) {
	check(t, 60, "at least 256 leaves", func(c *C) {
		n := 256
		switch pick(c.T, "kind", 3) {
		case 0:
			n = 1<<uint(8+pick(c.T, "pow", 6)) + pick(c.T, "delta", 5) - 2
		case 1:
			n = 256 + pick(c.T, "n", 20000)
		default:
			// a power of two and a short rest: long chains of unpaired hashes
			n = 1<<uint(9+pick(c.T, "pow", 5)) + 1<<uint(pick(c.T, "rest", 8)) + pick(c.T, "delta", 2)
		}
		seed := uint64(pick(c.T, "seed", 1<<16))
		next := func() byte {
			seed = seed*6364136223846793005 + 1442695040888963407
			return byte(seed >> 56)
		}
		leaves := make(tiger.Leaves, n)
		if n <= 2100 && rapid.Bool().Draw(c.T, "content") {
			data := make([]byte, 1024*(n-1)+pick(c.T, "last", 1025))
			for i := range data {
				data[i] = next()
			}
			r := drawTTHReader(c.T, data, io.EOF)
			c.Key("%d bytes, seed %d, reads %v", len(data), seed, r)
			c.NonTrivial(true)
			c.Label("content")
			leaves = refLeaves(data)
			want := refRoot(leaves)
			if got, err := tiger.TreeHash(r); err != nil || got != want {
				c.Fatalf("TreeHash of %d bytes (reads %v) is %v, %v, want %v", len(data), r, got, err, want)
			}
			got, err := tiger.TreeLeaves(drawTTHReader(c.T, data, io.EOF))
			if err != nil || len(got) != len(leaves) {
				c.Fatalf("TreeLeaves of %d bytes: %d leaves, %v, want %d", len(data), len(got), err, len(leaves))
			}
			for i := range got {
				if got[i] != leaves[i] {
					c.Fatalf("TreeLeaves of %d bytes: wrong leaf %d", len(data), i)
				}
			}
		} else {
			c.Key("%d leaves, seed %d", n, seed)
			c.NonTrivial(true)
			c.Label("leaves")
			for i := range leaves {
				for j := range leaves[i] {
					leaves[i][j] = next()
				}
			}
		}
		orig := append([]tiger.Hash{}, leaves...)
		want := refRoot(orig)
		for i := 0; i < 2; i++ {
			if got := leaves.TreeHash(); got != want {
				c.Fatalf("%d leaves combine to %v, want %v (attempt %d)", n, got, want, i+1)
			}
		}
		for i := range orig {
			if leaves[i] != orig[i] {
				c.Fatalf("combining %d leaves changed leaf %d", n, i)
			}
		}
	})
}

func TestT01_ReadError(t *testing.T) {
	check(t, 1500, "the reader fails after some data", func(c *C) {
		data := drawContent(c.T)
		fail := rapid.SampledFrom([]error{errInjected, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrClosedPipe}).Draw(c.T, "err")
		r := drawTTHReader(c.T, data, fail)
		c.Key("%d bytes, reads %v, then %v", len(data), r, fail)
		c.NonTrivial(len(data) > 0)
		if h, err := tiger.TreeHash(r); err == nil {
			c.Fatalf("reading fails with %q after %d bytes, but TreeHash returns %v, %v", fail, len(data), h, err)
		}
		r = drawTTHReader(c.T, data, fail)
		if l, err := tiger.TreeLeaves(r); err == nil {
			c.Fatalf("reading fails with %q after %d bytes, but TreeLeaves returns %d leaves, %v", fail, len(data), len(l), err)
		}
	})
}

// ---------------------------------------------------------------- T02

type hashForm struct {
	name   string
	encode func(v [24]byte) (string, error)
}

func adcForm(m adc.Marshaler) (string, error) {
	buf := bytes.NewBufferString("pre")
	err := m.MarshalADC(buf)
	s := buf.String()
	if !strings.HasPrefix(s, "pre") {
		return s, errors.New("the buffer's contents were changed")
	}
	return s[3:], err
}

func textForm(m encoding.TextMarshaler) (string, error) {
	b, err := m.MarshalText()
	return string(b), err
}

var hashForms = []hashForm{
	{"Hash.String", func(v [24]byte) (string, error) { return tiger.Hash(v).String(), nil }},
	{"Hash.Base32", func(v [24]byte) (string, error) { return tiger.Hash(v).Base32(), nil }},
	{"Hash.MarshalText", func(v [24]byte) (string, error) { return textForm(tiger.Hash(v)) }},
	{"Hash.MarshalADC", func(v [24]byte) (string, error) { return adcForm(tiger.Hash(v)) }},
	{"Hash.MarshalBase32", func(v [24]byte) (string, error) {
		b := bytes.Repeat([]byte{'#'}, tiger.Base32Size+5)
		err := tiger.Hash(v).MarshalBase32(b)
		if string(b[tiger.Base32Size:]) != "#####" {
			return string(b), errors.New("wrote behind the text")
		}
		return string(b[:tiger.Base32Size]), err
	}},
	{"CID.String", func(v [24]byte) (string, error) { return types.CID(v).String(), nil }},
	{"CID.Base32", func(v [24]byte) (string, error) { return types.CID(v).Base32(), nil }},
	{"CID.MarshalText", func(v [24]byte) (string, error) { return textForm(types.CID(v)) }},
	{"CID.MarshalADC", func(v [24]byte) (string, error) { return adcForm(types.CID(v)) }},
}

type hashParser struct {
	name  string
	parse func(s string) ([24]byte, error)
}

var hashParsers = []hashParser{
	{"Hash.FromBase32", func(s string) ([24]byte, error) { var h tiger.Hash; err := h.FromBase32(s); return h, err }},
	{"Hash.UnmarshalBase32", func(s string) ([24]byte, error) {
		var h tiger.Hash
		err := h.UnmarshalBase32([]byte(s))
		return h, err
	}},
	{"Hash.UnmarshalText", func(s string) ([24]byte, error) { var h tiger.Hash; err := h.UnmarshalText([]byte(s)); return h, err }},
	{"Hash.UnmarshalADC", func(s string) ([24]byte, error) { var h tiger.Hash; err := h.UnmarshalADC([]byte(s)); return h, err }},
	{"CID.FromBase32", func(s string) ([24]byte, error) { var h types.CID; err := h.FromBase32(s); return h, err }},
	{"CID.UnmarshalText", func(s string) ([24]byte, error) { var h types.CID; err := h.UnmarshalText([]byte(s)); return h, err }},
	{"CID.UnmarshalADC", func(s string) ([24]byte, error) { var h types.CID; err := h.UnmarshalADC([]byte(s)); return h, err }},
}

const b32Alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"

// refB32 is the unpadded base32 text, bit by bit.
func refB32(b []byte) string {
	var out []byte
	acc, bits := 0, 0
	for _, v := range b {
		acc = acc<<8 | int(v)
		bits += 8
		for bits >= 5 {
			bits -= 5
			out = append(out, b32Alphabet[acc>>uint(bits)])
			acc &= 1<<uint(bits) - 1
		}
	}
	if bits > 0 {
		out = append(out, b32Alphabet[acc<<uint(5-bits)])
	}
	return string(out)
}

func TestT02_Hashes(t *testing.T) {
	check(t, 1500, "a value that is neither zero nor one repeated byte", func(c *C) {
		v := draw24(c.T, "value")
		c.Key("%x", v)
		c.NonTrivial(bytes.Count(v[:], v[:1]) < 24)
		want := refB32(v[:])
		for _, f := range hashForms {
			got, err := f.encode(v)
			if err != nil {
				c.Fatalf("%s of %x fails: %v (%q)", f.name, v, err, got)
			}
			if got != want {
				c.Fatalf("%s of %x is %q, want %q", f.name, v, got, want)
			}
		}
		for _, p := range hashParsers {
			got, err := p.parse(want)
			if err != nil || got != v {
				c.Fatalf("%s(%q) = %x, %v, want %x", p.name, want, got, err, v)
			}
		}
		h, id := tiger.Hash(v), types.CID(v)
		if got := tiger.MustParseBase32(want); got != h {
			c.Fatalf("MustParseBase32(%q) = %x", want, got)
		}
		if got := types.MustParseCID(want); got != id {
			c.Fatalf("MustParseCID(%q) = %x", want, got)
		}
		if got := types.MustParseCIDP(want); got == nil || *got != id {
			c.Fatalf("MustParseCIDP(%q) = %v", want, got)
		}
		if types.MustParseCIDP(want) == types.MustParseCIDP(want) {
			c.Fatalf("MustParseCIDP returns the same pointer twice")
		}
		if got := h.Hex(); got != hex.EncodeToString(v[:]) {
			c.Fatalf("Hex of %x is %q", v, got)
		}
		if got := h.Bytes(); !bytes.Equal(got, v[:]) {
			c.Fatalf("Bytes of %x is %x", v, got)
		}
		zero := v == [24]byte{}
		if h.IsZero() != zero || id.IsZero() != zero {
			c.Fatalf("IsZero of %x is %v (hash), %v (CID)", v, h.IsZero(), id.IsZero())
		}
		if got, want := id.Hash(), types.CID(refTiger(v[:])); got != want {
			c.Fatalf("the hash of the identifier %v is %v, want %v", id, got, want)
		}
		n := pick(c.T, "msg", 300)
		msg := pattern(n, v[0])
		if got, want := tiger.HashBytes(msg), refTiger(msg); got != want {
			c.Fatalf("HashBytes(%q) = %v, want %v", msg, got, want)
		}
		hh := tiger.New()
		cut := pick(c.T, "cut", n+1)
		_, _ = hh.Write(msg[:cut])
		_ = hh.Sum(nil)
		_, _ = hh.Write(msg[cut:])
		if got, want := hh.Sum([]byte{7}), refTiger(msg); got[0] != 7 || !bytes.Equal(got[1:], want[:]) {
			c.Fatalf("New().Sum of %q = %x, want 07%x", msg, got, want)
		}
		if hh.Size() != tiger.Size || hh.BlockSize() != tiger.BlockSize {
			c.Fatalf("the hash reports size %d, block size %d", hh.Size(), hh.BlockSize())
		}
	})
}

// badB32 draws text that is not the base32 form of n bytes.
func badB32(t *rapid.T, good string) (string, string) {
	b := []byte(good)
	switch pick(t, "damage", 8) {
	case 0: // shorter
		return good[:pick(t, "len", len(good))], "shorter"
	case 1: // longer
		return good + strings.Repeat(string(b32Alphabet[pick(t, "fill", 32)]), 1+pick(t, "more", 60)), "longer"
	case 2: // twice
		return good + good, "longer"
	case 3: // padded
		return good + "=", "padding"
	case 4:
		return "", "empty"
	case 5:
		if pick(t, "side", 2) == 0 {
			return " " + good, "space"
		}
		return good + " ", "space"
	case 6:
		i := pick(t, "pos", len(b))
		if c := b[i]; c >= 'A' && c <= 'Z' {
			b[i] = c + 'a' - 'A'
			return string(b), "lower case"
		}
		fallthrough
	default:
		i := pick(t, "pos", len(b))
		const outside = "01890/=+-_. \x00\x7f\x80\xff$|[`@"
		b[i] = outside[pick(t, "char", len(outside))]
		return string(b), "outside the alphabet"
	}
}

func TestT02_BadHashes(t *testing.T) {
	check(t, 3000, "every case is text of the wrong length or with a character outside the alphabet", func(c *C) {
		v := draw24(c.T, "value")
		s, why := badB32(c.T, refB32(v[:]))
		c.Key("%q", s)
		c.Label("%s", why)
		c.NonTrivial(true)
		for _, p := range hashParsers {
			var got [24]byte
			var err error
			if perr := guard(func() { got, err = p.parse(s) }); perr != nil {
				c.Fatalf("%s(%q): %v", p.name, s, perr)
			}
			if err == nil {
				c.Fatalf("%s accepts %q (%s) as %x", p.name, s, why, got)
			}
		}
		// the Must functions are documented to panic
		if guard(func() { tiger.MustParseBase32(s) }) == nil {
			c.Fatalf("MustParseBase32 accepts %q", s)
		}
		if guard(func() { types.MustParseCID(s) }) == nil {
			c.Fatalf("MustParseCID accepts %q", s)
		}
	})
}

func TestT02_SIDs(t *testing.T) {
	check(t, 4000, "two different numbers", func(c *C) {
		num := func(label string) uint32 {
			if pick(c.T, label+"-kind", 2) == 0 {
				return uint32(1)<<uint(pick(c.T, label+"-bit", 20)) - uint32(pick(c.T, label+"-less", 2))
			}
			return uint32(pick(c.T, label, 1<<20))
		}
		a := num("a")
		b := a ^ 1<<uint(pick(c.T, "bit", 20))
		if pick(c.T, "other", 2) == 0 {
			b = num("b")
		}
		c.Key("%d %d", a, b)
		c.NonTrivial(a != b)
		sa, sb := types.SIDFromInt(a), types.SIDFromInt(b)
		if (sa == sb) != (a == b) {
			c.Fatalf("SIDFromInt(%d) = %q, SIDFromInt(%d) = %q", a, sa, b, sb)
		}
		for i := 0; i < 4; i++ {
			if strings.IndexByte(b32Alphabet, sa[i]) < 0 {
				c.Fatalf("SIDFromInt(%d) = %q is not base32", a, sa)
			}
		}
		s := sa.String()
		if s != string(sa[:]) {
			c.Fatalf("the text of %v is %q", [4]byte(sa), s)
		}
		if got, err := adcForm(sa); err != nil || got != s {
			c.Fatalf("MarshalADC of %q is %q, %v", s, got, err)
		}
		var got types.SID
		if err := got.UnmarshalADC([]byte(s)); err != nil || got != sa {
			c.Fatalf("UnmarshalADC(%q) = %q, %v", s, got, err)
		}
		if got := types.SIDFromString(s); got != sa {
			c.Fatalf("SIDFromString(%q) = %q", s, got)
		}
		bad, why := badB32(c.T, s)
		c.Label("%s", why)
		var err error
		if perr := guard(func() { err = got.UnmarshalADC([]byte(bad)) }); perr != nil {
			c.Fatalf("SID.UnmarshalADC(%q): %v", bad, perr)
		}
		if err == nil {
			c.Fatalf("SID.UnmarshalADC accepts %q (%s)", bad, why)
		}
		if guard(func() { types.SIDFromString(bad) }) == nil {
			c.Fatalf("SIDFromString accepts %q (%s)", bad, why)
		}
	})
}

func TestT02_PIDs(t *testing.T) {
	check(t, 30, "every case generates 64 identifiers", func(c *C) {
		n := 64
		seen := map[types.PID]bool{}
		var or, and types.PID
		for i := range and {
			and[i] = 0xff
		}
		for i := 0; i < n; i++ {
			id, err := types.NewPID()
			if err != nil {
				c.Fatalf("NewPID: %v", err)
			}
			if seen[id] {
				c.Fatalf("NewPID returns %v twice within %d calls", id, i+1)
			}
			seen[id] = true
			for j := range id {
				or[j] |= id[j]
				and[j] &= id[j]
			}
		}
		// a bit that never varies in 64 identifiers has a chance of 2^-63
		for i := range or {
			if or[i] != 0xff || and[i] != 0 {
				c.Fatalf("byte %d of %d fresh identifiers has constant bits (or %02x, and %02x)", i, n, or[i], and[i])
			}
		}
		c.Key("%x", or)
		c.NonTrivial(true)
	})
}

func TestT02_Salts(t *testing.T) {
	check(t, 3000, "a salt of at least one byte", func(c *C) {
		var salt []byte
		if pick(c.T, "kind", 3) == 0 {
			v := draw24(c.T, "salt24")
			salt = v[:]
		} else {
			salt = rapid.SliceOfN(rapid.Byte(), 0, 48).Draw(c.T, "salt")
		}
		orig := append([]byte{}, salt...)
		c.Key("%x", salt)
		c.NonTrivial(len(salt) > 0)
		c.Label("len%%5=%d", len(salt)%5)
		want := refB32(salt)
		got, err := adcForm(adc.GetPassword{Salt: salt})
		if err != nil || got != want {
			c.Fatalf("the salt %x is encoded as %q, %v, want %q", salt, got, err, want)
		}
		if !bytes.Equal(salt, orig) {
			c.Fatalf("encoding the salt %x changed it to %x", orig, salt)
		}
		var m adc.GetPassword
		in := []byte(want)
		if err := m.UnmarshalADC(in); err != nil || !bytes.Equal(m.Salt, orig) {
			c.Fatalf("the salt %q decodes to %x, %v, want %x", want, m.Salt, err, orig)
		}
		if string(in) != want {
			c.Fatalf("decoding the salt %q changed the input to %q", want, in)
		}
		// text that is not the base32 form of anything
		b := []byte(want)
		switch pick(c.T, "damage", 3) {
		case 0: // impossible lengths
			b = append(b, "AA"...)
			for n := len(b) % 8; n != 1 && n != 3 && n != 6; n = len(b) % 8 {
				b = append(b, 'A')
			}
		case 1:
			if len(b) == 0 {
				return
			}
			const outside = "0189/=+-_. abcz\x00\x7f\x80\xff$|"
			b[pick(c.T, "pos", len(b))] = outside[pick(c.T, "char", len(outside))]
		default:
			b = append(b, '=')
		}
		if perr := guard(func() { m = adc.GetPassword{}; err = m.UnmarshalADC(b) }); perr != nil {
			c.Fatalf("decoding the salt %q: %v", b, perr)
		}
		if err == nil {
			c.Fatalf("the invalid salt %q decodes to %x", b, m.Salt)
		}
	})
}
