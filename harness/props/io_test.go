package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"regexp"
	"runtime"
	"strings"
	"time"

	"pgregory.net/rapid"
)

var errInjected = errors.New("injected transport failure")

// chunkReader returns a byte stream in pieces of given sizes and then a final error.
type chunkReader struct {
	data     []byte
	plan     []int // sizes, used cyclically; 0 is an empty read
	i        int
	err      error // final error
	withData bool  // return the final error together with the last piece of data
	consumed int
	past     int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		r.tick()
		return 0, nil
	}
	if len(r.data) == 0 {
		r.tick()
		return 0, r.err
	}
	n := r.plan[r.i%len(r.plan)]
	r.i++
	if n == 0 {
		return 0, nil
	}
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], r.data)
	r.data = r.data[n:]
	r.consumed += n
	copy(p[n:], scratch) // a reader may use all of p
	if len(r.data) == 0 && r.withData {
		return n, r.err
	}
	return n, nil
}

const scratch = "scratch|\n$Quit scratch|\nISTA 000\n|\x00"

func (r *chunkReader) tick() {
	r.past++
	if r.past > 10000 {
		panic("the code under test keeps reading from an exhausted connection")
	}
}

func (r *chunkReader) String() string {
	return fmt.Sprintf("%v/%v", r.plan, r.withData)
}

var chunkSize = rapid.OneOf(
	rapid.IntRange(1, 3),
	rapid.IntRange(1, 64),
	rapid.SampledFrom([]int{2047, 2048, 2049, 4095, 4096, 4097, 1 << 20}),
)

// drawPlan draws how a stream is cut into reads.
func drawPlan(t *rapid.T, label string) []int {
	switch rapid.IntRange(0, 4).Draw(t, label+"-mode") {
	case 0:
		return []int{1 << 20}
	case 1:
		return []int{1}
	}
	plan := rapid.SliceOfN(chunkSize, 1, 8).Draw(t, label)
	if rapid.IntRange(0, 3).Draw(t, label+"-zeros") == 0 {
		run := rapid.SampledFrom([]int{1, 1, 1, 2, 5, 12}).Draw(t, label+"-run")
		var out []int
		for _, n := range plan {
			out = append(append(out, make([]int, run)...), n)
		}
		plan = out
	}
	return plan
}

func drawReader(t *rapid.T, data []byte) *chunkReader {
	return &chunkReader{
		data:     append([]byte{}, data...),
		plan:     drawPlan(t, "chunks"),
		err:      rapid.SampledFrom([]error{io.EOF, io.EOF, io.EOF, errInjected, io.ErrUnexpectedEOF}).Draw(t, "finalErr"),
		withData: rapid.Bool().Draw(t, "errWithData"),
	}
}

// drawEOFReader is drawReader with a regular end of stream.
func drawEOFReader(t *rapid.T, data []byte) *chunkReader {
	r := drawReader(t, data)
	r.err = io.EOF
	return r
}

// pattern makes n bytes of content that never contain any of the bytes in avoid.
func pattern(n int, seed byte, avoid ...byte) []byte {
	out := make([]byte, n)
	for i := range out {
		b := byte(i*7+i>>8) + seed
		for again := true; again; {
			again = false
			for _, a := range avoid {
				if b == a {
					b += 13
					again = true
				}
			}
		}
		out[i] = b
	}
	return out
}

// around draws a size close to one of the given boundaries, or a small one.
func around(t *rapid.T, label string, bounds ...int) int {
	k := rapid.IntRange(0, len(bounds)+1).Draw(t, label+"-kind")
	if k < len(bounds) {
		n := bounds[k] + rapid.IntRange(-3, 3).Draw(t, label+"-delta")
		if n < 0 {
			n = 0
		}
		return n
	}
	if k == len(bounds) {
		return rapid.IntRange(0, 12).Draw(t, label)
	}
	return rapid.IntRange(0, 200).Draw(t, label)
}

// guard runs f and reports a panic as an error.
func guard(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	f()
	return nil
}

// neighbours calls f with the byte strings next to a given one: every truncation, every byte
// deleted, doubled or replaced, every short token inserted anywhere, and every part between two
// separators removed (with one, both or none of the separators). Long strings are changed only
// near the separators.
func neighbours(b []byte, seps string, tokens []string, f func(v []byte)) {
	bounds := []int{0}
	for i, c := range b {
		if strings.IndexByte(seps, c) >= 0 && len(bounds) < 24 {
			bounds = append(bounds, i)
		}
	}
	bounds = append(bounds, len(b))
	var at []int
	if len(b) <= 120 {
		for i := 0; i <= len(b); i++ {
			at = append(at, i)
		}
	} else {
		last := -1
		for _, p := range bounds {
			for i := p - 1; i <= p+2; i++ {
				if i > last && i >= 0 && i <= len(b) {
					at = append(at, i)
					last = i
				}
			}
		}
	}
	cat := func(parts ...[]byte) {
		f(bytes.Join(parts, nil))
	}
	for _, i := range at {
		cat(b[:i])
		cat(b[i:])
		for _, tok := range tokens {
			cat(b[:i], []byte(tok), b[i:])
			if i < len(b) {
				cat(b[:i], []byte(tok), b[i+1:])
			}
		}
		if i < len(b) {
			cat(b[:i], b[i+1:])
			cat(b[:i+1], b[i:])
		}
	}
	for x, p := range bounds {
		for _, q := range bounds[x+1:] {
			cat(b[:p], b[q:])
			if p+1 <= q {
				cat(b[:p+1], b[q:])
			}
			if q < len(b) {
				cat(b[:p], b[q+1:])
			}
		}
	}
}

// cost runs f and returns the number of bytes it allocated and the time it took.
func cost(f func()) (uint64, time.Duration) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	t := time.Now()
	f()
	d := time.Since(t)
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc, d
}

// checkCost fails if decoding the input needs memory or time out of proportion to its size.
// The limits are about ten times what the code needs for its most expensive inputs.
func checkCost(fail func(string, ...interface{}), what string, input []byte, f func()) {
	var perr error
	mem, d := cost(func() { perr = guard(f) })
	if perr != nil {
		fail("%s of %q (%d bytes): %v", what, clip(string(input), 300), len(input), perr)
	}
	if limit := uint64(1<<20 + 600*len(input)); mem > limit {
		fail("%s of %q (%d bytes) allocates %d bytes", what, clip(string(input), 300), len(input), mem)
	}
	if limit := 10*time.Second + time.Duration(len(input))*100*time.Microsecond; d > limit {
		fail("%s of %q (%d bytes) takes %v", what, clip(string(input), 300), len(input), d)
	}
}

var numberRuns = regexp.MustCompile(`[0-9]+`)

// bombs are numbers that announce a lot.
var bombs = []string{"1e2147483647", "1e100000000", "1.0e2000000000", "-1e1000000000", "1e-2147483648", "2147483647", "4294967295", "1000000000", "9223372036854775807", "18446744073709551615",
	"99999999999999999999999", "0x7fffffff", "0." + strings.Repeat("0", 400) + "1e400", strings.Repeat("9", 5000)}

// drawCostly draws an input made of a valid text: with its numbers replaced by huge ones, or with a part of
// it repeated up to a size of max bytes.
func drawCostly(t *rapid.T, valid []byte, tokens []string, max int) []byte {
	if pick(t, "costly", 3) == 0 {
		return numberRuns.ReplaceAllFunc(valid, func(s []byte) []byte {
			if pick(t, "keep", 3) == 0 {
				return s
			}
			return []byte(bombs[pick(t, "bomb", len(bombs))])
		})
	}
	var unit []byte
	if n := len(valid); n > 1 && rapid.Bool().Draw(t, "own-part") {
		i := pick(t, "from", n-1)
		unit = valid[i : i+1+pick(t, "len", min(40, n-i))]
	} else {
		for n := 1 + pick(t, "tokens", 3); n > 0; n-- {
			unit = append(unit, rapid.SampledFrom(tokens).Draw(t, "token")...)
		}
	}
	if len(unit) == 0 {
		unit = []byte(" ")
	}
	at := pick(t, "at", len(valid)+1)
	n := rapid.SampledFrom([]int{100, 1000, 4000, 16000}).Draw(t, "times")
	if n*len(unit) > max {
		n = max / len(unit)
	}
	out := append([]byte{}, valid[:at]...)
	out = append(out, bytes.Repeat(unit, n)...)
	return append(out, valid[at:]...)
}
