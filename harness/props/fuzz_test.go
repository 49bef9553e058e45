package props

import (
	"bytes"
	"io"
	"math/rand"
	"testing"

	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"
	"pgregory.net/rapid"
)

// Coverage-guided searches, run by the thorough tier with go test -fuzz. Most of them feed the
// random choices of a search to its generators (the fuzzer mutates the choices, the property is
// the same); the _Raw ones give the bytes of the fuzzer to the code as they are.

// captured takes the body of the next search instead of running it.
var captured *func(c *C)

func bodyOf(test func(*testing.T)) func(c *C) {
	var body func(c *C)
	captured = &body
	defer func() { captured = nil }()
	test(&testing.T{})
	return body
}

func fuzz(f *testing.F, tests ...func(*testing.T)) {
	var bodies []func(c *C)
	for _, t := range tests {
		bodies = append(bodies, bodyOf(t))
	}
	rnd := rand.New(rand.NewSource(1))
	for i := 0; i < 8*len(bodies); i++ {
		data := make([]byte, 8*(64<<uint(i%5)))
		rnd.Read(data)
		f.Add(byte(i), data)
	}
	f.Fuzz(func(t *testing.T, which byte, data []byte) {
		body := bodies[int(which)%len(bodies)]
		rapid.MakeFuzz(func(rt *rapid.T) {
			c := &C{T: rt}
			beginCase()
			defer endCase()
			body(c)
		})(t, data)
	})
}

func FuzzA01_All(f *testing.F) { fuzz(f, TestA01_Layout, TestA01_Malformed) }
func FuzzA02_All(f *testing.F) { fuzz(f, TestA02_Packet, TestA02_Payload, TestA02_Unknown) }
func FuzzA03_All(f *testing.F) { fuzz(f, TestA03_Wire) }
func FuzzA04_All(f *testing.F) { fuzz(f, TestA04_Foreign, TestA04_Lossless) }
func FuzzA05_All(f *testing.F) {
	fuzz(f, TestA05_Duplicates, TestA05_OrderAndUnknown, TestA05_Reuse, TestA05_Updates)
}
func FuzzA06_All(f *testing.F) { fuzz(f, TestA06_Lines, TestA06_Payloads, TestA06_Stream) }
func FuzzA07_All(f *testing.F) { fuzz(f, TestA07_Delivery) }
func FuzzA08_All(f *testing.F) { fuzz(f, TestA08_Flags, TestA08_Integers, TestA08_StatusCodes) }
func FuzzA09_All(f *testing.F) { fuzz(f, TestA09_Lines, TestA09_Payloads) }
func FuzzA10_All(f *testing.F) {
	fuzz(f, TestA10_Custom, TestA10_Numbers, TestA10_Refused, TestA10_Registered)
}
func FuzzC01_All(f *testing.F) {
	fuzz(f, TestC01_ADC, TestC01_Commands, TestC01_NMDC, TestC01_Normalize, TestC01_Status)
}
func FuzzF01_All(f *testing.F) {
	fuzz(f, TestF01_AddFeatures, TestF01_ExtGroups, TestF01_Extensions, TestF01_FeatureLists, TestF01_ModFeatures, TestF01_Negotiation, TestF01_Supports)
}
func FuzzK01_All(f *testing.F) { fuzz(f, TestK01_Bytes, TestK01_File, TestK01_URL) }
func FuzzL01_All(f *testing.F) { fuzz(f, TestL01_Bytes, TestL01_Framing, TestL01_Hooks) }
func FuzzL02_All(f *testing.F) { fuzz(f, TestL02_Limit) }
func FuzzL03_All(f *testing.F) { fuzz(f, TestL03_History) }
func FuzzL04_All(f *testing.F) {
	fuzz(f, TestL04_Broken, TestL04_Garbage, TestL04_Hooks, TestL04_Span, TestL04_Switch)
}
func FuzzL05_All(f *testing.F) {
	fuzz(f, TestL05_Binary, TestL05_Broken, TestL05_Closed, TestL05_Oversized)
}
func FuzzL06_All(f *testing.F) { fuzz(f, TestL06_CloseFault, TestL06_Faults, TestL06_Protocols) }
func FuzzN01_All(f *testing.F) { fuzz(f, TestN01_Reuse, TestN01_Single, TestN01_Stream) }
func FuzzN02_All(f *testing.F) { fuzz(f, TestN02_Wire) }
func FuzzN03_All(f *testing.F) { fuzz(f, TestN03_Framing, TestN03_RawFields) }
func FuzzN04_All(f *testing.F) {
	fuzz(f, TestN04_Lines, TestN04_Payloads, TestN04_Stream, TestN04_Reuse)
}
func FuzzN05_All(f *testing.F) { fuzz(f, TestN05_Dispatch, TestN05_Skipped) }
func FuzzN06_All(f *testing.F) {
	fuzz(f, TestN06_Hooks, TestN06_RawFields, TestN06_Switch, TestN06_Undecodable, TestN06_Unencodable, TestN06_Unknown, TestN06_WriterHooks)
}
func FuzzN07_All(f *testing.F) { fuzz(f, TestN07_Handshake, TestN07_Key) }
func FuzzN08_All(f *testing.F) { fuzz(f, TestN08_Variants) }
func FuzzN09_All(f *testing.F) { fuzz(f, TestN09_Encode, TestN09_Numbers) }
func FuzzN10_All(f *testing.F) { fuzz(f, TestN10_Rewritten, TestN10_Writer) }
func FuzzN11_All(f *testing.F) { fuzz(f, TestN11_Lines, TestN11_Payloads) }
func FuzzT02_All(f *testing.F) {
	fuzz(f, TestT02_BadHashes, TestT02_Hashes, TestT02_PIDs, TestT02_SIDs, TestT02_Salts)
}
func FuzzU01_All(f *testing.F) { fuzz(f, TestU01_Addresses, TestU01_Junk) }

const maxRaw = 1 << 14

func FuzzU01_Raw(f *testing.F) {
	for _, s := range []string{"adc://host", "dchub://[::1]:411/", "NMDCS://Host:1/a?b=c#d", "host", "adcs://u:p@h:1/%41"} {
		f.Add(s)
	}
	f.Fuzz(func(t *testing.T, addr string) {
		if len(addr) > maxRaw {
			return
		}
		beginCase()
		defer endCase()
		junkAddr(t.Fatalf, addr)
	})
}

func FuzzA06_Raw(f *testing.F) {
	for _, s := range []string{"BINF AAAA NIhello ID", "IINF CT32 NAhub", "FSCH AAAA +TCP4-NAT0 ANa", "ISTA 100 text", "HCMD ToysCT1", "UINF \n"} {
		f.Add([]byte(s + "\n"))
	}
	f.Fuzz(func(t *testing.T, line []byte) {
		if len(line) > maxRaw {
			return
		}
		beginCase()
		defer endCase()
		adcDecodeLine(t.Fatalf, line)
		adcDecodePayload(t.Fatalf, line)
		adcDecodeValues(t.Fatalf, line)
	})
}

func FuzzN04_Raw(f *testing.F) {
	for _, k := range nKinds {
		f.Add([]byte(k.frame("x y$$z")), byte(0))
	}
	f.Add([]byte("$MyINFO $ALL n d<x V:1,M:A,H:1/2/3,S:4>$ $100\x01$mail$5$|"), byte(1))
	f.Fuzz(func(t *testing.T, line []byte, enc byte) {
		if len(line) > maxRaw {
			return
		}
		beginCase()
		defer endCase()
		e := nEncodings[int(enc)%len(nEncodings)]
		var m nmdc.Message
		var err error
		if perr := guard(func() { m, err = nmdc.Unmarshal(e.decoder(), append([]byte{}, line...)) }); perr != nil {
			t.Fatalf("Unmarshal of %q, %s: %v", line, e.name, perr)
		}
		if err == nil {
			nAnswer(t.Fatalf, line, m)
		}
		for _, k := range nKinds {
			m := nmdc.NewMessage(k.typ)
			if perr := guard(func() { err = m.UnmarshalNMDC(e.decoder(), append([]byte{}, line...)) }); perr != nil {
				t.Fatalf("%T payload %q, %s: %v", m, line, e.name, perr)
			}
			if err == nil {
				nAnswer(t.Fatalf, line, m)
			}
		}
		r := nmdc.NewReader(bytes.NewReader(line))
		if perr := guard(func() {
			for i := 0; i < len(line)+10; i++ {
				if _, err := r.ReadMsg(); err == io.EOF || err == io.ErrUnexpectedEOF {
					return
				}
			}
			t.Fatalf("%q does not end", line)
		}); perr != nil {
			t.Fatalf("reading %q: %v", line, perr)
		}
	})
}

func FuzzL01_Raw(f *testing.F) {
	f.Add([]byte("a|b||c"), byte('|'), byte(1))
	f.Add([]byte("\n\n\nabc\n"), byte('\n'), byte(2))
	f.Fuzz(func(t *testing.T, stream []byte, delim, chunk byte) {
		beginCase()
		defer endCase()
		lines, tail := splitLines(stream, delim)
		for _, l := range lines {
			if len(l) > 1<<14 {
				return
			}
		}
		if len(tail) > 1<<14 {
			return
		}
		r := lineproto.NewReader(&chunked{data: stream, n: int(chunk) + 1}, delim)
		for i, exp := range lines {
			got, err := r.ReadLine()
			if err != nil || !bytes.Equal(got, exp) {
				t.Fatalf("line %d of %q: %q, %v", i, stream, got, err)
			}
		}
		if got, err := r.ReadLine(); err == nil {
			t.Fatalf("after the last line of %q: %q", stream, got)
		}
	})
}

type chunked struct {
	data []byte
	n    int
}

func (r *chunked) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	n := r.n
	if n > len(r.data) {
		n = len(r.data)
	}
	n = copy(p, r.data[:n])
	r.data = r.data[n:]
	return n, nil
}
