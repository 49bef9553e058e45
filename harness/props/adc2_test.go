package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"regexp"
	"strings"
	"testing"

	"github.com/direct-connect/go-dc/adc"
	adctypes "github.com/direct-connect/go-dc/adc/types"
	"github.com/direct-connect/go-dc/tiger"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- A06

// junkBytes draws bytes that are likely to get far into an ADC decoder.
var adcJunkTokens = []string{
	" ", "\n", "\\", "\\s", "\\n", "\\\\", "+", "-", "+TCP4", "-NAT0", "+AB", "AD", "RM", "ADBASE", "RMTIGR", "SU", "SUTCP4,UDP4", "SUA", "ID", "PD", "NI", "SS", "ZL1", "AAAA", "AAAB",
	"file", "TTH", "-1", "0", "1", "100", "1e400", "1e-400", "1.5", "99999999999999999999", "144", "ME1", "ME", "ME0", "PM", "PMAAAA", "PMA", "TS", "TR", "TRABC", "/", "//", ",", ",,", "\x00", "\xff", "é",
	"LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ", "LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLN", "BINF", "IINF", "FSCH", "U", "=", "======",
}

func drawJunk(t *rapid.T, label string) []byte {
	switch rapid.IntRange(0, 7).Draw(t, label+"-kind") {
	case 0:
		return rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, label)
	case 1:
		// one token many times
		tok := rapid.SampledFrom(adcJunkTokens).Draw(t, label+"-tok") + rapid.SampledFrom([]string{"", " ", ",", "/"}).Draw(t, label+"-sep")
		n := rapid.SampledFrom([]int{1, 2, 3, 40, 1000, 20000}).Draw(t, label+"-rep")
		return []byte(strings.Repeat(tok, n))
	}
	sep := rapid.SampledFrom([]string{"", " ", " "}).Draw(t, label+"-sep")
	return []byte(strings.Join(rapid.SliceOfN(rapid.SampledFrom(adcJunkTokens), 0, 10).Draw(t, label), sep))
}

// drawBrokenPayload draws a payload for a message type: a mutation of a valid one, or junk.
func drawBrokenPayload(t *rapid.T, k adcKind) []byte {
	if rapid.Bool().Draw(t, "junk") {
		return drawJunk(t, "payload")
	}
	return mutate(t, []byte(k.ref(k.draw(t)).payload()), adcJunkTokens)
}

// mutate changes a byte string in a few places.
func mutate(t *rapid.T, b []byte, tokens []string) []byte {
	b = append([]byte{}, b...)
	for n := rapid.IntRange(1, 3).Draw(t, "mutations"); n > 0; n-- {
		i := 0
		if len(b) > 0 {
			i = rapid.IntRange(0, len(b)).Draw(t, "mut-at")
		}
		switch rapid.IntRange(0, 5).Draw(t, "mut") {
		case 0: // truncate
			b = b[:i]
		case 1: // delete some
			j := i + rapid.IntRange(0, 5).Draw(t, "mut-len")
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:i], b[j:]...)
		case 2: // insert a token
			tok := rapid.SampledFrom(tokens).Draw(t, "mut-tok")
			b = append(b[:i], append([]byte(tok), b[i:]...)...)
		case 3: // replace a byte
			if i < len(b) {
				b[i] = rapid.Byte().Draw(t, "mut-byte")
			}
		case 4: // drop the first bytes
			b = b[i:]
		case 5: // duplicate a part
			j := i + rapid.IntRange(0, 20).Draw(t, "mut-len")
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
		}
	}
	return b
}

func drawBrokenLine(t *rapid.T) []byte {
	switch rapid.IntRange(0, 4).Draw(t, "line-kind") {
	case 0:
		return append(drawJunk(t, "line"), '\n')
	case 1:
		head := string(adcPacketKinds[rapid.IntRange(0, 7).Draw(t, "pk")]) + rapid.SampledFrom([]string{"INF", "MSG", "SCH", "STA", "SUP", "GPA", "GET", "CMD", "QUI", "CTM", "XYZ"}).Draw(t, "cmd")
		return append(append([]byte(head), drawJunk(t, "line")...), '\n')
	}
	k := drawADCKind(t)
	r := drawRefPacket(t)
	var cmd adc.MsgType
	copy(cmd[:], k.name)
	if rapid.Bool().Draw(t, "broken-payload") {
		return []byte(r.line(cmd, string(drawBrokenPayload(t, k))))
	}
	return mutate(t, []byte(r.line(cmd, k.ref(k.draw(t)).payload())), adcJunkTokens)
}

// adcAccepted checks what must hold for an accepted message: it can be encoded, and that form decodes to the same message.
func adcAccepted(fail func(string, ...interface{}), from []byte, m adc.Message) {
	var buf bytes.Buffer
	var err error
	if perr := guard(func() { err = adc.Marshal(&buf, m) }); perr != nil || err != nil {
		fail("%T decoded from %q cannot be encoded: %v %v", m, clip(string(from), 500), perr, err)
	}
	rt := reflect.TypeOf(m)
	if rt.Kind() == reflect.Ptr {
		rt, m = rt.Elem(), reflect.ValueOf(m).Elem().Interface().(adc.Message)
	}
	into := reflect.New(rt)
	if perr := guard(func() { err = adc.Unmarshal(append([]byte{}, buf.Bytes()...), into.Interface()) }); perr != nil || err != nil {
		fail("%s decoded from %q is encoded as %q, which is rejected: %v %v", adcShow(m), clip(string(from), 500), clip(buf.String(), 500), perr, err)
	}
	if again := into.Elem().Interface().(adc.Message); !adcEqual(again, m) {
		fail("%s decoded from %q is encoded as %q, which decodes to %s", adcShow(m), clip(string(from), 500), clip(buf.String(), 500), adcShow(again))
	}
}

// adcStable checks that the encoded form of an accepted packet decodes to the same packet.
func adcStable(fail func(string, ...interface{}), line []byte, p adc.Packet, enc []byte, decode func([]byte) (adc.Packet, error)) {
	if bytes.IndexByte(line, '\n') != len(line)-1 {
		return // several lines given as one
	}
	if fp, ok := p.(*adc.FeaturePacket); ok {
		// a payload that looks like a selector is ambiguous
		var buf bytes.Buffer
		if err := adc.Marshal(&buf, fp.Msg); err != nil || !featurePayloadOK(buf.String()) {
			return
		}
	}
	if n := bytes.IndexByte(enc, '\n'); n != len(enc)-1 {
		fail("packet %q is encoded as %q, which is not one line", clip(string(line), 500), clip(string(enc), 500))
	}
	var again adc.Packet
	var err error
	if perr := guard(func() { again, err = decode(append([]byte{}, enc...)) }); perr != nil || err != nil {
		fail("packet %q is encoded as %q, which is rejected: %v %v", clip(string(line), 500), clip(string(enc), 500), perr, err)
	}
	if !adcEqual(again.Message(), p.Message()) {
		fail("packet %q with %s is encoded as %q with %s", clip(string(line), 500), adcShow(p.Message()), clip(string(enc), 500), adcShow(again.Message()))
	}
	a, b := reflect.ValueOf(again).Elem(), reflect.ValueOf(p).Elem()
	if a.Type() != b.Type() {
		fail("packet %q is encoded as %q, which decodes to %T", clip(string(line), 500), clip(string(enc), 500), again)
	}
	for i := 0; i < a.NumField(); i++ {
		if f := a.Type().Field(i).Name; f != "Msg" && !reflect.DeepEqual(a.Field(i).Interface(), b.Field(i).Interface()) {
			fail("packet %q is encoded as %q, which has another %s: %v", clip(string(line), 500), clip(string(enc), 500), f, a.Field(i))
		}
	}
}

func adcDecodeLine(fail func(string, ...interface{}), line []byte) (adc.Packet, bool) {
	var p adc.Packet
	var err error
	if perr := guard(func() { p, err = adc.DecodePacketRaw(append([]byte{}, line...)) }); perr != nil {
		fail("DecodePacketRaw of %q: %v", clip(string(line), 500), perr)
	}
	if err == nil {
		var buf bytes.Buffer
		if perr := guard(func() { err = p.MarshalPacketADC(&buf) }); perr != nil || err != nil {
			fail("raw packet %q cannot be encoded: %v %v", clip(string(line), 500), perr, err)
		}
		adcStable(fail, line, p, buf.Bytes(), adc.DecodePacketRaw)
		raw := p.Message()
		for _, k := range adcKinds {
			into := k.fresh()
			var err error
			if perr := guard(func() { err = p.DecodeMessageTo(into) }); perr != nil {
				fail("DecodeMessageTo %T of %q: %v", into, clip(string(line), 500), perr)
			}
			if err == nil {
				adcAccepted(fail, line, into)
			}
		}
		if perr := guard(func() { err = p.DecodeMessage() }); perr != nil {
			fail("DecodeMessage of %q: %v", clip(string(line), 500), perr)
		}
		_ = raw
	}
	var q adc.Packet
	if perr := guard(func() { q, err = adc.DecodePacket(append([]byte{}, line...)) }); perr != nil {
		fail("DecodePacket of %q: %v", clip(string(line), 500), perr)
	}
	if err != nil {
		return nil, false
	}
	var buf bytes.Buffer
	if perr := guard(func() { err = q.MarshalPacketADC(&buf) }); perr != nil || err != nil {
		fail("packet %q cannot be encoded: %v %v", clip(string(line), 500), perr, err)
	}
	adcStable(fail, line, q, buf.Bytes(), adc.DecodePacket)
	return q, true
}

// adcValues are the decoders of single values.
var adcValues = map[string]func(b []byte) (interface{}, error){
	"SID":         func(b []byte) (interface{}, error) { var v adc.SID; err := v.UnmarshalADC(b); return v, err },
	"CID":         func(b []byte) (interface{}, error) { var v adc.CID; err := v.UnmarshalADC(b); return v, err },
	"CIDText":     func(b []byte) (interface{}, error) { var v adc.CID; err := v.UnmarshalText(b); return v, err },
	"CID32":       func(b []byte) (interface{}, error) { var v adc.CID; err := v.FromBase32(string(b)); return v, err },
	"TTH":         func(b []byte) (interface{}, error) { var v adc.TTH; err := v.UnmarshalADC(b); return v, err },
	"TTHText":     func(b []byte) (interface{}, error) { var v tiger.Hash; err := v.UnmarshalText(b); return v, err },
	"TTH32":       func(b []byte) (interface{}, error) { var v tiger.Hash; err := v.UnmarshalBase32(b); return v, err },
	"TTHFrom":     func(b []byte) (interface{}, error) { var v tiger.Hash; err := v.FromBase32(string(b)); return v, err },
	"Feature":     func(b []byte) (interface{}, error) { var v adc.Feature; err := v.UnmarshalADC(b); return v, err },
	"ExtFeatures": func(b []byte) (interface{}, error) { var v adc.ExtFeatures; err := v.UnmarshalADC(b); return v, err },
	"ModFeatures": func(b []byte) (interface{}, error) { var v adc.ModFeatures; err := v.UnmarshalADC(b); return v, err },
	"BoolInt":     func(b []byte) (interface{}, error) { var v adc.BoolInt; err := v.UnmarshalADC(b); return v, err },
	"String":      func(b []byte) (interface{}, error) { var v adc.String; err := v.UnmarshalADC(b); return v, err },
	"Path":        func(b []byte) (interface{}, error) { var v adc.Path; err := v.UnmarshalADC(b); return v, err },
	"Fields":      func(b []byte) (interface{}, error) { var v adc.Fields; err := v.UnmarshalADC(b); return v, err },
}

var adcValueNames = []string{"SID", "CID", "CIDText", "CID32", "TTH", "TTHText", "TTH32", "TTHFrom", "Feature", "ExtFeatures", "ModFeatures", "BoolInt", "String", "Path", "Fields"}

func adcDecodeValues(fail func(string, ...interface{}), b []byte) {
	for _, name := range adcValueNames {
		var v interface{}
		var err error
		if perr := guard(func() { v, err = adcValues[name](append([]byte{}, b...)) }); perr != nil {
			fail("decoding %q as %s: %v", clip(string(b), 500), name, perr)
		}
		if m, ok := v.(adc.Marshaler); ok && err == nil {
			var buf bytes.Buffer
			if perr := guard(func() { err = m.MarshalADC(&buf) }); perr != nil || err != nil {
				fail("%s decoded from %q cannot be encoded: %v %v", name, clip(string(b), 500), perr, err)
			}
			if name == "CIDText" || name == "CID32" || name == "TTHText" || name == "TTH32" || name == "TTHFrom" {
				continue // these read another form than the ADC one
			}
			var again interface{}
			if perr := guard(func() { again, err = adcValues[name](append([]byte{}, buf.Bytes()...)) }); perr != nil || err != nil {
				fail("%s decoded from %q is encoded as %q, which is rejected: %v %v", name, clip(string(b), 500), clip(buf.String(), 500), perr, err)
			}
			if !reflect.DeepEqual(again, v) {
				fail("%s %v decoded from %q is encoded as %q, which decodes to %v", name, v, clip(string(b), 500), clip(buf.String(), 500), again)
			}
		}
	}
}

func adcDecodePayload(fail func(string, ...interface{}), b []byte) (accepted bool) {
	for _, k := range adcKinds {
		var cmd adc.MsgType
		copy(cmd[:], k.name)
		var m adc.Message
		var err error
		if perr := guard(func() { m, err = adc.UnmarshalMessage(cmd, append([]byte{}, b...)) }); perr != nil {
			fail("UnmarshalMessage %s of %q: %v", cmd, clip(string(b), 500), perr)
		}
		if err == nil {
			accepted = true
			adcAccepted(fail, b, m)
		}
		into := k.fresh()
		if perr := guard(func() { err = adc.Unmarshal(append([]byte{}, b...), into) }); perr != nil {
			fail("Unmarshal of %q into %T: %v", clip(string(b), 500), into, perr)
		}
		if err == nil {
			adcAccepted(fail, b, into)
		}
	}
	return accepted
}

func TestA06_Lines(t *testing.T) {
	check(t, 6000, "a mutated valid line, a line of protocol fragments, or random bytes, given to every packet decoder; non-trivial: at least 6 bytes", func(c *C) {
		line := drawBrokenLine(c.T)
		c.Key("%q", line)
		c.NonTrivial(len(line) >= 6)
		if _, ok := adcDecodeLine(c.Fatalf, line); ok {
			c.Label("accepted")
		} else {
			c.Label("rejected")
		}
	})
}

func TestA06_Payloads(t *testing.T) {
	check(t, 3000, "a mutated valid payload, protocol fragments, or random bytes, given to the decoder of every message and value type; non-trivial: at least 2 bytes", func(c *C) {
		b := drawBrokenPayload(c.T, drawADCKind(c.T))
		c.Key("%q", b)
		c.NonTrivial(len(b) >= 2)
		if adcDecodePayload(c.Fatalf, b) {
			c.Label("accepted by a message type")
		}
		adcDecodeValues(c.Fatalf, b)
		adcDecodeValues(c.Fatalf, drawJunk(c.T, "value"))
	})
}

// TestA06_Neighbours decodes everything that is one small edit away from a valid packet.
func TestA06_Neighbours(t *testing.T) {
	check(t, 60, "every line one edit away from a valid packet; non-trivial: the payload is not empty", func(c *C) {
		k := drawADCKind(c.T)
		r := drawRefPacket(c.T)
		var cmd adc.MsgType
		copy(cmd[:], k.name)
		payload := k.ref(k.draw(c.T)).payload()
		if len(payload) > 2000 {
			payload = payload[:2000]
		}
		line := []byte(r.line(cmd, payload))
		c.Key("%q", line)
		c.NonTrivial(payload != "")
		neighbours(line, " +-,/\\", []string{" ", "\\", "+", "-", ",", "/", "\n", "\x00", "\xff", "1", "E"}, func(v []byte) {
			var p adc.Packet
			var err error
			if perr := guard(func() { p, err = adc.DecodePacketRaw(append([]byte{}, v...)) }); perr != nil {
				c.Fatalf("DecodePacketRaw of %q: %v", clip(string(v), 500), perr)
			}
			if err != nil {
				_ = err.Error()
				return
			}
			raw := p.Message().(*adc.RawMessage).Data
			var buf bytes.Buffer
			if perr := guard(func() { err = p.MarshalPacketADC(&buf) }); perr != nil || err != nil {
				c.Fatalf("raw packet %q cannot be encoded: %v %v", clip(string(v), 500), perr, err)
			}
			into := k.fresh()
			if perr := guard(func() { err = adc.Unmarshal(append([]byte{}, raw...), into) }); perr != nil {
				c.Fatalf("Unmarshal %q to %T: %v", clip(string(raw), 500), into, perr)
			}
			if err == nil {
				adcAccepted(c.Fatalf, v, into)
			}
			if perr := guard(func() { err = p.DecodeMessage() }); perr != nil {
				c.Fatalf("DecodeMessage of %q: %v", clip(string(v), 500), perr)
			}
			if err == nil {
				buf.Reset()
				if perr := guard(func() { err = p.MarshalPacketADC(&buf) }); perr != nil || err != nil {
					c.Fatalf("packet %q cannot be encoded: %v %v", clip(string(v), 500), perr, err)
				}
				adcStable(c.Fatalf, v, p, buf.Bytes(), adc.DecodePacket)
			}
		})
	})
}

func TestA06_Stream(t *testing.T) {
	check(t, 3000, "a connection that mixes valid packets with broken lines, read with any of the reading calls; every line must give what it gives alone; non-trivial: a broken line is followed by a valid one", func(c *C) {
		n := rapid.IntRange(1, 8).Draw(c.T, "lines")
		var lines [][]byte
		var valid []bool
		broken := false
		var all []byte
		for i := 0; i < n; i++ {
			var line []byte
			ok := rapid.Bool().Draw(c.T, "valid")
			if ok {
				k := drawRegisteredKind(c.T)
				r := drawRefPacket(c.T)
				payload := k.ref(k.draw(c.T)).payload()
				if r.kind == 'F' && !featurePayloadOK(payload) {
					r.kind, r.sel = 'B', nil
				}
				var cmd adc.MsgType
				copy(cmd[:], k.name)
				line = []byte(r.line(cmd, payload))
				c.NonTrivial(broken)
			} else {
				b := drawBrokenLine(c.T)
				b = bytes.ReplaceAll(b, []byte("\n"), nil)
				if len(b) == 0 {
					b = []byte("?")
				}
				if len(b) > 20000 {
					b = b[:20000]
				}
				line = append(b, '\n')
				broken = true
			}
			if len(line) > 30000 {
				line = append(line[:20000], '\n')
				ok = false
			}
			lines = append(lines, line)
			valid = append(valid, ok)
			all = append(all, line...)
			c.Key("%v %q;", ok, clip(string(line), 60))
		}
		rd := adc.NewReader(drawEOFReader(c.T, all))
		for i, line := range lines {
			alone, aloneErr := adc.DecodePacket(append([]byte{}, line...))
			if valid[i] && aloneErr != nil {
				c.Fatalf("valid line %q is rejected: %v", line, aloneErr)
			}
			mode := rapid.IntRange(0, 3).Draw(c.T, "call")
			var p adc.Packet
			var m adc.Message
			var err error
			if perr := guard(func() {
				switch mode {
				case 0:
					p, err = rd.ReadPacket()
				case 1:
					p, err = rd.ReadPacketRaw()
					if err == nil {
						err = p.DecodeMessage()
					}
				case 2:
					m, err = rd.ReadInfo()
				case 3:
					m, err = rd.ReadClient()
				}
			}); perr != nil {
				c.Fatalf("reading %q: %v", line, perr)
			}
			wantOK := aloneErr == nil
			if mode == 2 && wantOK && alone.Kind() != 'I' || mode == 3 && wantOK && alone.Kind() != 'C' {
				wantOK = false
			}
			if (err == nil) != wantOK {
				c.Fatalf("line %d %q read with call %d: error %v; decoded alone: %v", i, line, mode, err, aloneErr)
			}
			if err == nil {
				if mode < 2 {
					m = p.Message()
					if !reflect.DeepEqual(stripMsg(p), stripMsg(alone)) {
						c.Fatalf("line %d %q read as %+v, alone %+v", i, line, p, alone)
					}
				}
				if !adcEqual(m, alone.Message()) {
					c.Fatalf("line %d %q read as %s, alone %s", i, line, adcShow(m), adcShow(alone.Message()))
				}
			}
		}
		if _, err := rd.ReadPacket(); err != io.EOF {
			c.Fatalf("after the last line: %v, want EOF", err)
		}
	})
}

// stripMsg copies a packet without its message.
func stripMsg(p adc.Packet) adc.Packet {
	rv := reflect.New(reflect.TypeOf(p).Elem())
	rv.Elem().Set(reflect.ValueOf(p).Elem())
	q := rv.Interface().(adc.Packet)
	q.SetMessage(nil)
	return q
}

// ---------------------------------------------------------------- A07

var errFailingMsg = errors.New("cannot encode")

// failingMsg writes a part of its payload and fails.
type failingMsg struct {
	cmd  adc.MsgType
	part string
}

func (m *failingMsg) Cmd() adc.MsgType { return m.cmd }

func (m *failingMsg) MarshalADC(buf *bytes.Buffer) error {
	buf.WriteString(m.part)
	return errFailingMsg
}

func TestA07_Delivery(t *testing.T) {
	check(t, 4000, "a history of packets written by every route (packet call, per-kind call, per-destination stream), keep-alives and flushes, read back by every reading call over a fragmented connection; non-trivial: at least two packets", func(c *C) {
		type event struct {
			ka bool
			r  refPacket
			m  adc.Message
			k  adcKind
		}
		var out bytes.Buffer
		var w *adc.Writer
		if rapid.Bool().Draw(c.T, "defsize") {
			w = adc.NewWriter(&out)
		} else {
			w = adc.NewWriterSize(&out, rapid.SampledFrom([]int{16, 17, 64, 4096}).Draw(c.T, "bufsize"))
		}
		type dest struct {
			r refPacket
			s adc.WriteStream
		}
		var dests []dest
		var want []event
		var wire []string
		packets := 0
		n := rapid.IntRange(1, 12).Draw(c.T, "ops")
		must := func(err error) {
			if err != nil {
				c.Fatalf("write failed: %v", err)
			}
		}
		for i := 0; i < n; i++ {
			switch op := rapid.IntRange(0, 6).Draw(c.T, "op"); op {
			case 6:
				// a message that cannot be encoded leaves no trace on the connection
				m := &failingMsg{cmd: adc.MsgType{'F', 'A', 'L'}, part: drawPayload(c.T, "part")}
				r := drawRefPacket(c.T)
				if err := w.WritePacket(r.build(m)); err == nil {
					c.Fatalf("writing a message that cannot be encoded succeeded")
				}
				if err := w.Err(); err != nil {
					c.Fatalf("a message that cannot be encoded broke the writer: %v", err)
				}
				c.Key("fail;")
				c.Label("unencodable message")
			case 0:
				must(w.WriteKeepAlive())
				want = append(want, event{ka: true})
				wire = append(wire, "\n")
				c.Key("ka;")
			case 1:
				must(w.Flush())
				if got := out.String(); got != strings.Join(wire, "") {
					c.Fatalf("after a flush the connection carries %q, want %q", clip(got, 1000), clip(strings.Join(wire, ""), 1000))
				}
				c.Key("flush;")
			default:
				var r refPacket
				var st adc.WriteStream
				if op == 2 && len(dests) > 0 {
					d := dests[pick(c.T, "dest", len(dests))]
					r, st = d.r, d.s
				} else {
					r = drawRefPacket(c.T)
				}
				k := drawADCKind(c.T)
				if k.name == "SUP" {
					k = adcKindByName("STA") // the order of its parameters is not fixed
				}
				m := k.draw(c.T)
				if rapid.IntRange(0, 9).Draw(c.T, "unknown") == 0 {
					k = adcKind{name: "raw", registered: true}
					m = &adc.RawMessage{Type: drawUnknownCmd(c.T), Data: []byte("x" + drawPayload(c.T, "raw"))}
				}
				data, err := marshalADC(m)
				must(err)
				if r.kind == 'F' && !featurePayloadOK(string(data)) {
					r.kind, r.sel, st = 'B', nil, nil
				}
				packets++
				var pb bytes.Buffer
				must(r.build(m).MarshalPacketADC(&pb))
				wire = append(wire, pb.String())
				if pb.String() != r.line(m.Cmd(), string(data)) {
					c.Fatalf("packet encoded as %q, want %q", pb.String(), r.line(m.Cmd(), string(data)))
				}
				route := rapid.IntRange(0, 2).Draw(c.T, "route")
				if st != nil {
					route = 2
				}
				if r.kind == 'U' {
					route = 0
				}
				switch route {
				case 0:
					must(w.WritePacket(r.build(m)))
				case 1:
					switch r.kind {
					case 'I':
						must(w.WriteInfo(m))
					case 'H':
						must(w.WriteHub(m))
					case 'C':
						must(w.WriteClient(m))
					case 'B':
						must(w.WriteBroadcast(r.id, m))
					case 'D':
						must(w.WriteDirect(r.id, r.to, m))
					case 'E':
						must(w.WriteEcho(r.id, r.to, m))
					case 'F':
						must(w.WriteFeature(r.id, r.sel, m))
					}
				case 2:
					if st == nil {
						switch r.kind {
						case 'I':
							st = w.InfoStream()
						case 'H':
							st = w.HubStream()
						case 'C':
							st = w.ClientStream()
						case 'B':
							st = w.BroadcastStream(r.id)
						case 'D':
							st = w.DirectStream(r.id, r.to)
						case 'E':
							st = w.EchoStream(r.id, r.to)
						case 'F':
							st = w.FeatureStream(r.id, r.sel)
						}
						dests = append(dests, dest{r, st})
					}
					must(st.WriteMessage(m))
					if rapid.IntRange(0, 3).Draw(c.T, "sflush") == 0 {
						must(st.Flush())
						if got := out.String(); got != strings.Join(wire, "") {
							c.Fatalf("after a stream flush the connection carries %q, want %q", clip(got, 1000), clip(strings.Join(wire, ""), 1000))
						}
					}
				}
				c.Label("%c route %d", r.kind, route)
				c.Key("%c%d %q;", r.kind, route, clip(string(data), 40))
				want = append(want, event{r: r, m: m, k: k})
			}
		}
		if rapid.Bool().Draw(c.T, "close") {
			must(w.Close())
		} else {
			must(w.Flush())
		}
		c.NonTrivial(packets > 1)
		stream := out.Bytes()
		if string(stream) != strings.Join(wire, "") {
			c.Fatalf("the connection carries %q, want %q", clip(string(stream), 2000), clip(strings.Join(wire, ""), 2000))
		}

		src := drawReader(c.T, stream)
		rd := adc.NewReader(src)
		rd.SetMaxLine(0)
		kaSeen, kaTotal := 0, 0
		errKA := errors.New("keep-alive refused")
		failKA := -1
		cb := rapid.IntRange(0, 2).Draw(c.T, "callback")
		if cb > 0 {
			if cb == 2 {
				failKA = rapid.IntRange(0, 3).Draw(c.T, "failKA")
			}
			rd.OnKeepAlive = func() error {
				kaSeen++
				kaTotal++
				if kaTotal-1 == failKA {
					return errKA
				}
				return nil
			}
		}
		i := 0
		kaCount := 0 // keep-alives passed by the model
		for {
			// what the model expects from the next read
			kaSeen = 0
			kaWant := 0
			var exp *event
			refused := false
			for i < len(want) {
				ev := want[i]
				i++
				if ev.ka {
					kaWant++
					kaCount++
					if cb > 0 && kaCount-1 == failKA {
						refused = true
						break
					}
					continue
				}
				exp = &ev
				break
			}
			mode := rapid.IntRange(0, 4).Draw(c.T, "call")
			if exp != nil && mode >= 3 && rapid.Bool().Draw(c.T, "match") {
				// let the typed calls hit more often
				if exp.r.kind == 'I' {
					mode = 3
				} else if exp.r.kind == 'C' {
					mode = 4
				} else {
					mode = 0
				}
			}
			if exp != nil && !exp.k.registered {
				mode = 2
			}
			var p adc.Packet
			var m adc.Message
			var err error
			if perr := guard(func() {
				switch mode {
				case 0, 1:
					p, err = rd.ReadPacket()
				case 2:
					p, err = rd.ReadPacketRaw()
				case 3:
					m, err = rd.ReadInfo()
				case 4:
					m, err = rd.ReadClient()
				}
			}); perr != nil {
				c.Fatalf("read: %v", perr)
			}
			if cb > 0 && kaSeen != kaWant {
				c.Fatalf("the keep-alive callback was called %d times before item %d, want %d", kaSeen, i, kaWant)
			}
			if refused {
				if err != errKA {
					c.Fatalf("keep-alive callback failed, but the read returned %v", err)
				}
				continue
			}
			if exp == nil {
				if err != src.err {
					c.Fatalf("at the end of the stream: %v, want %v", err, src.err)
				}
				break
			}
			wantOK := true
			switch {
			case mode == 3 && exp.r.kind != 'I', mode == 4 && exp.r.kind != 'C':
				wantOK = false
			}
			if !wantOK {
				if err == nil {
					c.Fatalf("a call for another kind accepted a %c packet: %s", exp.r.kind, adcShow(m))
				}
				continue
			}
			if err != nil {
				c.Fatalf("cannot read packet %d (%c %s): %v", i, exp.r.kind, adcShow(exp.m), err)
			}
			if mode < 3 {
				if d := exp.r.diff(p); d != "" {
					c.Fatalf("packet %d: %s", i, d)
				}
				if mode == 2 {
					if raw, ok := p.Message().(*adc.RawMessage); !ok || raw.Type != exp.m.Cmd() {
						c.Fatalf("raw packet %d has a %T", i, p.Message())
					}
					if exp.k.registered {
						if err := p.DecodeMessage(); err != nil {
							c.Fatalf("packet %d: %v", i, err)
						}
					} else {
						into := exp.k.fresh()
						if err := p.DecodeMessageTo(into); err != nil {
							c.Fatalf("packet %d: %v", i, err)
						}
						p.SetMessage(into)
					}
				}
				m = p.Message()
			}
			if exp.k.registered && !adcTypeOK(m, exp.m) || !adcEqual(m, exp.m) {
				c.Fatalf("packet %d is read as\n%s\nwritten\n%s", i, adcShow(m), adcShow(exp.m))
			}
		}
	})
}

// ---------------------------------------------------------------- A08

type numStruct struct {
	Int   int   `adc:"IN"`
	Int64 int64 `adc:"LO"`
	Int32 int32 `adc:"ME"`
	Int16 int16 `adc:"SH"`
	Ptr   *int  `adc:"PT"`
	List  []int `adc:"LI"`
}

type posStruct struct {
	Int   int   `adc:"#"`
	Int32 int32 `adc:"#"`
}

// numTarget decodes a number as one field.
type numTarget struct {
	name  string
	bits  uint
	plain bool // only plain decimal notation is accepted
	dec   func(s string) (int64, error)
}

func numInto(tag string, get func(v *numStruct) int64) func(string) (int64, error) {
	return func(s string) (int64, error) {
		var v numStruct
		err := adc.Unmarshal([]byte("XXyy "+tag+s+" ZZ1"), &v)
		if err != nil {
			return 0, err
		}
		return get(&v), nil
	}
}

var numTargets = []numTarget{
	{"int", 64, false, numInto("IN", func(v *numStruct) int64 { return int64(v.Int) })},
	{"int64", 64, false, numInto("LO", func(v *numStruct) int64 { return v.Int64 })},
	{"int32", 32, false, numInto("ME", func(v *numStruct) int64 { return int64(v.Int32) })},
	{"int16", 16, false, numInto("SH", func(v *numStruct) int64 { return int64(v.Int16) })},
	{"*int", 64, false, numInto("PT", func(v *numStruct) int64 {
		if v.Ptr == nil {
			return -12345
		}
		return int64(*v.Ptr)
	})},
	{"[]int", 64, false, numInto("LI", func(v *numStruct) int64 {
		if len(v.List) != 1 {
			return -12345
		}
		return int64(v.List[0])
	})},
	{"positional", 64, false, func(s string) (int64, error) {
		var v posStruct
		err := adc.Unmarshal([]byte(s+" 7"), &v)
		return int64(v.Int), err
	}},
	{"positional32", 32, false, func(s string) (int64, error) {
		var v posStruct
		err := adc.Unmarshal([]byte("7 "+s), &v)
		return int64(v.Int32), err
	}},
	{"INF SS", 64, false, func(s string) (int64, error) {
		m, err := adc.UnmarshalMessage(adc.MsgType{'I', 'N', 'F'}, []byte("NIx SS"+s))
		if err != nil {
			return 0, err
		}
		return m.(adc.UserInfo).ShareSize, nil
	}},
	{"INF SL", 64, false, func(s string) (int64, error) {
		m, err := adc.UnmarshalMessage(adc.MsgType{'I', 'N', 'F'}, []byte("SL"+s))
		if err != nil {
			return 0, err
		}
		return int64(m.(adc.UserInfo).Slots), nil
	}},
	{"MSG TS", 64, false, func(s string) (int64, error) {
		m, err := adc.UnmarshalMessage(adc.MsgType{'M', 'S', 'G'}, []byte("text TS"+s))
		if err != nil {
			return 0, err
		}
		return m.(adc.ChatMessage).TS, nil
	}},
	{"SCH GE", 64, false, func(s string) (int64, error) {
		m, err := adc.UnmarshalMessage(adc.MsgType{'S', 'C', 'H'}, []byte("ANx GE"+s+" TY1"))
		if err != nil {
			return 0, err
		}
		return m.(adc.SearchRequest).Ge, nil
	}},
	{"CTM port", 64, false, func(s string) (int64, error) {
		m, err := adc.UnmarshalMessage(adc.MsgType{'C', 'T', 'M'}, []byte("ADC/1.0 "+s+" 123"))
		if err != nil {
			return 0, err
		}
		return int64(m.(adc.ConnectRequest).Port), nil
	}},
	{"GET start", 64, true, func(s string) (int64, error) {
		m, err := adc.UnmarshalMessage(adc.MsgType{'G', 'E', 'T'}, []byte("file x "+s+" -1"))
		if err != nil {
			return 0, err
		}
		return m.(adc.GetRequest).Start, nil
	}},
	{"SND bytes", 64, true, func(s string) (int64, error) {
		m, err := adc.UnmarshalMessage(adc.MsgType{'S', 'N', 'D'}, []byte("file x 5 "+s+" ZL1"))
		if err != nil {
			return 0, err
		}
		return m.(adc.GetResponse).Bytes, nil
	}},
}

var (
	rePlainInt = regexp.MustCompile(`^[+-]?[0-9]+$`)
	reFloat    = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
)

// drawNumber draws a number in one of the notations, or something that is none.
func drawNumber(t *rapid.T) string {
	edge := func() *big.Int {
		b := rapid.SampledFrom([]uint{0, 7, 8, 15, 16, 24, 31, 32, 53, 63, 64, 70}).Draw(t, "bit")
		v := new(big.Int).Lsh(big.NewInt(1), b)
		v.Add(v, big.NewInt(int64(rapid.IntRange(-3, 3).Draw(t, "delta"))))
		if rapid.Bool().Draw(t, "neg") {
			v.Neg(v)
		}
		return v
	}
	var v *big.Int
	if rapid.Bool().Draw(t, "edge") {
		v = edge()
	} else {
		v = big.NewInt(rapid.Int64().Draw(t, "v"))
		if rapid.Bool().Draw(t, "small") {
			v = big.NewInt(int64(rapid.IntRange(-100000, 100000).Draw(t, "sv")))
		}
	}
	s := v.String()
	switch rapid.IntRange(0, 11).Draw(t, "notation") {
	case 0, 1:
		return s
	case 2:
		if s[0] != '-' {
			return "+" + s
		}
		return "-" + strings.Repeat("0", rapid.IntRange(1, 30).Draw(t, "zeros")) + s[1:]
	case 3:
		if s[0] != '-' {
			return strings.Repeat("0", rapid.IntRange(1, 30).Draw(t, "zeros")) + s
		}
		return s
	case 4:
		return s + "." + strings.Repeat("0", rapid.IntRange(0, 25).Draw(t, "frac"))
	case 5:
		// trailing zeros as an exponent
		e := rapid.IntRange(-3, 20).Draw(t, "exp")
		return s + rapid.SampledFrom([]string{"e", "E", "e+"}).Draw(t, "e") + strings.TrimPrefix(fmt.Sprint(e), "+")
	case 6:
		// d.ddde+NN
		neg := ""
		if s[0] == '-' {
			neg, s = "-", s[1:]
		}
		if len(s) > 1 {
			return fmt.Sprintf("%s%s.%se+%02d", neg, s[:1], s[1:], len(s)-1)
		}
		return neg + s + "e+00"
	case 7:
		// fractions
		return s + "." + rapid.StringMatching(`[0-9]{1,20}`).Draw(t, "frac")
	case 8:
		return s + "." + rapid.StringMatching(`[0-9]{1,4}`).Draw(t, "frac") + "e" + fmt.Sprint(rapid.IntRange(-30, 30).Draw(t, "exp"))
	case 9:
		return rapid.SampledFrom([]string{"-", "+", ".", "e", "e5", ".e5", "1e", "1e+", "--1", "+-1", "-+1", "0x10", "0X1F", "1_000", "1,000", "1.0.0", "1e5e5", "1e5.0", "Inf", "-inf", "NaN", "infinity", "one", "1k", "1\\s", "\\s1", "１", "0b1", "0o7", "1e400", "-1e400", "1e-400", "0.5", ".5", "5.", "-.0", "-0", "-0.0", "0e5", "0.0e-5"}).Draw(t, "special")
	case 10:
		// junk glued to a number
		j := rapid.SampledFrom([]string{"a", "%", "-", "+", ".", "x", "_", "\t", "\\", "é", "'", "0x"}).Draw(t, "junk")
		if rapid.Bool().Draw(t, "before") {
			return j + s
		}
		return s + j
	}
	return rapid.StringMatching(`[-+]?[0-9]{1,25}(\.[0-9]{0,25})?(e[-+]?[0-9]{1,2})?`).Draw(t, "any")
}

func TestA08_Integers(t *testing.T) {
	check(t, 30000, "a number around the limits of 16 to 64 bits in plain, floating-point or broken notation, decoded as every kind of integer parameter, against exact rational arithmetic; non-trivial: not a plain number below 1000", func(c *C) {
		s := drawNumber(c.T)
		tg := numTargets[pick(c.T, "target", len(numTargets))]
		c.Key("%s %q", tg.name, s)
		c.NonTrivial(len(s) > 3 || !rePlainInt.MatchString(s))
		var want *big.Int
		plain := rePlainInt.MatchString(s)
		if plain || !tg.plain && reFloat.MatchString(s) {
			if r, ok := new(big.Rat).SetString(s); ok && r.IsInt() {
				want = new(big.Int).Set(r.Num())
			}
		}
		if want != nil {
			lim := new(big.Int).Lsh(big.NewInt(1), tg.bits-1)
			if want.Cmp(lim) >= 0 || want.Cmp(new(big.Int).Neg(lim)) < 0 {
				want = nil
			}
		}
		var got int64
		var err error
		if perr := guard(func() { got, err = tg.dec(s) }); perr != nil {
			c.Fatalf("%s %q: %v", tg.name, s, perr)
		}
		if want == nil {
			c.Label("rejected")
			if err == nil {
				c.Fatalf("%s %q is not an integer of the field's range, but is decoded as %d", tg.name, s, got)
			}
			return
		}
		c.Label("accepted")
		if err != nil {
			c.Fatalf("%s %q is rejected: %v", tg.name, s, err)
		}
		if big.NewInt(got).Cmp(want) != 0 {
			c.Fatalf("%s %q is decoded as %d, want %s", tg.name, s, got, want)
		}
	})
}

func TestA08_Flags(t *testing.T) {
	check(t, 3000, "a flag value of one or more characters for every flag parameter; non-trivial: not empty", func(c *C) {
		s := rapid.OneOf(rapid.SampledFrom([]string{"0", "1", "00", "01", "10", "11", "true", "false", "1.0", "0x1"}), rapid.StringMatching(`[01]{2,5}`), rapid.StringMatching(`[01][a-z ]{1,3}`)).Draw(c.T, "flag")
		s = refEscape(s)
		c.Key("%q", s)
		c.NonTrivial(true)
		type flags struct {
			B bool          `adc:"BB"`
			I adc.BoolInt   `adc:"BI"`
			L []bool        `adc:"BL"`
			P *adc.BoolInt  `adc:"BP"`
			Z []adc.BoolInt `adc:"BZ"`
		}
		dec := map[string]func() (bool, error){
			"MSG ME": func() (bool, error) {
				m, err := adc.UnmarshalMessage(adc.MsgType{'M', 'S', 'G'}, []byte("hi ME"+s))
				if err != nil {
					return false, err
				}
				return m.(adc.ChatMessage).Me, nil
			},
			"bool":        func() (bool, error) { var v flags; err := adc.Unmarshal([]byte("BB"+s), &v); return v.B, err },
			"BoolInt":     func() (bool, error) { var v flags; err := adc.Unmarshal([]byte("BI"+s), &v); return bool(v.I), err },
			"one BoolInt": func() (bool, error) { var v adc.BoolInt; err := v.UnmarshalADC([]byte(s)); return bool(v), err },
			"[]bool": func() (bool, error) {
				var v flags
				err := adc.Unmarshal([]byte("BL"+s), &v)
				return len(v.L) == 1 && v.L[0], err
			},
			"*BoolInt": func() (bool, error) {
				var v flags
				err := adc.Unmarshal([]byte("BP"+s), &v)
				return v.P != nil && bool(*v.P), err
			},
			"[]BoolInt": func() (bool, error) {
				var v flags
				err := adc.Unmarshal([]byte("BZ"+s), &v)
				return len(v.Z) == 1 && bool(v.Z[0]), err
			},
		}
		for name, f := range dec {
			var got bool
			var err error
			if perr := guard(func() { got, err = f() }); perr != nil {
				c.Fatalf("%s %q: %v", name, s, perr)
			}
			if s != "0" && s != "1" {
				if err == nil {
					c.Fatalf("flag %s accepts %q as %v", name, s, got)
				}
				continue
			}
			if err != nil || got != (s == "1") {
				c.Fatalf("flag %s %q decoded as %v (%v)", name, s, got, err)
			}
		}
		// and flags are written as 0 and 1
		for _, b := range []bool{true, false} {
			var buf bytes.Buffer
			if err := adc.BoolInt(b).MarshalADC(&buf); err != nil || buf.String() != map[bool]string{true: "1", false: "0"}[b] {
				c.Fatalf("flag %v written as %q (%v)", b, buf.String(), err)
			}
		}
	})
}

func TestA08_StatusCodes(t *testing.T) {
	check(t, 3000, "a three-digit status code, or something that is not a number in its place; non-trivial: always", func(c *C) {
		c.NonTrivial(true)
		msg := adcText(c.T, "msg")
		if rapid.Bool().Draw(c.T, "valid") {
			sev, code := rapid.IntRange(0, 2).Draw(c.T, "sev"), rapid.IntRange(0, 99).Draw(c.T, "code")
			w := fmt.Sprintf("%d%02d", sev, code)
			c.Key("%s %q", w, clip(msg, 20))
			m, err := adc.UnmarshalMessage(adc.MsgType{'S', 'T', 'A'}, []byte(w+" "+refEscape(msg)))
			if err != nil {
				c.Fatalf("status %s is rejected: %v", w, err)
			}
			st, ok := m.(adc.Status)
			if !ok || int(st.Sev) != sev || st.Code != code || st.Msg != msg {
				c.Fatalf("status %s %q decoded as %+v", w, msg, m)
			}
			if st.Ok() != (sev == 0) || st.Recoverable() != (sev < 2) {
				c.Fatalf("status %s: Ok=%v Recoverable=%v", w, st.Ok(), st.Recoverable())
			}
			if err := st.Err(); (err == nil) != (sev == 0) {
				c.Fatalf("status %s gives error %v", w, err)
			}
			return
		}
		bad := rapid.SampledFrom([]string{"", "a", "1a0", "1.0", "1e2", "0x1", "10-", "--1", "１００", "99999999999999999999", "100a", "\\s100", "ok"}).Draw(c.T, "bad")
		c.Key("%s", bad)
		if m, err := adc.UnmarshalMessage(adc.MsgType{'S', 'T', 'A'}, []byte(bad+" "+refEscape(msg))); err == nil {
			c.Fatalf("status code %q is accepted as %+v", bad, m)
		}
	})
}

var _ = adctypes.NewPID

// TestA06_Cost: memory and time for decoding stay in proportion to the size of the input.
func TestA06_Cost(t *testing.T) {
	check(t, 400, "the input is at least 4 KiB long or contains a huge number", func(c *C) {
		k := drawADCKind(c.T)
		b := drawCostly(c.T, []byte(k.ref(k.draw(c.T)).payload()), adcJunkTokens, 128<<10)
		b = bytes.ReplaceAll(b, []byte("\n"), []byte(" "))
		c.Key("%d %q", len(b), clip(string(b), 200))
		c.NonTrivial(len(b) >= 4096 || bytes.Contains(b, []byte("000000")))
		c.Label("%s", k.name)
		for _, k := range []adcKind{k, drawADCKind(c.T)} {
			var cmd adc.MsgType
			copy(cmd[:], k.name)
			checkCost(c.Fatalf, k.name, b, func() { adc.UnmarshalMessage(cmd, b) })
			r := drawRefPacket(c.T)
			line := []byte(r.line(cmd, string(b)))
			checkCost(c.Fatalf, "DecodePacket", line, func() { adc.DecodePacket(line) })
			checkCost(c.Fatalf, "Reader", line, func() {
				r := adc.NewReader(bytes.NewReader(line))
				r.SetMaxLine(0)
				r.ReadPacket()
			})
		}
		name := adcValueNames[pick(c.T, "value", len(adcValueNames))]
		checkCost(c.Fatalf, name, b, func() { adcValues[name](b) })
	})
}
