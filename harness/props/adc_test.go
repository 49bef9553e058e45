package props

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/direct-connect/go-dc/adc"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- A01

func TestA01_Layout(t *testing.T) {
	check(t, 6000, "a packet of a random kind with random identifiers, feature selectors, command name and raw payload; non-trivial: it has an identifier, a selector or a payload", func(c *C) {
		r := drawRefPacket(c.T)
		cmd := drawCmd(c.T)
		payload := drawPayload(c.T, "payload")
		if r.kind == 'F' && !featurePayloadOK(payload) {
			payload = "x" + payload
		}
		c.Key("%c %v %v %q %q", r.kind, r.id, r.sel, string(cmd[:]), payload)
		c.NonTrivial(payload != "" || strings.IndexByte("IHC", r.kind) < 0)
		c.Label("kind %c", r.kind)
		want := r.line(cmd, payload)

		pre := rapid.SampledFrom([]string{"", "x", "previous line\n"}).Draw(c.T, "prefix")
		buf := bytes.NewBufferString(pre)
		p := r.build(&adc.RawMessage{Type: cmd, Data: []byte(payload)})
		if err := p.MarshalPacketADC(buf); err != nil {
			c.Fatalf("cannot encode %q: %v", want, err)
		}
		if got := buf.String(); got != pre+want {
			c.Fatalf("encoded as %q, want %q", got, pre+want)
		}
		line := []byte(want)
		var q adc.Packet
		if err := guard(func() {
			var e error
			if q, e = adc.DecodePacketRaw(line); e != nil {
				panic(e)
			}
		}); err != nil {
			c.Fatalf("cannot decode %q: %v", want, err)
		}
		if d := r.diff(q); d != "" {
			c.Fatalf("%q decoded wrong: %s", want, d)
		}
		raw, ok := q.Message().(*adc.RawMessage)
		if !ok {
			c.Fatalf("%q decoded to %T, want a raw message", want, q.Message())
		}
		if raw.Type != cmd || raw.Cmd() != cmd || string(raw.Data) != payload {
			c.Fatalf("%q decoded to command %q payload %q, want %q %q", want, raw.Type, raw.Data, cmd, payload)
		}
		// the packet decodes the same from what follows the name
		body := append([]byte{}, want[4:]...)
		if body[0] == ' ' {
			body = body[1:]
		}
		d := r.fresh()
		if err := adcErr(c, "UnmarshalPacketADC", func() error { return d.UnmarshalPacketADC(cmd, body) }); err != nil {
			c.Fatalf("%T cannot be decoded from %q: %v", d, body, err)
		}
		if msg := r.diff(d); msg != "" {
			c.Fatalf("%T decoded from %q: %s", d, body, msg)
		}
		if !reflect.DeepEqual(d.Message(), q.Message()) {
			c.Fatalf("%T decoded from %q has the message %+v, want %+v", d, body, d.Message(), q.Message())
		}
		// again, from what was decoded
		buf.Reset()
		if err := q.MarshalPacketADC(buf); err != nil || buf.String() != want {
			c.Fatalf("decoded packet is encoded as %q (%v), want %q", buf.String(), err, want)
		}
		// the message can be replaced
		q.SetMessage(adc.ZOn{})
		if q.Message() != (adc.ZOn{}) {
			c.Fatalf("SetMessage is not visible in Message")
		}
		if d := r.diff(q); d != "" {
			c.Fatalf("SetMessage changed the header: %s", d)
		}
	})
}

func TestA01_Malformed(t *testing.T) {
	check(t, 6000, "a valid packet line broken in one stated way (kind, newline, separator, truncation, identifier, selector, null byte); non-trivial: always", func(c *C) {
		r := drawRefPacket(c.T)
		cmd := drawCmd(c.T)
		payload := drawPayload(c.T, "payload")
		if r.kind == 'F' && !featurePayloadOK(payload) {
			payload = "x" + payload
		}
		line := []byte(r.line(cmd, payload))
		var hdr int // length of the identifiers, with the separator before each
		var seps []int
		switch r.kind {
		case 'B', 'F':
			hdr, seps = 5, []int{4, 9}
		case 'D', 'E':
			hdr, seps = 10, []int{4, 9, 14}
		case 'U':
			hdr, seps = 40, []int{4, 44}
		default:
			seps = []int{4}
		}
		modes := []string{"kind", "newline", "null", "sep", "short"}
		if hdr > 0 {
			modes = append(modes, "truncated", "ident")
		}
		if len(r.sel) > 0 {
			modes = append(modes, "selector")
		}
		mode := rapid.SampledFrom(modes).Draw(c.T, "mode")
		switch mode {
		case "kind":
			b := rapid.Byte().Filter(func(b byte) bool { return strings.IndexByte(adcPacketKinds, b) < 0 }).Draw(c.T, "byte")
			line[0] = b
		case "newline":
			if rapid.Bool().Draw(c.T, "replace") {
				line[len(line)-1] = rapid.Byte().Filter(func(b byte) bool { return b != '\n' }).Draw(c.T, "byte")
			} else {
				line = line[:len(line)-1]
			}
		case "null":
			i := rapid.IntRange(0, len(line)-1).Draw(c.T, "at")
			if rapid.Bool().Draw(c.T, "insert") {
				line = append(line[:i], append([]byte{0}, line[i:]...)...)
			} else {
				line[i] = 0
			}
		case "sep":
			i := rapid.SampledFrom(seps).Draw(c.T, "sep")
			b := rapid.SampledFrom([]byte("xA0_,:;.\t\r|\x7f")).Draw(c.T, "byte")
			if i >= len(line)-1 {
				// the separator would be the end of the line: make it something else
				line = append(line[:i], b, '\n')
			} else {
				line[i] = b
			}
		case "short":
			line = append(line[:rapid.IntRange(0, 3).Draw(c.T, "len")], '\n')
		case "truncated":
			line = append(line[:rapid.IntRange(4, 4+hdr-1).Draw(c.T, "len")], '\n')
		case "ident":
			i := rapid.IntRange(5, 5+hdr-2).Draw(c.T, "at")
			if i == 9 && (r.kind == 'D' || r.kind == 'E') {
				i = 8
			}
			line[i] = rapid.SampledFrom([]byte("abz0189 -+=_/\\.\xff\t")).Draw(c.T, "byte")
		case "selector":
			if rapid.Bool().Draw(c.T, "inside") {
				// some bytes of any selector are missing
				i := 10 + 6*pick(c.T, "which", len(r.sel))
				j := rapid.IntRange(1, 4).Draw(c.T, "from")
				k := rapid.IntRange(j+1, 5).Draw(c.T, "to")
				if i+5 == len(line)-1 {
					line = append(line[:i+j], '\n') // at the end of the line
				} else {
					line = append(line[:i+j], line[i+k:]...)
				}
				break
			}
			// the line ends inside the last selector
			line = []byte(r.line(cmd, ""))
			line = append(line[:len(line)-1-rapid.IntRange(1, 4).Draw(c.T, "cut")], '\n')
		}
		c.Key("%s %q", mode, line)
		c.NonTrivial(true)
		c.Label("%s %c", mode, r.kind)
		for _, f := range []func([]byte) (adc.Packet, error){adc.DecodePacketRaw, adc.DecodePacket} {
			var p adc.Packet
			var err error
			in := append([]byte{}, line...)
			if perr := guard(func() { p, err = f(in) }); perr != nil {
				c.Fatalf("decoding %q: %v", line, perr)
			}
			if err == nil {
				c.Fatalf("malformed line %q (%s) decoded to %T %+v", line, mode, p, p)
			}
		}
		if mode == "newline" || mode == "truncated" || mode == "ident" || mode == "selector" {
			body := append([]byte{}, line[4:]...)
			if len(body) != 0 && body[0] == ' ' {
				body = body[1:]
			}
			p := r.fresh()
			if err := adcErr(c, "UnmarshalPacketADC", func() error { return p.UnmarshalPacketADC(cmd, body) }); err == nil {
				c.Fatalf("malformed body %q (%s) decoded to %T %+v", body, mode, p, p)
			}
		}
	})
}

// ---------------------------------------------------------------- A02

func TestA02_Payload(t *testing.T) {
	check(t, 10000, "a message of a random type with random field values, encoded and decoded through the payload calls; non-trivial: the payload is not empty", func(c *C) {
		k := drawADCKind(c.T)
		m := k.draw(c.T)
		c.Label(k.name)
		data, err := marshalADC(m)
		if err != nil {
			c.Fatalf("cannot encode %s: %v", adcShow(m), err)
		}
		c.Key("%s %q", k.name, data)
		c.NonTrivial(len(data) > 0)
		if got := adc.MustMarshal(m); !sameADCPayload(k, m, got, data) {
			c.Fatalf("MustMarshal gives %q, Marshal %q", got, data)
		}
		// appending to a buffer keeps its content; a pointer to the message is encoded as the message
		ptr := reflect.New(reflect.TypeOf(m))
		ptr.Elem().Set(reflect.ValueOf(m))
		buf := bytes.NewBufferString("before ")
		if err := adc.Marshal(buf, ptr.Interface().(adc.Message)); err != nil {
			c.Fatalf("cannot encode a pointer to %s: %v", adcShow(m), err)
		}
		if !strings.HasPrefix(buf.String(), "before ") || !sameADCPayload(k, m, buf.Bytes()[7:], data) {
			c.Fatalf("encoded after \"before \" as %q, alone as %q", buf.String(), data)
		}
		if k.registered {
			got, err := adc.UnmarshalMessage(m.Cmd(), append([]byte{}, data...))
			if err != nil {
				c.Fatalf("cannot decode %s from %q: %v", k.name, data, err)
			}
			if !adcTypeOK(got, m) || !adcEqual(got, m) {
				c.Fatalf("decoded from %q:\n%s\nwant\n%s", data, adcShow(got), adcShow(m))
			}
		}
		into := k.fresh()
		if err := adc.Unmarshal(append([]byte{}, data...), into); err != nil {
			c.Fatalf("cannot decode into %T from %q: %v", into, data, err)
		}
		if !adcEqual(into, m) {
			c.Fatalf("decoded into a message from %q:\n%s\nwant\n%s", data, adcShow(into), adcShow(m))
		}
	})
}

func sameADCPayload(k adcKind, m adc.Message, a, b []byte) bool {
	if bytes.Equal(a, b) {
		return true
	}
	r := k.ref(m)
	return r.diff(string(a)) == "" && r.diff(string(b)) == ""
}

func TestA02_Packet(t *testing.T) {
	check(t, 8000, "a message of a random type in a packet of a random kind, decoded in every way a packet offers; non-trivial: the packet has a payload", func(c *C) {
		k := drawADCKind(c.T)
		m := k.draw(c.T)
		r := drawRefPacket(c.T)
		data, err := marshalADC(m)
		if err != nil {
			c.Fatalf("cannot encode %s: %v", adcShow(m), err)
		}
		if r.kind == 'F' && !featurePayloadOK(string(data)) {
			r.kind = 'B'
			r.sel = nil
		}
		c.Key("%c %s %q", r.kind, k.name, data)
		c.NonTrivial(len(data) > 0)
		c.Label("%c %s", r.kind, k.name)
		var buf bytes.Buffer
		if err := r.build(m).MarshalPacketADC(&buf); err != nil {
			c.Fatalf("cannot encode packet with %s: %v", adcShow(m), err)
		}
		line := buf.Bytes()
		same := func(how string, got adc.Message, typed bool) {
			c.Helper()
			if typed && !adcTypeOK(got, m) || !adcEqual(got, m) {
				c.Fatalf("%s of %q:\n%s\nwant\n%s", how, line, adcShow(got), adcShow(m))
			}
		}
		dec := func(f func([]byte) (adc.Packet, error)) adc.Packet {
			p, err := f(append([]byte{}, line...))
			if err != nil {
				c.Fatalf("cannot decode %q: %v", line, err)
			}
			if d := r.diff(p); d != "" {
				c.Fatalf("%q decoded wrong: %s", line, d)
			}
			return p
		}
		if k.registered {
			same("DecodePacket", dec(adc.DecodePacket).Message(), true)
			p := dec(adc.DecodePacketRaw)
			if raw, ok := p.Message().(*adc.RawMessage); !ok {
				c.Fatalf("raw packet has a %T", p.Message())
			} else if d, err := raw.Decode(); err != nil {
				c.Fatalf("cannot decode raw message of %q: %v", line, err)
			} else {
				same("RawMessage.Decode", d, true)
			}
			if err := p.DecodeMessage(); err != nil {
				c.Fatalf("DecodeMessage of %q: %v", line, err)
			}
			same("DecodeMessage", p.Message(), true)
			if err := p.DecodeMessage(); err != nil {
				c.Fatalf("second DecodeMessage of %q: %v", line, err)
			}
			same("second DecodeMessage", p.Message(), true)
		}
		p := dec(adc.DecodePacketRaw)
		into := k.fresh()
		if err := p.DecodeMessageTo(into); err != nil {
			c.Fatalf("DecodeMessageTo %T of %q: %v", into, line, err)
		}
		same("DecodeMessageTo", into, false)
		// a message of another type is refused
		o := drawADCKind(c.T)
		if other := o.fresh(); other.Cmd() != m.Cmd() {
			if err := p.DecodeMessageTo(other); err == nil {
				c.Fatalf("DecodeMessageTo decodes %q into a %T", line, other)
			}
		}
	})
}

func TestA02_Unknown(t *testing.T) {
	check(t, 3000, "an unknown command with a random payload; non-trivial: non-empty payload", func(c *C) {
		cmd := drawUnknownCmd(c.T)
		payload := drawPayload(c.T, "payload")
		r := drawRefPacket(c.T)
		if r.kind == 'F' && !featurePayloadOK(payload) {
			payload = "x" + payload
		}
		c.Key("%c %s %q", r.kind, cmd, payload)
		c.NonTrivial(payload != "")
		p, err := adc.DecodePacket([]byte(r.line(cmd, payload)))
		if err != nil {
			c.Fatalf("cannot decode unknown command: %v", err)
		}
		raw, ok := p.Message().(*adc.RawMessage)
		if !ok || raw.Type != cmd || string(raw.Data) != payload {
			c.Fatalf("unknown command %q %q decoded to %T %+v", cmd, payload, p.Message(), p.Message())
		}
		var buf bytes.Buffer
		if err := p.MarshalPacketADC(&buf); err != nil || buf.String() != r.line(cmd, payload) {
			c.Fatalf("encoded again as %q (%v), want %q", buf.String(), err, r.line(cmd, payload))
		}
	})
}

// ---------------------------------------------------------------- A03

func TestA03_Wire(t *testing.T) {
	check(t, 12000, "a message of a random type with random field values, compared to an independent encoder; non-trivial: at least one parameter", func(c *C) {
		k := drawADCKind(c.T)
		m := k.draw(c.T)
		c.Label(k.name)
		want := k.ref(m)
		c.Key("%s %q", k.name, want.payload())
		c.NonTrivial(want.payload() != "")
		data, err := marshalADC(m)
		if err != nil {
			c.Fatalf("cannot encode %s: %v", adcShow(m), err)
		}
		if d := want.diff(string(data)); d != "" {
			c.Fatalf("%s %s", adcShow(m), d)
		}
		if name := m.Cmd(); string(name[:]) != k.name[:3] || name.String() != k.name[:3] {
			c.Fatalf("command of %T is %q, want %q", m, name, k.name[:3])
		}
		// and the reference encoding, made without the library, is understood
		into := k.fresh()
		if err := adc.Unmarshal([]byte(want.payload()), into); err != nil {
			c.Fatalf("cannot decode %s from %q: %v", k.name, want.payload(), err)
		}
		if !adcEqual(into, m) {
			c.Fatalf("%q decoded to\n%s\nwant\n%s", want.payload(), adcShow(into), adcShow(m))
		}
	})
}

// ---------------------------------------------------------------- A04

// textField puts a text into one place of the protocol and gets it back.
type textField struct {
	name string
	make func(s string) adc.Message
	get  func(m adc.Message) string
}

var textFields = []textField{
	{"MSG", func(s string) adc.Message { return adc.ChatMessage{Text: s} }, func(m adc.Message) string { return m.(*adc.ChatMessage).Text }},
	{"STA", func(s string) adc.Message { return adc.Status{Sev: 1, Code: 40, Msg: s} }, func(m adc.Message) string { return m.(*adc.Status).Msg }},
	{"RCM", func(s string) adc.Message { return adc.RevConnectRequest{Proto: "ADC/1.0", Token: s} }, func(m adc.Message) string { return m.(*adc.RevConnectRequest).Token }},
	{"CTM", func(s string) adc.Message { return adc.ConnectRequest{Proto: s, Port: 1, Token: "t"} }, func(m adc.Message) string { return m.(*adc.ConnectRequest).Proto }},
	{"CTM", func(s string) adc.Message { return adc.ConnectRequest{Proto: "p", Port: 1, Token: s} }, func(m adc.Message) string { return m.(*adc.ConnectRequest).Token }},
	{"GFI", func(s string) adc.Message { return adc.GetInfoRequest{Type: "file", Path: s} }, func(m adc.Message) string { return m.(*adc.GetInfoRequest).Path }},
	{"GET", func(s string) adc.Message { return adc.GetRequest{Type: "file", Path: s, Bytes: -1} }, func(m adc.Message) string { return m.(*adc.GetRequest).Path }},
	{"GET", func(s string) adc.Message { return adc.GetRequest{Type: s, Path: "x", Bytes: -1} }, func(m adc.Message) string { return m.(*adc.GetRequest).Type }},
	{"SND", func(s string) adc.Message { return adc.GetResponse{Type: "file", Path: s, Bytes: 4, Compressed: true} }, func(m adc.Message) string { return m.(*adc.GetResponse).Path }},
	{"CMD", func(s string) adc.Message { return adc.UserCommand{Path: adc.Path{"a"}, Command: s} }, func(m adc.Message) string { return m.(*adc.UserCommand).Command }},
	{"CMD", func(s string) adc.Message { return adc.UserCommand{Path: adc.Path{"a", s, "b"}} }, func(m adc.Message) string {
		if p := m.(*adc.UserCommand).Path; len(p) == 3 {
			return p[1]
		}
		return "<wrong number of path elements>"
	}},
	{"QUI", func(s string) adc.Message { return adc.Disconnect{ID: adc.SID{'A', 'A', 'A', 'B'}, Message: s} }, func(m adc.Message) string { return m.(*adc.Disconnect).Message }},
	{"QUI", func(s string) adc.Message { return adc.Disconnect{ID: adc.SID{'A', 'A', 'A', 'B'}, Redirect: s} }, func(m adc.Message) string { return m.(*adc.Disconnect).Redirect }},
	{"SCH", func(s string) adc.Message { return adc.SearchRequest{Token: s} }, func(m adc.Message) string { return m.(*adc.SearchRequest).Token }},
	{"SCH", func(s string) adc.Message { return adc.SearchRequest{And: []string{"a", s, "b"}} }, func(m adc.Message) string {
		if p := m.(*adc.SearchRequest).And; len(p) == 3 {
			return p[1]
		}
		return "<wrong number of elements>"
	}},
	{"RES", func(s string) adc.Message { return adc.SearchResult{Path: s} }, func(m adc.Message) string { return m.(*adc.SearchResult).Path }},
	{"INF", func(s string) adc.Message { return adc.UserInfo{Name: s} }, func(m adc.Message) string { return m.(*adc.UserInfo).Name }},
	{"INF", func(s string) adc.Message { return adc.UserInfo{Desc: s} }, func(m adc.Message) string { return m.(*adc.UserInfo).Desc }},
	{"INF-hub", func(s string) adc.Message { return adc.HubInfo{Name: s} }, func(m adc.Message) string { return m.(*adc.HubInfo).Name }},
	{"INF-mod", func(s string) adc.Message { return adc.UserInfoMod{{Tag: [2]byte{'D', 'E'}, Value: s}} }, func(m adc.Message) string {
		if p := *m.(*adc.UserInfoMod); len(p) == 1 {
			return p[0].Value
		}
		return "<wrong number of fields>"
	}},
}

var escTokens = rapid.SliceOfN(rapid.SampledFrom([]string{`\`, `\`, `s`, `n`, ` `, "\n", `\s`, `\n`, `\\`, "a", "é", "PM", "\r", "r"}), 0, 12)

func drawEscText(t *rapid.T) string {
	if rapid.IntRange(0, 3).Draw(t, "txt") == 0 {
		return adcText(t, "text")
	}
	return strings.Join(escTokens.Draw(t, "tokens"), "")
}

func TestA04_Lossless(t *testing.T) {
	check(t, 10000, "a text made mostly of backslashes, s, n, spaces and newlines in every text field; non-trivial: it contains a backslash, space or newline", func(c *C) {
		s := drawEscText(c.T)
		c.Key("%q", s)
		c.NonTrivial(strings.ContainsAny(s, " \n\\"))
		esc := refEscape(s)
		f := textFields[pick(c.T, "field", len(textFields))]
		if f.name == "CMD" {
			s = strings.ReplaceAll(s, "/", "_")
			esc = refEscape(s)
		}
		// the elementary text value
		var buf bytes.Buffer
		if err := adc.String(s).MarshalADC(&buf); err != nil || buf.String() != esc {
			c.Fatalf("%q escaped as %q (%v), want %q", s, buf.String(), err, esc)
		}
		var back adc.String
		if err := back.UnmarshalADC([]byte(esc)); err != nil || string(back) != s {
			c.Fatalf("%q unescaped as %q (%v), want %q", esc, back, err, s)
		}
		k := adcKindByName(f.name)
		m := f.make(s)
		c.Label(f.name)
		var pb bytes.Buffer
		if err := (&adc.InfoPacket{Msg: m}).MarshalPacketADC(&pb); err != nil {
			c.Fatalf("cannot encode %s: %v", adcShow(m), err)
		}
		line := pb.Bytes()
		if n := bytes.IndexByte(line, '\n'); n != len(line)-1 {
			c.Fatalf("the line of %T with text %q contains a newline at %d: %q", m, s, n, line)
		}
		if a, b := bytes.Count(line, []byte(" ")), emptyADCLine(c, f, s); a != b {
			c.Fatalf("text %q makes %d separators, want %d: %q", s, a, b, line)
		}
		if s != "" && !bytes.Contains(line, []byte(esc)) {
			c.Fatalf("%T: the escaped text %q is not on the line %q", m, esc, line)
		}
		p, err := adc.DecodePacketRaw(line)
		if err != nil {
			c.Fatalf("cannot decode %q: %v", line, err)
		}
		into := k.fresh()
		if err := p.DecodeMessageTo(into); err != nil {
			c.Fatalf("cannot decode %q: %v", line, err)
		}
		if got := f.get(into); got != s {
			c.Fatalf("text of %q decoded as %q, want %q", line, got, s)
		}
		if !adcEqual(into, m) {
			c.Fatalf("text %q changes other fields: %q decoded to %s, want %s", s, line, adcShow(into), adcShow(m))
		}
	})
}

// emptyADCLine counts the separators a field with this text has by the protocol: those with a plain word, or with no text.
func emptyADCLine(c *C, f textField, s string) int {
	w := "x"
	if s == "" {
		w = ""
	}
	var buf bytes.Buffer
	_ = (&adc.InfoPacket{Msg: f.make(w)}).MarshalPacketADC(&buf)
	return bytes.Count(buf.Bytes(), []byte(" "))
}

func TestA04_Foreign(t *testing.T) {
	check(t, 6000, "a wire text of valid escape sequences and plain bytes in every text field; non-trivial: at least one escape sequence", func(c *C) {
		w := strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{`\s`, `\n`, `\\`, `\\`, "s", "n", "a", "é", "\r", "\t"}), 0, 12).Draw(c.T, "wire"), "")
		want, ok := refUnescape(w)
		if !ok {
			c.Fatalf("harness: bad wire text %q", w)
		}
		c.Key("%q", w)
		c.NonTrivial(strings.Contains(w, `\`))
		f := textFields[pick(c.T, "field", len(textFields))]
		k := adcKindByName(f.name)
		c.Label(f.name)
		ref := k.ref(f.make("@@@"))
		payload := strings.Replace(ref.payload(), "@@@", w, 1)
		into := k.fresh()
		if err := adc.Unmarshal([]byte(payload), into); err != nil {
			c.Fatalf("cannot decode %q: %v", payload, err)
		}
		if got := f.get(into); got != want {
			c.Fatalf("text of %q decoded as %q, want %q", payload, got, want)
		}
	})
}

// ---------------------------------------------------------------- A05

// knownTags are the names of the parameters of a message type.
func knownTags(m adc.Message) map[string]bool {
	out := map[string]bool{}
	rt := reflect.TypeOf(m)
	if rt.Kind() == reflect.Ptr {
		rt = rt.Elem()
	}
	for i := 0; i < rt.NumField(); i++ {
		tag := strings.SplitN(rt.Field(i).Tag.Get("adc"), ",", 2)[0]
		out[tag] = true
	}
	return out
}

func drawNamedKind(t *rapid.T) adcKind {
	for {
		if k := drawADCKind(t); k.named {
			return k
		}
	}
}

// refTags are the parameter names of each message, independent of the library.
var refTags = map[string]string{
	"MSG": "PM ME TS", "CMD": "TT CT RM CO SP", "QUI": "MS ID TL RD", "SCH": "TO AN NO EX LE GE EQ TY TR GR RX",
	"RES": "TO FN SI SL TR", "INF": "ID PD NI I4 I6 U4 U6 SS SF VE AP US DS SL FS AS EM DE HN HR HO TO CT AW RF SU KP EA",
	"INF-hub": "NI VE AP DE CT HH WS NE OW UC SS SF MS XS ML XL MC UP XU XR XO",
}

func TestA05_OrderAndUnknown(t *testing.T) {
	check(t, 10000, "a message with named parameters whose parameters are permuted (repeated ones keep their order) and mixed with parameters of unknown names; non-trivial: at least two named parameters or an unknown one", func(c *C) {
		k := drawNamedKind(c.T)
		m := k.draw(c.T)
		c.Label(k.name)
		ref := k.ref(m)
		// group by name, then interleave the groups
		var order []string
		groups := map[string][]string{}
		for _, p := range ref.named {
			tag := clipTag(p)
			if len(groups[tag]) == 0 {
				order = append(order, tag)
			}
			groups[tag] = append(groups[tag], p)
		}
		known := knownTags(m)
		for _, tag := range strings.Fields(refTags[k.name]) {
			known[tag] = true
		}
		unknown := 0
		for n := rapid.IntRange(0, 4).Draw(c.T, "unknown"); n > 0; n-- {
			tag := drawTag(c.T)
			if rapid.Bool().Draw(c.T, "similar") && len(order) > 0 {
				// one letter of a known name
				kt := order[rapid.IntRange(0, len(order)-1).Draw(c.T, "like")]
				if rapid.Bool().Draw(c.T, "case") {
					// the known name, one or both letters in lower case
					l := 1 + rapid.IntRange(0, 2).Draw(c.T, "lower")
					for i := range tag {
						tag[i] = kt[i]
						if l>>uint(i)&1 != 0 {
							tag[i] = strings.ToLower(kt[i : i+1])[0]
						}
					}
				} else {
					tag[rapid.IntRange(0, 1).Draw(c.T, "pos")] = kt[rapid.IntRange(0, 1).Draw(c.T, "kpos")]
				}
			}
			if known[string(tag[:])] {
				continue
			}
			unknown++
			g := string(tag[:])
			if len(groups[g]) == 0 {
				order = append(order, g)
			}
			groups[g] = append(groups[g], g+refEscape(adcText(c.T, "value")))
		}
		var parts []string
		parts = append(parts, ref.pos...)
		for len(order) > 0 {
			i := rapid.IntRange(0, len(order)-1).Draw(c.T, "next")
			g := order[i]
			parts = append(parts, groups[g][0])
			groups[g] = groups[g][1:]
			if len(groups[g]) == 0 {
				order = append(order[:i], order[i+1:]...)
			}
		}
		payload := strings.Join(parts, " ")
		c.Key("%s %q", k.name, payload)
		c.NonTrivial(len(ref.named) > 1 || unknown > 0)
		if unknown > 0 {
			c.Label("with unknown parameters")
		}
		into := k.fresh()
		if err := adc.Unmarshal([]byte(payload), into); err != nil {
			c.Fatalf("cannot decode %q: %v", payload, err)
		}
		if !adcEqual(into, m) {
			c.Fatalf("%q decoded to\n%s\nwant\n%s", payload, adcShow(into), adcShow(m))
		}
		if k.registered {
			got, err := adc.UnmarshalMessage(m.Cmd(), []byte(payload))
			if err != nil || !adcEqual(got, m) {
				c.Fatalf("%q decoded to\n%s (%v)\nwant\n%s", payload, adcShow(got), err, adcShow(m))
			}
		}
	})
}

// infField is one parameter of a user info: how it is written and what it does to a record.
type infField struct {
	tag   string
	clear bool // may be empty, which clears it
	multi bool // may be repeated
	draw  func(t *rapid.T) (wire string, apply func(u *adc.UserInfo))
	reset func(u *adc.UserInfo)
}

func infText(tag string, p func(u *adc.UserInfo) *string) infField {
	return infField{tag: tag, clear: true, draw: func(t *rapid.T) (string, func(u *adc.UserInfo)) {
		s := adcText(t, tag)
		if s == "" {
			s = "x"
		}
		return refEscape(s), func(u *adc.UserInfo) { *p(u) = s }
	}, reset: func(u *adc.UserInfo) { *p(u) = "" }}
}

func infInt(tag string, set func(u *adc.UserInfo, v int64)) infField {
	return infField{tag: tag, clear: true, draw: func(t *rapid.T) (string, func(u *adc.UserInfo)) {
		v := drawInt64(t, tag)
		return fmt.Sprint(v), func(u *adc.UserInfo) { set(u, v) }
	}, reset: func(u *adc.UserInfo) { set(u, 0) }}
}

var infFields = []infField{
	{tag: "ID", draw: func(t *rapid.T) (string, func(u *adc.UserInfo)) {
		v := draw24(t, "id")
		return stdBase32.EncodeToString(v[:]), func(u *adc.UserInfo) { u.Id = v }
	}},
	{tag: "PD", clear: true, draw: func(t *rapid.T) (string, func(u *adc.UserInfo)) {
		v := adc.PID(draw24(t, "pid"))
		return stdBase32.EncodeToString(v[:]), func(u *adc.UserInfo) { u.Pid = &v }
	}, reset: func(u *adc.UserInfo) { u.Pid = nil }},
	{tag: "SU", clear: true, draw: func(t *rapid.T) (string, func(u *adc.UserInfo)) {
		var fs adc.ExtFeatures
		var s []string
		for n := rapid.IntRange(1, 4).Draw(t, "n"); n > 0; n-- {
			f := drawFeature(t, "su")
			fs = append(fs, f)
			s = append(s, string(f[:]))
		}
		return strings.Join(s, ","), func(u *adc.UserInfo) { u.Features = fs }
	}, reset: func(u *adc.UserInfo) { u.Features = nil }},
	infText("NI", func(u *adc.UserInfo) *string { return &u.Name }),
	infText("I4", func(u *adc.UserInfo) *string { return &u.Ip4 }),
	infText("I6", func(u *adc.UserInfo) *string { return &u.Ip6 }),
	infInt("U4", func(u *adc.UserInfo, v int64) { u.Udp4 = int(v) }),
	infInt("U6", func(u *adc.UserInfo, v int64) { u.Udp6 = int(v) }),
	infInt("SS", func(u *adc.UserInfo, v int64) { u.ShareSize = v }),
	infInt("SF", func(u *adc.UserInfo, v int64) { u.ShareFiles = int(v) }),
	infText("VE", func(u *adc.UserInfo) *string { return &u.Version }),
	infText("AP", func(u *adc.UserInfo) *string { return &u.Application }),
	infText("US", func(u *adc.UserInfo) *string { return &u.MaxUpload }),
	infText("DS", func(u *adc.UserInfo) *string { return &u.MaxDownload }),
	infInt("SL", func(u *adc.UserInfo, v int64) { u.Slots = int(v) }),
	infInt("FS", func(u *adc.UserInfo, v int64) { u.SlotsFree = int(v) }),
	infInt("AS", func(u *adc.UserInfo, v int64) { u.AutoSlotLimit = int(v) }),
	infText("EM", func(u *adc.UserInfo) *string { return &u.Email }),
	infText("DE", func(u *adc.UserInfo) *string { return &u.Desc }),
	infInt("HN", func(u *adc.UserInfo, v int64) { u.HubsNormal = int(v) }),
	infInt("HR", func(u *adc.UserInfo, v int64) { u.HubsRegistered = int(v) }),
	infInt("HO", func(u *adc.UserInfo, v int64) { u.HubsOperator = int(v) }),
	infText("TO", func(u *adc.UserInfo) *string { return &u.Token }),
	infInt("CT", func(u *adc.UserInfo, v int64) { u.Type = adc.UserType(v) }),
	infInt("AW", func(u *adc.UserInfo, v int64) { u.Away = adc.AwayType(v) }),
	infText("RF", func(u *adc.UserInfo) *string { return &u.Ref }),
	infText("KP", func(u *adc.UserInfo) *string { return &u.KP }),
	infText("EA", func(u *adc.UserInfo) *string { return &u.Address }),
}

func TestA05_Updates(t *testing.T) {
	check(t, 8000, "a user info followed by a sequence of updates, each mentioning random fields (some empty) and unknown ones; non-trivial: at least one update mentions a field", func(c *C) {
		var got, want adc.UserInfo
		if rapid.Bool().Draw(c.T, "initial") {
			want = drawUserInfo(c.T)
			if err := adc.Unmarshal(adc.MustMarshal(want), &got); err != nil {
				c.Fatalf("cannot decode the initial info: %v", err)
			}
		}
		n := rapid.IntRange(1, 5).Draw(c.T, "updates")
		for i := 0; i < n; i++ {
			used := map[string]bool{}
			var parts []string
			for f := rapid.IntRange(0, 6).Draw(c.T, "fields"); f > 0; f-- {
				fd := infFields[pick(c.T, "field", len(infFields))]
				if used[fd.tag] {
					continue
				}
				used[fd.tag] = true
				c.NonTrivial(true)
				if fd.clear && rapid.IntRange(0, 2).Draw(c.T, "clear") == 0 {
					parts = append(parts, fd.tag)
					fd.reset(&want)
					c.Label("cleared")
					continue
				}
				w, apply := fd.draw(c.T)
				parts = append(parts, fd.tag+w)
				apply(&want)
			}
			if rapid.IntRange(0, 3).Draw(c.T, "unknown") == 0 {
				parts = append(parts, "ZZ"+refEscape(adcText(c.T, "unknown-value")))
			}
			payload := strings.Join(parts, " ")
			c.Key("%q;", payload)
			if err := adc.Unmarshal([]byte(payload), &got); err != nil {
				c.Fatalf("update %q fails: %v", payload, err)
			}
			if !adcEqual(got, want) {
				c.Fatalf("after update %q the record is\n%s\nwant\n%s", payload, adcShow(got), adcShow(want))
			}
		}
	})
}

func TestA05_Duplicates(t *testing.T) {
	check(t, 4000, "a message in which one single-valued text or number parameter occurs twice (same or different value, any position); non-trivial: always", func(c *C) {
		type dup struct {
			kind string
			tags []string
		}
		d := rapid.SampledFrom([]dup{
			{"MSG", []string{"ME", "TS"}}, {"CMD", []string{"TT", "CT", "RM", "CO", "SP"}}, {"QUI", []string{"MS", "TL", "RD"}},
			{"SCH", []string{"TO", "LE", "GE", "EQ", "TY", "GR"}}, {"RES", []string{"TO", "FN", "SI", "SL"}},
			{"INF", []string{"NI", "I4", "I6", "U4", "U6", "SS", "SF", "VE", "AP", "US", "DS", "SL", "FS", "AS", "EM", "DE", "HN", "HR", "HO", "TO", "CT", "AW", "RF", "KP", "EA"}},
			{"INF-hub", []string{"NI", "VE", "AP", "DE", "CT", "HH", "WS", "NE", "OW", "UC", "SS", "SF", "MS", "XS", "ML", "XL", "MC", "UP", "XU", "XR", "XO"}},
		}).Draw(c.T, "message")
		tag := rapid.SampledFrom(d.tags).Draw(c.T, "tag")
		k := adcKindByName(d.kind)
		ref := k.ref(k.draw(c.T))
		var named []string
		for _, p := range ref.named {
			if clipTag(p) != tag {
				named = append(named, p)
			}
		}
		ins := func(v string) {
			i := rapid.IntRange(0, len(named)).Draw(c.T, "at")
			named = append(named[:i], append([]string{tag + v}, named[i:]...)...)
		}
		v := rapid.SampledFrom([]string{"1", "0", ""}).Draw(c.T, "v1")
		ins(v)
		ins(rapid.SampledFrom([]string{"1", "0", "", v}).Draw(c.T, "v2"))
		ref.named = named
		payload := ref.payload()
		c.Key("%s %q", d.kind, payload)
		c.NonTrivial(true)
		c.Label("%s", d.kind)
		into := k.fresh()
		if err := adc.Unmarshal([]byte(payload), into); err == nil {
			c.Fatalf("parameter %s occurs twice in %q and is accepted: %s", tag, payload, adcShow(into))
		}
	})
}
