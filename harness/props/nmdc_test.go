package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/types"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- N01

// nmdcAgain decodes one encoded message in several ways and compares each result to the original.
func nmdcAgain(c *C, e *nEnc, k nKind, m nmdc.Message, data []byte) {
	got, err := nmdc.Unmarshal(e.decoder(), append([]byte{}, data...))
	if err != nil {
		c.Fatalf("%s: %s encoded as %q does not decode: %v", e.name, nShow(m), clip(string(data), 500), err)
	}
	if !nEqual(got, m) {
		c.Fatalf("%s: %q\nwrote %s\n read %s", e.name, clip(string(data), 500), nShow(m), nShow(got))
	}
	if got.Type() != k.typ {
		c.Fatalf("type %q came back as %q", k.typ, got.Type())
	}
}

func TestN01_Single(t *testing.T) {
	check(t, 8000, "the message has at least one non-empty field", func(c *C) {
		e := drawEncoding(c.T, "enc")
		k, m := drawNMDC(c.T, e)
		c.Label("%s", k.label())
		c.Label("enc:%s", e.name)
		c.NonTrivial(nInteresting(m))
		c.Key("%s %s", e.name, nShow(m))

		data, err := nmdc.Marshal(e.encoder(), m)
		if err != nil {
			c.Fatalf("%s: %s cannot be encoded: %v", e.name, nShow(m), err)
		}
		nmdcAgain(c, e, k, m, data)

		// payload only, into a fresh message of the type
		var buf bytes.Buffer
		if err := m.MarshalNMDC(e.encoder(), &buf); err != nil {
			c.Fatalf("%s: payload of %s: %v", e.name, nShow(m), err)
		}
		fresh := nmdc.NewMessage(k.typ)
		if reflect.TypeOf(fresh) != reflect.TypeOf(m) {
			c.Fatalf("NewMessage(%q) made a %T, want %T", k.typ, fresh, m)
		}
		if err := fresh.UnmarshalNMDC(e.decoder(), buf.Bytes()); err != nil {
			c.Fatalf("%s: payload %q of %s does not decode: %v", e.name, clip(buf.String(), 500), nShow(m), err)
		}
		if !nEqual(fresh, m) {
			c.Fatalf("%s: payload %q\nwrote %s\n read %s", e.name, clip(buf.String(), 500), nShow(m), nShow(fresh))
		}

		// into a message supplied by the caller
		r := nmdc.NewReader(drawEOFReader(c.T, data))
		r.SetDecoder(e.decoder())
		into := nmdc.NewMessage(k.typ)
		if err := r.ReadMsgTo(into); err != nil {
			c.Fatalf("%s: ReadMsgTo of %q: %v", e.name, clip(string(data), 500), err)
		}
		if !nEqual(into, m) {
			c.Fatalf("%s: ReadMsgTo of %q\nwrote %s\n read %s", e.name, clip(string(data), 500), nShow(m), nShow(into))
		}
		if m, err := r.ReadMsg(); err != io.EOF {
			c.Fatalf("more than one message in %q: %v, %v", clip(string(data), 500), m, err)
		}
	})
}

func TestN01_Stream(t *testing.T) {
	check(t, 1500, "at least two messages with non-empty fields", func(c *C) {
		e := drawEncoding(c.T, "enc")
		n := rapid.IntRange(1, 8).Draw(c.T, "n")
		var (
			buf  bytes.Buffer
			msgs []nmdc.Message
			full int
		)
		enc := e.encoder() // one encoder for all, as in a connection
		for i := 0; i < n; i++ {
			k, m := drawNMDC(c.T, e)
			if err := nmdc.MarshalTo(enc, &buf, m); err != nil {
				c.Fatalf("%s: %s cannot be encoded: %v", e.name, nShow(m), err)
			}
			if nInteresting(m) {
				full++
			}
			msgs = append(msgs, m)
			c.Label("%s", k.label())
			c.Key("%s;", nShow(m))
		}
		c.NonTrivial(full > 1)
		r := nmdc.NewReader(drawEOFReader(c.T, buf.Bytes()))
		r.SetMaxLine(0)
		r.SetDecoder(e.decoder())
		for i, m := range msgs {
			got, err := r.ReadMsg()
			if err != nil {
				c.Fatalf("message %d of %q: %v", i, clip(buf.String(), 800), err)
			}
			if !nEqual(got, m) {
				c.Fatalf("message %d of %q:\nwrote %s\n read %s", i, clip(buf.String(), 800), nShow(m), nShow(got))
			}
		}
		if m, err := r.ReadMsg(); err != io.EOF {
			c.Fatalf("more messages than written: %v, %v", m, err)
		}
	})
}

// ---------------------------------------------------------------- N02

func TestN02_Wire(t *testing.T) {
	check(t, 10000, "the message has at least one non-empty field", func(c *C) {
		e := drawEncoding(c.T, "enc")
		k, m := drawNMDC(c.T, e)
		if k.typ == "" && rapid.IntRange(0, 9).Draw(c.T, "empty") == 0 {
			m = &nmdc.ChatMessage{} // encodes to an empty line
		}
		c.Label("%s", k.label())
		c.NonTrivial(nInteresting(m))
		c.Key("%s %s", e.name, nShow(m))

		before := nCopy(m)
		data, err := nmdc.Marshal(e.encoder(), m)
		if err != nil {
			c.Fatalf("%s: %s cannot be encoded: %v", e.name, nShow(m), err)
		}
		if !nEqual(before, m) {
			c.Fatalf("encoding changed the message\nfrom %s\n  to %s", nShow(before), nShow(m))
		}
		if d := k.diff(e, m, string(data)); d != "" {
			c.Fatalf("%s: %s", e.name, d)
		}
		var pay bytes.Buffer
		if err := m.MarshalNMDC(e.encoder(), &pay); err != nil {
			c.Fatalf("%s: payload of %s: %v", e.name, nShow(m), err)
		}
		if d := k.diff(e, m, k.frame(pay.String())); d != "" {
			c.Fatalf("%s: payload: %s", e.name, d)
		}

		// append to a buffer that holds something already
		old := rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(c.T, "old")
		spare := rapid.IntRange(0, 100).Draw(c.T, "spare")
		buf := bytes.NewBuffer(append(make([]byte, 0, len(old)+spare), old...))
		if drop := rapid.IntRange(0, len(old)).Draw(c.T, "drop"); drop > 0 {
			buf.Next(drop)
			old = old[drop:]
		}
		if err := nmdc.MarshalTo(e.encoder(), buf, m); err != nil {
			c.Fatalf("MarshalTo of %s: %v", nShow(m), err)
		}
		if !bytes.HasPrefix(buf.Bytes(), old) {
			c.Fatalf("encoding %s changed what the buffer held: %q -> %q", nShow(m), old, buf.Bytes()[:len(old)])
		}
		if d := k.diff(e, m, string(buf.Bytes()[len(old):])); d != "" {
			c.Fatalf("MarshalTo: %s", d)
		}
	})
}

// ---------------------------------------------------------------- N03

// nSlot is one place of a message that takes user text.
type nSlot struct {
	id     string
	isName bool
	avoid  string // characters that the layout of the command gives a meaning
	put    func(s string) nmdc.Message
	get    func(m nmdc.Message) string
}

func anon(s string) bool { return s == "" || s[0] == '<' }

var nSlots = []nSlot{
	{"HubName", false, "", func(s string) nmdc.Message { return &nmdc.HubName{String: nmdc.String(s)} }, func(m nmdc.Message) string { return string(m.(*nmdc.HubName).String) }},
	{"SetTopic", false, "", func(s string) nmdc.Message { return &nmdc.SetTopic{String: nmdc.String(s)} }, func(m nmdc.Message) string { return string(m.(*nmdc.SetTopic).String) }},
	{"HubTopic", false, "", func(s string) nmdc.Message { return &nmdc.HubTopic{Text: s} }, func(m nmdc.Message) string { return m.(*nmdc.HubTopic).Text }},
	{"MyPass", false, "", func(s string) nmdc.Message { return &nmdc.MyPass{String: nmdc.String(s)} }, func(m nmdc.Message) string { return string(m.(*nmdc.MyPass).String) }},
	{"BotINFO", false, "", func(s string) nmdc.Message { return &nmdc.BotINFO{String: nmdc.String(s)} }, func(m nmdc.Message) string { return string(m.(*nmdc.BotINFO).String) }},
	{"SetIcon", false, "", func(s string) nmdc.Message { return &nmdc.SetIcon{String: nmdc.String(s)} }, func(m nmdc.Message) string { return string(m.(*nmdc.SetIcon).String) }},
	{"SetLogo", false, "", func(s string) nmdc.Message { return &nmdc.SetLogo{String: nmdc.String(s)} }, func(m nmdc.Message) string { return string(m.(*nmdc.SetLogo).String) }},
	{"Failed", false, "", func(s string) nmdc.Message { return &nmdc.Failed{Err: errors.New("x" + s)} }, func(m nmdc.Message) string { return m.(*nmdc.Failed).Err.Error()[1:] }},
	{"Error", false, "", func(s string) nmdc.Message { return &nmdc.Error{Err: errors.New("x" + s)} }, func(m nmdc.Message) string { return m.(*nmdc.Error).Err.Error()[1:] }},
	{"chat text", false, "", func(s string) nmdc.Message { return &nmdc.ChatMessage{Name: "n", Text: s} }, func(m nmdc.Message) string { return m.(*nmdc.ChatMessage).Text }},
	{"chat text without a name", false, "", func(s string) nmdc.Message {
		if anon(s) {
			s = "x" + s
		}
		return &nmdc.ChatMessage{Text: s}
	}, nil},
	{"chat name", true, "", func(s string) nmdc.Message { return &nmdc.ChatMessage{Name: s, Text: "text"} }, func(m nmdc.Message) string { return m.(*nmdc.ChatMessage).Name }},
	{"PM text", false, "", func(s string) nmdc.Message { return &nmdc.PrivateMessage{To: "a", From: "b", Name: "c", Text: s} }, func(m nmdc.Message) string { return m.(*nmdc.PrivateMessage).Text }},
	{"PM to", true, ":", func(s string) nmdc.Message { return &nmdc.PrivateMessage{To: s, From: "b", Name: "c", Text: "text"} }, func(m nmdc.Message) string { return m.(*nmdc.PrivateMessage).To }},
	{"PM from", true, "", func(s string) nmdc.Message { return &nmdc.PrivateMessage{To: "a", From: s, Name: "c", Text: "text"} }, func(m nmdc.Message) string { return m.(*nmdc.PrivateMessage).From }},
	{"PM name", true, "", func(s string) nmdc.Message { return &nmdc.PrivateMessage{To: "a", From: "b", Name: s, Text: "text"} }, func(m nmdc.Message) string { return m.(*nmdc.PrivateMessage).Name }},
	{"MCTo text", false, "", func(s string) nmdc.Message { return &nmdc.MCTo{To: "a", From: "b", Text: s} }, func(m nmdc.Message) string { return m.(*nmdc.MCTo).Text }},
	{"MCTo to", true, "", func(s string) nmdc.Message { return &nmdc.MCTo{To: s, From: "b", Text: "text"} }, func(m nmdc.Message) string { return m.(*nmdc.MCTo).To }},
	{"MCTo from", true, " ", func(s string) nmdc.Message { return &nmdc.MCTo{To: "a", From: s, Text: "text"} }, func(m nmdc.Message) string { return m.(*nmdc.MCTo).From }},
	{"UserCommand path", false, "\\", func(s string) nmdc.Message {
		return &nmdc.UserCommand{Typ: 1, Context: 3, Path: []string{"a", s + "x", "b"}, Command: "text"}
	}, func(m nmdc.Message) string { return strings.TrimSuffix(m.(*nmdc.UserCommand).Path[1], "x") }},
	{"UserCommand command", false, "", func(s string) nmdc.Message {
		return &nmdc.UserCommand{Typ: 1, Context: 3, Path: []string{"a", "b"}, Command: s + "x"}
	}, func(m nmdc.Message) string { return strings.TrimSuffix(m.(*nmdc.UserCommand).Command, "x") }},
	{"MyINFO name", true, " ", func(s string) nmdc.Message { return &nmdc.MyINFO{Name: s, Flag: 1} }, func(m nmdc.Message) string { return m.(*nmdc.MyINFO).Name }},
	{"MyINFO desc", false, "", func(s string) nmdc.Message { return &nmdc.MyINFO{Name: "a", Desc: s, Flag: 1} }, func(m nmdc.Message) string { return m.(*nmdc.MyINFO).Desc }},
	{"MyINFO conn", false, "", func(s string) nmdc.Message { return &nmdc.MyINFO{Name: "a", Conn: s, Flag: 1} }, func(m nmdc.Message) string { return m.(*nmdc.MyINFO).Conn }},
	{"MyINFO email", false, "", func(s string) nmdc.Message { return &nmdc.MyINFO{Name: "a", Email: s, Flag: 1} }, func(m nmdc.Message) string { return m.(*nmdc.MyINFO).Email }},
	{"HubINFO name", false, "", func(s string) nmdc.Message { return &nmdc.HubINFO{Name: s} }, func(m nmdc.Message) string { return m.(*nmdc.HubINFO).Name }},
	{"HubINFO desc", false, "", func(s string) nmdc.Message { return &nmdc.HubINFO{Desc: s} }, func(m nmdc.Message) string { return m.(*nmdc.HubINFO).Desc }},
	{"HubINFO owner", false, "", func(s string) nmdc.Message { return &nmdc.HubINFO{Owner: s} }, func(m nmdc.Message) string { return m.(*nmdc.HubINFO).Owner }},
	{"HubINFO state", false, "", func(s string) nmdc.Message { return &nmdc.HubINFO{State: s} }, func(m nmdc.Message) string { return m.(*nmdc.HubINFO).State }},
	{"Search user", true, " ", func(s string) nmdc.Message {
		return &nmdc.Search{User: s, IsMaxSize: true, DataType: 1, Pattern: "p"}
	}, func(m nmdc.Message) string { return m.(*nmdc.Search).User }},
	{"Search pattern", false, "", func(s string) nmdc.Message {
		return &nmdc.Search{User: "u", IsMaxSize: true, DataType: 1, Pattern: s}
	}, func(m nmdc.Message) string { return m.(*nmdc.Search).Pattern }},
	{"SR from", true, " ", func(s string) nmdc.Message { return &nmdc.SR{From: s, Path: []string{"p"}, HubName: "hub"} }, func(m nmdc.Message) string { return m.(*nmdc.SR).From }},
	{"SR path", false, "\\/\x05", func(s string) nmdc.Message { return &nmdc.SR{From: "a", Path: []string{"p", s}, HubName: "hub"} }, func(m nmdc.Message) string { return m.(*nmdc.SR).Path[1] }},
	{"SR directory", false, "\\/\x05", func(s string) nmdc.Message {
		return &nmdc.SR{From: "a", Path: []string{s}, IsDir: true, HubName: "hub", TotalSlots: 4}
	}, func(m nmdc.Message) string { return m.(*nmdc.SR).Path[0] }},
	{"SR hub", false, ":", func(s string) nmdc.Message { return &nmdc.SR{From: "a", Path: []string{"p"}, HubName: s} }, func(m nmdc.Message) string { return m.(*nmdc.SR).HubName }},
	{"SR to", true, "", func(s string) nmdc.Message { return &nmdc.SR{From: "a", Path: []string{"p"}, HubName: "hub", To: s} }, func(m nmdc.Message) string { return m.(*nmdc.SR).To }},
	{"SP user", true, "", func(s string) nmdc.Message { return &nmdc.TTHSearchPassive{User: s} }, func(m nmdc.Message) string { return m.(*nmdc.TTHSearchPassive).User }},
	{"ADCGET type", false, " ", func(s string) nmdc.Message { return &nmdc.ADCGet{ContentType: nmdc.String(s), Identifier: "id"} }, func(m nmdc.Message) string { return string(m.(*nmdc.ADCGet).ContentType) }},
	{"ADCGET id", false, " ", func(s string) nmdc.Message { return &nmdc.ADCGet{ContentType: "t", Identifier: nmdc.String(s)} }, func(m nmdc.Message) string { return string(m.(*nmdc.ADCGet).Identifier) }},
	{"ADCSND type", false, " ", func(s string) nmdc.Message { return &nmdc.ADCSnd{ContentType: nmdc.String(s), Identifier: "id"} }, func(m nmdc.Message) string { return string(m.(*nmdc.ADCSnd).ContentType) }},
	{"ADCSND id", false, " ", func(s string) nmdc.Message { return &nmdc.ADCSnd{ContentType: "t", Identifier: nmdc.String(s)} }, func(m nmdc.Message) string { return string(m.(*nmdc.ADCSnd).Identifier) }},
	{"CTM target", true, " ", func(s string) nmdc.Message { return &nmdc.ConnectToMe{Targ: "x" + s, Address: "1.1.1.1:1"} }, func(m nmdc.Message) string { return strings.TrimPrefix(m.(*nmdc.ConnectToMe).Targ, "x") }},
	{"CTM source", true, "", func(s string) nmdc.Message {
		return &nmdc.ConnectToMe{Targ: "a", Address: "1.1.1.1:1", Kind: nmdc.CTMPassiveReq, Src: "x" + s}
	}, func(m nmdc.Message) string { return strings.TrimPrefix(m.(*nmdc.ConnectToMe).Src, "x") }},
	{"RevCTM from", true, " ", func(s string) nmdc.Message { return &nmdc.RevConnectToMe{From: s, To: "b"} }, func(m nmdc.Message) string { return m.(*nmdc.RevConnectToMe).From }},
	{"RevCTM to", true, "", func(s string) nmdc.Message { return &nmdc.RevConnectToMe{From: "a", To: s} }, func(m nmdc.Message) string { return m.(*nmdc.RevConnectToMe).To }},
	{"UserIP name", true, "", func(s string) nmdc.Message {
		return &nmdc.UserIP{List: []nmdc.UserAddress{{Name: "a", IP: "1.1.1.1"}, {Name: s, IP: "2.2.2.2"}}}
	}, func(m nmdc.Message) string { return m.(*nmdc.UserIP).List[1].Name }},
	{"OpList name", true, "", func(s string) nmdc.Message { return &nmdc.OpList{Names: []string{"a", "x" + s}} }, func(m nmdc.Message) string { return strings.TrimPrefix(m.(*nmdc.OpList).Names[1], "x") }},
	{"BotList name", true, "", func(s string) nmdc.Message { return &nmdc.BotList{Names: []string{"x" + s, "a"}} }, func(m nmdc.Message) string { return strings.TrimPrefix(m.(*nmdc.BotList).Names[0], "x") }},
	{"MyNick", true, "", func(s string) nmdc.Message { return &nmdc.MyNick{Name: nmdc.Name(s)} }, func(m nmdc.Message) string { return string(m.(*nmdc.MyNick).Name) }},
	{"ValidateNick", true, "", func(s string) nmdc.Message { return &nmdc.ValidateNick{Name: nmdc.Name(s)} }, func(m nmdc.Message) string { return string(m.(*nmdc.ValidateNick).Name) }},
	{"ValidateDenide", true, "", func(s string) nmdc.Message { return &nmdc.ValidateDenide{Name: nmdc.Name(s)} }, func(m nmdc.Message) string { return string(m.(*nmdc.ValidateDenide).Name) }},
	{"Quit", true, "", func(s string) nmdc.Message { return &nmdc.Quit{Name: nmdc.Name(s)} }, func(m nmdc.Message) string { return string(m.(*nmdc.Quit).Name) }},
	{"Hello", true, "", func(s string) nmdc.Message { return &nmdc.Hello{Name: nmdc.Name(s)} }, func(m nmdc.Message) string { return string(m.(*nmdc.Hello).Name) }},
	{"LogedIn", true, "", func(s string) nmdc.Message { return &nmdc.LogedIn{Name: nmdc.Name(s)} }, func(m nmdc.Message) string { return string(m.(*nmdc.LogedIn).Name) }},
	{"Kick", true, "", func(s string) nmdc.Message { return &nmdc.Kick{Name: nmdc.Name(s)} }, func(m nmdc.Message) string { return string(m.(*nmdc.Kick).Name) }},
	{"Close", true, "", func(s string) nmdc.Message { return &nmdc.Close{Name: nmdc.Name(s)} }, func(m nmdc.Message) string { return string(m.(*nmdc.Close).Name) }},
}

// nHostile draws any text: with null bytes, control characters, invalid UTF-8, entities, commands.
func nHostile(t *rapid.T, e *nEnc) string {
	toks := append([]string{}, nTokens...)
	toks = append(toks, "\x00", "|$Kick op|", "$Kick op|", "|<op> hi|", "&#0;", "&#x7c;", "&vert;", "&VerticalLine;", "&dollar;", "&amp;#124;", "&#124;", "&quot;", "&;", "\xff", "\xc3", "\xd0|",
		"/%DCN124%/", "/%DCN036%/", "/%DCN000%/", "%DCN", "<<", ">>", "> $", "&lt;b&gt;", "\u00e9")
	s := strings.Join(rapid.SliceOfN(rapid.SampledFrom(toks), 0, 7).Draw(t, "hostile"), "")
	if e.enc != nil && rapid.Bool().Draw(t, "foreign") {
		s += strings.Join(rapid.SliceOfN(rapid.SampledFrom(e.pool), 1, 4).Draw(t, "pool"), "")
	}
	switch rapid.IntRange(0, 9).Draw(t, "size") {
	case 0:
		// around the name length limit
		n := rapid.IntRange(250, 260).Draw(t, "len")
		if len(s) < n {
			s += strings.Repeat("n", n-len(s))
		}
	case 1:
		if s != "" {
			s = strings.Repeat(s, rapid.IntRange(1, 200).Draw(t, "repeat"))
		}
	case 2:
		s += rapid.String().Draw(t, "any")
	}
	return s
}

func TestN03_Framing(t *testing.T) {
	check(t, 16000, "the text contains a reserved, forbidden or non-ASCII character", func(c *C) {
		e := drawEncoding(c.T, "enc")
		sl := rapid.SampledFrom(nSlots).Draw(c.T, "slot")
		s := nHostile(c.T, e)
		if rapid.Bool().Draw(c.T, "tame") {
			s = nFilter(e, s, sl.avoid)
		}
		if rapid.Bool().Draw(c.T, "short") && sl.isName && len(s) > 100 {
			s = strings.ToValidUTF8(s[:100], "")
		}
		c.Label("%s", sl.id)
		c.Key("%s %s %q", e.name, sl.id, s)
		c.NonTrivial(strings.ContainsAny(s, "|$&<>\x00\r\n\t") || len(s) != utf8.RuneCountInString(s))

		m := sl.put(s)
		var pay bytes.Buffer
		if err := m.MarshalNMDC(e.encoder(), &pay); err == nil && bytes.ContainsAny(pay.Bytes(), "|\x00") {
			c.Fatalf("%s, %s: %q has the payload %q", e.name, sl.id, clip(s, 300), clip(pay.String(), 500))
		}
		data, err := nmdc.Marshal(e.encoder(), m)
		valid := utf8.ValidString(s)
		if err != nil {
			// is there a reason to refuse it?
			ok := strings.IndexByte(s, 0) >= 0 || !valid || !e.holds(s)
			if sl.isName {
				ok = ok || strings.ContainsAny(s, "$\r\n\t") || len(s) > 250
			}
			if !ok {
				c.Fatalf("%s, %s: %q was refused: %v", e.name, sl.id, clip(s, 300), err)
			}
			c.Label("refused")
			return
		}
		bad := func(why string) {
			c.Fatalf("%s, %s: %s: %q encoded as %q", e.name, sl.id, why, clip(s, 300), clip(string(data), 500))
		}
		if bytes.IndexByte(data, '|') != len(data)-1 {
			bad("the frame does not have exactly one pipe at its end")
		}
		if bytes.IndexByte(data, 0) >= 0 {
			bad("null byte in the frame")
		}
		if typ := m.Type(); typ == "" {
			if data[0] == '$' {
				bad("chat message became a command")
			}
		} else if !bytes.HasPrefix(data, []byte("$"+typ+" ")) && string(data) != "$"+typ+"|" {
			bad("wrong command")
		}
		if sl.isName {
			if strings.ContainsAny(s, "$\x00\r\n\t") {
				bad("name with forbidden characters was accepted")
			}
			if n := len(s); n > 256 {
				bad(fmt.Sprintf("name of %d bytes was accepted", n))
			}
		} else if strings.IndexByte(s, 0) >= 0 {
			bad("text with a null character was accepted")
		}
		if !valid || !e.holds(s) {
			c.Label("framing only")
			return
		}

		// A reader sees this message, unless the text has characters with a meaning in this command,
		// and then the next one.
		stream := append(append([]byte{}, data...), "$Hello sentinel|"...)
		r := nmdc.NewReader(drawEOFReader(c.T, stream))
		r.SetMaxLine(0)
		r.SetDecoder(e.decoder())
		got, err := r.ReadMsg()
		if sl.plain(e, s) {
			c.Label("round trip")
			if err != nil {
				bad(fmt.Sprintf("does not decode: %v", err))
			}
			if got.Type() != m.Type() {
				bad("decodes as another command: " + nShow(got))
			}
			want, have := s, ""
			if sl.get == nil {
				want, have = m.(*nmdc.ChatMessage).Text, got.(*nmdc.ChatMessage).Text
			} else {
				have = sl.get(got)
			}
			if have != want {
				bad(fmt.Sprintf("decodes to the text %q", have))
			}
			if !nEqual(got, m) {
				bad("decodes to another message: " + nShow(got))
			}
		} else if err == nil && got.Type() != m.Type() {
			bad("decodes as another command: " + nShow(got))
		}
		next, err := r.ReadMsg()
		if err != nil || !nEqual(next, &nmdc.Hello{Name: "sentinel"}) {
			bad(fmt.Sprintf("the next message is lost: %v, %v", nShow(next), err))
		}
	})
}

// nRawSlots are the fields that are written as they are, without escaping.
var nRawSlots = []struct {
	id  string
	put func(s string) nmdc.Message
}{
	{"RawMessage.Data", func(s string) nmdc.Message { return &nmdc.RawMessage{Typ: "Foo", Data: []byte(s)} }},
	{"RawMessage.Data chat", func(s string) nmdc.Message { return &nmdc.RawMessage{Data: []byte(s)} }},
	{"RawMessage.Typ", func(s string) nmdc.Message { return &nmdc.RawMessage{Typ: s} }},
	{"RawMessage.Typ+Data", func(s string) nmdc.Message { return &nmdc.RawMessage{Typ: s, Data: []byte("data")} }},
	{"Lock.Lock", func(s string) nmdc.Message { return &nmdc.Lock{Lock: s, PK: "pk"} }},
	{"Lock.Lock noext", func(s string) nmdc.Message { return &nmdc.Lock{NoExt: true, Lock: s} }},
	{"Lock.PK", func(s string) nmdc.Message { return &nmdc.Lock{Lock: "l", PK: s, Ref: "r"} }},
	{"Lock.Ref", func(s string) nmdc.Message { return &nmdc.Lock{Lock: "l", PK: "pk", Ref: s} }},
	{"Key", func(s string) nmdc.Message { return &nmdc.Key{Key: s} }},
	{"Version", func(s string) nmdc.Message { return &nmdc.Version{Vers: s} }},
	{"ForceMove", func(s string) nmdc.Message { return &nmdc.ForceMove{Address: s} }},
	{"FailOver", func(s string) nmdc.Message { return &nmdc.FailOver{Host: []string{"a", s, "b"}} }},
	{"Supports", func(s string) nmdc.Message { return &nmdc.Supports{Ext: []string{"A", s, "B"}} }},
	{"ConnectToMe active", func(s string) nmdc.Message { return &nmdc.ConnectToMe{Targ: "t", Address: s, Kind: nmdc.CTMActive} }},
	{"ConnectToMe passive", func(s string) nmdc.Message {
		return &nmdc.ConnectToMe{Targ: "t", Src: "s", Address: s, Kind: nmdc.CTMPassiveReq, Secure: true}
	}},
	{"ConnectToMe response", func(s string) nmdc.Message {
		return &nmdc.ConnectToMe{Targ: "t", Address: s, Kind: nmdc.CTMPassiveResp}
	}},
	{"Search.Address", func(s string) nmdc.Message {
		return &nmdc.Search{Address: s, IsMaxSize: true, DataType: nmdc.DataTypeAny, Pattern: "p"}
	}},
	{"SR.HubAddress", func(s string) nmdc.Message {
		return &nmdc.SR{From: "f", Path: []string{"p"}, Size: 1, TTH: &nmdc.TTH{}, HubAddress: s}
	}},
	{"SR.HubAddress name", func(s string) nmdc.Message {
		return &nmdc.SR{From: "f", Path: []string{"p"}, IsDir: true, HubName: "hub", HubAddress: s, To: "to"}
	}},
	{"TTHSearchActive", func(s string) nmdc.Message { return &nmdc.TTHSearchActive{Address: s} }},
	{"UserIP", func(s string) nmdc.Message {
		return &nmdc.UserIP{List: []nmdc.UserAddress{{Name: "n", IP: s}, {Name: "m", IP: "1.2.3.4"}}}
	}},
	{"HubINFO.Host", func(s string) nmdc.Message { return &nmdc.HubINFO{Name: "n", Host: s} }},
	{"HubINFO.Soft.Name", func(s string) nmdc.Message {
		return &nmdc.HubINFO{Name: "n", Host: "h", Soft: types.Software{Name: s, Version: "1"}}
	}},
	{"HubINFO.Soft.Version", func(s string) nmdc.Message {
		return &nmdc.HubINFO{Name: "n", Host: "h", Soft: types.Software{Name: "soft", Version: s}}
	}},
	{"HubINFO.Encoding", func(s string) nmdc.Message { return &nmdc.HubINFO{Name: "n", Host: "h", Encoding: s} }},
	{"MyINFO.Client.Name", func(s string) nmdc.Message {
		return &nmdc.MyINFO{Name: "n", Client: types.Software{Name: s, Version: "1"}, Flag: 1}
	}},
	{"MyINFO.Client.Version", func(s string) nmdc.Message {
		return &nmdc.MyINFO{Name: "n", Client: types.Software{Name: "soft", Version: s}, Flag: 1}
	}},
	{"MyINFO.Extra key", func(s string) nmdc.Message { return &nmdc.MyINFO{Name: "n", Flag: 1, Extra: map[string]string{s: "1"}} }},
	{"MyINFO.Extra value", func(s string) nmdc.Message {
		return &nmdc.MyINFO{Name: "n", Flag: 1, Extra: map[string]string{"L": s}}
	}},
	{"MyINFO.Mode", func(s string) nmdc.Message {
		return &nmdc.MyINFO{Name: "n", Mode: nmdc.UserMode((s + "A")[0]), Flag: 1}
	}},
	{"MyINFO.Flag", func(s string) nmdc.Message {
		return &nmdc.MyINFO{Name: "n", Conn: "c", Flag: nmdc.UserFlag((s + "A")[0])}
	}},
	{"UserCommand.Typ", func(s string) nmdc.Message {
		n := 0
		for _, c := range []byte(s) {
			n = n*256 + int(c)
		}
		return &nmdc.UserCommand{Typ: nmdc.UCmdType(n), Context: nmdc.UCmdContext(n / 3), Path: []string{"p"}, Command: "c"}
	}},
}

// TestN03_RawFields: the fields that are not escaped cannot end the message either.
func TestN03_RawFields(t *testing.T) {
	check(t, 6000, "the text contains a pipe or a null byte", func(c *C) {
		e := rapid.SampledFrom(append([]*nEnc{nUTF8, nUTF8}, nEncodings...)).Draw(c.T, "enc")
		sl := rapid.SampledFrom(nRawSlots).Draw(c.T, "slot")
		s := nHostile(c.T, nUTF8)
		if rapid.Bool().Draw(c.T, "head") {
			s = rapid.SampledFrom([]string{"|", "\x00", "a|", "$", "<", " ", "\xff"}).Draw(c.T, "first") + s
		}
		special := strings.ContainsAny(s, "|\x00")
		c.Label("%s", sl.id)
		c.Key("%s %s %q", e.name, sl.id, s)
		c.NonTrivial(special)
		m := sl.put(s)
		var data []byte
		var err error
		if p := guard(func() { data, err = nmdc.Marshal(e.encoder(), m) }); p != nil {
			c.Fatalf("%s %s: %v", e.name, nShow(m), p)
		}

		// the same through a writer, between two other messages
		var sent bytes.Buffer
		w := nmdc.NewWriter(&sent)
		w.SetEncoder(e.encoder())
		if err := w.WriteMsg(&nmdc.Hello{Name: "before"}); err != nil {
			c.Fatal(err)
		}
		werr := w.WriteMsg(m)
		if err := w.WriteMsg(&nmdc.Hello{Name: "sentinel"}); err != nil {
			c.Fatalf("after %s (%v): %v", nShow(m), werr, err)
		}
		if err := w.Flush(); err != nil {
			c.Fatal(err)
		}
		const head, tail = "$Hello before|", "$Hello sentinel|"
		if (werr == nil) != (err == nil) || sent.String() != head+string(data)+tail {
			c.Fatalf("%s %s: marshal gives %q, %v; the writer sends %q, %v", e.name, nShow(m), data, err, sent.String(), werr)
		}
		if err != nil {
			if len(data) != 0 {
				c.Fatalf("%s %s: %q with error %v", e.name, nShow(m), data, err)
			}
			if !special && sl.id != "UserCommand.Typ" {
				c.Fatalf("%s %s was refused: %v", e.name, nShow(m), err)
			}
			c.Label("refused")
			return
		}
		if bytes.IndexByte(data, '|') != len(data)-1 || bytes.IndexByte(data, 0) >= 0 {
			c.Fatalf("%s %s is not one frame: %q", e.name, nShow(m), data)
		}
		r := nmdc.NewReader(drawEOFReader(c.T, sent.Bytes()))
		r.SetMaxLine(0)
		r.SetDecoder(e.decoder())
		if got, err := r.ReadMsg(); err != nil || !nEqual(got, &nmdc.Hello{Name: "before"}) {
			c.Fatalf("first message of %q: %v %v", sent.String(), nShow(got), err)
		}
		got, err := r.ReadMsg()
		if len(data) > 1 { // not a keep-alive
			got, err = r.ReadMsg()
		}
		if err != nil || !nEqual(got, &nmdc.Hello{Name: "sentinel"}) {
			c.Fatalf("%s: the message after %s is lost in %q: %v %v", e.name, nShow(m), sent.String(), nShow(got), err)
		}
	})
}

// plain tells if the text has no special meaning in the slot, so that it must be preserved.
func (sl nSlot) plain(e *nEnc, s string) bool {
	if strings.ContainsAny(s, sl.avoid) || strings.Contains(s, "/%DCN") {
		return false
	}
	if sl.isName && len(e.nameBytes(s)) > 250 {
		return false
	}
	return true
}

// ---------------------------------------------------------------- N04

var nJunkTokens = []string{
	" ", "$", "|", "\x05", "/", "\\", "<", ">", "> ", "$$", "$ALL ", "?", "T", "F", "T?F?", "F?T?0?1?", "T?T?-1?9?TTH:", "TTH:", "Hub:", " (", ")", "-1", "0", "1", "27/1/3", "1/", "/1", "999999999", "9999999999", "99999999999999999999999",
	" V:", ",M:A", ",M:", ",H:1/2/3", ",H:", ",H:1/2", ",S:", ",S:x", ",L:", ",:", ":", ",", " From: ", " $<", "&", "&amp;", "&#", "&#0;", "&#x110000;", "/%DCN", "/%DCN000%/", "/%DCN124%/", "EXTENDEDPROTOCOL", "Pk=", "Ref=",
	"ZL1", "DB", "DB1", "Download", "Upload", "Upload 1", "N", "R", "S", "NS", "\x00", "\xff", "\xc3\x28", "é", "\u00a0", "\r", "\n", "a", "x y", "LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ", "LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLN",
	"LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ ", "lwpnacqdbzryxw3vhjvcj64qbznghohhhzwclnq", "=",
}

func nJunk(t *rapid.T, label string) []byte {
	switch rapid.IntRange(0, 7).Draw(t, label+"-kind") {
	case 0:
		return rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, label)
	case 1:
		tok := rapid.SampledFrom(nJunkTokens).Draw(t, label+"-tok") + rapid.SampledFrom([]string{"", " ", ",", "$", "\\"}).Draw(t, label+"-sep")
		n := rapid.SampledFrom([]int{1, 2, 3, 40, 1000, 6000}).Draw(t, label+"-rep")
		return []byte(strings.Repeat(tok, n))
	}
	sep := rapid.SampledFrom([]string{"", "", " "}).Draw(t, label+"-sep")
	return []byte(strings.Join(rapid.SliceOfN(rapid.SampledFrom(nJunkTokens), 0, 10).Draw(t, label), sep))
}

// nBrokenPayload draws a payload for a message type: a mutation of a valid one, or junk.
func nBrokenPayload(t *rapid.T, k nKind) []byte {
	if k.draw == nil || rapid.IntRange(0, 2).Draw(t, "junk") == 0 {
		return nJunk(t, "payload")
	}
	e := drawEncoding(t, "payload-enc")
	return mutate(t, []byte(k.wire(e, k.draw(t, e))), nJunkTokens)
}

func drawAnyDecoder(t *rapid.T) *nEnc { return drawEncoding(t, "dec") }

// nAnswer does with a received message what a client or a hub would do. No panic is allowed.
func nAnswer(fail func(string, ...interface{}), from []byte, m nmdc.Message) {
	if perr := guard(func() {
		switch m := m.(type) {
		case *nmdc.Lock:
			m.Key()
			m.CustomKey(0, true)
			m.CustomKey(255, false)
			m.LockString(true)
			m.LockString(false)
		case *nmdc.Supports:
			m.Intersect(&nmdc.Supports{Ext: []string{"TLS"}})
		case *nmdc.ChatMessage:
			_ = m.String()
		}
		_, _ = nmdc.Marshal(nil, m)
		for _, e := range nEncodings[:2] {
			_, _ = nmdc.Marshal(e.encoder(), m)
		}
	}); perr != nil {
		fail("answering %s, decoded from %q: %v", nShow(m), clip(string(from), 500), perr)
	}
	nStable(fail, from, m)
}

// nStable checks that an accepted message that can be sent on arrives as the same message.
func nStable(fail func(string, ...interface{}), from []byte, m nmdc.Message) {
	var enc []byte
	var err error
	if perr := guard(func() { enc, err = nmdc.Marshal(nil, m) }); perr != nil || err != nil || !utf8.Valid(enc) {
		return
	}
	switch m := m.(type) {
	case *nmdc.ChatMessage:
		if m.Name == "" && (m.Text == "" || m.Text[0] == '<') {
			return // ambiguous
		}
	case *nmdc.RawMessage:
		return
	case *nmdc.UserCommand:
		n := len(m.Path)
		if m.Command != "" && n == 0 || m.Command != strings.TrimSpace(m.Command) || n != 0 && m.Path[n-1] != strings.TrimSpace(m.Path[n-1]) {
			return // a command without a menu entry, or white space that is not kept
		}
	case *nmdc.HubINFO:
		if m.Soft.Version == "" && strings.Contains(m.Soft.Name, " ") {
			return // the last word is taken for the version
		}
	case *nmdc.Search:
		if m.DataType == 0 {
			return // written as any type
		}
	}
	var again nmdc.Message
	if perr := guard(func() { again, err = nmdc.Unmarshal(nil, append([]byte{}, enc...)) }); perr != nil {
		fail("%s decoded from %q is encoded as %q: %v", nShow(m), clip(string(from), 500), clip(string(enc), 500), perr)
	}
	if err != nil && len(enc) > 250 {
		return // a name may be too long after it was escaped
	}
	if err != nil {
		fail("%s decoded from %q is encoded as %q, which is rejected: %v", nShow(m), clip(string(from), 500), clip(string(enc), 500), err)
	}
	if !nEqual(nMeaning(again), nMeaning(m)) {
		fail("%s decoded from %q is encoded as %q, which decodes to %s", nShow(m), clip(string(from), 500), clip(string(enc), 500), nShow(again))
	}
}

func TestN04_Payloads(t *testing.T) {
	check(t, 12000, "at least one payload was accepted and one rejected", func(c *C) {
		k := nKinds[pick(c.T, "kind", len(nKinds))]
		b := nBrokenPayload(c.T, k)
		e := drawAnyDecoder(c.T)
		c.Key("%q %s", clip(string(b), 500), e.name)
		var accepted, rejected bool
		// the payload of one command is given to all of them
		for _, k := range nKinds {
			m := nmdc.NewMessage(k.typ)
			var err error
			if perr := guard(func() { err = m.UnmarshalNMDC(e.decoder(), append([]byte{}, b...)) }); perr != nil {
				c.Fatalf("%T payload %q, %s: %v", m, clip(string(b), 500), e.name, perr)
			}
			if err != nil {
				rejected = true
				_ = err.Error()
				continue
			}
			accepted = true
			nAnswer(c.Fatalf, b, m)
		}
		if perr := guard(func() { nmdc.UnescapeBytes(append([]byte{}, b...)) }); perr != nil {
			c.Fatalf("UnescapeBytes(%q): %v", clip(string(b), 500), perr)
		}
		c.NonTrivial(accepted && rejected)
	})
}

func nBrokenLine(t *rapid.T) []byte {
	var line []byte
	switch rapid.IntRange(0, 5).Draw(t, "line-kind") {
	case 0:
		line = nJunk(t, "line")
	case 1:
		line = append([]byte("$"+rapid.SampledFrom(nmdc.RegisteredTypes()).Draw(t, "cmd")+rapid.SampledFrom([]string{" ", "", "  ", ":"}).Draw(t, "cmd-sep")), nJunk(t, "line")...)
	case 2:
		line = append([]byte("<"), nJunk(t, "line")...)
	default:
		k := nKinds[pick(t, "line-msg", len(nKinds))]
		if rapid.Bool().Draw(t, "line-mutate") {
			e := drawEncoding(t, "line-enc")
			line = mutate(t, []byte(k.line(e, k.draw(t, e))), nJunkTokens)
		} else {
			line = []byte(k.frame(string(nBrokenPayload(t, k))))
		}
	}
	return append(bytes.ReplaceAll(line, []byte("|"), []byte("!")), '|')
}

func TestN04_Lines(t *testing.T) {
	check(t, 8000, "the line was accepted, or rejected for its contents (not for its framing)", func(c *C) {
		line := nBrokenLine(c.T)
		e := drawAnyDecoder(c.T)
		c.Key("%q %s", clip(string(line), 500), e.name)
		var m nmdc.Message
		var err error
		if perr := guard(func() { m, err = nmdc.Unmarshal(e.decoder(), append([]byte{}, line...)) }); perr != nil {
			c.Fatalf("Unmarshal of %q, %s: %v", clip(string(line), 500), e.name, perr)
		}
		if err == nil {
			c.Label("accepted")
			nAnswer(c.Fatalf, line, m)
		}
		c.NonTrivial(err != io.ErrUnexpectedEOF)
		// with the bytes as they are: any cut, any number of messages
		raw := mutate(c.T, line, nJunkTokens)
		r := nmdc.NewReader(drawReader(c.T, raw))
		r.OnUnknownEncoding = func(text []byte) (*nmdc.TextDecoder, error) { return e.decoder(), nil }
		if perr := guard(func() {
			for i := 0; i < len(raw)+10; i++ {
				m, err := r.ReadMsg()
				if err == io.EOF || err == errInjected || err == io.ErrUnexpectedEOF {
					return
				}
				if err == nil {
					nAnswer(c.Fatalf, raw, m)
				}
			}
			c.Fatalf("%q does not end", clip(string(raw), 500))
		}); perr != nil {
			c.Fatalf("reading %q: %v", clip(string(raw), 500), perr)
		}
	})
}

// TestN04_Neighbours decodes everything that is one small edit away from a valid message.
func TestN04_Neighbours(t *testing.T) {
	check(t, 1500, "the payload has at least two elements", func(c *C) {
		k := nKinds[pick(c.T, "kind", len(nKinds))]
		e := drawEncoding(c.T, "enc")
		if k.draw == nil {
			c.Skip("no generator")
		}
		b := []byte(k.wire(e, k.draw(c.T, e)))
		if v := nVariant[k.typ]; v != nil && rapid.Bool().Draw(c.T, "variant") {
			b = v(c.T)
		}
		if len(b) > 3000 {
			b = b[:3000]
		}
		n, accepted := 0, 0
		toks := []string{"$", " ", "<", ">", "?", ":", ",", "/", "\x05", "&", "-", "9", "\xff"}
		c.Key("%s %s %q", e.name, k.typ, clip(string(b), 500))
		c.NonTrivial(len(b) > 0 && bytes.ContainsAny(b, " $?\x05/:,"))
		neighbours(b, "$ <>?:,/\x05()\\&", toks, func(v []byte) {
			n++
			m := nmdc.NewMessage(k.typ)
			var err error
			if perr := guard(func() { err = m.UnmarshalNMDC(e.decoder(), v) }); perr != nil {
				c.Fatalf("%T payload %q, %s: %v", m, clip(string(v), 500), e.name, perr)
			}
			if err != nil {
				_ = err.Error()
				return
			}
			accepted++
			if perr := guard(func() { _, _ = nmdc.Marshal(e.encoder(), m) }); perr != nil {
				c.Fatalf("answering %s, decoded from %q: %v", nShow(m), clip(string(v), 500), perr)
			}
		})
		if accepted > 0 && accepted < n {
			c.Label("accepted and rejected")
		}
	})
}

// nVariant draws payloads in the forms other clients use.
var nVariant = map[string]func(t *rapid.T) []byte{
	"MyINFO": func(t *rapid.T) []byte {
		pick := func(l string, v ...string) string { return rapid.SampledFrom(v).Draw(t, l) }
		return []byte("$ALL nick " + pick("desc", "", "desc", "a <b", "a<", "<<") + pick("tag", "", "<>", "<++ V:0.1,M:A,H:1/0/2,S:3>", "<++ V:0.1,M:A,H:1/0/2,S:3,O:5,L:1>", "<a,M:P,H:,S:0>", "<V:1", "<++ v:1,m:5,h:3,s:,>") +
			"$" + pick("mode", " ", "A", "P") + "$" + pick("conn", "", "\x01", "100\x03", "LAN(T1)A") + "$" + pick("mail", "", "a@b.c") + "$" + pick("size", "", "0", "123") + "$")
	},
	"Search": func(t *rapid.T) []byte {
		pick := func(l string, v ...string) string { return rapid.SampledFrom(v).Draw(t, l) }
		return []byte(pick("addr", "Hub:user", "192.168.1.5:412", "") + " " + pick("flag", "T?F?0", "F?T?-1", "T?T?-1", "F?F?100") + "?" + pick("type", "9?TTH:LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ", "9?TTH:LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ$", "1?a$b", "1?", "8?$"))
	},
	"SR": func(t *rapid.T) []byte {
		pick := func(l string, v ...string) string { return rapid.SampledFrom(v).Draw(t, l) }
		return []byte("nick " + pick("path", "a\\b.txt\x05123 1/2", "dir 1/2", "d", "a\x051/2 1/2", "1/2") + "\x05" + pick("hub", "TTH:LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ", "hub (x)", "") + " (1.2.3.4:411)" + pick("to", "", "\x05user"))
	},
	"UserCommand": func(t *rapid.T) []byte {
		pick := func(l string, v ...string) string { return rapid.SampledFrom(v).Draw(t, l) }
		return []byte(pick("uc", "1 3 a\\b $c|", "0 1", "255 1 ", "2 15 #a$<%[mynick]> x&#124;", " 1  3 x $"))
	},
	"HubINFO": func(t *rapid.T) []byte {
		pick := func(l string, v ...string) string { return rapid.SampledFrom(v).Draw(t, l) }
		return []byte(pick("hi", "n$h$d$1$2$3$4$soft 1$o$s$UTF-8", "n$h$d", "n$h$d$1$2$3$4$soft$o$s$x$UTF-8$", "n"))
	},
	"Lock": func(t *rapid.T) []byte {
		pick := func(l string, v ...string) string { return rapid.SampledFrom(v).Draw(t, l) }
		return []byte(pick("lk", "EXTENDEDPROTOCOLABC Pk=DCPLUSPLUS0.777Ref=1.2.3.4:411", "EXTENDEDPROTOCOL Pk=", "a", "ab Pk=x", "Sending_key_isn't_neccessary,_key_won't_be_checked. Pk=x"))
	},
	"ADCGET": func(t *rapid.T) []byte {
		pick := func(l string, v ...string) string { return rapid.SampledFrom(v).Draw(t, l) }
		return []byte(pick("get", "file TTH/LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ 0 -1 ZL1", "file files.xml.bz2 0 -1 ZL1 DB12", "list / 0 -1 DB0 ZL1"))
	},
}

// TestN04_Stream mixes well-formed lines with broken ones: the well-formed ones must be unaffected.
func TestN04_Stream(t *testing.T) {
	check(t, 4000, "a well-formed message follows a rejected or skipped line", func(c *C) {
		e := drawEncoding(c.T, "enc")
		type entry struct {
			line []byte
			msg  nmdc.Message // nil for a broken line
			skip bool         // dropped by the message hook
		}
		var (
			list   []entry
			stream []byte
		)
		n := rapid.IntRange(2, 10).Draw(c.T, "n")
		for i := 0; i < n; i++ {
			var en entry
			if rapid.IntRange(0, 1).Draw(c.T, "broken") == 0 {
				en.line = nBrokenLine(c.T)
			} else {
				k, m := drawNMDC(c.T, e)
				en.msg = m
				en.line = []byte(k.line(e, m))
				en.skip = rapid.IntRange(0, 3).Draw(c.T, "skip") == 0
			}
			list = append(list, en)
			stream = append(stream, en.line...)
		}
		c.Key("%s %q", e.name, clip(string(stream), 2000))
		skipErrs := rapid.Bool().Draw(c.T, "skip-errors")

		r := nmdc.NewReader(drawEOFReader(c.T, stream))
		r.SetMaxLine(0)
		r.SetDecoder(e.decoder())
		// The line of each message, so that results can be matched with entries.
		at := -1 // index of the line being read
		idx := func() int { return at }
		r.OnLine(func(line []byte) (bool, error) {
			at++
			return true, nil
		})
		r.OnMessage(func(m nmdc.Message) (bool, error) {
			return !list[idx()].skip, nil
		})
		if skipErrs {
			r.OnUnmarshalError = func(text []byte, err error) (bool, error) {
				en := list[idx()]
				if en.msg != nil {
					return true, fmt.Errorf("well-formed line %q rejected: %v", en.line, err)
				}
				return false, nil
			}
		}
		seen := make([]bool, len(list))
		bad, after := false, false
		for steps := 0; ; steps++ {
			if steps > 3*len(list)+5 {
				c.Fatalf("%q: reading does not end", clip(string(stream), 1000))
			}
			was := at
			var m nmdc.Message
			var err error
			if perr := guard(func() { m, err = r.ReadMsg() }); perr != nil {
				c.Fatalf("reading %q: %v", clip(string(stream), 1000), perr)
			}
			if err == io.EOF {
				break
			}
			i := idx()
			if i >= len(list) || i <= was {
				c.Fatalf("line %d read after %d of %d", i, was, len(list))
			}
			if i > was+1 {
				bad = true
			}
			en := list[i]
			if err != nil {
				bad = true
				if en.msg != nil {
					c.Fatalf("well-formed line %d, %q, rejected after %q: %v", i, clip(string(en.line), 500), clip(string(list[max0(i-1)].line), 300), err)
				}
				continue
			}
			if en.msg == nil {
				continue
			}
			seen[i] = true
			if en.skip {
				c.Fatalf("line %d was returned although the hook dropped it", i)
			}
			if !nEqual(m, en.msg) {
				c.Fatalf("line %d, %q, after %q\nwant %s\n got %s", i, clip(string(en.line), 500), clip(string(list[max0(i-1)].line), 300), nShow(en.msg), nShow(m))
			}
			if bad {
				after = true
			}
		}
		for i, en := range list {
			if en.msg != nil && !en.skip && !seen[i] {
				c.Fatalf("line %d, %q, was lost in %q", i, clip(string(en.line), 500), clip(string(stream), 1000))
			}
		}
		c.NonTrivial(after)
	})
}

func max0(i int) int {
	if i < 0 {
		return 0
	}
	return i
}

// TestN04_Cost: memory and time for decoding stay in proportion to the size of the input.
func TestN04_Cost(t *testing.T) {
	check(t, 800, "the input is at least 4 KiB long or contains a huge number", func(c *C) {
		k := nKinds[pick(c.T, "kind", len(nKinds))]
		e := drawAnyDecoder(c.T)
		b := drawCostly(c.T, []byte(k.wire(e, k.draw(c.T, e))), nJunkTokens, 128<<10)
		b = bytes.ReplaceAll(b, []byte("|"), []byte("!"))
		c.Key("%d %q", len(b), clip(string(b), 200))
		c.NonTrivial(len(b) >= 4096 || bytes.Contains(b, []byte("000000")))
		c.Label("%s", k.label())
		for _, k := range []nKind{k, nKinds[pick(c.T, "other", len(nKinds))]} {
			m := nmdc.NewMessage(k.typ)
			checkCost(c.Fatalf, k.typ, b, func() { m.UnmarshalNMDC(e.decoder(), b) })
			line := []byte(k.frame(string(b)))
			checkCost(c.Fatalf, "reading", line, func() {
				r := nmdc.NewReader(bytes.NewReader(line))
				r.SetMaxLine(0)
				r.SetDecoder(e.decoder())
				m, err := r.ReadMsg()
				if l, ok := m.(*nmdc.Lock); ok && err == nil {
					l.Key()
				}
			})
		}
		checkCost(c.Fatalf, "UnescapeBytes", b, func() { nmdc.UnescapeBytes(b) })
	})
}
