package props

import (
	"bytes"
	"errors"
	"io"
	"reflect"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/direct-connect/go-dc/nmdc"
	"golang.org/x/text/encoding"
	"pgregory.net/rapid"
)

// nMapTexts returns the message with f applied to each of its text fields (those that are
// converted between the encodings). A path is mapped as a whole.
func nMapTexts(m nmdc.Message, f func(s string) string) nmdc.Message {
	m = nCopy(m)
	path := func(p []string) []string { return strings.Split(f(strings.Join(p, "\\")), "\\") }
	switch m := m.(type) {
	case *nmdc.MyINFO:
		m.Name, m.Desc, m.Conn, m.Email = f(m.Name), f(m.Desc), f(m.Conn), f(m.Email)
	case *nmdc.ChatMessage:
		m.Name, m.Text = f(m.Name), f(m.Text)
	case *nmdc.PrivateMessage:
		m.To, m.From, m.Name, m.Text = f(m.To), f(m.From), f(m.Name), f(m.Text)
	case *nmdc.MCTo:
		m.To, m.From, m.Text = f(m.To), f(m.From), f(m.Text)
	case *nmdc.UserCommand:
		if len(m.Path) != 0 {
			var out []string
			for _, s := range path(m.Path) {
				if s != "" {
					out = append(out, s)
				}
			}
			m.Path = out
		}
		m.Command = f(m.Command)
	case *nmdc.SR:
		m.From, m.Path, m.HubName, m.To = f(m.From), path(m.Path), f(m.HubName), f(m.To)
	case *nmdc.Search:
		m.User = f(m.User)
		if m.DataType != nmdc.DataTypeTTH {
			m.Pattern = f(m.Pattern)
		}
	case *nmdc.TTHSearchPassive:
		m.User = f(m.User)
	case *nmdc.ConnectToMe:
		m.Targ = f(m.Targ)
		if m.Kind == nmdc.CTMPassiveReq {
			m.Src = f(m.Src)
		}
	case *nmdc.RevConnectToMe:
		m.From, m.To = f(m.From), f(m.To)
	case *nmdc.ADCGet:
		m.ContentType, m.Identifier = nmdc.String(f(string(m.ContentType))), nmdc.String(f(string(m.Identifier)))
	case *nmdc.ADCSnd:
		m.ContentType, m.Identifier = nmdc.String(f(string(m.ContentType))), nmdc.String(f(string(m.Identifier)))
	case *nmdc.HubINFO:
		m.Name, m.Desc, m.Owner, m.State = f(m.Name), f(m.Desc), f(m.Owner), f(m.State)
	case *nmdc.Failed:
		if m.Err != nil {
			m.Err = errors.New(f(m.Err.Error()))
		}
	case *nmdc.Error:
		if m.Err != nil {
			m.Err = errors.New(f(m.Err.Error()))
		}
	case *nmdc.OpList:
		for i, s := range m.Names {
			m.Names[i] = f(s)
		}
	case *nmdc.BotList:
		for i, s := range m.Names {
			m.Names[i] = f(s)
		}
	case *nmdc.UserIP:
		for i := range m.List {
			m.List[i].Name = f(m.List[i].Name)
		}
	case *nmdc.HubTopic:
		m.Text = f(m.Text)
	default:
		k := nKindByType[m.Type()]
		if _, raw := m.(*nmdc.RawMessage); !raw && k.text {
			v := reflect.ValueOf(m).Elem().Field(0)
			v.SetString(f(v.String()))
		}
	}
	return m
}

func nTexts(m nmdc.Message) (out []string) {
	nMapTexts(m, func(s string) string {
		out = append(out, s)
		return s
	})
	return
}

// replaced is the text with every run of invalid bytes replaced by one replacement character.
func replaced(s string) string {
	var b strings.Builder
	last := false
	for _, r := range s {
		if r == utf8.RuneError {
			if !last {
				b.WriteRune(r)
			}
			last = true
			continue
		}
		last = false
		b.WriteRune(r)
	}
	return b.String()
}

// nShortNames is true if no text grows over the limits when it is converted.
func nShortNames(m nmdc.Message) bool {
	for _, s := range nTexts(m) {
		if len(s) > 60 {
			return false
		}
	}
	return true
}

// drawShort draws a message of any type without long texts.
func drawShort(t *rapid.T, e *nEnc) (nKind, nmdc.Message) {
	for i := 0; i < 4; i++ {
		k, m := drawNMDC(t, e)
		if nShortNames(m) {
			return k, m
		}
	}
	k := nKindByType["Hello"]
	return k, &nmdc.Hello{Name: nmdc.Name(nFilter(e, "name é ё 日本", nNameForbidden))}
}

func drawAnyEncoding(t *rapid.T, label string) *nEnc {
	i := pick(t, label, len(nEncodings)+3) - 3
	if i < 0 {
		return nUTF8
	}
	return nEncodings[i]
}

// ---------------------------------------------------------------- N06

// TestN06_Switch changes the encoding at both ends in the middle of a stream.
func TestN06_Switch(t *testing.T) {
	check(t, 4000, "text that is not ASCII is sent in at least two different encodings", func(c *C) {
		type part struct {
			e    *nEnc
			msgs []nmdc.Message
		}
		var parts []part
		var sent, want bytes.Buffer
		w := nmdc.NewWriter(&sent)
		used := map[*nEnc]bool{}
		for i := rapid.IntRange(1, 4).Draw(c.T, "parts"); i > 0; i-- {
			p := part{e: drawAnyEncoding(c.T, "enc")}
			enc := p.e.encoder()
			w.SetEncoder(enc)
			if w.Encoder() != enc {
				c.Fatalf("the encoder set is not the current one")
			}
			for j := rapid.IntRange(0, 3).Draw(c.T, "n"); j > 0; j-- {
				k, m := drawNMDC(c.T, p.e)
				p.msgs = append(p.msgs, m)
				for _, s := range nTexts(m) {
					if !isASCIIText(s) {
						used[p.e] = true
					}
				}
				before := sent.Len()
				if err := w.WriteMsg(m); err != nil {
					c.Fatalf("%s in %s: %v", nShow(m), p.e.name, err)
				}
				if err := w.Flush(); err != nil {
					c.Fatalf("flush: %v", err)
				}
				if d := k.diff(p.e, m, sent.String()[before:]); d != "" {
					c.Fatalf("in %s: %s", p.e.name, d)
				}
				want.WriteString(sent.String()[before:])
				c.Key("%s %s;", p.e.name, nShow(m))
			}
			parts = append(parts, p)
		}
		c.NonTrivial(len(used) > 1)
		r := nmdc.NewReader(drawEOFReader(c.T, sent.Bytes()))
		r.SetMaxLine(0)
		r.OnUnknownEncoding = func(text []byte) (*nmdc.TextDecoder, error) {
			c.Fatalf("unknown encoding of %q, although all text is in the current one", text)
			return nil, nil
		}
		for _, p := range parts {
			dec := p.e.decoder()
			r.SetDecoder(dec)
			if r.Decoder() != dec {
				c.Fatalf("the decoder set is not the current one")
			}
			for _, m := range p.msgs {
				got, err := r.ReadMsg()
				if err != nil {
					c.Fatalf("%q in %s: %v", clip(sent.String(), 1000), p.e.name, err)
				}
				if !nEqual(got, m) {
					c.Fatalf("in %s:\n got %s\nwant %s", p.e.name, nShow(got), nShow(m))
				}
			}
		}
		if m, err := r.ReadMsg(); err != io.EOF {
			c.Fatalf("%v %v at the end, want EOF", m, err)
		}
	})
}

func isASCIIText(s string) bool {
	for _, b := range []byte(s) {
		if b >= 0x80 {
			return false
		}
	}
	return true
}

var errEncHook = errors.New("unknown encoding")

// TestN06_Unknown reads a stream in one encoding or another without knowing which.
func TestN06_Unknown(t *testing.T) {
	check(t, 6000, "the unknown-encoding callback must fire", func(c *C) {
		e := nEncodings[pick(c.T, "enc", len(nEncodings))]
		n := rapid.IntRange(1, 6).Draw(c.T, "n")
		type line struct {
			e       *nEnc
			m       nmdc.Message
			unknown bool // has text that is not valid UTF-8
			drop    bool // by the message hook
			answer  int  // of the callback
			dec     *nEnc
			set     *nEnc // set before the line, if any
		}
		var lines []line
		var stream []byte
		hasCB := rapid.IntRange(0, 5).Draw(c.T, "cb") > 0
		skipBad := rapid.Bool().Draw(c.T, "skipBad")
		for i := 0; i < n; i++ {
			l := line{e: e}
			if rapid.IntRange(0, 2).Draw(c.T, "utf8") == 0 {
				l.e = nUTF8
			}
			k, m := drawShort(c.T, l.e)
			l.m = m
			for _, s := range nTexts(m) {
				if !utf8.ValidString(l.e.raw(s)) {
					l.unknown = true
				}
			}
			l.drop = rapid.IntRange(0, 4).Draw(c.T, "drop") == 0
			l.answer = rapid.SampledFrom([]int{dPass, dPass, dDrop, dErr}).Draw(c.T, "answer")
			l.dec = e
			if rapid.IntRange(0, 4).Draw(c.T, "other-dec") == 0 {
				l.dec = rapid.SampledFrom(nEncodings[:5]).Draw(c.T, "dec")
			}
			stream = append(stream, k.line(l.e, m)...)
			c.Key("%s %s %v %d;", l.e.name, nShow(m), l.drop, l.answer)
			lines = append(lines, l)
		}

		r := nmdc.NewReader(drawEOFReader(c.T, stream))
		r.SetMaxLine(0)
		at, calls := -1, 0
		var text []byte
		var decs []*nmdc.TextDecoder // made for each line
		for _, l := range lines {
			decs = append(decs, l.dec.decoder())
		}
		r.OnLine(func([]byte) (bool, error) { at++; return true, nil })
		if hasCB {
			r.OnUnknownEncoding = func(b []byte) (*nmdc.TextDecoder, error) {
				calls++
				text = append([]byte{}, b...)
				switch lines[at].answer {
				case dErr:
					return nil, errEncHook
				case dDrop:
					return nil, nil
				}
				return decs[at], nil
			}
		}
		r.OnMessage(func(m nmdc.Message) (bool, error) { return !lines[at].drop, nil })
		if skipBad {
			r.OnUnmarshalError = func([]byte, error) (bool, error) { return false, nil }
		}

		// the model
		var cur *nEnc // the current encoding, if known
		var curDec *nmdc.TextDecoder
		if rapid.IntRange(0, 5).Draw(c.T, "nop") == 0 {
			curDec = encoding.Nop.NewDecoder()
			r.SetDecoder(curDec)
		}
		pos := 0
		where := func() string { return clip(string(stream), 1200) }
		for call := 0; ; call++ {
			if rapid.IntRange(0, 9).Draw(c.T, "set") == 0 {
				// the application switches by itself
				cur, curDec = nil, nil
				switch rapid.IntRange(0, 3).Draw(c.T, "set-known") {
				case 0, 1:
					cur = e
					curDec = e.decoder()
				case 2:
					// a decoder that changes nothing: the encoding is still unknown
					curDec = encoding.Nop.NewDecoder()
				}
				r.SetDecoder(curDec)
			}
			wantCalls := calls
			var want nmdc.Message
			loose := false
			var wantErr error
			var fired *line
		model:
			for {
				if pos >= n {
					wantErr = io.EOF
					break
				}
				l := &lines[pos]
				i := pos
				pos++
				loose = false
				decode := func(d *nEnc) nmdc.Message {
					return nMapTexts(l.m, func(s string) string {
						raw := l.e.raw(s)
						if d == nil {
							return raw
						}
						out, err := d.enc.NewDecoder().String(raw)
						if err != nil {
							c.Fatalf("harness: %v", err)
						}
						return out
					})
				}
				switch {
				case cur != nil:
					want = decode(cur)
				case !l.unknown:
					want = decode(nil)
				case !hasCB:
					if skipBad {
						continue
					}
					wantErr = errors.New("decode")
					break model
				default:
					c.NonTrivial(true)
					wantCalls++
					fired = l
					switch l.answer {
					case dErr:
						wantErr = errEncHook
						break model
					case dDrop:
						loose = true
						want = nMapTexts(decode(nil), replaced)
					default:
						cur, curDec = l.dec, decs[i]
						want = decode(cur)
					}
				}
				if l.drop {
					continue
				}
				break
			}

			got, err := r.ReadMsg()
			if calls != wantCalls {
				c.Fatalf("%q: the unknown-encoding callback was called %d times, want %d (call %d)", where(), calls, wantCalls, call)
			}
			if fired != nil {
				ok := false
				for _, s := range nTexts(fired.m) {
					raw := fired.e.raw(s)
					if utf8.ValidString(raw) {
						continue
					}
					ok = ok || raw == string(text)
					for _, p := range strings.Split(s, "\\") {
						ok = ok || fired.e.raw(p) == string(text)
					}
				}
				if !ok {
					c.Fatalf("%q: the unknown-encoding callback got %q, not a text of %s", where(), text, nShow(fired.m))
				}
			}
			if r.Decoder() != curDec {
				c.Fatalf("%q: wrong current decoder after call %d", where(), call)
			}
			if wantErr == io.EOF {
				if err != io.EOF {
					c.Fatalf("%q: %v %v at the end, want EOF", where(), got, err)
				}
				return
			}
			if wantErr != nil {
				if err == nil || got != nil || err == io.EOF || (wantErr == errEncHook && err != errEncHook) {
					c.Fatalf("%q: got %v and error %v, want %v", where(), got, err, wantErr)
				}
				continue
			}
			if err != nil {
				c.Fatalf("%q: %v, want %s", where(), err, nShow(want))
			}
			if loose {
				got = nMapTexts(got, replaced)
			}
			if !nEqual(got, want) {
				c.Fatalf("%q (call %d):\n got %s\nwant %s", where(), call, nShow(got), nShow(want))
			}
		}
	})
}

// TestN06_Unencodable writes text that the encoding cannot represent.
func TestN06_Unencodable(t *testing.T) {
	foreign := []string{"日", "é", "ё", "\U0001f600", "ş", "한", "λ", "א", "€", "\u2028"}
	check(t, 4000, "a text field cannot be represented", func(c *C) {
		e := nEncodings[pick(c.T, "enc", len(nEncodings))]
		ch := rapid.SampledFrom(foreign).Draw(c.T, "char")
		if _, err := e.enc.NewEncoder().String(ch); err == nil {
			ch = "\U0001f600"
			if _, err := e.enc.NewEncoder().String(ch); err == nil {
				return // GB18030 represents everything
			}
		}
		k := nTextKinds[pick(c.T, "kind", len(nTextKinds))]
		good := k.draw(c.T, e)
		var spots []int
		for i, s := range nTexts(good) {
			if s != "" && len(s) < 100 {
				spots = append(spots, i)
			}
		}
		if len(spots) == 0 {
			return
		}
		spot := rapid.SampledFrom(spots).Draw(c.T, "field")
		before := rapid.Bool().Draw(c.T, "first")
		i := -1
		bad := nMapTexts(good, func(s string) string {
			if i++; i != spot {
				return s
			}
			if before {
				return ch + s
			}
			return s + ch
		})
		c.NonTrivial(true)
		c.Label("%s", k.label())
		c.Key("%s %s", e.name, nShow(bad))
		var buf bytes.Buffer
		buf.WriteString("kept")
		if out, err := nmdc.Marshal(e.encoder(), bad); err == nil {
			c.Fatalf("%s in %s encoded as %q, want an error", nShow(bad), e.name, out)
		}
		if err := nmdc.MarshalTo(e.encoder(), &buf, bad); err == nil || !bytes.HasPrefix(buf.Bytes(), []byte("kept")) {
			c.Fatalf("%s in %s: error %v, buffer %q", nShow(bad), e.name, err, buf.Bytes())
		}
		// nothing is written, and the connection can still be used
		var sent bytes.Buffer
		w := nmdc.NewWriter(&sent)
		w.SetEncoder(e.encoder())
		pre, post := drawRawMsg(c.T), drawRawMsg(c.T)
		want := kindOf(pre).line(e, pre)
		var err error
		if rapid.Bool().Draw(c.T, "batch") {
			err = w.WriteMsg(pre, bad, post)
		} else {
			if err := w.WriteMsg(pre); err != nil {
				c.Fatalf("%v", err)
			}
			err = w.WriteMsg(bad)
		}
		if err == nil {
			c.Fatalf("%s in %s: no error from the writer", nShow(bad), e.name)
		}
		if rapid.Bool().Draw(c.T, "again") {
			if err := w.WriteMsg(good, post); err != nil {
				c.Fatalf("%s in %s: %v after an encoding error", nShow(good), e.name, err)
			}
			if mi, ok := good.(*nmdc.MyINFO); !ok || len(mi.Extra) < 2 {
				want += k.line(e, good) + kindOf(post).line(e, post)
			} else {
				want = ""
			}
		}
		if err := w.Flush(); err != nil {
			c.Fatalf("flush: %v", err)
		}
		if want != "" && sent.String() != want {
			c.Fatalf("%s in %s: written %q, want %q", nShow(bad), e.name, clip(sent.String(), 800), clip(want, 800))
		}
	})
}

// TestN06_RawFields: what is not text is passed as it is in any encoding.
func TestN06_RawFields(t *testing.T) {
	check(t, 1500, "a raw field is not ASCII", func(c *C) {
		e := rapid.SampledFrom(append([]*nEnc{nUTF8}, nEncodings...)).Draw(c.T, "enc")
		val := rapid.SampledFrom([]string{"é", "\xe9", "\xff\xfe", "日本", "ascii", "\x81\x40"}).Draw(c.T, "raw") + nRaw(c.T, "more", " $,()<>\\?NRS")
		c.NonTrivial(!isASCIIText(val))
		h := drawHash(c.T, "tth")
		name := nFilter(e, "name é ё 日本", nNameForbidden+" ")
		text := nFilter(e, "text é ё 日本 |$&", "")
		msgs := []nmdc.Message{
			&nmdc.RawMessage{Typ: "Foo", Data: []byte(val)},
			&nmdc.Lock{NoExt: true, Lock: val, PK: val}, &nmdc.Key{Key: val}, &nmdc.Version{Vers: val}, &nmdc.ForceMove{Address: val},
			&nmdc.FailOver{Host: []string{val, val}}, &nmdc.Supports{Ext: []string{val}},
			&nmdc.ConnectToMe{Targ: name, Address: val}, &nmdc.Search{Address: val, IsMaxSize: true, DataType: 1, Pattern: text},
			&nmdc.SR{From: name, Path: []string{text}, Size: 1, TTH: &h, HubAddress: val}, &nmdc.TTHSearchActive{TTH: h, Address: val},
			&nmdc.UserIP{List: []nmdc.UserAddress{{Name: name, IP: val}}},
			&nmdc.HubINFO{Name: text, Host: val, Desc: text, Owner: text, State: text, Encoding: val},
			&nmdc.MyINFO{Name: name, Desc: text, Conn: text, Email: text, Flag: 1, Extra: map[string]string{"XX": val}},
		}
		m := rapid.SampledFrom(msgs).Draw(c.T, "msg")
		c.Key("%s %s", e.name, nShow(m))
		k := kindOf(m)
		out, err := nmdc.Marshal(e.encoder(), m)
		if err != nil {
			c.Fatalf("%s in %s: %v", nShow(m), e.name, err)
		}
		if d := k.diff(e, m, string(out)); d != "" {
			c.Fatalf("in %s: %s", e.name, d)
		}
		got, err := nmdc.Unmarshal(e.decoder(), out)
		if err != nil || !nEqual(got, m) {
			c.Fatalf("%q in %s: %v %s, want %s", out, e.name, err, nShow(got), nShow(m))
		}
	})
}

// ---------------------------------------------------------------- N07

// refKey computes the key of a lock as the protocol defines it, one bit at a time.
func refKey(lock string, magic byte) string {
	n := len(lock)
	if n < 2 {
		return ""
	}
	var out strings.Builder
	for i := 0; i < n; i++ {
		var x int
		if i == 0 {
			x = int(lock[0]) ^ int(lock[n-1]) ^ int(lock[n-2]) ^ int(magic)
		} else {
			x = int(lock[i]) ^ int(lock[i-1])
		}
		x = x%16*16 + x/16
		switch x {
		case 0:
			out.WriteString("/%DCN000%/")
		case 5:
			out.WriteString("/%DCN005%/")
		case 36:
			out.WriteString("/%DCN036%/")
		case 96:
			out.WriteString("/%DCN096%/")
		case 124:
			out.WriteString("/%DCN124%/")
		case 126:
			out.WriteString("/%DCN126%/")
		default:
			out.WriteByte(byte(x))
		}
	}
	return out.String()
}

// drawLockBytes draws a lock string; many of them give keys with bytes that must be escaped.
func drawLockBytes(t *rapid.T, avoid string) string {
	var b []byte
	switch rapid.IntRange(0, 4).Draw(t, "lock-kind") {
	case 0:
		b = rapid.SliceOfN(rapid.Byte(), 0, 4).Draw(t, "lock")
	case 1:
		b = rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(t, "lock")
	case 2:
		b = []byte(rapid.StringMatching(`[\x21-\x7b]{0,60}`).Draw(t, "lock"))
	case 3: // chosen so that the next key byte is one of the escaped ones
		b = []byte{rapid.Byte().Draw(t, "first")}
		for i := rapid.IntRange(1, 12).Draw(t, "n"); i > 0; i-- {
			k := rapid.SampledFrom([]byte{0, 5, 36, 96, 124, 126, 4, 6, 37, 97, 125, 127}).Draw(t, "key")
			b = append(b, b[len(b)-1]^(k<<4|k>>4))
		}
	case 4:
		b = bytes.Repeat([]byte{rapid.Byte().Draw(t, "byte")}, rapid.IntRange(0, 300).Draw(t, "len"))
	}
	if pick(t, "inner-prefix", 8) == 0 {
		// the parts of a lock that have a meaning, where they have none
		b = append([]byte(rapid.SampledFrom([]string{"EXTENDEDPROTOCOL", "EXTENDEDPROTOCOLEXTENDEDPROTOCOL", "EXTENDEDPROTOCO", "extendedprotocol", "Pk=", "Ref="}).Draw(t, "prefix")), b...)
	}
	var out []byte
	for _, c := range b {
		if strings.IndexByte(avoid, c) < 0 {
			out = append(out, c)
		}
	}
	return string(out)
}

func checkKey(c *C, what, lock string, magic byte, key *nmdc.Key) {
	want := refKey(lock, magic)
	if key == nil || key.Key != want {
		c.Fatalf("%s: lock %q, magic %d: key %+v, want %q", what, lock, magic, key, want)
	}
	for i, f := range []byte{0, 5, '$', '`', '|', '~'} {
		if strings.IndexByte(key.Key, f) >= 0 {
			c.Fatalf("%s: lock %q: the key contains the forbidden byte %d (%d): %q", what, lock, f, i, key.Key)
		}
	}
	out, err := nmdc.Marshal(nil, key)
	if err != nil {
		c.Fatalf("%s: lock %q: key %q: %v", what, lock, key.Key, err)
	}
	got, err := nmdc.Unmarshal(nil, out)
	if err != nil {
		c.Fatalf("%s: lock %q: key %q does not survive: %v", what, lock, out, err)
	}
	if k, ok := got.(*nmdc.Key); !ok || k.Key != want {
		c.Fatalf("%s: lock %q: key %q becomes %s", what, lock, out, nShow(got))
	}
}

func TestN07_Key(t *testing.T) {
	check(t, 20000, "the key has at least two bytes", func(c *C) {
		m := &nmdc.Lock{NoExt: rapid.Bool().Draw(c.T, "noext"), Lock: drawLockBytes(c.T, "")}
		if rapid.Bool().Draw(c.T, "pk") {
			m.PK = drawLockBytes(c.T, "")
		}
		if rapid.Bool().Draw(c.T, "ref") {
			m.Ref = drawLockBytes(c.T, "")
		}
		magic := rapid.OneOf(rapid.Just(byte(5)), rapid.Byte()).Draw(c.T, "magic")
		c.Key("%s %d", nShow(m), magic)
		short := m.Lock
		if !m.NoExt {
			short = "EXTENDEDPROTOCOL" + short
		}
		full := short
		if m.PK != "" {
			full += " Pk=" + m.PK
		}
		if m.Ref != "" {
			if m.PK == "" {
				full += " "
			}
			full += "Ref=" + m.Ref
		}
		c.NonTrivial(len(full) > 1)
		copyM := *m
		if s := m.LockString(false); s != short {
			c.Fatalf("%v: lock string %q, want %q", m, s, short)
		}
		if s := m.LockString(true); s != full {
			c.Fatalf("%v: full lock string %q, want %q", m, s, full)
		}
		checkKey(c, "Key", short, 5, m.Key())
		checkKey(c, "CustomKey", short, magic, m.CustomKey(magic, false))
		checkKey(c, "CustomKey (full)", full, magic, m.CustomKey(magic, true))
		if *m != copyM {
			c.Fatalf("computing the key changed the lock %v to %v", copyM, m)
		}
		if strings.Contains(m.Key().Key, "/%DCN") {
			c.Label("escaped")
		}
	})
}

// TestN07_Handshake answers a lock that came over the wire.
func TestN07_Handshake(t *testing.T) {
	check(t, 6000, "the lock has at least two bytes", func(c *C) {
		lock := drawLockBytes(c.T, " \x00|")
		if rapid.Bool().Draw(c.T, "ext") {
			lock = "EXTENDEDPROTOCOL" + lock
		}
		line := "$Lock " + lock
		switch rapid.IntRange(0, 4).Draw(c.T, "rest") {
		case 0:
		case 1:
			line += " Pk=" + drawLockBytes(c.T, "\x00|")
		case 2:
			line += " Pk=pkRef=127.0.0.1:411"
		case 3:
			line += " Ref=x"
		case 4:
			line += " " + drawLockBytes(c.T, "\x00|")
		}
		c.Key("%q", line)
		c.NonTrivial(len(lock) > 1)
		got, err := nmdc.Unmarshal(nil, []byte(line+"|"))
		if err != nil {
			c.Fatalf("%q: %v", line, err)
		}
		m, ok := got.(*nmdc.Lock)
		if !ok {
			c.Fatalf("%q becomes %s", line, nShow(got))
		}
		checkKey(c, line, lock, 5, m.Key())
	})
}

// TestN06_Undecodable: text that the decoder refuses is an error (and the message is left to the
// decode-error callback), never a message with part of its text.
func TestN06_Undecodable(t *testing.T) {
	check(t, 3000, "every case has a text field that the decoder refuses", func(c *C) {
		k := nTextKinds[pick(c.T, "kind", len(nTextKinds))]
		good := k.draw(c.T, nUTF8)
		var spots []int
		for i, s := range nTexts(good) {
			if s != "" && len(s) < 100 {
				spots = append(spots, i)
			}
		}
		if len(spots) == 0 {
			return
		}
		spot := rapid.SampledFrom(spots).Draw(c.T, "field")
		junk := rapid.SampledFrom([]string{"\xe9", "\xff", "\xc3", "a\x80b"}).Draw(c.T, "junk")
		first := rapid.Bool().Draw(c.T, "first")
		i := -1
		bad := nMapTexts(good, func(s string) string {
			if i++; i != spot {
				return s
			}
			if first {
				return junk + s
			}
			return s + junk
		})
		line := k.line(nUTF8, bad)
		c.NonTrivial(true)
		c.Label("%s", k.label())
		c.Key("%q", clip(line, 100))
		dec := func() *nmdc.TextDecoder { return &encoding.Decoder{Transformer: encoding.UTF8Validator} }
		if m, err := nmdc.Unmarshal(dec(), []byte(line)); err == nil {
			c.Fatalf("%q was decoded to %s although the decoder refuses part of its text", clip(line, 800), nShow(m))
		}
		pre, post := drawRawMsg(c.T), drawRawMsg(c.T)
		r := nmdc.NewReader(drawEOFReader(c.T, []byte(kindOf(pre).line(nUTF8, pre)+line+kindOf(post).line(nUTF8, post))))
		r.SetMaxLine(0)
		r.SetDecoder(dec())
		r.OnUnknownEncoding = func(b []byte) (*nmdc.TextDecoder, error) {
			c.Fatalf("the unknown-encoding callback is called for %q although a decoder is set", b)
			return nil, nil
		}
		skip := rapid.Bool().Draw(c.T, "skip")
		calls := 0
		if skip {
			r.OnUnmarshalError = func(b []byte, err error) (bool, error) {
				calls++
				if err == nil {
					c.Fatalf("decode-error callback without an error")
				}
				return false, nil
			}
		}
		if got, err := r.ReadMsg(); err != nil || !nEqual(got, pre) {
			c.Fatalf("the message before: %v %v", nShow(got), err)
		}
		if !skip {
			if got, err := r.ReadMsg(); err == nil {
				c.Fatalf("%q was read as %s although the decoder refuses part of its text", clip(line, 800), nShow(got))
			}
		}
		if got, err := r.ReadMsg(); err != nil || !nEqual(got, post) {
			c.Fatalf("the message after %q: %v", clip(line, 800), err)
		}
		if skip && calls != 1 {
			c.Fatalf("decode-error callback called %d times for %q", calls, clip(line, 800))
		}
	})
}
