package props

import (
	"bytes"
	"compress/zlib"
	"io"
	"reflect"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"
)

// A message variable is commonly used for more than one message: a client decodes each chat line or each
// search into the same variable. What it holds afterwards must be what the last message said.

// TestN01_Reuse reads a stream with a fixed set of messages supplied by the caller.
func TestN01_Reuse(t *testing.T) {
	check(t, 4000, "a message is decoded into a variable that already held a different one", func(c *C) {
		e := drawEncoding(c.T, "enc")
		var (
			kinds []nKind
			into  []nmdc.Message
		)
		for n := rapid.IntRange(1, 3).Draw(c.T, "kinds"); len(kinds) < n; {
			k := nKinds[pick(c.T, "kind", len(nKinds))]
			kinds = append(kinds, k)
			into = append(into, nmdc.NewMessage(k.typ))
			c.Label("%s", k.label())
		}
		type sent struct {
			i int
			m nmdc.Message
		}
		var (
			buf  bytes.Buffer
			msgs []sent
			last = map[string]nmdc.Message{}
		)
		enc := e.encoder()
		for n := rapid.IntRange(2, 6).Draw(c.T, "n"); len(msgs) < n; {
			i := rapid.IntRange(0, len(kinds)-1).Draw(c.T, "which")
			m := kinds[i].draw(c.T, e)
			if err := nmdc.MarshalTo(enc, &buf, m); err != nil {
				c.Fatalf("%s: %s cannot be encoded: %v", e.name, nShow(m), err)
			}
			if p := last[kinds[i].typ]; p != nil && !nEqual(p, m) {
				c.NonTrivial(true)
			}
			last[kinds[i].typ] = m
			msgs = append(msgs, sent{i, m})
			c.Key("%s;", nShow(m))
		}
		r := nmdc.NewReader(drawEOFReader(c.T, buf.Bytes()))
		r.SetMaxLine(0)
		r.SetDecoder(e.decoder())
		for _, s := range msgs {
			var got nmdc.Message
			var err error
			if rapid.Bool().Draw(c.T, "any") {
				got, err = r.ReadMsgToAny(into...)
			} else {
				got = into[s.i]
				err = r.ReadMsgTo(got)
			}
			if err != nil {
				c.Fatalf("%s: stream %q: %v", e.name, clip(buf.String(), 800), err)
			}
			if !nEqual(got, s.m) {
				c.Fatalf("%s: stream %q, decoded into messages used before:\nwrote %s\n read %s", e.name, clip(buf.String(), 800), nShow(s.m), nShow(got))
			}
		}
		if err := r.ReadMsgTo(into[0]); err != io.EOF {
			c.Fatalf("end of stream: %v", err)
		}
	})
}

// TestN04_Reuse gives payloads, most of them damaged, to a message that has already decoded (or refused) others.
// A payload is accepted or not, and understood, independently of what was decoded before.
func TestN04_Reuse(t *testing.T) {
	check(t, 6000, "a payload is accepted by a variable that already accepted a different one", func(c *C) {
		k := nKinds[pick(c.T, "kind", len(nKinds))]
		e := drawAnyDecoder(c.T)
		used := nmdc.NewMessage(k.typ)
		var prev nmdc.Message
		var first []byte
		for n := rapid.IntRange(2, 4).Draw(c.T, "n"); n > 0; n-- {
			var b []byte
			switch rapid.IntRange(0, 3).Draw(c.T, "payload") {
			case 0:
				b = []byte(k.wire(e, k.draw(c.T, e)))
			case 1:
				if first != nil {
					b = mutate(c.T, first, nJunkTokens)
					break
				}
				fallthrough
			default:
				b = nBrokenPayload(c.T, k)
			}
			first = b
			c.Key("%s %q;", e.name, clip(string(b), 300))
			fresh := nmdc.NewMessage(k.typ)
			var err, ferr error
			if perr := guard(func() {
				ferr = fresh.UnmarshalNMDC(e.decoder(), append([]byte{}, b...))
				err = used.UnmarshalNMDC(e.decoder(), append([]byte{}, b...))
			}); perr != nil {
				c.Fatalf("%T payload %q, %s: %v", fresh, clip(string(b), 500), e.name, perr)
			}
			if (err == nil) != (ferr == nil) {
				c.Fatalf("%T payload %q, %s: %v when decoded into a new message, %v into a used one", fresh, clip(string(b), 500), e.name, ferr, err)
			}
			if err != nil {
				if err.Error() != ferr.Error() {
					c.Fatalf("%T payload %q, %s: error %q for a new message, %q for a used one", fresh, clip(string(b), 500), e.name, ferr, err)
				}
				c.Label("rejected")
				continue
			}
			if !nEqual(used, fresh) {
				c.Fatalf("%T payload %q, %s:\n new message %s\nused message %s", fresh, clip(string(b), 500), e.name, nShow(fresh), nShow(used))
			}
			if prev != nil && !nEqual(prev, fresh) {
				c.NonTrivial(true)
				c.Label("%s", k.label())
			}
			prev = fresh
		}
	})
}

// adcMentions tells which parameters a payload contains.
func adcMentions(named []string, tag string) bool {
	for _, p := range named {
		if strings.HasPrefix(p, tag) {
			return true
		}
	}
	return false
}

// TestA05_Reuse decodes several messages of any type into one variable: positional values are replaced, named
// ones change only if the message contains them, and messages without named values are replaced as a whole.
func TestA05_Reuse(t *testing.T) {
	check(t, 8000, "the variable already held a different message", func(c *C) {
		k := drawADCKind(c.T)
		c.Label("%s", k.name)
		used, want := k.fresh(), k.fresh()
		for n := rapid.IntRange(2, 4).Draw(c.T, "n"); n > 0; n-- {
			ref := k.ref(k.draw(c.T))
			if !ref.isExpl {
				var named []string
				for _, p := range ref.named {
					switch rapid.IntRange(0, 4).Draw(c.T, "keep") {
					case 0, 1:
						continue
					}
					named = append(named, p)
				}
				ref.named = named
			}
			b := []byte(ref.payload())
			if i := bytes.IndexByte(b, ' '); k.name == "STA" && i > 0 && pick(c.T, "no-text", 3) == 0 {
				b = b[:i]
			}
			c.Key("%s %q;", k.name, clip(string(b), 300))
			fresh := k.fresh()
			if err := adc.Unmarshal(b, fresh); err != nil {
				c.Fatalf("%s %q: %v", k.name, clip(string(b), 500), err)
			}
			c.NonTrivial(!adcEqual(want, k.fresh()) && !adcEqual(want, fresh))
			// the model
			fv, wv := reflect.ValueOf(fresh).Elem(), reflect.ValueOf(want).Elem()
			if sup, ok := want.(*adc.Supported); ok {
				sup.Features = sup.Features.SetFrom(fresh.(*adc.Supported).Features)
			} else if ref.isExpl {
				wv.Set(fv)
			} else {
				for i := 0; i < fv.NumField(); i++ {
					tag := strings.SplitN(fv.Type().Field(i).Tag.Get("adc"), ",", 2)[0]
					if tag == "#" || tag == "" || adcMentions(ref.named, tag) {
						wv.Field(i).Set(fv.Field(i))
					}
				}
			}
			if err := adc.Unmarshal(b, used); err != nil {
				c.Fatalf("%s %q is refused by a used message: %v", k.name, clip(string(b), 500), err)
			}
			if !adcEqual(used, want) {
				c.Fatalf("%s %q decoded into a used message:\n got %s\nwant %s", k.name, clip(string(b), 500), adcShow(used), adcShow(want))
			}
		}
	})
}

// TestN06_Hooks switches the decoder from the callbacks of the reader: whatever the reader skips on the way, the
// next message is decoded with the decoder that is current by then.
func TestN06_Hooks(t *testing.T) {
	check(t, 4000, "a text that is not ASCII follows a switch in a message that is skipped", func(c *C) {
		const (
			byKeepAlive = iota
			byLine
			byRaw
			byMessage
			byError
			byAccepted
		)
		type part struct {
			how  int
			e    *nEnc
			dec  *nmdc.TextDecoder
			msgs []nmdc.Message
		}
		var (
			parts  []part
			stream []byte
		)
		skipped := false
		for n := rapid.IntRange(1, 4).Draw(c.T, "parts"); n > 0; n-- {
			p := part{how: rapid.IntRange(byKeepAlive, byAccepted).Draw(c.T, "how"), e: drawAnyEncoding(c.T, "enc")}
			p.dec = p.e.decoder()
			stream = append(stream, []string{"|", "$SwitchLine|", "$SwitchRaw x|", "$SwitchMessage|", "$MCTo switch|", "$SwitchAccepted|"}[p.how]...)
			skipped = p.how != byAccepted
			c.Label("%d", p.how)
			for j := rapid.IntRange(0, 2).Draw(c.T, "n"); j > 0; j-- {
				k, m := drawShort(c.T, p.e)
				stream = append(stream, k.line(p.e, m)...)
				if skipped {
					for _, s := range nTexts(m) {
						c.NonTrivial(!isASCIIText(s))
					}
				}
				skipped = false
				p.msgs = append(p.msgs, m)
				c.Key("%d %s %s;", p.how, p.e.name, nShow(m))
			}
			parts = append(parts, p)
		}
		r := nmdc.NewReader(drawEOFReader(c.T, stream))
		r.SetMaxLine(0)
		at := 0
		next := func() {
			if at >= len(parts) {
				c.Fatalf("%q: more switches than sent", clip(string(stream), 1000))
			}
			r.SetDecoder(parts[at].dec)
			at++
		}
		r.OnKeepAlive = func() error { next(); return nil }
		r.OnLine(func(line []byte) (bool, error) {
			if string(line) == "$SwitchLine|" {
				next()
				return false, nil
			}
			return true, nil
		})
		r.OnRawMessage(func(cmd, args []byte) (bool, error) {
			if string(cmd) == "SwitchRaw" {
				next()
				return false, nil
			}
			return true, nil
		})
		r.OnUnmarshalError = func(line []byte, err error) (bool, error) {
			if string(line) != "$MCTo switch" {
				return true, err
			}
			next()
			return false, nil
		}
		r.OnMessage(func(m nmdc.Message) (bool, error) {
			switch m.Type() {
			case "SwitchMessage":
				next()
				return false, nil
			case "SwitchAccepted":
				next()
			}
			return true, nil
		})
		for _, p := range parts {
			if p.how == byAccepted {
				if m, err := r.ReadMsg(); err != nil || m.Type() != "SwitchAccepted" {
					c.Fatalf("%q: %v %v, want the switch message", clip(string(stream), 1000), m, err)
				}
			}
			for _, m := range p.msgs {
				got, err := r.ReadMsg()
				if err != nil {
					c.Fatalf("%q in %s: %v", clip(string(stream), 1000), p.e.name, err)
				}
				if !nEqual(got, m) {
					c.Fatalf("%q in %s:\n got %s\nwant %s", clip(string(stream), 1000), p.e.name, nShow(got), nShow(m))
				}
			}
		}
		if m, err := r.ReadMsg(); err != io.EOF {
			c.Fatalf("%v %v at the end, want EOF", m, err)
		}
	})
}

// TestN06_WriterHooks switches the encoder from the message hook of the writer. How messages are grouped into
// calls makes no difference.
func TestN06_WriterHooks(t *testing.T) {
	check(t, 3000, "a text that is not ASCII follows a switch in the same call", func(c *C) {
		var (
			all   []nmdc.Message
			encs  []*nEnc // of each message
			names = map[nmdc.Message]*nEnc{}
			drop  = map[nmdc.Message]bool{}
			cur   = nUTF8
		)
		for n := rapid.IntRange(1, 8).Draw(c.T, "n"); n > 0; n-- {
			if rapid.IntRange(0, 2).Draw(c.T, "switch") == 0 {
				m := &nmdc.RawMessage{Typ: "Switch"}
				names[m] = drawAnyEncoding(c.T, "enc")
				drop[m] = rapid.Bool().Draw(c.T, "drop")
				all, encs = append(all, m), append(encs, cur)
				cur = names[m]
				continue
			}
			_, m := drawShort(c.T, cur)
			if m, ok := m.(*nmdc.MyINFO); ok {
				m.Extra = nil // the order is not defined
			}
			all, encs = append(all, m), append(encs, cur)
		}
		var sent bytes.Buffer
		w := nmdc.NewWriter(&sent)
		w.OnMessage(func(m nmdc.Message) (bool, error) {
			if e := names[m]; e != nil {
				w.SetEncoder(e.encoder())
			}
			return !drop[m], nil
		})
		want := ""
		for i := 0; i < len(all); {
			n := rapid.IntRange(1, len(all)-i).Draw(c.T, "batch")
			switched := false
			for j, m := range all[i : i+n] {
				switched = switched || names[m] != nil
				if !drop[m] {
					data, err := nmdc.Marshal(encs[i+j].encoder(), m)
					if err != nil {
						c.Fatalf("%s in %s: %v", nShow(m), encs[i+j].name, err)
					}
					want += string(data)
				}
				for _, s := range nTexts(m) {
					c.NonTrivial(switched && !isASCIIText(s))
				}
				c.Key("%s %s;", encs[i+j].name, nShow(m))
			}
			if err := w.WriteMsg(all[i : i+n]...); err != nil {
				c.Fatalf("WriteMsg: %v", err)
			}
			i += n
		}
		if err := w.Flush(); err != nil {
			c.Fatalf("Flush: %v", err)
		}
		if sent.String() != want {
			c.Fatalf("sent %q\nwant %q", clip(sent.String(), 1000), clip(want, 1000))
		}
	})
}

// TestL04_Hooks switches compression on from the callbacks of the reader, as hubs and clients do when the command
// that announces it arrives. The command may be passed on to the caller or skipped.
func TestL04_Hooks(t *testing.T) {
	check(t, 2500, "a compressed section started by a callback has at least one line", func(c *C) {
		const (
			inLine = iota
			inRaw
			inMessage
			hooks
		)
		var wire bytes.Buffer
		var want []string
		line := func() string {
			s := rapid.StringMatching(`[a-z ]{1,12}`).Draw(c.T, "text")
			if rapid.IntRange(0, 5).Draw(c.T, "long") == 0 {
				s = strings.Repeat(s, rapid.IntRange(1, 800).Draw(c.T, "times"))
			}
			return s
		}
		for n := rapid.IntRange(1, 4).Draw(c.T, "sections"); n > 0; n-- {
			for j := rapid.IntRange(0, 3).Draw(c.T, "plain"); j > 0; j-- {
				s := line()
				wire.WriteString("$X " + s + "|")
				want = append(want, s)
			}
			how := rapid.IntRange(0, hooks-1).Draw(c.T, "hook")
			drop := rapid.Bool().Draw(c.T, "drop")
			cmd := "ZOn" + string('0'+rune(how)) + map[bool]string{true: "d", false: "a"}[drop]
			wire.WriteString("$" + cmd + "|")
			if !drop {
				want = append(want, cmd)
			}
			z, err := zlib.NewWriterLevel(&wire, drawLevel(c.T))
			if err != nil {
				c.Fatalf("harness: %v", err)
			}
			for j := rapid.IntRange(0, 4).Draw(c.T, "compressed"); j > 0; j-- {
				s := line()
				_, _ = z.Write([]byte("$X " + s + "|"))
				if rapid.IntRange(0, 2).Draw(c.T, "flush") == 0 {
					_ = z.Flush()
				}
				want = append(want, s)
				c.NonTrivial(true)
			}
			_ = z.Close()
			c.Label("%s", cmd)
		}
		if rapid.Bool().Draw(c.T, "tail") {
			wire.WriteString("$X tail|")
			want = append(want, "tail")
		}
		src := drawEOFReader(c.T, wire.Bytes())
		c.Key("%q %v", want, src)
		r := nmdc.NewReader(src)
		hook := func(how int, cmd string) (bool, error) {
			if len(cmd) != 5 || cmd[:3] != "ZOn" || int(cmd[3]-'0') != how {
				return true, nil
			}
			return cmd[4] == 'a', r.EnableZlib()
		}
		r.OnLine(func(line []byte) (bool, error) { return hook(inLine, strings.Trim(string(line), "$|")) })
		r.OnRawMessage(func(cmd, _ []byte) (bool, error) { return hook(inRaw, string(cmd)) })
		r.OnMessage(func(m nmdc.Message) (bool, error) { return hook(inMessage, m.Type()) })
		for i, s := range want {
			m, err := r.ReadMsg()
			if err != nil {
				c.Fatalf("message %d: %v, want %q", i, err, clip(s, 100))
			}
			raw, ok := m.(*nmdc.RawMessage)
			if !ok || (raw.Typ != s && (raw.Typ != "X" || string(raw.Data) != s)) {
				c.Fatalf("message %d is %s, want %q", i, nShow(m), clip(s, 100))
			}
		}
		if m, err := r.ReadMsg(); err != io.EOF {
			c.Fatalf("%v %v at the end, want EOF", m, err)
		}
	})
}
