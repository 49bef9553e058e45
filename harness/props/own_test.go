package props

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/direct-connect/go-dc/adc"
	adctypes "github.com/direct-connect/go-dc/adc/types"
	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- X01

// scramble changes everything that can be reached from v without replacing what is shared.
func scramble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			scramble(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				scramble(v.Field(i))
			}
		}
	case reflect.Slice:
		// the spare capacity is reachable by an append
		full := v.Slice3(0, v.Cap(), v.Cap())
		for i := 0; i < full.Len(); i++ {
			scramble(full.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			n := reflect.New(v.Type().Elem()).Elem()
			n.Set(v.MapIndex(k))
			scramble(n)
			v.SetMapIndex(k, n)
		}
		if !v.IsNil() {
			k := reflect.New(v.Type().Key()).Elem()
			scramble(k)
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scrambled " + v.String())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(^v.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(^v.Uint() & (1<<uint(v.Type().Bits()) - 1))
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}

func fill(b []byte) {
	for i := range b {
		b[i] = '#'
	}
}

type kept struct {
	what string
	show func() string
	was  string
}

func keep(list *[]kept, what string, show func() string) {
	*list = append(*list, kept{what, show, strings.Clone(show())})
}

func checkKept(c *C, when string, list []kept) {
	c.Helper()
	for _, k := range list {
		if now := k.show(); now != k.was {
			c.Fatalf("%s changed after %s:\n%s\nwas\n%s", k.what, when, now, k.was)
		}
	}
}

// drawLongSize draws the size of a payload, often around a size that buffers have.
func drawLongSize(t *rapid.T) int {
	n := 1 << rapid.IntRange(5, 13).Draw(t, "long-size")
	return n + rapid.IntRange(-8, n/2).Draw(t, "long-d")
}

func TestX01_NMDCReader(t *testing.T) {
	check(t, 2500, "at least three messages are kept while the reader goes on", func(c *C) {
		e := drawEncoding(c.T, "enc")
		type item struct {
			k    nKind
			want nmdc.Message
		}
		var items []item
		var wire []byte
		for n := 2 + pick(c.T, "messages", 6); n > 0; n-- {
			var k nKind
			var m nmdc.Message
			if pick(c.T, "raw", 6) == 0 {
				raw := drawRawMsg(c.T)
				if rapid.Bool().Draw(c.T, "long") {
					raw.Data = pattern(drawLongSize(c.T), byte(n), '|', 0)
				}
				m, k = raw, kindOf(raw)
			} else {
				k, m = drawNMDC(c.T, e)
			}
			line, err := nmdc.Marshal(e.encoder(), m)
			if err != nil {
				c.Fatalf("cannot encode %s: %v", nShow(m), err)
			}
			items = append(items, item{k, m})
			wire = append(wire, line...)
		}
		src := drawEOFReader(c.T, wire)
		backing := src.data[:len(src.data):len(src.data)]
		r := nmdc.NewReader(src)
		r.SetMaxCmdName(1 << 20)
		if dec := e.decoder(); dec != nil {
			r.SetDecoder(dec)
		}
		var list []kept
		var hooked []nmdc.Message
		if pick(c.T, "hook", 3) == 0 {
			r.OnMessage(func(m nmdc.Message) (bool, error) {
				hooked = append(hooked, m)
				return true, nil
			})
		}
		for i, it := range items {
			var got nmdc.Message
			var err error
			how := pick(c.T, "how", 5)
			c.Key("%d:%s ", how, it.k.label())
			fresh := nmdc.NewMessage(it.want.Type())
			if it.want.Type() == "" {
				fresh = &nmdc.ChatMessage{}
			}
			if _, raw := fresh.(*nmdc.RawMessage); raw && how != 4 {
				how = 0
			}
			switch how {
			case 1:
				err = r.ReadMsgTo(fresh)
				got = fresh
			case 2:
				got, err = r.ReadMsgToAny(&nmdc.GetPass{}, fresh)
			case 3, 4: // another message is expected
				var other nmdc.Message = &nmdc.BotList{}
				if it.want.Type() == "BotList" {
					other = &nmdc.Hello{}
				}
				err = r.ReadMsgTo(other)
				var ue *nmdc.ErrUnexpectedCommand
				if !errors.As(err, &ue) || ue.Received == nil {
					c.Fatalf("reading %s as %T gives %v", nShow(it.want), other, err)
				}
				keep(&list, fmt.Sprintf("the error for message %d", i), func() string {
					return fmt.Sprintf("%q %q %q", ue.Expected, ue.Received.Typ, ue.Received.Data)
				})
				continue
			default:
				got, err = r.ReadMsg()
			}
			if err != nil {
				c.Fatalf("message %d, %s: %v", i, nShow(it.want), err)
			}
			if !nEqual(got, it.want) {
				c.Fatalf("message %d is read as\n%s\nwant\n%s", i, nShow(got), nShow(it.want))
			}
			if pick(c.T, "change", 4) == 0 {
				// the program may do what it likes with the message
				scramble(reflect.ValueOf(got))
			}
			keep(&list, fmt.Sprintf("message %d (%s)", i, it.k.label()), func() string { return nShow(got) })
		}
		c.NonTrivial(len(list) >= 3)
		_ = hooked
		checkKept(c, "reading on", list)
		if pick(c.T, "close", 2) == 0 {
			_ = r.Close()
		} else {
			_, _ = r.ReadMsg() // the end
		}
		fill(backing)
		checkKept(c, "the end of the connection", list)
	})
}

func TestX01_NMDCWriter(t *testing.T) {
	check(t, 2500, "at least two messages with contents, changed before the writer is flushed", func(c *C) {
		e := drawEncoding(c.T, "enc")
		var net bytes.Buffer
		w := nmdc.NewWriterSize(&net, rapid.SampledFrom([]int{0, 16, 100, 1 << 16}).Draw(c.T, "buffer"))
		if enc := e.encoder(); enc != nil {
			w.SetEncoder(enc)
		}
		var list []kept
		var want []byte
		changed := 0
		for n := 2 + pick(c.T, "messages", 5); n > 0; n-- {
			k, m := drawNMDC(c.T, e)
			c.Key("%s ", k.label())
			before := strings.Clone(nShow(m))
			data, err := nmdc.Marshal(e.encoder(), m)
			if err != nil {
				c.Fatalf("cannot encode %s: %v", before, err)
			}
			pre := pick(c.T, "prefix", 40)
			buf := bytes.NewBuffer(append(make([]byte, 0, pre+pick(c.T, "room", 300)), pattern(pre, 1)...))
			if err := nmdc.MarshalTo(e.encoder(), buf, m); err != nil {
				c.Fatalf("cannot encode %s: %v", before, err)
			}
			appended := buf.Bytes()
			if !bytes.Equal(appended[:pre], pattern(pre, 1)) {
				c.Fatalf("encoding %s changed what the buffer held", before)
			}
			keep(&list, "an encoded "+k.label(), func() string { return string(data) })
			keep(&list, "an encoded "+k.label(), func() string { return string(appended) })
			if mi, ok := m.(*nmdc.MyINFO); ok && len(mi.Extra) > 1 {
				// the order of the extensions in a tag is free, and may differ each time
				continue
			}
			if !bytes.Equal(data, appended[pre:]) {
				c.Fatalf("%s is encoded as %q and %q", before, data, appended[pre:])
			}
			if err := w.WriteMsg(m); err != nil {
				c.Fatalf("cannot write %s: %v", before, err)
			}
			want = append(want, data...)
			if now := nShow(m); now != before {
				c.Fatalf("encoding changed the message:\n%s\nwas\n%s", now, before)
			}
			scramble(reflect.ValueOf(m))
			if nShow(m) != before {
				changed++
			}
			checkKept(c, "changing the message", list)
			if pick(c.T, "flush", 4) == 0 {
				if err := w.Flush(); err != nil {
					c.Fatalf("flush: %v", err)
				}
			}
		}
		c.NonTrivial(changed > 1)
		if err := w.Flush(); err != nil {
			c.Fatalf("flush: %v", err)
		}
		if !bytes.Equal(net.Bytes(), want) {
			c.Fatalf("written %q, want %q", net.Bytes(), want)
		}
		checkKept(c, "the flush", list)
	})
}

func TestX01_NMDCBuffers(t *testing.T) {
	check(t, 5000, "the message has contents", func(c *C) {
		e := drawEncoding(c.T, "enc")
		k, m := drawNMDC(c.T, e)
		data, err := nmdc.Marshal(e.encoder(), m)
		if err != nil {
			c.Fatalf("cannot encode %s: %v", nShow(m), err)
		}
		c.Key("%q", data)
		c.NonTrivial(nInteresting(m))
		var list []kept
		in := append([]byte{}, data...)
		got, err := nmdc.Unmarshal(e.decoder(), in)
		if err != nil {
			c.Fatalf("cannot decode %q: %v", data, err)
		}
		if !bytes.Equal(in, data) {
			c.Fatalf("decoding changed the input %q to %q", data, in)
		}
		keep(&list, "the message", func() string { return nShow(got) })
		fill(in)
		checkKept(c, "overwriting the input", list)
		payload := append([]byte{}, k.wire(e, m)...)
		if mi, ok := m.(*nmdc.MyINFO); ok && len(mi.Extra) > 1 {
			payload = append([]byte{}, data[len("$MyINFO "):len(data)-1]...)
		}
		in = append([]byte{}, payload...)
		into := nmdc.NewMessage(m.Type())
		if m.Type() == "" {
			into = &nmdc.ChatMessage{}
		}
		if len(in) == 0 {
			in = nil
		}
		if err := into.UnmarshalNMDC(e.decoder(), in); err != nil {
			c.Fatalf("cannot decode the payload %q of %s: %v", payload, k.label(), err)
		}
		if !bytes.Equal(in, payload) {
			c.Fatalf("decoding changed the input %q to %q", payload, in)
		}
		keep(&list, "the decoded "+k.label(), func() string { return nShow(into) })
		fill(in)
		checkKept(c, "overwriting the input", list)
		// neither of the two shares anything with the other
		scramble(reflect.ValueOf(got))
		checkKept(c, "changing another message", list[1:])
		again, err := nmdc.Unmarshal(e.decoder(), data)
		if err != nil || !nEqual(again, m) {
			c.Fatalf("after changing a decoded message, %q is decoded as\n%s, %v\nwant\n%s", data, nShow(again), err, nShow(m))
		}
	})
}

// adcDeep prints a message or packet with everything it points to.
func adcDeep(v interface{}) string {
	var b strings.Builder
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			fmt.Fprintf(&b, "%v:", v.Elem().Type())
			walk(v.Elem())
		case reflect.Struct:
			b.WriteByte('{')
			for i := 0; i < v.NumField(); i++ {
				fmt.Fprintf(&b, "%s:", v.Type().Field(i).Name)
				walk(v.Field(i))
				b.WriteByte(' ')
			}
			b.WriteByte('}')
		case reflect.Slice, reflect.Array:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				b.WriteByte('"')
				for i := 0; i < v.Len(); i++ {
					b.WriteByte(byte(v.Index(i).Uint()))
				}
				b.WriteByte('"')
				return
			}
			b.WriteByte('[')
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
				b.WriteByte(' ')
			}
			b.WriteByte(']')
		default:
			fmt.Fprintf(&b, "%#v", v)
		}
	}
	walk(reflect.ValueOf(v))
	return b.String()
}

func drawADCPacket(t *rapid.T) (refPacket, adc.Message, []byte) {
	var m adc.Message
	if pick(t, "unknown", 5) == 0 {
		p := drawPayload(t, "payload")
		if p == "" || !featurePayloadOK(p) {
			p = "x" + p
		}
		if pick(t, "long", 4) == 0 {
			p += strings.Repeat("long", drawLongSize(t)/4)
		}
		m = &adc.RawMessage{Type: drawUnknownCmd(t), Data: []byte(p)}
	} else {
		m = drawRegisteredKind(t).draw(t)
	}
	r := drawRefPacket(t)
	data, err := marshalADC(m)
	if err != nil {
		t.Fatalf("cannot encode %s: %v", adcShow(m), err)
	}
	if r.kind == 'F' && !featurePayloadOK(string(data)) {
		r.kind, r.sel = 'B', nil
	}
	return r, m, data
}

func TestX01_ADCReader(t *testing.T) {
	check(t, 2500, "at least three packets are kept while the reader goes on", func(c *C) {
		type item struct {
			r refPacket
			m adc.Message
		}
		var items []item
		var wire bytes.Buffer
		for n := 2 + pick(c.T, "packets", 6); n > 0; n-- {
			r, m, _ := drawADCPacket(c.T)
			if err := r.build(m).MarshalPacketADC(&wire); err != nil {
				c.Fatalf("cannot encode %s: %v", adcShow(m), err)
			}
			items = append(items, item{r, m})
		}
		src := drawEOFReader(c.T, wire.Bytes())
		backing := src.data[:len(src.data):len(src.data)]
		r := adc.NewReader(src)
		var list []kept
		for i, it := range items {
			c.Key("%c%s ", it.r.kind, it.m.Cmd())
			var got adc.Message
			var keepIt interface{}
			how := pick(c.T, "how", 3)
			if how == 0 && it.r.kind == 'I' {
				m, err := r.ReadInfo()
				if err != nil {
					c.Fatalf("packet %d, %s: %v", i, adcShow(it.m), err)
				}
				got, keepIt = m, &m
			} else if how == 0 && it.r.kind == 'C' {
				m, err := r.ReadClient()
				if err != nil {
					c.Fatalf("packet %d, %s: %v", i, adcShow(it.m), err)
				}
				got, keepIt = m, &m
			} else {
				p, err := r.ReadPacket()
				if err != nil {
					c.Fatalf("packet %d, %s: %v", i, adcShow(it.m), err)
				}
				if d := it.r.diff(p); d != "" {
					c.Fatalf("packet %d: %s", i, d)
				}
				got, keepIt = p.Message(), p
			}
			if !adcEqual(got, it.m) {
				c.Fatalf("packet %d is read as\n%s\nwant\n%s", i, adcShow(got), adcShow(it.m))
			}
			if pick(c.T, "change", 4) == 0 {
				scramble(reflect.ValueOf(keepIt))
			}
			keep(&list, fmt.Sprintf("packet %d (%c%s)", i, it.r.kind, it.m.Cmd()), func() string { return adcDeep(keepIt) })
		}
		c.NonTrivial(len(list) >= 3)
		checkKept(c, "reading on", list)
		if pick(c.T, "close", 2) == 0 {
			_ = r.Close()
		} else {
			_, _ = r.ReadPacket() // the end
		}
		fill(backing)
		checkKept(c, "the end of the connection", list)
	})
}

func TestX01_ADCWriter(t *testing.T) {
	check(t, 2500, "at least two packets, changed before the writer is flushed", func(c *C) {
		var net bytes.Buffer
		w := adc.NewWriterSize(&net, rapid.SampledFrom([]int{0, 16, 100, 1 << 16}).Draw(c.T, "buffer"))
		var want []byte
		var list []kept
		changed := 0
		for n := 2 + pick(c.T, "packets", 5); n > 0; n-- {
			r, m, _ := drawADCPacket(c.T)
			if s, ok := m.(adc.Supported); ok && len(s.Features) > 1 {
				continue // the order of the features is free, and may differ each time
			}
			c.Key("%c%s ", r.kind, m.Cmd())
			p := r.build(m)
			var buf bytes.Buffer
			pre := pattern(pick(c.T, "prefix", 30), 2)
			buf.Write(pre)
			if err := p.MarshalPacketADC(&buf); err != nil {
				c.Fatalf("cannot encode %s: %v", adcShow(m), err)
			}
			if !bytes.HasPrefix(buf.Bytes(), pre) {
				c.Fatalf("encoding %s changed what the buffer held", adcShow(m))
			}
			line := buf.Bytes()[len(pre):]
			keep(&list, "an encoded packet", func() string { return string(line) })
			before := adcDeep(p)
			if err := w.WritePacket(p); err != nil {
				c.Fatalf("cannot write %s: %v", adcShow(m), err)
			}
			want = append(want, line...)
			if now := adcDeep(p); now != before {
				c.Fatalf("encoding changed the packet:\n%s\nwas\n%s", now, before)
			}
			if raw, ok := m.(*adc.RawMessage); ok {
				scramble(reflect.ValueOf(&raw.Data))
			}
			scramble(reflect.ValueOf(p))
			changed++
			checkKept(c, "changing the packet", list)
			if pick(c.T, "flush", 4) == 0 {
				if err := w.Flush(); err != nil {
					c.Fatalf("flush: %v", err)
				}
			}
		}
		c.NonTrivial(changed > 1)
		if err := w.Flush(); err != nil {
			c.Fatalf("flush: %v", err)
		}
		if !bytes.Equal(net.Bytes(), want) {
			c.Fatalf("written %q, want %q", net.Bytes(), want)
		}
		checkKept(c, "the flush", list)
	})
}

func TestX01_ADCBuffers(t *testing.T) {
	check(t, 5000, "the message has a payload", func(c *C) {
		r, m, payload := drawADCPacket(c.T)
		line := []byte(r.line(m.Cmd(), string(payload)))
		c.Key("%q", line)
		c.NonTrivial(len(payload) > 0)
		var list []kept
		in := append([]byte{}, line...)
		p, err := adc.DecodePacket(in)
		if err != nil {
			c.Fatalf("cannot decode %q: %v", line, err)
		}
		if !bytes.Equal(in, line) {
			c.Fatalf("decoding changed the input %q to %q", line, in)
		}
		keep(&list, "the packet", func() string { return adcDeep(p) })
		fill(in)
		checkKept(c, "overwriting the input", list)
		k := drawADCKind(c.T)
		m2 := k.draw(c.T)
		payload, err = marshalADC(m2)
		if err != nil {
			c.Fatalf("cannot encode %s: %v", adcShow(m2), err)
		}
		in = append([]byte{}, payload...)
		into := k.fresh()
		if err := adc.Unmarshal(in, into); err != nil {
			c.Fatalf("cannot decode the payload %q of %s: %v", payload, k.name, err)
		}
		if !bytes.Equal(in, payload) {
			c.Fatalf("decoding changed the input %q to %q", payload, in)
		}
		keep(&list, "the decoded "+k.name, func() string { return adcDeep(into) })
		fill(in)
		checkKept(c, "overwriting the input", list)
		scramble(reflect.ValueOf(p))
		checkKept(c, "changing another message", list[1:])
		again, err := adc.DecodePacket(line)
		if err != nil || r.diff(again) != "" || !adcEqual(again.Message(), m) {
			c.Fatalf("after changing a decoded packet, %q is decoded as\n%v, %v\nwant\n%s", line, again, err, adcShow(m))
		}
	})
}

// TestX01_Encoded keeps what the encoding calls return while further values are encoded, and overwrites some of
// it: neither the other results nor the values follow.
func TestX01_Encoded(t *testing.T) {
	check(t, 3000, "at least three results are kept while other values are encoded", func(c *C) {
		e := drawEncoding(c.T, "enc")
		var list []kept
		var owned [][]byte
		var again []func() ([]byte, error)
		var first []string
		for n := 2 + pick(c.T, "values", 6); n > 0; n-- {
			var call func() ([]byte, error)
			var show func() string
			switch what := pick(c.T, "what", 6); what {
			case 0, 1:
				_, m := drawNMDC(c.T, e)
				if mi, ok := m.(*nmdc.MyINFO); ok && len(mi.Extra) > 1 {
					mi.Extra = nil // the order is not fixed
				}
				call = func() ([]byte, error) { return nmdc.Marshal(e.encoder(), m) }
				show = func() string { return nShow(m) }
			case 2, 3:
				k := drawADCKind(c.T)
				if k.name == "SUP" {
					k = adcKindByName("STA") // the order of its parameters is not fixed
				}
				m := k.draw(c.T)
				call = func() ([]byte, error) { return adc.MustMarshal(m), nil }
				show = func() string { return adcDeep(m) }
			case 4:
				id := adctypes.CID(draw24(c.T, "cid"))
				call = id.MarshalText
				show = id.String
			case 5:
				h := tiger.Hash(draw24(c.T, "hash"))
				call = h.MarshalText
				if rapid.Bool().Draw(c.T, "bytes") {
					call = func() ([]byte, error) { return h.Bytes(), nil }
				}
				show = h.String
			}
			keep(&list, "an encoded value", show)
			b, err := call()
			if err != nil {
				c.Fatalf("cannot encode %s: %v", show(), err)
			}
			again = append(again, call)
			first = append(first, string(b))
			owned = append(owned, b)
			keep(&list, "an encoding", func() string { return string(b) })
			checkKept(c, "encoding another value", list)
			c.Key("%q;", b)
		}
		c.NonTrivial(len(owned) > 2)
		over := pick(c.T, "over", len(owned))
		rest := append(append([]kept{}, list[:2*over+1]...), list[2*over+2:]...)
		b := owned[over]
		fill(b[:cap(b)])
		checkKept(c, "overwriting another encoding", rest)
		for i, call := range again {
			if b, err := call(); err != nil || string(b) != first[i] {
				c.Fatalf("after overwriting an encoding, encoding again gives %q, %v, want %q", b, err, first[i])
			}
		}
	})
}
