package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/types"
	"pgregory.net/rapid"
)

// drawLargeSize draws a size around the powers of two from 16 KiB to 2 MiB, or anything up to 3 MiB.
func drawLargeSize(t *rapid.T) int {
	if pick(t, "any-size", 3) == 0 {
		return rapid.IntRange(1, 3<<20).Draw(t, "size")
	}
	return 1<<rapid.IntRange(14, 21).Draw(t, "size-log") + rapid.IntRange(-2, 2).Draw(t, "size-delta")
}

func drawLargeReader(t *rapid.T, data []byte) *chunkReader {
	return &chunkReader{data: data, plan: []int{rapid.SampledFrom([]int{1 << 22, 1 << 16, 1<<16 - 1, 4096, 1460}).Draw(t, "chunk")}, err: io.EOF, withData: rapid.Bool().Draw(t, "errWithData")}
}

// largeItems draws binary sections and lines of up to 3 MiB.
func largeItems(t *rapid.T) (items []item) {
	for n := rapid.IntRange(1, 4).Draw(t, "n"); n > 0; n-- {
		if rapid.Bool().Draw(t, "line") {
			items = append(items, item{data: append(pattern(drawLargeSize(t)-1, rapid.Byte().Draw(t, "fill"), '|'), '|')})
		} else {
			items = append(items, item{bin: true, data: pattern(drawLargeSize(t), rapid.Byte().Draw(t, "fill"))})
		}
		if rapid.Bool().Draw(t, "short") {
			items = append(items, item{data: []byte("short line|")})
		}
	}
	return items
}

func describeLarge(items []item) (s string) {
	for _, it := range items {
		s += fmt.Sprintf("%v:%d ", it.bin, len(it.data))
	}
	return s
}

// TestL03_Large: the writer does not lose data of any size.
func TestL03_Large(t *testing.T) {
	check(t, 40, "lines and raw writes of 16 KiB to 3 MiB, with flushes and compressed sections between them; non-trivial: always", func(c *C) {
		items := largeItems(c.T)
		buf := rapid.SampledFrom([]int{0, 64, 4096, 1 << 16, 1 << 20}).Draw(c.T, "buf")
		c.Key("buf=%d %s", buf, describeLarge(items))
		c.NonTrivial(true)
		var out sink
		w := lineproto.NewWriterSize(&out, buf)
		var m wireModel
		for i, it := range items {
			switch pick(c.T, "before", 4) {
			case 0:
				if m.zlibOn() {
					if err := w.DisableZlib(); err != nil {
						c.Fatalf("item %d: disable: %v", i, err)
					}
					m.stop()
				} else {
					if err := w.EnableZlibLevel(rapid.SampledFrom([]int{-1, 0, 1}).Draw(c.T, "level")); err != nil {
						c.Fatalf("item %d: enable: %v", i, err)
					}
					m.start()
				}
			case 1:
				if err := w.Flush(); err != nil {
					c.Fatalf("item %d: flush: %v", i, err)
				}
				if err := m.verify(out.Bytes()); err != nil {
					c.Fatalf("item %d: %v", i, err)
				}
			}
			data := append([]byte{}, it.data...)
			if it.bin {
				if n, err := w.Write(data); err != nil || n != len(data) {
					c.Fatalf("item %d: wrote %d of %d bytes: %v", i, n, len(data), err)
				}
			} else if err := w.WriteLine(data); err != nil {
				c.Fatalf("item %d: %v", i, err)
			}
			for k := range data {
				data[k] = 0xAA
			}
			m.add(it.data)
		}
		if rapid.Bool().Draw(c.T, "close") {
			if err := w.Close(); err != nil {
				c.Fatalf("close: %v", err)
			}
			if m.zlibOn() {
				m.cur().closed = true
			}
		} else if err := w.Flush(); err != nil {
			c.Fatalf("flush: %v", err)
		}
		if err := m.verify(out.Bytes()); err != nil {
			c.Fatalf("in the end: %v", err)
		}
	})
}

// TestL05_Large: large binary sections, read in part and closed, and the lines around them.
func TestL05_Large(t *testing.T) {
	check(t, 60, "lines and binary sections of 16 KiB to 3 MiB, plain or compressed up to some point; sections are read in part and closed; non-trivial: a section of 16 KiB or more", func(c *C) {
		items := append(largeItems(c.T), item{data: []byte("end|")})
		var all []byte
		for _, it := range items {
			all = append(all, it.data...)
			c.NonTrivial(it.bin)
		}
		wire, cut := all, 0
		if rapid.Bool().Draw(c.T, "zlib") {
			cut = rapid.SampledFrom([]int{len(all), len(all) - 4, len(all) / 2}).Draw(c.T, "cut")
			var buf bytes.Buffer
			w := lineproto.NewWriter(&buf)
			if err := w.EnableZlibLevel(1); err != nil {
				c.Fatalf("enable: %v", err)
			}
			w.Write(all[:cut])
			if err := w.DisableZlib(); err != nil {
				c.Fatalf("disable: %v", err)
			}
			w.Write(all[cut:])
			wire = buf.Bytes()
		}
		src := drawLargeReader(c.T, wire)
		c.Key("%scut=%d chunks=%v", describeLarge(items), cut, src)
		r := lineproto.NewReader(src, '|')
		r.SetMaxLine(0)
		if cut > 0 {
			if err := r.EnableZlib(); err != nil {
				c.Fatalf("enable: %v", err)
			}
		}
		for i, it := range items {
			where := fmt.Sprintf("item %d", i)
			if !it.bin {
				readItem(c, r, it, where)
				continue
			}
			rc, err := r.Binary(uint64(len(it.data)))
			if err != nil {
				c.Fatalf("%s: %v", where, err)
			}
			stop := min(len(it.data), rapid.SampledFrom([]int{0, 1, 100, len(it.data) / 2, len(it.data)}).Draw(c.T, "readUpTo"))
			got := make([]byte, stop)
			if n, err := io.ReadFull(rc, got); err != nil {
				c.Fatalf("%s: read %d of %d: %v", where, n, stop, err)
			}
			if !bytes.Equal(got, it.data[:stop]) {
				c.Fatalf("%s: wrong data: %s", where, diffBytes(got, it.data[:stop]))
			}
			if err := rc.Close(); err != nil {
				c.Fatalf("%s: closing with %d of %d bytes unread: %v", where, len(it.data)-stop, len(it.data), err)
			}
		}
		if line, err := r.ReadLine(); err != io.EOF {
			c.Fatalf("expected the end of the stream, got %q, %v", clip(string(line), 100), err)
		}
	})
}

// nLarge draws a message whose text or list makes it 10 KiB to 1 MiB long.
func nLarge(t *rapid.T, e *nEnc) (nKind, nmdc.Message) {
	unit := rapid.SampledFrom([]string{"x", "some text ", "a $b| &c; ", "&amp;", "0123456789abcdef"}).Draw(t, "unit")
	if e.enc != nil || rapid.Bool().Draw(t, "ascii") {
		if e.enc != nil {
			unit += rapid.SampledFrom(e.pool).Draw(t, "char")
		} else {
			unit += rapid.SampledFrom([]string{"é", "日本", "ё", "\U0001f600"}).Draw(t, "char")
		}
	}
	size := rapid.SampledFrom([]int{10 << 10, 1<<15 - 5, 1 << 15, 1<<16 - 5, 1 << 16, 200000, 1 << 20}).Draw(t, "size") + pick(t, "delta", 10)
	text := strings.Repeat(unit, size/len(unit)) + "."
	count := size / 32
	list := func(format string) (out []string) {
		for i := 0; i < count; i++ {
			out = append(out, fmt.Sprintf(format, i))
		}
		return
	}
	var m nmdc.Message
	switch pick(t, "type", 14) {
	case 0:
		m = &nmdc.ChatMessage{Name: "user", Text: text}
	case 1:
		m = &nmdc.PrivateMessage{To: "a", From: "b", Name: "b", Text: text}
	case 2:
		m = &nmdc.MyINFO{Name: "user", Desc: text, Client: types.Software{Name: "c", Version: "1"}, Mode: nmdc.UserModeActive, HubsNormal: 1, Slots: 2, Conn: "100", Flag: nmdc.FlagStatusNormal, Email: "e", ShareSize: 1}
	case 3:
		m = &nmdc.SR{From: "user", Path: []string{"dir", text}, Size: 5, FreeSlots: 1, TotalSlots: 2, HubName: "hub", HubAddress: "1.2.3.4:411"}
	case 4:
		m = &nmdc.Search{Address: "1.2.3.4:412", SizeRestricted: true, IsMaxSize: true, Size: 100, DataType: nmdc.DataTypeVideo, Pattern: strings.ReplaceAll(text, " ", "_")}
	case 5:
		m = &nmdc.HubTopic{Text: text}
	case 6:
		m = &nmdc.OpList{Names: list("operator-number-%d")}
	case 7:
		l := &nmdc.UserIP{}
		for i, n := range list("user-number-%d") {
			l.List = append(l.List, nmdc.UserAddress{Name: n, IP: fmt.Sprintf("10.%d.%d.%d", i>>16, i>>8&255, i&255)})
		}
		m = l
	case 8:
		m = &nmdc.Supports{Ext: list("ExtensionNumber%d")}
	case 9:
		m = &nmdc.FailOver{Host: list("hub-%d.example.com:411")}
	case 10:
		m = &nmdc.UserCommand{Typ: nmdc.TypeRaw, Context: nmdc.ContextUser, Path: []string{"menu", "entry"}, Command: text}
	case 11:
		m = &nmdc.HubINFO{Name: "hub", Host: "host", Desc: text, I1: 1, I2: 2, I3: 3, I4: 4, Soft: types.Software{Name: "soft", Version: "1"}}
	case 12:
		m = &nmdc.Error{Err: errors.New(text)}
	case 13:
		m = &nmdc.MCTo{To: "a", From: "b", Text: text}
	}
	return kindOf(m), m
}

// TestN01_Large: messages of any size are transferred, if the receiver does not limit them.
func TestN01_Large(t *testing.T) {
	check(t, 60, "a message with a text or list of 10 KiB to 1 MiB, between two short ones; non-trivial: always", func(c *C) {
		e := drawEncoding(c.T, "enc")
		k, m := nLarge(c.T, e)
		c.NonTrivial(true)
		c.Label("%s", k.label())
		var sent bytes.Buffer
		w := nmdc.NewWriter(&sent)
		w.SetEncoder(e.encoder())
		z := rapid.Bool().Draw(c.T, "zlib")
		if z {
			if err := w.EnableZlibLevel(1); err != nil {
				c.Fatalf("enable: %v", err)
			}
		}
		pre, post := drawRawMsg(c.T), drawRawMsg(c.T)
		if err := w.WriteMsg(pre, m, post); err != nil {
			c.Fatalf("%s: %v", clip(nShow(m), 500), err)
		}
		if err := w.Close(); err != nil {
			c.Fatalf("close: %v", err)
		}
		r := nmdc.NewReader(drawLargeReader(c.T, sent.Bytes()))
		r.SetMaxLine(0)
		r.SetDecoder(e.decoder())
		if z {
			if err := r.EnableZlib(); err != nil {
				c.Fatalf("enable: %v", err)
			}
		} else if n := sent.Len(); true {
			want := kindOf(pre).line(e, pre) + k.line(e, m) + kindOf(post).line(e, post)
			if sent.String() != want {
				c.Fatalf("%s is written wrong: %s", clip(nShow(m), 300), diffBytes(sent.Bytes(), []byte(want)))
			}
			c.Key("%d ", n)
		}
		c.Key("%s %s", e.name, clip(nShow(m), 100))
		for i, m := range []nmdc.Message{pre, m, post} {
			got, err := r.ReadMsg()
			if err != nil {
				c.Fatalf("message %d: %v", i, err)
			}
			if !nEqual(got, m) {
				c.Fatalf("message %d: read %s, want %s", i, clip(nShow(got), 1000), clip(nShow(m), 1000))
			}
		}
		if m, err := r.ReadMsg(); err != io.EOF {
			c.Fatalf("more messages than written: %v, %v", clip(nShow(m), 500), err)
		}
	})
}

// TestA02_Large: the same for ADC messages.
func TestA02_Large(t *testing.T) {
	check(t, 60, "a message with a text or list of 10 KiB to 1 MiB, between two short ones; non-trivial: always", func(c *C) {
		unit := rapid.SampledFrom([]string{"x", "some text ", "\\\\ \n", "日本 ", "0123456789abcdef", "\\s"}).Draw(c.T, "unit")
		size := rapid.SampledFrom([]int{10 << 10, 1<<15 - 5, 1 << 15, 1<<16 - 5, 1 << 16, 200000, 1 << 20}).Draw(c.T, "size") + pick(c.T, "delta", 10)
		text := strings.Repeat(unit, size/len(unit)) + "."
		var m adc.Message
		var payload string
		switch pick(c.T, "type", 7) {
		case 0:
			m, payload = adc.ChatMessage{Text: text}, refEscape(text)
		case 1:
			m, payload = adc.Status{Sev: 1, Code: 44, Msg: text}, "144 "+refEscape(text)
		case 2:
			m, payload = adc.UserInfo{Name: "n", Desc: text}, ""
		case 3:
			q := adc.SearchRequest{Token: "t"}
			for i := 0; i < size/16; i++ {
				q.And = append(q.And, fmt.Sprintf("word %d", i))
			}
			m = q
		case 4:
			var q adc.Supported
			q.Features = adc.ModFeatures{}
			for i := 0; i < size/8; i++ {
				q.Features[adc.Feature{byte('A' + i/17576%26), byte('A' + i/676%26), byte('A' + i/26%26), byte('A' + i%26)}] = true
			}
			m = q
		case 5:
			q := adc.UserCommand{Command: text, Category: adc.CategoryHub}
			for i := 0; i < 1000; i++ {
				q.Path = append(q.Path, fmt.Sprintf("entry %d", i))
			}
			m = q
		case 6:
			salt := pattern(size, 1)
			m, payload = adc.GetPassword{Salt: salt}, refB32(salt)
		}
		var cmd adc.MsgType = m.Cmd()
		c.Key("%s %d %q", cmd, size, unit)
		c.NonTrivial(true)
		c.Label("%s", cmd)
		var sent bytes.Buffer
		w := adc.NewWriter(&sent)
		z := rapid.Bool().Draw(c.T, "zlib")
		if z {
			if err := w.EnableZlibLevel(1); err != nil {
				c.Fatalf("enable: %v", err)
			}
		}
		for _, m := range []adc.Message{adc.ChatMessage{Text: "first"}, m, adc.ChatMessage{Text: "last"}} {
			if err := w.WriteInfo(m); err != nil {
				c.Fatalf("%s of size %d: %v", cmd, size, err)
			}
		}
		if err := w.Close(); err != nil {
			c.Fatalf("close: %v", err)
		}
		r := adc.NewReader(drawLargeReader(c.T, sent.Bytes()))
		r.SetMaxLine(0)
		if z {
			if err := r.EnableZlib(); err != nil {
				c.Fatalf("enable: %v", err)
			}
		} else if payload != "" {
			if want := "IMSG first\nI" + cmd.String() + " " + payload + "\nIMSG last\n"; sent.String() != want {
				c.Fatalf("%s of size %d is written wrong: %s", cmd, size, diffBytes(sent.Bytes(), []byte(want)))
			}
		}
		for i, m := range []adc.Message{adc.ChatMessage{Text: "first"}, m, adc.ChatMessage{Text: "last"}} {
			p, err := r.ReadPacket()
			if err != nil {
				c.Fatalf("packet %d: %v", i, err)
			}
			if got := p.Message(); !adcEqual(got, m) {
				c.Fatalf("packet %d: read %s, want %s", i, clip(adcShow(got), 1000), clip(adcShow(m), 1000))
			}
		}
		if p, err := r.ReadPacket(); err != io.EOF {
			c.Fatalf("more packets than written: %v, %v", p, err)
		}
	})
}
