package props

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"
	"pgregory.net/rapid"
)

// TestN01_Wide: messages with very many parts.
func TestN01_Wide(t *testing.T) {
	check(t, 200, "a message with up to 3000 tag fields, menu levels, directories, operators or addresses; non-trivial: more than ten parts", func(c *C) {
		n := drawScale(c.T, "n", 3000)
		format := rapid.SampledFrom([]string{"%d", "part-%d", "e %d", "%d.bin", "é%d", "p%06d"}).Draw(c.T, "format")
		parts := numbered(n, format)
		e := &nEnc{}
		kind := rapid.SampledFrom([]string{"MyINFO", "UserCommand", "SR", "SR hub", "OpList", "BotList", "UserIP", "Supports", "ConnectToMe"}).Draw(c.T, "kind")
		c.Label("%s", kind)
		c.Key("%s %d %s", kind, n, format)
		c.NonTrivial(n > 10)
		var m nmdc.Message
		switch kind {
		case "MyINFO":
			mi := &nmdc.MyINFO{Name: "user", Flag: 1, HubsNormal: 1, Slots: 2, Conn: "x", Email: "e", ShareSize: 7}
			if n > 0 {
				mi.Extra = map[string]string{}
			}
			for i, s := range parts {
				mi.Extra["x"+s] = fmt.Sprint(i)
			}
			m = mi
		case "UserCommand":
			m = &nmdc.UserCommand{Typ: nmdc.TypeRaw, Context: nmdc.ContextHub, Path: append([]string{"menu"}, parts...), Command: "go"}
		case "SR":
			m = &nmdc.SR{From: "user", Path: append(append([]string{}, parts...), "file.bin"), IsDir: false, Size: 5, FreeSlots: 1, TotalSlots: 2, HubName: "hub", HubAddress: "1.2.3.4:5"}
		case "SR hub":
			m = &nmdc.SR{From: "user", Path: append(append([]string{}, parts...), "dir"), IsDir: true, FreeSlots: 1, TotalSlots: 2, HubName: strings.Join(parts, " "), HubAddress: "1.2.3.4:5"}
		case "OpList", "BotList":
			for i := range parts {
				parts[i] = strings.ReplaceAll(parts[i], " ", "_")
			}
			switch kind {
			case "OpList":
				m = &nmdc.OpList{Names: nmdc.Names(parts)}
			case "BotList":
				m = &nmdc.BotList{Names: nmdc.Names(parts)}
			}
		case "UserIP":
			u := &nmdc.UserIP{}
			for i, s := range parts {
				u.List = append(u.List, nmdc.UserAddress{Name: strings.ReplaceAll(s, " ", "_"), IP: fmt.Sprintf("10.%d.%d.%d", i>>16, i>>8&255, i&255)})
			}
			m = u
		case "Supports":
			for i := range parts {
				parts[i] = strings.ReplaceAll(parts[i], " ", "_")
			}
			m = &nmdc.Supports{Ext: parts}
		case "ConnectToMe": // one more message after the wide one is enough here
			m = &nmdc.MCTo{To: "a", From: "b", Text: strings.Join(parts, "|$")}
		}
		k := kindOf(m)
		line, err := nmdc.Marshal(nil, m)
		if err != nil {
			c.Fatalf("%s of %d parts: %v", kind, n, err)
		}
		if mi, ok := m.(*nmdc.MyINFO); ok {
			pre, extras, post := wireMyINFO(e, mi)
			pre, post = "$MyINFO "+pre, post+"|"
			s := string(line)
			if !strings.HasPrefix(s, pre) || !strings.HasSuffix(s[len(pre):], post) {
				c.Fatalf("MyINFO with %d extra fields: %s", n, clip(s, 400))
			}
			got := strings.SplitAfter(s[len(pre):len(s)-len(post)], ",")
			for i := range got {
				got[i] = "," + strings.TrimSuffix(got[i], ",")
			}
			got = got[1:]
			sort.Strings(got)
			if !sameStrings(got, extras) {
				c.Fatalf("MyINFO with %d extra fields is written with %d", n, len(got))
			}
		} else if want := k.line(e, m); string(line) != want {
			c.Fatalf("%s of %d parts is written wrong: %s", kind, n, diffBytes(line, []byte(want)))
		}
		r := nmdc.NewReader(drawLargeReader(c.T, append(append([]byte{}, line...), "$Hello next|"...)))
		r.SetMaxLine(0)
		got, err := r.ReadMsg()
		if err != nil {
			c.Fatalf("%s of %d parts: %v", kind, n, err)
		}
		if !nEqual(got, m) {
			c.Fatalf("%s of %d parts arrives as %s", kind, n, clip(nShow(got), 600))
		}
		if got, err := r.ReadMsg(); err != nil || !reflect.DeepEqual(got, &nmdc.Hello{Name: "next"}) {
			c.Fatalf("after %s of %d parts: %v %v", kind, n, got, err)
		}
	})
}

// TestN09_Padded: numbers between very many spaces or after very many zeros.
func TestN09_Padded(t *testing.T) {
	check(t, 1500, "a number of an NMDC message with up to 5000 zeros before it or spaces around it; non-trivial: more than 20 of them", func(c *C) {
		slot := numSlots[pick(c.T, "slot", len(numSlots))]
		v := rapid.SampledFrom([]string{"0", "1", "7", "12", "255", "32767"}).Draw(c.T, "number")
		zeros := drawScale(c.T, "zeros", 5000)
		num := strings.Repeat("0", zeros) + v
		pad := 0
		if slot.spaces {
			a, b := drawScale(c.T, "before", 5000), drawScale(c.T, "after", 5000)
			num = strings.Repeat(" ", a) + num + strings.Repeat(" ", b)
			pad = a + b
		}
		c.Key("%s %s %d %d", slot.name, v, zeros, pad)
		c.NonTrivial(zeros+pad > 20)
		want, ok := new(big.Int).SetString(v, 10)
		if slot.value != nil {
			want, ok = slot.value(num)
		}
		c.Label("%s:%v", slot.name, ok)
		m := nmdc.NewMessage(slot.typ)
		err := m.UnmarshalNMDC(nil, []byte(slot.build(num)))
		if !ok {
			if err == nil {
				c.Fatalf("%s of %s after %d zeros is accepted as %v", slot.name, v, zeros, slot.get(m))
			}
			return
		}
		if err != nil {
			c.Fatalf("%s of %s after %d zeros, with %d spaces: %v", slot.name, v, zeros, pad, err)
		}
		if got := slot.get(m); got.Cmp(want) != 0 {
			c.Fatalf("%s of %s after %d zeros, with %d spaces is decoded as %v, want %v", slot.name, v, zeros, pad, got, want)
		}
	})
}

// TestA08_Padded: numbers with very many digits that change nothing.
func TestA08_Padded(t *testing.T) {
	check(t, 1500, "a number of an ADC message with up to 5000 zeros before it, or after its decimal point; non-trivial: more than 20 zeros", func(c *C) {
		tg := numTargets[pick(c.T, "target", len(numTargets))]
		v := int64(pick(c.T, "number", 128))
		zeros := drawScale(c.T, "zeros", 5000)
		s := strings.Repeat("0", zeros) + fmt.Sprint(v)
		if rapid.Bool().Draw(c.T, "negative") {
			s = "-" + s
			v = -v
		}
		n := zeros
		if !tg.plain {
			if k := drawScale(c.T, "fraction", 5000); k > 0 {
				s += "." + strings.Repeat("0", k)
				n += k
			}
			half := rapid.IntRange(0, 5).Draw(c.T, "half") == 0
			if half && strings.Contains(s, ".") { // not a whole number after all
				s += "1"
				if got, err := tg.dec(s); err == nil {
					c.Fatalf("%s: a number with 1 at the %dth decimal is decoded as %d", tg.name, n-zeros+1, got)
				}
				c.NonTrivial(n > 20)
				return
			}
		}
		c.Label("%s", tg.name)
		c.Key("%s %d %d", tg.name, v, n)
		c.NonTrivial(n > 20)
		got, err := tg.dec(s)
		if err != nil || got != v {
			c.Fatalf("%s: %d with %d zeros is decoded as %d, %v", tg.name, v, n, got, err)
		}
	})
}

// TestA01_Selectors: feature packets with very many selectors, through every way of writing them.
func TestA01_Selectors(t *testing.T) {
	check(t, 150, "a feature broadcast with up to 3000 selectors, written as a packet, by WriteFeature and by a stream; non-trivial: more than ten selectors", func(c *C) {
		r := refPacket{kind: 'F', id: drawSID(c.T, "from")}
		n, off := drawScale(c.T, "n", 3000), pick(c.T, "offset", 1000)
		for i := 0; i < n; i++ {
			r.sel = append(r.sel, adc.FeatureSel{Fea: featureNumber(i + off), Sel: (i+off)%3 != 1})
		}
		c.Key("%d %d", n, off)
		c.NonTrivial(n > 10)
		m := adc.ChatMessage{Text: "text"}
		want := r.line(m.Cmd(), "text")
		var out bytes.Buffer
		w := adc.NewWriter(&out)
		st := w.FeatureStream(r.id, append([]adc.FeatureSel{}, r.sel...))
		for i, f := range []func() error{
			func() error { return w.WriteFeature(r.id, append([]adc.FeatureSel{}, r.sel...), m) },
			func() error { return w.WritePacket(r.build(m)) },
			func() error { return st.WriteMessage(m) },
		} {
			out.Reset()
			if err := f(); err != nil {
				c.Fatalf("way %d, %d selectors: %v", i, n, err)
			}
			if err := w.Flush(); err != nil {
				c.Fatalf("flush: %v", err)
			}
			if out.String() != want {
				c.Fatalf("way %d, %d selectors: %s", i, n, diffBytes(out.Bytes(), []byte(want)))
			}
			rd := adc.NewReader(drawLargeReader(c.T, out.Bytes()))
			p, err := rd.ReadPacket()
			if err != nil {
				c.Fatalf("%d selectors: %v", n, err)
			}
			if d := r.diff(p); d != "" {
				c.Fatalf("%d selectors: %s", n, clip(d, 500))
			}
			if _, err := rd.ReadPacket(); err != io.EOF {
				c.Fatalf("%d selectors: then %v, want EOF", n, err)
			}
		}
	})
}
