package props

import (
	"bytes"
	"crypto/tls"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/bits"
	"reflect"
	"sort"
	"strings"
	"testing"
	"unicode/utf8"

	dc "github.com/direct-connect/go-dc"
	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/keyprint"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"
	"pgregory.net/rapid"
)

// The searches of this file look for limits and windows that nobody announced: they vary how many
// elements a list has, how many messages come in a row and how far into a text or list the interesting
// part is, with every order of magnitude equally likely.

// drawScale draws a number up to max; all orders of magnitude are equally likely.
func drawScale(t *rapid.T, label string, max int) int {
	k := pick(t, label+"-log", bits.Len(uint(max))+1)
	if k == 0 {
		return 0
	}
	hi := 1<<k - 1
	if hi > max {
		hi = max
	}
	return rapid.IntRange(1<<(k-1), hi).Draw(t, label)
}

// drawDeep draws an index below n: the first, the last or any.
func drawDeep(t *rapid.T, label string, n int) int {
	if n <= 1 {
		return 0
	}
	switch pick(t, label+"-at", 4) {
	case 0:
		return 0
	case 1:
		return n - 1
	}
	return pick(t, label, n)
}

// lateText draws a text of up to max bytes of plain filler with a few of the tokens in it.
func lateText(t *rapid.T, label string, max int, units, tokens []string) string {
	unit := rapid.SampledFrom(units).Draw(t, label+"-unit")
	n := drawScale(t, label+"-len", max) / len(unit)
	var at []int
	for k := rapid.IntRange(0, 3).Draw(t, label+"-tokens"); k > 0; k-- {
		at = append(at, drawDeep(t, label+"-pos", n+1))
	}
	sort.Ints(at)
	var b strings.Builder
	last := 0
	for _, i := range at {
		b.WriteString(strings.Repeat(unit, i-last))
		b.WriteString(rapid.SampledFrom(tokens).Draw(t, label+"-token"))
		last = i
	}
	b.WriteString(strings.Repeat(unit, n-last))
	// shifts whatever window the text is looked at with
	return strings.Repeat("-", pick(t, label+"-shift", 4)) + b.String()
}

// numbered makes n different values.
func numbered(n int, format string) (out []string) {
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprintf(format, i))
	}
	return
}

func featureNumber(i int) adc.Feature {
	return adc.Feature{byte('A' + i/17576%26), byte('A' + i/676%26), byte('A' + i/26%26), byte('A' + i%26)}
}

// ---------------------------------------------------------------- ADC

func TestA01_Scale(t *testing.T) {
	check(t, 250, "a packet of any kind with up to 2000 feature selectors and a payload of up to 64 KiB; non-trivial: more than ten selectors or a payload of more than 256 bytes", func(c *C) {
		r := drawRefPacket(c.T)
		if rapid.Bool().Draw(c.T, "feature") {
			r = refPacket{kind: 'F', id: drawSID(c.T, "from")}
			for i, n := 0, drawScale(c.T, "selectors", 2000); i < n; i++ {
				r.sel = append(r.sel, adc.FeatureSel{Fea: featureNumber(i * 7919), Sel: i%3 != 1})
			}
		}
		data := lateText(c.T, "payload", 1<<16, []string{"x", "word ", "日本", "NI", "\\s"}, []string{" +FEAT", " -FEAT", "\\n", " ", "é", " BMSG AAAA"})
		if r.kind == 'F' && !featurePayloadOK(data) {
			data = "x" + data
		}
		cmd := drawUnknownCmd(c.T)
		c.Key("%c sel=%d cmd=%s %d %s", r.kind, len(r.sel), cmd, len(data), clip(data, 100))
		c.NonTrivial(len(r.sel) > 10 || len(data) > 256)
		want := r.line(cmd, data)
		var buf bytes.Buffer
		if err := r.build(&adc.RawMessage{Type: cmd, Data: []byte(data)}).MarshalPacketADC(&buf); err != nil {
			c.Fatalf("encode: %v", err)
		}
		if buf.String() != want {
			c.Fatalf("encoded wrong: %s", diffBytes(buf.Bytes(), []byte(want)))
		}
		p, err := adc.DecodePacket([]byte(want))
		if err != nil {
			c.Fatalf("decode of %q: %v", clip(want, 300), err)
		}
		if d := r.diff(p); d != "" {
			c.Fatalf("%q: %s", clip(want, 300), clip(d, 1000))
		}
		raw, ok := p.Message().(*adc.RawMessage)
		if !ok || raw.Type != cmd || string(raw.Data) != data {
			c.Fatalf("%q: payload decoded to %s", clip(want, 300), adcShow(p.Message()))
		}
	})
}

// adcScaled draws a message with lists of up to 3000 elements.
func adcScaled(t *rapid.T) (adcKind, adc.Message) {
	list := func(label, format string) []string {
		if rapid.Bool().Draw(t, label+"-set") {
			return numbered(drawScale(t, label, 3000), format)
		}
		return nil
	}
	features := func(label string) (out []adc.Feature) {
		for i, n := 0, drawScale(t, label, 3000); i < n; i++ {
			out = append(out, featureNumber(i*7919))
		}
		return
	}
	switch pick(t, "type", 5) {
	case 0:
		q := adc.SearchRequest{Token: "t", And: list("and", "word %d"), Not: list("not", "not\\%d"), Ext: list("ext", "e%d"), NoExt: list("noext", "n%d"), Le: 1 << 40}
		return adcKindByName("SCH"), q
	case 1:
		u := drawUserInfo(t)
		u.Features = features("features")
		return adcKindByName("INF"), u
	case 2:
		q := adc.UserCommand{Path: append(list("path", "entry %d"), "last"), Command: "text\n", Category: adc.CategoryHub}
		return adcKindByName("CMD"), q
	case 3:
		q := adc.Supported{Features: adc.ModFeatures{}}
		for i, f := range features("features") {
			q.Features[f] = i%3 != 1
		}
		return adcKindByName("SUP"), q
	}
	for {
		k := drawADCKind(t)
		for _, f := range textFields {
			if f.name == k.name {
				return k, reflect.Indirect(reflect.ValueOf(f.make(lateText(t, "text", 1<<18, adcUnits, adcSpecials)))).Interface().(adc.Message)
			}
		}
	}
}

var (
	adcUnits    = []string{"x", "s", "some-words-without-any-separator-", "日本", "0123456789abcdef"}
	adcSpecials = []string{" ", "\n", "\\", "\\s", "\\n", "\\\\", " AN", "  ", "\r", "é"}
)

func adcElements(m adc.Message) int {
	switch m := m.(type) {
	case adc.SearchRequest:
		return len(m.And) + len(m.Not) + len(m.Ext) + len(m.NoExt)
	case adc.UserInfo:
		return len(m.Features)
	case adc.UserCommand:
		return len(m.Path)
	case adc.Supported:
		return len(m.Features)
	}
	return len(adc.MustMarshal(m)) / 16
}

func TestA02_Scale(t *testing.T) {
	check(t, 250, "a message with lists of up to 3000 elements or a text of up to 256 KiB, encoded and decoded; non-trivial: more than ten elements or 160 bytes", func(c *C) {
		k, m := adcScaled(c.T)
		data, err := marshalADC(m)
		if err != nil {
			c.Fatalf("%s: %v", adcShow(m), err)
		}
		c.Label("%s", k.name)
		c.Key("%s %d %s", k.name, len(data), clip(string(data), 100))
		c.NonTrivial(adcElements(m) > 10)
		into := k.fresh()
		if err := adc.Unmarshal(data, into); err != nil {
			c.Fatalf("%s of %d bytes, %q: %v", k.name, len(data), clip(string(data), 300), err)
		}
		if !adcEqual(into, m) {
			c.Fatalf("%s of %d bytes, %q, with %d elements decoded to one with %d: %s", k.name, len(data), clip(string(data), 300), adcElements(m), adcElements(reflect.ValueOf(into).Elem().Interface().(adc.Message)), adcShow(into))
		}
	})
}

func TestA03_Scale(t *testing.T) {
	check(t, 250, "a message with lists of up to 3000 elements or a text of up to 256 KiB, compared with the reference encoder; non-trivial: more than ten elements or 160 bytes", func(c *C) {
		k, m := adcScaled(c.T)
		data, err := marshalADC(m)
		if err != nil {
			c.Fatalf("%s: %v", adcShow(m), err)
		}
		c.Label("%s", k.name)
		c.Key("%s %d %s", k.name, len(data), clip(string(data), 100))
		c.NonTrivial(adcElements(m) > 10)
		if d := k.ref(m).diff(string(data)); d != "" {
			c.Fatalf("%s of %d bytes: %s", k.name, len(data), d)
		}
	})
}

func TestA04_Scale(t *testing.T) {
	check(t, 400, "a text of up to 256 KiB with a few special characters anywhere in it, in every text field; non-trivial: more than 256 bytes with a special character", func(c *C) {
		s := lateText(c.T, "text", 1<<18, adcUnits, adcSpecials)
		f := textFields[pick(c.T, "field", len(textFields))]
		c.Key("%s %d %s", f.name, len(s), clip(s, 100))
		c.NonTrivial(len(s) > 256 && strings.ContainsAny(s, " \n\\"))
		c.Label("%s", f.name)
		esc := refEscape(s)
		m := f.make(s)
		data, err := marshalADC(m)
		if err != nil {
			c.Fatalf("%d bytes of text: %v", len(s), err)
		}
		if s != "" && !bytes.Contains(data, []byte(esc)) {
			c.Fatalf("%T: the escaped text of %d bytes is not on the line: %s", m, len(s), diffBytes(data, []byte(esc)))
		}
		if bytes.IndexByte(data, '\n') >= 0 {
			c.Fatalf("%T: a text of %d bytes breaks the line at %d", m, len(s), bytes.IndexByte(data, '\n'))
		}
		into := adcKindByName(f.name).fresh()
		if err := adc.Unmarshal(data, into); err != nil {
			c.Fatalf("%T with a text of %d bytes: %v", m, len(s), err)
		}
		if got := f.get(into); got != s {
			c.Fatalf("%T: text changed: %s", m, diffBytes([]byte(got), []byte(s)))
		}
		var back adc.String
		if err := back.UnmarshalADC([]byte(esc)); err != nil || string(back) != s {
			c.Fatalf("text of %d bytes unescaped wrong (%v): %s", len(s), err, diffBytes([]byte(back), []byte(s)))
		}
	})
}

func TestA05_Scale(t *testing.T) {
	check(t, 250, "a message with named parameters among up to 3000 parameters of unknown names; non-trivial: more than ten unknown parameters", func(c *C) {
		k := drawNamedKind(c.T)
		m := k.draw(c.T)
		ref := k.ref(m)
		known := knownTags(m)
		for _, tag := range strings.Fields(refTags[k.name]) {
			known[tag] = true
		}
		n := drawScale(c.T, "unknown", 3000)
		gaps := make([]int, len(ref.named)+1)
		for left, i := n, 0; i <= len(ref.named); i++ {
			gaps[i] = left
			if i < len(ref.named) {
				gaps[i] = []int{0, left, left / 2, min(left, 1)}[pick(c.T, "gap", 4)]
			}
			left -= gaps[i]
		}
		same := rapid.Bool().Draw(c.T, "same-tag")
		parts := append([]string{}, ref.pos...)
		next := 0
		filler := func(n int) {
			for ; n > 0; n-- {
				tag := "zz"
				for !same {
					tag = string([]byte{byte('A' + next/36%26), "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[next%36]})
					next++
					if !known[tag] {
						break
					}
				}
				parts = append(parts, tag+"v")
			}
		}
		for i, p := range ref.named {
			filler(gaps[i])
			parts = append(parts, p)
		}
		filler(gaps[len(ref.named)])
		payload := strings.Join(parts, " ")
		c.Key("%s %v %s", k.name, gaps, clip(payload, 200))
		c.NonTrivial(n > 10)
		into := k.fresh()
		if err := adc.Unmarshal([]byte(payload), into); err != nil {
			c.Fatalf("%s with %v unknown parameters around the known ones: %v", k.name, gaps, err)
		}
		if !adcEqual(into, m) {
			c.Fatalf("%s with %v unknown parameters around the known ones decoded to\n%s\nwant\n%s", k.name, gaps, adcShow(into), adcShow(m))
		}
	})
}

func TestA07_Scale(t *testing.T) {
	check(t, 120, "histories of up to 3000 packets and runs of up to 150000 keep-alives, through packets and streams; non-trivial: more than 50 events", func(c *C) {
		var out bytes.Buffer
		w := adc.NewWriterSize(&out, rapid.SampledFrom([]int{0, 16, 4096}).Draw(c.T, "buf"))
		must := func(err error) {
			if err != nil {
				c.Fatalf("write: %v", err)
			}
		}
		type run struct {
			ka bool
			r  refPacket
			n  int
		}
		var runs []run
		var wire strings.Builder
		text := func(i, j int) string { return fmt.Sprintf("run\\s%d\\snumber\\s%d", i, j) }
		total := 0
		for i, n := 0, rapid.IntRange(1, 4).Draw(c.T, "runs"); i < n; i++ {
			u := run{ka: rapid.Bool().Draw(c.T, "keep-alives"), r: drawRefPacket(c.T)}
			if u.r.kind == 'F' {
				u.r.sel = nil
				for j, k := 0, drawScale(c.T, "selectors", 150); j < k; j++ {
					u.r.sel = append(u.r.sel, adc.FeatureSel{Fea: featureNumber(j * 7919), Sel: j%3 != 1})
				}
			}
			if u.ka {
				u.n = drawScale(c.T, "n", 20000)
			} else {
				u.n = drawScale(c.T, "n", 3000)
			}
			runs = append(runs, u)
			total += u.n
			c.Key("%v %c %d;", u.ka, u.r.kind, u.n)
			stream := strings.IndexByte("BF", u.r.kind) >= 0 && rapid.Bool().Draw(c.T, "stream")
			var st adc.WriteStream
			switch {
			case stream && u.r.kind == 'B':
				st = w.BroadcastStream(u.r.id)
			case stream:
				st = w.FeatureStream(u.r.id, u.r.sel)
			}
			flush := []int{0, 1, 100}[pick(c.T, "flush", 3)]
			for j := 0; j < u.n; j++ {
				switch {
				case u.ka:
					must(w.WriteKeepAlive())
					wire.WriteByte('\n')
				case stream:
					must(st.WriteMessage(adc.ChatMessage{Text: fmt.Sprintf("run %d number %d", i, j)}))
				default:
					must(w.WritePacket(u.r.build(adc.ChatMessage{Text: fmt.Sprintf("run %d number %d", i, j)})))
				}
				if !u.ka {
					wire.WriteString(u.r.line(adc.MsgType{'M', 'S', 'G'}, text(i, j)))
				}
				if flush > 0 && j%flush == 0 {
					must(w.Flush())
				}
			}
		}
		must(w.Flush())
		c.NonTrivial(total > 50)
		if out.String() != wire.String() {
			c.Fatalf("%d events are written wrong: %s", total, diffBytes(out.Bytes(), []byte(wire.String())))
		}
		rd := adc.NewReader(drawLargeReader(c.T, out.Bytes()))
		kas := 0
		if rapid.Bool().Draw(c.T, "count") {
			rd.OnKeepAlive = func() error { kas++; return nil }
		}
		wantKAs := 0
		for i, u := range runs {
			if u.ka {
				wantKAs += u.n
				continue
			}
			for j := 0; j < u.n; j++ {
				p, err := rd.ReadPacket()
				if err != nil {
					c.Fatalf("packet %d of run %d (after %d keep-alives): %v", j, i, wantKAs, err)
				}
				if d := u.r.diff(p); d != "" {
					c.Fatalf("packet %d of run %d: %s", j, i, d)
				}
				if m, ok := p.Message().(adc.ChatMessage); !ok || m.Text != fmt.Sprintf("run %d number %d", i, j) {
					c.Fatalf("packet %d of run %d: %s", j, i, adcShow(p.Message()))
				}
			}
		}
		if p, err := rd.ReadPacket(); err != io.EOF {
			c.Fatalf("after the last packet: %+v, %v, want EOF", p, err)
		}
		if rd.OnKeepAlive != nil && kas != wantKAs {
			c.Fatalf("%d of %d keep-alives were reported", kas, wantKAs)
		}
	})
}

func TestA09_Scale(t *testing.T) {
	check(t, 250, "a list of up to 2000 elements of which one, anywhere, is broken, in all the commands that have lists; non-trivial: more than ten elements", func(c *C) {
		n := 1 + drawScale(c.T, "n", 2000)
		at := drawDeep(c.T, "at", n)
		kind := rapid.SampledFrom([]string{"SUP", "INF", "packet", "INFMod"}).Draw(c.T, "kind")
		parts := make([]string, n)
		for i := range parts {
			f := featureNumber(i)
			parts[i] = string(f[:])
		}
		bad := rapid.SampledFrom([]string{"FEA", "FEATU", "", "F"}).Draw(c.T, "bad")
		c.Key("%s n=%d at=%d %q", kind, n, at, bad)
		c.NonTrivial(n > 10)
		c.Label("%s", kind)
		var line string
		switch kind {
		case "SUP":
			for i := range parts {
				parts[i] = "AD" + parts[i]
			}
			parts[at] = rapid.SampledFrom([]string{"AD" + bad, "RM" + bad}).Draw(c.T, "how")
			line = "HSUP " + strings.Join(parts, " ") + "\n"
		case "INF":
			parts[at] = bad
			if n == 1 && bad == "" {
				c.Skip() // an empty list
			}
			line = "BINF AAAA NIname SU" + strings.Join(parts, ",") + "\n"
		case "packet":
			for i := range parts {
				parts[i] = []string{"+", "-"}[i%2] + parts[i]
			}
			parts[at] = []string{"+", "-"}[at%2] + bad
			if bad == "FEATU" {
				parts[at] = parts[at][:3]
			}
			line = "FMSG AAAA " + strings.Join(parts, " ") + " text\n"
		case "INFMod":
			// the elements of an update are its parameters
			for i := range parts {
				parts[i] = "X" + string("ABCDEFGHIJKLMNOPQRSTUVWXYZ"[i%26]) + parts[i]
			}
			if parts[at] = "X"; n > 1 && rapid.Bool().Draw(c.T, "empty") {
				parts[at] = ""
			}
			into := &adc.UserInfoMod{}
			if err := adc.Unmarshal([]byte(strings.Join(parts, " ")), into); err == nil {
				c.Fatalf("%d parameters with %q at %d are accepted", n, parts[at], at)
			}
			return
		}
		if p, err := adc.DecodePacket([]byte(line)); err == nil {
			c.Fatalf("%s with %d elements, broken at %d (%q), is accepted: %s", kind, n, at, parts[at], adcShow(p.Message()))
		}
	})
}

func TestF01_Scale(t *testing.T) {
	check(t, 250, "sets of up to 3000 features or extensions: announced, applied, intersected, copied and listed; non-trivial: more than ten elements", func(c *C) {
		n := drawScale(c.T, "n", 3000)
		off := drawScale(c.T, "offset", 3000)
		c.Key("%d %d", n, off)
		c.NonTrivial(n > 10)
		a, b := adc.ModFeatures{}, adc.ModFeatures{}
		var want, both []string
		for i := 0; i < n; i++ {
			a[featureNumber(i)] = i%5 != 2
			b[featureNumber(i+off)] = i%3 != 1
		}
		for f, on := range a {
			if on {
				want = append(want, f.String())
				if b[f] {
					both = append(both, f.String())
				}
			}
		}
		// the announcement
		data, err := marshalADC(adc.Supported{Features: a})
		if err != nil {
			c.Fatalf("encode: %v", err)
		}
		var got adc.Supported
		if err := adc.Unmarshal(data, &got); err != nil {
			c.Fatalf("%d features: %v", n, err)
		}
		if len(got.Features) != len(a) {
			c.Fatalf("%d of %d announced features arrive", len(got.Features), len(a))
		}
		for f, on := range a {
			if v, ok := got.Features[f]; !ok || v != on {
				c.Fatalf("feature %s of %d: %v %v, want %v", f, n, v, ok, on)
			}
		}
		// the algebra
		show := func(fs adc.ModFeatures) (out []string) {
			for f, on := range fs {
				if on {
					out = append(out, f.String())
				}
			}
			sort.Strings(out)
			return
		}
		same := func(what string, got, want []string) {
			sort.Strings(want)
			if strings.Join(got, " ") != strings.Join(want, " ") {
				c.Fatalf("%s of %d and %d features: %d elements, want %d", what, len(a), len(b), len(got), len(want))
			}
		}
		in := a.Intersect(b)
		same("intersection", show(in), both)
		cl := a.Clone()
		same("copy", show(cl), want)
		list := strings.FieldsFunc(a.Join(), func(r rune) bool { return r == ',' })
		sort.Strings(list)
		same("list", list, want)
		cl = cl.SetFrom(b)
		for f, on := range b {
			if cl[f] != on {
				c.Fatalf("update of %d features by %d: %s is %v, want %v", len(a), len(b), f, cl[f], on)
			}
		}
		for f, on := range a {
			if _, ok := b[f]; !ok && cl[f] != on {
				c.Fatalf("update of %d features by %d: %s is %v, want %v", len(a), len(b), f, cl[f], on)
			}
		}
		// extensions
		ea, eb := make(nmdc.Extensions), make(nmdc.Extensions)
		name := strings.Repeat("E", 1+drawScale(c.T, "name", 300)) + "xt%d"
		var sa nmdc.Supports
		ew := []string{}
		for i := 0; i < n; i++ {
			ea.Set(fmt.Sprintf(name, i))
			sa.Ext = append(sa.Ext, fmt.Sprintf(name, i))
			eb.Set(fmt.Sprintf(name, i+off))
			if i >= off {
				ew = append(ew, fmt.Sprintf(name, i))
			}
		}
		ei := ea.Intersect(eb)
		for _, s := range ew {
			if !ei.Has(s) {
				c.Fatalf("%s is missing in the intersection of %d extensions with those from %d on", s, n, off)
			}
		}
		el := append([]string{}, ei.List()...)
		sort.Strings(el)
		same("extensions", el, ew)
		sb := nmdc.Supports{Ext: eb.List()}
		is := append([]string{}, sa.Intersect(&sb).Ext...)
		sort.Strings(is)
		same("extension lists", is, ew)
		// features of a user
		var ef adc.ExtFeatures
		for i := 0; i < n; i++ {
			ef = append(ef, featureNumber(i))
		}
		for i := 0; i < n; i += 1 + n/50 {
			if !ef.Has(featureNumber(i)) {
				c.Fatalf("feature %d of %d is not found", i, n)
			}
		}
		if ef.Has(featureNumber(n)) {
			c.Fatalf("feature %d is found among %d", n, n)
		}
		line, err := nmdc.Marshal(nil, &sa)
		if err != nil {
			c.Fatalf("%d extensions: %v", n, err)
		}
		rd := nmdc.NewReader(bytes.NewReader(line))
		rd.SetMaxLine(0)
		m, err := rd.ReadMsg()
		if err != nil {
			c.Fatalf("%d extensions: %v", n, err)
		}
		if s, ok := m.(*nmdc.Supports); !ok || strings.Join(s.Ext, " ") != strings.Join(sa.Ext, " ") {
			c.Fatalf("%d extensions arrive as %s", n, clip(nShow(m), 500))
		}
	})
}

// ---------------------------------------------------------------- lines

func TestL01_Scale(t *testing.T) {
	check(t, 120, "up to 150000 short lines in every fragmentation, read through hooks that drop all but every n-th; non-trivial: more than 50 lines", func(c *C) {
		n := drawScale(c.T, "lines", 150000)
		size := drawScale(c.T, "size", 100)
		keepEach := 1 + drawScale(c.T, "each", 20000)
		hooks := rapid.IntRange(0, 3).Draw(c.T, "hooks")
		fails := rapid.Bool().Draw(c.T, "fails")
		c.Key("%d lines of about %d, each %d, %d hooks, fails %v", n, size, keepEach, hooks, fails)
		c.NonTrivial(n > 50)
		var stream bytes.Buffer
		for i := 0; i < n; i++ {
			fmt.Fprintf(&stream, "%d%s|", i, strings.Repeat("x", i%(size+1)))
		}
		r := lineproto.NewReader(drawLargeReader(c.T, stream.Bytes()), '|')
		calls := make([]int, hooks)
		for h := 0; h < hooks; h++ {
			h := h
			r.OnLine(func(line []byte) (bool, error) {
				i := calls[h]
				calls[h]++
				if h == 0 && fails && i%keepEach == keepEach/2 && i%keepEach != 0 {
					return true, errHook
				}
				if h == hooks-1 {
					// only the last one drops, so that all of them see all the lines
					var k int
					if _, err := fmt.Sscanf(string(line), "%d", &k); err != nil {
						c.Fatalf("the hook got %q", line)
					}
					return k%keepEach == 0, nil
				}
				return true, nil
			})
		}
		for i := 0; i < n; i++ {
			fail := hooks > 0 && fails && i%keepEach == keepEach/2 && i%keepEach != 0
			if hooks > 0 && !fail && i%keepEach != 0 {
				continue
			}
			line, err := r.ReadLine()
			if fail {
				if !errors.Is(err, errHook) {
					c.Fatalf("line %d: %q %v, want the error of the hook", i, line, err)
				}
				continue
			}
			if want := fmt.Sprintf("%d%s|", i, strings.Repeat("x", i%(size+1))); err != nil || string(line) != want {
				c.Fatalf("line %d: %q %v, want %q", i, line, err, want)
			}
		}
		if line, err := r.ReadLine(); err != io.EOF {
			c.Fatalf("after %d lines: %q %v", n, line, err)
		}
		if hooks > 0 && calls[0] != n {
			c.Fatalf("the hook saw %d of %d lines", calls[0], n)
		}
	})
}

func TestL02_Scale(t *testing.T) {
	check(t, 80, "up to 2000 lines of a length within the limit, in total far more than it, then one at the limit or one over it, for limits up to 4 MiB; non-trivial: more than ten lines, or a limit of more than 64 KiB", func(c *C) {
		limit := 2 + drawScale(c.T, "limit", 4<<20)
		n := drawScale(c.T, "lines", 2000)
		if n*limit > 16<<20 {
			n = 16 << 20 / limit
		}
		over := rapid.Bool().Draw(c.T, "over")
		c.Key("limit %d after %d lines, over %v", limit, n, over)
		c.NonTrivial(n > 10 || limit > 1<<16)
		line := append(bytes.Repeat([]byte{'x'}, limit-1), '|')
		stream := bytes.Repeat(line, n)
		if over {
			stream = append(stream, 'x')
		}
		stream = append(stream, line...)
		zlib := rapid.Bool().Draw(c.T, "zlib")
		if zlib {
			var buf bytes.Buffer
			w := lineproto.NewWriter(&buf)
			if err := w.EnableZlibLevel(1); err != nil {
				c.Fatalf("enable: %v", err)
			}
			w.Write(stream)
			if err := w.Close(); err != nil {
				c.Fatalf("close: %v", err)
			}
			stream = buf.Bytes()
		}
		r := lineproto.NewReader(drawLargeReader(c.T, stream), '|')
		r.SetMaxLine(limit)
		if zlib {
			if err := r.EnableZlib(); err != nil {
				c.Fatalf("enable: %v", err)
			}
		}
		for i := 0; i <= n; i++ {
			got, err := r.ReadLine()
			if i == n && over {
				if err == nil {
					c.Fatalf("a line of %d bytes after %d lines is accepted with a limit of %d", len(got), i, limit)
				}
				return
			}
			if err != nil || len(got) != len(line) {
				c.Fatalf("line %d of %d bytes with a limit of %d: %d bytes, %v", i, len(line), limit, len(got), err)
			}
		}
	})
}

func TestL03_Scale(t *testing.T) {
	check(t, 80, "histories of up to 100000 writes with regular flushes and compression switches; non-trivial: more than 50 writes", func(c *C) {
		n := drawScale(c.T, "writes", 100000)
		size := drawScale(c.T, "size", 200)
		flushEach := 1 + drawScale(c.T, "flush", 5000)
		zEach := 1 + drawScale(c.T, "zlib", 20000)
		if zEach < n/300 {
			zEach = n / 300 // starting compression is slow
		}
		dropEach := 2 + drawScale(c.T, "drop", 5000)
		buf := rapid.SampledFrom([]int{0, 16, 4096, 1 << 16}).Draw(c.T, "buf")
		level := drawLevel(c.T)
		zlib := rapid.Bool().Draw(c.T, "with-zlib")
		c.Key("buf %d, %d writes of %d, flush each %d, zlib %v each %d, drop each %d", buf, n, size, flushEach, zlib, zEach, dropEach)
		c.NonTrivial(n > 50)
		var out sink
		w := lineproto.NewWriterSize(&out, buf)
		for i := drawScale(c.T, "hooks", 30); i > 0; i-- {
			w.OnLine(func(line []byte) (bool, error) { return true, nil })
		}
		w.OnLine(func(line []byte) (bool, error) { return line[0] != '!', nil })
		var m wireModel
		must := func(i int, err error) {
			if err != nil {
				c.Fatalf("write %d: %v", i, err)
			}
		}
		for i := 0; i < n; i++ {
			data := []byte(fmt.Sprintf("%d%s|", i, strings.Repeat("x", i%(size+1))))
			drop := i%dropEach == dropEach-1
			if drop {
				data[0] = '!'
			}
			must(i, w.WriteLine(data))
			if !drop {
				m.add(data)
			}
			if i%flushEach == flushEach-1 {
				must(i, w.Flush())
			}
			if zlib && i%zEach == zEach/2 {
				if m.zlibOn() {
					must(i, w.DisableZlib())
					m.stop()
				} else {
					must(i, w.EnableZlibLevel(level))
					m.start()
				}
			}
		}
		must(n, w.Flush())
		if err := m.verify(out.Bytes()); err != nil {
			c.Fatalf("after %d writes: %v", n, err)
		}
	})
}

func TestL04_Scale(t *testing.T) {
	check(t, 60, "up to 300 compressed sections, also empty ones, between lines; non-trivial: more than ten sections", func(c *C) {
		n := drawScale(c.T, "sections", 300)
		lines := drawScale(c.T, "lines", 40)
		plain := rapid.IntRange(1, 3).Draw(c.T, "plain")
		level := drawLevel(c.T)
		c.Key("%d sections of up to %d lines with %d between", n, lines, plain)
		c.NonTrivial(n > 10)
		var secs []section
		add := func(z bool, n int) {
			s := section{zlib: z, level: level}
			for i := 0; i < n; i++ {
				s.items = append(s.items, item{data: []byte(fmt.Sprintf("section %d line %d|", len(secs), i))})
			}
			secs = append(secs, s)
		}
		for i := 0; i < n; i++ {
			add(false, plain)
			add(true, i%(lines+1))
		}
		add(false, 1)
		wire := buildWire(c, secs, false)
		r := lineproto.NewReader(drawLargeReader(c.T, wire), '|')
		for i, s := range secs {
			if s.zlib {
				if err := r.EnableZlib(); err != nil {
					c.Fatalf("section %d: %v", i, err)
				}
			}
			for j, it := range s.items {
				if line, err := r.ReadLine(); err != nil || !bytes.Equal(line, it.data) {
					c.Fatalf("section %d (zlib %v) line %d: %q %v, want %q", i, s.zlib, j, line, err, it.data)
				}
			}
		}
		if line, err := r.ReadLine(); err != io.EOF {
			c.Fatalf("after %d sections: %q %v", n, line, err)
		}
	})
}

func TestL05_Scale(t *testing.T) {
	check(t, 80, "up to 3000 binary sections between lines, each read in whole, in part or not at all; non-trivial: more than 20 sections", func(c *C) {
		n := drawScale(c.T, "sections", 3000)
		size := drawScale(c.T, "size", 5000)
		lines := rapid.IntRange(0, 2).Draw(c.T, "lines")
		mode := rapid.IntRange(0, 3).Draw(c.T, "mode")
		if n*size > 8<<20 {
			size = 8 << 20 / n
		}
		c.Key("%d sections of up to %d, %d lines, mode %d", n, size, lines, mode)
		c.NonTrivial(n > 20)
		var stream []byte
		for i := 0; i < n; i++ {
			stream = append(stream, strings.Repeat("line|", lines)...)
			stream = append(stream, pattern(i%(size+1), byte(i))...)
		}
		stream = append(stream, "end|"...)
		r := lineproto.NewReader(drawLargeReader(c.T, stream), '|')
		for i := 0; i < n; i++ {
			for j := 0; j < lines; j++ {
				if line, err := r.ReadLine(); err != nil || string(line) != "line|" {
					c.Fatalf("line %d of section %d: %q %v", j, i, line, err)
				}
			}
			want := pattern(i%(size+1), byte(i))
			rc, err := r.Binary(uint64(len(want)))
			if err != nil {
				c.Fatalf("section %d: %v", i, err)
			}
			stop := len(want)
			switch (i + mode) % 4 {
			case 0:
				stop = 0
			case 1:
				stop /= 2
			}
			got := make([]byte, stop)
			if k, err := io.ReadFull(rc, got); err != nil || !bytes.Equal(got, want[:stop]) {
				c.Fatalf("section %d: %d of %d bytes, %v", i, k, stop, err)
			}
			if err := rc.Close(); err != nil {
				c.Fatalf("section %d: close with %d of %d read: %v", i, stop, len(want), err)
			}
		}
		if line, err := r.ReadLine(); err != nil || string(line) != "end|" {
			c.Fatalf("after %d sections: %q %v", n, line, err)
		}
	})
}

func TestL06_Scale(t *testing.T) {
	check(t, 80, "histories of up to 20000 line writes and flushes with a transport failure up to a megabyte into the stream; non-trivial: the failure comes after more than 50 writes", func(c *C) {
		n := 1 + drawScale(c.T, "writes", 20000)
		size := drawScale(c.T, "size", 200)
		flushEach := 1 + drawScale(c.T, "flush", 5000)
		buf := rapid.SampledFrom([]int{0, 16, 4096, 1 << 16}).Draw(c.T, "buf")
		zlib := rapid.IntRange(0, 3).Draw(c.T, "zlib") == 0
		timeout := rapid.Bool().Draw(c.T, "timeout")
		line := func(i int) []byte { return []byte(fmt.Sprintf("L%d%s|", i, strings.Repeat("x", i%(size+1)))) }
		ops := func(do func(i int, o wop) bool) {
			if zlib && !do(-1, wop{kind: "zon", level: 1}) {
				return
			}
			for i := 0; i < n; i++ {
				if !do(i, wop{kind: "line", data: line(i)}) {
					return
				}
				if i%flushEach == flushEach-1 && !do(i, wop{kind: "flush"}) {
					return
				}
			}
			do(n, wop{kind: "flush"})
		}
		ref := newL06(buf, -1, -1, timeout, false)
		ops(func(i int, o wop) bool { _ = ref.do(o); return true })
		total := ref.sink.Len()
		limit := drawDeep(c.T, "limit", total)
		once := rapid.Bool().Draw(c.T, "recovers")
		c.Key("buf %d, %d writes of %d, flush each %d, zlib %v, failure at %d of %d", buf, n, size, flushEach, zlib, limit, total)
		run := newL06(buf, limit, -1, timeout, once)
		var first error
		failedAt, calls := 0, 0
		ops(func(i int, o wop) bool {
			err := run.do(o)
			if first == nil {
				if err == nil && run.sink.failed {
					c.Fatalf("the operation %s at write %d met the failure and reports no error", o.kind, i)
				}
				if err != nil {
					if !errors.Is(err, errInjected) {
						c.Fatalf("the operation %s at write %d fails with %v, want the failure of the transport", o.kind, i, err)
					}
					first, failedAt, calls = err, i, run.sink.calls
				}
				return true
			}
			if err == nil {
				c.Fatalf("%s at write %d succeeds after the failure at write %d", o.kind, i, failedAt)
			}
			return i < failedAt+100
		})
		if first == nil {
			c.Fatalf("no operation reported the failure")
		}
		c.NonTrivial(failedAt > 50)
		if run.sink.calls != calls {
			c.Fatalf("the transport is touched %d more times after the failure at write %d", run.sink.calls-calls, failedAt)
		}
		if err := run.w.Err(); err == nil {
			c.Fatalf("the error is not available")
		}
		_ = run.w.Close()
		if !bytes.HasPrefix(ref.sink.Bytes(), run.sink.Bytes()) {
			c.Fatalf("the delivered %d bytes are not a prefix: %s", run.sink.Len(), diffBytes(run.sink.Bytes(), ref.sink.Bytes()))
		}
		if timeout && run.armed != run.disarm {
			c.Fatalf("the timeout was armed %d and disarmed %d times", run.armed, run.disarm)
		}
	})
}

// ---------------------------------------------------------------- NMDC

// nScaleText draws a long text in the encoding, with special characters far into it.
func nScaleText(t *rapid.T, e *nEnc, max int, specials []string) string {
	units := []string{"x", "some text ", "0123456789abcdef", "/%"}
	if e.enc != nil {
		units = append(units, rapid.SampledFrom(e.pool).Draw(t, "char"), "a"+rapid.SampledFrom(e.pool).Draw(t, "char2"))
		specials = append(append([]string{}, specials...), rapid.SampledFrom(e.pool).Draw(t, "char3"))
	} else {
		units = append(units, "日本", "é", "\U0001f600x")
		specials = append(append([]string{}, specials...), "ё", "\U0001f600")
	}
	return lateText(t, "text", max, units, specials)
}

func TestN03_Scale(t *testing.T) {
	check(t, 400, "a text of up to 256 KiB (or a name of up to 250 bytes) with reserved or forbidden characters anywhere in it, in every field; non-trivial: more than 100 bytes with such a character", func(c *C) {
		e := drawEncoding(c.T, "enc")
		sl := nSlots[pick(c.T, "slot", len(nSlots))]
		max := 1 << 18
		if sl.isName {
			max = 240
		}
		s := nScaleText(c.T, e, max, []string{"|", "$", "&", "\x00", "|$To: ", "<", ">", "&#124;", "\r", "\n", "||"})
		if len(s) > 250 && sl.isName {
			s = strings.ToValidUTF8(s[:250], "")
		}
		s = strings.Map(func(r rune) rune {
			if strings.ContainsRune(sl.avoid, r) {
				return -1
			}
			return r
		}, s)
		c.Label("%s", sl.id)
		c.Key("%s %s %d %s", e.name, sl.id, len(s), clip(s, 100))
		c.NonTrivial(len(s) > 100 && strings.ContainsAny(s, "|$&<>\x00\r\n"))
		m := sl.put(s)
		var pay bytes.Buffer
		if err := m.MarshalNMDC(e.encoder(), &pay); err == nil && bytes.ContainsAny(pay.Bytes(), "|\x00") {
			c.Fatalf("%s, %s: the payload of %d bytes has a pipe or null byte at %d", e.name, sl.id, pay.Len(), bytes.IndexAny(pay.Bytes(), "|\x00"))
		}
		data, err := nmdc.Marshal(e.encoder(), m)
		if err != nil {
			ok := strings.IndexByte(s, 0) >= 0 || !utf8.ValidString(s) || !e.holds(s)
			if sl.isName {
				ok = ok || strings.ContainsAny(s, "$\r\n\t") || len(s) > 250
			}
			if !ok {
				c.Fatalf("%s, %s: %d bytes were refused: %v", e.name, sl.id, len(s), err)
			}
			c.Label("refused")
			return
		}
		if strings.IndexByte(s, 0) >= 0 {
			c.Fatalf("%s, %s: a null character at %d of %d was accepted", e.name, sl.id, strings.IndexByte(s, 0), len(s))
		}
		if sl.isName && strings.ContainsAny(s, "$\r\n\t") {
			c.Fatalf("%s, %s: a name with forbidden characters was accepted: %q", e.name, sl.id, s)
		}
		if i := bytes.IndexByte(data, '|'); i != len(data)-1 {
			c.Fatalf("%s, %s: a pipe at %d of %d", e.name, sl.id, i, len(data))
		}
		if i := bytes.IndexByte(data, 0); i >= 0 {
			c.Fatalf("%s, %s: a null byte at %d of %d", e.name, sl.id, i, len(data))
		}
		r := nmdc.NewReader(drawLargeReader(c.T, data))
		r.SetMaxLine(0)
		r.SetDecoder(e.decoder())
		got, err := r.ReadMsg()
		if !sl.plain(e, s) {
			return
		}
		if err != nil {
			c.Fatalf("%s, %s: %q cannot be decoded: %v", e.name, sl.id, clip(string(data), 300), err)
		}
		if sl.get != nil {
			if g := sl.get(got); g != s {
				c.Fatalf("%s, %s: text changed: %s", e.name, sl.id, diffBytes([]byte(g), []byte(s)))
			}
		}
	})
}

func TestN06_Scale(t *testing.T) {
	check(t, 300, "a text of up to 256 KiB in a text field of a message, in every encoding, sent through a connection; non-trivial: more than 256 bytes with characters that are not ASCII", func(c *C) {
		e := nEncodings[pick(c.T, "enc", len(nEncodings))]
		s := nScaleText(c.T, e, 1<<18, []string{"|", "$", "&", "&amp;", "&#124;", " ", "x"}) + "."
		var m nmdc.Message
		switch pick(c.T, "type", 6) {
		case 0:
			m = &nmdc.ChatMessage{Name: "user", Text: s}
		case 1:
			m = &nmdc.PrivateMessage{To: "a", From: "b", Name: "b", Text: s}
		case 2:
			m = &nmdc.HubTopic{Text: s}
		case 3:
			m = &nmdc.MCTo{To: "a", From: "b", Text: s}
		case 4:
			m = &nmdc.HubName{String: nmdc.String(s)}
		case 5:
			m = &nmdc.MyINFO{Name: "user", Desc: s, Flag: 1}
		}
		k := kindOf(m)
		c.Label("%s", k.label())
		c.Key("%s %s %d %s", e.name, k.label(), len(s), clip(s, 100))
		c.NonTrivial(len(s) > 256 && len(s) != utf8.RuneCountInString(s))
		var sent bytes.Buffer
		w := nmdc.NewWriter(&sent)
		w.SetEncoder(e.encoder())
		if err := w.WriteMsg(m, &nmdc.ChatMessage{Name: "user", Text: e.pool[0]}); err != nil {
			c.Fatalf("%s: %d bytes of text: %v", e.name, len(s), err)
		}
		if err := w.Flush(); err != nil {
			c.Fatalf("flush: %v", err)
		}
		want := k.line(e, m)
		if !bytes.HasPrefix(sent.Bytes(), []byte(want)) {
			c.Fatalf("%s: written wrong: %s", e.name, diffBytes(sent.Bytes(), []byte(want)))
		}
		r := nmdc.NewReader(drawLargeReader(c.T, sent.Bytes()))
		r.SetMaxLine(0)
		r.SetDecoder(e.decoder())
		got, err := r.ReadMsg()
		if err != nil {
			c.Fatalf("%s: read: %v", e.name, err)
		}
		if !nEqual(got, m) {
			c.Fatalf("%s: %d bytes of text arrive as %s", e.name, len(s), clip(nShow(got), 1000))
		}
		if got, err := r.ReadMsg(); err != nil || got.(*nmdc.ChatMessage).Text != e.pool[0] {
			c.Fatalf("%s: the next message: %v %v", e.name, got, err)
		}
	})
}

func TestN05_Scale(t *testing.T) {
	check(t, 120, "up to 150000 keep-alives, unknown commands, undecodable lines and messages that a hook drops in a row, then a message; non-trivial: more than 50 of them", func(c *C) {
		var stream strings.Builder
		kind := rapid.SampledFrom([]string{"keep-alive", "unknown", "broken", "dropped", "hook lines", "chat", "lines"}).Draw(c.T, "kind")
		runs := rapid.IntRange(1, 3).Draw(c.T, "runs")
		total := 0
		for i := 0; i < runs; i++ {
			n := drawScale(c.T, "n", 150000)
			total += n
			s := map[string]string{"keep-alive": "|", "unknown": "$Unknown x|", "broken": "$Search broken|", "dropped": "$Quit nobody|", "hook lines": "<drop> x|", "chat": "<chat> x|", "lines": "<line> x|"}[kind]
			stream.WriteString(strings.Repeat(s, n))
			fmt.Fprintf(&stream, "<user> number %d|", i)
		}
		c.Key("%s %d in %d runs", kind, total, runs)
		c.NonTrivial(total > 50)
		c.Label("%s", kind)
		r := nmdc.NewReader(drawLargeReader(c.T, []byte(stream.String())))
		seen := 0
		r.OnKeepAlive = func() error {
			if kind == "keep-alive" {
				seen++
			}
			return nil
		}
		r.OnUnknownEncoding = nil
		// the callbacks that matter are the last of many
		for i := drawScale(c.T, "hooks", 60); i > 0; i-- {
			r.OnLine(func([]byte) (bool, error) { return true, nil })
			r.OnRawMessage(func(_, _ []byte) (bool, error) { return true, nil })
			r.OnMessage(func(nmdc.Message) (bool, error) { return true, nil })
		}
		r.OnLine(func(line []byte) (bool, error) {
			if kind == "lines" && string(line) == "<line> x|" {
				seen++
				return false, nil
			}
			return true, nil
		})
		r.OnUnmarshalError = func(line []byte, err error) (bool, error) {
			if kind == "broken" {
				seen++
				return false, nil
			}
			return true, err
		}
		r.OnRawMessage(func(cmd, args []byte) (bool, error) {
			if kind == "unknown" && string(cmd) == "Unknown" || kind == "chat" && cmd == nil && string(args) == "<chat> x" {
				seen++
				return false, nil
			}
			return true, nil
		})
		r.OnMessage(func(m nmdc.Message) (bool, error) {
			if _, ok := m.(*nmdc.Quit); ok && kind == "dropped" {
				seen++
				return false, nil
			}
			if m, ok := m.(*nmdc.ChatMessage); ok && m.Name == "drop" {
				seen++
				return false, nil
			}
			return true, nil
		})
		for i := 0; i < runs; i++ {
			m, err := r.ReadMsg()
			if err != nil {
				c.Fatalf("message %d after %d of %d %s: %v", i, seen, total, kind, err)
			}
			if cm, ok := m.(*nmdc.ChatMessage); !ok || cm.Name != "user" || cm.Text != fmt.Sprintf("number %d", i) {
				c.Fatalf("message %d after %d of %d %s: %s", i, seen, total, kind, nShow(m))
			}
		}
		if m, err := r.ReadMsg(); err != io.EOF {
			c.Fatalf("in the end: %v %v", m, err)
		}
		if seen != total {
			c.Fatalf("%d of %d %s reported", seen, total, kind)
		}
	})
}

func TestN10_Scale(t *testing.T) {
	check(t, 120, "up to 100000 messages in one call or one per call, with hooks that drop some; non-trivial: more than 20 messages", func(c *C) {
		n := drawScale(c.T, "n", 100000)
		per := 1 + drawScale(c.T, "per-call", 5000)
		dropEach := 2 + drawScale(c.T, "drop", 1000)
		hooks := drawScale(c.T, "hooks", 40)
		e := drawEncoding(c.T, "enc")
		c.Key("%s %d messages, %d per call, %d hooks, drop each %d", e.name, n, per, hooks, dropEach)
		c.NonTrivial(n > 20)
		var sent bytes.Buffer
		w := nmdc.NewWriterSize(&sent, rapid.SampledFrom([]int{0, 16, 4096}).Draw(c.T, "buf"))
		w.SetEncoder(e.encoder())
		calls := make([]int, hooks)
		for h := 0; h < hooks; h++ {
			h := h
			w.OnMessage(func(m nmdc.Message) (bool, error) {
				calls[h]++
				return h != hooks-1 || calls[h]%dropEach != 0, nil
			})
		}
		var all []nmdc.Message
		var want strings.Builder
		for i := 0; i < n; i++ {
			var m nmdc.Message
			switch i % 4 {
			case 0:
				m = &nmdc.ChatMessage{Name: "user", Text: fmt.Sprintf("number $%d", i)}
			case 1:
				m = &nmdc.Hello{Name: nmdc.Name(fmt.Sprintf("user%d", i))}
			case 2:
				m = &nmdc.RawMessage{Typ: "Raw", Data: []byte(fmt.Sprint(i))}
			case 3:
				m = &nmdc.PrivateMessage{To: "a", From: "b", Name: "b", Text: fmt.Sprintf("number %d", i)}
			}
			all = append(all, m)
			if hooks == 0 || (i+1)%dropEach != 0 {
				want.WriteString(kindOf(m).line(e, m))
			}
		}
		for left := all; len(left) > 0; {
			k := min(per, len(left))
			if err := w.WriteMsg(left[:k]...); err != nil {
				c.Fatalf("%d messages: %v", k, err)
			}
			left = left[k:]
		}
		if err := w.Flush(); err != nil {
			c.Fatalf("flush: %v", err)
		}
		for h, k := range calls {
			if k != n {
				c.Fatalf("hook %d was called for %d of %d messages", h, k, n)
			}
		}
		if sent.String() != want.String() {
			c.Fatalf("%d messages are written wrong: %s", n, diffBytes(sent.Bytes(), []byte(want.String())))
		}
	})
}

func TestN11_Scale(t *testing.T) {
	check(t, 250, "a list of up to 2000 elements of which one, anywhere, is broken, or a text of up to 64 KiB with a broken number after it; non-trivial: more than ten elements or 256 bytes", func(c *C) {
		n := 1 + drawScale(c.T, "n", 2000)
		at := drawDeep(c.T, "at", n)
		kind := rapid.SampledFrom([]string{"OpList", "BotList", "UserIP", "SR hub", "SR", "Search"}).Draw(c.T, "kind")
		long := strings.Repeat("x", drawScale(c.T, "long", 1<<16))
		parts := numbered(n, "user%d")
		var line string
		switch kind {
		case "OpList", "BotList":
			parts[at] = rapid.SampledFrom([]string{strings.Repeat("n", 300), "tab\tname", "line\nname"}).Draw(c.T, "bad")
			line = "$" + kind + " " + strings.Join(parts, "$$") + "$$|"
			c.NonTrivial(n > 10)
		case "UserIP":
			for i := range parts {
				parts[i] += fmt.Sprintf(" 10.0.%d.%d", i>>8&255, i&255)
			}
			parts[at] = rapid.SampledFrom([]string{strings.Repeat("n", 300) + " 1.2.3.4", "tab\tname 1.2.3.4"}).Draw(c.T, "bad")
			line = "$UserIP " + strings.Join(parts, "$$") + "$$|"
			c.NonTrivial(n > 10)
		case "SR hub":
			line = "$SR user " + long + "\x05100 1/x\x05hub (1.2.3.4:411)|"
			c.NonTrivial(len(long) > 256)
		case "SR":
			line = "$SR user " + long + "\x051x00 1/2\x05hub (1.2.3.4:411)|"
			c.NonTrivial(len(long) > 256)
		case "Search":
			line = "$Search 1.2.3.4:412 T?F?100?" + rapid.SampledFrom([]string{"x", "", "1x"}).Draw(c.T, "bad") + "?" + long + "|"
			c.NonTrivial(len(long) > 256)
		}
		c.Key("%s n=%d at=%d long=%d %s", kind, n, at, len(long), clip(line, 100))
		c.Label("%s", kind)
		if m, err := nmdc.Unmarshal(nil, []byte(line)); err == nil {
			c.Fatalf("%s, broken element %d of %d, %d bytes before: accepted as %s (%q)", kind, at, n, len(long), clip(nShow(m), 500), clip(line, 300))
		}
		r := nmdc.NewReader(drawLargeReader(c.T, []byte("<a> before|"+line+"<a> after|")))
		r.SetMaxLine(0)
		skipped := 0
		r.OnUnmarshalError = func([]byte, error) (bool, error) { skipped++; return false, nil }
		for _, want := range []string{"before", "after"} {
			m, err := r.ReadMsg()
			if cm, ok := m.(*nmdc.ChatMessage); err != nil || !ok || cm.Text != want {
				c.Fatalf("the message %s %s: %s %v", want, kind, clip(nShow(m), 300), err)
			}
		}
		if skipped != 1 {
			c.Fatalf("%d messages skipped, want one", skipped)
		}
	})
}

func TestN01_Scale(t *testing.T) {
	check(t, 100, "a few messages of all types, sent again and again, up to 3000 in all, over one connection in any encoding; non-trivial: more than 50 messages", func(c *C) {
		e := drawEncoding(c.T, "enc")
		var pool []nmdc.Message
		for i := rapid.IntRange(1, 8).Draw(c.T, "pool"); i > 0; i-- {
			_, m := drawNMDC(c.T, e)
			pool = append(pool, m)
		}
		n := drawScale(c.T, "n", 3000)
		c.Key("%s %d times %s", e.name, n, nShow(pool[0]))
		c.NonTrivial(n > 50)
		var sent bytes.Buffer
		w := nmdc.NewWriter(&sent)
		w.SetEncoder(e.encoder())
		for i := 0; i < n; i++ {
			if err := w.WriteMsg(pool[i%len(pool)]); err != nil {
				c.Fatalf("message %d: %v", i, err)
			}
		}
		if err := w.Flush(); err != nil {
			c.Fatalf("flush: %v", err)
		}
		r := nmdc.NewReader(drawLargeReader(c.T, sent.Bytes()))
		r.SetMaxLine(0)
		r.SetDecoder(e.decoder())
		for i := 0; i < n; i++ {
			want := pool[i%len(pool)]
			if raw, ok := want.(*nmdc.RawMessage); ok && nmdc.IsRegistered(raw.Typ) {
				want = nmdc.NewMessage(raw.Typ)
			}
			if k := kindOf(want); k.typ == "" && k.line(e, want) == "|" {
				continue // a keep-alive
			}
			got, err := r.ReadMsg()
			if err != nil {
				c.Fatalf("message %d of %d: %v", i, n, err)
			}
			if !nEqual(got, want) {
				c.Fatalf("message %d of %d:\n got %s\nwant %s", i, n, nShow(got), nShow(want))
			}
		}
		if m, err := r.ReadMsg(); err != io.EOF {
			c.Fatalf("after %d messages: %v %v", n, m, err)
		}
	})
}

// ---------------------------------------------------------------- all protocols

func TestX01_Scale(t *testing.T) {
	check(t, 120, "up to 3000 messages of both protocols decoded from a connection, or encoded, and all of them kept until the end; non-trivial: more than 50 messages", func(c *C) {
		n := drawScale(c.T, "n", 3000)
		size := drawScale(c.T, "size", 500)
		kind := rapid.SampledFrom([]string{"nmdc", "nmdc to", "adc", "adc raw", "nmdc encoded", "adc encoded", "lines"}).Draw(c.T, "kind")
		c.Key("%s %d of %d", kind, n, size)
		c.Label("%s", kind)
		c.NonTrivial(n > 50)
		text := func(i int) string { return fmt.Sprintf("%d-%s", i, strings.Repeat("x", i%(size+1))) }
		var list []kept
		reader := func(format string) io.Reader {
			var b bytes.Buffer
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, format, text(i))
			}
			return drawLargeReader(c.T, b.Bytes())
		}
		check := func(i int, got string, err error) {
			if err != nil || got != text(i) {
				c.Fatalf("%s %d: %q, %v", kind, i, got, err)
			}
		}
		switch kind {
		case "nmdc":
			r := nmdc.NewReader(reader("$Raw %s|"))
			for i := 0; i < n; i++ {
				m, err := r.ReadMsg()
				if err != nil {
					c.Fatalf("message %d: %v", i, err)
				}
				keep(&list, "raw message", func() string { return string(m.(*nmdc.RawMessage).Data) })
				check(i, list[i].was, err)
			}
		case "nmdc to":
			r := nmdc.NewReader(reader("$Lock %s Pk=pk|"))
			for i := 0; i < n; i++ {
				var m nmdc.Lock
				err := r.ReadMsgTo(&m)
				keep(&list, "lock", func() string { return m.Lock })
				check(i, list[i].was, err)
			}
		case "adc":
			r := adc.NewReader(reader("HMSG %s\n"))
			for i := 0; i < n; i++ {
				p, err := r.ReadPacket()
				if err != nil {
					c.Fatalf("message %d: %v", i, err)
				}
				keep(&list, "message", func() string { return p.Message().(adc.ChatMessage).Text })
				check(i, list[i].was, err)
			}
		case "adc raw":
			r := adc.NewReader(reader("HXYZ %s\n"))
			for i := 0; i < n; i++ {
				p, err := r.ReadPacket()
				if err != nil {
					c.Fatalf("message %d: %v", i, err)
				}
				keep(&list, "message", func() string { return string(p.Message().(*adc.RawMessage).Data) })
				check(i, list[i].was, err)
			}
		case "nmdc encoded":
			for i := 0; i < n; i++ {
				data, err := nmdc.Marshal(nil, &nmdc.Hello{Name: nmdc.Name(clip(text(i), 200))})
				if err != nil {
					c.Fatalf("encode: %v", err)
				}
				keep(&list, "encoded message", func() string { return string(data) })
			}
		case "adc encoded":
			for i := 0; i < n; i++ {
				data, err := marshalADC(adc.ChatMessage{Text: text(i)})
				keep(&list, "encoded message", func() string { return string(data) })
				check(i, list[i].was, err)
			}
		case "lines":
			// a line is valid until the next read only; its copy is not affected by the rest of the history
			r := lineproto.NewReader(reader("%s|"), '|')
			for i := 0; i < n; i++ {
				line, err := r.ReadLine()
				s := string(line)
				keep(&list, "line", func() string { return s })
				check(i, strings.TrimSuffix(s, "|"), err)
			}
		}
		checkKept(c, fmt.Sprintf("%d messages", n), list)
	})
}

func TestK01_Scale(t *testing.T) {
	check(t, 60, "up to 3000 certificates, each of up to 20000 bytes, in a chain or file; non-trivial: more than ten", func(c *C) {
		n := 1 + drawScale(c.T, "n", 3000)
		size := 1 + drawScale(c.T, "size", 20000)
		if n*size > 4<<20 {
			size = 4 << 20 / n
		}
		skip := rapid.IntRange(1, 5).Draw(c.T, "skip")
		c.Key("%d of %d, %d", n, size, skip)
		c.NonTrivial(n > 10)
		var file bytes.Buffer
		var chain [][]byte
		for i := 0; i < n; i++ {
			der := append(pattern(size, byte(i)), fmt.Sprint(i)...)
			b := &pem.Block{Type: "CERTIFICATE", Bytes: der}
			if i%skip == 1 {
				b.Type = "PRIVATE KEY"
			} else {
				chain = append(chain, der)
			}
			file.Write(pem.EncodeToMemory(b))
		}
		want := refKeyprints(chain)
		got, err := keyprint.FromFile(drawLargeReader(c.T, file.Bytes()))
		if err != nil || !sameStrings(got, want) {
			c.Fatalf("a file of %d certificates gives %d keyprints, %v", len(chain), len(got), err)
		}
		if got := keyprint.FromCertificate(tls.Certificate{Certificate: chain}); !sameStrings(got, want) {
			c.Fatalf("a chain of %d certificates gives %d keyprints", len(chain), len(got))
		}
	})
}

func TestU01_Scale(t *testing.T) {
	check(t, 250, "addresses with hosts, paths, parameters and runs of trailing slashes of up to 64 KiB; non-trivial: more than 100 bytes", func(c *C) {
		a := addrParts{scheme: rapid.SampledFrom([]string{"adc", "adcs", "dchub", "nmdcs"}).Draw(c.T, "scheme"), port: "5000"}
		a.host = strings.Repeat("host.", drawScale(c.T, "host", 10000)) + "example"
		for i := drawScale(c.T, "path", 10000); i > 0; i-- {
			a.path = append(a.path, "segment")
		}
		a.slashes = drawScale(c.T, "slashes", 60000)
		if q := drawScale(c.T, "query", 20000); q > 0 {
			a.query = "x=" + strings.Repeat("y", q) + "&kp=SHA256/" + strings.Repeat("A2", 26)
		}
		addr := a.String()
		c.Key("%d %s", len(addr), clip(addr, 100))
		c.NonTrivial(len(addr) > 100)
		want := a.normal()
		norm, err := dc.NormalizeAddr(addr)
		if err != nil || norm != want {
			c.Fatalf("an address of %d bytes (%q) is normalised to %d bytes, want %d: %v, %s", len(addr), clip(addr, 200), len(norm), len(want), err, diffBytes([]byte(norm), []byte(want)))
		}
		u, err := dc.ParseAddr(addr)
		if err != nil || u.Scheme != a.scheme || u.Host != a.host+":5000" || u.RawQuery != a.query {
			c.Fatalf("an address of %d bytes is parsed as %q, %v", len(addr), clip(fmt.Sprint(u), 500), err)
		}
		if again, err := dc.NormalizeAddr(norm); err != nil || again != norm {
			c.Fatalf("normalising again gives another address: %v, %s", err, diffBytes([]byte(again), []byte(norm)))
		}
	})
}

// ---------------------------------------------------------------- types defined by the user

// bigMsg has many fields: 12 positional ones, 72 named ones and two lists.
type bigMsg struct {
	P00  string   `adc:"#"`
	P01  string   `adc:"#"`
	P02  string   `adc:"#"`
	P03  string   `adc:"#"`
	P04  string   `adc:"#"`
	P05  string   `adc:"#"`
	P06  string   `adc:"#"`
	P07  string   `adc:"#"`
	P08  string   `adc:"#"`
	P09  string   `adc:"#"`
	P10  string   `adc:"#"`
	P11  string   `adc:"#"`
	A0   string   `adc:"A0"`
	A1   string   `adc:"A1"`
	A2   string   `adc:"A2"`
	A3   string   `adc:"A3"`
	A4   string   `adc:"A4"`
	A5   string   `adc:"A5"`
	A6   string   `adc:"A6"`
	A7   string   `adc:"A7"`
	A8   string   `adc:"A8"`
	A9   string   `adc:"A9"`
	B0   string   `adc:"B0"`
	B1   string   `adc:"B1"`
	B2   string   `adc:"B2"`
	B3   string   `adc:"B3"`
	B4   string   `adc:"B4"`
	B5   string   `adc:"B5"`
	B6   string   `adc:"B6"`
	B7   string   `adc:"B7"`
	B8   string   `adc:"B8"`
	B9   string   `adc:"B9"`
	C0   string   `adc:"C0"`
	C1   string   `adc:"C1"`
	C2   string   `adc:"C2"`
	C3   string   `adc:"C3"`
	C4   string   `adc:"C4"`
	C5   string   `adc:"C5"`
	C6   string   `adc:"C6"`
	C7   string   `adc:"C7"`
	C8   string   `adc:"C8"`
	C9   string   `adc:"C9"`
	D0   string   `adc:"D0"`
	D1   string   `adc:"D1"`
	D2   string   `adc:"D2"`
	D3   string   `adc:"D3"`
	D4   string   `adc:"D4"`
	D5   string   `adc:"D5"`
	D6   string   `adc:"D6"`
	D7   string   `adc:"D7"`
	D8   string   `adc:"D8"`
	D9   string   `adc:"D9"`
	E0   string   `adc:"E0"`
	E1   string   `adc:"E1"`
	E2   string   `adc:"E2"`
	E3   string   `adc:"E3"`
	E4   string   `adc:"E4"`
	E5   string   `adc:"E5"`
	E6   string   `adc:"E6"`
	E7   string   `adc:"E7"`
	E8   string   `adc:"E8"`
	E9   string   `adc:"E9"`
	F0   string   `adc:"F0"`
	F1   string   `adc:"F1"`
	F2   string   `adc:"F2"`
	F3   string   `adc:"F3"`
	F4   string   `adc:"F4"`
	F5   string   `adc:"F5"`
	F6   string   `adc:"F6"`
	F7   string   `adc:"F7"`
	F8   string   `adc:"F8"`
	F9   string   `adc:"F9"`
	G0   string   `adc:"G0"`
	G1   string   `adc:"G1"`
	G2   string   `adc:"G2"`
	G3   string   `adc:"G3"`
	G4   string   `adc:"G4"`
	G5   string   `adc:"G5"`
	G6   string   `adc:"G6"`
	G7   string   `adc:"G7"`
	G8   string   `adc:"G8"`
	G9   string   `adc:"G9"`
	H0   string   `adc:"H0"`
	H1   string   `adc:"H1"`
	List []string `adc:"LI"`
	Nums []int64  `adc:"NU"`
}

func (bigMsg) Cmd() adc.MsgType { return adc.MsgType{'X', 'B', 'G'} }

func TestA10_Scale(t *testing.T) {
	check(t, 60, "a message with 12 positional and up to 72 named parameters and two lists of up to 3000 values; non-trivial: more than 40 parameters", func(c *C) {
		var m bigMsg
		var words []string
		rv := reflect.ValueOf(&m).Elem()
		used := drawScale(c.T, "used", 72)
		for i := 0; i < 84; i++ {
			v := ""
			if i < 12 || i-12 < used || i-12 >= 72-used/2 {
				v = adcText(c.T, "value")
			}
			rv.Field(i).SetString(v)
			tag := rv.Type().Field(i).Tag.Get("adc")
			if tag == "#" {
				words = append(words, refEscape(v))
			} else if v != "" {
				words = append(words, tag+refEscape(v))
			}
		}
		for i := drawScale(c.T, "list", 3000); i > 0; i-- {
			m.List = append(m.List, fmt.Sprintf("text %d", i))
			words = append(words, "LI"+refEscape(m.List[len(m.List)-1]))
		}
		for i := drawScale(c.T, "nums", 3000); i > 0; i-- {
			m.Nums = append(m.Nums, int64(i)<<20)
			words = append(words, "NU"+itoa(int64(i)<<20))
		}
		want := strings.Join(words, " ")
		c.Key("%d/%d/%d %s", used, len(m.List), len(m.Nums), clip(want, 60))
		c.NonTrivial(len(words) > 40)
		var buf bytes.Buffer
		if err := adc.Marshal(&buf, m); err != nil {
			c.Fatalf("Marshal of %d parameters: %v", len(words), err)
		}
		// the order of named parameters is free
		got := strings.Split(buf.String(), " ")
		w := append([]string{}, words...)
		if len(got) != len(w) {
			c.Fatalf("%d parameters are written for %d", len(got), len(w))
		}
		for i := 0; i < 12; i++ {
			if got[i] != w[i] {
				c.Fatalf("positional parameter %d is written %q, want %q", i, got[i], w[i])
			}
		}
		byTag := func(l []string) func(i, j int) bool {
			return func(i, j int) bool { return l[i][:2] < l[j][:2] }
		}
		sort.SliceStable(got[12:], byTag(got[12:]))
		sort.SliceStable(w[12:], byTag(w[12:]))
		for i := range w {
			if got[i] != w[i] {
				c.Fatalf("parameter %d of %d is written %q, want %q", i, len(w), got[i], w[i])
			}
		}
		var back bigMsg
		if err := adc.Unmarshal([]byte(want), &back); err != nil {
			c.Fatalf("Unmarshal of %d parameters: %v", len(words), err)
		}
		if !adcEqual(back, m) {
			for i := 0; i < rv.NumField(); i++ {
				if a, b := fmt.Sprint(reflect.ValueOf(back).Field(i).Interface()), fmt.Sprint(rv.Field(i).Interface()); a != b {
					c.Fatalf("field %s of a message with %d parameters decodes to %s, want %s", rv.Type().Field(i).Name, len(words), clip(a, 300), clip(b, 300))
				}
			}
			c.Fatalf("a message with %d parameters decodes to another one", len(words))
		}
	})
}

func TestN07_Scale(t *testing.T) {
	check(t, 150, "locks of up to 70000 bytes; non-trivial: more than 100 bytes", func(c *C) {
		n := drawScale(c.T, "n", 70000)
		lock := pattern(n, byte(pick(c.T, "seed", 250)))
		for i, b := range lock {
			if b == 0 || b == '|' || b == ' ' {
				lock[i] = 'x'
			}
		}
		m := &nmdc.Lock{NoExt: true, Lock: string(lock)}
		if strings.HasPrefix(m.Lock, "EXTENDEDPROTOCOL") {
			m.Lock = "x" + m.Lock
		}
		magic := byte(pick(c.T, "magic", 256))
		c.Key("%d %d %q", n, magic, clip(m.Lock, 20))
		c.NonTrivial(n > 100)
		for _, k := range []struct {
			what  string
			magic byte
			key   *nmdc.Key
		}{{"Key", 5, m.Key()}, {"CustomKey", magic, m.CustomKey(magic, false)}, {"CustomKey (full)", magic, m.CustomKey(magic, true)}} {
			if want := refKey(m.Lock, k.magic); k.key.Key != want {
				c.Fatalf("%s of a lock of %d bytes, magic %d: %s", k.what, n, k.magic, diffBytes([]byte(k.key.Key), []byte(want)))
			}
		}
	})
}
