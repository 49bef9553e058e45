package props

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"io"
	"strings"
	"sync"
	"testing"

	dc "github.com/direct-connect/go-dc"
	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/keyprint"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- X02

// job is work on values and connections of its own. It returns a description of everything observed.
type job struct {
	name string
	run  func() string
}

func jobNMDC(t *rapid.T) job {
	e := drawEncoding(t, "enc")
	var msgs []nmdc.Message
	for n := 1 + pick(t, "messages", 6); n > 0; n-- {
		_, m := drawNMDC(t, e)
		if mi, ok := m.(*nmdc.MyINFO); ok && len(mi.Extra) > 1 {
			mi.Extra = nil // the order is free
		}
		msgs = append(msgs, m)
	}
	zlib := pick(t, "zlib", 3) == 0
	buffer := rapid.SampledFrom([]int{0, 16, 200}).Draw(t, "buffer")
	plan := drawPlan(t, "plan")
	return job{"nmdc connection", func() string {
		var log strings.Builder
		var net bytes.Buffer
		w := nmdc.NewWriterSize(&net, buffer)
		if enc := e.encoder(); enc != nil {
			w.SetEncoder(enc)
		}
		if zlib {
			fmt.Fprintln(&log, w.ZOn())
		}
		for _, m := range msgs {
			fmt.Fprintln(&log, w.WriteMsg(m))
		}
		fmt.Fprintln(&log, w.Close())
		if !zlib {
			fmt.Fprintf(&log, "%q\n", net.Bytes())
		}
		r := nmdc.NewReader(&chunkReader{data: net.Bytes(), plan: plan, err: io.EOF})
		if dec := e.decoder(); dec != nil {
			r.SetDecoder(dec)
		}
		r.OnRawMessage(func(cmd, args []byte) (bool, error) {
			if string(cmd) == "ZOn" {
				return false, r.EnableZlib()
			}
			return true, nil
		})
		for {
			m, err := r.ReadMsg()
			if err != nil {
				fmt.Fprintln(&log, err)
				return log.String()
			}
			fmt.Fprintln(&log, nShow(m))
		}
	}}
}

func jobADC(t *rapid.T) job {
	var ps []adc.Packet
	for n := 1 + pick(t, "packets", 6); n > 0; n-- {
		r, m, _ := drawADCPacket(t)
		if s, ok := m.(adc.Supported); ok && len(s.Features) > 1 {
			continue
		}
		ps = append(ps, r.build(m))
	}
	plan := drawPlan(t, "plan")
	return job{"adc connection", func() string {
		var log strings.Builder
		var net bytes.Buffer
		w := adc.NewWriter(&net)
		for _, p := range ps {
			fmt.Fprintln(&log, w.WritePacket(p))
		}
		fmt.Fprintln(&log, w.Flush())
		fmt.Fprintf(&log, "%q\n", net.Bytes())
		r := adc.NewReader(&chunkReader{data: net.Bytes(), plan: plan, err: io.EOF})
		for {
			p, err := r.ReadPacket()
			if err != nil {
				fmt.Fprintln(&log, err)
				return log.String()
			}
			fmt.Fprintln(&log, adcDeep(p))
		}
	}}
}

func jobLines(t *rapid.T) job {
	type section struct {
		zlib  bool
		lines []string
	}
	var secs []section
	for n := 1 + pick(t, "sections", 3); n > 0; n-- {
		s := section{zlib: pick(t, "zlib", 2) == 0}
		for n := pick(t, "lines", 5); n > 0; n-- {
			s.lines = append(s.lines, string(pattern(pick(t, "len", 300), byte(pick(t, "seed", 256)), '|'))+"|")
		}
		secs = append(secs, s)
	}
	bin := pattern(pick(t, "bin", 5000), 3)
	plan := drawPlan(t, "plan")
	return job{"line connection", func() string {
		var log strings.Builder
		var net bytes.Buffer
		w := lineproto.NewWriter(&net)
		for _, s := range secs {
			if s.zlib {
				fmt.Fprintln(&log, w.WriteLine([]byte("Z|")), w.EnableZlib())
			}
			for _, l := range s.lines {
				fmt.Fprintln(&log, w.WriteLine([]byte(l)))
			}
			if s.zlib {
				fmt.Fprintln(&log, w.WriteLine([]byte("z|")), w.DisableZlib())
			}
		}
		fmt.Fprintln(&log, w.WriteLine([]byte("B|")))
		_, err := w.Write(bin)
		fmt.Fprintln(&log, err, w.Close())
		r := lineproto.NewReader(&chunkReader{data: net.Bytes(), plan: plan, err: io.EOF}, '|')
		for {
			l, err := r.ReadLine()
			fmt.Fprintf(&log, "%q %v\n", l, err)
			if err != nil {
				return log.String()
			}
			switch string(l) {
			case "Z|":
				if err := r.EnableZlib(); err != nil {
					fmt.Fprintln(&log, err)
					return log.String()
				}
			case "B|":
				b, err := r.Binary(uint64(len(bin)))
				if err != nil {
					fmt.Fprintln(&log, err)
					return log.String()
				}
				got, err := io.ReadAll(b)
				h := fnv.New64a()
				_, _ = h.Write(got)
				fmt.Fprintln(&log, len(got), h.Sum64(), err, b.Close())
			}
		}
	}}
}

func jobValues(t *rapid.T) job {
	data := drawContent(t)
	lock := drawLockBytes(t, "")
	addr := drawAddr(t).String()
	junk := nBrokenLine(t)
	ajunk := drawBrokenLine(t)
	v := draw24(t, "hash")
	text := adcText(t, "text")
	a, b := drawMod(t), drawMod(t)
	var exts []string
	for n := pick(t, "exts", 5); n > 0; n-- {
		exts = append(exts, "name."+rapid.SampledFrom([]string{"mp3", "ZIP", "x", "avi"}).Draw(t, "ext"))
	}
	return job{"values", func() string {
		var log strings.Builder
		h, err := tiger.TreeHash(bytes.NewReader(data))
		fmt.Fprintln(&log, h, err, tiger.HashBytes(data), tiger.Hash(v), tiger.Hash(v).Hex(), adc.CID(v).Hash())
		lv, err := tiger.TreeLeaves(bytes.NewReader(data))
		fmt.Fprintln(&log, lv.TreeHash(), err)
		l := &nmdc.Lock{Lock: lock, PK: "pk"}
		fmt.Fprintf(&log, "%q\n", l.Key().Key)
		fmt.Fprintf(&log, "%q\n", l.CustomKey(byte(len(lock)), true).Key)
		u, err := dc.ParseAddr(addr)
		fmt.Fprintln(&log, u, err)
		fmt.Fprintln(&log, keyprint.FromBytes(data))
		m, err := nmdc.Unmarshal(nil, junk)
		if err == nil {
			fmt.Fprintln(&log, nShow(m))
		}
		fmt.Fprintln(&log, err)
		p, err := adc.DecodePacket(ajunk)
		if err == nil {
			fmt.Fprintln(&log, adcDeep(p))
		}
		fmt.Fprintln(&log, err)
		for _, esc := range []nmdc.Message{&nmdc.ChatMessage{Name: "n", Text: text}, &nmdc.HubName{String: nmdc.String(text)}} {
			d, err := nmdc.Marshal(nil, esc)
			fmt.Fprintf(&log, "%q %v\n", d, err)
		}
		fmt.Fprintln(&log, nmdc.RegisteredTypes(), nmdc.IsRegistered(text), nmdc.IsRegisteredBytes([]byte("Key")))
		fmt.Fprintf(&log, "%T\n", nmdc.NewMessage("MyINFO"))
		fmt.Fprintln(&log, a.f.SetFrom(b.f), a.f.Intersect(b.f))
		for _, x := range exts {
			fmt.Fprintln(&log, adc.ExtAudio.Matches(x), adc.ExtArch.Matches(x))
		}
		return log.String()
	}}
}

func TestX02_Independent(t *testing.T) {
	check(t, 60, "at least four kinds of work at the same time", func(c *C) {
		var jobs []job
		kinds := map[string]bool{}
		for n := 4 + pick(c.T, "jobs", 8); n > 0; n-- {
			var j job
			switch pick(c.T, "kind", 4) {
			case 0:
				j = jobNMDC(c.T)
			case 1:
				j = jobADC(c.T)
			case 2:
				j = jobLines(c.T)
			default:
				j = jobValues(c.T)
			}
			jobs = append(jobs, j)
			kinds[j.name] = true
		}
		c.NonTrivial(len(kinds) > 3)
		want := make([]string, len(jobs))
		for i, j := range jobs {
			want[i] = j.run()
			c.Key("%s ", want[i])
		}
		const copies = 2
		got := make([]string, copies*len(jobs))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range got {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				var s string
				if err := guard(func() {
					for n := 0; n < 3; n++ {
						if s = jobs[i%len(jobs)].run(); s != want[i%len(jobs)] {
							break
						}
					}
				}); err != nil {
					s = err.Error()
				}
				got[i] = s
			}(i)
		}
		close(start)
		wg.Wait()
		for i, s := range got {
			if w := want[i%len(jobs)]; s != w {
				c.Fatalf("%s gives another result when run concurrently:\n%s\nwant\n%s", jobs[i%len(jobs)].name, clip(s, 4000), clip(w, 4000))
			}
		}
	})
}

func TestX02_Encodings(t *testing.T) {
	check(t, 60, "at least eight messages while the encodings are replaced", func(c *C) {
		// every message's text decodes to something else with each of the encodings
		encs := []*nEnc{}
		for _, e := range nEncodings {
			if e.encoder() != nil {
				encs = append(encs, e)
			}
		}
		a, b := encs[pick(c.T, "a", len(encs))], encs[pick(c.T, "b", len(encs))]
		var texts []string
		for n := 4 + pick(c.T, "messages", 20); n > 0; n-- {
			s := nText(c.T, a, "text", "")
			if !a.holds(s) || !b.holds(s) {
				s = "plain"
			}
			texts = append(texts, s)
		}
		flips := 1 + pick(c.T, "flips", 30)
		c.Key("%s %s %q", a.name, b.name, texts)
		c.NonTrivial(len(texts) >= 8)
		// the writer
		var net bytes.Buffer
		w := nmdc.NewWriter(&net)
		encA, encB := a.encoder(), b.encoder()
		w.SetEncoder(encA)
		var wg sync.WaitGroup
		wg.Add(2)
		bad := ""
		go func() {
			defer wg.Done()
			for i := 0; i < flips; i++ {
				if i%2 == 0 {
					w.SetEncoder(encB)
				} else {
					w.SetEncoder(encA)
				}
				if e := w.Encoder(); e != encA && e != encB {
					bad = fmt.Sprintf("the writer's encoder is %v", e)
				}
			}
		}()
		var werr error
		go func() {
			defer wg.Done()
			for _, s := range texts {
				if err := w.WriteMsg(&nmdc.ChatMessage{Name: "n", Text: s}); err != nil && werr == nil {
					werr = err
				}
			}
			if err := w.Flush(); err != nil && werr == nil {
				werr = err
			}
		}()
		wg.Wait()
		if bad != "" || werr != nil {
			c.Fatalf("writing with %s or %s: %v %s", a.name, b.name, werr, bad)
		}
		want := make([][2]string, len(texts))
		for i, s := range texts {
			x, err1 := nmdc.Marshal(a.encoder(), &nmdc.ChatMessage{Name: "n", Text: s})
			y, err2 := nmdc.Marshal(b.encoder(), &nmdc.ChatMessage{Name: "n", Text: s})
			if err1 != nil || err2 != nil {
				c.Fatalf("cannot encode %q: %v %v", s, err1, err2)
			}
			want[i] = [2]string{string(x), string(y)}
		}
		// each message is in one of the two encodings as a whole
		wire := net.String()
		ways := map[int]bool{0: true}
		for i := range texts {
			next := map[int]bool{}
			for p := range ways {
				for _, s := range want[i] {
					if strings.HasPrefix(wire[p:], s) {
						next[p+len(s)] = true
					}
				}
			}
			if len(next) == 0 {
				c.Fatalf("message %d, %q, is not written in %s nor in %s: %q", i, texts[i], a.name, b.name, wire)
			}
			ways = next
		}
		if !ways[len(wire)] {
			c.Fatalf("unexpected data at the end of %q", wire)
		}
		// the reader
		var in bytes.Buffer
		for i := range texts {
			in.WriteString(want[i][pick(c.T, "which", 2)])
		}
		var lines []string
		for _, l := range strings.SplitAfter(in.String(), "|") {
			if l != "" {
				lines = append(lines, l)
			}
		}
		expect := make([][2]string, len(lines))
		for i, l := range lines {
			for k, e := range []*nEnc{a, b} {
				m, err := nmdc.Unmarshal(e.decoder(), []byte(l))
				if err != nil {
					c.Fatalf("cannot decode %q with %s: %v", l, e.name, err)
				}
				expect[i][k] = nShow(m)
			}
		}
		r := nmdc.NewReader(drawEOFReader(c.T, in.Bytes()))
		decA, decB := a.decoder(), b.decoder()
		r.SetDecoder(decA)
		wg.Add(2)
		go func() {
			defer wg.Done()
			for i := 0; i < flips; i++ {
				if i%2 == 0 {
					r.SetDecoder(decB)
				} else {
					r.SetDecoder(decA)
				}
				if d := r.Decoder(); d != decA && d != decB {
					bad = fmt.Sprintf("the reader's decoder is %v", d)
				}
			}
		}()
		got := make([]string, len(lines))
		var rerr error
		go func() {
			defer wg.Done()
			for i := range got {
				m, err := r.ReadMsg()
				if err != nil {
					rerr = err
					return
				}
				got[i] = nShow(m)
			}
		}()
		wg.Wait()
		if bad != "" || rerr != nil {
			c.Fatalf("reading with %s or %s: %v %s", a.name, b.name, rerr, bad)
		}
		for i := range got {
			if got[i] != expect[i][0] && got[i] != expect[i][1] {
				c.Fatalf("message %d is %s, want %q", i, got[i], expect[i])
			}
		}
		if w.Encoder() != encA && w.Encoder() != encB || r.Decoder() != decA && r.Decoder() != decB {
			c.Fatalf("the encodings are not those that were set")
		}
	})
}
