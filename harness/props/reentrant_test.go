package props

import (
	"bytes"
	"compress/zlib"
	"errors"
	"fmt"
	"testing"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"
	"pgregory.net/rapid"
)

// A callback that closes the connection it was called from.

const ruleL05Inside = "a reader of one of the three packages that is closed by one of its own callbacks (line hook, keep-alive, raw or message hook, decode-error or unknown-encoding callback) at a generated line, which then passes, drops or fails; non-trivial: the callback was reached and lines follow"

func TestL05_ClosedInside(t *testing.T) {
	check(t, 3000, ruleL05Inside, func(c *C) {
		n := rapid.IntRange(1, 6).Draw(c.T, "lines")
		at := rapid.IntRange(0, n-1).Draw(c.T, "at")
		ret := pick(c.T, "ret", 3) // pass, drop, fail
		proto := pick(c.T, "proto", 3)
		z := pick(c.T, "zlib", 3) == 0
		errCB := errors.New("callback")
		var closeAll func() error
		calls, closedAt := 0, -1
		decide := func() (bool, error) {
			calls++
			if calls-1 != at {
				return true, nil
			}
			closedAt = calls - 1
			if err := closeAll(); err != nil {
				c.Fatalf("close: %v", err)
			}
			switch ret {
			case 1:
				return false, nil
			case 2:
				return true, errCB
			}
			return true, nil
		}
		var read func() (interface{}, error)
		var enable func() error
		var extra []func() error
		var stream []byte
		second := pick(c.T, "second", 3) // another hook before or after
		lineHooks := func(on func(func([]byte) (bool, error))) {
			if second == 1 {
				on(func(l []byte) (bool, error) { return true, nil })
			}
			on(func(l []byte) (bool, error) { return decide() })
			if second == 2 {
				on(func(l []byte) (bool, error) { _ = string(l); return true, nil })
			}
		}
		which := ""
		var build func(src *chunkReader)
		switch proto {
		case 0:
			which = "line"
			for i := 0; i < n; i++ {
				stream = append(stream, fmt.Sprintf("line %d|", i)...)
			}
			build = func(src *chunkReader) {
				r := lineproto.NewReader(src, '|')
				lineHooks(r.OnLine)
				closeAll, enable = r.Close, r.EnableZlib
				read = func() (interface{}, error) { l, err := r.ReadLine(); return string(l), err }
				extra = append(extra, func() error { _, err := r.Read(make([]byte, 4)); return err })
			}
		case 1:
			which = rapid.SampledFrom([]string{"line", "keepalive"}).Draw(c.T, "which")
			for i := 0; i < n; i++ {
				if which == "keepalive" {
					stream = append(stream, '\n')
				}
				stream = append(stream, fmt.Sprintf("HSUP ADBAS%d\n", i)...)
			}
			build = func(src *chunkReader) {
				r := adc.NewReader(src)
				if which == "line" {
					lineHooks(r.OnLine)
				} else {
					r.OnKeepAlive = func() error { _, err := decide(); return err }
				}
				closeAll, enable = r.Close, r.EnableZlib
				read = func() (interface{}, error) { p, err := r.ReadPacket(); return p, err }
				extra = append(extra, func() error { _, err := r.ReadPacketRaw(); return err },
					func() error { _, err := r.ReadInfo(); return err }, func() error { _, err := r.ReadClient(); return err })
			}
		case 2:
			which = rapid.SampledFrom([]string{"line", "keepalive", "raw", "message", "error", "encoding"}).Draw(c.T, "which")
			for i := 0; i < n; i++ {
				switch which {
				case "keepalive":
					stream = append(stream, '|')
				case "error":
					stream = append(stream, "$SR broken|"...)
				case "encoding":
					stream = append(stream, "<a> \xff|"...)
				}
				stream = append(stream, fmt.Sprintf("$Quit user%d|", i)...)
			}
			into := pick(c.T, "into", 2) == 0
			build = func(src *chunkReader) {
				r := nmdc.NewReader(src)
				switch which {
				case "line":
					lineHooks(r.OnLine)
				case "keepalive":
					r.OnKeepAlive = func() error { _, err := decide(); return err }
				case "raw":
					r.OnRawMessage(func(cmd, args []byte) (bool, error) { return decide() })
				case "message":
					r.OnMessage(func(m nmdc.Message) (bool, error) { return decide() })
				case "error":
					r.OnUnmarshalError = func(line []byte, err error) (bool, error) {
						ok, derr := decide()
						if !ok || derr != nil {
							return derr != nil, derr
						}
						return false, nil
					}
				case "encoding":
					r.OnUnknownEncoding = func(text []byte) (*nmdc.TextDecoder, error) {
						_, err := decide()
						return nEncodings[0].decoder(), err
					}
				}
				closeAll, enable = r.Close, r.EnableZlib
				read = func() (interface{}, error) {
					if into {
						var m nmdc.Quit
						err := r.ReadMsgTo(&m)
						return m, err
					}
					return r.ReadMsg()
				}
				extra = append(extra, func() error { return r.ReadMsgTo(&nmdc.Quit{}) },
					func() error { _, err := r.ReadMsgToAny(&nmdc.Quit{}, &nmdc.ChatMessage{}); return err })
			}
		}
		if z {
			var buf bytes.Buffer
			zw, _ := zlib.NewWriterLevel(&buf, drawLevel(c.T))
			_, _ = zw.Write(stream)
			_ = zw.Close()
			stream = buf.Bytes()
		}
		src := drawEOFReader(c.T, stream)
		build(src)
		ops := rapid.SliceOfN(rapid.IntRange(0, 3), 1, 6).Draw(c.T, "after")
		c.Key("proto=%d %s n=%d at=%d ret=%d second=%d zlib=%v after=%v chunks=%v", proto, which, n, at, ret, second, z, ops, src)
		c.Label("%d %s %d", proto, which, ret)
		if perr := guard(func() {
			if z {
				if err := enable(); err != nil {
					c.Fatalf("enable: %v", err)
				}
			}
			for i := 0; i < 3*n+5 && closedAt < 0; i++ {
				v, err := read()
				if closedAt >= 0 {
					if err == nil && ret == 1 && (which == "line" || which == "raw" || which == "message") {
						c.Fatalf("the line was dropped by the %s callback that closed the reader, but %v was returned", which, v)
					}
					if err == nil && ret == 2 {
						c.Fatalf("the %s callback closed the reader and failed, but %v was returned", which, v)
					}
				}
			}
		}); perr != nil {
			c.Fatalf("the reader was closed by its %s callback: %v", which, perr)
		}
		c.NonTrivial(closedAt >= 0 && at < n-1)
		if closedAt < 0 {
			return
		}
		before := calls
		for _, op := range ops {
			var err error
			var v interface{}
			if perr := guard(func() {
				switch {
				case op == 0:
					v, err = read()
				case op == 1:
					if err = enable(); err == nil {
						c.Fatalf("compression was enabled on a closed reader")
					}
				case op == 2:
					if cerr := closeAll(); cerr != nil {
						c.Fatalf("closing again: %v", cerr)
					}
					err = errCB
				default:
					err = extra[pick(c.T, "extra", len(extra))]()
				}
			}); perr != nil {
				c.Fatalf("after the reader was closed by its %s callback: %v", which, perr)
			}
			if err == nil {
				c.Fatalf("a reader closed by its %s callback goes on with %v", which, v)
			}
		}
		if calls != before {
			c.Fatalf("the %s callback of a closed reader was called", which)
		}
	})
}

const ruleL06Inside = "a writer of one of the three packages that is closed by one of its own callbacks (line hook, timeout callback, message hook) during a generated call, which then passes, drops or fails; non-trivial: a line was accepted before and more operations follow"

func TestL06_ClosedInside(t *testing.T) {
	check(t, 3000, ruleL06Inside, func(c *C) {
		proto := pick(c.T, "proto", 3)
		which := rapid.SampledFrom([]string{"line", "timeout", "message"}).Draw(c.T, "which")
		if which == "message" {
			proto = 2
		}
		ret := pick(c.T, "ret", 3) // pass, drop, fail
		z := pick(c.T, "zlib", 3) == 0
		size := rapid.SampledFrom([]int{0, 16, 64, 4096}).Draw(c.T, "size")
		at := rapid.IntRange(0, 5).Draw(c.T, "at")
		ops := rapid.SliceOfN(rapid.IntRange(0, 5), 1, 8).Draw(c.T, "ops")
		c.Key("proto=%d %s ret=%d zlib=%v size=%d at=%d ops=%v", proto, which, ret, z, size, at, ops)
		c.Label("%s %d", which, ret)
		errCB := errors.New("callback")

		var sink bytes.Buffer
		var st closeState
		var w *lineproto.Writer
		var msg func(i int) ([]byte, error)
		switch proto {
		case 0:
			w = lineproto.NewWriterSize(&sink, size)
			msg = func(i int) ([]byte, error) {
				l := []byte(fmt.Sprintf("line %d|", i))
				return l, w.WriteLine(l)
			}
		case 1:
			aw := adc.NewWriterSize(&sink, size)
			w = aw.Writer
			msg = func(i int) ([]byte, error) {
				return []byte(fmt.Sprintf("HSUP ADBAS%d\n", i)), aw.WriteHub(adc.Supported{Features: adc.ModFeatures{adc.Feature{'B', 'A', 'S', byte('0' + i)}: true}})
			}
		case 2:
			nw := nmdc.NewWriterSize(&sink, size)
			w = nw.Writer
			msg = func(i int) ([]byte, error) {
				return []byte(fmt.Sprintf("$Quit user%d|", i)), nw.WriteMsg(&nmdc.Quit{Name: nmdc.Name(fmt.Sprintf("user%d", i))})
			}
			if which == "message" {
				nw.OnMessage(func(m nmdc.Message) (bool, error) { return closeInside(c, w, &st, at, ret, errCB) })
			}
		}
		armed, disarmed := 0, 0
		w.Timeout = func(enable bool) error {
			if !enable {
				disarmed++
				return nil
			}
			if which == "timeout" {
				if _, err := closeInside(c, w, &st, at, ret, errCB); err != nil {
					return err
				}
			}
			armed++
			return nil
		}
		if which == "line" {
			w.OnLine(func([]byte) (bool, error) { return closeInside(c, w, &st, at, ret, errCB) })
		}
		var want []byte
		var touched int
		if z {
			if err := w.EnableZlib(); err != nil && !st.closed {
				c.Fatalf("enable: %v", err)
			}
		}
		accepted := false
		for i, op := range ops {
			was := st.closed
			touched = sink.Len()
			var line []byte
			var err error
			name := ""
			if perr := guard(func() {
				switch op {
				case 0, 1, 2:
					name = "line"
					line, err = msg(i)
				case 3:
					name = "flush"
					err = w.Flush()
				case 4:
					name = "raw"
					line = []byte(fmt.Sprintf("raw%d", i))
					_, err = w.Write(line)
				case 5:
					name = "zlib"
					if z {
						err = w.DisableZlib()
					} else {
						err = w.EnableZlib()
					}
					if err == nil {
						z = !z
					}
				}
			}); perr != nil {
				c.Fatalf("op %d (%s) of a writer that was closed by its %s callback (before: %v): %v", i, name, which, was, perr)
			}
			if armed != disarmed {
				c.Fatalf("op %d (%s): the timeout was armed %d times and disarmed %d times", i, name, armed, disarmed)
			}
			switch {
			case was:
				if err == nil {
					c.Fatalf("op %d (%s) of a writer closed by its %s callback succeeds", i, name, which)
				}
				if sink.Len() != touched {
					c.Fatalf("op %d (%s) of a writer closed by its %s callback wrote %q", i, name, which, sink.Bytes()[touched:])
				}
				c.NonTrivial(accepted)
			case st.closed:
				if err != nil {
					break
				}
				if which != "timeout" && ret != 1 && (name == "line") {
					c.Fatalf("op %d (%s): the writer was closed by its %s callback, but the call reports no error", i, name, which)
				}
			default:
				if err != nil {
					c.Fatalf("op %d (%s): %v", i, name, err)
				}
				want = append(want, line...)
				accepted = accepted || name == "line"
			}
		}
		if st.closed && w.Err() == nil {
			c.Fatalf("a writer closed by its %s callback reports no error", which)
		}
		for i := 0; i < 2; i++ {
			if perr := guard(func() { _ = w.Close() }); perr != nil {
				c.Fatalf("closing the writer again: %v", perr)
			}
		}
	})
}

type closeState struct {
	calls  int
	closed bool
}

func closeInside(c *C, w *lineproto.Writer, st *closeState, at, ret int, errCB error) (bool, error) {
	st.calls++
	if st.calls-1 != at {
		return true, nil
	}
	st.closed = true
	if err := w.Close(); err != nil {
		c.Fatalf("close: %v", err)
	}
	switch ret {
	case 1:
		return false, nil
	case 2:
		return true, errCB
	}
	return true, nil
}

const ruleNested = "a writer whose line or message hook writes a message of its own for some of the messages, before it decides about the message it was called for; non-trivial: an own message was written"

// nestedWriter runs the history with both hooks and compares the lines on the wire.
func nestedWriter(c *C, w *lineproto.Writer, sink *bytes.Buffer, hook func(func() (bool, error)), write func(s string) error, enc func(s string) string) {
	n := rapid.IntRange(1, 8).Draw(c.T, "messages")
	actions := rapid.SliceOfN(rapid.IntRange(0, 5), n, n).Draw(c.T, "actions")
	flush := rapid.SliceOfN(rapid.Bool(), n, n).Draw(c.T, "flush")
	var texts []string
	for i := 0; i < 2*n; i++ {
		texts = append(texts, fmt.Sprintf("m%d%s", i, bytes.Repeat([]byte{'x'}, pick(c.T, "len", 40))))
	}
	c.Key("%v %v %q", actions, flush, texts)
	var want []string
	depth, cur, own := 0, 0, 0
	hook(func() (bool, error) {
		if depth > 0 {
			return true, nil
		}
		a := actions[cur]
		if a == 2 || a == 4 || a == 5 {
			own++
			depth++
			defer func() { depth-- }()
			if err := write(texts[n+cur]); err != nil {
				c.Fatalf("message of the hook: %v", err)
			}
			want = append(want, enc(texts[n+cur]))
			if a == 5 {
				if err := w.Flush(); err != nil {
					c.Fatalf("flush of the hook: %v", err)
				}
			}
		}
		return a != 1 && a != 4, nil
	})
	for cur = 0; cur < n; cur++ {
		err := write(texts[cur])
		if err != nil {
			c.Fatalf("message %d: %v", cur, err)
		}
		if a := actions[cur]; a != 1 && a != 4 {
			want = append(want, enc(texts[cur]))
		}
		if flush[cur] {
			if err := w.Flush(); err != nil {
				c.Fatalf("flush: %v", err)
			}
		}
	}
	if err := w.Flush(); err != nil {
		c.Fatalf("flush: %v", err)
	}
	c.NonTrivial(own > 0)
	got := sink.String()
	exp := ""
	for _, l := range want {
		exp += l
	}
	if got != exp {
		c.Fatalf("actions %v: on the wire are\n%q, want\n%q", actions, got, exp)
	}
}

func TestN10_HookWrites(t *testing.T) {
	check(t, 3000, ruleNested, func(c *C) {
		var sink bytes.Buffer
		w := nmdc.NewWriterSize(&sink, rapid.SampledFrom([]int{0, 16, 64, 4096}).Draw(c.T, "size"))
		level := pick(c.T, "level", 2)
		nestedWriter(c, w.Writer, &sink, func(f func() (bool, error)) {
			if level == 0 {
				w.OnLine(func([]byte) (bool, error) { return f() })
			} else {
				w.OnMessage(func(nmdc.Message) (bool, error) { return f() })
			}
		}, func(s string) error { return w.WriteMsg(&nmdc.Quit{Name: nmdc.Name(s)}) },
			func(s string) string { return "$Quit " + s + "|" })
	})
}

func TestA07_HookWrites(t *testing.T) {
	check(t, 3000, ruleNested, func(c *C) {
		var sink bytes.Buffer
		w := adc.NewWriterSize(&sink, rapid.SampledFrom([]int{0, 16, 64, 4096}).Draw(c.T, "size"))
		kind := 0
		nestedWriter(c, w.Writer, &sink, func(f func() (bool, error)) {
			w.OnLine(func([]byte) (bool, error) { return f() })
		}, func(s string) error {
			kind++
			if kind%2 == 0 {
				return w.HubStream().WriteMessage(adc.ChatMessage{Text: s})
			}
			return w.WriteHub(adc.ChatMessage{Text: s})
		}, func(s string) string { return "HMSG " + s + "\n" })
	})
}

func TestL03_HookWrites(t *testing.T) {
	check(t, 2000, ruleNested, func(c *C) {
		var sink bytes.Buffer
		w := lineproto.NewWriterSize(&sink, rapid.SampledFrom([]int{0, 16, 64, 4096}).Draw(c.T, "size"))
		nestedWriter(c, w, &sink, func(f func() (bool, error)) {
			w.OnLine(func([]byte) (bool, error) { return f() })
		}, func(s string) error { return w.WriteLine([]byte(s + "|")) }, func(s string) string { return s + "|" })
	})
}
