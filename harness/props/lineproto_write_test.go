package props

import (
	"bytes"
	"compress/zlib"
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"
	"pgregory.net/rapid"
)

// wop is one operation on a line writer.
type wop struct {
	kind  string // line, drop, raw, flush, zon, zbad, zoff
	data  []byte
	level int
}

func (o wop) String() string {
	switch o.kind {
	case "line", "drop", "raw", "hookerr":
		return fmt.Sprintf("%s(%d)", o.kind, len(o.data))
	case "zon", "zbad":
		return fmt.Sprintf("%s(%d)", o.kind, o.level)
	}
	return o.kind
}

const (
	dropMark = '\x01' // lines that start with it are dropped by the hook
	failMark = '\x02' // the hook fails for lines that start with it
)

func drawOps(t *rapid.T, buf int, max int, hookErrors bool) []wop {
	if buf < 16 {
		buf = 4096
	}
	kinds := []string{"line", "line", "line", "raw", "flush", "flush", "zon", "zon", "zoff", "zoff", "drop", "zbad"}
	if hookErrors {
		kinds = append(kinds, "hookerr")
	}
	n := rapid.IntRange(0, max).Draw(t, "ops")
	var ops []wop
	total := 0
	for i := 0; i < n; i++ {
		o := wop{kind: rapid.SampledFrom(kinds).Draw(t, "op")}
		switch o.kind {
		case "line", "drop", "raw", "hookerr":
			sz := 0
			switch rapid.IntRange(0, 3).Draw(t, "sz-kind") {
			case 0:
				sz = rapid.IntRange(0, 30).Draw(t, "sz")
			case 1:
				sz = buf + rapid.IntRange(-20, 20).Draw(t, "delta")
			case 2:
				// exactly fills what is left of the buffer, or nearly so
				sz = buf - total%buf + rapid.IntRange(-2, 2).Draw(t, "delta")
			case 3:
				sz = rapid.IntRange(0, 3*buf).Draw(t, "sz")
			}
			if sz < 0 {
				sz = 0
			}
			o.data = pattern(sz, byte(i*31), dropMark, failMark)
			if o.kind == "drop" {
				o.data = append([]byte{dropMark}, o.data...)
			} else if o.kind == "hookerr" {
				o.data = append([]byte{failMark}, o.data...)
			}
			if o.kind == "line" || o.kind == "raw" {
				total += sz
			}
		case "zon":
			o.level = drawLevel(t)
		case "zbad":
			o.level = rapid.SampledFrom([]int{-3, 10, 100, -100}).Draw(t, "level")
		}
		ops = append(ops, o)
	}
	return ops
}

// wireModel is what has to be on the wire.
type wireModel struct {
	segs []wireSeg
}

type wireSeg struct {
	zlib   bool
	data   []byte
	closed bool
}

func (m *wireModel) cur() *wireSeg {
	if len(m.segs) == 0 {
		m.segs = append(m.segs, wireSeg{})
	}
	return &m.segs[len(m.segs)-1]
}

func (m *wireModel) zlibOn() bool { return len(m.segs) > 0 && m.segs[len(m.segs)-1].zlib }

func (m *wireModel) add(p []byte) {
	s := m.cur()
	s.data = append(s.data, p...)
}

func (m *wireModel) start() {
	m.cur().closed = true
	m.segs = append(m.segs, wireSeg{zlib: true})
}

func (m *wireModel) stop() {
	m.cur().closed = true
	m.segs = append(m.segs, wireSeg{})
}

// verify parses the wire with the standard library and compares it with the model.
func (m *wireModel) verify(wire []byte) error {
	br := bytes.NewReader(wire)
	for i, s := range m.segs {
		last := i == len(m.segs)-1
		if !s.zlib {
			buf := make([]byte, len(s.data))
			n, err := io.ReadFull(br, buf)
			if err != nil && len(s.data) > 0 {
				return fmt.Errorf("section %d (plain): only %d of %d bytes were delivered", i, n, len(s.data))
			}
			if !bytes.Equal(buf, s.data) {
				return fmt.Errorf("section %d (plain): %s", i, diffBytes(buf, s.data))
			}
			continue
		}
		if last && !s.closed && br.Len() == 0 && len(s.data) == 0 {
			continue // header not yet flushed
		}
		zr, err := zlib.NewReader(br)
		if err != nil {
			return fmt.Errorf("section %d: not a compressed section: %v", i, err)
		}
		var out bytes.Buffer
		_, err = io.Copy(&out, zr)
		if s.closed {
			if err != nil {
				return fmt.Errorf("section %d (compressed, closed): %v after %d of %d bytes", i, err, out.Len(), len(s.data))
			}
		} else if err != io.ErrUnexpectedEOF {
			return fmt.Errorf("section %d (compressed, open): expected it to be open, got %v after %d of %d bytes", i, err, out.Len(), len(s.data))
		}
		if !bytes.Equal(out.Bytes(), s.data) {
			return fmt.Errorf("section %d (compressed): %s", i, diffBytes(out.Bytes(), s.data))
		}
	}
	if br.Len() != 0 {
		return fmt.Errorf("%d unexpected bytes at the end of the wire", br.Len())
	}
	return nil
}

// sink counts the calls of the transport.
type sink struct {
	bytes.Buffer
	calls int
}

func (s *sink) Write(p []byte) (int, error) {
	s.calls++
	return s.Buffer.Write(p)
}

func TestL03_History(t *testing.T) {
	check(t, 2500, "random histories of line writes, raw writes, flushes, compression on (all levels)/off, rejected levels and dropped lines, with random buffer sizes and data sizes around them; non-trivial: at least one line or raw write and one compressed section or flush", func(c *C) {
		buf := rapid.SampledFrom([]int{0, 1, 16, 17, 64, 1000, 4096}).Draw(c.T, "buf")
		ops := drawOps(c.T, buf, 14, false)
		c.Key("buf=%d %v", buf, ops)
		var out sink
		w := lineproto.NewWriterSize(&out, buf)
		nh := rapid.IntRange(0, 3).Draw(c.T, "hooks")
		dropper := nh - 1 // the hook that refuses the line; the ones before it see it as well
		if nh > 1 {
			dropper = pick(c.T, "dropper", nh)
		}
		hooked := make([][]string, nh)
		for h := 0; h < nh; h++ {
			h := h
			w.OnLine(func(line []byte) (bool, error) {
				drop := len(line) != 0 && line[0] == dropMark
				if !drop || h <= dropper {
					hooked[h] = append(hooked[h], string(line))
				}
				return !drop || h != dropper, nil
			})
		}
		var m wireModel
		var lines, kept []string // all the lines, and those which were not dropped
		wrote, special := false, false
		for i, o := range ops {
			where := fmt.Sprintf("op %d %v", i, o)
			orig := append([]byte{}, o.data...)
			switch o.kind {
			case "line", "drop":
				if err := w.WriteLine(o.data); err != nil {
					c.Fatalf("%s: %v", where, err)
				}
				lines = append(lines, string(orig))
				if o.kind == "line" || nh == 0 {
					kept = append(kept, string(orig))
					m.add(orig)
					wrote = true
				} else {
					c.Label("dropped")
				}
			case "raw":
				n, err := w.Write(o.data)
				if err != nil || n != len(o.data) {
					c.Fatalf("%s: %d, %v", where, n, err)
				}
				m.add(orig)
				wrote = true
				if !m.zlibOn() {
					if err := m.verify(out.Bytes()); err != nil {
						c.Fatalf("%s: %v", where, err)
					}
				}
			case "flush":
				special = true
				if err := w.Flush(); err != nil {
					c.Fatalf("%s: %v", where, err)
				}
				if err := m.verify(out.Bytes()); err != nil {
					c.Fatalf("%s: %v", where, err)
				}
			case "zon":
				err := w.EnableZlibLevel(o.level)
				if o.level == -1 && rapid.Bool().Draw(c.T, "again") {
					// the short form must behave like the default level
					if err2 := w.EnableZlib(); err2 == nil {
						c.Fatalf("%s: enabling zlib twice succeeded", where)
					}
				}
				if m.zlibOn() {
					if err == nil {
						c.Fatalf("%s: enabling zlib twice succeeded", where)
					}
					break
				}
				if err != nil {
					c.Fatalf("%s: %v", where, err)
				}
				m.start()
				special = true
				c.Label("compressed section")
			case "zbad":
				err := w.EnableZlibLevel(o.level)
				if err == nil {
					c.Fatalf("%s: invalid level was accepted", where)
				}
			case "zoff":
				err := w.DisableZlib()
				if !m.zlibOn() {
					if err == nil {
						c.Fatalf("%s: zlib is off, but disabling it succeeded", where)
					}
					break
				}
				if err != nil {
					c.Fatalf("%s: %v", where, err)
				}
				m.stop()
				if err := m.verify(out.Bytes()); err != nil {
					c.Fatalf("%s: %v", where, err)
				}
			}
			if !bytes.Equal(orig, o.data) {
				c.Fatalf("%s: the writer modified the caller's data", where)
			}
			// the caller may reuse its buffer as soon as the call returns
			for k := range o.data {
				o.data[k] = 0xAA
			}
		}
		if err := w.Err(); err != nil {
			c.Fatalf("unexpected sticky error: %v", err)
		}
		c.NonTrivial(wrote && special)
		if err := w.Close(); err != nil {
			c.Fatalf("close: %v", err)
		}
		if m.zlibOn() {
			m.cur().closed = true
			c.Label("closed while compressing")
		}
		if err := m.verify(out.Bytes()); err != nil {
			c.Fatalf("after close: %v", err)
		}
		for h := range hooked {
			want := lines
			if h > dropper {
				want = kept
			}
			if fmt.Sprint(hooked[h]) != fmt.Sprint(want) {
				c.Fatalf("hook %d saw %d lines instead of %d", h, len(hooked[h]), len(want))
			}
		}
		size := out.Len()
		for i := 0; i < 2; i++ {
			if w.WriteLine([]byte("x|")) == nil || w.Flush() == nil || w.EnableZlib() == nil || w.DisableZlib() == nil || w.Err() == nil {
				c.Fatalf("an operation on a closed writer succeeded")
			}
			if _, err := w.Write([]byte("x")); err == nil {
				c.Fatalf("a raw write on a closed writer succeeded")
			}
			if err := guard(func() { _ = w.Close() }); err != nil {
				c.Fatalf("closing twice: %v", err)
			}
		}
		if out.Len() != size {
			c.Fatalf("a closed writer wrote %d bytes", out.Len()-size)
		}
	})
}

// ---------------------------------------------------------------- L06

// faultySink fails after a number of bytes; the write that crosses the limit is partial.
type faultySink struct {
	bytes.Buffer
	limit  int // -1: never
	calls  int
	failed bool
	once   bool   // recovers after the failure (a writer that stops properly never notices)
	before func() // called before each write
}

func (s *faultySink) Write(p []byte) (int, error) {
	s.calls++
	if s.before != nil {
		s.before()
	}
	if s.failed && !s.once {
		return 0, errInjected
	}
	if !s.failed && s.limit >= 0 && s.Len()+len(p) > s.limit {
		n := s.limit - s.Len()
		s.Buffer.Write(p[:n])
		s.failed = true
		return n, errInjected
	}
	return s.Buffer.Write(p)
}

var errTimeout = errors.New("injected timeout callback failure")

type l06run struct {
	sink    *faultySink
	w       *lineproto.Writer
	armed   int
	disarm  int
	calls   int
	failAt  int // timeout callback call that fails (arming calls only), -1: never
	failed  bool
	timeout bool
	covered bool // the running operation is one that the timeout must cover
	naked   int  // transport writes of such operations outside of the timeout
}

func newL06(buf, limit, failAt int, timeout, once bool) *l06run {
	r := &l06run{sink: &faultySink{limit: limit, once: once}, failAt: failAt, timeout: timeout}
	r.sink.before = func() {
		if r.covered && r.armed <= r.disarm {
			r.naked++
		}
	}
	r.w = lineproto.NewWriterSize(r.sink, buf)
	r.attach()
	return r
}

func (r *l06run) attach() {
	if r.timeout {
		r.w.Timeout = func(enable bool) error {
			if !enable {
				r.disarm++
				return nil
			}
			r.calls++
			if r.failAt >= 0 && r.calls-1 == r.failAt {
				r.failed = true
				return errTimeout
			}
			r.armed++
			return nil
		}
	}
	r.w.OnLine(func(line []byte) (bool, error) {
		if len(line) > 0 && line[0] == failMark {
			r.failed = true
			return false, errHook
		}
		return len(line) == 0 || line[0] != dropMark, nil
	})
}

func (r *l06run) do(o wop) (err error) {
	r.covered = r.timeout && (o.kind == "line" || o.kind == "drop" || o.kind == "hookerr" || o.kind == "flush")
	defer func() { r.covered = false }()
	switch o.kind {
	case "line", "drop", "hookerr":
		return r.w.WriteLine(append([]byte{}, o.data...))
	case "raw":
		n, err := r.w.Write(append([]byte{}, o.data...))
		if err == nil && n != len(o.data) {
			return io.ErrShortWrite
		}
		return err
	case "flush":
		return r.w.Flush()
	case "zon", "zbad":
		return r.w.EnableZlibLevel(o.level)
	case "zoff":
		return r.w.DisableZlib()
	}
	panic(o.kind)
}

func TestL06_Faults(t *testing.T) {
	check(t, 3000, "random writer histories with a transport failure at a random byte, a failing write hook, or a failing timeout callback, compared with the fault-free run of the same history; non-trivial: the fault was hit", func(c *C) {
		buf := rapid.SampledFrom([]int{0, 16, 64, 1000}).Draw(c.T, "buf")
		ops := drawOps(c.T, buf, 14, true)
		// the last operations make sure that buffered data is pushed out
		ops = append(ops, wop{kind: "flush"})
		kind := rapid.SampledFrom([]string{"transport", "transport", "timeout", "hook"}).Draw(c.T, "fault")
		timeout := kind == "timeout" || rapid.Bool().Draw(c.T, "timeoutSet")
		limit, failAt := -1, -1
		if kind != "hook" {
			for i := range ops {
				if ops[i].kind == "hookerr" {
					ops[i].kind = "line"
					ops[i].data[0] = 'L'
				}
			}
		}
		switch kind {
		case "transport":
			// learn the length of the wire to place the fault inside it
			ref := newL06(buf, -1, -1, timeout, false)
			for _, o := range ops {
				_ = ref.do(o)
			}
			_ = ref.w.Close()
			limit = rapid.IntRange(0, ref.sink.Len()).Draw(c.T, "limit")
		case "timeout":
			failAt = rapid.IntRange(0, len(ops)).Draw(c.T, "failAt")
		}
		once := rapid.Bool().Draw(c.T, "recovers")
		c.Key("buf=%d fault=%s limit=%d failAt=%d once=%v timeout=%v %v", buf, kind, limit, failAt, once, timeout, ops)
		run := newL06(buf, limit, failAt, timeout, once)
		failedAt := -1
		var failErr error
		calls := 0
		for i, o := range ops {
			var err error
			if perr := guard(func() { err = run.do(o) }); perr != nil {
				c.Fatalf("op %d %v: %v", i, o, perr)
			}
			if run.armed != run.disarm {
				c.Fatalf("op %d %v: timeout armed %d times, disarmed %d times", i, o, run.armed, run.disarm)
			}
			if run.naked > 0 {
				c.Fatalf("op %d %v wrote to the transport while the timeout was not armed", i, o)
			}
			hit := run.sink.failed || run.failed
			if failedAt >= 0 {
				if err == nil {
					c.Fatalf("op %d %v succeeded after op %d had failed with %v", i, o, failedAt, failErr)
				}
				if run.sink.calls != calls {
					c.Fatalf("op %d %v touched the transport after op %d had failed", i, o, failedAt)
				}
				continue
			}
			if hit {
				failedAt = i
				failErr = err
				calls = run.sink.calls
				want := errInjected
				if kind == "timeout" {
					want = errTimeout
				} else if kind == "hook" {
					want = errHook
				}
				if !errors.Is(err, want) {
					c.Fatalf("op %d %v met the failure %q, but returned %v", i, o, want, err)
				}
				if serr := run.w.Err(); !errors.Is(serr, want) {
					c.Fatalf("op %d %v failed with %v, but the remembered error is %v", i, o, err, serr)
				}
			}
		}
		c.NonTrivial(failedAt >= 0)
		if failedAt >= 0 {
			c.Label("fault in %s at %s", kind, ops[failedAt].kind)
		}
		// the stream without the fault
		ref := newL06(buf, -1, -1, timeout, false)
		for i, o := range ops {
			if i == failedAt && kind != "transport" {
				break
			}
			_ = ref.do(o)
			if i == failedAt {
				break
			}
		}
		_ = ref.w.Close()
		exp := ref.sink.Bytes()
		if !bytes.HasPrefix(exp, run.sink.Bytes()) {
			c.Fatalf("delivered bytes are not a prefix of the stream without the fault: %s", diffBytes(run.sink.Bytes(), exp))
		}
		for i := 0; i < 3; i++ {
			if perr := guard(func() { _ = run.w.Close() }); perr != nil {
				c.Fatalf("close #%d: %v", i+1, perr)
			}
			if kind == "transport" && failedAt >= 0 && run.sink.calls != calls {
				c.Fatalf("close #%d touched the broken transport", i+1)
			}
		}
		if !bytes.HasPrefix(exp, run.sink.Bytes()) {
			c.Fatalf("after close: delivered bytes are not a prefix of the stream without the fault: %s", diffBytes(run.sink.Bytes(), exp))
		}
		if run.w.Err() == nil {
			c.Fatalf("no error is remembered after close")
		}
		if run.armed != run.disarm {
			c.Fatalf("after close: timeout armed %d times, disarmed %d times", run.armed, run.disarm)
		}
	})
}

// TestL06_CloseFault hits the failure inside Close.
func TestL06_CloseFault(t *testing.T) {
	check(t, 1500, "histories without a final flush whose transport fails while the writer is closed; non-trivial: the fault was hit in Close", func(c *C) {
		buf := rapid.SampledFrom([]int{0, 16, 1000}).Draw(c.T, "buf")
		ops := drawOps(c.T, buf, 8, false)
		ref := newL06(buf, -1, -1, false, false)
		for _, o := range ops {
			_ = ref.do(o)
		}
		before := ref.sink.Len()
		_ = ref.w.Close()
		after := ref.sink.Len()
		limit := before
		if after > before {
			limit = rapid.IntRange(before, after-1).Draw(c.T, "limit")
		}
		c.Key("buf=%d limit=%d/%d %v", buf, limit, after, ops)
		run := newL06(buf, limit, -1, false, false)
		for _, o := range ops {
			_ = run.do(o)
		}
		var err error
		if perr := guard(func() { err = run.w.Close() }); perr != nil {
			c.Fatalf("close: %v", perr)
		}
		c.NonTrivial(run.sink.failed)
		if run.sink.failed && !errors.Is(err, errInjected) {
			c.Fatalf("the transport failed during close, but close returned %v", err)
		}
		if !bytes.HasPrefix(ref.sink.Bytes(), run.sink.Bytes()) {
			c.Fatalf("delivered bytes are not a prefix")
		}
		if perr := guard(func() { _ = run.w.Close() }); perr != nil {
			c.Fatalf("second close: %v", perr)
		}
	})
}

// TestL06_Protocols checks that the protocol writers stop after a failure as well.
func TestL06_Protocols(t *testing.T) {
	check(t, 2500, "histories of NMDC and ADC writer calls over a transport that fails at a random byte; non-trivial: the fault was hit before the last call", func(c *C) {
		limit := rapid.IntRange(0, 250).Draw(c.T, "limit")
		isADC := rapid.Bool().Draw(c.T, "adc")
		// 0..4 messages (1: several at once or a stream, 2: keep-alive), 5..7 flush, 8 compression on, 9 compression off, 10 raw line, 11 direct write
		ops := rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 4, 5, 5, 5, 8, 9, 10, 11}), 1, 12).Draw(c.T, "ops")
		size := rapid.SampledFrom([]int{0, 0, 16, 40, 100}).Draw(c.T, "size")
		c.Key("adc=%v limit=%d size=%d ops=%v", isADC, limit, size, ops)
		write := func(s *faultySink, observe bool) (failedAt int) {
			failedAt = -1
			nw, aw := nmdc.NewWriterSize(s, size), adc.NewWriterSize(s, size)
			lw := nw.Writer
			if isADC {
				lw = aw.Writer
			}
			on, calls := false, 0
			for i, op := range ops {
				text := string(pattern(20+i, 'a', '|', '\n', ' ', '$', '&', '\\', 0))
				var err error
				sid := adc.SID{'A', 'A', 'A', 'A'}
				st := adc.Status{Code: i, Msg: text}
				raw := &nmdc.RawMessage{Typ: "X", Data: []byte(text)}
				wasOn := on
				switch {
				case op == 0 && isADC:
					err = aw.WriteInfo(st)
				case op == 1 && isADC:
					err = aw.BroadcastStream(sid).WriteMessage(st)
				case op == 3 && isADC:
					err = aw.WriteDirect(sid, sid, st)
				case op == 4 && isADC:
					err = aw.WritePacket(&adc.HubPacket{Msg: st})
				case op == 2 && isADC:
					err = aw.WriteKeepAlive()
				case op == 5 && isADC:
					err = aw.Flush()
				case op == 2:
					err = nw.WriteKeepAlive()
				case op == 1:
					err = nw.WriteMsg(raw, raw, raw)
				case op < 5:
					err = nw.WriteMsg(raw)
				case op == 5:
					err = nw.Flush()
				case op == 8 && on || op == 9 && !on:
					if failedAt < 0 {
						continue // would be a misuse
					}
					if op == 8 {
						err = lw.EnableZlib()
					} else {
						err = lw.DisableZlib()
					}
				case op == 8:
					if isADC {
						err = lw.EnableZlib()
					} else if i%2 == 0 {
						err = nw.ZOn()
					} else {
						err = nw.ZOnLevel(1 + i%9)
					}
					on = true
				case op == 9:
					err = lw.DisableZlib()
					on = false
				case op == 10:
					err = lw.WriteLine([]byte(text + "|"))
				case op == 11:
					_, err = lw.Write([]byte(text))
				}
				if !observe {
					if err != nil {
						c.Fatalf("call %d (%d) of the history without faults: %v", i, op, err)
					}
					continue
				}
				if failedAt >= 0 {
					on = wasOn
					if err == nil {
						c.Fatalf("call %d (%d) succeeded after the failure in call %d", i, op, failedAt)
					}
					if s.calls != calls {
						c.Fatalf("call %d (%d) touched the transport after the failure in call %d", i, op, failedAt)
					}
					continue
				}
				if s.failed {
					if err == nil {
						c.Fatalf("call %d (%d): the failure was not reported", i, op)
					}
					failedAt, calls, on = i, s.calls, wasOn
				} else if err != nil {
					c.Fatalf("call %d (%d) failed without a fault: %v", i, op, err)
				}
			}
			return failedAt
		}
		s := &faultySink{limit: limit, once: rapid.Bool().Draw(c.T, "recovers")}
		at := write(s, true)
		c.NonTrivial(at >= 0 && at < len(ops)-1)
		if at >= 0 {
			c.Label("failed in %d", ops[at])
		}
		ref := &faultySink{limit: -1}
		write(ref, false)
		if !bytes.HasPrefix(ref.Bytes(), s.Bytes()) {
			c.Fatalf("delivered bytes are not a prefix: %s", diffBytes(s.Bytes(), ref.Bytes()))
		}
	})
}
