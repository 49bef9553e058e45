package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- N05

// nLine is a line of a generated NMDC stream and what must become of it.
type nLine struct {
	kind string // "ka", "null", "badname", "bad", "msg"
	line string // without the delimiter
	typ  string
	msg  nmdc.Message
}

func (l nLine) cmdArgs() (cmd, args []byte) {
	if l.line == "" || l.line[0] != '$' {
		return nil, []byte(l.line)
	}
	if i := strings.IndexByte(l.line, ' '); i >= 0 {
		return []byte(l.line[1:i]), []byte(l.line[i+1:])
	}
	return []byte(l.line[1:]), nil
}

func showCmd(cmd, args []byte) string {
	c := fmt.Sprintf("%q", cmd)
	if cmd == nil {
		c = "chat"
	}
	return fmt.Sprintf("%s %q", c, args)
}

// lines whose payload cannot be decoded
var undecodable = []struct{ typ, line string }{
	{"Direction", "$Direction Sideways 1"}, {"Direction", "$Direction Upload 0"}, {"SR", "$SR nothing"}, {"SR", "$SR"}, {"To:", "$To: nobody"},
	{"GetNickList", "$GetNickList now"}, {"ZOn", "$ZOn  "}, {"MyINFO", "$MyINFO $ALL x"}, {"MyINFO", "$MyINFO"}, {"Hello", "$Hello a\tb"}, {"Hello", "$Hello a$b"},
	{"HubName", "$HubName \xff\xfe"}, {"Search", "$Search 1.1.1.1:1 T?F?0?1"}, {"Search", "$Search"}, {"ADCGET", "$ADCGET file x"}, {"ADCSND", "$ADCSND file TTH/x a b"},
	{"SA", "$SA ABC"}, {"SP", "$SP ABC user"}, {"ConnectToMe", "$ConnectToMe"}, {"RevConnectToMe", "$RevConnectToMe one"}, {"UserCommand", "$UserCommand x"},
	{"MCTo", "$MCTo a b"}, {"", "<no end of the name"}, {"", "text \xff"}, {"", "<na\tme> text"}, {"HubINFO", "$HubINFO a$b$c$x"}, {"OpList", "$OpList a$b$$"},
}

// nameChars may be part of a command name.
const nameChars = "abczABCZ0189/-_.:"

func drawNLine(t *rapid.T, maxCmd int) nLine {
	l := drawNLineAny(t)
	l.fixName(maxCmd)
	return l
}

// fixName accounts for a command name that is too long for the reader.
func (l *nLine) fixName(maxCmd int) {
	if l.kind == "msg" || l.kind == "bad" {
		if len(l.typ) > maxCmd {
			l.kind, l.msg = "badname", nil
		}
	}
}

func drawNLineAny(t *rapid.T) nLine {
	switch rapid.IntRange(0, 11).Draw(t, "line") {
	case 0:
		return nLine{kind: "ka"}
	case 1: // command names at the limits of what is allowed
		name := ""
		switch rapid.IntRange(0, 2).Draw(t, "name-kind") {
		case 0:
			n := rapid.SampledFrom([]int{1, 2, 5, 31, 32, 33, 40, 41, 64, 65, 300}).Draw(t, "name-len")
			name = strings.Repeat(rapid.SampledFrom(strings.Split(nameChars, "")).Draw(t, "name-char"), n)
		case 1:
			bad := rapid.SampledFrom([]string{"", "!", "@", "[", "`", "~", "{", "\x7f", "\x80", "é", "$", "<", "\t", "\r", "\n", "+", "*", "\\", "^", "=", ",", ";", "?", "&", "\x01"}).Draw(t, "bad")
			a := rapid.SampledFrom([]string{"", "Hello", "a"}).Draw(t, "name-a")
			b := rapid.SampledFrom([]string{"", "Hello", "a"}).Draw(t, "name-b")
			name = a + bad + b
		case 2:
			name = rapid.StringMatching(`[a-zA-Z0-9/_.:\-]{1,34}`).Draw(t, "name")
		}
		args := rapid.SampledFrom([]string{"", " ", " x", "  y "}).Draw(t, "name-args")
		l := nLine{kind: "msg", line: "$" + name + args, typ: name}
		if name == "" || strings.Trim(name, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/-_.:") != "" {
			return nLine{kind: "badname", line: l.line}
		}
		_, data := l.cmdArgs()
		if nmdc.IsRegistered(name) {
			// only names of commands that take any text
			if name != "Hello" {
				return nLine{kind: "ka"}
			}
			l.msg = &nmdc.Hello{Name: nmdc.Name(data)}
			return l
		}
		l.msg = &nmdc.RawMessage{Typ: name, Data: data}
		return l
	case 2:
		i := rapid.IntRange(0, 8).Draw(t, "null-at")
		s := rapid.SampledFrom([]string{"$Hello name", "<name> text", "$X y", "text"}).Draw(t, "null-line")
		if i > len(s) {
			i = len(s)
		}
		return nLine{kind: "null", line: s[:i] + "\x00" + s[i:]}
	case 3, 4:
		u := rapid.SampledFrom(undecodable).Draw(t, "undecodable")
		return nLine{kind: "bad", line: u.line, typ: u.typ}
	case 5:
		m := drawRawMsg(t)
		return nLine{kind: "msg", typ: m.Typ, msg: m, line: strings.TrimSuffix(kindOf(m).line(nUTF8, m), "|")}
	case 6, 7:
		// repeat the same few types, so that reads into given messages often match
		typ := rapid.SampledFrom([]string{"Hello", "Lock", "ConnectToMe", "", "ADCGET", "Failed", "MyINFO"}).Draw(t, "typ")
		k := nKindByType[typ]
		m := k.draw(t, nUTF8)
		return nLine{kind: "msg", typ: typ, msg: m, line: strings.TrimSuffix(k.line(nUTF8, m), "|")}
	}
	k := nKinds[pick(t, "type", len(nKinds))]
	m := k.draw(t, nUTF8)
	return nLine{kind: "msg", typ: k.typ, msg: m, line: strings.TrimSuffix(k.line(nUTF8, m), "|")}
}

var (
	errRawHook = errors.New("raw hook error")
	errMsgHook = errors.New("message hook error")
	errKAHook  = errors.New("keep-alive error")
	errDecHook = errors.New("decode-error callback error")
)

// decision of a hook for one line
const (
	dPass = iota
	dDrop
	dErr
)

func drawDecision(t *rapid.T, label string) int {
	return rapid.SampledFrom([]int{dPass, dPass, dPass, dPass, dDrop, dErr}).Draw(t, label)
}

// nTarget is a message supplied by the caller.
func drawTarget(t *rapid.T, next string) nmdc.Message {
	typ := rapid.SampledFrom([]string{next, next, "Hello", "Lock", "", "ADCGET", "MyINFO", "Foo"}).Draw(t, "target")
	if (typ != "" && rapid.IntRange(0, 7).Draw(t, "target-raw") == 0) || !nmdc.IsRegistered(typ) {
		return &nmdc.RawMessage{Typ: typ}
	}
	return nmdc.NewMessage(typ)
}

func TestN05_Dispatch(t *testing.T) {
	check(t, 5000, "at least two lines, and a hook drops one, a callback fires or a given message is read", func(c *C) {
		maxCmd := rapid.SampledFrom([]int{32, 32, 32, 1, 5, 7, 12, 33, 40, 64, 1000}).Draw(c.T, "maxCmd")
		n := rapid.IntRange(1, 10).Draw(c.T, "n")
		var lines []nLine
		var stream []byte
		for i := 0; i < n; i++ {
			l := drawNLine(c.T, maxCmd)
			lines = append(lines, l)
			stream = append(append(stream, l.line...), '|')
		}
		c.Key("%q max=%d;", clip(string(stream), 1500), maxCmd)

		// what the hooks decide for each line
		nRawHooks, nMsgHooks := rapid.IntRange(0, 3).Draw(c.T, "rawHooks"), rapid.IntRange(0, 3).Draw(c.T, "msgHooks")
		kaCB, decCB := rapid.Bool().Draw(c.T, "kaCB"), rapid.Bool().Draw(c.T, "decCB")
		rawDec, msgDec := make([][]int, n), make([][]int, n)
		kaErr, decRes := make([]bool, n), make([]int, n)
		for i := range lines {
			for h := 0; h < nRawHooks; h++ {
				rawDec[i] = append(rawDec[i], drawDecision(c.T, "raw"))
			}
			for h := 0; h < nMsgHooks; h++ {
				msgDec[i] = append(msgDec[i], drawDecision(c.T, "msg"))
			}
			kaErr[i] = rapid.IntRange(0, 5).Draw(c.T, "kaErr") == 0
			decRes[i] = rapid.SampledFrom([]int{dDrop, dDrop, dErr}).Draw(c.T, "decRes")
		}
		c.Key("%v %v %v %v %v;", rawDec, msgDec, kaCB, decCB, decRes)

		r := nmdc.NewReader(drawEOFReader(c.T, stream))
		r.SetMaxLine(0)
		if maxCmd != 32 || rapid.Bool().Draw(c.T, "setMax") {
			r.SetMaxCmdName(maxCmd)
		}
		at := -1
		r.OnLine(func([]byte) (bool, error) { at++; return true, nil })
		var log []string
		note := func(format string, args ...interface{}) { log = append(log, fmt.Sprintf(format, args...)) }
		for h := 0; h < nRawHooks; h++ {
			h := h
			r.OnRawMessage(func(cmd, args []byte) (bool, error) {
				note("raw%d %s", h, showCmd(cmd, args))
				switch rawDec[at][h] {
				case dDrop:
					return false, nil
				case dErr:
					return true, errRawHook
				}
				return true, nil
			})
		}
		for h := 0; h < nMsgHooks; h++ {
			h := h
			r.OnMessage(func(m nmdc.Message) (bool, error) {
				note("msg%d %s", h, nShow(nNorm(m)))
				switch msgDec[at][h] {
				case dDrop:
					return false, nil
				case dErr:
					return true, errMsgHook
				}
				return true, nil
			})
		}
		if kaCB {
			r.OnKeepAlive = func() error {
				note("ka")
				if kaErr[at] {
					return errKAHook
				}
				return nil
			}
		}
		if decCB {
			r.OnUnmarshalError = func(text []byte, err error) (bool, error) {
				if err == nil {
					c.Fatalf("decode-error callback without an error")
				}
				note("bad %q", text)
				if decRes[at] == dDrop {
					return false, nil
				}
				return true, errDecHook
			}
		}

		pos := 0
		interesting := false
		for call := 0; ; call++ {
			if call > n+1 {
				c.Fatalf("%q: reading does not end", clip(string(stream), 1000))
			}
			next := ""
			for i := pos; i < n; i++ {
				if lines[i].kind == "msg" {
					next = lines[i].typ
					break
				}
			}
			var targets []nmdc.Message
			mode := rapid.IntRange(0, 3).Draw(c.T, "call")
			switch mode {
			case 2:
				targets = append(targets, drawTarget(c.T, next))
			case 3:
				for i := rapid.IntRange(1, 3).Draw(c.T, "targets"); i > 0; i-- {
					targets = append(targets, drawTarget(c.T, next))
				}
				for i, a := range targets {
					for _, b := range targets[:i] {
						if a.Type() == b.Type() {
							mode = 2
						}
					}
					if raw, ok := a.(*nmdc.RawMessage); ok {
						// a raw message among several takes any command
						if raw.Typ != next {
							mode = 2
						}
						for j := pos; j < n; j++ {
							if lines[j].typ != raw.Typ {
								mode = 2
							}
						}
					}
				}
				if mode == 2 {
					targets = targets[:1]
				}
			}

			// the model
			var (
				want    []string
				wantMsg nmdc.Message
				wantErr string
				exp     *nmdc.ErrUnexpectedCommand
				target  nmdc.Message
			)
			wnote := func(format string, args ...interface{}) { want = append(want, fmt.Sprintf(format, args...)) }
		lines:
			for {
				if pos >= n {
					wantErr = "EOF"
					break
				}
				i, l := pos, lines[pos]
				pos++
				if l.kind == "null" {
					wantErr = "protocol"
					break
				}
				if l.kind == "ka" {
					if kaCB {
						interesting = true
						wnote("ka")
						if kaErr[i] {
							wantErr = errKAHook.Error()
							break
						}
					}
					continue
				}
				cmd, args := l.cmdArgs()
				for h := 0; h < nRawHooks; h++ {
					wnote("raw%d %s", h, showCmd(cmd, args))
					if rawDec[i][h] == dDrop {
						interesting = true
						continue lines
					}
					if rawDec[i][h] == dErr {
						wantErr = errRawHook.Error()
						break lines
					}
				}
				if l.kind == "badname" {
					wantErr = "protocol"
					break
				}
				target = nil
				if len(targets) > 0 {
					interesting = true
					for _, m := range targets {
						if m.Type() == l.typ {
							target = m
							break
						}
					}
					if target == nil {
						wantErr = "unexpected"
						exp = &nmdc.ErrUnexpectedCommand{Expected: targets[0].Type(), Received: &nmdc.RawMessage{Typ: l.typ, Data: args}}
						break
					}
				}
				bad := l.kind == "bad"
				msg := l.msg
				if raw, ok := target.(*nmdc.RawMessage); ok {
					bad, msg = false, &nmdc.RawMessage{Typ: raw.Typ, Data: args}
				}
				if bad {
					if !decCB {
						wantErr = "decode"
						break
					}
					interesting = true
					wnote("bad %q", l.line)
					if decRes[i] == dDrop {
						continue
					}
					wantErr = errDecHook.Error()
					break
				}
				for h := 0; h < nMsgHooks; h++ {
					wnote("msg%d %s", h, nShow(nNorm(msg)))
					if msgDec[i][h] == dDrop {
						interesting = true
						continue lines
					}
					if msgDec[i][h] == dErr {
						wantErr = errMsgHook.Error()
						break lines
					}
				}
				wantMsg = msg
				break
			}

			// the reader
			log = nil
			var got nmdc.Message
			var err error
			what := ""
			switch {
			case mode < 2:
				what = "ReadMsg"
				got, err = r.ReadMsg()
			case mode == 2:
				what = "ReadMsgTo"
				err = r.ReadMsgTo(targets[0])
				got = targets[0]
			default:
				what = "ReadMsgToAny"
				got, err = r.ReadMsgToAny(targets...)
				if err == nil && got != target {
					c.Fatalf("%q: ReadMsgToAny returned %p, want the given message %p", clip(string(stream), 1000), got, target)
				}
			}
			c.Label("%s:%s", what, map[bool]string{true: "ok", false: "error"}[err == nil])
			where := fmt.Sprintf("%q (max name %d), call %d (%s %v)", clip(string(stream), 1500), maxCmd, call, what, targets)
			if !reflect.DeepEqual(log, want) {
				c.Fatalf("%s: callbacks\n got %q\nwant %q", where, log, want)
			}
			if wantErr == "" {
				if err != nil {
					c.Fatalf("%s: failed: %v, want %s", where, err, nShow(wantMsg))
				}
				if !nEqual(got, wantMsg) {
					c.Fatalf("%s:\n got %s\nwant %s", where, nShow(got), nShow(wantMsg))
				}
				continue
			}
			if err == nil {
				c.Fatalf("%s: got %s, want error %q", where, nShow(got), wantErr)
			}
			if mode != 2 && got != nil {
				c.Fatalf("%s: error %v together with message %s", where, err, nShow(got))
			}
			switch wantErr {
			case "EOF":
				if err != io.EOF {
					c.Fatalf("%s: %v at the end, want EOF", where, err)
				}
				c.NonTrivial(n > 1 && interesting)
				return
			case "protocol":
				if _, ok := err.(*lineproto.ErrProtocolViolation); !ok {
					c.Fatalf("%s: %T %v, want a protocol violation", where, err, err)
				}
			case "unexpected":
				e, ok := err.(*nmdc.ErrUnexpectedCommand)
				if !ok {
					c.Fatalf("%s: %T %v, want ErrUnexpectedCommand", where, err, err)
				}
				if e.Expected != exp.Expected || e.Received == nil || e.Received.Typ != exp.Received.Typ || !bytes.Equal(e.Received.Data, exp.Received.Data) {
					c.Fatalf("%s: reports expected %q, received %+v; want %q, %+v", where, e.Expected, e.Received, exp.Expected, exp.Received)
				}
				for _, name := range []string{exp.Expected, exp.Received.Typ} {
					if !strings.Contains(err.Error(), strings.Trim(strconv.Quote(name), `"`)) {
						c.Fatalf("%s: the error text %q does not name %q", where, err, name)
					}
				}
			case "decode":
				switch err {
				case io.EOF, errRawHook, errMsgHook, errKAHook, errDecHook:
					c.Fatalf("%s: %v, want a decoding error", where, err)
				}
			default:
				if err.Error() != wantErr {
					c.Fatalf("%s: error %v, want %q", where, err, wantErr)
				}
			}
		}
	})
}

func TestN05_Registry(t *testing.T) {
	check(t, 1000, "a registered type", func(c *C) {
		typ := rapid.SampledFrom(append(nmdc.RegisteredTypes(), "x", "Foo", "lock", " ", "\x00")).Draw(c.T, "typ")
		if rapid.IntRange(0, 3).Draw(c.T, "any") == 0 {
			typ = rapid.String().Draw(c.T, "typ")
		}
		c.Key("%q", typ)
		_, known := nKindByType[typ]
		for _, rt := range nmdc.RegisteredTypes() {
			if rt == typ {
				known = true
			}
		}
		c.NonTrivial(known)
		if nmdc.IsRegistered(typ) != known || nmdc.IsRegisteredBytes([]byte(typ)) != known {
			c.Fatalf("IsRegistered(%q) is not %v", typ, known)
		}
		m := nmdc.NewMessage(typ)
		if m.Type() != typ {
			c.Fatalf("NewMessage(%q) has the type %q", typ, m.Type())
		}
		if _, raw := m.(*nmdc.RawMessage); raw == known {
			c.Fatalf("NewMessage(%q) is a %T", typ, m)
		}
		if m2 := nmdc.NewMessage(typ); known && reflect.TypeOf(m).Elem().Size() > 0 && m2 == m {
			c.Fatalf("NewMessage(%q) returns the same message twice", typ)
		}
	})
}

// TestN05_Skipped reads into a message given by the caller while hooks skip messages of the same type.
func TestN05_Skipped(t *testing.T) {
	check(t, 3000, "a message is skipped before one of the same type", func(c *C) {
		k := nKinds[pick(c.T, "type", len(nKinds))]
		if rapid.IntRange(0, 3).Draw(c.T, "optional") > 0 {
			k = nKindByType[rapid.SampledFrom([]string{"ConnectToMe", "ADCGET", "ADCSND", "Failed", "Error", "MyINFO", "SR", "Search", "", "Lock", "HubINFO", "UserCommand", "UserIP"}).Draw(c.T, "optional-type")]
		}
		bads := []string{}
		for _, u := range undecodable {
			if u.typ == k.typ {
				bads = append(bads, u.line)
			}
		}
		n := rapid.IntRange(2, 5).Draw(c.T, "n")
		var stream []byte
		var want []nmdc.Message
		var drop []bool
		for i := 0; i < n; i++ {
			if len(bads) > 0 && rapid.IntRange(0, 4).Draw(c.T, "bad") == 0 {
				stream = append(stream, rapid.SampledFrom(bads).Draw(c.T, "bad-line")...)
				stream = append(stream, '|')
				continue
			}
			m := k.draw(c.T, nUTF8)
			d := rapid.Bool().Draw(c.T, "drop")
			stream = append(stream, k.line(nUTF8, m)...)
			drop = append(drop, d)
			if !d {
				want = append(want, m)
			}
			c.NonTrivial(i > 0 && !d && (len(drop) < i+1 || drop[len(drop)-2]))
		}
		c.Key("%q %v", clip(string(stream), 1500), drop)
		r := nmdc.NewReader(drawEOFReader(c.T, stream))
		r.SetMaxLine(0)
		i := 0
		r.OnMessage(func(m nmdc.Message) (bool, error) { i++; return !drop[i-1], nil })
		r.OnUnmarshalError = func([]byte, error) (bool, error) { return false, nil }
		any := rapid.Bool().Draw(c.T, "any")
		for _, m := range want {
			got := nmdc.NewMessage(k.typ)
			var err error
			if any {
				_, err = r.ReadMsgToAny(got, &nmdc.RawMessage{Typ: "Unrelated"})
			} else {
				err = r.ReadMsgTo(got)
			}
			if err != nil {
				c.Fatalf("%q (dropped %v): %v", clip(string(stream), 1500), drop, err)
			}
			if !nEqual(got, m) {
				c.Fatalf("%q (dropped %v):\n got %s\nwant %s", clip(string(stream), 1500), drop, nShow(got), nShow(m))
			}
		}
		if err := r.ReadMsgTo(nmdc.NewMessage(k.typ)); err != io.EOF {
			c.Fatalf("%q: %v at the end, want EOF", clip(string(stream), 1500), err)
		}
	})
}

// mineMsg and noneMsg are messages that a user of the library adds.
type mineMsg struct {
	N    int
	Text string
}

type noneMsg struct{}

func (*mineMsg) Type() string { return "My_Own-1" }

func (m *mineMsg) MarshalNMDC(enc *nmdc.TextEncoder, buf *bytes.Buffer) error {
	if m.N == 99 {
		return errMine
	}
	fmt.Fprintf(buf, "%d ", m.N)
	return nmdc.String(m.Text).MarshalNMDC(enc, buf)
}

func (m *mineMsg) UnmarshalNMDC(dec *nmdc.TextDecoder, data []byte) error {
	i := bytes.IndexByte(data, ' ')
	if i < 0 {
		return errMine
	}
	n, err := strconv.Atoi(string(data[:i]))
	if err != nil || n == 98 {
		return errMine
	}
	var s nmdc.String
	if err := s.UnmarshalNMDC(dec, data[i+1:]); err != nil {
		return err
	}
	m.N, m.Text = n, string(s)
	return nil
}

func (noneMsg) Type() string                                               { return "My.None" }
func (noneMsg) MarshalNMDC(enc *nmdc.TextEncoder, buf *bytes.Buffer) error { return nil }
func (noneMsg) UnmarshalNMDC(dec *nmdc.TextDecoder, data []byte) error {
	if len(data) != 0 {
		return errMine
	}
	return nil
}

var errMine = errors.New("not my message")

func init() {
	nmdc.RegisterMessage(&mineMsg{})
	nmdc.RegisterMessage(noneMsg{})
}

func TestN05_Registered(t *testing.T) {
	check(t, 3000, "a message of a type registered by the user goes through the connection", func(c *C) {
		e := drawEncoding(c.T, "enc")
		var wire bytes.Buffer
		w := nmdc.NewWriter(&wire)
		w.SetEncoder(e.encoder())
		var want []nmdc.Message // nil: a message that is refused
		for n := rapid.IntRange(1, 6).Draw(c.T, "messages"); n > 0; n-- {
			var m nmdc.Message
			bad := false
			switch pick(c.T, "type", 5) {
			case 0, 1:
				mm := &mineMsg{N: rapid.IntRange(0, 97).Draw(c.T, "n"), Text: nText(c.T, e, "text", "")}
				m = mm
				c.NonTrivial(true)
				switch pick(c.T, "bad", 6) {
				case 0:
					mm.N, bad = 98, true // refused by the reader
				case 1:
					mm.N = 99
					if err := w.WriteMsg(m); err != errMine {
						c.Fatalf("error of a message that refuses to be encoded: %v", err)
					}
					continue
				}
			case 2:
				m = &noneMsg{}
			default:
				_, m = drawNMDC(c.T, e)
				if _, ok := m.(*nmdc.ZOn); ok {
					m = &nmdc.Hello{Name: "x"}
				}
			}
			c.Key("%s;", nShow(m))
			if err := w.WriteMsg(m); err != nil {
				c.Fatalf("writing %s: %v", nShow(m), err)
			}
			if bad {
				m = nil
			}
			want = append(want, m)
		}
		if err := w.Flush(); err != nil {
			c.Fatalf("flush: %v", err)
		}
		r := nmdc.NewReader(drawEOFReader(c.T, wire.Bytes()))
		r.SetMaxLine(0)
		r.SetDecoder(e.decoder())
		skip := rapid.Bool().Draw(c.T, "skip")
		refused := 0
		if skip {
			r.OnUnmarshalError = func(line []byte, err error) (bool, error) {
				refused++
				if !strings.Contains(string(line), "98 ") {
					c.Fatalf("%q is refused: %v", line, err)
				}
				return false, nil
			}
		}
		wantRefused := 0
		for i, m := range want {
			if m == nil && skip {
				wantRefused++
				continue
			}
			var got nmdc.Message
			var err error
			how := pick(c.T, "how", 3)
			if skip {
				how = 0 // a message of another type is reported before it is decoded
			}
			_, isRaw := m.(*nmdc.RawMessage)
			switch {
			case how == 1 && m != nil && !isRaw:
				got = nmdc.NewMessage(m.Type())
				err = r.ReadMsgTo(got)
			case how == 2 && m != nil && !isRaw:
				got, err = r.ReadMsgToAny(&mineMsg{}, &noneMsg{}, nmdc.NewMessage(m.Type()))
			default:
				got, err = r.ReadMsg()
			}
			if m == nil {
				if !errors.Is(err, errMine) && (err == nil || !strings.Contains(err.Error(), errMine.Error())) {
					c.Fatalf("message %d is refused by its decoder, but the reader gives %v, %v", i, got, err)
				}
				continue
			}
			if err != nil {
				c.Fatalf("message %d of %q: %v", i, wire.Bytes(), err)
			}
			if !nEqual(got, m) {
				c.Fatalf("message %d of %q is read as\n%s, want\n%s", i, wire.Bytes(), nShow(got), nShow(m))
			}
		}
		if m, err := r.ReadMsg(); err != io.EOF {
			c.Fatalf("%v, %v at the end", m, err)
		}
		if refused != wantRefused {
			c.Fatalf("%d messages are refused, want %d", refused, wantRefused)
		}
		// a second type cannot take the same command
		for _, m := range []nmdc.Message{&mineMsg{}, noneMsg{}, &nmdc.Hello{}} {
			if guard(func() { nmdc.RegisterMessage(m) }) == nil {
				c.Fatalf("a command can be registered twice: %T", m)
			}
		}
	})
}
