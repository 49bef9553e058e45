package props

import (
	"bytes"
	"encoding/base32"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	adctypes "github.com/direct-connect/go-dc/adc/types"
	"github.com/direct-connect/go-dc/tiger"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- text

var textTokens = []string{
	" ", "  ", "\n", "\\", "\\\\", "\\s", "\\n", "\\\\s", "\\\\n", "\r", "\t", "/", "+", "-", "AN", "NI", "PM", "|", "$", "&", "<", ">",
	"abc", "s", "n", "0", "1", "é", "ё", "日本", "\u00a0", "\u2028", "\U0001f600", "x y", ".", ",", ";", "%", "\x7f", "\x01", "\x1b",
}

var shortWord = rapid.StringMatching(`[a-zA-Z0-9]{1,8}`)

// adcText draws any valid text without null characters.
func adcText(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 5).Draw(t, label+"-kind") {
	case 0:
		return ""
	case 1:
		return shortWord.Draw(t, label)
	case 2, 3:
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom(textTokens), 1, 8).Draw(t, label), "")
	case 4:
		return strings.ReplaceAll(rapid.StringN(0, 20, 60).Draw(t, label), "\x00", "")
	}
	// long
	n := rapid.IntRange(200, 6000).Draw(t, label+"-len")
	tok := rapid.SampledFrom(textTokens).Draw(t, label+"-tok") + rapid.SampledFrom(textTokens).Draw(t, label+"-tok2")
	return strings.Repeat(tok, n/len(tok)+1)
}

// refEscape is the ADC escaping as the protocol defines it.
func refEscape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case ' ':
			b.WriteString(`\s`)
		case '\n':
			b.WriteString(`\n`)
		case '\\':
			b.WriteString(`\\`)
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

// refUnescape undoes refEscape; ok is false for a backslash that starts no known escape.
func refUnescape(s string) (_ string, ok bool) {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' {
			b.WriteByte(s[i])
			continue
		}
		i++
		if i >= len(s) {
			return "", false
		}
		switch s[i] {
		case 's':
			b.WriteByte(' ')
		case 'n':
			b.WriteByte('\n')
		case '\\':
			b.WriteByte('\\')
		default:
			return "", false
		}
	}
	return b.String(), true
}

// ---------------------------------------------------------------- scalars

var stdBase32 = base32.StdEncoding.WithPadding(base32.NoPadding)

const base32Alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"

func drawSID(t *rapid.T, label string) adc.SID {
	var id adc.SID
	for i := range id {
		id[i] = base32Alphabet[rapid.IntRange(0, 31).Draw(t, label)]
	}
	return id
}

func draw24(t *rapid.T, label string) (out [24]byte) {
	switch rapid.IntRange(0, 5).Draw(t, label+"-kind") {
	case 0:
		for i := range out {
			out[i] = 0xff
		}
	case 1:
		// zero
	case 2: // all but one byte the same
		fill := rapid.SampledFrom([]byte{0, 0, 0xff}).Draw(t, label+"-fill")
		for i := range out {
			out[i] = fill
		}
		out[rapid.IntRange(0, 23).Draw(t, label+"-at")] = rapid.Byte().Draw(t, label+"-one")
	default:
		copy(out[:], rapid.SliceOfN(rapid.Byte(), 24, 24).Draw(t, label))
	}
	return
}

func drawTTH(t *rapid.T, label string) *adc.TTH {
	if rapid.Bool().Draw(t, label+"-nil") {
		return nil
	}
	v := adc.TTH(draw24(t, label))
	return &v
}

var edgeInts = []int64{0, 0, 1, -1, 2, 9, 10, 99, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, -1 << 31, 1<<32 - 1, 1 << 32, 1<<53 + 1, 1<<63 - 1, -1 << 63}

func drawInt64(t *rapid.T, label string) int64 {
	if rapid.Bool().Draw(t, label+"-edge") {
		return rapid.SampledFrom(edgeInts).Draw(t, label)
	}
	return rapid.Int64().Draw(t, label)
}

func drawInt(t *rapid.T, label string) int { return int(drawInt64(t, label)) }

func drawFeature(t *rapid.T, label string) adc.Feature {
	if rapid.Bool().Draw(t, label+"-known") {
		return rapid.SampledFrom([]adc.Feature{
			adc.FeaBASE, adc.FeaBAS0, adc.FeaTIGR, adc.FeaPING, adc.FeaTS, adc.FeaZLIF, adc.FeaTCP4, adc.FeaTCP6, adc.FeaUDP4, adc.FeaADC0,
		}).Draw(t, label)
	}
	var f adc.Feature
	for i := range f {
		f[i] = "ABCXYZ0189"[rapid.IntRange(0, 9).Draw(t, label)]
	}
	return f
}

func drawModFeatures(t *rapid.T, label string) adc.ModFeatures {
	n := rapid.IntRange(-1, 6).Draw(t, label+"-n")
	if n < 0 {
		return nil
	}
	m := make(adc.ModFeatures)
	for i := 0; i < n; i++ {
		m[drawFeature(t, label)] = rapid.Bool().Draw(t, label+"-on")
	}
	return m
}

func drawTexts(t *rapid.T, label string) []string {
	n := rapid.IntRange(-1, 4).Draw(t, label+"-n")
	if n < 0 {
		return nil
	}
	out := make([]string, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, adcText(t, label))
	}
	return out
}

const tagAlphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

func drawTag(t *rapid.T) (tag [2]byte) {
	tag[0] = tagAlphabet[rapid.IntRange(0, 25).Draw(t, "tag")]
	tag[1] = tagAlphabet[rapid.IntRange(0, 35).Draw(t, "tag")]
	return
}

// ---------------------------------------------------------------- messages and their reference encoding

// refMsg is the encoding of a message by the protocol: positional parameters in order and named parameters.
type refMsg struct {
	pos   []string
	named []string
	// rest, if not empty, replaces everything (messages without named parameters).
	exact  string
	isExpl bool
	// anyOrder is set if the order of parameters of the same name is free, too
	anyOrder bool
}

func exactly(s string) refMsg { return refMsg{exact: s, isExpl: true} }

func (r refMsg) payload() string {
	if r.isExpl {
		return r.exact
	}
	return strings.Join(append(append([]string{}, r.pos...), r.named...), " ")
}

// diff compares an encoded payload to the reference. The order of different named parameters is free.
func (r refMsg) diff(got string) string {
	if r.isExpl {
		if got != r.exact {
			return fmt.Sprintf("encoded as %q, want %q", clip(got, 500), clip(r.exact, 500))
		}
		return ""
	}
	want := r.payload()
	if got == want {
		return ""
	}
	var parts []string
	if got != "" || len(r.pos) > 0 {
		parts = strings.Split(got, " ")
	}
	bad := fmt.Sprintf("encoded as %q, want (in any order of names) %q", clip(got, 500), clip(want, 500))
	if len(parts) != len(r.pos)+len(r.named) {
		return bad
	}
	for i, p := range r.pos {
		if parts[i] != p {
			return bad
		}
	}
	g, w := append([]string{}, parts[len(r.pos):]...), append([]string{}, r.named...)
	byTag := func(a []string) func(i, j int) bool {
		return func(i, j int) bool { return clipTag(a[i]) < clipTag(a[j]) }
	}
	sort.SliceStable(g, byTag(g))
	sort.SliceStable(w, byTag(w))
	if r.anyOrder {
		sort.Strings(g)
	}
	if !reflect.DeepEqual(g, w) {
		return bad
	}
	return ""
}

func clipTag(s string) string {
	if len(s) > 2 {
		return s[:2]
	}
	return s
}

type namedBuilder struct{ r *refMsg }

func (b namedBuilder) text(tag, v string, req bool) {
	if v != "" || req {
		b.r.named = append(b.r.named, tag+refEscape(v))
	}
}

func (b namedBuilder) texts(tag string, v []string) {
	for _, s := range v {
		b.r.named = append(b.r.named, tag+refEscape(s))
	}
}

func (b namedBuilder) num(tag string, v int64, req bool) {
	if v != 0 || req {
		b.r.named = append(b.r.named, tag+strconv.FormatInt(v, 10))
	}
}

func (b namedBuilder) flag(tag string, v bool) {
	if v {
		b.r.named = append(b.r.named, tag+"1")
	}
}

func (b namedBuilder) bytes(tag string, v []byte) {
	b.r.named = append(b.r.named, tag+stdBase32.EncodeToString(v))
}

func (b namedBuilder) tth(tag string, v *adc.TTH) {
	if v != nil {
		b.bytes(tag, v[:])
	}
}

// adcKind is one ADC message type.
type adcKind struct {
	name       string
	registered bool // decoded by UnmarshalMessage; otherwise only into a message supplied by the caller
	named      bool // has named parameters
	draw       func(t *rapid.T) adc.Message
	fresh      func() adc.Message // pointer to an empty message
	ref        func(m adc.Message) refMsg
}

var adcKinds = []adcKind{
	{"SUP", true, false, func(t *rapid.T) adc.Message {
		return adc.Supported{Features: drawModFeatures(t, "features")}
	}, func() adc.Message { return &adc.Supported{} }, func(m adc.Message) refMsg {
		var r refMsg
		for f, on := range m.(adc.Supported).Features {
			if on {
				r.named = append(r.named, "AD"+string(f[:]))
			} else {
				r.named = append(r.named, "RM"+string(f[:]))
			}
		}
		sort.Strings(r.named)
		r.anyOrder = true
		return r
	}},
	{"STA", true, false, func(t *rapid.T) adc.Message {
		return adc.Status{Sev: adc.Severity(rapid.IntRange(0, 2).Draw(t, "sev")), Code: rapid.IntRange(0, 99).Draw(t, "code"), Msg: adcText(t, "msg")}
	}, func() adc.Message { return &adc.Status{} }, func(m adc.Message) refMsg {
		s := m.(adc.Status)
		code := strconv.Itoa(s.Code)
		if s.Code < 10 {
			code = "0" + code
		}
		return exactly(strconv.Itoa(int(s.Sev)) + code + " " + refEscape(s.Msg))
	}},
	{"ZON", true, false, func(t *rapid.T) adc.Message { return adc.ZOn{} }, func() adc.Message { return &adc.ZOn{} },
		func(m adc.Message) refMsg { return exactly("") }},
	{"ZOF", true, false, func(t *rapid.T) adc.Message { return adc.ZOff{} }, func() adc.Message { return &adc.ZOff{} },
		func(m adc.Message) refMsg { return exactly("") }},
	{"MSG", true, true, func(t *rapid.T) adc.Message {
		m := adc.ChatMessage{Text: adcText(t, "text"), Me: rapid.Bool().Draw(t, "me")}
		if rapid.Bool().Draw(t, "pm") {
			id := drawSID(t, "pm-sid")
			m.PM = &id
		}
		if rapid.Bool().Draw(t, "ts") {
			m.TS = drawInt64(t, "ts")
		}
		return m
	}, func() adc.Message { return &adc.ChatMessage{} }, func(m adc.Message) refMsg {
		c := m.(adc.ChatMessage)
		r := refMsg{pos: []string{refEscape(c.Text)}}
		b := namedBuilder{&r}
		if c.PM != nil {
			r.named = append(r.named, "PM"+string(c.PM[:]))
		}
		b.flag("ME", c.Me)
		b.num("TS", c.TS, false)
		return r
	}},
	{"RCM", true, false, func(t *rapid.T) adc.Message {
		return adc.RevConnectRequest{Proto: adcText(t, "proto"), Token: adcText(t, "token")}
	}, func() adc.Message { return &adc.RevConnectRequest{} }, func(m adc.Message) refMsg {
		v := m.(adc.RevConnectRequest)
		return refMsg{pos: []string{refEscape(v.Proto), refEscape(v.Token)}}
	}},
	{"CTM", true, false, func(t *rapid.T) adc.Message {
		return adc.ConnectRequest{Proto: adcText(t, "proto"), Port: drawInt(t, "port"), Token: adcText(t, "token")}
	}, func() adc.Message { return &adc.ConnectRequest{} }, func(m adc.Message) refMsg {
		v := m.(adc.ConnectRequest)
		return refMsg{pos: []string{refEscape(v.Proto), strconv.Itoa(v.Port), refEscape(v.Token)}}
	}},
	{"GFI", true, false, func(t *rapid.T) adc.Message {
		return adc.GetInfoRequest{Type: adcText(t, "type"), Path: adcText(t, "path")}
	}, func() adc.Message { return &adc.GetInfoRequest{} }, func(m adc.Message) refMsg {
		v := m.(adc.GetInfoRequest)
		return refMsg{pos: []string{refEscape(v.Type), refEscape(v.Path)}}
	}},
	{"GET", true, false, func(t *rapid.T) adc.Message { return drawGetRequest(t) }, func() adc.Message { return &adc.GetRequest{} },
		func(m adc.Message) refMsg { return refGet(m.(adc.GetRequest)) }},
	{"SND", true, false, func(t *rapid.T) adc.Message { return adc.GetResponse(drawGetRequest(t)) }, func() adc.Message { return &adc.GetResponse{} },
		func(m adc.Message) refMsg { return refGet(adc.GetRequest(m.(adc.GetResponse))) }},
	{"SID", true, false, func(t *rapid.T) adc.Message { return adc.SIDAssign{SID: drawSID(t, "sid")} }, func() adc.Message { return &adc.SIDAssign{} },
		func(m adc.Message) refMsg { v := m.(adc.SIDAssign); return exactly(string(v.SID[:])) }},
	{"CMD", true, true, func(t *rapid.T) adc.Message {
		m := adc.UserCommand{Command: adcText(t, "command"), Category: adc.Category(drawInt(t, "cat")), Remove: drawInt(t, "rm"),
			Constrained: drawInt(t, "co"), Separator: drawInt(t, "sp")}
		for n := rapid.IntRange(1, 4).Draw(t, "path-n"); n > 0; n-- {
			m.Path = append(m.Path, strings.ReplaceAll(adcText(t, "path"), "/", "_"))
		}
		return m
	}, func() adc.Message { return &adc.UserCommand{} }, func(m adc.Message) refMsg {
		v := m.(adc.UserCommand)
		var path []string
		for _, p := range v.Path {
			path = append(path, refEscape(p))
		}
		r := refMsg{pos: []string{strings.Join(path, "/")}}
		b := namedBuilder{&r}
		b.text("TT", v.Command, false)
		b.num("CT", int64(v.Category), false)
		b.num("RM", int64(v.Remove), false)
		b.num("CO", int64(v.Constrained), false)
		b.num("SP", int64(v.Separator), false)
		return r
	}},
	{"GPA", true, false, func(t *rapid.T) adc.Message {
		return adc.GetPassword{Salt: rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "salt")}
	}, func() adc.Message { return &adc.GetPassword{} }, func(m adc.Message) refMsg {
		return exactly(stdBase32.EncodeToString(m.(adc.GetPassword).Salt))
	}},
	{"PAS", true, false, func(t *rapid.T) adc.Message { return adc.Password{Hash: tiger.Hash(draw24(t, "hash"))} }, func() adc.Message { return &adc.Password{} },
		func(m adc.Message) refMsg {
			v := m.(adc.Password)
			return refMsg{pos: []string{stdBase32.EncodeToString(v.Hash[:])}}
		}},
	{"QUI", true, true, func(t *rapid.T) adc.Message {
		m := adc.Disconnect{ID: drawSID(t, "sid"), Message: adcText(t, "msg"), Duration: drawInt(t, "dur"), Redirect: adcText(t, "redirect")}
		if rapid.Bool().Draw(t, "by") {
			m.By = drawSID(t, "by-sid")
		}
		return m
	}, func() adc.Message { return &adc.Disconnect{} }, func(m adc.Message) refMsg {
		v := m.(adc.Disconnect)
		r := refMsg{pos: []string{string(v.ID[:])}}
		b := namedBuilder{&r}
		b.text("MS", v.Message, false)
		if v.By != (adc.SID{}) {
			r.named = append(r.named, "ID"+string(v.By[:]))
		}
		b.num("TL", int64(v.Duration), false)
		b.text("RD", v.Redirect, false)
		return r
	}},
	{"SCH", true, true, func(t *rapid.T) adc.Message {
		return adc.SearchRequest{
			Token: adcText(t, "token"), And: drawTexts(t, "and"), Not: drawTexts(t, "not"), Ext: drawTexts(t, "ext"),
			Le: drawInt64(t, "le"), Ge: drawInt64(t, "ge"), Eq: drawInt64(t, "eq"), Type: adc.FileType(drawInt(t, "type")),
			TTH: drawTTH(t, "tth"), Group: adc.ExtGroup(drawInt(t, "group")), NoExt: drawTexts(t, "noext"),
		}
	}, func() adc.Message { return &adc.SearchRequest{} }, func(m adc.Message) refMsg {
		v := m.(adc.SearchRequest)
		var r refMsg
		b := namedBuilder{&r}
		b.text("TO", v.Token, false)
		b.texts("AN", v.And)
		b.texts("NO", v.Not)
		b.texts("EX", v.Ext)
		b.num("LE", v.Le, false)
		b.num("GE", v.Ge, false)
		b.num("EQ", v.Eq, false)
		b.num("TY", int64(v.Type), false)
		b.tth("TR", v.TTH)
		b.num("GR", int64(v.Group), false)
		b.texts("RX", v.NoExt)
		return r
	}},
	{"RES", true, true, func(t *rapid.T) adc.Message {
		return adc.SearchResult{Token: adcText(t, "token"), Path: adcText(t, "path"), Size: drawInt64(t, "size"), Slots: drawInt(t, "slots"), TTH: drawTTH(t, "tth")}
	}, func() adc.Message { return &adc.SearchResult{} }, func(m adc.Message) refMsg {
		v := m.(adc.SearchResult)
		var r refMsg
		b := namedBuilder{&r}
		b.text("TO", v.Token, false)
		b.text("FN", v.Path, false)
		b.num("SI", v.Size, false)
		b.num("SL", int64(v.Slots), false)
		b.tth("TR", v.TTH)
		return r
	}},
	{"INF", true, true, func(t *rapid.T) adc.Message { return drawUserInfo(t) }, func() adc.Message { return &adc.UserInfo{} },
		func(m adc.Message) refMsg { return refUserInfo(m.(adc.UserInfo)) }},
	{"INF-mod", false, false, func(t *rapid.T) adc.Message {
		var m adc.UserInfoMod
		for n := rapid.IntRange(0, 6).Draw(t, "n"); n > 0; n-- {
			m = append(m, adc.Field{Tag: drawTag(t), Value: adcText(t, "value")})
		}
		return m
	}, func() adc.Message { return &adc.UserInfoMod{} }, func(m adc.Message) refMsg {
		var s []string
		for _, f := range m.(adc.UserInfoMod) {
			s = append(s, string(f.Tag[:])+refEscape(f.Value))
		}
		return exactly(strings.Join(s, " "))
	}},
	{"INF-hub", false, true, func(t *rapid.T) adc.Message { return drawHubInfo(t) }, func() adc.Message { return &adc.HubInfo{} },
		func(m adc.Message) refMsg { return refHubInfo(m.(adc.HubInfo)) }},
}

func drawGetRequest(t *rapid.T) adc.GetRequest {
	return adc.GetRequest{Type: adcText(t, "type"), Path: adcText(t, "path"), Start: drawInt64(t, "start"), Bytes: drawInt64(t, "bytes"),
		Compressed: rapid.Bool().Draw(t, "zl")}
}

func refGet(v adc.GetRequest) refMsg {
	s := refEscape(v.Type) + " " + refEscape(v.Path) + " " + strconv.FormatInt(v.Start, 10) + " " + strconv.FormatInt(v.Bytes, 10)
	if v.Compressed {
		s += " ZL1"
	}
	return exactly(s)
}

func drawUserInfo(t *rapid.T) adc.UserInfo {
	u := adc.UserInfo{Name: adcText(t, "name")}
	opt := func(label string) bool { return rapid.IntRange(0, 2).Draw(t, label+"-set") == 0 }
	text := func(label string) string {
		if opt(label) {
			return adcText(t, label)
		}
		return ""
	}
	num := func(label string) int {
		if opt(label) {
			return drawInt(t, label)
		}
		return 0
	}
	if rapid.Bool().Draw(t, "id-set") {
		u.Id = adc.CID(draw24(t, "id"))
	}
	if rapid.Bool().Draw(t, "pid-set") {
		p := adc.PID(draw24(t, "pid"))
		u.Pid = &p
	}
	u.Ip4, u.Ip6, u.Udp4, u.Udp6 = text("ip4"), text("ip6"), num("udp4"), num("udp6")
	u.ShareSize, u.ShareFiles = int64(num("ss")), num("sf")
	u.Version, u.Application = text("ve"), text("ap")
	u.MaxUpload, u.MaxDownload = text("us"), text("ds")
	u.Slots, u.SlotsFree, u.AutoSlotLimit = num("sl"), num("fs"), num("as")
	u.Email, u.Desc = text("em"), text("de")
	u.HubsNormal, u.HubsRegistered, u.HubsOperator = num("hn"), num("hr"), num("ho")
	u.Token, u.Type, u.Away, u.Ref = text("to"), adc.UserType(num("ct")), adc.AwayType(num("aw")), text("rf")
	for n := rapid.IntRange(0, 4).Draw(t, "su-n"); n > 0; n-- {
		u.Features = append(u.Features, drawFeature(t, "su"))
	}
	u.KP, u.Address = text("kp"), text("ea")
	return u
}

func refUserInfo(u adc.UserInfo) refMsg {
	var r refMsg
	b := namedBuilder{&r}
	if u.Id != (adc.CID{}) {
		b.bytes("ID", u.Id[:])
	}
	if u.Pid != nil {
		b.bytes("PD", u.Pid[:])
	}
	b.text("NI", u.Name, true)
	b.text("I4", u.Ip4, false)
	b.text("I6", u.Ip6, false)
	b.num("U4", int64(u.Udp4), false)
	b.num("U6", int64(u.Udp6), false)
	b.num("SS", u.ShareSize, true)
	b.num("SF", int64(u.ShareFiles), true)
	b.text("VE", u.Version, true)
	b.text("AP", u.Application, false)
	b.text("US", u.MaxUpload, false)
	b.text("DS", u.MaxDownload, false)
	b.num("SL", int64(u.Slots), true)
	b.num("FS", int64(u.SlotsFree), true)
	b.num("AS", int64(u.AutoSlotLimit), false)
	b.text("EM", u.Email, false)
	b.text("DE", u.Desc, false)
	b.num("HN", int64(u.HubsNormal), true)
	b.num("HR", int64(u.HubsRegistered), true)
	b.num("HO", int64(u.HubsOperator), true)
	b.text("TO", u.Token, false)
	b.num("CT", int64(u.Type), false)
	b.num("AW", int64(u.Away), false)
	b.text("RF", u.Ref, false)
	var su []string
	for _, f := range u.Features {
		su = append(su, string(f[:]))
	}
	r.named = append(r.named, "SU"+strings.Join(su, ","))
	b.text("KP", u.KP, false)
	b.text("EA", u.Address, false)
	return r
}

func drawHubInfo(t *rapid.T) adc.HubInfo {
	text := func(label string) string {
		if rapid.Bool().Draw(t, label+"-set") {
			return adcText(t, label)
		}
		return ""
	}
	num := func(label string) int {
		if rapid.Bool().Draw(t, label+"-set") {
			return drawInt(t, label)
		}
		return 0
	}
	return adc.HubInfo{
		Name: text("ni"), Version: text("ve"), Application: text("ap"), Desc: text("de"), Type: adc.UserType(num("ct")),
		Address: text("hh"), Website: text("ws"), Network: text("ne"), Owner: text("ow"), Users: num("uc"), Share: num("ss"), Files: num("sf"),
		MinShare: num("ms"), MaxShare: int64(num("xs")), MinSlots: num("ml"), MaxSlots: num("xl"), UsersLimit: num("mc"), Uptime: num("up"),
		MaxHubsUser: num("xu"), MaxHubsReg: num("xr"), MaxHubsOp: num("xo"),
	}
}

func refHubInfo(h adc.HubInfo) refMsg {
	var r refMsg
	b := namedBuilder{&r}
	b.text("NI", h.Name, true)
	b.text("VE", h.Version, true)
	b.text("AP", h.Application, false)
	b.text("DE", h.Desc, false)
	b.num("CT", int64(h.Type), false)
	b.text("HH", h.Address, false)
	b.text("WS", h.Website, false)
	b.text("NE", h.Network, false)
	b.text("OW", h.Owner, false)
	b.num("UC", int64(h.Users), false)
	b.num("SS", int64(h.Share), false)
	b.num("SF", int64(h.Files), false)
	b.num("MS", int64(h.MinShare), false)
	b.num("XS", h.MaxShare, false)
	b.num("ML", int64(h.MinSlots), false)
	b.num("XL", int64(h.MaxSlots), false)
	b.num("MC", int64(h.UsersLimit), false)
	b.num("UP", int64(h.Uptime), false)
	b.num("XU", int64(h.MaxHubsUser), false)
	b.num("XR", int64(h.MaxHubsReg), false)
	b.num("XO", int64(h.MaxHubsOp), false)
	return r
}

func adcKindByName(name string) adcKind {
	for _, k := range adcKinds {
		if k.name == name {
			return k
		}
	}
	panic("no ADC message kind " + name)
}

func drawADCKind(t *rapid.T) adcKind {
	return adcKinds[pick(t, "kind", len(adcKinds))]
}

func drawRegisteredKind(t *rapid.T) adcKind {
	for {
		if k := drawADCKind(t); k.registered {
			return k
		}
	}
}

// ---------------------------------------------------------------- equality

// adcNorm returns a comparable form of a message: no pointer, empty lists and unset lists are the same.
func adcNorm(m adc.Message) interface{} {
	if m == nil {
		return nil
	}
	if r, ok := m.(*adc.RawMessage); ok {
		return fmt.Sprintf("raw %q %q", string(r.Type[:]), string(r.Data))
	}
	rv := reflect.ValueOf(m)
	if rv.Kind() == reflect.Ptr {
		rv = rv.Elem()
	}
	switch v := rv.Interface().(type) {
	case adc.GetPassword:
		return fmt.Sprintf("gpa %q", string(v.Salt))
	case adc.Supported:
		return fmt.Sprintf("sup %v", sortedMod(v.Features))
	case adc.UserInfoMod:
		if len(v) == 0 {
			return adc.UserInfoMod(nil)
		}
		return v
	}
	if rv.Kind() != reflect.Struct {
		return rv.Interface()
	}
	out := reflect.New(rv.Type()).Elem()
	out.Set(rv)
	for i := 0; i < out.NumField(); i++ {
		f := out.Field(i)
		if f.Kind() == reflect.Slice && f.Len() == 0 && f.CanSet() {
			f.Set(reflect.Zero(f.Type()))
		}
	}
	return out.Interface()
}

func sortedMod(f adc.ModFeatures) []string {
	var out []string
	for k, v := range f {
		out = append(out, fmt.Sprintf("%s=%v", k, v))
	}
	sort.Strings(out)
	return out
}

func adcEqual(a, b adc.Message) bool { return reflect.DeepEqual(adcNorm(a), adcNorm(b)) }

func adcShow(m interface{}) string {
	if mm, ok := m.(adc.Message); ok {
		return clip(fmt.Sprintf("%T%+v", m, adcNorm(mm)), 1500)
	}
	return clip(fmt.Sprintf("%T%+v", m, m), 1500)
}

// adcTypeOK checks that a decoded message has exactly the type of the original.
func adcTypeOK(got, want adc.Message) bool {
	return reflect.TypeOf(got) == reflect.TypeOf(want)
}

// ---------------------------------------------------------------- packets

// refPacket is a packet header by the protocol.
type refPacket struct {
	kind byte
	id   adc.SID
	to   adc.SID
	cid  adc.CID
	sel  []adc.FeatureSel
}

const adcPacketKinds = "IHCBDEFU"

func drawRefPacket(t *rapid.T) refPacket {
	r := refPacket{kind: adcPacketKinds[pick(t, "packet", len(adcPacketKinds))]}
	switch r.kind {
	case 'B', 'F':
		r.id = drawSID(t, "from")
	case 'D', 'E':
		r.id, r.to = drawSID(t, "from"), drawSID(t, "to")
	case 'U':
		r.cid = adc.CID(draw24(t, "cid"))
	}
	if r.kind == 'F' {
		for n := rapid.IntRange(0, 4).Draw(t, "sel-n"); n > 0; n-- {
			r.sel = append(r.sel, adc.FeatureSel{Fea: drawFeature(t, "sel"), Sel: rapid.Bool().Draw(t, "sel-on")})
		}
	}
	return r
}

// build makes the library's packet.
func (r refPacket) build(m adc.Message) adc.Packet {
	switch r.kind {
	case 'I':
		return &adc.InfoPacket{Msg: m}
	case 'H':
		return &adc.HubPacket{Msg: m}
	case 'C':
		return &adc.ClientPacket{Msg: m}
	case 'B':
		return &adc.BroadcastPacket{ID: r.id, Msg: m}
	case 'D':
		return &adc.DirectPacket{ID: r.id, To: r.to, Msg: m}
	case 'E':
		return &adc.EchoPacket{ID: r.id, To: r.to, Msg: m}
	case 'F':
		return &adc.FeaturePacket{ID: r.id, Sel: append([]adc.FeatureSel(nil), r.sel...), Msg: m}
	case 'U':
		return &adc.UDPPacket{ID: r.cid, Msg: m}
	}
	panic("kind")
}

// fresh makes an empty packet of the same kind.
func (r refPacket) fresh() adc.Packet {
	return refPacket{kind: r.kind}.build(nil)
}

// line is the packet's line by the protocol.
func (r refPacket) line(cmd adc.MsgType, payload string) string {
	s := string(r.kind) + string(cmd[:])
	switch r.kind {
	case 'B', 'F':
		s += " " + string(r.id[:])
	case 'D', 'E':
		s += " " + string(r.id[:]) + " " + string(r.to[:])
	case 'U':
		s += " " + stdBase32.EncodeToString(r.cid[:])
	}
	for _, f := range r.sel {
		if f.Sel {
			s += " +" + string(f.Fea[:])
		} else {
			s += " -" + string(f.Fea[:])
		}
	}
	if payload != "" {
		s += " " + payload
	}
	return s + "\n"
}

// diff compares a packet's header to the reference.
func (r refPacket) diff(p adc.Packet) string {
	if p == nil {
		return "no packet"
	}
	if p.Kind() != r.kind {
		return fmt.Sprintf("kind %q, want %q", p.Kind(), r.kind)
	}
	want := r.build(nil)
	if reflect.TypeOf(p) != reflect.TypeOf(want) {
		return fmt.Sprintf("packet is a %T, want %T", p, want)
	}
	if pp, ok := p.(adc.PeerPacket); ok && pp.Source() != r.id {
		return fmt.Sprintf("source %q, want %q", pp.Source(), r.id)
	}
	if tp, ok := p.(adc.TargetPacket); ok && tp.Target() != r.to {
		return fmt.Sprintf("target %q, want %q", tp.Target(), r.to)
	}
	switch v := p.(type) {
	case *adc.BroadcastPacket:
		if v.ID != r.id {
			return fmt.Sprintf("ID %q, want %q", v.ID, r.id)
		}
	case *adc.DirectPacket:
		if v.ID != r.id || v.To != r.to {
			return fmt.Sprintf("IDs %q %q, want %q %q", v.ID, v.To, r.id, r.to)
		}
	case *adc.EchoPacket:
		if v.ID != r.id || v.To != r.to {
			return fmt.Sprintf("IDs %q %q, want %q %q", v.ID, v.To, r.id, r.to)
		}
	case *adc.UDPPacket:
		if v.ID != r.cid {
			return fmt.Sprintf("CID %v, want %v", v.ID, r.cid)
		}
	case *adc.FeaturePacket:
		if v.ID != r.id {
			return fmt.Sprintf("ID %q, want %q", v.ID, r.id)
		}
		if len(v.Sel) != len(r.sel) || (len(r.sel) > 0 && !reflect.DeepEqual(v.Sel, r.sel)) {
			return fmt.Sprintf("selectors %v, want %v", v.Sel, r.sel)
		}
	}
	return ""
}

// featurePayloadOK tells if a payload can follow feature selectors without being taken for one.
func featurePayloadOK(s string) bool {
	return s == "" || (s[0] != ' ' && s[0] != '+' && s[0] != '-')
}

func drawCmd(t *rapid.T) (cmd adc.MsgType) {
	for i := range cmd {
		cmd[i] = tagAlphabet[rapid.IntRange(0, 35).Draw(t, "cmd")]
	}
	switch rapid.IntRange(0, 5).Draw(t, "cmd-case") {
	case 0:
		copy(cmd[:], strings.ToLower(string(cmd[:])))
	case 1:
		copy(cmd[1:2], strings.ToLower(string(cmd[1:2])))
	}
	return
}

// drawUnknownCmd draws a command name that no registered message has.
func drawUnknownCmd(t *rapid.T) adc.MsgType {
	cmd := drawCmd(t)
	for _, k := range adcKinds {
		if k.name == string(cmd[:]) {
			cmd[0] = '7'
		}
	}
	if cmd[0] == 'X' {
		cmd[0] = '7' // names of the message types that the harness registers
	}
	return cmd
}

// drawPayload draws a raw payload line without separators' problems: no newline, no null byte.
func drawPayload(t *rapid.T, label string) string {
	if rapid.IntRange(0, 3).Draw(t, label+"-empty") == 0 {
		return ""
	}
	n := rapid.IntRange(1, 4).Draw(t, label+"-n")
	var parts []string
	for i := 0; i < n; i++ {
		parts = append(parts, refEscape(adcText(t, label)))
	}
	return strings.Join(parts, " ")
}

func marshalADC(m adc.Message) ([]byte, error) {
	var buf bytes.Buffer
	err := adc.Marshal(&buf, m)
	return buf.Bytes(), err
}

var _ = adctypes.SIDFromInt
