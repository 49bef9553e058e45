package props

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"
	dctypes "github.com/direct-connect/go-dc/types"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/korean"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/traditionalchinese"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- encodings

// nEnc is the text encoding of a connection. The zero value is UTF-8.
type nEnc struct {
	name string
	enc  encoding.Encoding
	pool []string // non-ASCII characters it can represent
}

func (e *nEnc) encoder() *nmdc.TextEncoder {
	if e.enc == nil {
		return nil
	}
	return e.enc.NewEncoder()
}

func (e *nEnc) decoder() *nmdc.TextDecoder {
	if e.enc == nil {
		return nil
	}
	return e.enc.NewDecoder()
}

// raw is the text in the encoding.
func (e *nEnc) raw(s string) string {
	if e.enc == nil {
		return s
	}
	out, err := e.enc.NewEncoder().String(s)
	if err != nil {
		panic(fmt.Errorf("harness: %q in %s: %v", s, e.name, err))
	}
	return out
}

// holds tells if the encoding represents the text without loss.
func (e *nEnc) holds(s string) bool {
	if e.enc == nil {
		return utf8.ValidString(s)
	}
	out, err := e.enc.NewEncoder().String(s)
	if err != nil {
		return false
	}
	back, err := e.enc.NewDecoder().String(out)
	return err == nil && back == s
}

var (
	nUTF8      = &nEnc{name: "UTF-8"}
	nEncodings []*nEnc // all but UTF-8
)

func init() {
	for _, e := range []*nEnc{
		{name: "windows-1250", enc: charmap.Windows1250},
		{name: "windows-1251", enc: charmap.Windows1251},
		{name: "windows-1252", enc: charmap.Windows1252},
		{name: "koi8-r", enc: charmap.KOI8R},
		{name: "iso-8859-5", enc: charmap.ISO8859_5},
	} {
		for b := 0x80; b < 0x100; b++ {
			s, err := e.enc.NewDecoder().String(string([]byte{byte(b)}))
			if err == nil && s != "\ufffd" && e.holds(s) {
				e.pool = append(e.pool, s)
			}
		}
		nEncodings = append(nEncodings, e)
	}
	for _, e := range []*nEnc{
		{name: "gbk", enc: simplifiedchinese.GBK},
		{name: "gb18030", enc: simplifiedchinese.GB18030},
		{name: "shift-jis", enc: japanese.ShiftJIS},
		{name: "euc-jp", enc: japanese.EUCJP},
		{name: "euc-kr", enc: korean.EUCKR},
		{name: "big5", enc: traditionalchinese.Big5},
	} {
		// characters whose second byte is an ASCII character with a meaning in the protocol, and others
		for lead := 0x81; lead < 0xfe; lead += 3 {
			for _, trail := range []byte{0x40, 0x5b, 0x5c, 0x5d, 0x60, 0x7b, 0x7c, 0x7d, 0x7e, 0xa1, 0xb7, 0xfe} {
				b := []byte{byte(lead), trail}
				s, err := e.enc.NewDecoder().String(string(b))
				if err != nil || strings.Contains(s, "\ufffd") || utf8.RuneCountInString(s) != 1 || !e.holds(s) || e.raw(s) != string(b) {
					continue
				}
				e.pool = append(e.pool, s)
			}
		}
		nEncodings = append(nEncodings, e)
	}
}

func drawEncoding(t *rapid.T, label string) *nEnc {
	if rapid.Bool().Draw(t, label+"-utf8") {
		return nUTF8
	}
	return nEncodings[pick(t, label, len(nEncodings))]
}

// ---------------------------------------------------------------- text

var nTokens = []string{
	" ", "  ", "\n", "\r", "\t", "\r\n", "\\", "/", "|", "||", "$", "$$", " $", " $<", "&", "&&", "<", ">", "> ", "<x> ", " From: ", " (", ")",
	"&amp;", "&amp;amp;", "&lt;", "&gt;", "&#36;", "&#124;", "&#x24;", "&nbsp", "&amp", "&#", "/%", "%/", "%DCN", "EXTENDEDPROTOCOL", "Ref=", "TTH:", "Hub:",
	"abc", "0", "1/2", "é", "ё", "日本", "\u00a0", "\u2028", "\u0085", "\U0001f600", "x y", ",", ":", ";", "?", "\x05", "\x7f", "\x01", "-", "+", "N", "R", "S", "`", "~", "'", "\"", "#",
}

// nText draws valid text without null characters that the encoding can represent, without
// any of the characters in avoid.
func nText(t *rapid.T, e *nEnc, label, avoid string) string {
	var s string
	switch rapid.IntRange(0, 6).Draw(t, label+"-kind") {
	case 0:
		return ""
	case 1:
		s = shortWord.Draw(t, label)
	case 2, 3:
		s = strings.Join(rapid.SliceOfN(rapid.SampledFrom(nTokens), 1, 8).Draw(t, label), "")
	case 4:
		s = rapid.StringN(0, 20, 60).Draw(t, label)
	case 5:
		if e.enc == nil {
			s = rapid.StringN(0, 20, 60).Draw(t, label)
		} else {
			s = strings.Join(rapid.SliceOfN(rapid.SampledFrom(e.pool), 1, 12).Draw(t, label), "")
		}
	case 6:
		tok := rapid.SampledFrom(nTokens).Draw(t, label+"-tok") + rapid.SampledFrom(nTokens).Draw(t, label+"-tok2")
		if e.enc != nil {
			tok += rapid.SampledFrom(e.pool).Draw(t, label+"-pool")
		}
		s = strings.Repeat(tok, rapid.IntRange(1, 40).Draw(t, label+"-repeat"))
	}
	return nFilter(e, s, avoid)
}

func nFilter(e *nEnc, s, avoid string) string {
	var b strings.Builder
	for _, r := range s {
		c := string(r)
		if r == 0 || r == utf8.RuneError || strings.ContainsRune(avoid, r) || !e.holds(c) {
			continue
		}
		b.WriteString(c)
	}
	s = b.String()
	for strings.Contains(s, "/%DCN") {
		s = strings.ReplaceAll(s, "/%DCN", "/%")
	}
	return s
}

const nNameForbidden = "$\r\n\t"

// nName draws a name within the protocol's limits.
func nName(t *rapid.T, e *nEnc, label, avoid string) string {
	s := nText(t, e, label, nNameForbidden+avoid)
	if rapid.IntRange(0, 15).Draw(t, label+"-max") == 0 {
		// as long as it may be
		s = strings.Repeat("n", 256) + s
		for len(s) > 256 || len(e.nameBytes(s)) > 256 {
			s = s[1:]
			for len(s) > 0 && !utf8.RuneStart(s[0]) {
				s = s[1:]
			}
		}
		return s
	}
	for len(s) > 256 || len(e.nameBytes(s)) > 256 {
		_, n := utf8.DecodeLastRuneInString(s)
		s = s[:len(s)-n]
	}
	return s
}

func nNonEmpty(s string) string {
	if s == "" {
		return "x"
	}
	return s
}

// textBytes is the text as it appears on the wire.
func (e *nEnc) textBytes(s string) string {
	var b strings.Builder
	for _, c := range []byte(e.raw(s)) {
		switch c {
		case '&':
			b.WriteString("&amp;")
		case '$':
			b.WriteString("&#36;")
		case '|':
			b.WriteString("&#124;")
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

// nameBytes is the name as it appears on the wire.
func (e *nEnc) nameBytes(s string) string {
	var b strings.Builder
	for _, c := range []byte(e.raw(s)) {
		switch c {
		case '&':
			b.WriteString("&amp;")
		case '<':
			b.WriteString("&lt;")
		case '>':
			b.WriteString("&gt;")
		case '|':
			b.WriteString("&#124;")
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

var nRawTokens = []string{
	"192.168.1.1", ":412", "[fe80::1]", "example.com", "adc://", "5000", "é", "\xff\xfe", "\xc0", "+", "-", "_", "%", "&amp;", "&", "abc", "V1.0", "0", "\x05", "=", "#", "@", "/", ".", "~", "`", "/%DCN036%/",
	" ", "$", ",", "(", ")", "<", ">", "\\", "?", "\r", "\n",
	" V:", " v:", "V:", "Ref=", "Pk=", "EXTENDEDPROTOCOL", "TTH:", "Hub:", " (", "$$", " $<", "$ALL ", "N ", "DB1", "ZL1",
}

// nRaw draws a field that is written as it is, without any of the bytes in avoid.
func nRaw(t *rapid.T, label, avoid string) string {
	s := strings.Join(rapid.SliceOfN(rapid.SampledFrom(nRawTokens), 0, 5).Draw(t, label), "")
	var out []byte
	for _, c := range []byte(s) {
		if c == 0 || c == '|' || strings.IndexByte(avoid, c) >= 0 {
			continue
		}
		out = append(out, c)
	}
	return string(out)
}

func drawUint64(t *rapid.T, label string) uint64 {
	if rapid.Bool().Draw(t, label+"-edge") {
		return rapid.SampledFrom([]uint64{0, 1, 9, 10, 999999999, 1000000000, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1}).Draw(t, label)
	}
	return rapid.Uint64().Draw(t, label)
}

func drawHash(t *rapid.T, label string) tiger.Hash { return tiger.Hash(draw24(t, label)) }

// ---------------------------------------------------------------- messages and their reference encoding

// nKind is one NMDC message type.
type nKind struct {
	typ  string
	text bool // has text that is converted to the encoding of the connection
	draw func(t *rapid.T, e *nEnc) nmdc.Message
	wire func(e *nEnc, m nmdc.Message) string // payload
}

func nameKind(typ string, mk func(n nmdc.Name) nmdc.Message) nKind {
	return nKind{typ, true, func(t *rapid.T, e *nEnc) nmdc.Message {
		return mk(nmdc.Name(nName(t, e, "name", "")))
	}, func(e *nEnc, m nmdc.Message) string {
		return e.nameBytes(reflect.ValueOf(m).Elem().Field(0).String())
	}}
}

func textKind(typ string, mk func(s nmdc.String) nmdc.Message) nKind {
	return nKind{typ, true, func(t *rapid.T, e *nEnc) nmdc.Message {
		return mk(nmdc.String(nText(t, e, "text", "")))
	}, func(e *nEnc, m nmdc.Message) string {
		return e.textBytes(reflect.ValueOf(m).Elem().Field(0).String())
	}}
}

func noArgsKind(typ string, m func() nmdc.Message) nKind {
	return nKind{typ, false, func(t *rapid.T, e *nEnc) nmdc.Message { return m() },
		func(e *nEnc, m nmdc.Message) string { return "" }}
}

func namesKind(typ string, mk func(n nmdc.Names) nmdc.Message, get func(m nmdc.Message) nmdc.Names) nKind {
	return nKind{typ, true, func(t *rapid.T, e *nEnc) nmdc.Message {
		var list nmdc.Names
		n := rapid.IntRange(-1, 5).Draw(t, "n")
		if n >= 0 {
			list = nmdc.Names{}
		}
		for i := 0; i < n; i++ {
			list = append(list, nNonEmpty(nName(t, e, "name", "")))
		}
		return mk(list)
	}, func(e *nEnc, m nmdc.Message) string {
		var parts []string
		for _, n := range get(m) {
			parts = append(parts, e.nameBytes(n))
		}
		return strings.Join(parts, "$$") + "$$"
	}}
}

func boolTF(v bool) string {
	if v {
		return "T"
	}
	return "F"
}

func b32(h tiger.Hash) string { return stdBase32.EncodeToString(h[:]) }

func drawUserCommand(t *rapid.T, e *nEnc) nmdc.Message {
	m := &nmdc.UserCommand{
		Typ:     nmdc.UCmdType(rapid.SampledFrom([]int{0, 1, 2, 255, 7, 1 << 40, -1}).Draw(t, "type")),
		Context: nmdc.UCmdContext(rapid.SampledFrom([]int{0, 1, 2, 4, 8, 15, 1 << 50}).Draw(t, "context")),
	}
	n := rapid.IntRange(0, 4).Draw(t, "path-n")
	if n == 0 {
		return m
	}
	for i := 0; i < n; i++ {
		m.Path = append(m.Path, nNonEmpty(nText(t, e, "path", "\\")))
	}
	if s := &m.Path[n-1]; strings.HasSuffix(*s, " ") {
		*s += "x"
	}
	// white space at the end of the command is not preserved
	if pick(t, "no-command", 4) != 0 {
		m.Command = nText(t, e, "command", "") + "c"
	}
	return m
}

func drawMyINFO(t *rapid.T, e *nEnc) nmdc.Message {
	m := &nmdc.MyINFO{
		Name:           nName(t, e, "name", " "),
		Desc:           nText(t, e, "desc", ""),
		Mode:           rapid.SampledFrom([]nmdc.UserMode{nmdc.UserModeUnknown, nmdc.UserModeActive, nmdc.UserModePassive, nmdc.UserModeSOCKS5, 'X'}).Draw(t, "mode"),
		HubsNormal:     drawInt(t, "hubs"),
		HubsRegistered: drawInt(t, "reg"),
		HubsOperator:   drawInt(t, "op"),
		Slots:          drawInt(t, "slots"),
		Conn:           nText(t, e, "conn", ""),
		Flag:           nmdc.UserFlag(rapid.IntRange(1, 255).Draw(t, "flag")),
		Email:          nText(t, e, "email", ""),
		ShareSize:      drawUint64(t, "share"),
	}
	if m.Flag == '$' || m.Flag == '|' {
		m.Flag = nmdc.FlagStatusNormal
	}
	m.Client = dctypes.Software{Name: nRaw(t, "client", "$<"), Version: nRaw(t, "version", "$<,")}
	if strings.Contains(m.Client.Name+" V:", " V:") && strings.Index(m.Client.Name+" V:", " V:") != len(m.Client.Name) {
		m.Client.Name = "client"
	}
	n := rapid.IntRange(0, 3).Draw(t, "extras")
	for i := 0; i < n; i++ {
		if m.Extra == nil {
			m.Extra = map[string]string{}
		}
		k := rapid.SampledFrom([]string{"L", "B", "F", "O", "U", "K", "Q", "Ext", "NAME", "ld", "1", "two words", "x-y", " x", "y ", " H", "  ", "A", "Z", "{", "`", "@", "["}).Draw(t, "extra")
		m.Extra[k] = nRaw(t, "extra-val", "$<,")
	}
	return m
}

func drawSearch(t *rapid.T, e *nEnc) nmdc.Message {
	m := &nmdc.Search{
		SizeRestricted: rapid.Bool().Draw(t, "restricted"),
		Size:           drawUint64(t, "size"),
		DataType:       nmdc.DataType(rapid.IntRange(0, 14).Draw(t, "type")),
	}
	if rapid.Bool().Draw(t, "active") {
		m.Address = nNonEmpty(nRaw(t, "addr", " "))
		if strings.HasPrefix(m.Address, "Hub:") {
			m.Address = "hub:412"
		}
	} else {
		m.User = nName(t, e, "user", " ")
	}
	m.IsMaxSize = !m.SizeRestricted || rapid.Bool().Draw(t, "max")
	if m.DataType == nmdc.DataTypeTTH {
		h := drawHash(t, "tth")
		m.TTH = &h
	} else {
		m.Pattern = nText(t, e, "pattern", "")
	}
	return m
}

func drawSlots(t *rapid.T, label string) int {
	return int(drawInt64(t, label) & (1<<63 - 1))
}

func drawSR(t *rapid.T, e *nEnc) nmdc.Message {
	m := &nmdc.SR{
		From:       nName(t, e, "from", " "),
		IsDir:      rapid.Bool().Draw(t, "dir"),
		FreeSlots:  drawSlots(t, "free"),
		TotalSlots: drawSlots(t, "total"),
		HubAddress: nRaw(t, "hub-addr", ")("),
		To:         nName(t, e, "to", ""),
	}
	n := rapid.IntRange(1, 4).Draw(t, "path-n")
	for i := 0; i < n; i++ {
		m.Path = append(m.Path, nText(t, e, "path", "\\/\x05"))
	}
	if !m.IsDir {
		m.Size = drawUint64(t, "size")
	}
	if rapid.Bool().Draw(t, "has-tth") {
		h := drawHash(t, "tth")
		m.TTH = &h
	} else {
		m.HubName = nText(t, e, "hub", "\x05")
		if pick(t, "brackets", 3) == 0 {
			m.HubName = strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"Hub", " (", ")", "(", " ", "RU", "()", " (1.2.3.4:411)", "TTH"}), 1, 5).Draw(t, "hub-brackets"), "")
		}
		if strings.HasPrefix(m.HubName, "TTH:") {
			m.HubName = "hub name"
		}
	}
	return m
}

func drawLock(t *rapid.T, e *nEnc) nmdc.Message {
	m := &nmdc.Lock{
		NoExt: rapid.Bool().Draw(t, "noext"),
		Lock:  nRaw(t, "lock", " "),
		PK:    nRaw(t, "pk", ""),
		Ref:   nRaw(t, "ref", ""),
	}
	if m.NoExt && strings.HasPrefix(m.Lock, "EXTENDEDPROTOCOL") {
		m.NoExt = false
	}
	if strings.Index(m.PK+"Ref=", "Ref=") != len(m.PK) {
		m.PK = "pk"
	}
	return m
}

func drawHubINFO(t *rapid.T, e *nEnc) nmdc.Message {
	m := &nmdc.HubINFO{
		Name: nText(t, e, "name", ""), Host: nRaw(t, "host", "$"), Desc: nText(t, e, "desc", ""),
		I1: drawInt(t, "i1"), I2: drawInt(t, "i2"), I3: drawInt(t, "i3"), I4: drawInt(t, "i4"),
		Owner: nText(t, e, "owner", ""), State: nText(t, e, "state", ""), Encoding: nRaw(t, "enc", "$"),
	}
	if rapid.Bool().Draw(t, "soft") {
		m.Soft = dctypes.Software{Name: nRaw(t, "soft-name", "$"), Version: nNonEmpty(nRaw(t, "soft-version", "$ "))}
	} else {
		m.Soft.Name = nRaw(t, "soft-name", "$ ")
	}
	return m
}

func drawChat(t *rapid.T, e *nEnc) nmdc.Message {
	m := &nmdc.ChatMessage{Text: nText(t, e, "text", "")}
	if rapid.Bool().Draw(t, "named") {
		m.Name = nName(t, e, "name", "")
	}
	if m.Name == "" && (m.Text == "" || m.Text[0] == '<') {
		// an empty line is a keep-alive; a bracket starts a name
		m.Text = "x" + m.Text
	}
	return m
}

func drawPM(t *rapid.T, e *nEnc) nmdc.Message {
	m := &nmdc.PrivateMessage{To: nName(t, e, "to", ""), From: nName(t, e, "from", ""), Name: nName(t, e, "name", ""), Text: nText(t, e, "text", "")}
	if strings.Index(m.To+" From: ", " From: ") != len(m.To) {
		m.To = "a b"
	}
	return m
}

func drawCTM(t *rapid.T, e *nEnc) nmdc.Message {
	m := &nmdc.ConnectToMe{
		Targ:    nNonEmpty(nName(t, e, "targ", " ")),
		Address: nRaw(t, "addr", " NRS"),
		Kind:    nmdc.CTMKind(rapid.IntRange(0, 2).Draw(t, "kind")),
		Secure:  rapid.Bool().Draw(t, "secure"),
	}
	if m.Kind == nmdc.CTMPassiveReq {
		m.Src = nNonEmpty(nName(t, e, "src", ""))
	}
	return m
}

func drawUserIP(t *rapid.T, e *nEnc) nmdc.Message {
	m := &nmdc.UserIP{}
	n := rapid.IntRange(0, 4).Draw(t, "n")
	for i := 0; i < n; i++ {
		m.List = append(m.List, nmdc.UserAddress{Name: nName(t, e, "name", ""), IP: nRaw(t, "ip", " $")})
	}
	return m
}

func drawADCGet(t *rapid.T, e *nEnc) nmdc.Message {
	m := &nmdc.ADCGet{
		ContentType: nmdc.String(nText(t, e, "type", " ")), Identifier: nmdc.String(nText(t, e, "id", " ")),
		Start: drawUint64(t, "start"), Length: int64(drawUint64(t, "len") >> 1), Compressed: rapid.Bool().Draw(t, "zl"),
	}
	if rapid.IntRange(0, 3).Draw(t, "whole") == 0 {
		m.Length = -1
	}
	if rapid.Bool().Draw(t, "db") {
		v := drawUint64(t, "downloaded")
		m.DownloadedBytes = &v
	}
	return m
}

func drawErrText(t *rapid.T, e *nEnc) error {
	s := nText(t, e, "err", "")
	if s == "" {
		return nil
	}
	return errors.New(s)
}

func wireErr(e *nEnc, err error) string {
	if err == nil {
		return ""
	}
	return e.textBytes(err.Error())
}

var nKinds = []nKind{
	noArgsKind("GetNickList", func() nmdc.Message { return &nmdc.GetNickList{} }),
	noArgsKind("HubIsFull", func() nmdc.Message { return &nmdc.HubIsFull{} }),
	noArgsKind("ZOn", func() nmdc.Message { return &nmdc.ZOn{} }),
	noArgsKind("MaxedOut", func() nmdc.Message { return &nmdc.MaxedOut{} }),
	noArgsKind("GetTopic", func() nmdc.Message { return &nmdc.GetTopic{} }),
	noArgsKind("BadPass", func() nmdc.Message { return &nmdc.BadPass{} }),
	noArgsKind("GetPass", func() nmdc.Message { return &nmdc.GetPass{} }),

	nameKind("ValidateNick", func(n nmdc.Name) nmdc.Message { return &nmdc.ValidateNick{Name: n} }),
	nameKind("ValidateDenide", func(n nmdc.Name) nmdc.Message { return &nmdc.ValidateDenide{Name: n} }),
	nameKind("MyNick", func(n nmdc.Name) nmdc.Message { return &nmdc.MyNick{Name: n} }),
	nameKind("Quit", func(n nmdc.Name) nmdc.Message { return &nmdc.Quit{Name: n} }),
	nameKind("LogedIn", func(n nmdc.Name) nmdc.Message { return &nmdc.LogedIn{Name: n} }),
	nameKind("Hello", func(n nmdc.Name) nmdc.Message { return &nmdc.Hello{Name: n} }),
	nameKind("Kick", func(n nmdc.Name) nmdc.Message { return &nmdc.Kick{Name: n} }),
	nameKind("Close", func(n nmdc.Name) nmdc.Message { return &nmdc.Close{Name: n} }),

	textKind("HubName", func(s nmdc.String) nmdc.Message { return &nmdc.HubName{String: s} }),
	textKind("MyPass", func(s nmdc.String) nmdc.Message { return &nmdc.MyPass{String: s} }),
	textKind("BotINFO", func(s nmdc.String) nmdc.Message { return &nmdc.BotINFO{String: s} }),
	textKind("SetIcon", func(s nmdc.String) nmdc.Message { return &nmdc.SetIcon{String: s} }),
	textKind("SetLogo", func(s nmdc.String) nmdc.Message { return &nmdc.SetLogo{String: s} }),
	textKind("SetTopic", func(s nmdc.String) nmdc.Message { return &nmdc.SetTopic{String: s} }),
	textKind("HubTopic", func(s nmdc.String) nmdc.Message { return &nmdc.HubTopic{Text: string(s)} }),

	{"Version", false, func(t *rapid.T, e *nEnc) nmdc.Message { return &nmdc.Version{Vers: nRaw(t, "vers", "")} },
		func(e *nEnc, m nmdc.Message) string { return m.(*nmdc.Version).Vers }},
	{"ForceMove", false, func(t *rapid.T, e *nEnc) nmdc.Message { return &nmdc.ForceMove{Address: nRaw(t, "addr", "")} },
		func(e *nEnc, m nmdc.Message) string { return m.(*nmdc.ForceMove).Address }},
	{"Key", false, func(t *rapid.T, e *nEnc) nmdc.Message { return &nmdc.Key{Key: nRaw(t, "key", "")} },
		func(e *nEnc, m nmdc.Message) string { return m.(*nmdc.Key).Key }},
	{"FailOver", false, func(t *rapid.T, e *nEnc) nmdc.Message {
		m := &nmdc.FailOver{}
		n := rapid.IntRange(0, 4).Draw(t, "n")
		for i := 0; i < n; i++ {
			m.Host = append(m.Host, nNonEmpty(nRaw(t, "host", ",")))
		}
		return m
	}, func(e *nEnc, m nmdc.Message) string { return strings.Join(m.(*nmdc.FailOver).Host, ",") }},
	{"Supports", false, func(t *rapid.T, e *nEnc) nmdc.Message {
		m := &nmdc.Supports{}
		n := rapid.IntRange(0, 6).Draw(t, "n")
		for i := 0; i < n; i++ {
			if rapid.Bool().Draw(t, "known") {
				m.Ext = append(m.Ext, rapid.SampledFrom([]string{nmdc.ExtNoHello, nmdc.ExtNoGetINFO, nmdc.ExtUserIP2, nmdc.ExtTTHSearch, nmdc.ExtTLS, nmdc.ExtZPipe0, nmdc.ExtMCTo}).Draw(t, "ext"))
			} else {
				m.Ext = append(m.Ext, nNonEmpty(nRaw(t, "ext-raw", " ")))
			}
		}
		return m
	}, func(e *nEnc, m nmdc.Message) string { return strings.Join(m.(*nmdc.Supports).Ext, " ") }},

	{"Lock", false, drawLock, func(e *nEnc, mm nmdc.Message) string {
		m := mm.(*nmdc.Lock)
		s := m.Lock
		if !m.NoExt {
			s = "EXTENDEDPROTOCOL" + s
		}
		switch {
		case m.PK != "" && m.Ref != "":
			s += " Pk=" + m.PK + "Ref=" + m.Ref
		case m.PK != "":
			s += " Pk=" + m.PK
		case m.Ref != "":
			s += " Ref=" + m.Ref
		}
		return s
	}},

	namesKind("OpList", func(n nmdc.Names) nmdc.Message { return &nmdc.OpList{Names: n} }, func(m nmdc.Message) nmdc.Names { return m.(*nmdc.OpList).Names }),
	namesKind("BotList", func(n nmdc.Names) nmdc.Message { return &nmdc.BotList{Names: n} }, func(m nmdc.Message) nmdc.Names { return m.(*nmdc.BotList).Names }),
	{"UserIP", true, drawUserIP, func(e *nEnc, m nmdc.Message) string {
		s := ""
		for _, a := range m.(*nmdc.UserIP).List {
			s += e.nameBytes(a.Name) + " " + a.IP + "$$"
		}
		return s
	}},

	{"", true, drawChat, func(e *nEnc, mm nmdc.Message) string {
		m := mm.(*nmdc.ChatMessage)
		if m.Name == "" {
			return e.textBytes(m.Text)
		}
		return "<" + e.nameBytes(m.Name) + "> " + e.textBytes(m.Text)
	}},
	{"To:", true, drawPM, func(e *nEnc, mm nmdc.Message) string {
		m := mm.(*nmdc.PrivateMessage)
		return e.nameBytes(m.To) + " From: " + e.nameBytes(m.From) + " $<" + e.nameBytes(m.Name) + "> " + e.textBytes(m.Text)
	}},
	{"MCTo", true, func(t *rapid.T, e *nEnc) nmdc.Message {
		return &nmdc.MCTo{To: nName(t, e, "to", ""), From: nName(t, e, "from", " "), Text: nText(t, e, "text", "")}
	}, func(e *nEnc, mm nmdc.Message) string {
		m := mm.(*nmdc.MCTo)
		return e.nameBytes(m.To) + " $" + e.nameBytes(m.From) + " " + e.textBytes(m.Text)
	}},
	{"UserCommand", true, drawUserCommand, func(e *nEnc, mm nmdc.Message) string {
		m := mm.(*nmdc.UserCommand)
		s := fmt.Sprintf("%d %d", m.Typ, m.Context)
		if len(m.Path) == 0 {
			return s
		}
		return s + " " + wirePath(e, m.Path) + " $" + e.textBytes(m.Command)
	}},
	{"MyINFO", true, drawMyINFO, func(e *nEnc, mm nmdc.Message) string {
		pre, extras, post := wireMyINFO(e, mm.(*nmdc.MyINFO))
		return pre + strings.Join(extras, "") + post
	}},
	{"ConnectToMe", true, drawCTM, func(e *nEnc, mm nmdc.Message) string {
		m := mm.(*nmdc.ConnectToMe)
		s := e.nameBytes(m.Targ) + " " + m.Address + map[nmdc.CTMKind]string{nmdc.CTMActive: "", nmdc.CTMPassiveReq: "N", nmdc.CTMPassiveResp: "R"}[m.Kind]
		if m.Secure {
			s += "S"
		}
		if m.Kind == nmdc.CTMPassiveReq {
			s += " " + e.nameBytes(m.Src)
		}
		return s
	}},
	{"RevConnectToMe", true, func(t *rapid.T, e *nEnc) nmdc.Message {
		return &nmdc.RevConnectToMe{From: nName(t, e, "from", " "), To: nName(t, e, "to", "")}
	}, func(e *nEnc, mm nmdc.Message) string {
		m := mm.(*nmdc.RevConnectToMe)
		return e.nameBytes(m.From) + " " + e.nameBytes(m.To)
	}},
	{"Failed", true, func(t *rapid.T, e *nEnc) nmdc.Message { return &nmdc.Failed{Err: drawErrText(t, e)} },
		func(e *nEnc, m nmdc.Message) string { return wireErr(e, m.(*nmdc.Failed).Err) }},
	{"Error", true, func(t *rapid.T, e *nEnc) nmdc.Message { return &nmdc.Error{Err: drawErrText(t, e)} },
		func(e *nEnc, m nmdc.Message) string { return wireErr(e, m.(*nmdc.Error).Err) }},
	{"ADCGET", true, drawADCGet, func(e *nEnc, mm nmdc.Message) string {
		m := mm.(*nmdc.ADCGet)
		s := fmt.Sprintf("%s %s %d %d", e.textBytes(string(m.ContentType)), e.textBytes(string(m.Identifier)), m.Start, m.Length)
		if m.Compressed {
			s += " ZL1"
		}
		if m.DownloadedBytes != nil {
			s += fmt.Sprintf(" DB%d", *m.DownloadedBytes)
		}
		return s
	}},
	{"ADCSND", true, func(t *rapid.T, e *nEnc) nmdc.Message {
		return &nmdc.ADCSnd{
			ContentType: nmdc.String(nText(t, e, "type", " ")), Identifier: nmdc.String(nText(t, e, "id", " ")),
			Start: drawUint64(t, "start"), Length: drawUint64(t, "len"), Compressed: rapid.Bool().Draw(t, "zl"),
		}
	}, func(e *nEnc, mm nmdc.Message) string {
		m := mm.(*nmdc.ADCSnd)
		s := fmt.Sprintf("%s %s %d %d", e.textBytes(string(m.ContentType)), e.textBytes(string(m.Identifier)), m.Start, m.Length)
		if m.Compressed {
			s += " ZL1"
		}
		return s
	}},
	{"Direction", false, func(t *rapid.T, e *nEnc) nmdc.Message {
		return &nmdc.Direction{Upload: rapid.Bool().Draw(t, "up"), Number: uint(rapid.IntRange(1, 32767).Draw(t, "number"))}
	}, func(e *nEnc, mm nmdc.Message) string {
		m := mm.(*nmdc.Direction)
		if m.Upload {
			return fmt.Sprintf("Upload %d", m.Number)
		}
		return fmt.Sprintf("Download %d", m.Number)
	}},
	{"HubINFO", true, drawHubINFO, func(e *nEnc, mm nmdc.Message) string {
		m := mm.(*nmdc.HubINFO)
		soft := m.Soft.Name
		if m.Soft.Version != "" {
			soft += " " + m.Soft.Version
		}
		return strings.Join([]string{
			e.textBytes(m.Name), m.Host, e.textBytes(m.Desc), strconv.Itoa(m.I1), strconv.Itoa(m.I2), strconv.Itoa(m.I3), strconv.Itoa(m.I4),
			soft, e.textBytes(m.Owner), e.textBytes(m.State), m.Encoding,
		}, "$")
	}},
	{"Search", true, drawSearch, func(e *nEnc, mm nmdc.Message) string {
		m := mm.(*nmdc.Search)
		s := m.Address
		if s == "" {
			s = "Hub:" + e.nameBytes(m.User)
		}
		flags := "F?T"
		if m.SizeRestricted {
			flags = "T?" + boolTF(m.IsMaxSize)
		}
		typ := m.DataType
		if typ == 0 {
			typ = nmdc.DataTypeAny // not set
		}
		s += fmt.Sprintf(" %s?%d?%d?", flags, m.Size, typ)
		if m.DataType == nmdc.DataTypeTTH {
			return s + "TTH:" + b32(*m.TTH)
		}
		return s + strings.ReplaceAll(e.textBytes(m.Pattern), " ", "$")
	}},
	{"SR", true, drawSR, func(e *nEnc, mm nmdc.Message) string {
		m := mm.(*nmdc.SR)
		s := e.nameBytes(m.From) + " " + wirePath(e, m.Path)
		if !m.IsDir {
			s += fmt.Sprintf("\x05%d", m.Size)
		}
		s += fmt.Sprintf(" %d/%d\x05", m.FreeSlots, m.TotalSlots)
		if m.TTH != nil {
			s += "TTH:" + b32(*m.TTH)
		} else {
			s += e.textBytes(m.HubName)
		}
		s += " (" + m.HubAddress + ")"
		if m.To != "" {
			s += "\x05" + e.nameBytes(m.To)
		}
		return s
	}},
	{"SA", false, func(t *rapid.T, e *nEnc) nmdc.Message {
		return &nmdc.TTHSearchActive{TTH: drawHash(t, "tth"), Address: nRaw(t, "addr", "")}
	}, func(e *nEnc, mm nmdc.Message) string {
		m := mm.(*nmdc.TTHSearchActive)
		return b32(m.TTH) + " " + m.Address
	}},
	{"SP", true, func(t *rapid.T, e *nEnc) nmdc.Message {
		return &nmdc.TTHSearchPassive{TTH: drawHash(t, "tth"), User: nName(t, e, "user", "")}
	}, func(e *nEnc, mm nmdc.Message) string {
		m := mm.(*nmdc.TTHSearchPassive)
		return b32(m.TTH) + " " + e.nameBytes(m.User)
	}},
}

func wirePath(e *nEnc, path []string) string {
	var parts []string
	for _, p := range path {
		parts = append(parts, e.textBytes(p))
	}
	return strings.Join(parts, "\\")
}

// wireMyINFO gives the parts before and after the extra fields of the tag, whose order is free.
func wireMyINFO(e *nEnc, m *nmdc.MyINFO) (pre string, extras []string, post string) {
	mode := " "
	if m.Mode != nmdc.UserModeUnknown {
		mode = string([]byte{byte(m.Mode)})
	}
	flag := byte(m.Flag)
	if flag == 0 {
		flag = 1
	}
	pre = "$ALL " + e.nameBytes(m.Name) + " " + e.textBytes(m.Desc) +
		fmt.Sprintf("<%s V:%s,M:%s,H:%d/%d/%d,S:%d", m.Client.Name, m.Client.Version, mode, m.HubsNormal, m.HubsRegistered, m.HubsOperator, m.Slots)
	for k, v := range m.Extra {
		extras = append(extras, ","+k+":"+v)
	}
	sort.Strings(extras)
	post = ">$ $" + e.textBytes(m.Conn) + string([]byte{flag}) + "$" + e.textBytes(m.Email) + fmt.Sprintf("$%d$", m.ShareSize)
	return
}

func isPermutation(s string, parts []string) bool {
	if len(parts) == 0 {
		return s == ""
	}
	for i, p := range parts {
		if strings.HasPrefix(s, p) {
			rest := append(append([]string{}, parts[:i]...), parts[i+1:]...)
			if isPermutation(s[len(p):], rest) {
				return true
			}
		}
	}
	return false
}

// label names the kind in the statistics.
func (k nKind) label() string {
	switch {
	case k.typ == "":
		return "chat"
	case k.draw == nil:
		return "raw"
	}
	return k.typ
}

func (k nKind) frame(payload string) string {
	switch {
	case k.typ == "":
		return payload + "|"
	case payload == "":
		return "$" + k.typ + "|"
	}
	return "$" + k.typ + " " + payload + "|"
}

// line is the message as it must appear on the wire.
func (k nKind) line(e *nEnc, m nmdc.Message) string { return k.frame(k.wire(e, m)) }

// diff compares an encoded message to the reference.
func (k nKind) diff(e *nEnc, m nmdc.Message, got string) string {
	want := k.line(e, m)
	if got == want {
		return ""
	}
	if mi, ok := m.(*nmdc.MyINFO); ok {
		pre, extras, post := wireMyINFO(e, mi)
		pre, post = "$MyINFO "+pre, post+"|"
		if strings.HasPrefix(got, pre) && strings.HasSuffix(got[len(pre):], post) && isPermutation(got[len(pre):len(got)-len(post)], extras) {
			return ""
		}
	}
	return fmt.Sprintf("%T encoded as %q, want %q", m, clip(got, 600), clip(want, 600))
}

var nKindByType = func() map[string]nKind {
	m := map[string]nKind{}
	for _, k := range nKinds {
		m[k.typ] = k
	}
	return m
}()

// kindOf finds the kind of a message, also of a raw one.
func kindOf(m nmdc.Message) nKind {
	if r, ok := m.(*nmdc.RawMessage); ok {
		return nKind{typ: r.Typ, wire: func(e *nEnc, m nmdc.Message) string { return string(m.(*nmdc.RawMessage).Data) }}
	}
	k, ok := nKindByType[m.Type()]
	if !ok {
		panic("harness: no kind for " + m.Type())
	}
	return k
}

var nTextKinds = func() (out []nKind) {
	for _, k := range nKinds {
		if k.text {
			out = append(out, k)
		}
	}
	return
}()

var unknownCmd = rapid.OneOf(
	rapid.SampledFrom([]string{"X", "Foo", "NickList", "OpForceMove", "BotINFO2", "lock", "LOCK", "Zon", "a-b_c.d:e/f", "z", "0", strings.Repeat("c", 32), "To", "MyINFO:", "SRs"}),
	rapid.StringMatching(`[A-Za-z0-9/_.:\-]{1,32}`).Filter(func(s string) bool { return !nmdc.IsRegistered(s) }),
)

// drawRaw draws a message of a type the library does not know.
func drawRawMsg(t *rapid.T) *nmdc.RawMessage {
	m := &nmdc.RawMessage{Typ: unknownCmd.Draw(t, "cmd")}
	var b []byte
	switch rapid.IntRange(0, 2).Draw(t, "raw-kind") {
	case 0:
	case 1:
		b = []byte(nRaw(t, "raw", ""))
	case 2:
		b = rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "raw")
	}
	for i, c := range b {
		if c == 0 || c == '|' {
			b[i] = 'x'
		}
	}
	m.Data = b
	return m
}

// drawNMDC draws a message of any registered type, or now and then an unknown one.
func drawNMDC(t *rapid.T, e *nEnc) (nKind, nmdc.Message) {
	i := pick(t, "kind", len(nKinds)+1) - 1
	if i < 0 {
		m := drawRawMsg(t)
		return kindOf(m), m
	}
	k := nKinds[i]
	return k, k.draw(t, e)
}

// ---------------------------------------------------------------- comparison

// nNorm maps messages with the same meaning to one deeply comparable value.
func nNorm(m nmdc.Message) nmdc.Message {
	switch m := m.(type) {
	case *nmdc.Failed:
		if m.Err != nil {
			return &nmdc.Failed{Err: errors.New(m.Err.Error())}
		}
	case *nmdc.Error:
		if m.Err != nil {
			return &nmdc.Error{Err: errors.New(m.Err.Error())}
		}
	case *nmdc.OpList:
		return &nmdc.OpList{Names: append(nmdc.Names{}, m.Names...)}
	case *nmdc.BotList:
		return &nmdc.BotList{Names: append(nmdc.Names{}, m.Names...)}
	case *nmdc.UserIP:
		return &nmdc.UserIP{List: append([]nmdc.UserAddress{}, m.List...)}
	case *nmdc.FailOver:
		return &nmdc.FailOver{Host: append([]string{}, m.Host...)}
	case *nmdc.Supports:
		return &nmdc.Supports{Ext: append([]string{}, m.Ext...)}
	case *nmdc.UserCommand:
		c := *m
		c.Path = append([]string{}, m.Path...)
		return &c
	case *nmdc.SR:
		c := *m
		c.Path = append([]string{}, m.Path...)
		return &c
	case *nmdc.MyINFO:
		c := *m
		c.Extra = map[string]string{}
		for k, v := range m.Extra {
			c.Extra[k] = v
		}
		return &c
	case *nmdc.RawMessage:
		return &nmdc.RawMessage{Typ: m.Typ, Data: append([]byte{}, m.Data...)}
	}
	return nDefault(m)
}

func nEqual(a, b nmdc.Message) bool {
	return reflect.DeepEqual(nNorm(a), nNorm(b))
}

// nDefault fills in what an unset field stands for.
func nDefault(m nmdc.Message) nmdc.Message {
	if s, ok := m.(*nmdc.Search); ok && s.DataType == 0 {
		c := *s
		c.DataType = nmdc.DataTypeAny
		return &c
	}
	return m
}

// nShow prints a message including what its pointers point to.
func nShow(m nmdc.Message) string {
	switch m := m.(type) {
	case nil:
		return "<nil>"
	case *nmdc.Failed:
		return fmt.Sprintf("Failed{%q}", fmt.Sprint(m.Err))
	case *nmdc.Error:
		return fmt.Sprintf("Error{%q}", fmt.Sprint(m.Err))
	case *nmdc.ADCGet:
		db := "-"
		if m.DownloadedBytes != nil {
			db = fmt.Sprint(*m.DownloadedBytes)
		}
		c := *m
		c.DownloadedBytes = nil
		return fmt.Sprintf("%#v db=%s", c, db)
	case *nmdc.Search:
		if m.TTH != nil {
			c := *m
			c.TTH = nil
			return fmt.Sprintf("%#v tth=%s", c, b32(*m.TTH))
		}
	case *nmdc.SR:
		if m.TTH != nil {
			c := *m
			c.TTH = nil
			return fmt.Sprintf("%#v tth=%s", c, b32(*m.TTH))
		}
	}
	return fmt.Sprintf("%T%+q", m, fmt.Sprintf("%#v", reflect.ValueOf(m).Elem().Interface()))
}

// nCopy makes an independent copy of a message.
func nCopy(m nmdc.Message) nmdc.Message {
	v := reflect.New(reflect.TypeOf(m).Elem())
	v.Elem().Set(reflect.ValueOf(m).Elem())
	c := v.Interface().(nmdc.Message)
	switch c := c.(type) {
	case *nmdc.Search:
		if c.TTH != nil {
			h := *c.TTH
			c.TTH = &h
		}
	case *nmdc.ADCGet:
		if c.DownloadedBytes != nil {
			x := *c.DownloadedBytes
			c.DownloadedBytes = &x
		}
	}
	c = nNorm(c)
	if s, ok := c.(*nmdc.SR); ok && s.TTH != nil {
		h := *s.TTH
		s.TTH = &h
	}
	return c
}

// nInteresting tells if the message has a field that is not empty.
func nInteresting(m nmdc.Message) bool {
	return !reflect.ValueOf(m).Elem().IsZero() || m.Type() != ""
}

func isSpaceRune(r rune) bool { return unicode.IsSpace(r) }

var _ = bytes.Equal
