package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"

	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"
	dctypes "github.com/direct-connect/go-dc/types"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- N08

var altEscapes = map[rune][]string{
	'&': {"&amp;", "&#38;", "&#x26;"}, '$': {"&#36;", "/%DCN036%/", "&#x24;"}, '|': {"&#124;", "/%DCN124%/", "&#x7C;"}, '`': {"`", "/%DCN096%/"}, '~': {"~", "/%DCN126%/"},
	'\x05': {"/%DCN005%/"}, '<': {"<", "&lt;"}, '>': {">", "&gt;"}, '"': {"\"", "&quot;", "&#34;"},
}

// alt writes the text with any of the escapes that clients use.
func alt(t *rapid.T, s string, literal string) string {
	var b strings.Builder
	for _, r := range s {
		opts := altEscapes[r]
		if len(opts) == 0 {
			b.WriteRune(r)
			continue
		}
		o := rapid.SampledFrom(opts).Draw(t, "escape")
		if o == string(r) && strings.ContainsRune(literal, r) {
			// may not appear as it is here
			o = opts[1]
		}
		b.WriteString(o)
	}
	return b.String()
}

// altRest is for a text at the end of a message: dollar signs may be as they are there.
func altRest(t *rapid.T, s string) string {
	if !strings.Contains(s, "$") || rapid.Bool().Draw(t, "escape-all") {
		return alt(t, s, "")
	}
	parts := strings.Split(s, "$")
	for i := range parts {
		parts[i] = alt(t, parts[i], "")
	}
	return strings.Join(parts, "$")
}

func altName(t *rapid.T, s string) string { return alt(t, s, "<>") }

var altTokens = []string{"a", "B", "0", " ", "  ", "é", "日本", "&", "$", "|", "`", "~", "\x05", "<", ">", "\"", "[RU]", "&amp;", "&#36;", "#", ";", "/", "%", "\\", "n a m e", ",", ":", "?", "(", ")", "\n", "\r\n"}

func altText(t *rapid.T, label, avoid string) string {
	return nFilter(nUTF8, strings.Join(rapid.SliceOfN(rapid.SampledFrom(altTokens), 0, 6).Draw(t, label), ""), avoid)
}

// dollarText may have commands inside.
func dollarText(t *rapid.T, label string) string {
	s := altText(t, label, "")
	if pick(t, label+"-inside", 4) == 0 {
		s += rapid.SampledFrom([]string{" $<", "$", " $", "$To: a From: b $<b> ", "$Kick a", " From: ", "x $<y> ", "\\$", "$$"}).Draw(t, label+"-command") + altText(t, label+"-more", "")
	}
	return s
}

func spaced(t *rapid.T, s string) string {
	return strings.Repeat(" ", rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "sp1")) + s + strings.Repeat(" ", rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "sp2"))
}

func plainToken(t *rapid.T, label string) string {
	return rapid.SampledFrom([]string{"", "x", "++", "ApexDC++", "0.868", "1.2.3", "two words", "é", "z", "a/b", "#", "512"}).Draw(t, label)
}

// escapePieces are ways to write a text, and what they mean. No sequence of them forms another one.
var escapePieces = [][2]string{
	{"/%DCN000%/", "\x00"}, {"/%DCN005%/", "\x05"}, {"/%DCN036%/", "$"}, {"/%DCN096%/", "`"}, {"/%DCN124%/", "|"}, {"/%DCN126%/", "~"},
	{"&#36;", "$"}, {"&#124;", "|"}, {"&amp;", "&"}, {"&lt;", "<"}, {"&gt;", ">"}, {"&quot;", "\""}, {"&#x24;", "$"},
	{"a", "a"}, {" ", " "}, {"é", "é"}, {"#", "#"}, {";", ";"}, {"%", "%"}, {"0", "0"}, {"DCN", "DCN"}, {"/%DCN047%/", "/%DCN047%/"}, {"/%DCN001%/", "/%DCN001%/"}, {"/%DCN36%/", "/%DCN36%/"}, {"/%dcn036%/", "/%dcn036%/"}, {"/%DCN256%/", "/%DCN256%/"}, {"amp;", "amp;"}, {"<", "<"}, {"~", "~"}, {"/", "/"}, {"//", "//"},
}

func TestN08_Escapes(t *testing.T) {
	check(t, 4000, "the text has at least two escapes", func(c *C) {
		var in, want string
		n := 0
		for k := rapid.IntRange(0, 12).Draw(c.T, "pieces"); k > 0; k-- {
			p := escapePieces[pick(c.T, "piece", len(escapePieces))]
			in += p[0]
			want += p[1]
			if p[0] != p[1] {
				n++
			}
		}
		if pick(c.T, "late", 6) == 0 {
			pad := strings.Repeat("x", 1+rapid.SampledFrom([]int{10, 200, 3000, 5000, 70000}).Draw(c.T, "pad")-pick(c.T, "pad-less", 10))
			in, want = pad+in, pad+want
		}
		c.Key("%q", clip(in, 300))
		c.NonTrivial(n >= 2)
		buf := []byte(in)
		if got := string(nmdc.UnescapeBytes(buf)); got != want {
			c.Fatalf("UnescapeBytes(%q) is %q, want %q", clip(in, 300), clip(got, 300), clip(want, 300))
		}
		if string(buf) != in {
			c.Fatalf("UnescapeBytes(%q) changed its argument to %q", clip(in, 300), clip(string(buf), 300))
		}
		var s nmdc.String
		if err := s.UnmarshalNMDC(nil, buf); err != nil || string(s) != want {
			c.Fatalf("the text %q is decoded as %q, %v, want %q", clip(in, 300), clip(string(s), 300), err, clip(want, 300))
		}
		if len(in) <= 250 {
			var name nmdc.Name
			if err := name.UnmarshalNMDC(nil, buf); err != nil || string(name) != want {
				c.Fatalf("the name %q is decoded as %q, %v, want %q", in, name, err, want)
			}
		}
		if strings.HasPrefix(in, "<") || in == "" || len(in) > 30000 {
			return
		}
		m, err := nmdc.Unmarshal(nil, []byte(in+"|"))
		if err != nil {
			c.Fatalf("the chat line %q: %v", clip(in, 300), err)
		}
		if chat, ok := m.(*nmdc.ChatMessage); !ok || chat.Name != "" || chat.Text != want {
			c.Fatalf("the chat line %q is decoded as %s, want the text %q", clip(in, 300), clip(nShow(m), 300), clip(want, 300))
		}
	})
}

// variant is a payload as some client sends it, and what it means.
type variant func(t *rapid.T) (payload string, want nmdc.Message)

func smallInt(t *rapid.T, label string) int {
	return rapid.SampledFrom([]int{0, 1, 2, 9, 10, 34, 92, 1000, 999999999, 1 << 40}).Draw(t, label)
}

func maybeLower(t *rapid.T, s string) string {
	if rapid.IntRange(0, 3).Draw(t, "lower") == 0 {
		return strings.ToLower(s)
	}
	return s
}

func variantMyINFO(t *rapid.T) (string, nmdc.Message) {
	m := &nmdc.MyINFO{Name: altText(t, "name", nNameForbidden+" ")}
	p := "$ALL " + altName(t, m.Name) + " "
	mode := rapid.SampledFrom([]string{" ", "A", "P", "5"}).Draw(t, "legacy")
	if rapid.IntRange(0, 2).Draw(t, "tag") == 0 {
		// no tag at all
		m.Desc = altText(t, "desc", "")
		p += alt(t, m.Desc, "<")
		if mode != " " {
			m.Mode = nmdc.UserMode(mode[0])
		}
	} else {
		m.Desc = altText(t, "desc", "")
		p += alt(t, m.Desc, "")
		var first string
		m.Client.Name = plainToken(t, "client")
		m.Client.Version = plainToken(t, "version")
		if pick(t, "client-words", 3) == 0 {
			m.Client.Name += rapid.SampledFrom([]string{" v", " V", " vclient", " V2 v2", " v1 ", "  v", " m", " h:"[:2]}).Draw(t, "client-word")
		}
		switch rapid.IntRange(0, 3).Draw(t, "client-form") {
		case 0:
			first = m.Client.Name + " V:" + m.Client.Version
		case 1:
			first = m.Client.Name + " v:" + m.Client.Version
		case 2: // no version
			m.Client.Version = ""
			first = m.Client.Name
		case 3: // no client
			m.Client = dctypes.Software{}
		}
		fields := []string{}
		if rapid.Bool().Draw(t, "has-M") {
			v := rapid.SampledFrom([]string{"A", "P", "5", " ", "", "X", "AP", "Active", "  "}).Draw(t, "M")
			if len(v) == 1 && v != " " {
				m.Mode = nmdc.UserMode(v[0])
			}
			fields = append(fields, maybeLower(t, "M")+":"+v)
		}
		if rapid.Bool().Draw(t, "has-H") {
			v := ""
			switch rapid.IntRange(0, 2).Draw(t, "H") {
			case 0:
				m.HubsNormal, m.HubsRegistered, m.HubsOperator = smallInt(t, "H1"), smallInt(t, "H2"), smallInt(t, "H3")
				v = spaced(t, strconv.Itoa(m.HubsNormal)) + "/" + spaced(t, strconv.Itoa(m.HubsRegistered)) + "/" + spaced(t, strconv.Itoa(m.HubsOperator))
			case 1:
				m.HubsNormal = smallInt(t, "H1")
				v = spaced(t, strconv.Itoa(m.HubsNormal))
			case 2:
				m.HubsNormal = 1
			}
			fields = append(fields, maybeLower(t, "H")+":"+v)
		}
		if rapid.Bool().Draw(t, "has-S") {
			m.Slots = smallInt(t, "S")
			fields = append(fields, maybeLower(t, "S")+":"+spaced(t, strconv.Itoa(m.Slots)))
		}
		for i := rapid.IntRange(0, 2).Draw(t, "extras"); i > 0; i-- {
			k := rapid.SampledFrom([]string{"L", "B", "F", "O", "ext", "Ext", "U", "A", "Z", "{", "`", "@", "[", "1"}).Draw(t, "extra")
			v := rapid.SampledFrom([]string{"", "512", "a:b", "x y", "1/2"}).Draw(t, "extra-val")
			if m.Extra == nil {
				m.Extra = map[string]string{}
			}
			if _, dup := m.Extra[k]; dup {
				continue
			}
			m.Extra[k] = v
			if len(k) == 1 {
				k = maybeLower(t, k)
			}
			fields = append(fields, k+":"+v)
		}
		if len(fields) > 1 {
			fields = rapid.Permutation(fields).Draw(t, "order")
		}
		tag := strings.Join(append([]string{first}, fields...), ",")
		if first == "" {
			tag = strings.Join(fields, rapid.SampledFrom([]string{",", ",,"}).Draw(t, "sep"))
		}
		tag += rapid.SampledFrom([]string{"", "", ","}).Draw(t, "trailing")
		end := rapid.SampledFrom([]string{">", ">", ""}).Draw(t, "end")
		if tag == "" {
			end = ">"
		}
		p += "<" + tag + end
	}
	p += "$" + mode + "$"
	if rapid.IntRange(0, 3).Draw(t, "conn") > 0 {
		m.Conn = altText(t, "conn", "")
		m.Flag = nmdc.UserFlag(rapid.SampledFrom([]byte{1, 2, '.', 'A', 'K', ' ', 0x20, 0x7f, 0x80, 0xff}).Draw(t, "flag"))
		p += alt(t, m.Conn, "") + string([]byte{byte(m.Flag)})
	}
	m.Email = altText(t, "email", "")
	p += "$" + alt(t, m.Email, "") + "$"
	switch rapid.IntRange(0, 4).Draw(t, "share") {
	case 0:
	case 1:
		p += rapid.SampledFrom([]string{"BOT ", " ", "-1", "1.5", "12GB", "18446744073709551616", "0x10", "+1"}).Draw(t, "bad-share")
	default:
		m.ShareSize = drawUint64(t, "share")
		p += spaced(t, strconv.FormatUint(m.ShareSize, 10))
	}
	return p + "$", m
}

func isBreak(r byte) bool { return r == '\n' || r == '\r' }

// variantChat draws a chat line as a string of tokens, and splits it by the rule: the name ends at
// the first '>' before a white space or the end of the message; if there is none, at the last '>'
// before the first line break.
func variantChat(t *rapid.T) (string, nmdc.Message) {
	toks := []string{">", "> ", ">", " ", "a", "bob", "<", "é", "[OP]", ">\n", "\n", "\r\n", ">\u00a0", ">\u2003", ">>", ">\u0085", "> >", ">x", "text", "日本"}
	for i := 0; i < 10; i++ {
		body := strings.Join(rapid.SliceOfN(rapid.SampledFrom(toks), 1, 9).Draw(t, "body"), "")
		line := body
		if j := strings.IndexAny(line, "\r\n"); j >= 0 {
			line = line[:j]
		}
		name, text, last := "", "", -1
		found := false
		for j := 0; j < len(line); j++ {
			if line[j] != '>' {
				continue
			}
			last = j
			rest := body[j+1:]
			r, sz := utf8.DecodeRuneInString(rest)
			if rest == "" || unicode.IsSpace(r) {
				name, text, found = body[:j], rest[sz:], true
				break
			}
		}
		if !found && last >= 0 {
			name, text, found = body[:last], body[last+1:], true
		}
		if !found || strings.ContainsAny(name, "\t") || (name == "" && (text == "" || text[0] == '<')) {
			continue
		}
		return "<" + body, &nmdc.ChatMessage{Name: name, Text: text}
	}
	return "<bob>text", &nmdc.ChatMessage{Name: "bob", Text: "text"}
}

func variantChatNoName(t *rapid.T) (string, nmdc.Message) {
	s := altText(t, "text", "")
	if s == "" || s[0] == '<' {
		s = " " + s
	}
	p := alt(t, s, "")
	return p, &nmdc.ChatMessage{Text: s}
}

func variantPM(t *rapid.T) (string, nmdc.Message) {
	m := &nmdc.PrivateMessage{To: altText(t, "to", nNameForbidden), From: altText(t, "from", nNameForbidden), Name: altText(t, "name", nNameForbidden), Text: dollarText(t, "text")}
	return altName(t, m.To) + " From: " + altName(t, m.From) + " $<" + altName(t, m.Name) + "> " + altRest(t, m.Text), m
}

func variantSearch(t *rapid.T) (string, nmdc.Message) {
	m := &nmdc.Search{
		SizeRestricted: rapid.Bool().Draw(t, "restricted"), IsMaxSize: rapid.Bool().Draw(t, "max"),
		DataType: nmdc.DataType(rapid.SampledFrom([]int{1, 2, 8, 9, 9, 9, 10, 13, 14, 99}).Draw(t, "type")),
	}
	p := ""
	if rapid.Bool().Draw(t, "passive") {
		m.User = altText(t, "user", nNameForbidden+" ")
		p = "Hub:" + altName(t, m.User)
	} else {
		m.Address = rapid.SampledFrom([]string{"1.2.3.4:412", "[::1]:412", "host", "1.2.3.4:412S", "hub:x"}).Draw(t, "addr")
		p = m.Address
	}
	p += " " + boolTF(m.SizeRestricted) + "?" + boolTF(m.IsMaxSize) + "?"
	switch rapid.IntRange(0, 3).Draw(t, "size-form") {
	case 0: // no size
	case 1:
		p += "-" + rapid.SampledFrom([]string{"1", "0", "500", "18446744073709551615"}).Draw(t, "neg")
		m.SizeRestricted = false
	default:
		m.Size = drawUint64(t, "size")
		p += spaced(t, strconv.FormatUint(m.Size, 10))
	}
	p += "?" + spaced(t, strconv.Itoa(int(m.DataType))) + "?"
	if m.DataType == nmdc.DataTypeTTH {
		h := drawHash(t, "tth")
		m.TTH = &h
		p += "TTH:" + b32(h) + rapid.SampledFrom([]string{"", "$"}).Draw(t, "trailing")
		return p, m
	}
	for _, r := range altText(t, "pattern", "") {
		if r == ' ' {
			// a separator, but a space works too
			p += rapid.SampledFrom([]string{"$", "$", " "}).Draw(t, "space")
		} else {
			p += alt(t, string(r), "")
		}
		m.Pattern += string(r)
	}
	if rapid.IntRange(0, 3).Draw(t, "trailing-sep") == 0 {
		p += "$"
		m.Pattern += " "
	}
	return p, m
}

func variantSR(t *rapid.T) (string, nmdc.Message) {
	m := &nmdc.SR{From: altText(t, "from", nNameForbidden+" "), IsDir: rapid.Bool().Draw(t, "dir"), FreeSlots: smallInt(t, "free"), TotalSlots: smallInt(t, "total")}
	p := altName(t, m.From) + " "
	for i := rapid.IntRange(0, 3).Draw(t, "path"); i >= 0; i-- {
		s := altText(t, "path", "\\/\x05") + rapid.SampledFrom([]string{"", "", " 12", " 2", "(1)", ".iso", " ", "7 7"}).Draw(t, "ext")
		if i > 0 && len(m.Path) == 0 && rapid.IntRange(0, 3).Draw(t, "drive") == 0 {
			s = ""
		}
		m.Path = append(m.Path, s)
	}
	for i, s := range m.Path {
		if i > 0 {
			p += "\\"
		}
		for _, r := range s {
			if o := alt(t, string(r), ""); strings.ContainsAny(o, "/") {
				// an escape with slashes would look like the slots
				p += nUTF8.textBytes(string(r))
			} else {
				p += o
			}
		}
	}
	slots := fmt.Sprintf(" %d/%d", m.FreeSlots, m.TotalSlots)
	if !m.IsDir {
		m.Size = drawUint64(t, "size")
		slots = fmt.Sprintf("\x05%d%s", m.Size, slots)
	}
	p += slots + "\x05"
	if rapid.Bool().Draw(t, "tth") {
		h := drawHash(t, "hash")
		m.TTH = &h
		p += "TTH:" + b32(h)
	} else {
		m.HubName = rapid.SampledFrom([]string{"", "Hub", "Hub (RU)", "x (y) (z", " (", "(a) b", "two words", "a)b", "a(b", "TTH", "tth:x"}).Draw(t, "hub")
		p += m.HubName
	}
	m.HubAddress = rapid.SampledFrom([]string{"", "1.2.3.4:411", "dc.example.com", "[::1]:411", "(x"}).Draw(t, "addr")
	p += " (" + m.HubAddress + ")"
	if rapid.Bool().Draw(t, "target") {
		m.To = nNonEmpty(altText(t, "to", nNameForbidden))
		p += "\x05" + altName(t, m.To)
	}
	return p, m
}

func variantUserIP(t *rapid.T) (string, nmdc.Message) {
	m := &nmdc.UserIP{}
	p := ""
	n := rapid.IntRange(1, 4).Draw(t, "n")
	for i := 0; i < n; i++ {
		a := nmdc.UserAddress{Name: nNonEmpty(altText(t, "name", nNameForbidden)), IP: rapid.SampledFrom([]string{"1.2.3.4", "::1", "", "", "fe80::1"}).Draw(t, "ip")}
		if i > 0 {
			p += "$$"
		}
		if a.IP == "" {
			a.Name = nNonEmpty(strings.ReplaceAll(a.Name, " ", ""))
			p += altName(t, a.Name)
		} else {
			p += altName(t, a.Name) + " " + a.IP
		}
		m.List = append(m.List, a)
	}
	p += rapid.SampledFrom([]string{"", "$$", "$$\r"}).Draw(t, "end")
	return p, m
}

func variantNames(t *rapid.T) (string, nmdc.Message) {
	var names nmdc.Names
	p := ""
	for i := rapid.IntRange(1, 4).Draw(t, "n"); i > 0; i-- {
		s := nNonEmpty(altText(t, "name", nNameForbidden))
		if p != "" {
			p += "$$"
		}
		p += altName(t, s)
		names = append(names, s)
	}
	p += rapid.SampledFrom([]string{"", "$$"}).Draw(t, "end")
	if rapid.Bool().Draw(t, "ops") {
		return p, &nmdc.OpList{Names: names}
	}
	return p, &nmdc.BotList{Names: names}
}

func variantHubINFO(t *rapid.T) (string, nmdc.Message) {
	m := &nmdc.HubINFO{}
	n := rapid.IntRange(1, 15).Draw(t, "fields")
	var f []string
	text := func(dst *string) {
		s := altText(t, "text", "")
		if len(f) < n {
			*dst = s
		}
		f = append(f, alt(t, s, ""))
	}
	num := func(dst *int) {
		v := smallInt(t, "num")
		if rapid.IntRange(0, 3).Draw(t, "neg") == 0 {
			v = -v
		}
		if len(f) < n {
			*dst = v
		}
		f = append(f, spaced(t, strconv.Itoa(v)))
	}
	raw := func(dst *string) {
		s := rapid.SampledFrom([]string{"", "dc.example.com:411", "CP1251", "UTF-8", "é"}).Draw(t, "raw")
		if len(f) < n {
			*dst = s
		}
		f = append(f, s)
	}
	text(&m.Name)
	raw(&m.Host)
	text(&m.Desc)
	num(&m.I1)
	num(&m.I2)
	num(&m.I3)
	num(&m.I4)
	soft := rapid.SampledFrom([]dctypes.Software{{}, {Name: "PtokaX"}, {Name: "Verlihub", Version: "1.1.0.12"}, {Name: "PtokaX DC Hub", Version: "0.5"}, {Name: "", Version: "1"}}).Draw(t, "soft")
	if len(f) < n {
		m.Soft = soft
	}
	if soft.Version != "" {
		f = append(f, soft.Name+" "+soft.Version)
	} else {
		f = append(f, soft.Name)
	}
	text(&m.Owner)
	text(&m.State)
	raw(&m.Encoding)
	for len(f) < n {
		f = append(f, rapid.SampledFrom([]string{"", "admin@example.com", "x", "1"}).Draw(t, "more"))
	}
	if n >= 12 {
		// other meaning of the last fields
		m.Encoding = ""
	}
	return strings.Join(f[:n], "$"), m
}

func variantUserCommand(t *rapid.T) (string, nmdc.Message) {
	m := &nmdc.UserCommand{
		Typ: nmdc.UCmdType(rapid.SampledFrom([]int{0, 1, 2, 255}).Draw(t, "type")), Context: nmdc.UCmdContext(rapid.IntRange(0, 15).Draw(t, "context")),
	}
	p := fmt.Sprintf("%d %d", m.Typ, m.Context)
	p += rapid.SampledFrom([]string{"", "", "", "&#124;", "$", "x", "/%DCN124%/", "&#124;&#124;"}).Draw(t, "tail")
	n := rapid.IntRange(0, 3).Draw(t, "path")
	if n == 0 {
		return p + rapid.SampledFrom([]string{"", " ", "  "}).Draw(t, "end"), m
	}
	p += " "
	for i := 0; i < n; i++ {
		s := nNonEmpty(strings.TrimSpace(altText(t, "item", "\\")))
		m.Path = append(m.Path, s)
		if i > 0 {
			p += rapid.SampledFrom([]string{"\\", "\\", "\\\\"}).Draw(t, "sep")
		}
		p += alt(t, s, "")
	}
	if pick(t, "no-cmd", 4) != 0 {
		m.Command = dollarText(t, "cmd") + "c"
	}
	p += rapid.SampledFrom([]string{"", " ", "  ", "\\", "\\ "}).Draw(t, "pad") + "$" + altRest(t, m.Command) + rapid.SampledFrom([]string{"", " ", "\r\n"}).Draw(t, "end")
	return p, m
}

func variantLock(t *rapid.T) (string, nmdc.Message) {
	m := &nmdc.Lock{NoExt: rapid.Bool().Draw(t, "noext"), Lock: rapid.SampledFrom([]string{"", "ABC", "EXTENDEDPROTOCO", "a\x05b"}).Draw(t, "lock")}
	p := m.Lock
	if !m.NoExt {
		p = "EXTENDEDPROTOCOL" + p
	}
	switch rapid.IntRange(0, 4).Draw(t, "form") {
	case 0:
	case 1:
		m.PK = "DCPLUSPLUS0.777"
		p += " Pk=" + m.PK
	case 2: // without the prefix
		m.PK = "verlihub 1.1"
		p += " " + m.PK
	case 3:
		m.PK, m.Ref = "x", "127.0.0.1:411"
		p += " Pk=xRef=127.0.0.1:411"
	case 4:
		m.Ref = "127.0.0.1:411"
		p += " Ref=127.0.0.1:411"
	}
	return p, m
}

func variantSupports(t *rapid.T) (string, nmdc.Message) {
	m := &nmdc.Supports{}
	p := rapid.SampledFrom([]string{"", " ", "  "}).Draw(t, "start")
	for i := rapid.IntRange(1, 5).Draw(t, "n"); i > 0; i-- {
		e := rapid.SampledFrom([]string{"NoHello", "NoGetINFO", "UserIP2", "x", "TLS", "ZPipe0"}).Draw(t, "ext")
		m.Ext = append(m.Ext, e)
		p += e + rapid.SampledFrom([]string{" ", " ", "  ", "   "}).Draw(t, "sep")
	}
	return p, m
}

func variantText(t *rapid.T) (string, nmdc.Message) {
	s := dollarText(t, "text")
	name := altText(t, "name", nNameForbidden)
	switch rapid.IntRange(0, 5).Draw(t, "type") {
	case 0:
		return altRest(t, s), &nmdc.HubName{String: nmdc.String(s)}
	case 1:
		return altRest(t, s), &nmdc.HubTopic{Text: s}
	case 2:
		return altName(t, name), &nmdc.Hello{Name: nmdc.Name(name)}
	case 3:
		return altName(t, name), &nmdc.Quit{Name: nmdc.Name(name)}
	case 4:
		to := altText(t, "to", nNameForbidden+" ")
		return altName(t, to) + " " + altName(t, name), &nmdc.RevConnectToMe{From: to, To: name}
	}
	from := altText(t, "from", nNameForbidden+" ")
	return altName(t, name) + " $" + altName(t, from) + " " + altRest(t, s), &nmdc.MCTo{To: name, From: from, Text: s}
}

// variantADCGet has options in any order, among them some that are not known.
func variantADCGet(t *rapid.T) (string, nmdc.Message) {
	m := &nmdc.ADCGet{ContentType: nmdc.String(rapid.SampledFrom([]string{"file", "tthl", "list"}).Draw(t, "type")), Identifier: nmdc.String(strings.Replace(altText(t, "id", " "), " ", "", -1)), Start: drawUint64(t, "start"), Length: int64(smallInt(t, "length"))}
	p := alt(t, string(m.ContentType), "") + " " + altRest(t, string(m.Identifier)) + " " + strconv.FormatUint(m.Start, 10) + " "
	if pick(t, "all", 3) == 0 {
		m.Length = -1
	}
	p += strconv.FormatInt(m.Length, 10)
	var opts []string
	if rapid.Bool().Draw(t, "zl1") {
		opts = append(opts, "ZL1")
		m.Compressed = true
	}
	if rapid.Bool().Draw(t, "db") {
		v := drawUint64(t, "bytes")
		opts = append(opts, "DB"+strconv.FormatUint(v, 10))
		m.DownloadedBytes = &v
	}
	for i := rapid.IntRange(0, 2).Draw(t, "unknown"); i > 0; i-- {
		opts = append(opts, rapid.SampledFrom([]string{"", "ZL2", "ZL10", "ZL", "zl1", "XX1", "xZL1", "1", "D", "db5", "xDB5", "ZB5"}).Draw(t, "option"))
	}
	if len(opts) > 1 {
		opts = rapid.Permutation(opts).Draw(t, "order")
	}
	for _, o := range opts {
		p += " " + o
	}
	return p, m
}

var variants = []struct {
	name string
	f    variant
}{
	{"ADCGET", variantADCGet},
	{"MyINFO", variantMyINFO}, {"MyINFO", variantMyINFO}, {"MyINFO", variantMyINFO}, {"chat", variantChat}, {"chat", variantChat}, {"nameless", variantChatNoName}, {"PM", variantPM}, {"Search", variantSearch}, {"Search", variantSearch},
	{"SR", variantSR}, {"SR", variantSR}, {"UserIP", variantUserIP}, {"names", variantNames}, {"HubINFO", variantHubINFO}, {"HubINFO", variantHubINFO}, {"UserCommand", variantUserCommand},
	{"Lock", variantLock}, {"Supports", variantSupports}, {"text", variantText},
}

// nMeaning maps forms that mean the same to one.
func nMeaning(m nmdc.Message) nmdc.Message {
	m = nCopy(m)
	switch m := m.(type) {
	case *nmdc.MyINFO:
		if m.Flag == 0 {
			m.Flag = nmdc.FlagStatusNormal
		}
	case *nmdc.Search:
		if !m.SizeRestricted {
			m.IsMaxSize = true
		}
	}
	return m
}

func TestN08_Variants(t *testing.T) {
	check(t, 12000, "every case (the canonical form is one of the variants)", func(c *C) {
		v := variants[pick(c.T, "variant", len(variants))]
		payload, want := v.f(c.T)
		k := kindOf(want)
		line := k.frame(payload)
		c.Label("%s", v.name)
		c.Key("%q", line)
		c.NonTrivial(true)
		got, err := nmdc.Unmarshal(nil, []byte(line))
		if err != nil {
			c.Fatalf("%q: %v, want %s", line, err, nShow(want))
		}
		if !nEqual(got, want) {
			c.Fatalf("%q:\n got %s\nwant %s", line, nShow(got), nShow(want))
		}
		m := nmdc.NewMessage(k.typ)
		if err := m.UnmarshalNMDC(nil, []byte(payload)); err != nil || !nEqual(m, want) {
			c.Fatalf("%q: unmarshal %v:\n got %s\nwant %s", payload, err, nShow(m), nShow(want))
		}
		out, err := nmdc.Marshal(nil, got)
		if err != nil {
			c.Fatalf("%q: %s cannot be encoded again: %v", line, nShow(got), err)
		}
		again, err := nmdc.Unmarshal(nil, out)
		if err != nil {
			c.Fatalf("%q, encoded again as %q: %v", line, out, err)
		}
		if !nEqual(nMeaning(again), nMeaning(got)) {
			c.Fatalf("%q, encoded again as %q:\n got %s\nwant %s", line, out, nShow(again), nShow(got))
		}
	})
}

// ---------------------------------------------------------------- N09

// numSlot is a numeric field inside of an otherwise valid payload.
type numSlot struct {
	name   string
	typ    string
	build  func(num string) string
	get    func(m nmdc.Message) *big.Int
	signed bool // a Go int; otherwise a uint64
	spaces bool // may be surrounded by spaces
	// value overrides the meaning of a number text; ok is false if it must be rejected
	value func(s string) (v *big.Int, ok bool)
}

func bigI(v int) *big.Int    { return big.NewInt(int64(v)) }
func bigU(v uint64) *big.Int { return new(big.Int).SetUint64(v) }

func digitsOnly(s string) bool {
	for _, c := range []byte(s) {
		if c < '0' || c > '9' {
			return false
		}
	}
	return s != ""
}

// refNumber is the number a text stands for, if any.
func refNumber(s string, signed bool, min, max *big.Int) (*big.Int, bool) {
	s = strings.Trim(s, " ")
	neg := false
	if signed && s != "" && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if !digitsOnly(s) {
		return nil, false
	}
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("harness: " + s)
	}
	if neg {
		v.Neg(v)
	}
	if v.Cmp(min) < 0 || v.Cmp(max) > 0 {
		return nil, false
	}
	return v, true
}

var (
	bigMaxU = new(big.Int).SetUint64(1<<64 - 1)
	bigMaxI = big.NewInt(1<<63 - 1)
	bigMinI = big.NewInt(-1 << 63)
	bigZero = new(big.Int)
)

func hubInfoSlot(i int) numSlot {
	return numSlot{name: fmt.Sprintf("HubINFO.I%d", i), typ: "HubINFO", signed: true, spaces: true, build: func(n string) string {
		f := []string{"name", "host", "desc", "1", "2", "3", "4", "soft 1", "owner", "state", "enc"}
		f[2+i] = n
		return strings.Join(f, "$")
	}, get: func(m nmdc.Message) *big.Int {
		h := m.(*nmdc.HubINFO)
		return bigI([]int{h.I1, h.I2, h.I3, h.I4}[i-1])
	}}
}

func myInfoSlot(name string, tag func(n string) string, get func(m *nmdc.MyINFO) int) numSlot {
	return numSlot{name: "MyINFO." + name, typ: "MyINFO", signed: true, spaces: true, build: func(n string) string {
		return "$ALL nick desc<c V:1,M:A," + tag(n) + ">$ $x\x01$$5$"
	}, get: func(m nmdc.Message) *big.Int { return bigI(get(m.(*nmdc.MyINFO))) }}
}

const tth0 = "TTH:AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"

var numSlots = []numSlot{
	hubInfoSlot(1), hubInfoSlot(2), hubInfoSlot(3), hubInfoSlot(4),
	myInfoSlot("HubsNormal", func(n string) string { return "H:" + n + "/1/2,S:3" }, func(m *nmdc.MyINFO) int { return m.HubsNormal }),
	myInfoSlot("HubsRegistered", func(n string) string { return "H:1/" + n + "/2,S:3" }, func(m *nmdc.MyINFO) int { return m.HubsRegistered }),
	myInfoSlot("HubsOperator", func(n string) string { return "H:1/2/" + n + ",S:3" }, func(m *nmdc.MyINFO) int { return m.HubsOperator }),
	myInfoSlot("Slots", func(n string) string { return "H:1/2/3,S:" + n }, func(m *nmdc.MyINFO) int { return m.Slots }),
	func() numSlot {
		s := myInfoSlot("single hub count", func(n string) string { return "H:" + n + ",S:3" }, func(m *nmdc.MyINFO) int { return m.HubsNormal })
		s.value = func(n string) (*big.Int, bool) {
			if n == "" {
				return bigI(1), true
			}
			return refNumber(n, true, bigMinI, bigMaxI)
		}
		return s
	}(),
	{name: "MyINFO.ShareSize", typ: "MyINFO", spaces: true, build: func(n string) string { return "$ALL nick desc<c V:1,M:A,H:1/0/0,S:2>$ $x\x01$$" + n + "$" },
		get: func(m nmdc.Message) *big.Int { return bigU(m.(*nmdc.MyINFO).ShareSize) },
		value: func(s string) (*big.Int, bool) {
			if v, ok := refNumber(s, false, bigZero, bigMaxU); ok {
				return v, true
			}
			return bigZero, true
		}},
	{name: "UserCommand.Typ", typ: "UserCommand", signed: true, build: func(n string) string { return n + " 3 path $cmd" },
		get: func(m nmdc.Message) *big.Int { return bigI(int(m.(*nmdc.UserCommand).Typ)) }},
	{name: "UserCommand.Context", typ: "UserCommand", signed: true, build: func(n string) string { return "1 " + n + " path $cmd" },
		get: func(m nmdc.Message) *big.Int { return bigI(int(m.(*nmdc.UserCommand).Context)) },
		value: func(s string) (*big.Int, bool) {
			i := 0
			for i < len(s) && s[i] >= '0' && s[i] <= '9' {
				i++
			}
			return refNumber(s[:i], true, bigMinI, bigMaxI)
		}},
	{name: "SR.Size", typ: "SR", build: func(n string) string { return "from path\x05" + n + " 1/2\x05" + tth0 + " (a)" },
		get: func(m nmdc.Message) *big.Int { return bigU(m.(*nmdc.SR).Size) }},
	{name: "SR.FreeSlots", typ: "SR", signed: true, spaces: true, build: func(n string) string { return "from path\x055 " + n + "/2\x05" + tth0 + " (a)" },
		get: func(m nmdc.Message) *big.Int { return bigI(m.(*nmdc.SR).FreeSlots) }},
	{name: "SR.TotalSlots", typ: "SR", signed: true, spaces: true, build: func(n string) string { return "from path\x055 1/" + n + "\x05" + tth0 + " (a)" },
		get: func(m nmdc.Message) *big.Int { return bigI(m.(*nmdc.SR).TotalSlots) }},
	{name: "Search.Size", typ: "Search", spaces: true, build: func(n string) string { return "Hub:x T?T?" + n + "?1?pattern" },
		get: func(m nmdc.Message) *big.Int {
			s := m.(*nmdc.Search)
			if !s.SizeRestricted {
				if s.Size != 0 {
					return bigI(-2)
				}
				return bigI(-1)
			}
			return bigU(s.Size)
		},
		value: func(s string) (*big.Int, bool) {
			if s == "" {
				return bigZero, true
			}
			if s[0] == '-' { // any negative size means no restriction
				_, ok := refNumber(s[1:], false, bigZero, bigMaxU)
				return bigI(-1), ok
			}
			return refNumber(s, false, bigZero, bigMaxU)
		}},
	{name: "Search.DataType", typ: "Search", spaces: true, build: func(n string) string { return "Hub:x F?T?0?" + n + "?" + tth0 },
		get: func(m nmdc.Message) *big.Int { return bigU(uint64(m.(*nmdc.Search).DataType)) }},
	{name: "ADCGET.Start", typ: "ADCGET", build: func(n string) string { return "file x " + n + " 5 ZL1" },
		get: func(m nmdc.Message) *big.Int { return bigU(m.(*nmdc.ADCGet).Start) }},
	{name: "ADCGET.Length", typ: "ADCGET", build: func(n string) string { return "file x 0 " + n + " ZL1" },
		get: func(m nmdc.Message) *big.Int { return big.NewInt(m.(*nmdc.ADCGet).Length) },
		value: func(s string) (*big.Int, bool) {
			if s == "-1" {
				return bigI(-1), true
			}
			return refNumber(s, false, bigZero, bigMaxI)
		}},
	{name: "ADCGET.DownloadedBytes", typ: "ADCGET", build: func(n string) string { return "file x 0 5 DB" + n },
		get: func(m nmdc.Message) *big.Int {
			if v := m.(*nmdc.ADCGet).DownloadedBytes; v != nil {
				return bigU(*v)
			}
			return bigI(-1)
		}},
	{name: "ADCSND.Start", typ: "ADCSND", build: func(n string) string { return "file x " + n + " 5 ZL1" },
		get: func(m nmdc.Message) *big.Int { return bigU(m.(*nmdc.ADCSnd).Start) }},
	{name: "ADCSND.Length", typ: "ADCSND", build: func(n string) string { return "file x 5 " + n },
		get: func(m nmdc.Message) *big.Int { return bigU(m.(*nmdc.ADCSnd).Length) }},
	{name: "Direction.Number", typ: "Direction", spaces: true, build: func(n string) string { return "Upload " + n },
		get: func(m nmdc.Message) *big.Int { return bigU(uint64(m.(*nmdc.Direction).Number)) },
		value: func(s string) (*big.Int, bool) {
			return refNumber(s, false, big.NewInt(1), big.NewInt(32767))
		}},
}

// drawNumberText draws the text of a number, or nearly.
func drawNumberText(t *rapid.T) string {
	v := new(big.Int)
	switch rapid.IntRange(0, 5).Draw(t, "num-kind") {
	case 0: // around the limits
		base := rapid.SampledFrom([]string{"0", "1", "32767", "32768", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "999999999", "1000000000", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "184467440737095516150", "1844674407370955161", "340282366920938463463374607431768211456"}).Draw(t, "base")
		v.SetString(base, 10)
		v.Add(v, big.NewInt(int64(rapid.IntRange(-12, 12).Draw(t, "delta"))))
	case 1:
		v.SetUint64(rapid.Uint64().Draw(t, "u64"))
	case 2:
		v.SetInt64(int64(rapid.IntRange(-70000, 70000).Draw(t, "small")))
	case 3: // any number of digits
		s := rapid.StringMatching(`[0-9]{1,40}`).Draw(t, "digits")
		return rapid.SampledFrom([]string{"", "", "-", "+"}).Draw(t, "sign") + s
	case 4:
		return rapid.SampledFrom([]string{"", "-", "+", "--1", "+-1", "-+1", "1-", "0x10", "1e3", "1.0", "1_000", "٣", "１", "1,000", "abc", "1a", "a1", "0b1", "0o7", "NaN", "Inf", "-1", "-0", "+0", "00", "-00001", "1 1", "5 ", "\x001", "1\xff", "&#49;"}).Draw(t, "odd")
	case 5:
		s := []byte(strconv.FormatUint(rapid.Uint64().Draw(t, "u64"), 10))
		i := rapid.IntRange(0, len(s)-1).Draw(t, "at")
		s[i] = rapid.SampledFrom([]byte("/:;.-+eExX_aAoO\x2f\x3a\x80\xb0")).Draw(t, "byte")
		return string(s)
	}
	s := v.String()
	if rapid.IntRange(0, 5).Draw(t, "zeros") == 0 {
		z := strings.Repeat("0", rapid.IntRange(1, 25).Draw(t, "n-zeros"))
		if s[0] == '-' {
			return "-" + z + s[1:]
		}
		return z + s
	}
	if v.Sign() >= 0 && rapid.IntRange(0, 5).Draw(t, "plus") == 0 {
		return "+" + s
	}
	return s
}

func TestN09_Numbers(t *testing.T) {
	check(t, 25000, "the text has at least one digit", func(c *C) {
		slot := numSlots[pick(c.T, "slot", len(numSlots))]
		num := drawNumberText(c.T)
		if slot.spaces {
			if rapid.IntRange(0, 3).Draw(c.T, "sp") == 0 {
				num = spaced(c.T, num)
			}
		} else {
			num = strings.ReplaceAll(num, " ", "")
		}
		payload := slot.build(num)
		c.Key("%s %q", slot.name, num)
		c.NonTrivial(strings.ContainsAny(num, "0123456789"))
		var want *big.Int
		var ok bool
		switch {
		case slot.value != nil:
			want, ok = slot.value(num)
		case slot.signed:
			want, ok = refNumber(num, true, bigMinI, bigMaxI)
		default:
			want, ok = refNumber(num, false, bigZero, bigMaxU)
		}
		c.Label("%s:%v", slot.name, ok)
		m := nmdc.NewMessage(slot.typ)
		err := m.UnmarshalNMDC(nil, []byte(payload))
		if !ok {
			if err == nil {
				c.Fatalf("%s of %q decoded as %v, want an error (%s)", slot.name, num, slot.get(m), nShow(m))
			}
			return
		}
		if err != nil {
			c.Fatalf("%s of %q (%q): %v, want %v", slot.name, num, payload, err, want)
		}
		if got := slot.get(m); got.Cmp(want) != 0 {
			c.Fatalf("%s of %q decoded as %v, want %v (%s)", slot.name, num, got, want, nShow(m))
		}
		if strings.IndexByte(payload, 0) >= 0 {
			return
		}
		// the same through a reader
		got, err := nmdc.Unmarshal(nil, []byte("$"+slot.typ+" "+payload+"|"))
		if err != nil || !reflect.DeepEqual(nNorm(got), nNorm(m)) {
			c.Fatalf("%s of %q: the reader gives %v %s, want %s", slot.name, num, err, nShow(got), nShow(m))
		}
	})
}

// TestN09_Encode: numbers are written so that a peer reads the same.
func TestN09_Encode(t *testing.T) {
	check(t, 4000, "a value of more than 32 bits", func(c *C) {
		u, v, w := drawUint64(c.T, "u"), drawUint64(c.T, "v"), drawUint64(c.T, "w")
		i, j := int(drawUint64(c.T, "i")), int(drawUint64(c.T, "j")>>1)
		c.Key("%d %d %d %d %d", u, v, w, i, j)
		c.NonTrivial(u>>32 != 0)
		h := tiger.Hash{}
		for _, p := range []struct {
			m    nmdc.Message
			want string
		}{
			{&nmdc.ADCGet{ContentType: "f", Identifier: "x", Start: u, Length: int64(v >> 1), DownloadedBytes: &w}, fmt.Sprintf("f x %d %d DB%d", u, v>>1, w)},
			{&nmdc.ADCGet{ContentType: "f", Identifier: "x", Start: u, Length: -1}, fmt.Sprintf("f x %d -1", u)},
			{&nmdc.ADCSnd{ContentType: "f", Identifier: "x", Start: u, Length: v}, fmt.Sprintf("f x %d %d", u, v)},
			{&nmdc.SR{From: "a", Path: []string{"p"}, Size: u, FreeSlots: j, TotalSlots: j / 2, TTH: &h, HubAddress: "x"}, fmt.Sprintf("a p\x05%d %d/%d\x05%s (x)", u, j, j/2, tth0)},
			{&nmdc.Search{User: "a", SizeRestricted: true, Size: u, DataType: 1, Pattern: "x"}, fmt.Sprintf("Hub:a T?F?%d?1?x", u)},
			{&nmdc.MyINFO{Name: "a", Mode: 'A', Flag: 1, HubsNormal: i, HubsRegistered: j, HubsOperator: -j, Slots: i / 3, ShareSize: u}, fmt.Sprintf("$ALL a < V:,M:A,H:%d/%d/%d,S:%d>$ $\x01$$%d$", i, j, -j, i/3, u)},
			{&nmdc.HubINFO{I1: i, I2: j, I3: -j, I4: i / 7}, fmt.Sprintf("$$$%d$%d$%d$%d$$$$", i, j, -j, i/7)},
		} {
			var buf bytes.Buffer
			if err := p.m.MarshalNMDC(nil, &buf); err != nil || buf.String() != p.want {
				c.Fatalf("%s: %q %v, want %q", nShow(p.m), buf.String(), err, p.want)
			}
			m := nmdc.NewMessage(p.m.Type())
			if err := m.UnmarshalNMDC(nil, buf.Bytes()); err != nil || !nEqual(m, p.m) {
				c.Fatalf("%q: %v %s, want %s", buf.String(), err, nShow(m), nShow(p.m))
			}
		}
	})
}

// ---------------------------------------------------------------- N10

var errWHook = errors.New("writer hook error")

// badMessages cannot be encoded.
var badMessages = []nmdc.Message{
	&nmdc.Hello{Name: "a$b"}, &nmdc.Hello{Name: "a\tb"}, &nmdc.Hello{Name: nmdc.Name(strings.Repeat("x", 300))}, &nmdc.ChatMessage{Name: "a\nb", Text: "text"}, &nmdc.ChatMessage{Name: "a", Text: "te\x00xt"}, &nmdc.ChatMessage{Text: "\x00"},
	&nmdc.SR{From: "a"}, &nmdc.Search{User: "a", DataType: nmdc.DataTypeTTH}, &nmdc.ConnectToMe{Address: "x"}, &nmdc.ConnectToMe{Targ: "a", Kind: 7}, &nmdc.ConnectToMe{Targ: "a", Kind: nmdc.CTMPassiveReq}, &nmdc.ConnectToMe{Targ: "a", Src: "b"},
	&nmdc.PrivateMessage{To: "a", From: "b", Name: "c", Text: "long enough\x00"}, &nmdc.PrivateMessage{To: "a", From: "b", Name: "c\r"}, &nmdc.MyINFO{Name: "ok", Desc: "ok", Conn: "x", Email: "\x00"}, &nmdc.MCTo{To: "a", From: "b$"},
	&nmdc.OpList{Names: nmdc.Names{"a", "b", "c$"}}, &nmdc.UserIP{List: []nmdc.UserAddress{{Name: "a", IP: "1"}, {Name: "b\n", IP: "2"}}}, &nmdc.HubINFO{Name: "a", State: "\x00"},
	&nmdc.UserCommand{Typ: 1, Context: 1, Path: []string{"a", "b\x00"}, Command: "c"}, &nmdc.TTHSearchPassive{User: "\n"}, &nmdc.RevConnectToMe{From: "a", To: "\n"}, &nmdc.ADCGet{ContentType: "file", Identifier: "\x00"}, &nmdc.Failed{Err: errors.New("a\x00")},
}

func TestN10_Writer(t *testing.T) {
	check(t, 4000, "at least two messages are written, and a hook fires, the encoding changes or compression is used", func(c *C) {
		var sent bytes.Buffer
		w := nmdc.NewWriterSize(&sent, rapid.SampledFrom([]int{0, 1, 16, 64, 4096}).Draw(c.T, "buf"))
		if rapid.Bool().Draw(c.T, "default-size") {
			w = nmdc.NewWriter(&sent)
		}
		nHooks := rapid.IntRange(0, 3).Draw(c.T, "hooks")
		var decisions [][]int // for the messages of the current batch
		var log []string
		cur := 0 // message of the batch the hooks are at
		var batch []nmdc.Message
		for h := 0; h < nHooks; h++ {
			h := h
			w.OnMessage(func(m nmdc.Message) (bool, error) {
				// messages of a batch are told apart by identity
				cur = -1
				for i := range batch {
					if batch[i] == m {
						cur = i
					}
				}
				if cur < 0 {
					c.Fatalf("hook %d got %s, which is not in the batch", h, nShow(m))
				}
				log = append(log, fmt.Sprintf("%d:%d", cur, h))
				switch decisions[cur][h] {
				case dDrop:
					return false, nil
				case dErr:
					return true, errWHook
				}
				return true, nil
			})
		}
		type item struct {
			m  nmdc.Message // nil for a keep-alive
			e  *nEnc
			on bool // compression starts after it
		}
		var items []item
		e := nUTF8
		zOn, interesting, plain := false, false, true
		for ops := rapid.IntRange(1, 12).Draw(c.T, "ops"); ops > 0; ops-- {
			switch rapid.IntRange(0, 9).Draw(c.T, "op") {
			case 0:
				e = drawAnyEncoding(c.T, "enc")
				w.SetEncoder(e.encoder())
				interesting = true
				c.Key("enc %s;", e.name)
			case 1:
				if err := w.WriteKeepAlive(); err != nil {
					c.Fatalf("keep-alive: %v", err)
				}
				items = append(items, item{e: e})
				c.Key("ka;")
			case 2:
				if err := w.Flush(); err != nil {
					c.Fatalf("flush: %v", err)
				}
				c.Key("flush;")
			case 3:
				if zOn {
					if err := w.DisableZlib(); err != nil {
						c.Fatalf("disabling compression: %v", err)
					}
					zOn = false
					c.Key("zoff;")
					break
				}
				var err error
				if rapid.Bool().Draw(c.T, "level") {
					err = w.ZOnLevel(rapid.IntRange(-2, 9).Draw(c.T, "lvl"))
				} else {
					err = w.ZOn()
				}
				if err != nil {
					c.Fatalf("enabling compression: %v", err)
				}
				zOn, interesting, plain = true, true, false
				items = append(items, item{m: &nmdc.ZOn{}, e: e, on: true})
				c.Key("zon;")
			default:
				batch, decisions, log = nil, nil, nil
				var bads []bool
				for i := rapid.IntRange(0, 4).Draw(c.T, "batch"); i > 0; i-- {
					var m nmdc.Message
					bad := rapid.IntRange(0, 9).Draw(c.T, "bad") == 0
					if bad {
						m = nCopy(rapid.SampledFrom(badMessages).Draw(c.T, "bad-msg"))
					} else {
						_, m = drawNMDC(c.T, e)
						if rapid.IntRange(0, 60).Draw(c.T, "long") == 0 {
							// the messages after a very long one must not be affected
							m = &nmdc.ChatMessage{Name: "bob", Text: strings.Repeat("x", drawLargeSize(c.T)>>4)}
						}
						if _, ok := m.(*nmdc.ZOn); ok {
							m = &nmdc.Hello{Name: "x"}
						}
						if reflect.TypeOf(m).Elem().Size() == 0 {
							// messages without fields have no identity
							m = &nmdc.RawMessage{Typ: m.Type()}
						}
					}
					batch = append(batch, m)
					bads = append(bads, bad)
					d := make([]int, nHooks)
					for h := range d {
						d[h] = drawDecision(c.T, "decision")
					}
					decisions = append(decisions, d)
					c.Key("%s %v %v;", nShow(m), bad, d)
				}
				// the model
				var want []string
				wantErr := ""
			msgs:
				for i, m := range batch {
					for h := 0; h < nHooks; h++ {
						want = append(want, fmt.Sprintf("%d:%d", i, h))
						if decisions[i][h] != dPass {
							interesting = true
						}
						if decisions[i][h] == dDrop {
							continue msgs
						}
						if decisions[i][h] == dErr {
							wantErr = "hook"
							break msgs
						}
					}
					if bads[i] {
						wantErr = "encode"
						break
					}
					items = append(items, item{m: m, e: e})
				}
				err := w.WriteMsg(batch...)
				if !reflect.DeepEqual(log, want) {
					c.Fatalf("hooks called (message:hook) %v, want %v", log, want)
				}
				switch wantErr {
				case "":
					if err != nil {
						c.Fatalf("writing %d messages: %v", len(batch), err)
					}
				case "hook":
					if err != errWHook {
						c.Fatalf("error %v, want that of the hook", err)
					}
				default:
					if err == nil || err == errWHook {
						c.Fatalf("error %v, want an encoding error", err)
					}
				}
			}
		}
		if zOn {
			if err := w.DisableZlib(); err != nil {
				c.Fatalf("disabling compression: %v", err)
			}
		}
		if err := w.Flush(); err != nil {
			c.Fatalf("flush: %v", err)
		}
		c.NonTrivial(interesting && len(items) > 1)

		// the bytes on the wire
		if plain {
			rest := sent.String()
			for _, it := range items {
				line := "|"
				if it.m != nil {
					i := strings.IndexByte(rest, '|')
					if d := kindOf(it.m).diff(it.e, it.m, rest[:i+1]); d != "" {
						c.Fatalf("%s", d)
					}
					line = rest[:i+1]
				}
				if !strings.HasPrefix(rest, line) {
					c.Fatalf("the connection carries %q, want %q", clip(rest, 300), line)
				}
				rest = rest[len(line):]
			}
			if rest != "" {
				c.Fatalf("the connection carries %q after the last message", clip(rest, 300))
			}
		}
		// the reader at the other end
		r := nmdc.NewReader(drawEOFReader(c.T, sent.Bytes()))
		r.SetMaxLine(0)
		kas, wantKAs := 0, 0
		r.OnKeepAlive = func() error { kas++; return nil }
		for _, it := range items {
			if it.m == nil {
				wantKAs++
				continue
			}
			r.SetDecoder(it.e.decoder())
			got, err := r.ReadMsg()
			if err != nil {
				c.Fatalf("the reader: %v, want %s", err, nShow(it.m))
			}
			want := it.m
			if raw, ok := want.(*nmdc.RawMessage); ok && nmdc.IsRegistered(raw.Typ) {
				want = nmdc.NewMessage(raw.Typ)
			}
			if !nEqual(got, want) {
				c.Fatalf("the reader (%s):\n got %s\nwant %s", it.e.name, nShow(got), nShow(want))
			}
			if kas != wantKAs {
				c.Fatalf("the reader got %d keep-alives before %s, want %d", kas, nShow(want), wantKAs)
			}
			if it.on {
				if err := r.EnableZlib(); err != nil {
					c.Fatalf("the reader cannot enable compression: %v", err)
				}
			}
		}
		if m, err := r.ReadMsg(); err != io.EOF {
			c.Fatalf("the reader: %v %v at the end, want EOF", m, err)
		}
		if kas != wantKAs {
			c.Fatalf("the reader got %d keep-alives, want %d", kas, wantKAs)
		}
	})
}

// TestN10_Rewritten has hooks that change the messages, with the same message several times in a batch: every
// occurrence is sent as the hooks leave it at that time.
func TestN10_Rewritten(t *testing.T) {
	check(t, 2500, "a message occurs twice in what is written and a hook changes it", func(c *C) {
		var sent bytes.Buffer
		w := nmdc.NewWriterSize(&sent, rapid.SampledFrom([]int{0, 16, 64, 4096}).Draw(c.T, "buf"))
		count := 0
		nHooks := rapid.IntRange(0, 3).Draw(c.T, "hooks")
		changes := make([]int, nHooks)
		for h := range changes {
			h := h
			changes[h] = pick(c.T, "change", 4)
			w.OnMessage(func(m nmdc.Message) (bool, error) {
				count++
				rewrite(m, changes[h], count)
				return changes[h] != 3 || count%4 != 0, nil
			})
		}
		var all []nmdc.Message
		for n := rapid.IntRange(1, 4).Draw(c.T, "messages"); n > 0; n-- {
			s := rapid.StringMatching(`[a-zA-Z0-9_.]{1,60}`).Draw(c.T, "text")
			switch pick(c.T, "type", 4) {
			case 0:
				all = append(all, &nmdc.Hello{Name: nmdc.Name(s)})
			case 1:
				all = append(all, &nmdc.ChatMessage{Name: "a", Text: s})
			case 2:
				all = append(all, &nmdc.RawMessage{Typ: "Raw", Data: []byte("x" + s)})
			default:
				all = append(all, &nmdc.PrivateMessage{To: "x", From: "y", Name: "y", Text: s})
			}
		}
		// the model works on copies of the messages
		model := map[nmdc.Message]nmdc.Message{}
		for _, m := range all {
			model[m] = nCopy(m)
			if raw, ok := m.(*nmdc.RawMessage); ok {
				model[m] = &nmdc.RawMessage{Typ: raw.Typ, Data: append([]byte{}, raw.Data...)}
			}
		}
		mcount := 0
		want := ""
		for b := rapid.IntRange(1, 4).Draw(c.T, "batches"); b > 0; b-- {
			var batch []nmdc.Message
			seen := map[nmdc.Message]bool{}
			for n := rapid.IntRange(1, 4).Draw(c.T, "batch"); n > 0; n-- {
				m := all[pick(c.T, "which", len(all))]
				if seen[m] && nHooks > 0 {
					c.NonTrivial(true)
				}
				seen[m] = true
				batch = append(batch, m)
			}
		msgs:
			for _, m := range batch {
				for h := range changes {
					mcount++
					rewrite(model[m], changes[h], mcount)
					if changes[h] == 3 && mcount%4 == 0 {
						continue msgs
					}
				}
				switch m := model[m].(type) {
				case *nmdc.Hello:
					want += "$Hello " + string(m.Name) + "|"
				case *nmdc.ChatMessage:
					want += "<a> " + m.Text + "|"
				case *nmdc.RawMessage:
					want += "$Raw " + string(m.Data) + "|"
				case *nmdc.PrivateMessage:
					want += "$To: x From: y $<y> " + m.Text + "|"
				}
			}
			c.Key("%v;", len(batch))
			if err := w.WriteMsg(batch...); err != nil {
				c.Fatalf("write: %v", err)
			}
			if rapid.Bool().Draw(c.T, "flush") {
				if err := w.Flush(); err != nil {
					c.Fatalf("flush: %v", err)
				}
				if sent.String() != want {
					c.Fatalf("the connection carries\n%q, want\n%q", sent.String(), want)
				}
			}
		}
		c.Key("%q", want)
		if err := w.Flush(); err != nil || sent.String() != want {
			c.Fatalf("the connection carries\n%q, want\n%q (%v)", sent.String(), want, err)
		}
	})
}

// rewrite is what the hooks of TestN10_Rewritten do.
func rewrite(m nmdc.Message, how, n int) {
	s := ""
	switch how {
	case 1:
		s = strconv.Itoa(n)
	case 2:
		s = strings.Repeat("+", n%3)
	}
	switch m := m.(type) {
	case *nmdc.Hello:
		m.Name += nmdc.Name(s)
	case *nmdc.ChatMessage:
		m.Text = s + m.Text
	case *nmdc.RawMessage:
		m.Data = append(m.Data, s...)
		if how == 2 && len(m.Data) > 1 {
			m.Data[1] = 'R' // in place
		}
	case *nmdc.PrivateMessage:
		m.Text += s
	}
}
