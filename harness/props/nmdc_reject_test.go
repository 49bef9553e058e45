package props

import (
	"errors"
	"io"
	"strings"
	"testing"

	"github.com/direct-connect/go-dc/nmdc"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- broken parts

func goodName(t *rapid.T, label string) string {
	return rapid.SampledFrom([]string{"user", "a", "Guest42", "[RU]nick", "n&amp;m", "x_y", "имя", "日本", "O'Neil", strings.Repeat("n", 256)}).Draw(t, label)
}

func goodText(t *rapid.T, label string) string {
	return rapid.SampledFrom([]string{"", "text", "two words", "a&#36;b", "привет", "x&lt;y", "1/2", "q, r: s"}).Draw(t, label)
}

// badName draws the wire form of a name that is not allowed.
func badName(t *rapid.T, label string) string {
	if pick(t, label+"-long", 4) == 0 {
		return strings.Repeat(rapid.SampledFrom([]string{"a", "ж", "&amp;", "."}).Draw(t, label+"-fill"), 257+pick(t, label+"-len", 300))
	}
	s := rapid.SampledFrom([]string{"", "user", "a", "Guest42", "имя"}).Draw(t, label)
	r := []rune(s)
	i := pick(t, label+"-pos", len(r)+1)
	return string(r[:i]) + rapid.SampledFrom([]string{"$", "\t", "\r", "\n"}).Draw(t, label+"-char") + string(r[i:])
}

// badUint is no unsigned decimal number, also after trimming spaces.
func badUint(t *rapid.T, label string) string {
	return rapid.SampledFrom([]string{"x", "1x", "x1", "+1", "1.5", "1e3", "0x10", "1,000", "18446744073709551616", "99999999999999999999999", "1 2", "1-", "one", "é", "&#49;", "_", "1_0"}).Draw(t, label)
}

// badInt is no decimal number, also after trimming spaces.
func badInt(t *rapid.T, label string) string {
	return rapid.SampledFrom([]string{"", " ", "x", "1x", "x1", "-", "+", "--1", "1.5", "1e3", "0x10", "9223372036854775808", "-9223372036854775809", "1 2", "1-", "one", "é", "- 1"}).Draw(t, label)
}

// badHash is not the text form of a hash. It has no space and no dollar sign at the end.
func badHash(t *rapid.T, label string) string {
	h := drawHash(t, label)
	for {
		s, _ := badB32(t, b32(h))
		if !strings.ContainsAny(s, " \x00|$") {
			return s
		}
	}
}

func slotNum(t *rapid.T, label string) string { return utoa(drawUint64(t, label) >> 33) }

// nBreaker draws a payload that is broken in one stated way.
type nBreaker func(t *rapid.T) (payload, why string)

func brokenNameMsg(t *rapid.T) (string, string) { return badName(t, "name"), "name" }

func brokenTextMsg(t *rapid.T) (string, string) {
	return goodText(t, "before") + "\x00" + goodText(t, "after"), "null byte"
}

func brokenNoArgs(t *rapid.T) (string, string) {
	return rapid.SampledFrom([]string{"x", " ", "0", "$", "some args", "\x01", "é"}).Draw(t, "arg"), "argument"
}

func brokenNames(t *rapid.T) (string, string) {
	var list []string
	for n := pick(t, "names", 4); n > 0; n-- {
		list = append(list, goodName(t, "name"))
	}
	i := pick(t, "at", len(list)+1)
	bad := badName(t, "bad")
	if bad == "$" {
		bad = "a$b"
	}
	list = append(list[:i:i], append([]string{bad}, list[i:]...)...)
	s := strings.Join(list, "$$")
	if rapid.Bool().Draw(t, "end") {
		s += "$$"
	}
	return s, "name in list"
}

var nBreakers = map[string]nBreaker{
	"Search": func(t *rapid.T) (string, string) {
		addr := rapid.SampledFrom([]string{"1.2.3.4:412", "[::1]:412", "Hub:user", "Hub:имя", "host"}).Draw(t, "addr")
		f := []string{boolTF(rapid.Bool().Draw(t, "r")), boolTF(rapid.Bool().Draw(t, "m")), slotNum(t, "size"), itoa(int64(rapid.IntRange(1, 8).Draw(t, "type"))),
			rapid.SampledFrom([]string{"", "word", "two$words", "a?b", "x&#124;y"}).Draw(t, "pattern")}
		if pick(t, "tth", 3) == 0 {
			f[3], f[4] = "9", "TTH:"+b32(drawHash(t, "hash"))
		}
		all := func() string { return addr + " " + strings.Join(f, "?") }
		switch pick(t, "damage", 8) {
		case 0:
			return addr + strings.Join(f, "?"), "no space"
		case 1:
			return addr + " " + strings.Join(f[:pick(t, "fields", 5)], "?"), "missing field"
		case 2:
			f[pick(t, "flag", 2)] = rapid.SampledFrom([]string{"", "t", "f", "1", "0", "TT", "FT", "TF", "true", "X", " ", "T ", "é"}).Draw(t, "bad-flag")
			return all(), "flag"
		case 3:
			f[2] = badUint(t, "size")
			return all(), "size"
		case 4:
			f[2] = "-" + rapid.SampledFrom([]string{"", "x", "1x", "-1", "+1", " "}).Draw(t, "neg")
			return all(), "negative size"
		case 5:
			f[3] = rapid.SampledFrom([]string{"", " ", "-1", badUint(t, "type")}).Draw(t, "bad-type")
			return all(), "data type"
		case 6:
			f[3] = "9"
			f[4] = rapid.SampledFrom([]string{badHash(t, "h"), "TTH:" + badHash(t, "h2"), "TTH:", "TTH", "", b32(drawHash(t, "h3")), "tth:" + b32(drawHash(t, "h4")), "TTH: " + b32(drawHash(t, "h5")), "TTH:" + b32(drawHash(t, "h6"))[:38] + "$"}).Draw(t, "bad-hash")
			return all(), "hash"
		}
		bad := strings.ReplaceAll(badName(t, "user"), " ", "")
		addr = "Hub:" + bad
		return all(), "name"
	},
	"SR": func(t *rapid.T) (string, string) {
		from, path := goodName(t, "from"), rapid.SampledFrom([]string{"file.txt", "dir\\file", "a\\b\\c d.bin", "x y"}).Draw(t, "path")
		dir := rapid.Bool().Draw(t, "dir")
		size, slots := slotNum(t, "size"), slotNum(t, "free")+"/"+slotNum(t, "total")
		hub := rapid.SampledFrom([]string{"Hub name", "hub", "TTH:" + b32(drawHash(t, "tth"))}).Draw(t, "hub")
		addr := rapid.SampledFrom([]string{"hub.org:411", "1.2.3.4", ""}).Draw(t, "hub-addr")
		to := ""
		if rapid.Bool().Draw(t, "to") {
			to = "\x05" + goodName(t, "target")
		}
		mid := func() string {
			if dir {
				return path + " " + slots
			}
			return path + "\x05" + size + " " + slots
		}
		all := func() string { return from + " " + mid() + "\x05" + hub + " (" + addr + ")" + to }
		switch pick(t, "damage", 14) {
		case 0:
			return strings.ReplaceAll(all(), " ", ""), "no space"
		case 1:
			return strings.ReplaceAll(all(), "\x05", rapid.SampledFrom([]string{"", " ", "$"}).Draw(t, "sep")), "no separator"
		case 2:
			// a file without the separator after the slots
			return from + " " + "file.txt\x05" + size + " " + slots + hub + " (" + addr + ")", "missing size"
		case 3:
			dir, path = false, "file.txt"
			return from + " " + path + "\x05" + size + slots + "\x05" + hub + " (" + addr + ")" + to, "no space before slots"
		case 4:
			dir = false
			size = rapid.SampledFrom([]string{"x", "1x", "-1", "+5", "1.5", "99999999999999999999", ""}).Draw(t, "bad-size")
			return all(), "size"
		case 5:
			dir = false
			slots = rapid.SampledFrom([]string{"1", "", "1-2", "12"}).Draw(t, "no-slash")
			return all(), "slots separator"
		case 6:
			dir = false
			slots = rapid.SampledFrom([]string{"x/1", "1/x", "/1", "1/", "/", "1/2/3", "1.5/2", "1/99999999999999999999", "a/b"}).Draw(t, "bad-slots")
			return all(), "slots"
		case 7:
			hub = "hub"
			return from + " " + mid() + "\x05" + hub + rapid.SampledFrom([]string{"(", "", "[", " ", " )", " [("}).Draw(t, "open") + "addr)", "hub address"
		case 8:
			hub = "TTH:" + badHash(t, "bad-hash")
			return all(), "hash"
		case 9:
			hub = "TTH:" + b32(drawHash(t, "h"))
			return from + " " + mid() + "\x05" + hub + rapid.SampledFrom([]string{"", " ", "(", " [", "  (", "X (", ") ("}).Draw(t, "after-hash") + addr + ")", "after hash"
		case 10:
			return from + " " + mid() + "\x05" + hub + " (" + addr + strings.ReplaceAll(to, ")", ""), "not closed"
		case 11:
			return from + " " + mid() + "\x05" + hub + " (" + addr + ")" + rapid.SampledFrom([]string{"\x05", "x", " ", "x\x05user", ")", "user", "$"}).Draw(t, "tail"), "target"
		case 12:
			from = strings.ReplaceAll(badName(t, "bad-from"), " ", "")
			return all(), "name"
		}
		to = "\x05" + badName(t, "bad-to")
		return all(), "target name"
	},
	"SA": func(t *rapid.T) (string, string) { return breakTTHSearch(t, "1.2.3.4:412") },
	"SP": func(t *rapid.T) (string, string) {
		if pick(t, "name", 4) == 0 {
			return b32(drawHash(t, "h")) + " " + badName(t, "user"), "name"
		}
		return breakTTHSearch(t, goodName(t, "user"))
	},
	"ConnectToMe": func(t *rapid.T) (string, string) {
		addr := rapid.SampledFrom([]string{"1.2.3.4:412", "1.2.3.4:412S", "1.2.3.4:412N", "[::1]:5R", ""}).Draw(t, "addr")
		switch pick(t, "damage", 3) {
		case 0:
			return goodName(t, "targ") + addr, "no space"
		case 1:
			return strings.ReplaceAll(badName(t, "bad"), " ", "") + " " + addr, "name"
		}
		return goodName(t, "targ") + " " + addr + " " + badName(t, "bad-src"), "source name"
	},
	"RevConnectToMe": func(t *rapid.T) (string, string) {
		switch pick(t, "damage", 3) {
		case 0:
			return rapid.SampledFrom([]string{"", "user", "a-b", "имя"}).Draw(t, "one"), "no space"
		case 1:
			return strings.ReplaceAll(badName(t, "bad"), " ", "") + " " + goodName(t, "to"), "name"
		}
		return goodName(t, "from") + " " + badName(t, "bad-to"), "name"
	},
	"To:": func(t *rapid.T) (string, string) {
		p := []string{goodName(t, "to"), " From: ", goodName(t, "from"), " $<", goodName(t, "name"), "> ", goodText(t, "text")}
		switch pick(t, "damage", 6) {
		case 0:
			p[1] = rapid.SampledFrom([]string{"", " ", " From:", "From: ", " from: ", " FROM: ", " From "}).Draw(t, "from-mark")
		case 1:
			p[3] = rapid.SampledFrom([]string{"", " ", " $", " <", "$<", " $ <", " $&lt;"}).Draw(t, "name-mark")
		case 2:
			p[5] = rapid.SampledFrom([]string{"", ">", "&gt; ", " ", ">\t"}).Draw(t, "end-mark")
		default:
			i := 2 * pick(t, "which", 3)
			p[i] = badName(t, "bad")
			if i == 2 && strings.HasPrefix(p[3], " ") && strings.HasSuffix(p[i], "$") {
				p[i] = "a$b"
			}
			return strings.Join(p, ""), "name"
		}
		return strings.Join(p, ""), "missing mark"
	},
	"MCTo": func(t *rapid.T) (string, string) {
		p := []string{goodName(t, "to"), " $", goodName(t, "from"), " ", goodText(t, "text")}
		switch pick(t, "damage", 4) {
		case 0:
			p[1] = rapid.SampledFrom([]string{"", "$", " ", " &#36;"}).Draw(t, "name-mark")
			return strings.Join(p, ""), "missing mark"
		case 1:
			return p[0] + p[1] + p[2], "no text"
		}
		p[2*pick(t, "which", 2)] = badName(t, "bad")
		return strings.Join(p, ""), "name"
	},
	"": func(t *rapid.T) (string, string) {
		text := goodText(t, "text")
		switch pick(t, "damage", 4) {
		case 0:
			return "<" + strings.ReplaceAll(goodName(t, "name"), ">", "") + rapid.SampledFrom([]string{"", " ", " "}).Draw(t, "sp") + strings.ReplaceAll(text, ">", ""), "no closing bracket"
		case 1:
			return "<" + goodName(t, "name") + rapid.SampledFrom([]string{"\r", "\n", "\r\n", " \n"}).Draw(t, "break") + "x> " + text, "line break before the bracket"
		case 2:
			return "<" + strings.Repeat("n", 257+pick(t, "len", 300)) + "> " + text, "long name"
		}
		return "<na" + rapid.SampledFrom([]string{"$", "\t"}).Draw(t, "char") + "me> " + text, "name"
	},
	"MyINFO": breakMyINFO,
	"UserCommand": func(t *rapid.T) (string, string) {
		typ, ctx := rapid.SampledFrom([]string{"0", "1", "2", "255"}).Draw(t, "typ"), rapid.SampledFrom([]string{"1", "2", "4", "8", "15"}).Draw(t, "ctx")
		rest := rapid.SampledFrom([]string{"", " menu\\item $$To: me", " a $x"}).Draw(t, "rest")
		switch pick(t, "damage", 5) {
		case 0:
			return rapid.SampledFrom([]string{"", typ, " ", typ + " ", " " + typ}).Draw(t, "one"), "one field"
		case 1:
			return rapid.SampledFrom([]string{"x", "1x", "-", "1.5", "$", "99999999999999999999", "é"}).Draw(t, "bad-typ") + " " + ctx + rest, "type"
		case 2:
			return typ + " " + rapid.SampledFrom([]string{"x", "-1", "$", "+1", "é", "99999999999999999999"}).Draw(t, "bad-ctx") + rest, "context"
		case 3:
			return typ + " " + ctx + " " + rapid.SampledFrom([]string{"menu\\item", "menu", "x &#36;cmd", "menu\\item cmd"}).Draw(t, "raw"), "no command mark"
		}
		return typ + " " + ctx + rapid.SampledFrom([]string{" menu\\it\x00em $cmd", " menu $cm\x00d", " \x00 $cmd"}).Draw(t, "null"), "null byte"
	},
	"ADCGET": func(t *rapid.T) (string, string) {
		f := []string{"file", "TTH/" + b32(drawHash(t, "h")), slotNum(t, "start"), slotNum(t, "len")}
		switch pick(t, "damage", 5) {
		case 0:
			return strings.Join(f[:pick(t, "fields", 4)], " "), "missing field"
		case 1:
			i := 2 + pick(t, "which", 2)
			f[i] = rapid.SampledFrom([]string{"", "x", "1x", "+1", "-2", "1.5", "18446744073709551616", "é", "--1"}).Draw(t, "bad")
			return strings.Join(f, " "), "number"
		case 2:
			f[3] = rapid.SampledFrom([]string{"9223372036854775808", "18446744073709551615", "-1x", "-01", "-9223372036854775808"}).Draw(t, "bad-len")
			return strings.Join(f, " "), "length"
		case 3:
			return strings.Join(append(f, "DB"+rapid.SampledFrom([]string{"", "x", "-1", "1.5", "18446744073709551616", "+1"}).Draw(t, "db")), " "), "downloaded bytes"
		}
		f[pick(t, "which", 2)] = "a\x00b"
		return strings.Join(f, " "), "null byte"
	},
	"ADCSND": func(t *rapid.T) (string, string) {
		f := []string{"file", "TTH/" + b32(drawHash(t, "h")), slotNum(t, "start"), slotNum(t, "len")}
		switch pick(t, "damage", 4) {
		case 0:
			return strings.Join(f[:pick(t, "fields", 4)], " "), "missing field"
		case 1:
			i := 2 + pick(t, "which", 2)
			f[i] = rapid.SampledFrom([]string{"", "x", "1x", "+1", "-1", "1.5", "18446744073709551616", "é"}).Draw(t, "bad")
			return strings.Join(f, " "), "number"
		case 2:
			return strings.Join(append(f, rapid.SampledFrom([]string{"ZL", "ZL2", "ZL11", "zl1", "x", "ZL1 x"}).Draw(t, "flag")), " "), "flag"
		}
		f[pick(t, "which", 2)] = "a\x00b"
		return strings.Join(f, " "), "null byte"
	},
	"Direction": func(t *rapid.T) (string, string) {
		word := rapid.SampledFrom([]string{"Upload", "Download"}).Draw(t, "word")
		num := itoa(int64(rapid.IntRange(1, 32767).Draw(t, "num")))
		switch pick(t, "damage", 4) {
		case 0:
			return word + num, "no space"
		case 1:
			return rapid.SampledFrom([]string{"upload", "download", "UPLOAD", "Up", "Down", "", "Uploads", "Downloa", "x", "Upload\t"}).Draw(t, "bad-word") + " " + num, "word"
		case 2:
			return word + " " + rapid.SampledFrom([]string{"0", "32768", "65536", "65537", "4294967297", "18446744073709551615", "18446744073709551617", "00", "-1"}).Draw(t, "range"), "range"
		}
		return word + " " + rapid.SampledFrom([]string{"", "x", "1x", "+1", "1.5", "1 2", "é"}).Draw(t, "bad-num"), "number"
	},
	"HubINFO": func(t *rapid.T) (string, string) {
		f := []string{"name", "host", "desc", "1", "2", "3", "4", "soft 1.0", "owner", "state", "CP1251"}
		if pick(t, "null", 4) == 0 {
			i := []int{0, 2, 8, 9}[pick(t, "which", 4)]
			f[i] = "a\x00b"
			return strings.Join(f[:max(i+1, rapid.IntRange(1, len(f)).Draw(t, "n"))], "$"), "null byte"
		}
		i := 3 + pick(t, "which", 4)
		f[i] = badInt(t, "bad")
		return strings.Join(f[:max(i+1, rapid.IntRange(1, len(f)).Draw(t, "n"))], "$"), "number"
	},
	"UserIP": func(t *rapid.T) (string, string) {
		var list []string
		for n := pick(t, "n", 3); n > 0; n-- {
			list = append(list, goodName(t, "name")+" 1.2.3.4")
		}
		i := pick(t, "at", len(list)+1)
		bad := badName(t, "bad") + " 1.2.3.4"
		list = append(list[:i:i], append([]string{bad}, list[i:]...)...)
		return strings.Join(list, "$$") + "$$", "name in list"
	},
	"OpList": brokenNames, "BotList": brokenNames,
	"HubTopic": brokenTextMsg, "Failed": brokenTextMsg, "Error": brokenTextMsg,
}

func breakTTHSearch(t *rapid.T, tail string) (string, string) {
	h := b32(drawHash(t, "h"))
	switch pick(t, "damage", 4) {
	case 0:
		return h + tail, "no space"
	case 1:
		return h[:pick(t, "len", 40)], "no space"
	case 2:
		return h + "A " + tail, "longer"
	}
	return badHash(t, "bad") + " " + tail, "hash"
}

func breakMyINFO(t *rapid.T) (string, string) {
	pref, name, desc := "$ALL ", goodName(t, "name"), goodText(t, "desc")
	tag := rapid.SampledFrom([]string{"", "<++ V:0.1,M:A,H:1/2/3,S:4>", "<DC V:2.0,S:1>", "<c>", "<x V:1,M:P,H:5,S:2,L:100>"}).Draw(t, "tag")
	mode, conn, email, share := " ", "100\x01", goodText(t, "email"), slotNum(t, "share")
	if tag == "" {
		mode = rapid.SampledFrom([]string{"A", "P", " "}).Draw(t, "mode")
	}
	all := func() string {
		return pref + name + " " + desc + tag + "$" + mode + "$" + conn + "$" + email + "$" + share + "$"
	}
	switch pick(t, "damage", 9) {
	case 0:
		pref = rapid.SampledFrom([]string{"", "$ALL", "ALL ", "$all ", "$AL ", " $ALL "}).Draw(t, "pref")
		if pref == "$ALL" {
			name = "x" + name
		}
		return all(), "prefix"
	case 1:
		return pref + strings.ReplaceAll(name, " ", ""), "no separators"
	case 2:
		name = strings.ReplaceAll(badName(t, "bad"), " ", "")
		return all(), "name"
	case 3:
		s := all()
		if rapid.Bool().Draw(t, "more") {
			return s + strings.Repeat("$", 1+pick(t, "extra", 3)), "too many fields"
		}
		// cut off before one of the last separators
		for n := 1 + pick(t, "less", 4); n > 0; n-- {
			s = s[:strings.LastIndexByte(s, '$')]
		}
		return s, "too few fields"
	case 4:
		tag = "<"
		return all(), "empty tag"
	case 5:
		mode = rapid.SampledFrom([]string{"", "AP", "  ", "é", "A "}).Draw(t, "bad-mode")
		return all(), "legacy mode"
	case 6:
		tag = "<++ V:0.1," + rapid.SampledFrom([]string{"x", ":1", "M", "S5", "abc", ":"}).Draw(t, "field") + ",S:1>"
		return all(), "tag field"
	case 7:
		tag = "<++ V:0.1,M:A,H:" + rapid.SampledFrom([]string{"x", "1/2", "1/2/3/4", "a/2/3", "1/b/3", "1/2/c", "//", "1//3", "/2/3", "1/2/", "1.5", "99999999999999999999", "1 2"}).Draw(t, "hubs") + ",S:1>"
		return all(), "hub counts"
	}
	tag = "<++ V:0.1,S:" + badInt(t, "slots") + ",M:A>"
	return all(), "slots"
}

func nBreakerFor(k nKind) nBreaker {
	if b, ok := nBreakers[k.typ]; ok {
		return b
	}
	switch k.typ {
	case "GetNickList", "HubIsFull", "ZOn", "MaxedOut", "GetTopic", "BadPass", "GetPass":
		return brokenNoArgs
	case "ValidateNick", "ValidateDenide", "MyNick", "Quit", "LogedIn", "Hello", "Kick", "Close":
		return brokenNameMsg
	case "HubName", "MyPass", "BotINFO", "SetIcon", "SetLogo", "SetTopic":
		return brokenTextMsg
	}
	return nil // any payload is a message of this type
}

func drawBreakable(t *rapid.T) (nKind, string, string) {
	for {
		k := nKinds[pick(t, "kind", len(nKinds))]
		if b := nBreakerFor(k); b != nil {
			payload, why := b(t)
			return k, payload, why
		}
	}
}

var nIntact = []string{"<bob> hello|", "$Hello bob|", "$HubName Some hub|", "$Search Hub:bob F?T?0?1?x|", "$MyINFO $ALL bob d<++ V:0.1,M:A,H:1/0/0,S:3>$ $100\x01$$0$|", "$Unknown abc|", "$To: a From: b $<b> text|", "$GetPass|"}

func TestN11_Payloads(t *testing.T) {
	check(t, 5000, "every case is a payload of a known message type broken in one stated way", func(c *C) {
		k, bad, why := drawBreakable(c.T)
		c.Key("%s %q", k.typ, bad)
		c.Label("%s %s", k.typ, why)
		c.NonTrivial(true)
		var dec *nmdc.TextDecoder
		m := nmdc.NewMessage(k.typ)
		var err error
		if perr := guard(func() { err = m.UnmarshalNMDC(dec, []byte(bad)) }); perr != nil {
			c.Fatalf("%s %q: %v", k.typ, clip(bad, 300), perr)
		}
		if err == nil {
			c.Fatalf("%s accepts %q (%s) as %s", k.typ, clip(bad, 300), why, nShow(m))
		}
		// an intact payload of the same type is accepted
		g := k.draw(c.T, nUTF8)
		if err := nmdc.NewMessage(k.typ).UnmarshalNMDC(nil, []byte(k.wire(nUTF8, g))); err != nil {
			c.Fatalf("%s rejects its own payload %q: %v", k.typ, clip(k.wire(nUTF8, g), 300), err)
		}
	})
}

func TestN11_Lines(t *testing.T) {
	check(t, 3000, "every case is a line broken in one stated way, between intact lines, with a generated way of reading", func(c *C) {
		k, bad, why := drawBreakable(c.T)
		line := k.frame(bad)
		if bad == "" && k.typ != "" {
			line = "$" + k.typ + rapid.SampledFrom([]string{"", " "}).Draw(c.T, "empty") + "|"
		}
		before, after := rapid.SampledFrom(nIntact).Draw(c.T, "before"), rapid.SampledFrom(nIntact).Draw(c.T, "after")
		mode := pick(c.T, "mode", 5)
		c.Key("%q %d", line, mode)
		c.Label("%s", why)
		c.NonTrivial(true)
		rd := nmdc.NewReader(drawEOFReader(c.T, []byte(before+line+after)))
		var calls []string
		var decision bool
		fail := errors.New("decided by the callback")
		null := strings.IndexByte(line, 0) >= 0
		if mode >= 3 {
			decision = mode == 4
			rd.OnUnmarshalError = func(text []byte, err error) (bool, error) {
				if err == nil {
					c.Fatalf("the callback gets no error for %q", text)
				}
				calls = append(calls, string(text))
				if decision {
					return true, fail
				}
				return false, nil
			}
		}
		seen := 0
		if rapid.Bool().Draw(c.T, "hook") {
			rd.OnMessage(func(m nmdc.Message) (bool, error) { seen++; return true, nil })
		} else {
			seen = -1
		}
		read := func() (m nmdc.Message, err error) {
			if perr := guard(func() { m, err = rd.ReadMsg() }); perr != nil {
				c.Fatalf("reading %q: %v", clip(line, 300), perr)
			}
			return
		}
		if _, err := read(); err != nil {
			c.Fatalf("intact line %q: %v", before, err)
		}
		want, err := nmdc.Unmarshal(nil, []byte(after))
		if err != nil {
			c.Fatalf("intact line %q: %v", after, err)
		}
		var m nmdc.Message
		switch {
		case mode == 1:
			into := nmdc.NewMessage(k.typ)
			m = into
			if perr := guard(func() { err = rd.ReadMsgTo(into) }); perr != nil {
				c.Fatalf("reading %q: %v", clip(line, 300), perr)
			}
		case mode == 2:
			into := []nmdc.Message{nmdc.NewMessage("Version"), nmdc.NewMessage(k.typ)}
			if perr := guard(func() { m, err = rd.ReadMsgToAny(into...) }); perr != nil {
				c.Fatalf("reading %q: %v", clip(line, 300), perr)
			}
		default:
			m, err = read()
		}
		switch {
		case mode == 3 && !null:
			// skipped: the next line is returned instead
			if err != nil {
				c.Fatalf("the callback skips %q (%s), but the read fails: %v", clip(line, 300), why, err)
			}
			if !nEqual(m, want) {
				c.Fatalf("after skipping %q the reader returns %s, want %s", clip(line, 300), nShow(m), nShow(want))
			}
		case err == nil:
			c.Fatalf("%q (%s) is accepted as %s", clip(line, 300), why, nShow(m))
		case err == io.EOF || errors.Is(err, io.ErrUnexpectedEOF):
			c.Fatalf("%q (%s) is reported as the end of the stream", clip(line, 300), why)
		case mode == 4 && !null && err != fail:
			c.Fatalf("%q (%s): the read fails with %v, want the callback's error", clip(line, 300), why, err)
		}
		if mode >= 3 && !null {
			if len(calls) != 1 || calls[0] != strings.TrimSuffix(line, "|") {
				c.Fatalf("the callback is called with %q, want once with %q", calls, clip(line, 300))
			}
		}
		if mode != 3 || null {
			m, err := read()
			if err != nil {
				c.Fatalf("intact line %q after the broken one %q: %v", after, clip(line, 300), err)
			}
			if !nEqual(m, want) {
				c.Fatalf("after %q the reader returns %s, want %s", clip(line, 300), nShow(m), nShow(want))
			}
		}
		if seen >= 0 && seen != 2 {
			c.Fatalf("the message hook ran %d times for two intact lines around %q", seen, clip(line, 300))
		}
	})
}
