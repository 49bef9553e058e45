package props

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"
	"pgregory.net/rapid"
)

// C01: what the exported names stand for on the wire. The right-hand sides are written down from
// the published protocol documents (ADC, ADC-EXT, NMDC), never computed from the library.

type namedFea struct {
	v    adc.Feature
	wire string
}

var cFeatures = []namedFea{
	{adc.FeaBASE, "BASE"}, {adc.FeaBAS0, "BAS0"}, {adc.FeaTIGR, "TIGR"}, {adc.FeaPING, "PING"}, {adc.FeaONID, "ONID"},
	{adc.FeaBZIP, "BZIP"}, {adc.FeaTS, "TS00"}, {adc.FeaZLIF, "ZLIF"}, {adc.FeaZLIG, "ZLIG"}, {adc.FeaSEGA, "SEGA"},
	{adc.FeaUCMD, "UCMD"}, {adc.FeaUCM0, "UCM0"}, {adc.FeaADCS, "ADCS"}, {adc.FeaADC0, "ADC0"}, {adc.FeaNAT0, "NAT0"},
	{adc.FeaASCH, "ASCH"}, {adc.FeaSUD1, "SUD1"}, {adc.FeaSUDP, "SUDP"}, {adc.FeaCCPM, "CCPM"}, {adc.FeaBLO0, "BLO0"},
	{adc.FeaSIPR, "SIPR"}, {adc.FeaTCP4, "TCP4"}, {adc.FeaTCP6, "TCP6"}, {adc.FeaUDP4, "UDP4"}, {adc.FeaUDP6, "UDP6"},
}

type namedBit struct {
	v, wire int
}

var cUserTypes = []namedBit{
	{int(adc.UserTypeBot), 1}, {int(adc.UserTypeRegistered), 2}, {int(adc.UserTypeOperator), 4}, {int(adc.UserTypeSuperUser), 8},
	{int(adc.UserTypeHubOwner), 16}, {int(adc.UserTypeHub), 32}, {int(adc.UserTypeHidden), 64},
}

var cGroups = []namedBit{
	{int(adc.ExtAudio), 1}, {int(adc.ExtArch), 2}, {int(adc.ExtDoc), 4}, {int(adc.ExtExe), 8}, {int(adc.ExtImage), 16}, {int(adc.ExtVideo), 32},
}

var cCategories = []namedBit{
	{int(adc.CategoryHub), 1}, {int(adc.CategoryUser), 2}, {int(adc.CategorySearch), 4}, {int(adc.CategoryFileList), 8},
}

// drawBits picks a set of named bits: the value built from the names, and the one on the wire.
func drawBits(t *rapid.T, label string, tab []namedBit) (v, wire int) {
	mask := rapid.IntRange(0, 1<<uint(len(tab))-1).Draw(t, label)
	for i, b := range tab {
		if mask&(1<<uint(i)) != 0 {
			v |= b.v
			wire |= b.wire
		}
	}
	return
}

func adcFieldOf(payload []byte, tag string) (string, bool) {
	for _, f := range strings.Split(string(payload), " ") {
		if strings.HasPrefix(f, tag) {
			return f[len(tag):], true
		}
	}
	return "", false
}

func adcBytes(m adc.Message) ([]byte, error) {
	var buf bytes.Buffer
	err := adc.Marshal(&buf, m)
	return buf.Bytes(), err
}

func wantField(c *C, m adc.Message, tag, want string) {
	data, err := adcBytes(m)
	if err != nil {
		c.Fatalf("%+v cannot be encoded: %v", m, err)
	}
	if got, ok := adcFieldOf(data, tag); got != want || (!ok && want != "") {
		c.Fatalf("%s of %+v is %q on the wire, must be %q (%q)", tag, m, got, want, data)
	}
}

// zeroOr is how an optional number is written: zero is omitted.
func zeroOr(n int) string {
	if n == 0 {
		return ""
	}
	return strconv.Itoa(n)
}

func adcCmd(s string) adc.MsgType { return adc.MsgType{s[0], s[1], s[2]} }

func TestC01_ADC(t *testing.T) {
	check(t, 4000, "a message built from a random selection of the named ADC values; non-trivial: always", func(c *C) {
		c.NonTrivial(true)
		what := pick(c.T, "what", 7)
		c.Label("kind %d", what)
		switch what {
		case 0: // features in SUP
			mask := rapid.Uint32Range(1, 1<<uint(len(cFeatures))-1).Draw(c.T, "features")
			c.Key("sup %x", mask)
			m := adc.Supported{Features: adc.ModFeatures{}}
			want := map[string]bool{}
			for i, f := range cFeatures {
				if mask&(1<<uint(i)) != 0 {
					m.Features[f.v] = i%3 != 0
					want[map[bool]string{true: "AD", false: "RM"}[i%3 != 0]+f.wire] = true
				}
			}
			var buf bytes.Buffer
			if err := m.MarshalADC(&buf); err != nil {
				c.Fatalf("SUP is not encoded: %v", err)
			}
			got := strings.Split(buf.String(), " ")
			for _, g := range got {
				if !want[g] {
					c.Fatalf("SUP has %q, which was not asked for: %q", g, buf.String())
				}
			}
			if len(got) != len(want) {
				c.Fatalf("SUP has %d features out of %d: %q", len(got), len(want), buf.String())
			}
			// and the other way around
			var line []string
			for w := range want {
				line = append(line, w)
			}
			sortStrings(line)
			m2, err := adc.UnmarshalMessage(adcCmd("SUP"), []byte(strings.Join(line, " ")))
			if err != nil {
				c.Fatalf("SUP %q is rejected: %v", line, err)
			}
			mf := m2.(adc.Supported).Features
			for i, f := range cFeatures {
				on, ok := mf[f.v]
				if ok != (mask&(1<<uint(i)) != 0) || ok && on != (i%3 != 0) {
					c.Fatalf("%s is %v,%v after decoding %q", f.wire, on, ok, line)
				}
			}
		case 1: // features in INF
			mask := rapid.Uint32Range(1, 1<<uint(len(cFeatures))-1).Draw(c.T, "features")
			c.Key("inf %x", mask)
			var u adc.UserInfo
			var want []string
			for i, f := range cFeatures {
				if mask&(1<<uint(i)) != 0 {
					u.Features = append(u.Features, f.v)
					want = append(want, f.wire)
				}
			}
			wantField(c, u, "SU", strings.Join(want, ","))
			m, err := adc.UnmarshalMessage(adcCmd("INF"), []byte("SU"+strings.Join(want, ",")))
			if err != nil {
				c.Fatalf("SU%s is rejected: %v", want, err)
			}
			for i, f := range cFeatures {
				if m.(adc.UserInfo).Features.Has(f.v) != (mask&(1<<uint(i)) != 0) {
					c.Fatalf("%s after decoding %v", f.wire, want)
				}
			}
		case 2: // user types
			v, w := drawBits(c.T, "types", cUserTypes)
			c.Key("ct %d", w)
			wantField(c, adc.UserInfo{Type: adc.UserType(v)}, "CT", zeroOr(w))
			wantField(c, adc.HubInfo{Type: adc.UserType(v)}, "CT", zeroOr(w))
			m, err := adc.UnmarshalMessage(adcCmd("INF"), []byte("CT"+strconv.Itoa(w)))
			if err != nil {
				c.Fatalf("CT%d is rejected: %v", w, err)
			}
			typ := m.(adc.UserInfo).Type
			for _, b := range cUserTypes {
				if typ.Is(adc.UserType(b.v)) != (w&b.wire != 0) {
					c.Fatalf("user type %d: Is(%d) is %v", w, b.v, typ.Is(adc.UserType(b.v)))
				}
			}
			if typ.Is(adc.UserTypeNone) || (typ == adc.UserTypeNone) != (w == 0) {
				c.Fatalf("user type %d against UserTypeNone", w)
			}
			v2, w2 := drawBits(c.T, "types2", cUserTypes)
			if typ.Is(adc.UserType(v2)) != (w&w2 != 0) {
				c.Fatalf("user type %d: Is(%d) is %v", w, w2, typ.Is(adc.UserType(v2)))
			}
		case 3: // away
			w := rapid.IntRange(0, 2).Draw(c.T, "away")
			c.Key("aw %d", w)
			v := []adc.AwayType{adc.AwayTypeNone, adc.AwayTypeNormal, adc.AwayTypeExtended}[w]
			wantField(c, adc.UserInfo{Away: v}, "AW", zeroOr(w))
			m, err := adc.UnmarshalMessage(adcCmd("INF"), []byte("AW"+strconv.Itoa(w)))
			if err != nil || m.(adc.UserInfo).Away != v {
				c.Fatalf("AW%d decoded as %+v (%v)", w, m, err)
			}
		case 4: // search types and groups
			ty := rapid.IntRange(0, 2).Draw(c.T, "type")
			v, w := drawBits(c.T, "groups", cGroups)
			c.Key("sch %d %d", ty, w)
			ft := []adc.FileType{adc.FileTypeAny, adc.FileTypeFile, adc.FileTypeDir}[ty]
			req := adc.SearchRequest{Token: "t", Type: ft, Group: adc.ExtGroup(v)}
			wantField(c, req, "TY", zeroOr(ty))
			wantField(c, req, "GR", zeroOr(w))
			m, err := adc.UnmarshalMessage(adcCmd("SCH"), []byte(fmt.Sprintf("TOt TY%d GR%d", ty, w)))
			if err != nil {
				c.Fatalf("search is rejected: %v", err)
			}
			r := m.(adc.SearchRequest)
			if r.Type != ft || (r.Group == adc.ExtNone) != (w == 0) {
				c.Fatalf("TY%d GR%d decoded as %+v", ty, w, r)
			}
			for _, b := range cGroups {
				if r.Group.Has(adc.ExtGroup(b.v)) != (w&b.wire != 0) {
					c.Fatalf("group %d: Has(%d) is wrong", w, b.v)
				}
			}
		case 5: // user command categories
			v, w := drawBits(c.T, "cat", cCategories)
			c.Key("cmd %d", w)
			cmd := adc.UserCommand{Path: adc.Path{"a"}, Category: adc.Category(v)}
			wantField(c, cmd, "CT", zeroOr(w))
			m, err := adc.UnmarshalMessage(adcCmd("CMD"), []byte("a CT"+strconv.Itoa(w)))
			if err != nil {
				c.Fatalf("user command is rejected: %v", err)
			}
			for _, b := range cCategories {
				if (int(m.(adc.UserCommand).Category)&b.v != 0) != (w&b.wire != 0) {
					c.Fatalf("category %d against %d", w, b.v)
				}
			}
		case 6: // protocol names in connection requests, and the file list
			tls, rev := rapid.Bool().Draw(c.T, "tls"), rapid.Bool().Draw(c.T, "rev")
			tok := rapid.StringMatching(`[A-Za-z0-9]{1,12}`).Draw(c.T, "token")
			port := rapid.IntRange(1, 65535).Draw(c.T, "port")
			c.Key("ctm %v %v", tls, rev)
			proto, wire := adc.ProtoADC, "ADC/1.0"
			if tls {
				proto, wire = adc.ProtoADCS, "ADCS/0.10"
			}
			var m adc.Message = adc.ConnectRequest{Proto: proto, Port: port, Token: tok}
			want := fmt.Sprintf("%s %d %s", wire, port, tok)
			if rev {
				m, want = adc.RevConnectRequest{Proto: proto, Token: tok}, wire+" "+tok
			}
			data, err := adcBytes(m)
			if err != nil || string(data) != want {
				c.Fatalf("%+v is %q (%v), must be %q", m, data, err, want)
			}
			data, err = adcBytes(adc.GetRequest{Type: "file", Path: adc.FileListBZIP, Bytes: -1})
			if err != nil || string(data) != "file files.xml.bz2 0 -1" {
				c.Fatalf("request of the file list is %q (%v)", data, err)
			}
		}
	})
}

func TestC01_Status(t *testing.T) {
	check(t, 2000, "a status built from a named severity and a code; non-trivial: always", func(c *C) {
		c.NonTrivial(true)
		sev := rapid.IntRange(0, 2).Draw(c.T, "sev")
		code := rapid.OneOf(rapid.IntRange(0, 99), rapid.IntRange(49, 53), rapid.Just(51)).Draw(c.T, "code")
		msg := adcText(c.T, "msg")
		c.Key("%d%02d %s", sev, code, clip(msg, 20))
		st := adc.Status{Sev: []adc.Severity{adc.Success, adc.Recoverable, adc.Fatal}[sev], Code: code, Msg: msg}
		data, err := adcBytes(st)
		if want := fmt.Sprintf("%d%02d %s", sev, code, refEscape(msg)); err != nil || string(data) != want {
			c.Fatalf("status is %q (%v), must be %q", data, err, want)
		}
		m, err := adc.UnmarshalMessage(adcCmd("STA"), data)
		if err != nil || m.(adc.Status) != st {
			c.Fatalf("status %q decoded as %+v (%v)", data, m, err)
		}
		if st.Ok() != (sev == 0) || st.Recoverable() != (sev != 2) {
			c.Fatalf("status %q: Ok %v, Recoverable %v", data, st.Ok(), st.Recoverable())
		}
		serr := st.Err()
		switch {
		case sev == 0:
			c.Label("success")
			if serr != nil {
				c.Fatalf("successful status %q gives an error: %v", data, serr)
			}
		case code == 51:
			c.Label("file not available")
			if !errors.Is(serr, os.ErrNotExist) {
				c.Fatalf("status %q (file not available) gives %v", data, serr)
			}
		default:
			c.Label("error")
			if errors.Is(serr, os.ErrNotExist) {
				c.Fatalf("status %q is reported as a missing file", data)
			}
			var e adc.Error
			if !errors.As(serr, &e) || e.Status != st {
				c.Fatalf("error of status %q is %#v", data, serr)
			}
			if s := e.Error(); !strings.Contains(s, strconv.Itoa(code)) || !strings.Contains(s, msg) {
				c.Fatalf("error of status %q does not tell the code and the text: %q", data, s)
			}
		}
	})
}

// cSoftware splits "name with spaces version" the way older clients join them.
func TestC01_Normalize(t *testing.T) {
	check(t, 3000, "client name and version of a user, joined or separate; non-trivial: the version contains a space", func(c *C) {
		word := rapid.OneOf(rapid.SampledFrom([]string{"", "++", "DC++", "1.0", "v.0.868", "Air DC++w"}), rapid.StringMatching(`[ -~é日]{0,10}`))
		app, ver := "", word.Draw(c.T, "version")
		if rapid.IntRange(0, 2).Draw(c.T, "separate") == 0 {
			app = word.Draw(c.T, "app")
		} else if rapid.Bool().Draw(c.T, "joined") {
			ver = word.Draw(c.T, "name") + " " + ver
		}
		c.Key("%q %q", app, ver)
		c.NonTrivial(strings.Contains(ver, " "))
		u := adc.UserInfo{Name: "n", Application: app, Version: ver, Slots: 3, Email: "a b", Desc: "c d"}
		want := u
		if app == "" {
			parts := strings.Split(ver, " ")
			if n := len(parts); n > 1 {
				c.Label("split")
				want.Application, want.Version = strings.Join(parts[:n-1], " "), parts[n-1]
			}
		} else {
			c.Label("separate")
		}
		u.Normalize()
		if !adcEqual(u, want) {
			c.Fatalf("application %q version %q normalized to %q %q, must be %q %q (%+v)", app, ver, u.Application, u.Version, want.Application, want.Version, u)
		}
	})
}

var cNExt = []struct{ v, wire string }{
	{nmdc.ExtNoHello, "NoHello"}, {nmdc.ExtNoGetINFO, "NoGetINFO"}, {nmdc.ExtUserCommand, "UserCommand"}, {nmdc.ExtUserIP2, "UserIP2"},
	{nmdc.ExtTTHSearch, "TTHSearch"}, {nmdc.ExtZPipe0, "ZPipe0"}, {nmdc.ExtTLS, "TLS"}, {nmdc.ExtADCGet, "ADCGet"}, {nmdc.ExtBotINFO, "BotINFO"},
	{nmdc.ExtHubINFO, "HubINFO"}, {nmdc.ExtHubTopic, "HubTopic"}, {nmdc.ExtBotList, "BotList"}, {nmdc.ExtIN, "IN"}, {nmdc.ExtMCTo, "MCTo"},
	{nmdc.ExtNickChange, "NickChange"}, {nmdc.ExtClientNick, "ClientNick"}, {nmdc.ExtFeaturedNetworks, "FeaturedNetworks"},
	{nmdc.ExtGetZBlock, "GetZBlock"}, {nmdc.ExtClientID, "ClientID"}, {nmdc.ExtXmlBZList, "XmlBZList"}, {nmdc.ExtMinislots, "Minislots"},
	{nmdc.ExtTTHL, "TTHL"}, {nmdc.ExtTTHF, "TTHF"}, {nmdc.ExtTTHS, "TTHS"}, {nmdc.ExtZLIG, "ZLIG"}, {nmdc.ExtACTM, "ACTM"}, {nmdc.ExtBZList, "BZList"},
	{nmdc.ExtSaltPass, "SaltPass"}, {nmdc.ExtDHT0, "DHT0"}, {nmdc.ExtFailOver, "FailOver"}, {nmdc.ExtOpPlus, "OpPlus"}, {nmdc.ExtQuickList, "QuickList"},
	{nmdc.ExtBanMsg, "BanMsg"}, {nmdc.ExtNickRule, "NickRule"}, {nmdc.ExtSearchRule, "SearchRule"}, {nmdc.ExtExtJSON2, "ExtJSON2"}, {nmdc.ExtLocale, "Locale"},
}

var cDataTypes = []struct {
	v    nmdc.DataType
	wire string
}{
	{nmdc.DataTypeAny, "1"}, {nmdc.DataTypeAudio, "2"}, {nmdc.DataTypeCompressed, "3"}, {nmdc.DataTypeDocument, "4"}, {nmdc.DataTypeExecutable, "5"},
	{nmdc.DataTypePicture, "6"}, {nmdc.DataTypeVideo, "7"}, {nmdc.DataTypeFolders, "8"}, {nmdc.DataTypeTTH, "9"}, {nmdc.DataTypeDiskImage, "10"},
	{nmdc.DataTypeComics, "11"}, {nmdc.DataTypeBook, "12"}, {nmdc.DataTypeMagnet, "13"},
}

var cFlags = []struct {
	v    nmdc.UserFlag
	wire byte
}{
	{nmdc.FlagStatusNormal, 1}, {nmdc.FlagStatusAway, 2}, {nmdc.FlagStatusServer, 4}, {nmdc.FlagStatusFireball, 8},
	{nmdc.FlagTLSDownload, 0x10}, {nmdc.FlagTLSUpload, 0x20}, {nmdc.FlagIPv4, 0x40}, {nmdc.FlagIPv6, 0x80},
}

func wantNMDC(c *C, m nmdc.Message, want string) {
	data, err := nmdc.Marshal(nil, m)
	if err != nil || string(data) != want {
		c.Fatalf("%s is %q (%v), must be %q", nShow(m), data, err, want)
	}
}

func fromNMDC(c *C, line string) nmdc.Message {
	m, err := nmdc.Unmarshal(nil, []byte(line))
	if err != nil {
		c.Fatalf("%q is rejected: %v", line, err)
	}
	return m
}

func TestC01_NMDC(t *testing.T) {
	plain := rapid.StringMatching(`[A-Za-z0-9]{1,10}`)
	check(t, 4000, "a message built from a random selection of the named NMDC values; non-trivial: always", func(c *C) {
		c.NonTrivial(true)
		what := pick(c.T, "what", 7)
		c.Label("kind %d", what)
		switch what {
		case 0: // extensions
			mask := rapid.Uint64Range(1, 1<<uint(len(cNExt))-1).Draw(c.T, "ext")
			c.Key("supports %x", mask)
			var m nmdc.Supports
			var want []string
			for i, e := range cNExt {
				if mask&(1<<uint(i)) != 0 {
					m.Ext = append(m.Ext, e.v)
					want = append(want, e.wire)
				}
			}
			line := "$Supports " + strings.Join(want, " ") + "|"
			wantNMDC(c, &m, line)
			s := fromNMDC(c, line).(*nmdc.Supports)
			f := nmdc.Extensions{}
			for _, e := range s.Ext {
				f.Set(e)
			}
			for i, e := range cNExt {
				if f.Has(e.v) != (mask&(1<<uint(i)) != 0) {
					c.Fatalf("extension %s after decoding %q", e.wire, line)
				}
			}
		case 1: // data types
			d := rapid.SampledFrom(cDataTypes).Draw(c.T, "type")
			c.Key("search %s", d.wire)
			pat := plain.Draw(c.T, "pat")
			m := &nmdc.Search{User: "u", DataType: d.v, Pattern: pat}
			line := "$Search Hub:u F?T?0?" + d.wire + "?" + pat + "|"
			if d.wire == "9" {
				m.Pattern, m.TTH = "", drawTTH(c.T, "tth")
				if m.TTH == nil {
					m.TTH = new(adc.TTH)
				}
				line = "$Search Hub:u F?T?0?9?TTH:" + m.TTH.Base32() + "|"
			}
			wantNMDC(c, m, line)
			if got := fromNMDC(c, line).(*nmdc.Search); got.DataType != d.v {
				c.Fatalf("%q decoded as type %v", line, got.DataType)
			}
		case 2: // user commands
			ti := pick(c.T, "typ", 4)
			tv := []nmdc.UCmdType{nmdc.TypeSeparator, nmdc.TypeRaw, nmdc.TypeRawNickLimited, nmdc.TypeErase}[ti]
			tw := []int{0, 1, 2, 255}[ti]
			v, w := drawBits(c.T, "context", []namedBit{{int(nmdc.ContextHub), 1}, {int(nmdc.ContextUser), 2}, {int(nmdc.ContextSearch), 4}, {int(nmdc.ContextFileList), 8}})
			c.Key("ucmd %d %d", tw, w)
			m := &nmdc.UserCommand{Typ: tv, Context: nmdc.UCmdContext(v)}
			line := fmt.Sprintf("$UserCommand %d %d", tw, w)
			if ti == 1 || ti == 2 {
				m.Path, m.Command = []string{"a", "b"}, "cmd"
				line += ` a\b $cmd`
			}
			data, err := nmdc.Marshal(nil, m)
			if err != nil || strings.TrimRight(string(data), " |") != line {
				c.Fatalf("%s is %q (%v), must be %q", nShow(m), data, err, line)
			}
			got := fromNMDC(c, line+"|").(*nmdc.UserCommand)
			if got.Typ != tv || got.Context != nmdc.UCmdContext(v) {
				c.Fatalf("%q decoded as %s", line, nShow(got))
			}
		case 3: // user modes, status flags and connections
			mi := pick(c.T, "mode", 3)
			mv := []nmdc.UserMode{nmdc.UserModeActive, nmdc.UserModePassive, nmdc.UserModeSOCKS5}[mi]
			var flag nmdc.UserFlag
			var fw byte
			mask := rapid.IntRange(0, 255).Draw(c.T, "flags")
			for i, f := range cFlags {
				if mask&(1<<uint(i)) != 0 {
					flag |= f.v
					fw |= f.wire
				}
			}
			if rapid.Bool().Draw(c.T, "tls") {
				flag |= nmdc.FlagTLS
				fw |= 0x30
			}
			cv := []string{nmdc.ConnSpeedModem, nmdc.ConnSpeedServer}[pick(c.T, "conn", 2)]
			cw := map[string]string{nmdc.ConnSpeedModem: "1", nmdc.ConnSpeedServer: "1000"}[cv]
			c.Key("myinfo %d %x %s", mi, fw, cw)
			if fw == 0 { // no flags means a normal user
				flag, fw = nmdc.FlagStatusNormal, 1
			}
			if fw == '$' || fw == '|' { // cannot be written
				c.Label("flag that is a delimiter")
				return
			}
			m := &nmdc.MyINFO{Name: "n", Mode: mv, Conn: cv, Flag: flag, HubsNormal: 1, HubsRegistered: 2, HubsOperator: 3, Slots: 4, ShareSize: 5}
			m.Client.Name, m.Client.Version = "C", "V"
			line := "$MyINFO $ALL n <C V:V,M:" + string("AP5"[mi]) + ",H:1/2/3,S:4>$ $" + cw + string([]byte{fw}) + "$$5$|"
			wantNMDC(c, m, line)
			got := fromNMDC(c, line).(*nmdc.MyINFO)
			if got.Mode != mv || got.Conn != cv {
				c.Fatalf("%q decoded as %s", line, nShow(got))
			}
			for _, f := range cFlags {
				if got.Flag.IsSet(f.v) != (fw&f.wire != 0) {
					c.Fatalf("flag %#x of %q: IsSet(%#x) is wrong", fw, line, f.wire)
				}
			}
			if got.Flag.IsSet(nmdc.FlagTLS) != (fw&0x30 != 0) {
				c.Fatalf("TLS flags of %q", line)
			}
		case 4: // kinds of connection requests
			ki, tls := pick(c.T, "kind", 3), rapid.Bool().Draw(c.T, "tls")
			c.Key("ctm %d %v", ki, tls)
			addr := fmt.Sprintf("10.0.0.%d:%d", rapid.IntRange(0, 255).Draw(c.T, "ip"), rapid.IntRange(1, 65535).Draw(c.T, "port"))
			m := &nmdc.ConnectToMe{Targ: "t", Address: addr, Secure: tls, Kind: []nmdc.CTMKind{nmdc.CTMActive, nmdc.CTMPassiveReq, nmdc.CTMPassiveResp}[ki]}
			line := "$ConnectToMe t " + addr + []string{"", "N", "R"}[ki]
			if tls {
				line += "S"
			}
			if ki == 1 {
				m.Src = "s"
				line += " s"
			}
			line += "|"
			wantNMDC(c, m, line)
			if got := fromNMDC(c, line).(*nmdc.ConnectToMe); !nEqual(got, m) {
				c.Fatalf("%q decoded as %s", line, nShow(got))
			}
			if (nmdc.ConnectToMe{}).Kind != nmdc.CTMActive {
				c.Fatalf("connection requests are not active by default")
			}
		case 5: // chat text for people, and the text the key is calculated from
			name, text := rapid.OneOf(rapid.Just(""), plain).Draw(c.T, "name"), adcText(c.T, "text")
			c.Key("chat %q %q", name, clip(text, 20))
			want := text
			if name != "" {
				want = "<" + name + "> " + text
			}
			if got := (&nmdc.ChatMessage{Name: name, Text: text}).String(); got != want {
				c.Fatalf("chat message by %q with text %q is shown as %q", name, text, got)
			}
			l := &nmdc.Lock{NoExt: rapid.Bool().Draw(c.T, "noext"), Lock: plain.Draw(c.T, "lock"), PK: rapid.OneOf(rapid.Just(""), plain).Draw(c.T, "pk"), Ref: rapid.OneOf(rapid.Just(""), plain).Draw(c.T, "ref")}
			short := l.Lock
			if !l.NoExt {
				short = "EXTENDEDPROTOCOL" + l.Lock
			}
			full := short
			if l.PK != "" {
				full += " Pk=" + l.PK
			}
			if l.Ref != "" {
				if l.PK == "" {
					full += " "
				}
				full += "Ref=" + l.Ref
			}
			if got := l.LockString(false); got != short {
				c.Fatalf("lock of %s is %q", nShow(l), got)
			}
			if got := l.LockString(true); got != full {
				c.Fatalf("full lock of %s is %q", nShow(l), got)
			}
			wantNMDC(c, l, "$Lock "+full+"|")
			if k1, k2 := l.Key(), l.CustomKey(5, false); k1.Key != k2.Key || nmdc.DefaultKeyMagic != 5 {
				c.Fatalf("default key is not the one with magic 5")
			}
		case 6: // file transfer and addresses
			m := &nmdc.Direction{Upload: rapid.Bool().Draw(c.T, "upload"), Number: uint(rapid.IntRange(0, 32767).Draw(c.T, "n"))}
			c.Key("dir %v %d", m.Upload, m.Number)
			word := "Download"
			if m.Upload {
				word = "Upload"
			}
			wantNMDC(c, m, fmt.Sprintf("$Direction %s %d|", word, m.Number))
			if nmdc.SchemeNMDC != "dchub" || nmdc.SchemeNMDCS != "nmdcs" || nmdc.DefaultPort != 411 || nmdc.Delimiter != '|' ||
				adc.SchemaADC != "adc" || adc.SchemaADCS != "adcs" || nmdc.UserModeUnknown != 0 {
				c.Fatalf("names of the protocols have changed")
			}
		}
	})
}

// The commands the library understands (more may be added); a reader returns anything else raw.
var cNTypes = append(strings.Fields(`ADCGET ADCSND BadPass BotINFO BotList Close ConnectToMe Direction Error FailOver Failed ForceMove GetNickList
	GetPass GetTopic Hello HubINFO HubIsFull HubName HubTopic Key Kick Lock LogedIn MCTo MaxedOut MyINFO MyNick MyPass OpList Quit
	RevConnectToMe SA SP SR Search SetIcon SetLogo SetTopic Supports To: UserCommand UserIP ValidateDenide ValidateNick Version ZOn`), "")

func TestC01_Commands(t *testing.T) {
	check(t, 2000, "a sequence of questions to the registry about the documented NMDC commands and about near misses; non-trivial: the command is documented", func(c *C) {
		typ := rapid.SampledFrom(cNTypes).Draw(c.T, "typ")
		known := true
		if rapid.IntRange(0, 3).Draw(c.T, "miss") == 0 {
			switch pick(c.T, "how", 4) {
			case 0:
				typ = strings.ToLower(typ)
			case 1:
				typ = typ + "x"
			case 2:
				typ = "$" + typ
			case 3:
				typ = rapid.StringMatching(`[a-z]{1,8}`).Draw(c.T, "name")
			}
			known = false
			for _, n := range cNTypes {
				known = known || n == typ
			}
		}
		c.Key("%q", typ)
		c.NonTrivial(known)
		if nmdc.IsRegistered(typ) != known || nmdc.IsRegisteredBytes([]byte(typ)) != known {
			c.Fatalf("%q is registered: %v %v, must be %v", typ, nmdc.IsRegistered(typ), nmdc.IsRegisteredBytes([]byte(typ)), known)
		}
		m := nmdc.NewMessage(typ)
		if _, raw := m.(*nmdc.RawMessage); raw == known || m.Type() != typ {
			c.Fatalf("NewMessage(%q) is a %T of type %q", typ, m, m.Type())
		}
		listed := 0
		for _, n := range nmdc.RegisteredTypes() {
			if n == typ {
				listed++
			}
		}
		if (listed == 1) != known || listed > 1 {
			c.Fatalf("%q is listed %d times", typ, listed)
		}
		if m2 := nmdc.NewMessage(typ); known && m2 == m && fmt.Sprintf("%p", m) == fmt.Sprintf("%p", m2) && nSized(m) {
			c.Fatalf("NewMessage(%q) returned the same message twice", typ)
		}
	})
}

// nSized tells whether two live values of the message cannot share an address.
func nSized(m nmdc.Message) bool {
	return reflect.TypeOf(m).Elem().Size() > 0
}
