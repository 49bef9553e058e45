package props

import (
	"bytes"
	"errors"
	"io"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/direct-connect/go-dc/adc"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- typed values that are not what the protocol prescribes

type adcSlotType int

const (
	slotInt adcSlotType = iota
	slotSID
	slotHash
	slotFeatures
	slotFlag
)

func (s adcSlotType) String() string {
	return [...]string{"number", "sid", "hash", "features", "flag"}[s]
}

// badValue draws text that is no value of the type. It never contains a space, a line break or a null byte.
func badValue(t *rapid.T, typ adcSlotType) string {
	switch typ {
	case slotInt:
		return rapid.SampledFrom([]string{"x", "abc", "1x", "x1", "-", "+", ".", "--1", "+-1", "1-", "1,5", "1.5", "-0.5", "1e-1", "1_0", "one", "1k", "e", "1e",
			"9223372036854775808", "-9223372036854775809", "99999999999999999999999", "NaN", "Inf", "\uff11", "1\\s2", "\\s", "1\\n", "1/2", "1:2", "é", "\x01", "\xff"}).Draw(t, "bad-int")
	case slotSID:
		good := drawSID(t, "sid")
		switch pick(t, "damage", 3) {
		case 0:
			return string(good[:1+pick(t, "len", 3)])
		case 1:
			return string(good[:]) + strings.Repeat("A", 1+pick(t, "more", 5))
		}
		const outside = "01890/=+-_.$|a`z\x7f\x80\xff\x01,"
		good[pick(t, "pos", 4)] = outside[pick(t, "char", len(outside))]
		return string(good[:])
	case slotHash:
		v := draw24(t, "hash")
		for {
			s, _ := badB32(t, refB32(v[:]))
			if s != "" && !strings.ContainsAny(s, " \x00\n") {
				return s
			}
		}
	case slotFeatures:
		var list []string
		for n := pick(t, "features", 3); n > 0; n-- {
			f := drawFeature(t, "feature")
			list = append(list, string(f[:]))
		}
		bad := badFeature(t)
		i := pick(t, "at", len(list)+1)
		list = append(list[:i:i], append([]string{bad}, list[i:]...)...)
		if s := strings.Join(list, ","); s != "" {
			return s
		}
		return "," // a single empty name is the empty list
	case slotFlag:
		return rapid.SampledFrom([]string{"10", "01", "00", "11", "true", "no", "1\\s", "\\s", "1x"}).Draw(t, "bad-flag")
	}
	panic("slot")
}

// badFeature draws a feature name that is not four bytes long.
func badFeature(t *rapid.T) string {
	n := []int{0, 1, 2, 3, 5, 6, 8, 40}[pick(t, "len", 8)]
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, tagAlphabet[pick(t, "char", 36)])
	}
	return string(b)
}

// adcSlots lists the typed parameters of each message; a key is a name, or "#n" for the n-th positional one.
var adcSlots = map[string]map[string]adcSlotType{
	"MSG": {"PM": slotSID, "ME": slotFlag, "TS": slotInt},
	"CTM": {"#1": slotInt},
	"PAS": {"#0": slotHash},
	"QUI": {"#0": slotSID, "ID": slotSID, "TL": slotInt},
	"CMD": {"CT": slotInt, "RM": slotInt, "CO": slotInt, "SP": slotInt},
	"SCH": {"LE": slotInt, "GE": slotInt, "EQ": slotInt, "TY": slotInt, "GR": slotInt, "TR": slotHash},
	"RES": {"SI": slotInt, "SL": slotInt, "TR": slotHash},
	"INF": {"ID": slotHash, "PD": slotHash, "U4": slotInt, "U6": slotInt, "SS": slotInt, "SF": slotInt, "SL": slotInt, "FS": slotInt, "AS": slotInt,
		"HN": slotInt, "HR": slotInt, "HO": slotInt, "CT": slotInt, "AW": slotInt, "SU": slotFeatures},
	"INF-hub": {"CT": slotInt, "UC": slotInt, "SS": slotInt, "SF": slotInt, "MS": slotInt, "XS": slotInt, "ML": slotInt, "XL": slotInt, "MC": slotInt, "UP": slotInt,
		"XU": slotInt, "XR": slotInt, "XO": slotInt},
}

// textTags lists the parameters that may be given once only, per message, and are plain text.
var onceTags = map[string][]string{
	"MSG":     {"ME", "TS"},
	"QUI":     {"MS", "TL", "RD"},
	"CMD":     {"TT", "CT", "RM", "CO", "SP"},
	"SCH":     {"TO", "LE", "GE", "EQ", "TY", "GR"},
	"RES":     {"TO", "FN", "SI", "SL"},
	"INF":     {"NI", "I4", "I6", "U4", "U6", "SS", "SF", "VE", "AP", "US", "DS", "SL", "FS", "AS", "EM", "DE", "HN", "HR", "HO", "TO", "CT", "AW", "RF", "KP", "EA"},
	"INF-hub": {"NI", "VE", "AP", "DE", "CT", "HH", "WS", "NE", "OW", "UC", "SS", "SF", "MS", "XS", "ML", "XL", "MC", "UP", "XU", "XR", "XO"},
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}

// breakADC draws a payload of the message type that is broken in exactly one stated way.
func breakADC(t *rapid.T, k adcKind, m adc.Message) (payload, why string) {
	join := func(parts ...string) string { return strings.Join(parts, " ") }
	switch k.name {
	case "STA":
		bad := rapid.SampledFrom([]string{"", "x", "a20", "1x", "1.0", "1e2", "2 0", "0x10", "--1", "-1", "-120", "99999999999999999999", "1,2", "one", "\\s1"}).Draw(t, "bad-code")
		if bad == "2 0" {
			return " 200 text", "status without a code"
		}
		if rapid.Bool().Draw(t, "text") {
			bad += " " + refEscape(adcText(t, "msg"))
		}
		return bad, "status code"
	case "SID":
		if pick(t, "empty", 6) == 0 {
			return "", "empty identifier"
		}
		return badValue(t, slotSID), "identifier"
	case "GPA":
		good := stdBase32.EncodeToString([]byte(rapid.StringN(0, 20, 30).Draw(t, "salt")))
		switch pick(t, "damage", 3) {
		case 0:
			// no number of bytes has an encoding of this length
			return strings.Repeat("A", []int{1, 3, 6}[pick(t, "len", 3)]+8*pick(t, "groups", 5)), "salt length"
		case 1:
			return good + "=", "salt padding"
		}
		const outside = "01890/+-_.$|a`z\x7f\x80\xff\x01,"
		i := pick(t, "pos", len(good)+1)
		bad := good[:i] + string(outside[pick(t, "char", len(outside))])
		if i < len(good) {
			bad += good[i+1:]
		}
		return bad, "salt alphabet"
	case "SUP":
		r := k.ref(m)
		parts := append([]string{}, r.named...)
		bad := rapid.SampledFrom([]string{"AD", "RM"}).Draw(t, "op") + badFeature(t)
		i := pick(t, "at", len(parts)+1)
		parts = append(parts[:i:i], append([]string{bad}, parts[i:]...)...)
		return join(parts...), "feature name"
	case "GET", "SND":
		parts := strings.Split(k.ref(m).payload(), " ")
		switch pick(t, "damage", 4) {
		case 0:
			return join(parts[:pick(t, "fields", 4)]...), "missing field"
		case 1:
			// one of the first fields is missing, the rest moves up
			i := pick(t, "gone", 4)
			out := append(append([]string{}, parts[:i]...), parts[i+1:4]...)
			return join(out...), "missing field"
		case 2:
			i := 2 + pick(t, "field", 2)
			parts[i] = badValue(t, slotInt)
			if pick(t, "empty", 5) == 0 {
				parts[i] = ""
			}
			return join(parts...), "number"
		}
		return join(append(parts[:4:4], rapid.SampledFrom([]string{"ZL", "ZL2", "ZL11", "zl1", "ZL1x", "x", "1", "ZL1 ZL1", "ZL1 x"}).Draw(t, "flag"))...), "unknown flag"
	case "INF-mod":
		var parts []string
		for _, f := range m.(adc.UserInfoMod) {
			parts = append(parts, string(f.Tag[:])+refEscape(f.Value))
		}
		bad := rapid.SampledFrom([]string{"", "A", "7", "\x01"}).Draw(t, "short")
		i := pick(t, "at", len(parts)+1)
		parts = append(parts[:i:i], append([]string{bad}, parts[i:]...)...)
		if len(parts) == 1 && bad == "" {
			return " ", "short name" // an empty payload has no field
		}
		return join(parts...), "short name"
	}
	// message described by parameters
	r := k.ref(m)
	pos, named := append([]string{}, r.pos...), append([]string{}, r.named...)
	slots, once := adcSlots[k.name], onceTags[k.name]
	switch d := pick(t, "damage", 5); {
	case d == 0 && len(pos) > 1:
		// fewer positional parameters (an empty payload is an empty first one)
		return join(pos[:pick(t, "fields", len(pos))]...), "missing field"
	case d == 1 && len(once) > 0:
		tag := once[pick(t, "tag", len(once))]
		var out []string
		for _, p := range named {
			if clipTag(p) != tag {
				out = append(out, p)
			}
		}
		a, b := "1", "1"
		if slots[tag] != slotInt || slots != nil && func() bool { _, ok := slots[tag]; return !ok }() {
			a, b = rapid.SampledFrom([]string{"", "1", "0", "x"}).Draw(t, "a"), rapid.SampledFrom([]string{"", "1", "0", "y"}).Draw(t, "b")
		} else {
			a, b = rapid.SampledFrom([]string{"", "1", "0", "-5"}).Draw(t, "a"), rapid.SampledFrom([]string{"", "1", "0", "7"}).Draw(t, "b")
		}
		if slots[tag] == slotFlag && tag == "ME" {
			a, b = "1", rapid.SampledFrom([]string{"1", "0"}).Draw(t, "b-flag")
		}
		for _, v := range []string{a, b} {
			i := pick(t, "at", len(out)+1)
			out = append(out[:i:i], append([]string{tag + v}, out[i:]...)...)
		}
		return join(append(pos, out...)...), "repeated parameter"
	}
	if len(slots) == 0 {
		return join(pos[:pick(t, "fields", len(pos))]...), "missing field"
	}
	keys := sortedKeys(slots)
	key := keys[pick(t, "slot", len(keys))]
	bad := badValue(t, slots[key])
	if key[0] == '#' {
		pos[key[1]-'0'] = bad
		if pick(t, "empty", 8) == 0 && slots[key] != slotInt {
			pos[key[1]-'0'] = ""
		}
		return join(append(pos, named...)...), "positional " + slots[key].String()
	}
	done := false
	for i, p := range named {
		if clipTag(p) == key {
			named[i], done = key+bad, true
			break
		}
	}
	if !done {
		i := pick(t, "at", len(named)+1)
		named = append(named[:i:i], append([]string{key + bad}, named[i:]...)...)
	}
	return join(append(pos, named...)...), slots[key].String()
}

// adcErr runs a decoding call and returns its error; a panic is a failure of the property.
func adcErr(c *C, what string, f func() error) error {
	var err error
	if perr := guard(func() { err = f() }); perr != nil {
		c.Fatalf("%s: %v", what, perr)
	}
	return err
}

func TestA09_Payloads(t *testing.T) {
	check(t, 4000, "every case is a payload of a known message type broken in one stated way; the intact payload decodes", func(c *C) {
		k := drawADCKind(c.T)
		for k.name == "ZON" || k.name == "ZOF" {
			k = drawADCKind(c.T)
		}
		m := k.draw(c.T)
		good := k.ref(m).payload()
		bad, why := breakADC(c.T, k, m)
		c.Key("%s %q", k.name, bad)
		c.Label("%s %s", k.name, why)
		c.NonTrivial(true)
		var cmd adc.MsgType
		copy(cmd[:], k.name)

		if err := adcErr(c, "intact payload", func() error { return adc.Unmarshal([]byte(good), k.fresh()) }); err != nil {
			c.Fatalf("the intact payload %q of %s is rejected: %v", clip(good, 300), k.name, err)
		}
		into := k.fresh()
		if err := adcErr(c, "Unmarshal", func() error { return adc.Unmarshal([]byte(bad), into) }); err == nil {
			c.Fatalf("%s: Unmarshal accepts %q (%s) as %s", k.name, clip(bad, 300), why, adcShow(into))
		}
		// a malformed info update must not be accepted on top of a known record either
		onto := k.fresh()
		if err := adc.Unmarshal([]byte(good), onto); err == nil {
			if err := adcErr(c, "Unmarshal again", func() error { return adc.Unmarshal([]byte(bad), onto) }); err == nil {
				c.Fatalf("%s: Unmarshal accepts %q (%s) on top of %q", k.name, clip(bad, 300), why, clip(good, 300))
			}
		}
		if k.registered {
			var got adc.Message
			if err := adcErr(c, "UnmarshalMessage", func() (err error) { got, err = adc.UnmarshalMessage(cmd, []byte(bad)); return }); err == nil {
				c.Fatalf("%s: UnmarshalMessage accepts %q (%s) as %s", k.name, clip(bad, 300), why, adcShow(got))
			}
			raw := &adc.RawMessage{Type: cmd, Data: []byte(bad)}
			if err := adcErr(c, "RawMessage.Decode", func() (err error) { got, err = raw.Decode(); return }); err == nil {
				c.Fatalf("%s: RawMessage.Decode accepts %q (%s) as %s", k.name, clip(bad, 300), why, adcShow(got))
			}
		}
	})
}

func TestA09_Lines(t *testing.T) {
	check(t, 2500, "every case is a line whose payload is broken in one stated way, between intact lines", func(c *C) {
		k := drawRegisteredKind(c.T)
		for k.name == "ZON" || k.name == "ZOF" {
			k = drawRegisteredKind(c.T)
		}
		m := k.draw(c.T)
		bad, why := breakADC(c.T, k, m)
		r := drawRefPacket(c.T)
		if r.kind == 'F' && !featurePayloadOK(bad) || bad == "" && r.kind == 'F' {
			r.kind, r.sel = 'B', nil
		}
		var cmd adc.MsgType
		copy(cmd[:], k.name)
		line := r.line(cmd, bad)
		if len(line) > 30000 {
			c.Skip("longer than a line may be")
		}
		c.Key("%q", line)
		c.Label("%s %c", k.name, r.kind)
		c.NonTrivial(true)

		var p adc.Packet
		if err := adcErr(c, "DecodePacket", func() (err error) { p, err = adc.DecodePacket([]byte(line)); return }); err == nil {
			c.Fatalf("DecodePacket accepts %q (%s) as %s", clip(line, 300), why, adcShow(p.Message()))
		}
		// the header alone is fine, decoding the message must fail
		if err := adcErr(c, "DecodePacketRaw", func() (err error) { p, err = adc.DecodePacketRaw([]byte(line)); return }); err != nil {
			c.Fatalf("DecodePacketRaw rejects %q: %v", clip(line, 300), err)
		}
		if err := adcErr(c, "DecodeMessage", func() error { return p.DecodeMessage() }); err == nil {
			c.Fatalf("DecodeMessage accepts %q (%s) as %s", clip(line, 300), why, adcShow(p.Message()))
		}
		if raw, ok := p.Message().(*adc.RawMessage); !ok || raw.Type != cmd || string(raw.Data) != bad {
			c.Fatalf("after DecodeMessage has rejected %q (%s), the packet has the message %s", clip(line, 300), why, adcShow(p.Message()))
		}
		p, _ = adc.DecodePacketRaw([]byte(line))
		into := k.fresh()
		if err := adcErr(c, "DecodeMessageTo", func() error { return p.DecodeMessageTo(into) }); err == nil {
			c.Fatalf("DecodeMessageTo accepts %q (%s) as %s", clip(line, 300), why, adcShow(into))
		}

		// in a stream, between intact packets
		before, after := drawIntactLine(c.T), drawIntactLine(c.T)
		rd := adc.NewReader(drawEOFReader(c.T, []byte(before+line+after)))
		read := func() (p adc.Packet, err error) {
			err = adcErr(c, "ReadPacket", func() (err error) { p, err = rd.ReadPacket(); return })
			return
		}
		if _, err := read(); err != nil {
			c.Fatalf("intact line %q: %v", before, err)
		}
		isInfo, isClient := r.kind == 'I', r.kind == 'C'
		switch {
		case isInfo && rapid.Bool().Draw(c.T, "ReadInfo"):
			if err := adcErr(c, "ReadInfo", func() error { _, err := rd.ReadInfo(); return err }); err == nil {
				c.Fatalf("ReadInfo accepts %q (%s)", clip(line, 300), why)
			}
		case isClient && rapid.Bool().Draw(c.T, "ReadClient"):
			if err := adcErr(c, "ReadClient", func() error { _, err := rd.ReadClient(); return err }); err == nil {
				c.Fatalf("ReadClient accepts %q (%s)", clip(line, 300), why)
			}
		default:
			if p, err := read(); err == nil {
				c.Fatalf("ReadPacket accepts %q (%s) as %s", clip(line, 300), why, adcShow(p.Message()))
			} else if errors.Is(err, io.EOF) {
				c.Fatalf("ReadPacket reports the end of the stream for %q", clip(line, 300))
			}
		}
		got, err := read()
		if err != nil {
			c.Fatalf("intact line %q after the broken one %q: %v", after, clip(line, 300), err)
		}
		want, err := adc.DecodePacket([]byte(after))
		if err != nil {
			c.Fatalf("intact line %q: %v", after, err)
		}
		if !adcEqual(got.Message(), want.Message()) || reflect.TypeOf(got) != reflect.TypeOf(want) {
			c.Fatalf("line %q after the broken one is %s, alone it is %s", after, adcShow(got.Message()), adcShow(want.Message()))
		}
	})
}

func drawIntactLine(t *rapid.T) string {
	return rapid.SampledFrom([]string{"IMSG hello\\sworld\n", "HSTA 000 ok\n", "BINF AAAB NIname\n", "DCTM AAAB AAAC ADC/1.0 3000 token\n", "IQUI AAAC TL-1\n",
		"BSCH AAAA ANmovie TOt\n", "ISUP ADBASE ADTIGR\n", "CGET file TTH/X 0 -1\n", "IXYZ some payload\n"}).Draw(t, "intact")
}

// ---------------------------------------------------------------- messages described by struct tags

// The types below stand for messages that a user of the library adds.
type (
	customEnum int

	customMsg1 struct {
		Name   string        `adc:"#"`
		N      int16         `adc:"#"`
		On     bool          `adc:"#"`
		Id     adc.SID       `adc:"#"`
		Note   string        `adc:"NO"`
		Size   int64         `adc:"SZ,req"`
		Flag   bool          `adc:"FL"`
		Peer   *adc.SID      `adc:"PE"`
		Hash   *adc.TTH      `adc:"HA"`
		List   []string      `adc:"LI"`
		Nums   []int         `adc:"NU"`
		Ids    []adc.SID     `adc:"IS"`
		Feas   []adc.Feature `adc:"FE"`
		Hidden string        `adc:"-"`
		Local  []byte
		Kind   customEnum      `adc:"KI,req"`
		Sup    adc.ExtFeatures `adc:"SU"`
		Bi     adc.BoolInt     `adc:"BI,req"`
		Str    adc.String      `adc:"ST"`
	}

	customMsg2 struct {
		A   string  `adc:"AA,req"`
		B   string  `adc:"AB"`
		Num *int    `adc:"NM"`
		Txt *string `adc:"TX"`
		C32 int32   `adc:"CC"`
		D   bool    `adc:"DD,req"`
		E   []bool  `adc:"EE"`
		F   []int64 `adc:"FF"`
		G   adc.CID `adc:"GG"`
		H   *adc.CID
		I   *bool `adc:"II"`
	}

	customMsg3 struct {
		Path adc.Path `adc:"#"`
		Last string   `adc:"#"`
	}

	customMsg4 struct {
		U   uint   `adc:"#"`
		U16 uint16 `adc:"UA"`
		U32 uint32 `adc:"UB,req"`
		U64 uint64 `adc:"UC"`
	}

	// optional values that keep their place when they are missing
	customMsg5 struct {
		P *int      `adc:"#"`
		Q *string   `adc:"#"`
		S *adc.SID  `adc:"#"`
		E string    `adc:"#"`
		R *int64    `adc:"RR,req"`
		T *string   `adc:"RT,req"`
		U *adc.SID  `adc:"RS,req"`
		V *bool     `adc:"RB,req"`
		W *customID `adc:"RW,req"`
	}
	customID string
)

func (customMsg1) Cmd() adc.MsgType { return adc.MsgType{'X', 'V', '1'} }
func (customMsg2) Cmd() adc.MsgType { return adc.MsgType{'X', 'V', '2'} }
func (customMsg3) Cmd() adc.MsgType { return adc.MsgType{'X', 'V', '3'} }
func (customMsg4) Cmd() adc.MsgType { return adc.MsgType{'X', 'V', '4'} }

func (customMsg5) Cmd() adc.MsgType { return adc.MsgType{'X', 'V', '5'} }

func drawInt16(t *rapid.T, label string) int16 {
	return rapid.SampledFrom([]int16{0, 1, -1, 7, 255, 32767, -32768}).Draw(t, label)
}

func some[T any](t *rapid.T, label string, f func(t *rapid.T, label string) T) *T {
	if rapid.Bool().Draw(t, label+"-nil") {
		return nil
	}
	v := f(t, label)
	return &v
}

func listOf[T any](t *rapid.T, label string, f func(t *rapid.T, label string) T) (out []T) {
	for n := rapid.IntRange(0, 4).Draw(t, label+"-n"); n > 0; n-- {
		out = append(out, f(t, label))
	}
	return
}

func zero01(v bool) string {
	if v {
		return "1"
	}
	return "0"
}

func drawCustom(t *rapid.T) (m adc.Message, want refMsg, decodable bool) {
	b := namedBuilder{&want}
	add := func(s string) { want.named = append(want.named, s) }
	switch pick(t, "custom", 5) {
	case 4:
		dotted := func(t *rapid.T, l string) string { return adcText(t, l) + "." }
		v := customMsg5{P: some(t, "p", drawInt), Q: some(t, "q", dotted), S: some(t, "s", drawSID), E: adcText(t, "e"), R: some(t, "r", drawInt64), T: some(t, "t", dotted),
			U: some(t, "u", drawSID), V: some(t, "v", func(t *rapid.T, l string) bool { return rapid.Bool().Draw(t, l) }),
			W: some(t, "w", func(t *rapid.T, l string) customID { return customID(dotted(t, l)) })}
		want.pos = []string{"", "", "", refEscape(v.E)}
		if v.P != nil {
			want.pos[0] = itoa(int64(*v.P))
		}
		if v.Q != nil {
			want.pos[1] = refEscape(*v.Q)
		}
		if v.S != nil {
			want.pos[2] = string(v.S[:])
		}
		var r, tt, u, o, w string
		if v.R != nil {
			r = itoa(*v.R)
		}
		if v.T != nil {
			tt = refEscape(*v.T)
		}
		if v.U != nil {
			u = string(v.U[:])
		}
		if v.V != nil {
			o = zero01(*v.V)
		}
		if v.W != nil {
			w = refEscape(string(*v.W))
		}
		want.named = []string{"RR" + r, "RT" + tt, "RS" + u, "RB" + o, "RW" + w}
		return v, want, true
	case 0:
		v := customMsg1{Name: adcText(t, "name"), N: drawInt16(t, "n"), On: rapid.Bool().Draw(t, "on"), Id: drawSID(t, "id"), Note: adcText(t, "note"), Size: drawInt64(t, "size"),
			Flag: rapid.Bool().Draw(t, "flag"), Peer: some(t, "peer", drawSID), Hash: drawTTH(t, "hash"), List: listOf(t, "list", adcText), Nums: listOf(t, "nums", drawInt),
			Ids: listOf(t, "ids", drawSID), Feas: listOf(t, "feas", drawFeature), Kind: customEnum(drawInt(t, "kind")), Sup: listOf(t, "sup", drawFeature),
			Bi: adc.BoolInt(rapid.Bool().Draw(t, "bi")), Str: adc.String(adcText(t, "str"))}
		want.pos = []string{refEscape(v.Name), itoa(int64(v.N)), zero01(v.On), string(v.Id[:])}
		b.text("NO", v.Note, false)
		b.num("SZ", v.Size, true)
		b.flag("FL", v.Flag)
		if v.Peer != nil {
			add("PE" + string(v.Peer[:]))
		}
		b.tth("HA", v.Hash)
		b.texts("LI", v.List)
		for _, n := range v.Nums {
			add("NU" + itoa(int64(n)))
		}
		for _, id := range v.Ids {
			add("IS" + string(id[:]))
		}
		for _, f := range v.Feas {
			add("FE" + string(f[:]))
		}
		b.num("KI", int64(v.Kind), true)
		if len(v.Sup) > 0 {
			var s []string
			for _, f := range v.Sup {
				s = append(s, string(f[:]))
			}
			add("SU" + strings.Join(s, ","))
		}
		add("BI" + zero01(bool(v.Bi)))
		b.text("ST", string(v.Str), false)
		return v, want, true
	case 1:
		v := customMsg2{A: adcText(t, "a"), B: adcText(t, "b"), Num: some(t, "num", drawInt), Txt: some(t, "txt", func(t *rapid.T, l string) string { return adcText(t, l) + "." }),
			C32: int32(drawInt(t, "c")), D: rapid.Bool().Draw(t, "d"), E: listOf(t, "e", func(t *rapid.T, l string) bool { return rapid.Bool().Draw(t, l) }), F: listOf(t, "f", drawInt64),
			I: some(t, "i", func(t *rapid.T, l string) bool { return rapid.Bool().Draw(t, l) })}
		if rapid.Bool().Draw(t, "g") {
			v.G = adc.CID(draw24(t, "cid"))
		}
		b.text("AA", v.A, true)
		b.text("AB", v.B, false)
		if v.Num != nil {
			add("NM" + itoa(int64(*v.Num)))
		}
		if v.Txt != nil {
			add("TX" + refEscape(*v.Txt))
		}
		b.num("CC", int64(v.C32), false)
		add("DD" + zero01(v.D))
		for _, e := range v.E {
			add("EE" + zero01(e))
		}
		for _, f := range v.F {
			add("FF" + itoa(f))
		}
		if v.G != (adc.CID{}) {
			b.bytes("GG", v.G[:])
		}
		if v.I != nil {
			add("II" + zero01(*v.I))
		}
		return v, want, true
	case 2:
		v := customMsg3{Last: adcText(t, "last")}
		for n := rapid.IntRange(1, 4).Draw(t, "path-n"); n > 0; n-- {
			v.Path = append(v.Path, strings.ReplaceAll(adcText(t, "path"), "/", "_"))
		}
		var path []string
		for _, p := range v.Path {
			path = append(path, refEscape(p))
		}
		want.pos = []string{strings.Join(path, "/"), refEscape(v.Last)}
		return v, want, true
	}
	v := customMsg4{U: uint(drawUint64(t, "u")), U16: uint16(drawUint64(t, "u16")), U32: uint32(drawUint64(t, "u32")), U64: drawUint64(t, "u64")}
	want.pos = []string{utoa(uint64(v.U))}
	if v.U16 != 0 {
		add("UA" + utoa(uint64(v.U16)))
	}
	add("UB" + utoa(uint64(v.U32)))
	if v.U64 != 0 {
		add("UC" + utoa(v.U64))
	}
	return v, want, false
}

func TestA10_Custom(t *testing.T) {
	check(t, 4000, "non-trivial if the message has at least three parameters", func(c *C) {
		m, want, decodable := drawCustom(c.T)
		c.Key("%s %q", m.Cmd(), want.payload())
		c.NonTrivial(len(want.pos)+len(want.named) >= 3)
		c.Label("%s", m.Cmd())
		// by value and by pointer
		ptr := reflect.New(reflect.TypeOf(m))
		ptr.Elem().Set(reflect.ValueOf(m))
		for _, mm := range []adc.Message{m, ptr.Interface().(adc.Message)} {
			var buf bytes.Buffer
			buf.WriteString("kept ")
			if err := adc.Marshal(&buf, mm); err != nil {
				c.Fatalf("Marshal of %s: %v", adcShow(m), err)
			}
			got := buf.String()
			if !strings.HasPrefix(got, "kept ") {
				c.Fatalf("Marshal changed the data before the message: %q", clip(got, 300))
			}
			if d := want.diff(got[5:]); d != "" {
				c.Fatalf("%s: %s", adcShow(m), d)
			}
		}
		if !decodable {
			return
		}
		// in the order of the reference, and with the named parameters permuted among unknown ones
		named := append([]string{}, want.named...)
		if rapid.Bool().Draw(c.T, "permute") {
			named = permuteNamed(c.T, named)
			for n := rapid.IntRange(0, 3).Draw(c.T, "unknown"); n > 0; n-- {
				i := pick(c.T, "at", len(named)+1)
				named = append(named[:i:i], append([]string{"QQ" + refEscape(adcText(c.T, "unknown-value"))}, named[i:]...)...)
			}
		}
		payload := strings.Join(append(append([]string{}, want.pos...), named...), " ")
		into := reflect.New(reflect.TypeOf(m))
		if err := adc.Unmarshal([]byte(payload), into.Interface()); err != nil {
			c.Fatalf("Unmarshal of %q: %v", clip(payload, 500), err)
		}
		got := into.Elem().Interface().(adc.Message)
		if !adcEqual(got, m) {
			c.Fatalf("%q decodes to\n%s, want\n%s", clip(payload, 300), clip(adcShow(got), 400), clip(adcShow(m), 400))
		}
		// fewer positional parameters than the message has
		if n := len(want.pos); n > 1 {
			short := strings.Join(want.pos[:1+pick(c.T, "short", n-1)], " ")
			if err := adcErr(c, "short", func() error { return adc.Unmarshal([]byte(short), reflect.New(reflect.TypeOf(m)).Interface()) }); err == nil {
				c.Fatalf("%s accepts %q, which lacks positional parameters", m.Cmd(), clip(short, 300))
			}
		}
	})
}

// permuteNamed shuffles parameters but keeps the order of those with the same name.
func permuteNamed(t *rapid.T, named []string) []string {
	out := rapid.Permutation(named).Draw(t, "order")
	byTag := map[string][]string{}
	for _, p := range named {
		byTag[clipTag(p)] = append(byTag[clipTag(p)], p)
	}
	for i, p := range out {
		tag := clipTag(p)
		out[i], byTag[tag] = byTag[tag][0], byTag[tag][1:]
	}
	return out
}

type regMsg struct {
	Text string `adc:"#"`
	N    int    `adc:"NN"`
}

func (regMsg) Cmd() adc.MsgType { return adc.MsgType{'X', 'R', 'G'} }

// ptrMsg is a type of the user that is registered by a pointer.
type ptrMsg struct {
	Text string `adc:"#"`
	N    int    `adc:"NN"`
}

func (*ptrMsg) Cmd() adc.MsgType { return adc.MsgType{'X', 'P', 'T'} }

func init() {
	adc.RegisterMessage(regMsg{})
	adc.RegisterMessage(&ptrMsg{})
}

func TestA10_Registered(t *testing.T) {
	check(t, 1500, "every case sends a message of a type registered by the user in one of the packet kinds", func(c *C) {
		m := regMsg{Text: adcText(c.T, "text"), N: drawInt(c.T, "n")}
		r := drawRefPacket(c.T)
		payload := refEscape(m.Text)
		if m.N != 0 {
			payload += " NN" + itoa(int64(m.N))
		}
		if r.kind == 'F' && !featurePayloadOK(payload) {
			r.kind, r.sel = 'B', nil
		}
		c.Key("%c %q", r.kind, payload)
		c.NonTrivial(true)
		var sent adc.Message = m
		cmd, byPtr := m.Cmd(), false
		switch pick(c.T, "pointer", 3) {
		case 1:
			sent = &m
		case 2: // a type whose methods need a pointer
			sent, byPtr = &ptrMsg{Text: m.Text, N: m.N}, true
			cmd = sent.Cmd()
		}
		var wire bytes.Buffer
		w := adc.NewWriter(&wire)
		if err := w.WritePacket(r.build(sent)); err != nil {
			c.Fatalf("WritePacket: %v", err)
		}
		if err := w.Flush(); err != nil {
			c.Fatalf("Flush: %v", err)
		}
		line := r.line(cmd, payload)
		if payload == "" {
			line = r.line(cmd, "")
		}
		if got := wire.String(); strings.TrimRight(got, " \n") != strings.TrimRight(line, " \n") {
			c.Fatalf("written as %q, want %q", clip(got, 300), clip(line, 300))
		}
		rd := adc.NewReader(drawEOFReader(c.T, wire.Bytes()))
		rd.SetMaxLine(0)
		var p adc.Packet
		err := adcErr(c, "read", func() (err error) { p, err = rd.ReadPacket(); return })
		if err != nil {
			c.Fatalf("ReadPacket of %q: %v", clip(wire.String(), 300), err)
		}
		if d := r.diff(p); d != "" {
			c.Fatalf("%q: %s", clip(wire.String(), 300), d)
		}
		got, ok := p.Message().(regMsg)
		if byPtr {
			var pm *ptrMsg
			if pm, ok = p.Message().(*ptrMsg); ok {
				got = regMsg{Text: pm.Text, N: pm.N}
			}
		}
		if !ok || got != m {
			c.Fatalf("%q decodes to %s, want %s", clip(wire.String(), 300), adcShow(p.Message()), adcShow(m))
		}
		// a second type cannot take the same command
		if guard(func() { adc.RegisterMessage(&regMsg{}) }) == nil || guard(func() { adc.RegisterMessage(&ptrMsg{}) }) == nil {
			c.Fatalf("a command can be registered twice")
		}
	})
}

// moody is a value whose encoder and decoder refuse some values, after part of the work is done.
type moody struct{ text string }

var errMoody = errors.New("value refused")

func (m moody) refused() bool { return strings.HasPrefix(m.text, "no") }

func (m moody) MarshalADC(buf *bytes.Buffer) error {
	if m.refused() {
		if len(m.text) > 2 {
			buf.WriteString(m.text[:2])
		}
		return errMoody
	}
	buf.WriteString(m.text)
	return nil
}

func (m *moody) UnmarshalADC(data []byte) error {
	m.text = string(data)
	if m.refused() {
		return errMoody
	}
	return nil
}

type (
	moodyMsg struct {
		Pos   moody    `adc:"#"`
		Text  string   `adc:"#"`
		Last  moody    `adc:"#"`
		Named moody    `adc:"NA"`
		Req   moody    `adc:"RE,req"`
		Opt   *moody   `adc:"OP"`
		Must  *moody   `adc:"MU,req"`
		List  []moody  `adc:"LI"`
		Ptrs  []*moody `adc:"PT"`
		Note  string   `adc:"NO"`
	}

	floatMsg1 struct {
		F float64 `adc:"#"`
	}
	floatMsg2 struct {
		F float32 `adc:"FF"`
	}
	structMsg struct {
		A string             `adc:"#"`
		S struct{ A, B int } `adc:"SS,req"`
	}
	sliceMsg struct {
		L []string `adc:"#"`
	}
	complexMsg struct {
		C []complex128 `adc:"CC"`
	}
	numberMsg int
)

func (moodyMsg) Cmd() adc.MsgType   { return adc.MsgType{'X', 'M', 'O'} }
func (floatMsg1) Cmd() adc.MsgType  { return adc.MsgType{'X', 'E', '1'} }
func (floatMsg2) Cmd() adc.MsgType  { return adc.MsgType{'X', 'E', '2'} }
func (structMsg) Cmd() adc.MsgType  { return adc.MsgType{'X', 'E', '3'} }
func (sliceMsg) Cmd() adc.MsgType   { return adc.MsgType{'X', 'E', '4'} }
func (complexMsg) Cmd() adc.MsgType { return adc.MsgType{'X', 'E', '5'} }
func (numberMsg) Cmd() adc.MsgType  { return adc.MsgType{'X', 'E', '6'} }

// TestA10_Refused: a field that cannot be encoded or decoded is an error of the whole message.
func TestA10_Refused(t *testing.T) {
	check(t, 2000, "some field is refused by its own encoder and decoder, or has an unsupported type", func(c *C) {
		if pick(c.T, "unsupported", 5) == 0 {
			m := []adc.Message{floatMsg1{1.5}, floatMsg2{2}, structMsg{A: "a"}, sliceMsg{[]string{"a", "b"}}, complexMsg{make([]complex128, 2)}, numberMsg(3)}[pick(c.T, "type", 6)]
			payload := []string{"1.5", "FF2", "a SS1", "a b", "CC1 CC2", "3"}[m.Cmd()[2]-'1']
			c.NonTrivial(true)
			c.Key("%T", m)
			refusedEncoding(c, m)
			ptr := reflect.New(reflect.TypeOf(m))
			if err := adcErr(c, "decoding an unsupported type", func() error { return adc.Unmarshal([]byte(payload), ptr.Interface()) }); err == nil {
				c.Fatalf("%q is decoded into the unsupported %T: %+v", payload, m, ptr.Elem().Interface())
			}
			return
		}
		bad := 0
		val := func(label string) moody {
			w := strings.ReplaceAll(strings.ReplaceAll(adcText(c.T, label), " ", "_"), "\n", "_")
			v := moody{strings.ReplaceAll(w, "\\", "/")}
			for v.refused() {
				v.text = v.text[2:]
			}
			if rapid.IntRange(0, 13).Draw(c.T, label+"-bad") == 0 {
				v.text = "no" + v.text
				bad++
			}
			return v
		}
		opt := func(label string) *moody {
			if rapid.Bool().Draw(c.T, label+"-nil") {
				return nil
			}
			v := val(label)
			v.text += "."
			return &v
		}
		m := moodyMsg{Pos: val("pos"), Text: adcText(c.T, "text"), Last: val("last"), Named: val("named"), Req: val("req"), Opt: opt("opt"), Must: opt("must"), Note: adcText(c.T, "note")}
		for n := pick(c.T, "list-n", 4); n > 0; n-- {
			m.List = append(m.List, val("list"))
		}
		for n := pick(c.T, "ptrs-n", 3); n > 0; n-- {
			v := val("ptr")
			v.text += "."
			m.Ptrs = append(m.Ptrs, &v)
		}
		want := []string{m.Pos.text, refEscape(m.Text), m.Last.text}
		if m.Named.text != "" {
			want = append(want, "NA"+m.Named.text)
		}
		want = append(want, "RE"+m.Req.text)
		if m.Opt != nil {
			want = append(want, "OP"+m.Opt.text)
		}
		if m.Must != nil {
			want = append(want, "MU"+m.Must.text)
		} else {
			want = append(want, "MU")
		}
		for _, v := range m.List {
			want = append(want, "LI"+v.text)
		}
		for _, v := range m.Ptrs {
			want = append(want, "PT"+v.text)
		}
		if m.Note != "" {
			want = append(want, "NO"+refEscape(m.Note))
		}
		payload := strings.Join(want, " ")
		c.Key("%q", clip(payload, 200))
		c.NonTrivial(bad > 0)
		c.Label("refused=%d", min(bad, 3))
		var got moodyMsg
		err := adcErr(c, "decoding", func() error { return adc.Unmarshal([]byte(payload), &got) })
		if (err != nil) != (bad > 0) {
			c.Fatalf("decoding %q, of which %d values are refused: error %v, value %s", clip(payload, 500), bad, err, adcShow(got))
		}
		if bad > 0 {
			refusedEncoding(c, m)
			refusedEncoding(c, &m)
			return
		}
		if out := adc.MustMarshal(m); string(out) != payload {
			c.Fatalf("encoded as %q, want %q", out, payload)
		}
		if m.Must == nil {
			got.Must = nil // an empty value
		}
		if !adcEqual(got, m) {
			c.Fatalf("%q is decoded to %s, want %s", clip(payload, 300), clip(adcShow(got), 400), clip(adcShow(m), 400))
		}
	})
}

// refusedEncoding checks that the message can be encoded in no way, and that a writer goes on without it.
func refusedEncoding(c *C, m adc.Message) {
	var buf bytes.Buffer
	if err := adcErr(c, "encoding", func() error { return adc.Marshal(&buf, m) }); err == nil {
		c.Fatalf("%s, which cannot be encoded, is encoded as %q", adcShow(m), clip(buf.String(), 500))
	}
	if guard(func() { buf.Write(adc.MustMarshal(m)) }) == nil {
		c.Fatalf("MustMarshal of %s, which cannot be encoded, does not panic", adcShow(m))
	}
	var sent bytes.Buffer
	w := adc.NewWriter(&sent)
	first, last := adc.ChatMessage{Text: "first"}, adc.ChatMessage{Text: "last"}
	if err := w.WriteInfo(first); err != nil {
		c.Fatalf("write: %v", err)
	}
	if err := adcErr(c, "writing", func() error { return w.WriteInfo(m) }); err == nil {
		c.Fatalf("no error for writing %s, which cannot be encoded", adcShow(m))
	}
	if err := w.WriteInfo(last); err != nil {
		c.Fatalf("write after a message that cannot be encoded: %v", err)
	}
	if err := w.Flush(); err != nil {
		c.Fatalf("flush: %v", err)
	}
	if s := sent.String(); s != "IMSG first\nIMSG last\n" {
		c.Fatalf("two messages around %s, which cannot be encoded, are sent as %q", adcShow(m), s)
	}
}

// Messages of the user with numbers of every size.
type (
	smallEnum int16

	numMsg struct {
		P16 int16     `adc:"#"`
		PE  smallEnum `adc:"#"`
		P64 int64     `adc:"#"`
		N16 int16     `adc:"NA"`
		N32 int32     `adc:"NB"`
		N64 int64     `adc:"NC,req"`
		NI  int       `adc:"ND"`
		NE  smallEnum `adc:"NE"`
		Q32 *int32    `adc:"QA"`
		S16 []int16   `adc:"SA"`
		S64 []int64   `adc:"SB"`
		P32 int32     `adc:"#"`
	}
)

func (numMsg) Cmd() adc.MsgType { return adc.MsgType{'X', 'N', 'U'} }

// numOf writes a number in one of the notations peers use.
func numOf(t *rapid.T, v *big.Int) string {
	s := v.String()
	switch pick(t, "notation", 5) {
	case 0:
		return s + ".0"
	case 1:
		digits := strings.TrimRight(s, "0")
		if z := len(s) - len(digits); z > 0 && digits != "" && digits != "-" {
			return digits + rapid.SampledFrom([]string{"e", "E", "e+"}).Draw(t, "e") + strconv.Itoa(z)
		}
	case 2:
		if v.Sign() >= 0 {
			return "00" + s
		}
	}
	return s
}

func TestA10_Numbers(t *testing.T) {
	check(t, 4000, "non-trivial if a number is next to a limit of its field or of a smaller or larger one", func(c *C) {
		// a number for each field, most of them in range
		bad := false
		num := func(name string, bits uint) (string, *big.Int) {
			lim := bits
			if pick(c.T, name+"-out", 12) == 0 {
				lim = []uint{8, 16, 32, 64}[pick(c.T, name+"-limit", 4)]
			}
			v := new(big.Int)
			switch pick(c.T, name+"-kind", 4) {
			case 0:
				v.SetInt64(int64(rapid.Int16().Draw(c.T, name)))
			default:
				v.Lsh(big.NewInt(1), lim-1)
				if rapid.Bool().Draw(c.T, name+"-neg") {
					v.Neg(v)
				}
				d := rapid.IntRange(-2, 2).Draw(c.T, name+"-d")
				v.Add(v, big.NewInt(int64(d)))
				max := new(big.Int).Lsh(big.NewInt(1), bits-1)
				if lim == bits && (v.Cmp(max) >= 0 || v.Cmp(new(big.Int).Neg(max)) < 0) && pick(c.T, name+"-keep", 4) > 0 {
					v.SetInt64(int64(d))
				}
				c.NonTrivial(true)
			}
			max := new(big.Int).Lsh(big.NewInt(1), bits-1)
			if v.Cmp(max) >= 0 || v.Cmp(new(big.Int).Neg(max)) < 0 {
				bad = true
			}
			return numOf(c.T, v), v
		}
		var want numMsg
		var parts []string
		set := func(name, tag string, bits uint) int64 {
			s, v := num(name, bits)
			parts = append(parts, tag+s)
			return v.Int64()
		}
		want.P16 = int16(set("P16", "", 16))
		want.PE = smallEnum(set("PE", "", 16))
		want.P64 = set("P64", "", 64)
		want.P32 = int32(set("P32", "", 32))
		if rapid.Bool().Draw(c.T, "named") {
			want.N16 = int16(set("N16", "NA", 16))
			want.N32 = int32(set("N32", "NB", 32))
		}
		want.N64 = set("N64", "NC", 64)
		if rapid.Bool().Draw(c.T, "more") {
			want.NI = int(set("NI", "ND", strconv.IntSize))
			want.NE = smallEnum(set("NE", "NE", 16))
			q := int32(set("Q32", "QA", 32))
			want.Q32 = &q
		}
		for n := rapid.IntRange(0, 2).Draw(c.T, "list"); n > 0; n-- {
			want.S16 = append(want.S16, int16(set("S16", "SA", 16)))
			want.S64 = append(want.S64, set("S64", "SB", 64))
		}
		payload := strings.Join(parts, " ")
		c.Key("%q", payload)
		var got numMsg
		err := adcErr(c, "numbers", func() error { return adc.Unmarshal([]byte(payload), &got) })
		if bad {
			c.Label("out of range")
			if err == nil {
				c.Fatalf("%q has a number that does not fit into its field, but it is decoded as\n%s", payload, adcShow(got))
			}
			return
		}
		if err != nil {
			c.Fatalf("%q: %v", payload, err)
		}
		if !adcEqual(got, want) {
			c.Fatalf("%q is decoded as\n%s, want\n%s", payload, adcShow(got), adcShow(want))
		}
	})
}
