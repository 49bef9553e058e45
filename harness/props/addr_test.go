package props

import (
	"net/url"
	"strings"
	"testing"

	dc "github.com/direct-connect/go-dc"
	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/keyprint"
	"github.com/direct-connect/go-dc/nmdc"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- U01

type addrParts struct {
	scheme  string // as written, without "://"; empty means that it is missing
	user    string
	host    string // as it appears in the address
	port    string
	path    []string
	slashes int
	query   string
	frag    string
}

func (a addrParts) adc() bool { s := strings.ToLower(a.scheme); return s == "adc" || s == "adcs" }

func (a addrParts) known() bool {
	switch strings.ToLower(a.scheme) {
	case "", "adc", "adcs", "nmdc", "dchub", "nmdcs":
		return true
	}
	return false
}

func (a addrParts) String() string {
	var b strings.Builder
	if a.scheme != "" {
		b.WriteString(a.scheme + "://")
	}
	b.WriteString(a.rest(a.slashes))
	return b.String()
}

func (a addrParts) rest(slashes int) string {
	var b strings.Builder
	if a.user != "" {
		b.WriteString(a.user + "@")
	}
	b.WriteString(a.host)
	if a.port != "" {
		b.WriteString(":" + a.port)
	}
	for _, p := range a.path {
		b.WriteString("/" + p)
	}
	b.WriteString(strings.Repeat("/", slashes))
	if a.query != "" {
		b.WriteString("?" + a.query)
	}
	if a.frag != "" {
		b.WriteString("#" + a.frag)
	}
	return b.String()
}

// normal is the normalised form.
func (a addrParts) normal() string {
	s := strings.ToLower(a.scheme)
	if s == "" || s == "nmdc" {
		s = "dchub"
	}
	return s + "://" + a.rest(0)
}

func mixCase(t *rapid.T, s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' && rapid.Bool().Draw(t, "upper") {
			b[i] = c - 'a' + 'A'
		}
	}
	return string(b)
}

var addrSchemes = []string{"adc", "adcs", "dchub", "nmdc", "nmdcs", ""}

var otherSchemes = []string{
	"http", "https", "adcx", "xadc", "adcss", "ad", "dchubs", "nmdcss", "nmd", "hub", "ftp", "adc+tls", "adc.", "dc", "file", "tcp", "dchub-adc", "nmdc.adc",
	"a-adc", "magnet", "adc0",
}

var addrHosts = []string{
	"localhost", "hub.example.org", "127.0.0.1", "[::1]", "[::]", "[2001:db8::1]", "[fe80::1%25eth0]", "a", "h-1.example", "xn--e1afmkfd.example",
	// hosts that look like something else
	"adc", "adcs", "nmdc", "dchub", "adc.example", "adcs.hub", "nmdc.example.org", "adc-hub", "0", "411", "1.2.3.4",
}

var addrPaths = []string{"a", "b", "hub", "adc:", "x.y", "~u", "%20", "%3Fq", "a=b", "adc", "nmdc", "%D0%B0", "a%2Fb", "1", "..", "."}

func drawAddr(t *rapid.T) addrParts {
	var a addrParts
	a.scheme = mixCase(t, rapid.SampledFrom(addrSchemes).Draw(t, "scheme"))
	if pick(t, "otherScheme", 8) == 0 {
		a.scheme = mixCase(t, rapid.SampledFrom(otherSchemes).Draw(t, "other"))
	}
	if pick(t, "hasHost", 10) != 0 {
		a.host = addrHosts[pick(t, "host", len(addrHosts))]
	}
	if pick(t, "hasPort", 3) != 0 {
		a.port = []string{"411", "1", "65535", "0", "2780", "5000", "80", "443", "0411"}[pick(t, "port", 9)]
	}
	if a.host != "" && pick(t, "hasUser", 8) == 0 {
		a.user = rapid.SampledFrom([]string{"user", "user:pass", "u%40x:p"}).Draw(t, "user")
	}
	if pick(t, "hasPath", 3) == 0 {
		for n := 1 + pick(t, "segments", 3); n > 0; n-- {
			p := addrPaths[pick(t, "segment", len(addrPaths))]
			if pick(t, "wordSegment", 3) == 0 {
				p = rapid.StringOfN(rapid.RuneFrom([]rune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~")), 1, 6, -1).Draw(t, "word")
			}
			if a.host != "" && n > 1 && pick(t, "emptySegment", 6) == 0 {
				p = "" // but the last one never is: trailing slashes are drawn below
			}
			if a.scheme == "" {
				// without a scheme a later "://" makes an address ambiguous
				p = strings.TrimRight(p, ":")
			}
			a.path = append(a.path, p)
		}
	}
	if pick(t, "hasSlashes", 2) == 0 {
		a.slashes = 1 + pick(t, "slashes", 3)
	}
	if pick(t, "hasQuery", 3) == 0 {
		var ps []string
		for n := 1 + pick(t, "params", 3); n > 0; n-- {
			k := rapid.SampledFrom([]string{"kp", "a", "b", "x", "KP"}).Draw(t, "key")
			v := rapid.SampledFrom([]string{"", "1", "SHA256/" + strings.Repeat("A2", 26), "x/", "/", "adc", "%26", "a+b", "adc:", "c:/d"}).Draw(t, "value")
			ps = append(ps, k+"="+v)
		}
		a.query = strings.Join(ps, "&")
		if a.scheme != "" && pick(t, "nested", 4) == 0 {
			a.query += "&u=" + rapid.SampledFrom([]string{"adc://x:1", "dchub://y/", "http://z"}).Draw(t, "inner")
		}
	}
	if pick(t, "hasFrag", 8) == 0 {
		a.frag = rapid.SampledFrom([]string{"f", "top/", "adc"}).Draw(t, "frag")
	}
	return a
}

// addrOf describes the hub an address leads to.
func addrOf(u *url.URL) string {
	kp := ""
	if u.RawQuery != "" {
		kp = keyprint.FromURL(u)
	}
	return strings.Join([]string{u.Scheme, u.User.String(), u.Host, u.Hostname(), u.Port(), u.Path, u.RawQuery, u.Fragment, kp}, "\x00")
}

func sameURL(a *url.URL, aerr error, b *url.URL, berr error) bool {
	if (aerr == nil) != (berr == nil) {
		return false
	}
	return aerr != nil || addrOf(a) == addrOf(b)
}

func TestU01_Addresses(t *testing.T) {
	check(t, 6000, "a supported scheme and a host, and something for normalisation to do or to keep (letter case, missing scheme, slashes, path, parameters)", func(c *C) {
		a := drawAddr(c.T)
		addr := a.String()
		c.Key("%s", addr)
		c.Label("adc=%v known=%v host=%v", a.adc(), a.known(), a.host != "")
		c.NonTrivial(a.known() && a.host != "" && addr != a.scheme+"://"+a.host+":"+a.port)

		u, err := dc.ParseAddr(addr)
		norm, nerr := dc.NormalizeAddr(addr)
		if !a.known() {
			if err == nil || nerr == nil {
				c.Fatalf("the scheme of %q is not supported, but parsing gives %v, %v and normalising %q, %v", addr, u, err, norm, nerr)
			}
			return
		}
		// the address is handled by the protocol its scheme belongs to, and only by it
		au, aerr := adc.ParseAddr(addr)
		nu, nmerr := nmdc.ParseAddr(addr)
		an, anerr := adc.NormalizeAddr(addr)
		nn, nnerr := nmdc.NormalizeAddr(addr)
		if a.adc() {
			if nmerr == nil || nnerr == nil {
				c.Fatalf("nmdc accepts the address %q as %v, %q", addr, nu, nn)
			}
			if !sameURL(u, err, au, aerr) || norm != an || (nerr == nil) != (anerr == nil) {
				c.Fatalf("%q: got %v, %v and %q, %v; the adc package gives %v, %v and %q, %v", addr, u, err, norm, nerr, au, aerr, an, anerr)
			}
		} else {
			if a.scheme != "" && aerr == nil || anerr == nil {
				c.Fatalf("adc accepts the address %q as %v, %q", addr, au, an)
			}
			if !sameURL(u, err, nu, nmerr) || norm != nn || (nerr == nil) != (nnerr == nil) {
				c.Fatalf("%q: got %v, %v and %q, %v; the nmdc package gives %v, %v and %q, %v", addr, u, err, norm, nerr, nu, nmerr, nn, nnerr)
			}
		}
		want := a.normal()
		if err != nil {
			c.Fatalf("parsing %q fails: %v", addr, err)
		}
		ref, referr := url.Parse(want)
		if referr != nil {
			c.Fatalf("harness: %q: %v", want, referr)
		}
		if addrOf(u) != addrOf(ref) {
			c.Fatalf("parsing %q gives %q, want %q", addr, addrOf(u), addrOf(ref))
		}
		if a.host == "" || a.adc() && a.port == "" {
			if nerr == nil {
				c.Fatalf("normalising %q (no host, or no port for ADC) gives %q", addr, norm)
			}
			return
		}
		if nerr != nil {
			c.Fatalf("normalising %q fails: %v", addr, nerr)
		}
		if strings.Contains(want, "%2F/") || strings.Contains(want, "%2F") && a.slashes > 0 {
			// an escaped slash is equivalent, but may be written in another way
			c.Label("escaped slash")
		} else if norm != want {
			c.Fatalf("%q is normalised to %q, want %q", addr, norm, want)
		}
		again, err := dc.NormalizeAddr(norm)
		if err != nil || again != norm {
			c.Fatalf("%q is normalised to %q, and that to %q, %v", addr, norm, again, err)
		}
		u2, err := dc.ParseAddr(norm)
		if err != nil || addrOf(u2) != addrOf(u) {
			c.Fatalf("%q leads to %q, but its normal form %q to %v, %v", addr, addrOf(u), norm, u2, err)
		}
	})
}

var addrTokens = []string{
	"adc", "adcs", "nmdc", "nmdcs", "dchub", "://", ":", "/", "//", "?", "#", "@", "[", "]", "::1", "host", "411", "%", "%2F", "%25", "kp=", "&", " ", ".", "ADC",
	"\x00", "\x7f", "é", "\xff", "=", "a", "0", "..", "+", ";", "\\",
}

func TestU01_Junk(t *testing.T) {
	check(t, 8000, "the text is accepted by the normalisation", func(c *C) {
		var addr string
		if pick(c.T, "kind", 2) == 0 {
			addr = strings.Join(rapid.SliceOfN(rapid.SampledFrom(addrTokens), 0, 10).Draw(c.T, "tokens"), "")
			if pick(c.T, "prefix", 2) == 0 {
				addr = rapid.SampledFrom([]string{"adc://", "adcs://", "dchub://", "nmdc://", "NMDCS://"}).Draw(c.T, "scheme") + addr
			}
		} else {
			addr = string(mutate(c.T, []byte(drawAddr(c.T).String()), addrTokens))
		}
		c.Key("%s", addr)
		c.NonTrivial(junkAddr(c.Fatalf, addr))
	})
}

// junkAddr checks what holds for any text given as an address. It returns true if it has a normal form.
func junkAddr(fail func(string, ...interface{}), addr string) bool {
	var u, pu *url.URL
	var norm, pn string
	var err, nerr, perr, pnerr error
	isADC := false
	if perr := guard(func() {
		u, err = dc.ParseAddr(addr)
		norm, nerr = dc.NormalizeAddr(addr)
	}); perr != nil {
		fail("%q: %v", addr, perr)
	}
	if i := strings.Index(addr, "://"); i >= 0 {
		s := strings.ToLower(addr[:i])
		isADC = s == "adc" || s == "adcs"
	}
	if isADC {
		pu, perr = adc.ParseAddr(addr)
		pn, pnerr = adc.NormalizeAddr(addr)
	} else {
		pu, perr = nmdc.ParseAddr(addr)
		pn, pnerr = nmdc.NormalizeAddr(addr)
	}
	if !sameURL(u, err, pu, perr) || norm != pn || (nerr == nil) != (pnerr == nil) {
		fail("%q (ADC: %v): got %v, %v and %q, %v; the protocol's package gives %v, %v and %q, %v", addr, isADC, u, err, norm, nerr, pu, perr, pn, pnerr)
	}
	if err != nil {
		if nerr == nil {
			fail("%q cannot be parsed (%v), but is normalised to %q", addr, err, norm)
		}
		return false
	}
	switch u.Scheme {
	case "adc", "adcs":
		if !isADC {
			fail("%q is parsed as %v", addr, u)
		}
	case "dchub", "nmdcs":
		if isADC {
			fail("%q is parsed as %v", addr, u)
		}
	default:
		fail("%q is accepted with the scheme %q", addr, u.Scheme)
	}
	if strings.HasSuffix(u.Path, "/") {
		fail("%q is parsed as %v with the path %q", addr, u, u.Path)
	}
	if nerr != nil {
		return false
	}
	if u.Hostname() == "" {
		fail("%q has no host, but is normalised to %q", addr, norm)
	}
	if strings.Contains(u.Host, "%") {
		return true // net/url cannot write every zone of an IPv6 address back
	}
	again, err := dc.NormalizeAddr(norm)
	if err != nil || again != norm {
		fail("%q is normalised to %q, and that to %q, %v", addr, norm, again, err)
	}
	u2, err := dc.ParseAddr(norm)
	if err != nil || addrOf(u2) != addrOf(u) {
		fail("%q leads to %q, but its normal form %q to %v, %v", addr, addrOf(u), norm, u2, err)
	}
	return true
}
