package props

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/direct-connect/go-dc/keyprint"
	"github.com/direct-connect/go-dc/keyprint/tlskp"
	"pgregory.net/rapid"
)

func refKeyprint(der []byte) string {
	h := sha256.Sum256(der)
	return "SHA256/" + refB32(h[:])
}

func refKeyprints(ders [][]byte) []string {
	var out []string
	for _, d := range ders {
		out = append(out, refKeyprint(d))
	}
	return out
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- K01

var derBytes = rapid.OneOf(
	rapid.SliceOfN(rapid.Byte(), 0, 100),
	rapid.Custom(func(t *rapid.T) []byte {
		return pattern(pick(t, "len", 3000), byte(pick(t, "seed", 256)))
	}),
)

func TestK01_Bytes(t *testing.T) {
	check(t, 1500, "a chain of at least two different certificates", func(c *C) {
		var chain [][]byte
		for n := pick(c.T, "certs", 5); n > 0; n-- {
			if len(chain) > 0 && pick(c.T, "again", 4) == 0 {
				chain = append(chain, chain[pick(c.T, "which", len(chain))])
				continue
			}
			chain = append(chain, derBytes.Draw(c.T, "der"))
		}
		c.Key("%x", chain)
		c.NonTrivial(len(chain) > 1 && !bytes.Equal(chain[0], chain[1]))
		want := refKeyprints(chain)
		for i, d := range chain {
			orig := append([]byte{}, d...)
			if got := keyprint.FromBytes(d); got != want[i] {
				c.Fatalf("the keyprint of %x is %q, want %q", d, got, want[i])
			}
			if !bytes.Equal(orig, d) {
				c.Fatalf("computing the keyprint changed the certificate")
			}
		}
		// what else the certificate value holds does not matter
		cert := tls.Certificate{Certificate: chain}
		if pick(c.T, "extra", 2) == 0 {
			cert.OCSPStaple = []byte("staple")
			cert.SignedCertificateTimestamps = [][]byte{{1}}
			cert.Leaf = &x509.Certificate{Raw: []byte("leaf")}
		}
		if got := keyprint.FromCertificate(cert); !sameStrings(got, want) {
			c.Fatalf("the keyprints of a chain of %d are %q, want %q", len(chain), got, want)
		}
	})
}

// pemText draws text that may surround PEM blocks. It never contains a BEGIN line.
var pemTexts = []string{
	"", "\n", "some text\n", "Bag Attributes\n    friendlyName: x\n    localKeyID: 01 02\nKey Attributes: <No Attributes>\n",
	"subject=/CN=test\nissuer=/CN=test\n", "-----\n", "-----BEGIN\n", "----BEGIN CERTIFICATE----\n", "# -----END CERTIFICATE-----\n",
	"\r\n", "text without newline at the end of a line: -----BEGIN CERTIFICATE----- inside\n", "Certificate:\n    Data:\n        Version: 3 (0x2)\n",
	"\x00\xff binary \x80\n",
}

var pemTypes = []string{
	"CERTIFICATE", "CERTIFICATE", "CERTIFICATE", "CERTIFICATE", "PRIVATE KEY", "RSA PRIVATE KEY", "EC PARAMETERS", "CERTIFICATE REQUEST",
	"TRUSTED CERTIFICATE", "X509 CERTIFICATE", "X509 CRL", "PUBLIC KEY", "DH PARAMETERS", "certificate", "CERT", "NEW CERTIFICATE REQUEST",
}

func TestK01_File(t *testing.T) {
	check(t, 3000, "certificates and at least one other PEM block or text around them", func(c *C) {
		var file bytes.Buffer
		var certs [][]byte
		other, crlf := false, pick(c.T, "crlf", 4) == 0
		text := func() {
			if pick(c.T, "text", 2) == 0 {
				s := rapid.SampledFrom(pemTexts).Draw(c.T, "around")
				other = other || s != ""
				file.WriteString(s)
			}
		}
		text()
		var kinds []string
		for n := pick(c.T, "blocks", 6); n > 0; n-- {
			b := &pem.Block{Type: rapid.SampledFrom(pemTypes).Draw(c.T, "type"), Bytes: derBytes.Draw(c.T, "der")}
			if len(b.Bytes) == 0 {
				b.Bytes = []byte{0} // empty blocks are not portable between PEM implementations
			}
			if pick(c.T, "headers", 3) == 0 {
				if b.Headers = map[string]string{"Comment": "a note", "X-Id": "01"}; b.Type != "CERTIFICATE" {
					b.Headers = map[string]string{"Proc-Type": "4,ENCRYPTED", "DEK-Info": "AES-128-CBC,00"}
				}
			}
			if b.Type == "CERTIFICATE" {
				certs = append(certs, b.Bytes)
			} else {
				other = true
			}
			kinds = append(kinds, fmt.Sprintf("%s:%d", b.Type, len(b.Bytes)))
			data := pem.EncodeToMemory(b)
			if crlf {
				data = bytes.ReplaceAll(data, []byte("\n"), []byte("\r\n"))
			}
			file.Write(data)
			text()
		}
		// the last newline may be missing
		data := file.Bytes()
		if len(kinds) > 0 && pick(c.T, "noNewline", 4) == 0 {
			data = bytes.TrimRight(data, "\r\n")
		}
		r := drawEOFReader(c.T, data)
		c.Key("%q %v", kinds, r)
		c.Label("certs=%d", len(certs))
		c.NonTrivial(len(certs) > 0 && other)
		want := refKeyprints(certs)
		got, err := keyprint.FromFile(r)
		if len(certs) == 0 {
			if err == nil {
				c.Fatalf("a file without a certificate (blocks %q) gives %q:\n%q", kinds, got, data)
			}
		} else if err != nil || !sameStrings(got, want) {
			c.Fatalf("the keyprints of a file with the blocks %q are %q, %v, want %q\n%q", kinds, got, err, want, data)
		}
		// a failing read is not a shorter file
		cut := pick(c.T, "cut", len(data)+1)
		r = drawReader(c.T, data[:cut])
		r.err = rapid.SampledFrom([]error{errInjected, io.ErrUnexpectedEOF, io.ErrClosedPipe}).Draw(c.T, "err")
		if got, err := keyprint.FromFile(r); err == nil {
			c.Fatalf("reading fails after %d of %d bytes, but the keyprints %q are returned", cut, len(data), got)
		}
	})
}

func TestK01_URL(t *testing.T) {
	check(t, 3000, "the address has a keyprint and other parameters", func(c *C) {
		type kv struct{ k, v string }
		var q []kv
		has := false
		kp := ""
		for n := pick(c.T, "params", 4); n > 0; n-- {
			p := kv{k: rapid.SampledFrom([]string{"kp", "kp", "KP", "k", "kpx", "x", "kp2", "", "p"}).Draw(c.T, "key")}
			if pick(c.T, "kind", 2) == 0 {
				p.v = refKeyprint([]byte{byte(pick(c.T, "der", 256))})
			} else {
				p.v = adcText(c.T, "value")
			}
			q = append(q, p)
			if p.k == "kp" && !has {
				kp, has = p.v, true
			}
		}
		var b strings.Builder
		for i, p := range q {
			if i > 0 {
				b.WriteByte('&')
			}
			v := url.QueryEscape(p.v)
			if pick(c.T, "plain", 2) == 0 && strings.HasPrefix(p.v, "SHA256/") && !strings.ContainsAny(p.v[7:], "%&;#+ ") && p.v == refKeyprintLike(p.v) {
				v = p.v // clients write the slash as it is
			}
			b.WriteString(url.QueryEscape(p.k) + "=" + v)
		}
		u := &url.URL{Scheme: rapid.SampledFrom([]string{"adcs", "nmdcs", "adc"}).Draw(c.T, "scheme"), Host: "hub.example:411", RawQuery: b.String()}
		c.Key("%s", u)
		c.NonTrivial(has && len(q) > 1)
		if got := keyprint.FromURL(u); got != kp {
			c.Fatalf("the keyprint of %s is %q, want %q", u, got, kp)
		}
		u2, err := url.Parse(u.String())
		if err != nil {
			return
		}
		if got := keyprint.FromURL(u2); got != kp {
			c.Fatalf("the keyprint of %s is %q, want %q", u2, got, kp)
		}
	})
}

// refKeyprintLike keeps only text in the alphabet of keyprints.
func refKeyprintLike(s string) string {
	out := []byte("SHA256/")
	for i := 7; i < len(s); i++ {
		if strings.IndexByte(b32Alphabet, s[i]) >= 0 {
			out = append(out, s[i])
		}
	}
	return string(out)
}

// ---------------------------------------------------------------- K02

type testCert struct {
	der []byte
	key *ecdsa.PrivateKey
}

var certPool = sync.OnceValue(func() (out []testCert) {
	for i := 0; i < 5; i++ {
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			panic(err)
		}
		tpl := &x509.Certificate{
			SerialNumber: big.NewInt(int64(i + 1)),
			Subject:      pkix.Name{CommonName: fmt.Sprintf("peer %d", i)},
			NotBefore:    time.Unix(1000000000, 0),
			NotAfter:     time.Unix(4000000000, 0),
		}
		der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &key.PublicKey, key)
		if err != nil {
			panic(err)
		}
		out = append(out, testCert{der: der, key: key})
	}
	return out
})

func drawChain(t *rapid.T, label string, min int) (cert tls.Certificate, ders [][]byte) {
	pool := certPool()
	first := pick(t, label+"-leaf", len(pool))
	n := min + pick(t, label+"-len", 4)
	if n > 0 && pick(t, label+"-long", 10) == 0 {
		n += drawScale(t, label+"-more", 120)
	}
	if n == 0 {
		return
	}
	cert.PrivateKey = pool[first].key
	ders = append(ders, pool[first].der)
	for len(ders) < n {
		ders = append(ders, pool[pick(t, label+"-next", len(pool))].der)
	}
	cert.Certificate = ders
	return
}

// drawKP draws a keyprint to verify: one of the peer's, or something else.
func drawKP(t *rapid.T, ders [][]byte) string {
	pool := certPool()
	any := refKeyprint(pool[pick(t, "any", len(pool))].der)
	k := any
	if len(ders) > 0 {
		k = refKeyprint(ders[pick(t, "own", len(ders))])
	}
	switch pick(t, "kpKind", 10) {
	case 0, 1, 2:
		return k
	case 3:
		return any
	case 4:
		return ""
	case 5:
		return k[:pick(t, "cut", len(k))]
	case 6:
		return k + rapid.SampledFrom([]string{"=", " ", "A", "\n", "====", "\x00"}).Draw(t, "tail")
	case 7:
		b := []byte(k)
		i := pick(t, "pos", len(b))
		b[i] ^= byte(1 + pick(t, "xor", 3))
		return string(b)
	case 8:
		if pick(t, "case", 2) == 0 {
			return strings.ToLower(k)
		}
		return "sha256/" + k[7:]
	}
	return rapid.SampledFrom([]string{"SHA256/", k[7:], "SHA1/" + k[7:], "/" + k[7:], " " + k}).Draw(t, "form")
}

// memConn is one end of a connection within the process that buffers what is written.
type memConn struct {
	in, out *memBuf
}

type memBuf struct {
	mu     sync.Mutex
	cond   *sync.Cond
	data   []byte
	closed bool
}

func newMemBuf() *memBuf {
	b := &memBuf{}
	b.cond = sync.NewCond(&b.mu)
	return b
}

func memPipe() (a, b *memConn) {
	x, y := newMemBuf(), newMemBuf()
	return &memConn{in: x, out: y}, &memConn{in: y, out: x}
}

func (c *memConn) Read(p []byte) (int, error) {
	b := c.in
	b.mu.Lock()
	defer b.mu.Unlock()
	for len(b.data) == 0 && !b.closed && len(p) > 0 {
		b.cond.Wait()
	}
	if len(b.data) == 0 && b.closed {
		return 0, io.EOF
	}
	n := copy(p, b.data)
	b.data = b.data[n:]
	return n, nil
}

func (c *memConn) Write(p []byte) (int, error) {
	b := c.out
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.closed {
		return 0, io.ErrClosedPipe
	}
	b.data = append(b.data, p...)
	b.cond.Broadcast()
	return len(p), nil
}

func (c *memConn) Close() error {
	for _, b := range []*memBuf{c.in, c.out} {
		b.mu.Lock()
		b.closed = true
		b.cond.Broadcast()
		b.mu.Unlock()
	}
	return nil
}

func (c *memConn) LocalAddr() net.Addr              { return &net.UnixAddr{Name: "local", Net: "unix"} }
func (c *memConn) RemoteAddr() net.Addr             { return &net.UnixAddr{Name: "remote", Net: "unix"} }
func (c *memConn) SetDeadline(time.Time) error      { return nil }
func (c *memConn) SetReadDeadline(time.Time) error  { return nil }
func (c *memConn) SetWriteDeadline(time.Time) error { return nil }

// tlsPair makes an established TLS connection within the process.
func tlsPair(c *C, client, server *tls.Config) (cc, sc *tls.Conn, done func()) {
	a, b := memPipe()
	cc, sc = tls.Client(a, client), tls.Server(b, server)
	var wg sync.WaitGroup
	var cerr, serr error
	wg.Add(2)
	go func() {
		defer wg.Done()
		if serr = sc.Handshake(); serr == nil {
			// a message after the handshake makes sure that the client is through as well
			_, serr = sc.Write([]byte{1})
		}
		if serr != nil {
			_ = b.Close()
		}
	}()
	go func() {
		defer wg.Done()
		if cerr = cc.Handshake(); cerr == nil {
			_, cerr = io.ReadFull(cc, make([]byte, 1))
		}
		if cerr != nil {
			_ = a.Close()
		}
	}()
	wg.Wait()
	done = func() {
		_ = a.Close()
		_ = b.Close()
	}
	if cerr != nil || serr != nil {
		done()
		c.Logf("harness: TLS handshake failed: %v, %v", cerr, serr)
		c.SkipNow()
	}
	return cc, sc, done
}

func checkPeer(c *C, who string, conn *tls.Conn, ders [][]byte) {
	want := refKeyprints(ders)
	if got := tlskp.GetKeyPrints(conn); !sameStrings(got, want) {
		c.Fatalf("%s: the peer's keyprints are %q, want %q", who, got, want)
	}
	for n := 1 + pick(c.T, "verify", 3); n > 0; n-- {
		kp := drawKP(c.T, ders)
		in := false
		for _, k := range want {
			in = in || k == kp
		}
		c.Key(" %s:%q/%d", who, kp, len(ders))
		c.Label("match=%v", in)
		got, err := tlskp.VerifyKeyPrint(conn, kp)
		if !sameStrings(got, want) {
			c.Fatalf("%s: verification of %q returns the keyprints %q, want %q", who, kp, got, want)
		}
		if in {
			if err != nil {
				c.Fatalf("%s: the keyprint %q of one of the peer's %d certificates is refused: %v", who, kp, len(ders), err)
			}
			continue
		}
		if err == nil {
			c.Fatalf("%s: %q is accepted, but the peer's keyprints are %q", who, kp, want)
		}
		var kerr *tlskp.ErrInvalidKeyPrint
		if !errors.As(err, &kerr) {
			c.Fatalf("%s: verification of %q fails with %T %v", who, kp, err, err)
		}
		if kerr.Expected != kp || !sameStrings(kerr.Actual, want) {
			c.Fatalf("%s: verification of %q reports expected %q and actual %q, want %q", who, kp, kerr.Expected, kerr.Actual, want)
		}
		if err.Error() == "" {
			c.Fatalf("%s: empty error text", who)
		}
	}
}

func TestK02_Verify(t *testing.T) {
	check(t, 150, "a peer with more than one certificate", func(c *C) {
		scert, sders := drawChain(c.T, "server", 1)
		ccert, cders := drawChain(c.T, "client", 0)
		sc := &tls.Config{Certificates: []tls.Certificate{scert}, ClientAuth: tls.RequestClientCert, SessionTicketsDisabled: true}
		cc := &tls.Config{InsecureSkipVerify: true}
		if pick(c.T, "tls12", 2) == 0 {
			cc.MaxVersion = tls.VersionTLS12
		}
		if len(cders) > 0 {
			cc.Certificates = []tls.Certificate{ccert}
		}
		c.NonTrivial(len(sders) > 1 || len(cders) > 1)
		client, server, done := tlsPair(c, cc, sc)
		defer done()
		checkPeer(c, "client", client, sders)
		checkPeer(c, "server", server, cders)
		if !reflect.DeepEqual(keyprint.FromCertificate(scert), tlskp.GetKeyPrints(client)) {
			c.Fatalf("the keyprints of the server's certificate differ from those the client sees")
		}
	})
}

type testCA struct {
	der    []byte
	root   *x509.Certificate
	roots  *x509.CertPool
	leaves []testCert
}

var trusted = sync.OnceValue(func() (ca testCA) {
	mk := func(tpl, parent *x509.Certificate, pkey *ecdsa.PrivateKey) testCert {
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			panic(err)
		}
		if parent == nil {
			parent, pkey = tpl, key
		}
		der, err := x509.CreateCertificate(rand.Reader, tpl, parent, &key.PublicKey, pkey)
		if err != nil {
			panic(err)
		}
		return testCert{der: der, key: key}
	}
	tpl := func(i int, isCA bool) *x509.Certificate {
		t := &x509.Certificate{
			SerialNumber:          big.NewInt(int64(100 + i)),
			Subject:               pkix.Name{CommonName: fmt.Sprintf("trusted %d", i)},
			NotBefore:             time.Unix(1000000000, 0),
			NotAfter:              time.Unix(4000000000, 0),
			IsCA:                  isCA,
			BasicConstraintsValid: true,
		}
		if isCA {
			t.KeyUsage = x509.KeyUsageCertSign
		} else {
			t.DNSNames = []string{"hub.test"}
			t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}
		}
		return t
	}
	root := mk(tpl(0, true), nil, nil)
	var err error
	if ca.root, err = x509.ParseCertificate(root.der); err != nil {
		panic(err)
	}
	ca.der = root.der
	ca.roots = x509.NewCertPool()
	ca.roots.AddCert(ca.root)
	for i := 1; i < 4; i++ {
		ca.leaves = append(ca.leaves, mk(tpl(i, false), ca.root, root.key))
	}
	return ca
})

// drawTrusted draws the chain of a peer with a certificate signed by the trusted authority.
func drawTrusted(t *rapid.T, label string) (cert tls.Certificate, ders [][]byte) {
	ca := trusted()
	leaf := ca.leaves[pick(t, label+"-leaf", len(ca.leaves))]
	ders = append(ders, leaf.der)
	for n := pick(t, label+"-len", 4); n > 0; n-- {
		switch pick(t, label+"-next", 3) {
		case 0:
			ders = append(ders, ca.der)
		case 1:
			ders = append(ders, ca.leaves[pick(t, label+"-other", len(ca.leaves))].der)
		default:
			pool := certPool()
			ders = append(ders, pool[pick(t, label+"-pool", len(pool))].der)
		}
	}
	return tls.Certificate{Certificate: ders, PrivateKey: leaf.key}, ders
}

// TestK02_Trusted: what counts is what the peer has sent, and not the chains that the local side
// has verified; a resumed session belongs to the same peer.
func TestK02_Trusted(t *testing.T) {
	check(t, 150, "certificates signed by an authority that the other side verifies, sent with or without the authority's own; sessions are resumed; non-trivial: the chain sent differs from the one verified", func(c *C) {
		ca := trusted()
		scert, sders := drawTrusted(c.T, "server")
		sc := &tls.Config{Certificates: []tls.Certificate{scert}}
		cc := &tls.Config{RootCAs: ca.roots, ServerName: "hub.test"}
		if pick(c.T, "tls12", 2) == 0 {
			cc.MaxVersion = tls.VersionTLS12
		}
		var cders [][]byte
		if pick(c.T, "mutual", 2) == 0 {
			ccert, ders := drawTrusted(c.T, "client")
			cders = ders
			sc.ClientAuth, sc.ClientCAs = tls.RequireAndVerifyClientCert, ca.roots
			cc.Certificates = []tls.Certificate{ccert}
		}
		n := 1
		if pick(c.T, "resume", 2) == 0 {
			cc.ClientSessionCache = tls.NewLRUClientSessionCache(4)
			n = 2
		}
		c.NonTrivial(len(sders) != 2 || !bytes.Equal(sders[1], ca.der))
		for i := 0; i < n; i++ {
			client, server, done := tlsPair(c, cc, sc)
			if client.ConnectionState().DidResume {
				c.Label("resumed")
			}
			if len(client.ConnectionState().VerifiedChains) > 0 {
				c.Label("verified")
			}
			checkPeer(c, "client", client, sders)
			checkPeer(c, "server", server, cders)
			// the root is accepted only if it was sent
			_, err := tlskp.VerifyKeyPrint(client, refKeyprint(ca.der))
			sent := false
			for _, d := range sders {
				sent = sent || bytes.Equal(d, ca.der)
			}
			if (err == nil) != sent {
				c.Fatalf("the keyprint of the authority, which was sent: %v, is verified with %v", sent, err)
			}
			done()
		}
	})
}
