package c31

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"aaverif/deploy"
	"aaverif/e2e"
	"aaverif/hx"

	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/utils"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	e2e.HelperMain()
	hx.Main(m, hx.Meta{ID: "C31",
		Rule:        "handshakes of the client credentials with TLS servers that hold a certificate of the deployment and its key, and with impostors that imitate one (self-signed copies, an authority of the same name, the genuine certificate with another key, the genuine certificate with the key exchanged or with changed bits, genuine certificates as issuers, other key types) or do not use TLS; the client program and the client library with stand-in servers of which some are such impostors; client programs whose connections to real servers are relayed, recorded, changed and cut; non-trivial when there is an impostor or a change",
		Assumptions: []string{"the loopback network is available", "the built-in certificates are valid", "Go's TLS library is correct"}})
}

func TestProps(t *testing.T) {
	hx.NoHang()
	e2e.CheckCertificates()
	hx.Run(t, "handshake", 1500, 60000, handshake)
	hx.Each(t, "programs", hx.N(6, 60), programs)
	hx.Each(t, "relay", hx.N(8, 100), relay)
	hx.Each(t, "server", hx.N(4, 40), serverSide)
}

// identity is what a server shows.
type identity struct {
	kind    string
	genuine bool
	cfg     *tls.Config // nil: no TLS
}

var (
	rsaOnce sync.Once
	rsaKey  *rsa.PrivateKey
)

func newKey(s *hx.Stream) crypto.Signer {
	switch s.Intn(8) {
	case 0:
		rsaOnce.Do(func() {
			var err error
			if rsaKey, err = rsa.GenerateKey(hx.NewStream(5), 2048); err != nil {
				hx.Broken("%v", err)
			}
		})
		return rsaKey
	case 1:
		_, k, err := ed25519.GenerateKey(s)
		if err != nil {
			hx.Broken("%v", err)
		}
		return k
	default:
		return p256(s)
	}
}

func p256(s *hx.Stream) *ecdsa.PrivateKey {
	k, err := ecdsa.GenerateKey(elliptic.P256(), s)
	if err != nil {
		hx.Broken("%v", err)
	}
	return k
}

func sign(tmpl, parent *x509.Certificate, pub crypto.PublicKey, key crypto.Signer, s *hx.Stream) []byte {
	der, err := x509.CreateCertificate(s, tmpl, parent, pub, key)
	if err != nil {
		hx.Broken("making a certificate: %v", err)
	}
	return der
}

var kinds = []string{"copy", "copy", "own", "authority", "authority-sent", "other-key", "exchanged", "exchanged", "flipped", "issued", "issued", "appended", "expired", "plain"}

// identityOf makes an identity for server i of the deployment.
func identityOf(s *hx.Stream, i int, kind string) identity {
	g := utils.ServerCertificates[i]
	gx, err := x509.ParseCertificate(g.Certificate[0])
	if err != nil {
		hx.Broken("%v", err)
	}
	id := identity{kind: kind, cfg: &tls.Config{}}
	id.cfg.MinVersion = []uint16{0, tls.VersionTLS12, tls.VersionTLS13}[s.Intn(3)]
	if s.Intn(4) == 0 {
		id.cfg.MinVersion, id.cfg.MaxVersion = tls.VersionTLS12, tls.VersionTLS12
	}
	set := func(key crypto.PrivateKey, ders ...[]byte) {
		id.cfg.Certificates = []tls.Certificate{{Certificate: ders, PrivateKey: key}}
	}
	// a certificate as similar to the genuine one as can be
	copyOf := func() *x509.Certificate {
		return &x509.Certificate{SerialNumber: gx.SerialNumber, Subject: gx.Subject, Issuer: gx.Issuer, RawSubject: gx.RawSubject,
			NotBefore: gx.NotBefore, NotAfter: gx.NotAfter, KeyUsage: gx.KeyUsage, ExtKeyUsage: gx.ExtKeyUsage,
			DNSNames: append([]string{"127.0.0.1"}, gx.DNSNames...), IPAddresses: gx.IPAddresses, AuthorityKeyId: gx.AuthorityKeyId, SubjectKeyId: gx.SubjectKeyId}
	}
	key := newKey(s)
	switch kind {
	case "genuine":
		id.genuine = true
		set(g.PrivateKey, g.Certificate[0])
		if s.Intn(4) == 0 { // others after it do not matter
			k2 := p256(s)
			c := copyOf()
			id.cfg.Certificates[0].Certificate = append(id.cfg.Certificates[0].Certificate, sign(c, c, k2.Public(), k2, s))
		}
	case "copy":
		c := copyOf()
		set(key, sign(c, c, key.Public(), key, s))
	case "own":
		c := &x509.Certificate{SerialNumber: big.NewInt(int64(s.Intn(1000) + 1)), Subject: pkix.Name{CommonName: "127.0.0.1"},
			NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour),
			IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}, DNSNames: []string{"localhost"}}
		set(key, sign(c, c, key.Public(), key, s))
	case "expired":
		c := copyOf()
		c.NotAfter = time.Now().Add(-time.Hour)
		set(key, sign(c, c, key.Public(), key, s))
	case "authority", "authority-sent":
		ck := newKey(s)
		ca := &x509.Certificate{SerialNumber: big.NewInt(7), Subject: gx.Issuer, RawSubject: gx.RawIssuer, NotBefore: gx.NotBefore.Add(-time.Hour), NotAfter: gx.NotAfter,
			IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign, SubjectKeyId: gx.AuthorityKeyId}
		cader := sign(ca, ca, ck.Public(), ck, s)
		cax, err := x509.ParseCertificate(cader)
		if err != nil {
			hx.Broken("%v", err)
		}
		ders := [][]byte{sign(copyOf(), cax, key.Public(), ck, s)}
		if kind == "authority-sent" {
			ders = append(ders, cader)
		}
		set(key, ders...)
	case "other-key":
		set(p256(s), g.Certificate[0])
	case "exchanged":
		k := p256(s)
		old, err := x509.MarshalPKIXPublicKey(gx.PublicKey)
		if err != nil {
			hx.Broken("%v", err)
		}
		new, err := x509.MarshalPKIXPublicKey(k.Public())
		if err != nil {
			hx.Broken("%v", err)
		}
		der := bytes.Replace(g.Certificate[0], old, new, 1)
		if bytes.Equal(der, g.Certificate[0]) {
			hx.Broken("the certificate does not contain its key")
		}
		set(k, der)
	case "flipped":
		// the key stays as it is: only its holder could use this, with a certificate
		// that nobody has issued. Anything outside the signed part may be refused too.
		der := append([]byte{}, g.Certificate[0]...)
		for {
			at := s.Intn(len(der))
			der[at] ^= byte(1 << s.Intn(8))
			if x, err := x509.ParseCertificate(der); err == nil {
				// there is no key when the change makes its kind an unknown one
				if k, ok := x.PublicKey.(interface{ Equal(crypto.PublicKey) bool }); ok && k.Equal(gx.PublicKey) {
					break
				}
			}
			der[at] = g.Certificate[0][at]
		}
		set(g.PrivateKey, der)
	case "issued": // by an impostor in the name of the genuine one
		c := copyOf()
		ca := &x509.Certificate{Subject: gx.Subject, RawSubject: gx.RawSubject, SubjectKeyId: gx.SubjectKeyId, PublicKey: key.Public()}
		set(key, sign(c, ca, key.Public(), key, s), g.Certificate[0])
	case "appended":
		c := copyOf()
		ders := [][]byte{sign(c, c, key.Public(), key, s)}
		for _, x := range utils.ServerCertificates {
			ders = append(ders, x.Certificate[0])
		}
		set(key, ders...)
	case "plain":
		id.cfg = nil
	}
	if id.cfg != nil {
		id.cfg.NextProtos = []string{"h2"}
		id.cfg.Time = nil
	}
	return id
}

var (
	pairOnce sync.Once
	pairL    net.Listener
)

// pair is both ends of a connection.
func pair() (a, b net.Conn) {
	pairOnce.Do(func() {
		var err error
		if pairL, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
			hx.Broken("%v", err)
		}
	})
	a, err := net.Dial("tcp", pairL.Addr().String())
	if err == nil {
		b, err = pairL.Accept()
	}
	if err != nil {
		hx.Broken("%v", err)
	}
	return a, b
}

func handshake(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	i := rapid.IntRange(0, e2e.MaxServers-1).Draw(t, "server")
	kind := "genuine"
	if rapid.IntRange(0, 3).Draw(t, "impostor") > 0 {
		kind = rapid.SampledFrom(kinds).Draw(t, "kind")
	}
	id := identityOf(s, i, kind)
	c.Case("a server that shows %s of server %d", kind, i)
	c.Class(kind)
	c.NonTrivialIf(!id.genuine)
	creds, err := utils.LoadServersCertificates()
	if err != nil {
		t.Fatalf("the credentials of the clients: %v", err)
	}
	authority := []string{"127.0.0.1", "localhost", "example.org", "127.0.0.1:50050"}[s.Intn(4)]
	a, b := pair()
	defer a.Close()
	defer b.Close()
	deadline := time.Now().Add(60 * time.Second)
	a.SetDeadline(deadline)
	b.SetDeadline(deadline)
	secret := s.Bytes(1 + s.Intn(100))
	got := make(chan []byte, 1)
	go func() {
		defer b.Close()
		var r net.Conn = b
		if id.cfg != nil {
			tc := tls.Server(b, id.cfg)
			if tc.Handshake() != nil {
				got <- nil
				return
			}
			r = tc
		} else {
			// answers as a server without TLS would
			r.Read(make([]byte, 4096))
			r.Write([]byte{0, 0, 0, 4, 0, 0, 0, 0, 0})
		}
		buf, _ := io.ReadAll(r)
		got <- buf
	}()
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	conn, _, err := creds.ClientHandshake(ctx, authority, a)
	if err == nil {
		conn.Write(secret)
		conn.Close()
	}
	a.Close()
	buf := <-got
	if id.genuine {
		if err != nil {
			t.Fatalf("server %d of the deployment is refused: %v", i, err)
		}
		if !bytes.Equal(buf, secret) {
			t.Fatalf("server %d received %x instead of %x", i, buf, secret)
		}
		return
	}
	if err == nil {
		t.Fatalf("a server that shows %s of server %d is accepted", kind, i)
	}
	if bytes.Contains(buf, secret) && len(secret) > 8 {
		t.Fatalf("a server that shows %s of server %d receives what the client sends", kind, i)
	}
}

// attempt is a deployment with impostors, and how a client uses it.
type attempt struct {
	desc string
	run  func() error
}

// programs runs several attempts at a time, as a client that cannot connect waits.
func programs(i int, c *hx.C) error {
	s := hx.NewStream(hx.Seed()*7000003 + uint64(i))
	bin := e2e.Build("cmd/grpc/client")
	var as []attempt
	for k := 0; k < 12; k++ {
		a, err := newAttempt(s, bin, kinds[(12*i+k)%len(kinds)], k)
		if err != nil {
			return err
		}
		as = append(as, a)
	}
	errs := make([]error, len(as))
	var wg sync.WaitGroup
	for k := range as {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[k] = as[k].run()
		}()
	}
	wg.Wait()
	for k, a := range as {
		if k == 0 {
			c.Case("%s", a.desc)
		} else {
			c.More("| %s", a.desc)
		}
		if errs[k] != nil {
			return fmt.Errorf("%s: %v", a.desc, errs[k])
		}
	}
	c.NonTrivial()
	return nil
}

func newAttempt(s *hx.Stream, bin, kind string, k int) (attempt, error) {
	scheme := []string{"pointPIR", "pointVPIR", "complexPIR", "complexVPIR"}[s.Intn(4)]
	point := strings.HasPrefix(scheme, "point")
	n := 2
	if point {
		n = 2 + s.Intn(e2e.MaxServers-1)
	}
	impostors := map[int]bool{s.Intn(n): true}
	for j := 0; j < n; j++ {
		if s.Intn(5) == 0 {
			impostors[j] = true
		}
	}
	honest := k%6 == 5 // to see that the client does ask
	var fs []*e2e.Fake
	var addrs []string
	info := &proto.DatabaseInfoResponse{NumRows: 2, NumColumns: 3, BlockLength: 40, PirType: []string{"", "merkle"}[s.Intn(2)], Root: s.Bytes(32), ProofLen: 20}
	if !point {
		info.BlockLength = 0
	}
	for j := 0; j < n; j++ {
		id := identityOf(s, j, "genuine")
		if impostors[j] && !honest {
			id = identityOf(s, j, kind)
		}
		host := "127.0.0.1"
		l, err := net.Listen("tcp", host+":0")
		if err != nil {
			hx.Broken("%v", err)
		}
		f := e2e.NewFake(l, id.cfg)
		f.Reset(info, 0, 0, func([]byte) ([]byte, error) { return make([]byte, 48), nil })
		fs = append(fs, f)
		addrs = append(addrs, f.Addr)
	}
	conf := filepath.Join(hx.WorkDir(), fmt.Sprintf("conf%x.toml", s.U64()))
	perm := make([]int, n)
	for j := range perm {
		perm[j] = j
	}
	e2e.WriteConfig(conf, addrs, perm)
	program := s.Intn(2) == 0
	args := []string{"-scheme", scheme, "-id", "somebody@example.org"}
	if !point {
		args = append(args, "-target", "email")
	}
	seed := s.U64()
	at := attempt{desc: fmt.Sprintf("%s with %d servers, %v show %s, honest=%v, program=%v", scheme, n, keys(impostors), kind, honest, program)}
	at.run = func() error {
		defer os.Remove(conf)
		defer e2e.StopFakes(fs)
		var failed, hung bool
		var out string
		if program {
			run := e2e.Once
			if honest {
				run = e2e.RunIn
			}
			r := run(bin, conf, "", args...)
			failed, hung, out = r.Exit != 0, r.Hung, r.Out
			if r.Armored() != "" {
				return fmt.Errorf("the client prints a key:\n%s", deploy.Clip(out))
			}
		} else {
			r := (&e2e.Job{Conf: conf, Once: !honest, Gzip: true, Parallel: 1, Ops: []e2e.Op{{Kind: "key", ID: "somebody@example.org", Seed: seed}}}).Do()
			failed, hung, out = r.Exit != 0 || r.Ops[0].Err != "", r.Hung, r.Log
			if honest && r.Exit != 0 {
				return fmt.Errorf("the client library ended: %s", deploy.Clip(out))
			}
		}
		if hung {
			return fmt.Errorf("the client does not end:\n%s", deploy.Clip(out))
		}
		for j, f := range fs {
			if honest {
				if f.Infos() == 0 || len(f.Queries()) == 0 {
					return fmt.Errorf("server %d of the deployment is not asked:\n%s", j, deploy.Clip(out))
				}
			} else if impostors[j] {
				if f.Infos() > 0 || len(f.Queries()) > 0 {
					return fmt.Errorf("the impostor %d gets %d requests and the queries %.60x", j, f.Infos(), f.Queries())
				}
			}
		}
		if !honest && !failed {
			return fmt.Errorf("the client succeeds with an impostor:\n%s", deploy.Clip(out))
		}
		return nil
	}
	return at, nil
}

func keys(m map[int]bool) (out []int) {
	for i := 0; i < 8; i++ {
		if m[i] {
			out = append(out, i)
		}
	}
	return
}

// wire forwards connections to a server and records them.
type wire struct {
	l  net.Listener
	to string
	// the byte to change or where to cut, -1 for none
	flip, cut [2]int
	mask      byte

	mu   sync.Mutex
	sent [][2]*bytes.Buffer // of each connection, from and to the client
	wg   sync.WaitGroup
}

func newWire(to string) *wire {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		hx.Broken("%v", err)
	}
	return &wire{l: l, to: to, flip: [2]int{-1, -1}, cut: [2]int{-1, -1}}
}

func (w *wire) serve() {
	for {
		a, err := w.l.Accept()
		if err != nil {
			return
		}
		b, err := net.Dial("tcp", w.to)
		if err != nil {
			a.Close()
			continue
		}
		rec := [2]*bytes.Buffer{{}, {}}
		w.mu.Lock()
		w.sent = append(w.sent, rec)
		w.wg.Add(2)
		w.mu.Unlock()
		go w.pipe(a, b, 0, rec[0])
		go w.pipe(b, a, 1, rec[1])
	}
}

func (w *wire) pipe(from, to net.Conn, dir int, rec *bytes.Buffer) {
	defer w.wg.Done()
	defer to.Close()
	defer from.Close()
	buf := make([]byte, 32<<10)
	pos := 0
	for {
		n, err := from.Read(buf)
		if err != nil {
			return
		}
		rec.Write(buf[:n])
		out := buf[:n]
		if f := w.flip[dir]; f >= pos && f < pos+n {
			out[f-pos] ^= w.mask
			// a record that now seems to be longer makes its receiver wait for more
			time.AfterFunc(8*time.Second, func() { from.Close(); to.Close() })
		}
		if f := w.cut[dir]; f >= 0 && f < pos+n {
			if f > pos {
				to.Write(out[:f-pos])
			}
			return
		}
		pos += n
		if _, err := to.Write(out); err != nil {
			return
		}
	}
}

// close ends the relay and returns what it recorded.
func (w *wire) close() [][2][]byte {
	w.l.Close()
	done := make(chan struct{})
	go func() { w.wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		hx.Broken("a relay does not end")
	}
	var out [][2][]byte
	for _, r := range w.sent {
		out = append(out, [2][]byte{r[0].Bytes(), r[1].Bytes()})
	}
	return out
}

// records checks that the bytes are TLS records, the last one possibly cut.
func records(b []byte) error {
	for pos := 0; pos < len(b); {
		if len(b)-pos < 5 {
			return nil
		}
		if b[pos] < 20 || b[pos] > 23 || b[pos+1] != 3 {
			return fmt.Errorf("byte %d is not the start of a TLS record: %.20x", pos, b[pos:])
		}
		pos += 5 + int(binary.BigEndian.Uint16(b[pos+3:]))
	}
	return nil
}

func relay(i int, c *hx.C) error {
	s := hx.NewStream(hx.Seed()*9000011 + uint64(i))
	scheme := []string{"pointVPIR", "complexVPIR", "pointPIR", "complexPIR"}[i%4]
	servers := 2
	if strings.HasPrefix(scheme, "point") {
		servers += s.Intn(2)
	}
	es := deploy.NewEntries(s, 5+s.Intn(40))
	dirs := deploy.Directories(s, es, servers)
	defer func() {
		for _, d := range dirs {
			os.RemoveAll(d)
		}
	}()
	cl, err := e2e.Start(e2e.Build("cmd/grpc/server"), scheme, dirs)
	if err != nil {
		return err
	}
	defer cl.Stop()
	bin := e2e.Build("cmd/grpc/client")
	c.Case("%s, %d servers", scheme, servers)
	c.Class(scheme)
	type run struct {
		r     *deploy.Request
		ws    []*wire
		conf  string
		quiet bool
		desc  string
		err   error
	}
	var runs []*run
	for k := 0; k < 14; k++ {
		u := &run{quiet: k < 3}
		for {
			if strings.HasPrefix(scheme, "point") {
				u.r = deploy.KeyRequest(s, es, scheme)
			} else {
				u.r = deploy.StatRequest(s, es, scheme)
			}
			if !u.r.IsErr {
				break
			}
		}
		var addrs []string
		for _, a := range cl.Addrs {
			w := newWire(a)
			u.ws = append(u.ws, w)
			addrs = append(addrs, w.l.Addr().String())
		}
		if !u.quiet {
			w := u.ws[s.Intn(servers)]
			dir := s.Intn(2)
			// handshakes are some 600 and 1500 bytes long
			at := []int{s.Intn(10), s.Intn(700), s.Intn(3000), 1000 + s.Intn(4000), s.Intn(40000)}[s.Intn(5)]
			if w.mask = byte(1 << s.Intn(8)); s.Intn(3) > 0 {
				w.flip[dir] = at
				u.desc = fmt.Sprintf("byte %d changed", at)
			} else {
				w.cut[dir] = at
				u.desc = fmt.Sprintf("cut at %d", at)
			}
			u.desc += []string{" from", " to"}[dir] + " the client"
		}
		u.conf = filepath.Join(hx.WorkDir(), fmt.Sprintf("wire%d-%d.toml", i, k))
		perm := make([]int, servers)
		for j := range perm {
			perm[j] = j
		}
		e2e.WriteConfig(u.conf, addrs, perm)
		for _, w := range u.ws {
			go w.serve()
		}
		runs = append(runs, u)
	}
	var wg sync.WaitGroup
	for _, u := range runs {
		u := u
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer os.Remove(u.conf)
			f := e2e.Once
			if u.quiet {
				f = e2e.RunIn
			}
			res := f(bin, u.conf, u.r.Stdin, u.r.Args...)
			var recs [][2][]byte
			for _, w := range u.ws {
				recs = append(recs, w.close()...)
			}
			if res.Hung {
				u.err = fmt.Errorf("the client does not end:\n%s", deploy.Clip(res.Out))
				return
			}
			if u.quiet || res.Exit == 0 {
				n, ok := res.Number()
				if u.err = u.r.Check(res.Armored(), n, ok, res.Exit != 0, deploy.Clip(res.Out)); u.err != nil {
					return
				}
			} else if a := res.Armored(); a != "" {
				if u.err = u.r.Check(a, 0, false, false, deploy.Clip(res.Out)); u.err != nil {
					return
				}
			}
			// what others see on the way
			for _, r := range recs {
				if u.err = records(r[0]); u.err != nil {
					u.err = fmt.Errorf("the client does not use TLS: %v", u.err)
					return
				}
				if u.err = records(r[1]); u.err != nil && u.quiet {
					u.err = fmt.Errorf("a server does not use TLS: %v", u.err)
					return
				}
				u.err = nil
				for _, e := range es {
					for _, b := range r {
						if len(e.Email) > 7 && bytes.Contains(b, []byte(e.Email)) {
							u.err = fmt.Errorf("%q is visible on the network", e.Email)
							return
						}
					}
				}
			}
		}()
	}
	wg.Wait()
	for _, u := range runs {
		if u.err != nil {
			c.More("| %s %s", u.r.Desc, u.desc)
			return fmt.Errorf("%s: %v", u.desc, u.err)
		}
		c.NonTrivialIf(!u.quiet)
	}
	return cl.Check()
}

// serverSide sees what real servers show and accept.
func serverSide(i int, c *hx.C) error {
	s := hx.NewStream(hx.Seed()*11000027 + uint64(i))
	scheme := []string{"pointVPIR", "complexVPIR", "pointPIR", "complexPIR"}[i%4]
	es := deploy.NewEntries(s, 1+s.Intn(10))
	servers := 2
	if strings.HasPrefix(scheme, "point") {
		servers = e2e.MaxServers
	}
	dirs := deploy.Directories(s, es, servers)
	defer func() {
		for _, d := range dirs {
			os.RemoveAll(d)
		}
	}()
	cl, err := e2e.Start(e2e.Build("cmd/grpc/server"), scheme, dirs, func(int) []string {
		if s.Intn(2) == 0 {
			return []string{"-experiment", "-cores", "2"}
		}
		return nil
	})
	if err != nil {
		return err
	}
	defer cl.Stop()
	c.Case("%s, %d servers", scheme, servers)
	c.NonTrivial()
	for k, addr := range cl.Addrs {
		conn, err := tls.Dial("tcp", addr, &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"h2"}})
		if err != nil {
			return fmt.Errorf("server %d: %v", k, err)
		}
		certs := conn.ConnectionState().PeerCertificates
		conn.Close()
		if len(certs) == 0 || !bytes.Equal(certs[0].Raw, utils.ServerCertificates[k].Certificate[0]) {
			return fmt.Errorf("server %d does not show its certificate", k)
		}
		// nothing without TLS
		raw, err := net.Dial("tcp", addr)
		if err != nil {
			return fmt.Errorf("server %d: %v", k, err)
		}
		raw.SetDeadline(time.Now().Add(30 * time.Second))
		raw.Write([]byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\x00\x00\x00\x04\x00\x00\x00\x00\x00"))
		b, _ := io.ReadAll(io.LimitReader(raw, 9))
		raw.Close()
		if len(b) >= 9 && b[3] == 4 {
			return fmt.Errorf("server %d talks without TLS", k)
		}
	}
	return cl.Check()
}
