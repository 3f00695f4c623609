package c26

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"aaverif/e2e"
	"aaverif/gen"
	"aaverif/hx"

	"github.com/nikirill/go-crypto/openpgp"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/pgp"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	e2e.HelperMain()
	hx.Main(m, hx.Meta{ID: "C26",
		Rule:        "configurations that list 0 to 20 servers in any order as tables, quoted tables, inline tables or tables without header, with comments, spaces and other settings in between, and the same with a number that does not fit; deployments of 2 to 5 stand-in servers listed in any order that record the queries they get and answer after random delays, asked by the client library with given queries or a given randomness, and by the client program with answers computed by the server library; non-trivial with two servers or more",
		Assumptions: []string{"the loopback network is available", "the built-in certificates are valid"}})
}

func TestProps(t *testing.T) {
	hx.NoHang()
	e2e.CheckCertificates()
	hx.Run(t, "config", 4000, 200000, config)
	hx.Run(t, "config-invalid", 4000, 200000, invalid)
	hx.Run(t, "queries", 120, 2000, queries)
	hx.Run(t, "shares", 160, 2500, shares)
	hx.Run(t, "program", 120, 1500, program)
}

// srv is an entry of a configuration.
type srv struct {
	num  string
	host string
	port int
}

func servers(t *rapid.T, s *hx.Stream, n int) []srv {
	out := make([]srv, n)
	for i := range out {
		h := fmt.Sprintf("%d.%d.%d.%d", s.Intn(256), s.Intn(256), s.Intn(256), s.Intn(256))
		switch s.Intn(6) {
		case 0:
			h = "localhost"
		case 1:
			h = gen.Word(s, 8, 26) + ".example.org"
		case 2:
			h = "[::1]"
		case 3:
			if i > 0 { // several servers on a host
				h = out[s.Intn(i)].host
			}
		}
		p := 1 + s.Intn(65535)
		if i > 0 && s.Intn(3) == 0 {
			p = out[s.Intn(i)].port
		}
		out[i] = srv{fmt.Sprint(i), h, p}
	}
	return out
}

// text writes the configuration, entries in the order of perm.
func text(t *rapid.T, s *hx.Stream, ss []srv, perm []int) string {
	var b strings.Builder
	nl := func() {
		for s.Intn(4) == 0 {
			b.WriteString([]string{"\n", "# servers.7 = 8\n", "   # [servers.3]\n", "\t\n"}[s.Intn(4)])
		}
	}
	ws := func() string { return []string{"", " ", "  ", "\t"}[s.Intn(4)] }
	key := func(k string) string {
		if s.Intn(5) == 0 {
			return `"` + k + `"`
		}
		return k
	}
	name := func(k string) string {
		// field names do not depend on the case
		return []string{k, k, strings.ToUpper(k), strings.ToUpper(k[:1]) + k[1:]}[s.Intn(4)]
	}
	str := func(v string) string {
		if s.Intn(3) == 0 {
			return "'" + v + "'"
		}
		return `"` + v + `"`
	}
	fields := func(e srv, sep string, inline bool) string {
		f := []string{
			ws() + name("ip") + ws() + "=" + ws() + str(e.host),
			ws() + name("port") + ws() + "=" + ws() + fmt.Sprint(e.port),
		}
		if s.Intn(2) == 0 {
			f[0], f[1] = f[1], f[0]
		}
		if s.Intn(8) == 0 {
			f = append(f, ws()+"comment = \"none\"")
		}
		if s.Intn(8) == 0 {
			f = append(f, ws()+name("index")+" = "+fmt.Sprint(s.Intn(5)))
		}
		if !inline {
			for i := range f {
				if s.Intn(5) == 0 {
					f[i] += ws() + "# port = 1"
				}
			}
		}
		return strings.Join(f, sep)
	}
	nl()
	if s.Intn(6) == 0 {
		b.WriteString("title = \"x\"\n")
	}
	if s.Intn(6) == 0 {
		b.WriteString("[client]\nport = 3\n")
	}
	style := rapid.SampledFrom([]string{"tables", "tables", "inline", "mixed"}).Draw(t, "style")
	inlined := 0
	if style != "tables" {
		b.WriteString(ws() + "[servers]\n")
		nl()
		inlined = len(perm)
		if style == "mixed" {
			inlined = s.Intn(len(perm) + 1)
		}
		for _, i := range perm[:inlined] {
			b.WriteString(ws() + key(ss[i].num) + ws() + "=" + ws() + "{" + fields(ss[i], ",", true) + " }\n")
			nl()
		}
	} else if s.Intn(2) == 0 {
		b.WriteString(ws() + "[servers]" + ws() + "\n")
	}
	for _, i := range perm[inlined:] {
		b.WriteString(ws() + "[servers." + key(ss[i].num) + "]" + ws() + "\n")
		nl()
		b.WriteString(fields(ss[i], "\n", false) + "\n")
		nl()
	}
	if s.Intn(6) == 0 {
		b.WriteString("[other]\nservers = 3\n")
	}
	out := b.String()
	if s.Intn(4) == 0 {
		out = strings.ReplaceAll(out, "\n", "\r\n")
	}
	if s.Intn(4) == 0 {
		out = strings.TrimRight(out, "\r\n")
	}
	return out
}

func load(t *rapid.T, txt string) (*utils.Config, error) {
	f := filepath.Join(hx.WorkDir(), "c.toml")
	if err := os.WriteFile(f, []byte(txt), 0o644); err != nil {
		hx.Broken("%v", err)
	}
	return utils.LoadConfig(f)
}

func config(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	n := hx.Size(t, "n", 0, 20, 0, 1, 2, 3, 9, 10, 11, 12)
	ss := servers(t, s, n)
	txt := text(t, s, ss, gen.Perm(t, n, "order"))
	c.Case("%d servers %v as\n%s", n, ss, txt)
	c.NonTrivialIf(n >= 2)
	conf, err := load(t, txt)
	if err != nil {
		t.Fatalf("a configuration is refused: %v", err)
	}
	if len(conf.Addresses) != n {
		t.Fatalf("%d addresses for %d servers", len(conf.Addresses), n)
	}
	for i, e := range ss {
		if w := fmt.Sprintf("%s:%d", e.host, e.port); conf.Addresses[i] != w {
			t.Fatalf("the address of server %d is %s instead of %s", i, conf.Addresses[i], w)
		}
	}
}

func invalid(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	n := rapid.IntRange(1, 12).Draw(t, "n")
	ss := servers(t, s, n)
	k := rapid.IntRange(0, n-1).Draw(t, "which")
	kind := rapid.SampledFrom([]string{"gap", "from1", "negative", "text", "twice", "far", "empty"}).Draw(t, "kind")
	switch kind {
	case "gap":
		ss[k].num = fmt.Sprint(n + s.Intn(3))
	case "from1":
		for i := range ss {
			ss[i].num = fmt.Sprint(i + 1)
		}
	case "negative":
		ss[k].num = fmt.Sprint(-1 - s.Intn(3))
	case "text":
		ss[k].num = []string{"a", "x" + fmt.Sprint(k), fmt.Sprint(k) + "a", "one", "-"}[s.Intn(5)]
	case "twice":
		// one more entry for a number that is there already
		ss = append(ss, srv{"0" + fmt.Sprint(k), "10.0.0.1", 77})
		if s.Intn(2) == 0 && n > 1 {
			// in place of another one, so that their count fits
			o := s.Intn(n)
			if o != k {
				ss = append(ss[:o], ss[o+1:]...)
			}
		}
	case "far":
		ss[k].num = []string{"9223372036854775807", "9223372036854775808", "18446744073709551616", "4294967296", "-9223372036854775808", "99999999999999999999999"}[s.Intn(6)]
	case "empty":
		ss[k].num = "_"
	}
	txt := text(t, s, ss, gen.Perm(t, len(ss), "order"))
	c.Case("%s: numbers %v in\n%s", kind, nums(ss), txt)
	c.NonTrivial()
	c.Class(kind)
	conf, err := load(t, txt)
	if err == nil {
		t.Fatalf("accepted with the addresses %q", conf.Addresses)
	}
}

func nums(ss []srv) []string {
	var out []string
	for _, e := range ss {
		out = append(out, e.num)
	}
	return out
}

// deployment starts stand-ins that are listed in any order.
type deployment struct {
	fakes []*e2e.Fake
	conf  string
	desc  string
	delay []time.Duration
}

func deploy(t *rapid.T, n int) *deployment {
	d := &deployment{fakes: e2e.Fakes(n), conf: filepath.Join(hx.WorkDir(), "config.toml")}
	var addrs []string
	for i := 0; i < n; i++ {
		addrs = append(addrs, d.fakes[i].Addr)
		d.delay = append(d.delay, time.Duration(rapid.SampledFrom([]int{0, 0, 1, 3, 8, 15}).Draw(t, "delay"))*time.Millisecond)
	}
	perm := gen.Perm(t, n, "listed")
	e2e.WriteConfig(d.conf, addrs, perm)
	d.desc = fmt.Sprintf("%d servers listed as %v, answering after %v", n, perm, d.delay)
	return d
}

// got checks that every server got the expected query once.
func (d *deployment) got(t *rapid.T, want [][]byte, out string) {
	for i, f := range d.fakes {
		q := f.Queries()
		if len(q) != 1 {
			t.Fatalf("server %d got %d queries\n%s", i, len(q), out)
		}
		if want == nil {
			for j := 0; j < i; j++ {
				// short shares may be alike by chance
				if len(q[0]) >= 16 && bytes.Equal(d.fakes[j].Queries()[0], q[0]) {
					t.Fatalf("the servers %d and %d got the same query", j, i)
				}
			}
			continue
		}
		if !bytes.Equal(q[0], want[i]) {
			for j := range want {
				if bytes.Equal(q[0], want[j]) {
					t.Fatalf("server %d got the query for server %d", i, j)
				}
			}
			t.Fatalf("server %d got another query than its own", i)
		}
	}
}

func run(t *rapid.T, d *deployment, gz bool, op e2e.Op) (e2e.OpResult, string) {
	r := (&e2e.Job{Conf: d.conf, Gzip: gz, Parallel: 1, Ops: []e2e.Op{op}}).Do()
	if r.Hung || r.Exit != 0 {
		t.Fatalf("the client library ended with exit status %d (hung: %v):\n%s", r.Exit, r.Hung, r.Log)
	}
	e2e.DrainFakes(d.fakes)
	return r.Ops[0], r.Log
}

// queries: given queries reach their servers and all answers come back.
func queries(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	n := rapid.IntRange(2, e2e.MaxServers).Draw(t, "servers")
	d := deploy(t, n)
	defer e2e.StopFakes(d.fakes)
	qs := make([][]byte, n)
	as := make([][]byte, n)
	for i := range qs {
		qs[i] = append(s.Bytes(hx.Size(t, "len", 0, 3000, 0, 1)), byte(i))
		as[i] = append(s.Bytes(hx.Size(t, "alen", 0, 3000, 0, 1)), byte(i))
		a := as[i]
		d.fakes[i].Reset(&proto.DatabaseInfoResponse{NumRows: 1, NumColumns: 1, BlockLength: 64}, 0, d.delay[i], func([]byte) ([]byte, error) { return a, nil })
	}
	gz := rapid.Bool().Draw(t, "gzip")
	c.Case("library, given queries, %s, gzip=%v", d.desc, gz)
	c.NonTrivial()
	r, log := run(t, d, gz, e2e.Op{Kind: "run", Queries: qs})
	d.got(t, qs, log)
	if len(r.Answers) != n {
		t.Fatalf("%d answers from %d servers", len(r.Answers), n)
	}
	got := append([][]byte{}, r.Answers...)
	for _, x := range [][][]byte{got, as} {
		sort.Slice(x, func(i, j int) bool { return bytes.Compare(x[i], x[j]) < 0 })
	}
	for i := range got {
		if !bytes.Equal(got[i], as[i]) {
			t.Fatalf("the answers are not those of the servers")
		}
	}
}

type answerer interface{ AnswerBytes([]byte) ([]byte, error) }

// backend is a database behind a deployment.
type backend struct {
	scheme string
	n      int
	local  database.Info
	srvs   []answerer
	// what to ask and what comes out
	op    e2e.Op
	input []byte
	args  []string
	print string // of the key, empty if it is absent
	num   uint64 // the statistic
}

func newBackend(t *rapid.T, s *hx.Stream) *backend {
	b := &backend{scheme: rapid.SampledFrom([]string{"pointVPIR", "pointPIR", "complexVPIR", "complexPIR"}).Draw(t, "scheme"), n: 2}
	if b.scheme[0] == 'c' {
		b.statistics(t, s)
	} else {
		b.n = rapid.SampledFrom([]int{2, 2, 3, 4, 5}).Draw(t, "servers")
		b.keys(t, s)
	}
	return b
}

func (b *backend) statistics(t *rapid.T, s *hx.Stream) {
	db := gen.KeysDB(t, s, 30)
	for _, k := range db.KeysInfo { // what one can give on a command line
		k.UserId.Email = strings.Map(func(r rune) rune {
			if r < ' ' || r > '~' {
				return '_'
			}
			return r
		}, k.UserId.Email)
	}
	b.local = db.Info
	for i := 0; i < b.n; i++ {
		if b.scheme == "complexPIR" {
			b.srvs = append(b.srvs, server.NewPredicatePIR(db, byte(i)))
		} else {
			b.srvs = append(b.srvs, server.NewPredicateAPIR(db, byte(i)))
		}
	}
	suf := "edu"
	if len(db.KeysInfo) > 0 && s.Intn(4) > 0 {
		if e := db.KeysInfo[s.Intn(len(db.KeysInfo))].UserId.Email; len(e) > 0 {
			suf = e[s.Intn(len(e)):]
		}
	}
	if len(suf) > 30 {
		suf = suf[len(suf)-30:]
	}
	for _, k := range db.KeysInfo {
		if strings.HasSuffix(k.UserId.Email, suf) {
			b.num++
		}
	}
	b.args = []string{"-scheme", b.scheme, "-id", suf, "-target", "email", "-from-end", fmt.Sprint(len(suf))}
	info := &query.Info{Target: query.UserId, FromEnd: len(suf)}
	b.op = e2e.Stat(info.ToEmailClientFSS(suf), b.scheme, s.U64())
	b.input = b.op.Input
}

func (b *backend) keys(t *rapid.T, s *hx.Stream) {
	dir := filepath.Join(hx.WorkDir(), "keys")
	os.RemoveAll(dir)
	d := &gen.Dir{}
	var ks []*gen.PKey
	for i := 1 + s.Intn(6); i > 0; i-- {
		tr := true
		at := gen.Secs(1300000000 + s.Intn(1000000))
		em := fmt.Sprintf("%s%d@x.org", gen.Word(s, 3, 2), i)
		k := &gen.PKey{Created: at, Priv: gen.NewPriv(s, at, gen.AnyAlgo)}
		k.Idents = []gen.PIdent{{Name: "U <" + em + ">", Email: em, Signed: true, Self: at, Primary: &tr}}
		k.Build(s, false)
		ks = append(ks, k)
		d.Keys = append(d.Keys, pgp.Key{ID: em, Packet: k.Raw})
	}
	files := d.Files(dir, seq(len(ks)), 1)
	var db *database.Bytes
	var err error
	if b.scheme == "pointPIR" {
		db, err = database.GenerateRealKeyBytes(files, true)
	} else {
		db, err = database.GenerateRealKeyMerkle(files, true)
	}
	if err != nil {
		t.Fatalf("building the database: %v", err)
	}
	b.local = db.Info
	for i := 0; i < b.n; i++ {
		if b.n == 2 {
			b.srvs = append(b.srvs, server.NewPIRTwo(db))
		} else {
			b.srvs = append(b.srvs, server.NewPIR(db))
		}
	}
	k := s.Intn(len(ks))
	id := d.Keys[k].ID
	b.print = gen.Print(ks[k].Entity())
	if s.Intn(5) == 0 {
		id, b.print = "nobody@x.org", ""
	}
	b.args = []string{"-scheme", b.scheme, "-id", id}
	b.op = e2e.Op{Kind: "key", ID: id, Seed: s.U64()}
	b.input = make([]byte, 4)
	binary.BigEndian.PutUint32(b.input, uint32(database.HashToIndex(id, db.NumRows*db.NumColumns)))
}

// info is the description that servers report.
func (b *backend) info() *proto.DatabaseInfoResponse {
	i := &proto.DatabaseInfoResponse{NumRows: uint32(b.local.NumRows), NumColumns: uint32(b.local.NumColumns), BlockLength: uint32(b.local.BlockSize), PirType: b.local.PIRType}
	if b.local.Merkle != nil {
		i.Root, i.ProofLen = b.local.Root, uint32(b.local.ProofLen)
	}
	return i
}

func (b *backend) install(d *deployment) {
	for i, f := range d.fakes {
		f.Reset(b.info(), 0, d.delay[i], b.srvs[i].AnswerBytes)
	}
}

// expect computes the shares of the operation.
func (b *backend) expect(t *rapid.T) [][]byte {
	i := b.info()
	info := &database.Info{NumRows: int(i.NumRows), NumColumns: int(i.NumColumns), BlockSize: int(i.BlockLength), PIRType: i.PirType,
		Merkle: &database.Merkle{Root: i.Root, ProofLen: int(i.ProofLen)}}
	rnd := hx.NewStream(b.op.Seed)
	qs, err := client.NewPIR(rnd, info).QueryBytes(b.input, b.n)
	if err != nil {
		t.Fatalf("computing the queries: %v", err)
	}
	return qs
}

func (b *backend) checkKey(t *rapid.T, armored string, failed bool, out string) {
	if b.print == "" {
		if !failed || armored != "" {
			t.Fatalf("an absent key was found:\n%s", out)
		}
		return
	}
	el, err := openpgp.ReadArmoredKeyRing(strings.NewReader(armored))
	if failed || err != nil || len(el) != 1 {
		t.Fatalf("the key was not retrieved (%v):\n%s", err, out)
	}
	if p := gen.Print(el[0]); p != b.print {
		t.Fatalf("the key %s was retrieved instead of %s", p, b.print)
	}
}

// shares: the client library sends the shares that it computes to their
// servers.
func shares(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	b := newBackend(t, s)
	d := deploy(t, b.n)
	defer e2e.StopFakes(d.fakes)
	b.install(d)
	gz := rapid.Bool().Draw(t, "gzip")
	c.Case("library, %s, %v, %s, gzip=%v", b.scheme, b.args, d.desc, gz)
	c.Class(b.scheme, fmt.Sprintf("servers%d", b.n))
	c.NonTrivial()
	r, log := run(t, d, gz, b.op)
	var want [][]byte
	if b.n > 2 {
		// point functions for two servers do not use the given randomness, and
		// the encoding of statistics depends on the process; for these the
		// output tells
		want = b.expect(t)
	}
	d.got(t, want, log)
	if b.op.Kind == "key" {
		b.checkKey(t, r.Out, r.Err != "", r.Err)
	} else if r.Err != "" || uint64(r.Number) != b.num {
		t.Fatalf("the statistic is %d instead of %d (%s)", r.Number, b.num, r.Err)
	}
}

// program: the client program sends every server a query of its own.
func program(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	b := newBackend(t, s)
	d := deploy(t, b.n)
	defer e2e.StopFakes(d.fakes)
	b.install(d)
	c.Case("program %v, %s", b.args, d.desc)
	c.Class(b.scheme, fmt.Sprintf("servers%d", b.n))
	c.NonTrivial()
	r := e2e.Run(e2e.Build("cmd/grpc/client"), d.conf, b.args...)
	if r.Hung {
		t.Fatalf("the client does not end:\n%s", r.Out)
	}
	e2e.DrainFakes(d.fakes)
	d.got(t, nil, r.Out)
	if b.op.Kind == "key" {
		b.checkKey(t, r.Armored(), r.Exit != 0, r.Out)
	} else if v, ok := r.Number(); r.Exit != 0 || !ok || v != b.num {
		t.Fatalf("the statistic is %d instead of %d:\n%s", v, b.num, r.Out)
	}
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}
