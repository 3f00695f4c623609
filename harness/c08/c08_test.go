package c08

import (
	"fmt"
	"testing"
	"time"

	"aaverif/gen"
	"aaverif/hx"

	"github.com/nikirill/go-crypto/openpgp/packet"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/server"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	hx.Main(m, hx.Meta{ID: "C08",
		Rule:        "random key databases (0-60 keys, some with more than 2^16, emails sharing prefixes and suffixes, equal emails, short and empty emails, repeated instants) and random sequences of counting queries of every kind, with the authenticated and the unauthenticated client, through the byte and the structured interface, against evaluation in the clear; non-trivial when at least one query matches some but not all keys",
		Assumptions: []string{"creation times are whole seconds; servers may be in different time zones"}})
}

func TestProps(t *testing.T) {
	hx.Run(t, "count", 8000, 150000, count)
	hx.Run(t, "random-keys-db", 40, 500, randomKeys)
	hx.Run(t, "many-keys", 3, 40, manyKeys)
}

type cli interface {
	client.Client
	Query(*query.ClientFSS, int) []*query.FSS
	Reconstruct([][]uint32) (uint32, error)
}
type srv interface {
	server.Server
	Answer(*query.FSS) []uint32
}

func newClient(s *hx.Stream, db *database.DB, auth bool) cli {
	if auth {
		return client.NewPredicateAPIR(s, &db.Info)
	}
	return client.NewPredicatePIR(s, &db.Info)
}

func setup(t *rapid.T, s *hx.Stream, db *database.DB, auth bool) (cli, [2]srv) {
	cores := rapid.SampledFrom([][]int{nil, {1}, {3}, {50}}).Draw(t, "cores")
	dbs := gen.Copies(t, db, 2)
	if auth {
		return newClient(s, db, auth), [2]srv{server.NewPredicateAPIR(dbs[0], 0, cores...), server.NewPredicateAPIR(dbs[1], 1, cores...)}
	}
	return newClient(s, db, auth), [2]srv{server.NewPredicatePIR(dbs[0], 0, cores...), server.NewPredicatePIR(dbs[1], 1, cores...)}
}

// Ask runs one query.
func ask(t *rapid.T, s *hx.Stream, cl cli, sv [2]srv, q *query.ClientFSS, viaBytes bool) (interface{}, error) {
	return start(t, s, cl, sv, q, viaBytes)()
}

// start lets the servers answer and returns the rest of the query.
func start(t *rapid.T, s *hx.Stream, cl cli, sv [2]srv, q *query.ClientFSS, viaBytes bool) func() (interface{}, error) {
	if viaBytes {
		in, err := q.Encode()
		if err != nil {
			t.Fatalf("encode: %v", err)
		}
		qs, err := cl.QueryBytes(in, 2)
		if err != nil || len(qs) != 2 {
			t.Fatalf("query: %v", err)
		}
		a := make([][]byte, 2)
		o := s.Intn(2)
		for _, k := range []int{o, 1 - o} {
			if a[k], err = sv[k].AnswerBytes(qs[k]); err != nil {
				t.Fatalf("answer of server %d: %v", k, err)
			}
		}
		if s.Intn(4) == 0 {
			a[0], a[1] = a[1], a[0]
		}
		return func() (interface{}, error) { return cl.ReconstructBytes(a) }
	}
	qs := cl.Query(q, 2)
	a := [][]uint32{sv[0].Answer(qs[0]), sv[1].Answer(qs[1])}
	return func() (interface{}, error) { return cl.Reconstruct(a) }
}

func count(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	db := gen.KeysDB(t, s, 60)
	auth := rapid.Bool().Draw(t, "auth")
	cl, sv := setup(t, s, db, auth)
	k := rapid.IntRange(1, 5).Draw(t, "queries")
	c.Case("%d keys auth=%v", len(db.KeysInfo), auth)
	for i := 0; i < k; i++ {
		p := gen.NewPred(t, s, db, "p")
		if p.Avg { // only part of the history here: C09 judges averages
			ask(t, s, cl, sv, p.Q, rapid.Bool().Draw(t, "bytes"))
			c.More("| %s", p.Desc)
			continue
		}
		want, _ := p.Plain(db, 0)
		c.More("| %s: %d", p.Desc, want)
		c.Class(p.Kind)
		if want > 0 {
			c.Class(p.Kind + "+")
		}
		c.NonTrivialIf(want > 0 && int(want) < len(db.KeysInfo))
		finish := start(t, s, cl, sv, p.Q, rapid.Bool().Draw(t, "bytes"))
		if rapid.IntRange(0, 3).Draw(t, "between") == 0 { // another client is answered in between
			o := gen.NewPred(t, s, db, "o")
			c.More("and %s", o.Desc)
			ask(t, s, newClient(s, db, auth), sv, o.Q, rapid.Bool().Draw(t, "o.bytes"))
		}
		got, err := finish()
		if err != nil {
			t.Fatalf("auth=%v, %s: %v (expected %d)", auth, p.Desc, err, want)
		}
		if v, ok := got.(uint32); !ok || uint64(v) != want {
			t.Fatalf("auth=%v, %d keys, %s: got %v, expected %d", auth, len(db.KeysInfo), p.Desc, got, want)
		}
	}
}

// randomKeys uses the database generator of the evaluation.
func randomKeys(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	n := rapid.IntRange(1, 1500).Draw(t, "n")
	db, err := database.CreateRandomKeysDB(s, n)
	if err != nil {
		t.Fatalf("%v", err)
	}
	if len(db.KeysInfo) != n || db.NumColumns != n {
		t.Fatalf("%d keys, %d columns, expected %d", len(db.KeysInfo), db.NumColumns, n)
	}
	auth := rapid.Bool().Draw(t, "auth")
	cl, sv := setup(t, s, db, auth)
	c.Case("random database of %d keys auth=%v", n, auth)
	for i := 0; i < 3; i++ {
		p := gen.NewPred(t, s, db, "p")
		if p.Avg {
			continue
		}
		want, _ := p.Plain(db, 0)
		c.NonTrivialIf(want > 0 && int(want) < n)
		c.More("| %s: %d", p.Desc, want)
		got, err := ask(t, s, cl, sv, p.Q, true)
		if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
			t.Fatalf("auth=%v, %d keys, %s: got %v, %v, expected %d", auth, n, p.Desc, got, err, want)
		}
	}
}

// manyKeys counts among more than 65536 keys.
func manyKeys(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	n := hx.Size(t, "n", 65537, 100000, 65537, 65600)
	db := database.NewKeysDB(database.Info{NumColumns: n})
	algos := []packet.PublicKeyAlgorithm{1, 16, 17, 18, 19}
	rare := s.Intn(2) == 0 // only few keys at the end match
	for i := 0; i < n; i++ {
		k := &database.KeyInfo{UserId: &packet.UserId{Email: "a" + gen.Word(s, 3, 4)}, CreationTime: time.Date(2000+s.Intn(20), 0, 0, 0, 0, 0, 0, time.UTC), PubKeyAlgo: 1}
		if !rare || i > n-5 || s.Intn(n/4) == 0 {
			k.PubKeyAlgo = algos[s.Intn(5)]
			if s.Intn(2) == 0 {
				k.UserId.Email = "b" + k.UserId.Email
			}
		}
		db.KeysInfo = append(db.KeysInfo, k)
	}
	auth := rapid.Bool().Draw(t, "auth")
	cl, sv := setup(t, s, db, auth)
	c.Case("%d keys auth=%v rare=%v", n, auth, rare)
	c.NonTrivial()
	nm := []string{"RSA", "ElGamal", "DSA", "ECDH", "ECDSA"}
	a := s.Intn(5)
	ask1 := func(q *query.ClientFSS, desc string, match func(*database.KeyInfo) bool) {
		want := 0
		for _, k := range db.KeysInfo {
			if match(k) {
				want++
			}
		}
		c.More("| %s: %d", desc, want)
		got, err := ask(t, s, cl, sv, q, true)
		if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
			t.Fatalf("auth=%v, %d keys, %s: got %v, %v, expected %d", auth, n, desc, got, err, want)
		}
	}
	ask1((&query.Info{Target: query.PubKeyAlgo}).ToPKAClientFSS(nm[a]), "algorithm "+nm[a], func(k *database.KeyInfo) bool { return k.PubKeyAlgo == algos[a] })
	ask1((&query.Info{Target: query.UserId, FromStart: 1}).ToEmailClientFSS("b"), "prefix b", func(k *database.KeyInfo) bool { return k.UserId.Email[0] == 'b' })
}
