package c09

import (
	"fmt"
	"testing"
	"time"

	"aaverif/gen"
	"aaverif/hx"

	"github.com/nikirill/go-crypto/openpgp/packet"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/server"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	hx.Main(m, hx.Meta{ID: "C09",
		Rule:        "random key databases (0-60 keys, some with more than 2^16, shared prefixes and suffixes, keys created in the future, in this year and at year boundaries) and sequences of average queries over email parts or whole emails, mixed with counting queries, authenticated and unauthenticated, byte and structured interface, against the plaintext quotient; non-trivial when the quotient is positive and not every key matches, or no key matches",
		Assumptions: []string{"creation times are whole seconds, servers may be in different time zones; cases during which the year changes are skipped"}})
}

func TestProps(t *testing.T) {
	hx.Run(t, "average", 6000, 120000, average)
	hx.Run(t, "large", 60, 1500, func(t *rapid.T, c *hx.C) { large(t, c, 2500, 5000) })
	hx.Run(t, "many-keys", 12, 100, func(t *rapid.T, c *hx.C) { large(t, c, 65537, 100000) })
}

type cli interface {
	client.Client
	Query(*query.ClientFSS, int) []*query.FSS
	Reconstruct([][]uint32) (uint32, error)
}
type srv interface {
	server.Server
	Answer(*query.FSS) []uint32
}

// pred draws average queries mostly.
func pred(t *rapid.T, s *hx.Stream, db *database.DB) *gen.Pred {
	for i := 0; i < 8; i++ {
		if p := gen.NewPred(t, s, db, fmt.Sprintf("p%d", i)); p.Avg || s.Intn(8) == 0 {
			return p
		}
	}
	return gen.NewPred(t, s, db, "p")
}

// start lets the servers answer and returns the rest of the query.
func start(t *rapid.T, cl cli, sv [2]srv, q *query.ClientFSS) func() (interface{}, error) {
	if rapid.Bool().Draw(t, "bytes") {
		in, e := q.Encode()
		if e != nil {
			t.Fatalf("%v", e)
		}
		qs, e := cl.QueryBytes(in, 2)
		if e != nil {
			t.Fatalf("query: %v", e)
		}
		var a [2][]byte
		for k := range a {
			if a[k], e = sv[k].AnswerBytes(qs[k]); e != nil {
				t.Fatalf("server %d: %v", k, e)
			}
		}
		return func() (interface{}, error) { return cl.ReconstructBytes(a[:]) }
	}
	qs := cl.Query(q, 2)
	a := [][]uint32{sv[0].Answer(qs[0]), sv[1].Answer(qs[1])}
	return func() (interface{}, error) { return cl.Reconstruct(a) }
}

func average(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	db := gen.KeysDB(t, s, 60)
	if rapid.Bool().Draw(t, "recent") { // small ages, including zero
		y := time.Now().UTC().Year()
		for _, k := range db.KeysInfo {
			if s.Intn(2) == 0 {
				k.CreationTime = time.Date(y-s.Intn(3)+s.Intn(2), time.Month(1+s.Intn(12)), 1+s.Intn(28), 0, 0, 0, 0, time.UTC)
			}
		}
	}
	if rapid.IntRange(0, 7).Draw(t, "old") == 0 { // ages of more than a century
		for _, k := range db.KeysInfo {
			if s.Intn(2) == 0 {
				k.CreationTime = time.Date(1700+s.Intn(300), 3, 4, 5, 6, 7, 0, time.UTC)
			}
		}
	}
	auth := rapid.Bool().Draw(t, "auth")
	var cl cli
	var sv [2]srv
	dbs := gen.Copies(t, db, 2)
	if auth {
		cl = client.NewPredicateAPIR(s, &db.Info)
		sv = [2]srv{server.NewPredicateAPIR(dbs[0], 0), server.NewPredicateAPIR(dbs[1], 1)}
	} else {
		cl = client.NewPredicatePIR(s, &db.Info)
		sv = [2]srv{server.NewPredicatePIR(dbs[0], 0), server.NewPredicatePIR(dbs[1], 1)}
	}
	c.Case("%d keys auth=%v", len(db.KeysInfo), auth)
	k := rapid.IntRange(1, 4).Draw(t, "queries")
	for i := 0; i < k; i++ {
		p := pred(t, s, db)
		year := time.Now().UTC().Year()
		n, sum := p.Plain(db, year)
		c.More("| %s: %d/%d", p.Desc, sum, n)
		finish := start(t, cl, sv, p.Q)
		if rapid.IntRange(0, 3).Draw(t, "between") == 0 { // another client is answered in between
			o := pred(t, s, db)
			c.More("and %s", o.Desc)
			var cl2 cli
			if auth {
				cl2 = client.NewPredicateAPIR(s, &db.Info)
			} else {
				cl2 = client.NewPredicatePIR(s, &db.Info)
			}
			start(t, cl2, sv, o.Q)()
		}
		got, err := finish()
		if time.Now().UTC().Year() != year {
			return
		}
		what := fmt.Sprintf("auth=%v, %d keys, %s (sum %d, count %d)", auth, len(db.KeysInfo), p.Desc, sum, n)
		if !p.Avg {
			if err != nil || fmt.Sprint(got) != fmt.Sprint(n) {
				t.Fatalf("%s: got %v, %v", what, got, err)
			}
			continue
		}
		if n == 0 {
			c.Class("no match")
			c.NonTrivial()
			if err == nil {
				t.Fatalf("%s: got %v instead of an error", what, got)
			}
			continue
		}
		c.Class("match")
		c.NonTrivialIf(sum >= n && int(n) < len(db.KeysInfo))
		if v, ok := got.(uint32); err != nil || !ok || uint64(v) != sum/n {
			t.Fatalf("%s: got %v, %v", what, got, err)
		}
	}
}

// large takes averages over many keys, so that counts and summed ages exceed
// 16 bits.
func large(t *rapid.T, c *hx.C, min, max int) {
	s := hx.Tape(t)
	n := rapid.IntRange(min, max).Draw(t, "n")
	pre := s.Intn(4) // one in pre+1 keys does not match
	db := database.NewKeysDB(database.Info{NumColumns: n})
	year := time.Now().UTC().Year()
	old := 1970
	if s.Intn(4) == 0 { // the last keys are much older than the others
		old = 2015
	}
	// or all but a few are of the same age, so that the quotient is nearly an integer
	equal, few := 0, 0
	if s.Intn(2) == 0 {
		equal, few = []int{40, 260, 1000, 1700}[s.Intn(4)], 1+s.Intn(2)
	}
	var cnt, sum uint64
	for i := 0; i < n; i++ {
		e := fmt.Sprintf("a%x@x.org", s.U64()&0xffff)
		y := old + s.Intn(2030-old)
		if old > 1970 && i > n-n/40 {
			y = 1971
		}
		if equal > 0 {
			if y = year - equal; i > n/2 && few > 0 {
				few--
				y++
				if old > 1970 {
					y -= 2
				}
			}
		}
		if equal == 0 && pre > 0 && s.Intn(pre+1) == 0 {
			e = "b" + e
		} else if y <= year {
			cnt++
			sum += uint64(year - y)
		}
		db.KeysInfo = append(db.KeysInfo, &database.KeyInfo{UserId: &packet.UserId{Id: e, Email: e}, CreationTime: time.Date(y, 2, 3, 4, 5, 6, 0, time.UTC), PubKeyAlgo: 1})
	}
	info := &query.Info{FromStart: 1, And: true, Avg: true}
	auth := rapid.Bool().Draw(t, "auth")
	var cl cli
	var sv [2]srv
	if auth {
		cl = client.NewPredicateAPIR(s, &db.Info)
		sv = [2]srv{server.NewPredicateAPIR(db, 0), server.NewPredicateAPIR(db, 1)}
	} else {
		cl = client.NewPredicatePIR(s, &db.Info)
		sv = [2]srv{server.NewPredicatePIR(db, 0), server.NewPredicatePIR(db, 1)}
	}
	c.Case("%d keys auth=%v, average of prefix \"a\": %d/%d", n, auth, sum, cnt)
	c.NonTrivialIf(sum > 1<<16)
	qs := cl.Query(info.ToAvgClientFSS("a"), 2)
	got, err := cl.Reconstruct([][]uint32{sv[0].Answer(qs[0]), sv[1].Answer(qs[1])})
	if time.Now().UTC().Year() != year {
		return
	}
	if err != nil || uint64(got) != sum/cnt {
		t.Fatalf("%d keys, auth=%v: average of %d/%d is %d, %v", n, auth, sum, cnt, got, err)
	}
}
