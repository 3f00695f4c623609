package c10

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"testing"
	"time"

	"aaverif/gen"
	"aaverif/hx"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/fss"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/server"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	hx.Main(m, hx.Meta{ID: "C10",
		Rule:        "random key databases and predicate queries (counts and averages) with one of the two servers cheating: additive errors on any words (also tags computed for all MAC keys but one), replay, swap, answers to other queries and on other databases, encodings that are truncated, empty, extended, doubled or non-canonical; non-trivial when the cheating answer differs from the honest one",
		Assumptions: []string{"a cheating server may know the database and the query, but not the MAC keys; one class gives it all MAC keys but one, which bounds a guess at 2^-31"}})
}

func TestProps(t *testing.T) {
	hx.Run(t, "cheat", 15000, 300000, cheat)
	hx.Run(t, "keys-matter", 600, 10000, keysMatter)
}

const p = uint64(field.ModP)
const words = 1 + field.ConcurrentExecutions

func dec(b []byte) []uint32 {
	out := make([]uint32, len(b)/4)
	for i := range out {
		out[i] = binary.BigEndian.Uint32(b[4*i:])
	}
	return out
}

func enc(w []uint32) []byte {
	out := make([]byte, 4*len(w))
	for i, x := range w {
		binary.BigEndian.PutUint32(out[4*i:], x)
	}
	return out
}

// alphas recovers the MAC keys of a query by evaluating both keys at the input.
func alphas(t *rapid.T, qs [][]byte, in []bool) []uint32 {
	sum := make([]uint64, words)
	for k := range qs {
		var q query.FSS
		if err := gob.NewDecoder(bytes.NewReader(qs[k])).Decode(&q); err != nil {
			hx.Broken("cannot decode an honest query: %v", err)
		}
		out := make([]uint32, words)
		fss.ServerInitialize(words).EvaluatePF(byte(k), q.FssKey, in, out)
		for i := range sum {
			sum[i] = (sum[i] + uint64(out[i])) % p
		}
	}
	out := make([]uint32, words)
	for i := range sum {
		out[i] = uint32(sum[i])
	}
	return out
}

type session struct {
	db    *database.DB
	pr    *gen.Pred
	cl    *client.PredicateAPIR
	sv    [2]*server.PredicateAPIR
	qs    [][]byte
	ans   [2][]byte
	truth string // "" when the true outcome is an error
	year  int
}

func setup(t *rapid.T, s *hx.Stream) *session {
	se := &session{db: gen.KeysDB(t, s, 25)}
	se.pr = gen.NewPred(t, s, se.db, "p")
	se.cl = client.NewPredicateAPIR(s, &se.db.Info)
	se.sv = [2]*server.PredicateAPIR{server.NewPredicateAPIR(se.db, 0), server.NewPredicateAPIR(se.db, 1)}
	in, err := se.pr.Q.Encode()
	if err != nil {
		t.Fatalf("%v", err)
	}
	if se.qs, err = se.cl.QueryBytes(in, 2); err != nil {
		t.Fatalf("%v", err)
	}
	se.year = time.Now().UTC().Year()
	for k := range se.ans {
		if se.ans[k], err = se.sv[k].AnswerBytes(se.qs[k]); err != nil {
			t.Fatalf("%v", err)
		}
	}
	n, sum := se.pr.Plain(se.db, se.year)
	switch {
	case !se.pr.Avg:
		se.truth = fmt.Sprint(n)
	case n > 0:
		se.truth = fmt.Sprint(sum / n)
	}
	return se
}

// avgSumFirst tells the order of the two halves of an answer for an average.
func (se *session) avgSumFirst(t *rapid.T) bool {
	a, b := dec(se.ans[0]), dec(se.ans[1])
	n, sum := se.pr.Plain(se.db, se.year)
	return (uint64(a[0])+uint64(b[0]))%p == sum && n != sum
}

func cheat(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	se := setup(t, s)
	bad := rapid.IntRange(0, 1).Draw(t, "cheater")
	orig := append([]byte{}, se.ans[bad]...)
	w := dec(orig)
	add := func(i int, v uint64) { w[i] = uint32((uint64(w[i]) + v%p) % p) }
	rnd := func() uint64 {
		switch s.Intn(4) {
		case 0:
			return 1
		case 1:
			return p - 1
		case 2:
			return uint64(1 + s.Intn(5))
		}
		return 1 + s.U64()%(p-1)
	}
	name := ""
	raw := false
	kind := rapid.IntRange(0, 23).Draw(t, "strategy")
	group := 0 // count words or, for averages, sum words
	if len(w) > words {
		group = words * rapid.IntRange(0, 1).Draw(t, "half")
	}
	switch kind {
	case 0:
		name = "data word"
		add(group, rnd())
	case 1:
		name = "one tag word"
		add(group+1+s.Intn(words-1), rnd())
	case 2:
		name = "same error on data and tags"
		d := rnd()
		for i := 0; i < words; i++ {
			add(group+i, d)
		}
	case 3:
		name = "random words"
		for i := range w {
			if s.Intn(2) == 0 {
				w[i] = uint32(s.U64() % p)
			}
		}
	case 4:
		name = "data word and guessed tags"
		d, a := rnd(), s.U64()%p
		add(group, d)
		for i := 1; i < words; i++ {
			add(group+i, d*a)
		}
	case 5, 6:
		name = "tags for all MAC keys but one"
		al := alphas(t, se.qs, se.pr.Q.Input)
		miss := 1 + s.Intn(words-1)
		d := rnd()
		add(group, d)
		for i := 1; i < words; i++ {
			if i != miss {
				add(group+i, d*uint64(al[i]))
			}
		}
		name += fmt.Sprintf(" (%d)", miss)
	case 7:
		name = "tags swapped among MAC keys"
		al := alphas(t, se.qs, se.pr.Q.Input)
		d := rnd()
		add(group, d)
		for i := 1; i < words; i++ {
			add(group+i, d*uint64(al[1+i%(words-1)]))
		}
	case 8:
		name = "zeros"
		for i := range w {
			w[i] = 0
		}
	case 9:
		name = "all words doubled or negated"
		m := []uint64{2, p - 1, s.U64() % p}[s.Intn(3)]
		for i := range w {
			w[i] = uint32(uint64(w[i]) * m % p)
		}
	case 10:
		name = "truncated"
		se.ans[bad] = orig[:s.Intn(len(orig))]
		raw = true
	case 11:
		name = "extended"
		se.ans[bad] = append(append([]byte{}, orig...), s.Bytes(1+s.Intn(50))...)
		raw = true
	case 12:
		name = "empty"
		se.ans[bad] = [][]byte{nil, {}}[s.Intn(2)]
		raw = true
	case 13:
		name = "doubled (a count made to look like an average) or halved"
		if len(w) == words {
			se.ans[bad] = append(append([]byte{}, orig...), orig...)
		} else {
			se.ans[bad] = orig[group*4 : group*4+words*4]
		}
		raw = true
	case 14:
		name = "the honest server's answer"
		w = dec(se.ans[1-bad])
	case 15:
		name = "words reordered"
		for i := range w {
			j := s.Intn(i + 1)
			w[i], w[j] = w[j], w[i]
		}
	case 16:
		name = "answer on another database"
		db2 := *se.db
		db2.KeysInfo = append([]*database.KeyInfo{}, se.db.KeysInfo...)
		for i := 0; i < 1+s.Intn(3); i++ {
			if n := len(db2.KeysInfo); n > 0 && s.Intn(2) == 0 {
				db2.KeysInfo = db2.KeysInfo[:n-1]
			} else {
				db2.KeysInfo = append(db2.KeysInfo, &database.KeyInfo{UserId: gen.SomeUser(s, se.db), CreationTime: time.Date(2018, 5, 5, 0, 0, 0, 0, time.UTC), PubKeyAlgo: 1})
			}
		}
		db2.NumColumns = len(db2.KeysInfo)
		se.ans[bad], _ = server.NewPredicateAPIR(&db2, byte(bad)).AnswerBytes(se.qs[bad])
		raw = true
	case 17:
		name = "answer to an earlier query of this client"
		in, _ := se.pr.Q.Encode()
		old := append([]byte{}, orig...)
		qs, err := se.cl.QueryBytes(in, 2)
		if err != nil {
			t.Fatalf("%v", err)
		}
		if se.ans[1-bad], err = se.sv[1-bad].AnswerBytes(qs[1-bad]); err != nil {
			t.Fatalf("%v", err)
		}
		se.ans[bad] = old
		raw = true
	case 18:
		name = "answer to another query"
		p2 := gen.NewPred(t, s, se.db, "p2")
		in, _ := p2.Q.Encode()
		qs, err := client.NewPredicateAPIR(s, &se.db.Info).QueryBytes(in, 2)
		if err != nil {
			t.Fatalf("%v", err)
		}
		if se.ans[bad], err = se.sv[bad].AnswerBytes(qs[bad]); err != nil {
			t.Fatalf("%v", err)
		}
		raw = true
	case 19:
		name = "non-canonical words"
		for i := range w {
			switch s.Intn(3) {
			case 0:
				w[i] += field.ModP // stays below 2^32, congruent
			case 1:
				w[i] |= 1 << 31
			}
		}
	}
	if kind >= 20 {
		// the cheater knows the database and the query, hence the sums, and
		// moves them to values of its choice without touching the tags
		n, sum := se.pr.Plain(se.db, se.year)
		truth := []uint64{n}
		if len(w) > words {
			truth = []uint64{n, sum}
			if se.avgSumFirst(t) {
				truth = []uint64{sum, n}
			}
		}
		name = "sums moved to"
		which := s.Intn(len(truth) + 1)
		for i, v := range truth {
			if which < len(truth) && i != which {
				continue
			}
			to := []uint64{0, 1, p - 1, 2 * v, v + 1, v + p - 1, s.U64()}[s.Intn(7)] % p
			add(words*i, to+p-v)
			name += fmt.Sprintf(" %d->%d", v, to)
		}
	}
	if !raw {
		se.ans[bad] = enc(w)
	}
	c.Case("%d keys, %s = %q, server %d: %s tape=%x", len(se.db.KeysInfo), se.pr.Desc, se.truth, bad, name, s.U64())
	c.NonTrivialIf(!bytes.Equal(se.ans[bad], orig) || kind == 17)
	c.Class(fmt.Sprintf("s%02d", kind))
	got, err := se.cl.ReconstructBytes(se.ans[:])
	if time.Now().UTC().Year() != se.year {
		return
	}
	if err != nil {
		c.Class("rejected")
		return
	}
	c.Class("accepted")
	if fmt.Sprint(got) != se.truth || se.truth == "" {
		t.Fatalf("%d keys, %s: server %d returned %s (%x instead of %x): client outputs %v instead of %q",
			len(se.db.KeysInfo), se.pr.Desc, bad, name, se.ans[bad], orig, got, se.truth)
	}
}

// keysMatter checks that the MAC really uses independent random keys: tags are
// the data times keys that differ, are not small and change with every query.
func keysMatter(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	se := setup(t, s)
	al := alphas(t, se.qs, se.pr.Q.Input)
	c.Case("%d keys, %s, MAC keys %v", len(se.db.KeysInfo), se.pr.Desc, al)
	c.NonTrivial()
	if al[0] != 1 {
		t.Fatalf("data word is scaled by %d", al[0])
	}
	in, _ := se.pr.Q.Encode()
	for r := 0; r < 3; r++ {
		same, small := 0, 0
		qs, err := se.cl.QueryBytes(in, 2)
		if err != nil {
			t.Fatalf("%v", err)
		}
		a2 := alphas(t, qs, se.pr.Q.Input)
		for i := 1; i < words; i++ {
			for j := 1; j < words; j++ {
				if a2[i] == al[j] {
					same++
				}
				if j < i && a2[i] == a2[j] {
					same++
				}
			}
			if a2[i] < 1<<16 || a2[i] > field.ModP-1<<16 {
				small++
			}
		}
		if same > 1 || small > 2 { // one coincidence has probability below 2^-26
			t.Fatalf("MAC keys %v after %v are not fresh, independent and random", a2[1:], al[1:])
		}
		al = a2
	}
}
