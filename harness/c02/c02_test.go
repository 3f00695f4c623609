package c02

import (
	"bytes"
	"testing"

	"aaverif/gen"
	"aaverif/hx"

	"github.com/si-co/vpir-code/lib/client"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	hx.Main(m, hx.Meta{ID: "C02",
		Rule:        "random authenticated databases (fixed-length records with chosen, repeated, empty-looking and padding-like contents; key directories with variable and empty buckets; vector and rebalanced; 1 to 400 records, some with more than 2^16), 2-5 servers, honest answers in random order, every index of small databases and sampled indices of larger ones; non-trivial when the database has more than one record",
		Assumptions: []string{"the record of a bucket of a key directory is what remains after removing the one padding byte the database adds"}})
}

func TestProps(t *testing.T) {
	hx.Run(t, "every-record", 1500, 20000, func(t *rapid.T, c *hx.C) { prop(t, c, 40) })
	hx.Run(t, "long-records", 40, 600, long)
	hx.Run(t, "many-records", 5, 100, wide)
	hx.Run(t, "wide-rows", 2, 30, func(t *rapid.T, c *hx.C) {
		s := hx.Tape(t)
		m, desc := gen.NewMerkleOf(s, 1+s.Intn(2), hx.Size(t, "cols", 65537, 80000, 65537, 66000), 1+s.Intn(3))
		retrieve(t, c, s, m, desc)
	})
	hx.Run(t, "larger", 60, 1200, func(t *rapid.T, c *hx.C) { prop(t, c, 400) })
}

func prop(t *rapid.T, c *hx.C, max int) {
	s := hx.Tape(t)
	m, desc := gen.NewMerkle(t, s, max)
	retrieve(t, c, s, m, desc)
}

func long(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	m, desc := gen.NewMerkleLong(t, s)
	retrieve(t, c, s, m, desc)
}

func wide(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	m, desc := gen.NewMerkleWide(t, s)
	retrieve(t, c, s, m, desc)
}

func retrieve(t *rapid.T, c *hx.C, s *hx.Stream, m *gen.Merkle, desc string) {
	n := rapid.SampledFrom([]int{2, 2, 3, 4, 5}).Draw(t, "servers")
	c.Case("%s servers=%d tape=%x", desc, n, s.U64())
	db := m.DB
	total := db.NumRows * db.NumColumns
	if total != len(m.Want) {
		t.Fatalf("%s: %d records for %dx%d", desc, len(m.Want), db.NumRows, db.NumColumns)
	}
	c.NonTrivialIf(total > 1)
	if m.Key {
		c.Class("key-directory")
	}
	if total&(total-1) != 0 {
		c.Class("not-power-of-two")
	}
	seen := map[string]bool{}
	for _, w := range m.Want {
		if seen[string(w)] {
			c.Class("duplicates")
			break
		}
		seen[string(w)] = true
	}
	srv := gen.Servers(t, db, n)
	cl := client.NewPIR(s, gen.RemoteInfo(&db.Info))
	var idxs []int
	if total <= 24 {
		for i := 0; i < total; i++ {
			idxs = append(idxs, i)
		}
	} else {
		for k := 0; k < 12; k++ {
			idxs = append(idxs, gen.PickIndex(t, db.NumRows, db.NumColumns, "idx"))
		}
		idxs = append(idxs, 0, total-1)
		for p := 1 << 15; p < total; p *= 2 {
			idxs = append(idxs, p-1, p)
		}
	}
	perm := gen.Perm(t, n, "order")
	for _, idx := range idxs {
		qs, err := cl.QueryBytes(gen.Index(idx), n)
		if err != nil || len(qs) != n {
			t.Fatalf("query %d: %v", idx, err)
		}
		ans := make([][]byte, n)
		for k, p := range perm {
			a, err := srv[k].AnswerBytes(qs[k])
			if err != nil {
				t.Fatalf("server %d: %v", k, err)
			}
			ans[p] = a
		}
		res, err := cl.ReconstructBytes(ans)
		if err != nil {
			t.Fatalf("%s, index %d with honest servers: %v", desc, idx, err)
		}
		b, ok := res.([]byte)
		if !ok {
			t.Fatalf("%s, index %d: result of type %T", desc, idx, res)
		}
		if got := m.Get(b); !bytes.Equal(got, m.Want[idx]) {
			t.Fatalf("%s, index %d: got %x, want %x", desc, idx, got, m.Want[idx])
		}
	}
}
