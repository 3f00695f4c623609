package c01

import (
	"bytes"
	"testing"

	"aaverif/gen"
	"aaverif/hx"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/server"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	hx.Main(m, hx.Meta{ID: "C01",
		Rule:        "random record databases (vector/square/rectangular, fixed and variable record lengths, boundary-biased shapes, some with more than 2^16 and 2^24 columns), 2-8 servers, sequences of retrievals with one client, answers permuted; a case is non-trivial when the database has at least two distinct records and at least one retrieved record has a non-zero byte",
		Assumptions: []string{"for two servers the servers are created for the two-server scheme, otherwise for the multi-server scheme, as the callers do"}})
}

func TestProps(t *testing.T) {
	hx.Run(t, "retrieve", 20000, 300000, retrieve)
	hx.Run(t, "large", 400, 4000, large)
	hx.Run(t, "long-records", 150, 3000, long)
	hx.Run(t, "many-records", 6, 150, many)
	hx.Run(t, "wide-rows", 6, 100, func(t *rapid.T, c *hx.C) { wideRows(t, c, 65537, 140000) })
	hx.Run(t, "very-wide-rows", 1, 6, func(t *rapid.T, c *hx.C) { wideRows(t, c, 1<<24+1, 1<<24+300) })
	hx.Run(t, "random-db", 2000, 20000, randomDB)
}

func distinct(rs [][]byte) bool {
	for _, r := range rs[1:] {
		if !bytes.Equal(r, rs[0]) {
			return true
		}
	}
	return false
}

func nonzero(b []byte) bool {
	for _, x := range b {
		if x != 0 {
			return true
		}
	}
	return false
}

// session lets one to three clients query the servers. In every round all of
// them are answered before any of them reconstructs.
func session(t *rapid.T, c *hx.C, s *hx.Stream, recs *gen.Records, db *database.Bytes, n int) {
	srv := gen.Servers(t, db, n)
	cls := make([]*client.PIR, rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "clients"))
	for i := range cls {
		cls[i] = client.NewPIR(s, gen.RemoteInfo(&db.Info))
	}
	k := rapid.IntRange(1, 4).Draw(t, "retrievals")
	orig := append([]byte{}, db.Entries...)
	useBytes := rapid.Bool().Draw(t, "bytes-api")
	for q := 0; q < k; q++ {
		idxs := make([]int, len(cls))
		answers := make([][][]byte, len(cls))
		for i, cl := range cls {
			idxs[i] = gen.PickIndex(t, recs.Rows, recs.Cols, "idx")
			c.More("idx %d", idxs[i])
			answers[i] = ask(t, cl, srv, idxs[i], n, useBytes)
		}
		for i, cl := range cls {
			idx := idxs[i]
			var got []byte
			var err error
			if useBytes {
				res, err := cl.ReconstructBytes(answers[i])
				if err != nil {
					t.Fatalf("reconstruction of index %d failed: %v", idx, err)
				}
				got = res.([]byte)
			} else {
				got, err = cl.Reconstruct(answers[i])
				if err != nil {
					t.Fatalf("reconstruction of index %d failed: %v", idx, err)
				}
			}
			if !bytes.Equal(got, recs.Padded(idx)) {
				t.Fatalf("index %d of %v, %d servers, client %d of %d: got %x want %x", idx, recs, n, i, len(cls), got, recs.Padded(idx))
			}
			c.NonTrivialIf(nonzero(got) && distinct(recs.Recs))
		}
	}
	if !bytes.Equal(orig, db.Entries) {
		t.Fatalf("answering modified the database")
	}
}

// ask returns the answers of all the servers, in any order.
func ask(t *rapid.T, cl *client.PIR, srv []*server.PIR, idx, n int, useBytes bool) [][]byte {
	var queries [][]byte
	var err error
	if useBytes {
		queries, err = cl.QueryBytes(gen.Index(idx), n)
	} else {
		queries = cl.Query(idx, n)
	}
	if err != nil {
		t.Fatalf("query for index %d with %d servers failed: %v", idx, n, err)
	}
	if len(queries) != n {
		t.Fatalf("%d queries for %d servers", len(queries), n)
	}
	answers := make([][]byte, n)
	perm := gen.Perm(t, n, "order")
	for k, p := range perm {
		qc := append([]byte{}, queries[k]...)
		a, err := srv[k].AnswerBytes(queries[k])
		if err != nil {
			t.Fatalf("server %d: %v", k, err)
		}
		if !bytes.Equal(qc, queries[k]) {
			t.Fatalf("server %d modified the query it was given", k)
		}
		answers[p] = a
	}
	return answers
}

func retrieve(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	recs := gen.Recs(t, s, 300, 70)
	n := rapid.SampledFrom([]int{2, 2, 3, 3, 4, 5, 8}).Draw(t, "servers")
	c.Case("%v servers=%d", recs, n)
	if n == 2 {
		c.Class("two-server")
	} else {
		c.Class("multi-server")
	}
	if recs.Rows > 1 {
		c.Class("matrix")
	}
	session(t, c, s, recs, recs.Bytes(), n)
}

// long vectors: deep distributed-point-function trees, long share vectors
func large(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	recs := &gen.Records{Rows: rapid.IntRange(1, 2).Draw(t, "rows")}
	recs.Cols = hx.Size(t, "cols", 513, 9000, 1024, 2048, 4096, 8192)
	l := rapid.IntRange(1, 9).Draw(t, "reclen")
	recs.BlockSize = l
	recs.Recs = make([][]byte, recs.Rows*recs.Cols)
	for i := range recs.Recs {
		recs.Recs[i] = s.Bytes(l)
	}
	n := rapid.SampledFrom([]int{2, 2, 2, 3, 6}).Draw(t, "servers")
	c.Case("%v servers=%d", recs, n)
	session(t, c, s, recs, recs.Bytes(), n)
}

// long records: several bytes of length
func long(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	recs := &gen.Records{Rows: rapid.IntRange(1, 4).Draw(t, "rows"), Cols: rapid.IntRange(1, 9).Draw(t, "cols")}
	l := hx.Size(t, "reclen", 70, 70000, 255, 256, 65535, 65536)
	variable := rapid.Bool().Draw(t, "variable")
	recs.Recs = make([][]byte, recs.Rows*recs.Cols)
	for i := range recs.Recs {
		n := l
		if variable {
			n = s.Intn(l + 1)
		}
		recs.Recs[i] = gen.Content(t, s, n)
		if n > recs.BlockSize {
			recs.BlockSize = n
		}
	}
	if recs.BlockSize == 0 {
		recs.BlockSize = 1
	}
	n := rapid.SampledFrom([]int{2, 2, 3, 9, 33}).Draw(t, "servers")
	c.Case("%v servers=%d", recs, n)
	session(t, c, s, recs, recs.Bytes(), n)
}

// many records, in one row or in many
func many(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	recs := &gen.Records{Rows: rapid.SampledFrom([]int{1, 1, 2, 257, 1000, 66000}).Draw(t, "rows")}
	recs.Cols = 1 + hx.Size(t, "records", 60000, 300000, 65535, 65536, 131072, 262144)/recs.Rows
	l := rapid.IntRange(1, 3).Draw(t, "reclen")
	recs.BlockSize = l
	data := s.Bytes(l * recs.Rows * recs.Cols)
	recs.Recs = make([][]byte, recs.Rows*recs.Cols)
	for i := range recs.Recs {
		recs.Recs[i] = data[i*l : (i+1)*l]
	}
	n := rapid.SampledFrom([]int{2, 2, 3, 4}).Draw(t, "servers")
	c.Case("%v servers=%d", recs, n)
	session(t, c, s, recs, recs.Bytes(), n)
}

// databases made by the repository's own random generator
func randomDB(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	rows, cols := gen.Shape(t, 200)
	l := rapid.IntRange(1, 40).Draw(t, "reclen")
	db := database.CreateRandomBytes(s, 8*rows*cols*l, rows, l)
	if db.NumRows != rows || db.NumColumns != cols || len(db.Entries) != rows*cols*l {
		t.Fatalf("random database of %dx%d records of %d bytes has shape %dx%d with %d bytes", rows, cols, l, db.NumRows, db.NumColumns, len(db.Entries))
	}
	recs := &gen.Records{Rows: rows, Cols: cols, BlockSize: l}
	for i := 0; i < rows*cols; i++ {
		recs.Recs = append(recs.Recs, append([]byte{}, db.Entries[i*l:(i+1)*l]...))
	}
	n := rapid.SampledFrom([]int{2, 3, 4}).Draw(t, "servers")
	c.Case("random %v servers=%d", recs, n)
	session(t, c, s, recs, db, n)
}

// rows of more than 65536 records, of which those around every power of two are
// retrieved, by two servers and by more
func wideRows(t *rapid.T, c *hx.C, min, max int) {
	s := hx.Tape(t)
	rows := 1
	if max < 1<<20 {
		rows = rapid.IntRange(1, 3).Draw(t, "rows")
	}
	cols := hx.Size(t, "cols", min, max, 65537, 131071, 131072, 131073)
	l := 1
	if max < 1<<20 {
		l = rapid.IntRange(1, 3).Draw(t, "reclen")
	}
	db := database.InitBytes(rows, cols, l)
	db.Entries = s.Bytes(rows * cols * l)
	for i := range db.BlockLengths {
		db.BlockLengths[i] = l
	}
	c.Case("%dx%d records of %d bytes", rows, cols, l)
	c.NonTrivial()
	for _, n := range []int{2, 3} {
		srv := gen.Servers(t, db, n)
		cl := client.NewPIR(s, gen.RemoteInfo(&db.Info))
		at := []int{cols - 1, s.Intn(cols), 65535, 65536}
		for p := 1 << 17; p < cols; p *= 2 {
			at = append(at, p, p-1)
		}
		if max > 1<<20 {
			at = []int{cols - 1, 1 << 24}
		}
		for _, j := range at {
			idx := s.Intn(rows)*cols + j
			c.More("%d", idx)
			got, err := cl.ReconstructBytes(ask(t, cl, srv, idx, n, true))
			if err != nil {
				t.Fatalf("reconstruction of index %d failed: %v", idx, err)
			}
			if want := db.Entries[idx*l : (idx+1)*l]; !bytes.Equal(got.([]byte), want) {
				t.Fatalf("index %d of %dx%d, %d servers: got %x want %x", idx, rows, cols, n, got, want)
			}
		}
	}
}
