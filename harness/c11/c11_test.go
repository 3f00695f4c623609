package c11

import (
	"bytes"
	"crypto"
	"fmt"
	"testing"

	"aaverif/gen"
	"aaverif/hx"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/server"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	hx.Main(m, hx.Meta{ID: "C11",
		Rule: "random bit databases (1-100 elements and some larger, to more than 2^16 in a row, vector and rebalanced, rows of zeros or ones, repeated rows) over all four groups, with sequences of retrievals by one client or several; digests compared with an independent computation; non-trivial when the database has bits of both values or an all-zero row"})
}

func TestProps(t *testing.T) {
	hx.Run(t, "retrieve", 1000, 15000, func(t *rapid.T, c *hx.C) { retrieve(t, c, 100) })
	hx.Run(t, "many-bits", 1, 10, func(t *rapid.T, c *hx.C) { shaped(t, c, 255+rapid.IntRange(3, 10).Draw(t, "rows"), 257) })
	hx.Run(t, "wide-rows", 1, 6, func(t *rapid.T, c *hx.C) { shaped(t, c, 1, 65536+rapid.IntRange(2, 100).Draw(t, "cols")) })
	hx.Run(t, "large", 20, 200, func(t *rapid.T, c *hx.C) { retrieve(t, c, 900) })
}

func retrieve(t *rapid.T, c *hx.C, max int) {
	s := hx.Tape(t)
	db, bits, desc := gen.Elliptic(t, s, max)
	c.Case("%s bits %v", desc, bits)
	ones := bytes.Count(bits, []byte{1})
	zeroRow := false
	for r := 0; r < db.NumRows; r++ {
		zeroRow = zeroRow || bytes.IndexByte(bits[r*db.NumColumns:(r+1)*db.NumColumns], 1) < 0
	}
	c.NonTrivialIf(ones > 0 && ones < len(bits) || zeroRow)
	c.Class(gen.GroupName(db.Group))
	if zeroRow {
		c.Class("zero row")
	}
	for i, b := range bits {
		if db.Entries[i] != b {
			t.Fatalf("%s: entry %d is %d, the randomness says %d", desc, i, db.Entries[i], b)
		}
	}
	digests(t, desc, db, bits)
	sv := server.NewDH(db)
	var cl *client.DH
	k := rapid.IntRange(1, 4).Draw(t, "retrievals")
	for q := 0; q < k; q++ {
		if cl == nil || rapid.Bool().Draw(t, "new client") {
			cl = client.NewDH(s, info(db))
		}
		idx := gen.PickIndex(t, db.NumRows, db.NumColumns, "idx")
		c.More("index %d", idx)
		qb, err := cl.QueryBytes(idx)
		if err != nil {
			t.Fatalf("%s index %d: %v", desc, idx, err)
		}
		a, err := sv.AnswerBytes(qb)
		if err != nil {
			t.Fatalf("%s index %d: server: %v", desc, idx, err)
		}
		if rapid.IntRange(0, 4).Draw(t, "between") == 0 { // another client is answered in between
			oq, err := client.NewDH(s, info(db)).QueryBytes(gen.PickIndex(t, db.NumRows, db.NumColumns, "other"))
			if err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
			if _, err := sv.AnswerBytes(oq); err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
		}
		got, err := cl.ReconstructBytes(a)
		if err != nil {
			t.Fatalf("%s index %d: honest answer rejected: %v", desc, idx, err)
		}
		if v, ok := got.(byte); !ok || v != bits[idx] {
			t.Fatalf("%s index %d: got %v, stored %d", desc, idx, got, bits[idx])
		}
	}
}

// info is a copy of what the client gets.
func info(db *database.Elliptic) *database.Info {
	i := db.Info
	a := *i.Auth
	a.Digest = append([]byte{}, a.Digest...)
	a.SubDigests = append([]byte{}, a.SubDigests...)
	i.Auth = &a
	return &i
}

// digests recomputes the row digests: the product of the hashes of the columns
// whose bit is set, and the hash of all row digests.
func digests(t *rapid.T, desc string, db *database.Elliptic, bits []byte) {
	got, err := database.UnmarshalGroupElements(db.SubDigests, db.Group, db.ElementSize)
	if err != nil {
		t.Fatalf("%s: row digests do not decode: %v", desc, err)
	}
	if len(got) != db.NumRows {
		t.Fatalf("%s: %d row digests for %d rows", desc, len(got), db.NumRows)
	}
	hs := make([]group.Element, db.NumColumns)
	for j := range hs {
		b := make([]byte, 8)
		for i := range b {
			b[i] = byte(uint64(j) >> uint(8*i))
		}
		hs[j] = db.Group.HashToElement(b, nil)
	}
	for r := range got {
		d := db.Group.Identity()
		for j := range hs {
			if bits[r*db.NumColumns+j] == 1 {
				d = db.Group.NewElement().Add(d, hs[j])
			}
		}
		if !d.IsEqual(got[r]) {
			t.Fatalf("%s: digest of row %d does not match its content", desc, r)
		}
	}
	h := crypto.BLAKE2b_256.New()
	h.Write(db.SubDigests)
	if !bytes.Equal(h.Sum(nil), db.Digest) {
		t.Fatalf("%s: global digest %x is not the hash of the row digests", desc, db.Digest)
	}
	if fmt.Sprint(db.Hash) != fmt.Sprint(crypto.BLAKE2b_256) {
		t.Fatalf("%s: hash %v", desc, db.Hash)
	}
}

// shaped retrieves from databases with more than 65536 bits, most of which are zero.
func shaped(t *rapid.T, c *hx.C, rows, cols int) {
	s := hx.Tape(t)
	g := group.Ristretto255
	n := rows * cols
	bits := make([]byte, n)
	for i := range bits {
		if i > n-40 || s.Intn(60) == 0 {
			bits[i] = byte(s.Intn(2))
		}
	}
	db := database.CreateRandomEllipticWithDigest(gen.NewFixed(append([]byte{}, bits...), s), n, g, false)
	if rows > 1 {
		// the generator makes squares only
		db = database.CreateRandomEllipticWithDigest(gen.NewFixed(make([]byte, 1), s), 1, g, false)
		db.Entries, db.NumRows, db.NumColumns = bits, rows, cols
		var els []group.Element
		hs := make([]group.Element, cols)
		for j := range hs {
			hs[j] = database.HashIndexToGroup(uint64(j), g)
		}
		for r := 0; r < rows; r++ {
			d := g.Identity()
			for j := range hs {
				if bits[r*cols+j] == 1 {
					d = g.NewElement().Add(d, hs[j])
				}
			}
			els = append(els, d)
		}
		sub, err := database.MarshalGroupElements(els, db.ElementSize)
		if err != nil {
			t.Fatalf("%v", err)
		}
		h := crypto.BLAKE2b_256.New()
		h.Write(sub)
		db.SubDigests, db.Digest = sub, h.Sum(nil)
	}
	c.Case("%dx%d", rows, cols)
	c.NonTrivial()
	for i, b := range bits {
		if db.Entries[i] != b {
			t.Fatalf("entry %d is %d, the randomness says %d", i, db.Entries[i], b)
		}
	}
	digests(t, fmt.Sprintf("%dx%d", rows, cols), db, bits)
	sv := server.NewDH(db)
	idxs := []int{n - 1 - s.Intn(20)}
	if rows > 1 {
		idxs = append(idxs, s.Intn(n), 65535, 65536)
	} else {
		idxs[0] = 65536 + s.Intn(cols-65536)
	}
	for _, idx := range idxs {
		c.More("%d", idx)
		cl := client.NewDH(s, info(db))
		qb, err := cl.QueryBytes(idx)
		if err != nil {
			t.Fatalf("index %d: %v", idx, err)
		}
		a, err := sv.AnswerBytes(qb)
		if err != nil {
			t.Fatalf("index %d: %v", idx, err)
		}
		got, err := cl.ReconstructBytes(a)
		if v, ok := got.(byte); err != nil || !ok || v != db.Entries[idx] {
			t.Fatalf("index %d of %dx%d: got %v, %v, stored %d", idx, rows, cols, got, err, db.Entries[idx])
		}
	}
}
