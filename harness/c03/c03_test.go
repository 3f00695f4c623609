package c03

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"

	"aaverif/gen"
	"aaverif/hx"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	hx.Main(m, hx.Meta{ID: "C03",
		Rule:        "random authenticated databases, 2-5 servers of which n-1 cheat by one of the listed strategies (additive bit/byte errors, replaced, truncated, extended, empty answers, answers to other queries or on other databases, errors that turn the requested block into another genuine block or into a forged block with manipulated proof, header, index, padding or record boundary; blocks of related indices of databases above 2^16 records); non-trivial when the combined answers differ from the honest ones",
		Assumptions: []string{"cheating servers know the database, the requested index (worst case) and see their own queries only"}})
}

func TestProps(t *testing.T) {
	hx.Run(t, "cheat", 8000, 150000, cheat)
	hx.Run(t, "cheat-long-records", 40, 800, long)
	hx.Run(t, "cheat-many-records", 6, 150, wide)
	hx.Run(t, "related-indices", 4, 100, related)
}

func xor(a, b []byte) []byte {
	out := append([]byte{}, a...)
	for i := range b {
		if i < len(out) {
			out[i] ^= b[i]
		}
	}
	return out
}

// pad fits a forged block into the block size.
func pad(b []byte, n int) []byte {
	out := make([]byte, n)
	copy(out, b)
	return out
}

func cheat(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	m, desc := gen.NewMerkle(t, s, 24)
	cheatOn(t, c, s, m, desc)
}

func long(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	m, desc := gen.NewMerkleLong(t, s)
	for k := 0; k < 10; k++ {
		cheatOn(t, c, s, m, desc)
	}
}

// wide cheats on databases of many records, among others with the record whose
// index differs in one bit.
func wide(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	m, desc := gen.NewMerkleWide(t, s)
	for k := 0; k < 25; k++ {
		cheatOn(t, c, s, m, desc)
	}
}

// related replaces a record of a large database with the genuine block of every
// index that differs in one bit, in one byte or by a multiple of a power of two.
func related(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	rows := rapid.SampledFrom([]int{1, 1, 2, 5}).Draw(t, "rows")
	cols := rapid.IntRange(65537, 140000).Draw(t, "records")/rows + 1
	m, desc := gen.NewMerkleOf(s, rows, cols, rapid.IntRange(3, 6).Draw(t, "reclen"))
	db, bs, total := m.DB, m.DB.BlockSize, rows*cols
	n := rapid.IntRange(2, 3).Draw(t, "servers")
	srv := gen.Servers(t, db, n)
	c.Case("%s servers=%d tape=%x", desc, n, s.U64())
	c.NonTrivial()
	for q := 0; q < 6; q++ {
		idx := []int{s.Intn(total - 65536), 65536 + s.Intn(total-65536), s.Intn(total)}[q%3]
		cl := cl2(s, db)
		qs, err := cl.QueryBytes(gen.Index(idx), n)
		if err != nil {
			t.Fatalf("query: %v", err)
		}
		ans := make([][]byte, n)
		for k := range ans {
			if ans[k], err = srv[k].AnswerBytes(qs[k]); err != nil {
				t.Fatalf("server: %v", err)
			}
		}
		others := map[int]bool{}
		for b := uint(0); b < 18; b++ {
			others[idx^1<<b], others[idx+1<<b], others[idx-1<<b] = true, true, true
			others[idx&^(255<<b)], others[idx&(1<<b-1)] = true, true
		}
		bad, at := s.Intn(n), idx/cols*bs
		for o := 0; o < total; o++ {
			if !others[o] || o == idx || bytes.Equal(m.Want[o], m.Want[idx]) {
				continue
			}
			a2 := make([][]byte, n)
			for k := range ans {
				a2[k] = append([]byte{}, ans[k]...)
			}
			copy(a2[bad][at:], xor(ans[bad][at:at+bs], xor(m.Block(idx), m.Block(o))))
			res, err := cl.ReconstructBytes(a2)
			if err != nil {
				continue
			}
			if got, ok := res.([]byte); !ok || !bytes.Equal(m.Get(got), m.Want[idx]) {
				t.Fatalf("%s, index %d: accepted the record of index %d", desc, idx, o)
			}
		}
	}
}

func cheatOn(t *rapid.T, c *hx.C, s *hx.Stream, m *gen.Merkle, desc string) {
	db := m.DB
	bs, rows, cols := db.BlockSize, db.NumRows, db.NumColumns
	total := rows * cols
	n := rapid.SampledFrom([]int{2, 2, 3, 4, 5}).Draw(t, "servers")
	honest := rapid.IntRange(0, n-1).Draw(t, "honest")
	idx := gen.PickIndex(t, rows, cols, "idx")
	c.Case("%s servers=%d honest=%d idx=%d", desc, n, honest, idx)
	srv := gen.Servers(t, db, n)
	cl := client.NewPIR(s, gen.RemoteInfo(&db.Info))
	qs, err := cl.QueryBytes(gen.Index(idx), n)
	if err != nil {
		t.Fatalf("query: %v", err)
	}
	ans := make([][]byte, n)
	for k := range ans {
		if ans[k], err = srv[k].AnswerBytes(qs[k]); err != nil {
			t.Fatalf("server: %v", err)
		}
	}
	orig := make([][]byte, n)
	for k := range ans {
		orig[k] = append([]byte{}, ans[k]...)
	}
	bad := (honest + 1 + rapid.IntRange(0, n-2).Draw(t, "cheater")) % n
	row, col := idx/cols, idx%cols
	cur := m.Block(idx)
	pl := db.ProofLen
	end := len(bytes.TrimRight(cur, "\x00")) // incl. signal byte
	dataLen := end - 1 - pl
	// add changes the combined answer of a row by e, split over the cheaters
	add := func(r int, e []byte) {
		for k := range ans {
			if k != honest && k != bad && s.Intn(2) == 0 {
				p := s.Bytes(len(e))
				ans[k] = append(append(append([]byte{}, ans[k][:r*bs]...), xor(ans[k][r*bs:(r+1)*bs], p)...), ans[k][(r+1)*bs:]...)
				e = xor(e, p)
			}
		}
		ans[bad] = append(append(append([]byte{}, ans[bad][:r*bs]...), xor(ans[bad][r*bs:(r+1)*bs], e)...), ans[bad][(r+1)*bs:]...)
	}
	forge := func(b []byte) { add(row, xor(cur, pad(b, bs))) }
	data := append([]byte{}, cur[:dataLen]...)
	proof := append([]byte{}, cur[dataLen:end-1]...)
	otherIdx := rapid.IntRange(0, total-1).Draw(t, "other")
	if rapid.Bool().Draw(t, "other-bit") {
		if o := idx ^ 1<<uint(s.Intn(17)); o < total {
			otherIdx = o
		}
	}
	kind := rapid.IntRange(0, 23).Draw(t, "strategy")
	name := ""
	switch kind {
	case 0:
		name = "bit flip in the row"
		e := make([]byte, bs)
		p := rapid.IntRange(0, 8*bs-1).Draw(t, "bit")
		e[p/8] ^= 1 << (p % 8)
		add(row, e)
	case 1:
		name = "bit flip anywhere"
		e := make([]byte, bs)
		p := rapid.IntRange(0, 8*bs-1).Draw(t, "bit")
		e[p/8] ^= 1 << (p % 8)
		add(rapid.IntRange(0, rows-1).Draw(t, "row"), e)
	case 2:
		name = "random answers"
		ans[bad] = s.Bytes(len(ans[bad]))
	case 3:
		name = "zero answer"
		ans[bad] = make([]byte, len(ans[bad]))
	case 4:
		name = "answers of all cheaters replaced"
		for k := range ans {
			if k != honest {
				ans[k] = s.Bytes(len(ans[k]))
			}
		}
	case 5:
		name = "truncated"
		ans[bad] = ans[bad][:rapid.IntRange(0, len(ans[bad])-1).Draw(t, "len")]
	case 6:
		name = "extended"
		ans[bad] = append(append([]byte{}, ans[bad]...), s.Bytes(1+s.Intn(2*bs))...)
	case 7:
		name = "empty"
		ans[bad] = nil
	case 8:
		name = "answer to another query"
		q2, _ := cl2(s, db).QueryBytes(gen.Index(otherIdx), n)
		ans[bad], _ = srv[bad].AnswerBytes(q2[bad])
	case 9:
		name = "answer on another database"
		db2 := *db
		db2.Entries = append([]byte{}, db.Entries...)
		for k := 0; k <= s.Intn(4); k++ {
			db2.Entries[s.Intn(len(db2.Entries))] ^= byte(1 + s.Intn(255))
		}
		ans[bad], _ = gen.Servers(t, &db2, n)[bad].AnswerBytes(qs[bad])
	case 10, 11:
		name = fmt.Sprintf("genuine block of index %d", otherIdx)
		forge(m.Block(otherIdx))
	case 12:
		name = "genuine block of index in the same column or row"
		j := s.Intn(rows)*cols + col
		if s.Intn(2) == 0 {
			j = row*cols + s.Intn(cols)
		}
		forge(m.Block(j))
	case 13:
		name = "other record with the proof of the requested one"
		ob := m.Block(otherIdx)
		oe := len(bytes.TrimRight(ob, "\x00"))
		forge(append(append(append([]byte{}, ob[:oe-1-pl]...), proof...), 0x80))
	case 14:
		name = "modified record with the genuine proof"
		if len(data) > 0 {
			data[s.Intn(len(data))] ^= byte(1 + s.Intn(255))
		} else {
			data = []byte{1}
		}
		forge(append(append(data, proof...), 0x80))
	case 15:
		name = "record and proof boundary moved"
		k := 1 + s.Intn(4)
		nd := append([]byte{}, data...)
		if s.Intn(2) == 0 {
			nd = append(nd, proof[:min(k, len(proof))]...)
		} else if len(nd) > k {
			nd = nd[:len(nd)-k]
		}
		forge(append(append(nd, proof...), 0x80))
	case 16:
		name = "fewer hashes in the proof"
		nh := int(binary.LittleEndian.Uint32(proof))
		binary.LittleEndian.PutUint32(proof, uint32(s.Intn(nh+1)))
		forge(append(append(data, proof...), 0x80))
	case 17:
		name = "extreme number of hashes in the proof"
		binary.LittleEndian.PutUint32(proof, []uint32{0, 1, 0xffffffff, 0x80000000, 0x08000000, uint32(s.U64())}[s.Intn(6)])
		forge(append(append(data, proof...), 0x80))
	case 18:
		name = "claimed index changed"
		binary.LittleEndian.PutUint32(proof[len(proof)-4:], []uint32{uint32(otherIdx), 0xffffffff, uint32(idx + total), uint32(s.U64())}[s.Intn(4)])
		forge(append(append(data, proof...), 0x80))
	case 19:
		name = "inner node as record"
		// the record is the concatenation of two nodes, the proof is that of
		// their parent
		if nh := int(binary.LittleEndian.Uint32(proof)); nh > 0 {
			sib := proof[4:36]
			forgeInner(forge, s, sib, proof, bs)
		}
	case 20:
		name = "garbage after the padding byte or other padding"
		b := append(append([]byte{}, data...), proof...)
		b = append(b, [][]byte{{0}, {0x81}, {1}, {0x80, 0x80}, {0x80, 0, 0x80}, {}, {0xff}}[s.Intn(7)]...)
		if len(b) <= bs {
			forge(b)
		}
	case 21:
		name = "short block"
		forge(s.Bytes(s.Intn(min(bs, pl+2) + 1)))
	case 22:
		name = "all-zero block"
		forge(nil)
	case 23:
		name = "answers of two cheaters swapped or replayed"
		k2 := (bad + 1) % n
		if k2 == honest {
			ans[bad] = append([]byte{}, ans[honest]...)
		} else {
			ans[bad], ans[k2] = ans[k2], ans[bad]
			if s.Intn(2) == 0 {
				ans[bad] = append([]byte{}, ans[k2]...)
			}
		}
	}
	c.More("strategy: %s tape=%x", name, s.U64())
	changed := false
	for k := range ans {
		if k == honest && !bytes.Equal(ans[k], orig[k]) {
			t.Fatalf("harness: honest answer changed")
		}
		changed = changed || !bytes.Equal(ans[k], orig[k])
	}
	c.NonTrivialIf(changed)
	c.Class(fmt.Sprintf("s%02d", kind))
	if rapid.IntRange(0, 3).Draw(t, "order") == 0 {
		p := gen.Perm(t, n, "perm")
		a2 := make([][]byte, n)
		for k := range p {
			a2[p[k]] = ans[k]
		}
		ans = a2
	}
	res, err := cl.ReconstructBytes(ans)
	if err != nil {
		c.Class("rejected")
		return
	}
	b, ok := res.([]byte)
	if !ok {
		t.Fatalf("result of type %T", res)
	}
	if got := m.Get(b); !bytes.Equal(got, m.Want[idx]) {
		t.Fatalf("%s, index %d, %s: accepted %x instead of %x", desc, idx, name, got, m.Want[idx])
	}
	if m.Key && !(len(m.Want[idx]) == 0 && len(b) == 0) && (len(b) == 0 || b[len(b)-1] != 0x80) {
		t.Fatalf("%s, index %d, %s: accepted a bucket with altered padding: %x", desc, idx, name, b)
	}
	c.Class("accepted")
}

func cl2(s *hx.Stream, db *database.Bytes) *client.PIR {
	return client.NewPIR(s, gen.RemoteInfo(&db.Info))
}

// forgeInner tries records made of two sibling hashes with a shortened proof.
func forgeInner(forge func([]byte), s *hx.Stream, sib, proof []byte, bs int) {
	nh := int(binary.LittleEndian.Uint32(proof))
	rec := append(append([]byte{}, sib...), sib[:28]...)
	np := make([]byte, 4)
	binary.LittleEndian.PutUint32(np, uint32(nh-1))
	np = append(np, proof[36:4+32*nh]...)
	np = append(np, sib[28:]...)
	b := append(append(rec, np...), 0x80)
	if len(b) <= bs {
		forge(b)
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
