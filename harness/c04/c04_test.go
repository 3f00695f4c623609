package c04

import (
	"bytes"
	"fmt"
	"math"
	"testing"

	"aaverif/gen"
	"aaverif/hx"
	"aaverif/single"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"lukechampine.com/uint128"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	hx.Main(m, hx.Meta{ID: "C04",
		Rule:        "random authenticated databases and one fixed manipulation of a server's answer that does not look at the query (additive errors, errors between two genuine records, replaced, truncated, extended, permuted and scaled answers, answers on a changed database; databases of up to some thousand rows or columns included); the verdict with fresh queries is compared over indices that cover rows and columns; non-trivial when at least two indices are compared and the manipulation changes an answer",
		Assumptions: []string{"verdicts that are random (small noise, shares of a changed record) are compared by their rates over 300 trials; differences below 0.3 are not seen"}})
}

func TestProps(t *testing.T) {
	hx.Run(t, "merkle", 2500, 40000, merkleFixed)
	hx.Run(t, "merkle-database", 100, 1500, merkleDB)
	hx.Run(t, "merkle-many", 14, 250, merkleRows)
	hx.Run(t, "dh", 250, 4000, func(t *rapid.T, c *hx.C) { singleFixed(t, c, single.DH, 5) })
	hx.Run(t, "lwe", 3000, 40000, func(t *rapid.T, c *hx.C) { singleFixed(t, c, single.LWE, 10) })
	hx.Run(t, "lwe128", 500, 6000, func(t *rapid.T, c *hx.C) { singleFixed(t, c, single.LWE128, 7) })
	hx.Run(t, "amplify", 1000, 12000, func(t *rapid.T, c *hx.C) { singleFixed(t, c, single.Amplify, 7) })
	hx.Run(t, "large", 40, 400, large)
}

// indices picks at most n indices that cover rows and columns.
func indices(s *hx.Stream, rows, cols, n int) []int {
	var out []int
	if rows*cols <= n {
		for i := 0; i < rows*cols; i++ {
			out = append(out, i)
		}
		return out
	}
	seen := map[int]bool{}
	add := func(i int) {
		if !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
	}
	r0, c0 := s.Intn(rows), s.Intn(cols)
	for k := 0; len(out) < n; k++ {
		switch {
		case k < rows && k < n/2: // every row
			add((r0+k)%rows*cols + s.Intn(cols))
		case k < 2*n: // columns in turn
			add(s.Intn(rows)*cols + (c0+k)%cols)
		default:
			add(s.Intn(rows * cols))
		}
	}
	return out
}

// same compares the verdicts for the indices: run tells whether the client
// accepts, with fresh randomness every time.
func same(t *rapid.T, c *hx.C, desc string, idx []int, run func(i int) bool) {
	acc, rej := -1, -1
	for _, i := range idx {
		if run(i) {
			acc = i
		} else {
			rej = i
		}
	}
	switch {
	case rej < 0:
		c.Class("all accepted")
		return
	case acc < 0:
		c.Class("all rejected")
		return
	}
	c.Class("mixed")
	rates(t, c, desc, acc, rej, run)
}

func rates(t *rapid.T, c *hx.C, desc string, i, j int, run func(i int) bool) {
	const n = 300
	var a, b float64
	for k := 0; k < n; k++ {
		if run(i) {
			a += 1. / n
		}
		if run(j) {
			b += 1. / n
		}
	}
	if math.Abs(a-b) > 0.3 {
		t.Fatalf("%s: accepted for index %d at a rate of %.2f, for index %d at a rate of %.2f", desc, i, a, j, b)
	}
	if a > 0.1 && a < 0.9 {
		c.Class("random verdict")
	}
}

func xor(a, b []byte) {
	for i := range b {
		if i < len(a) {
			a[i] ^= b[i]
		}
	}
}

func merkleFixed(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	m, desc := gen.NewMerkle(t, s, 24)
	merkleOn(t, c, s, m, desc)
}

// merkleRows is merkleFixed on databases of many rows or columns.
func merkleRows(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	rows, cols := 1<<rapid.IntRange(4, 11).Draw(t, "magnitude")+rapid.IntRange(0, 100).Draw(t, "more"), rapid.IntRange(1, 4).Draw(t, "cols")
	if rapid.IntRange(0, 3).Draw(t, "vector") == 0 {
		rows, cols = cols, rows
	}
	m, desc := gen.NewMerkleOf(s, rows, cols, rapid.IntRange(1, 40).Draw(t, "reclen"))
	for k := 0; k < 5; k++ {
		merkleOn(t, c, s, m, desc)
	}
}

func merkleOn(t *rapid.T, c *hx.C, s *hx.Stream, m *gen.Merkle, desc string) {
	db := m.DB
	bs, rows, cols := db.BlockSize, db.NumRows, db.NumColumns
	n := rapid.SampledFrom([]int{2, 2, 3, 4}).Draw(t, "servers")
	bad := rapid.IntRange(0, n-1).Draw(t, "cheater")
	srv := gen.Servers(t, db, n)
	idx := indices(s, rows, cols, 14)
	r := s.Intn(rows)
	target := s.Intn(rows*cols) / cols * cols // row start, the column comes below
	target += s.Intn(cols)
	// the rows and columns that are changed matter most
	idx = append(idx, r*cols+s.Intn(cols), target, target/cols*cols+s.Intn(cols), s.Intn(rows)*cols+target%cols, (rows-1)*cols+target%cols)
	delta := make([]byte, bs)
	name := ""
	var f func(a []byte) []byte
	onRow := func(row int) func(a []byte) []byte {
		return func(a []byte) []byte { xor(a[row*bs:], delta); return a }
	}
	switch rapid.IntRange(0, 15).Draw(t, "manipulation") {
	case 0:
		name = "bit flip"
		p := s.Intn(8 * bs)
		delta[p/8] ^= 1 << uint(p%8)
		f = onRow(r)
	case 1:
		name = "random error in a row"
		delta = s.Bytes(bs)
		f = onRow(r)
	case 2:
		name = "error between two genuine blocks"
		copy(delta, m.Block(target))
		xor(delta, m.Block(s.Intn(rows*cols)))
		f = onRow(target / cols)
	case 3:
		name = "genuine block removed"
		copy(delta, m.Block(target))
		f = onRow(target / cols)
	case 4:
		name = "all rows get the same error"
		if s.Intn(2) == 0 {
			delta = s.Bytes(bs)
		} else {
			delta[s.Intn(bs)] = byte(1 + s.Intn(255))
		}
		f = func(a []byte) []byte {
			for i := 0; i < rows; i++ {
				xor(a[i*bs:], delta)
			}
			return a
		}
	case 5:
		name = "zero answer"
		f = func(a []byte) []byte { return make([]byte, len(a)) }
	case 6:
		name = "random answer"
		b := s.Bytes(rows * bs)
		f = func(a []byte) []byte { return b }
	case 7:
		name = "truncated"
		l := s.Intn(rows * bs)
		if s.Intn(2) == 0 {
			l = l / bs * bs
		}
		f = func(a []byte) []byte { return a[:l] }
	case 8:
		name = "extended"
		e := s.Bytes(1 + s.Intn(2*bs))
		f = func(a []byte) []byte { return append(a, e...) }
	case 9:
		name = "rows swapped"
		r2 := s.Intn(rows)
		f = func(a []byte) []byte {
			b := append([]byte{}, a...)
			copy(b[r*bs:(r+1)*bs], a[r2*bs:(r2+1)*bs])
			copy(b[r2*bs:(r2+1)*bs], a[r*bs:(r+1)*bs])
			return b
		}
	case 10:
		name = "one row zeroed"
		f = func(a []byte) []byte { copy(a[r*bs:(r+1)*bs], make([]byte, bs)); return a }
	case 11:
		name = "one row copied"
		r2 := s.Intn(rows)
		f = func(a []byte) []byte { copy(a[r*bs:(r+1)*bs], a[r2*bs:(r2+1)*bs]); return a }
	case 12:
		name = "error at the end of the block"
		copy(delta[bs-1-s.Intn(min(bs, 8)):], s.Bytes(1+s.Intn(2)))
		f = onRow(r)
	case 13:
		name = "error in the padding or proof of one record"
		b := m.Block(target)
		end := len(bytes.TrimRight(b, "\x00"))
		p := end - 1 - s.Intn(min(end, db.ProofLen+1))
		if s.Intn(3) == 0 && end < bs {
			p = end + s.Intn(bs-end)
		}
		delta[p] = byte(1 + s.Intn(255))
		if s.Intn(3) == 0 {
			delta[end-1] ^= 0x80
		}
		f = onRow(target / cols)
	case 14:
		name = "rotated"
		k := 1 + s.Intn(rows*bs)
		f = func(a []byte) []byte {
			k := k % len(a)
			return append(append([]byte{}, a[k:]...), a[:k]...)
		}
	case 15:
		name = "bytes replaced"
		from := s.Intn(rows * bs)
		v := s.Bytes(1 + s.Intn(4))
		f = func(a []byte) []byte { copy(a[from:], v); return a }
	}
	c.Case("%s, server %d of %d: %s row %d target %d error %x", desc, bad, n, name, r, target, delta)
	c.Class(name)
	changed := false
	run := func(i int) bool {
		cl := client.NewPIR(s, gen.RemoteInfo(&db.Info))
		qs, err := cl.QueryBytes(gen.Index(i), n)
		if err != nil {
			t.Fatalf("query: %v", err)
		}
		ans := make([][]byte, n)
		for k := range ans {
			a, err := srv[k].AnswerBytes(qs[k])
			if err != nil {
				t.Fatalf("server: %v", err)
			}
			ans[k] = append([]byte{}, a...)
			if k == bad {
				ans[k] = f(ans[k])
				changed = changed || !bytes.Equal(ans[k], a)
			}
		}
		_, err = cl.ReconstructBytes(ans)
		return err == nil
	}
	same(t, c, fmt.Sprintf("%s, server %d of %d, %s", desc, bad, n, name), idx, run)
	c.NonTrivialIf(changed && len(idx) > 1)
}

// merkleDB has one server answer on a database with a changed record: the
// verdict depends on the server's share, whose distribution is that same for
// all indices.
func merkleDB(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	m, desc := gen.NewMerkle(t, s, 16)
	db := m.DB
	rows, cols := db.NumRows, db.NumColumns
	n := rapid.SampledFrom([]int{2, 2, 3}).Draw(t, "servers")
	bad := rapid.IntRange(0, n-1).Draw(t, "cheater")
	srv := gen.Servers(t, db, n)
	target := s.Intn(rows * cols)
	pos := 0
	for _, l := range db.BlockLengths[:target] {
		pos += l
	}
	db2 := *db
	db2.Entries = append([]byte{}, db.Entries...)
	k := 0
	if l := db.BlockLengths[target]; l > 0 {
		k = s.Intn(l)
	}
	db2.Entries[pos+k] ^= byte(1 + s.Intn(255))
	srv[bad] = gen.Servers(t, &db2, n)[bad]
	row, col := target/cols, target%cols
	other := s.Intn(rows)*cols + (col+1+s.Intn(max(1, cols-1)))%cols
	if rows > 1 && s.Intn(2) == 0 {
		other = (row+1+s.Intn(rows-1))%rows*cols + col
	}
	c.Case("%s, server %d of %d: byte %d of record %d changed, other index %d", desc, bad, n, k, target, other)
	c.NonTrivialIf(other != target)
	run := func(i int) bool {
		cl := client.NewPIR(s, gen.RemoteInfo(&db.Info))
		qs, err := cl.QueryBytes(gen.Index(i), n)
		if err != nil {
			t.Fatalf("query: %v", err)
		}
		ans := make([][]byte, n)
		for k := range ans {
			if ans[k], err = srv[k].AnswerBytes(qs[k]); err != nil {
				t.Fatalf("server: %v", err)
			}
		}
		_, err = cl.ReconstructBytes(ans)
		return err == nil
	}
	rates(t, c, desc+" with a changed record "+fmt.Sprint(target), target, other, run)
}

func must(b []byte, err error) []byte {
	if err != nil {
		hx.Broken("honest computation failed: %v", err)
	}
	return b
}

// singleFixed compares the verdicts of a single-server scheme.
func singleFixed(t *rapid.T, c *hx.C, name string, maxSide int) {
	s := hx.Tape(t)
	singleOn(t, c, s, single.New(t, s, name, maxSide))
}

// large is singleFixed on databases of many columns or rows.
func large(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	name := rapid.SampledFrom([]string{single.LWE, single.LWE, single.LWE, single.Amplify, single.LWE128, single.DH}).Draw(t, "scheme")
	r, cc, tt, tries := 1, 0, 0, 10
	switch name {
	case single.LWE:
		cc = 1 << rapid.IntRange(9, 16).Draw(t, "magnitude")
		if cc > 1<<13 {
			tries = 2
		}
	case single.Amplify:
		cc, tt, tries = 1<<rapid.IntRange(9, 12).Draw(t, "magnitude"), rapid.IntRange(1, 2).Draw(t, "t"), 3
	case single.LWE128:
		cc, tries = 1<<rapid.IntRange(6, 9).Draw(t, "magnitude"), 2
	case single.DH:
		r, tries = rapid.IntRange(20, 40).Draw(t, "side"), 2
	}
	cc += rapid.IntRange(0, 500).Draw(t, "more")
	if name == single.DH {
		cc = r
	} else if rapid.IntRange(0, 3).Draw(t, "rows") == 0 && cc < 5000 {
		r, cc = cc, rapid.IntRange(1, 3).Draw(t, "columns")
	}
	sc := single.NewOf(t, s, name, r, cc, tt)
	for k := 0; k < tries; k++ {
		singleOn(t, c, s, sc)
	}
}

func singleOn(t *rapid.T, c *hx.C, s *hx.Stream, sc *single.Scheme) {
	name := sc.Name
	seed := rapid.Uint64().Draw(t, "choices")
	answer := sc.Answer
	var f func(a []byte) []byte
	what := ""
	kind := rapid.IntRange(0, 12).Draw(t, "manipulation")
	st := hx.NewStream(seed)
	row, col := st.Intn(sc.Rows), st.Intn(sc.Cols)
	target := row*sc.Cols + col
	switch kind {
	case 0, 1:
		what = "answer on a database with one bit flipped"
		b := append([]byte{}, sc.Bits...)
		b[target] ^= 1
		answer = sc.On(b)
	case 2:
		what = "answer on another database"
		b := append([]byte{}, sc.Bits...)
		for i := range b {
			b[i] ^= byte(st.Intn(2))
		}
		answer = sc.On(b)
	case 3:
		what = "truncated"
		l := st.Intn(1 << 20)
		f = func(a []byte) []byte { return a[:l%len(a)] }
	case 4:
		what = "extended"
		e := st.Bytes(1 + st.Intn(40))
		f = func(a []byte) []byte { return append(a, e...) }
	case 5:
		what = "bit flip"
		p := st.Intn(1 << 20)
		f = func(a []byte) []byte { a[p%len(a)] ^= 1 << uint(p>>10&7); return a }
	case 6:
		what = "zero bytes"
		f = func(a []byte) []byte { return make([]byte, len(a)) }
	default:
		if name == single.DH {
			what, f = dhManip(t, st, sc)
		} else {
			what, f = latticeManip(t, st, sc, col)
		}
	}
	bits := fmt.Sprint(sc.Bits)
	if len(bits) > 300 {
		bits = fmt.Sprintf("(%d)", len(sc.Bits))
	}
	c.Case("%s bits %s: %s at (%d,%d) (%x)", sc.Desc, bits, what, row, col, seed)
	c.Class(what)
	changed := false
	run := func(i int) bool {
		cl := sc.Client(s)
		q := must(cl.Query(i))
		a := append([]byte{}, must(answer(q))...)
		if f != nil {
			a = f(a)
		}
		changed = changed || f == nil || !bytes.Equal(a, must(sc.Answer(q)))
		_, err := cl.Reconstruct(a)
		return err == nil
	}
	idx := indices(st, sc.Rows, sc.Cols, 10)
	// the target itself and its neighbours matter most
	idx = append(idx, target, row*sc.Cols+(col+1)%sc.Cols, (row+1)%sc.Rows*sc.Cols+col)
	d := fmt.Sprintf("%s bits %s, %s at (%d,%d)", sc.Desc, bits, what, row, col)
	same(t, c, d, idx, run)
	c.NonTrivialIf(changed && sc.Rows*sc.Cols > 1)
}

func dhManip(t *rapid.T, s *hx.Stream, sc *single.Scheme) (string, func([]byte) []byte) {
	g := sc.EC.Group
	i, j := s.Intn(sc.Rows), s.Intn(sc.Rows)
	el := g.RandomElement(s)
	k := g.RandomScalar(s)
	var f func(e []group.Element)
	name := ""
	switch rapid.IntRange(0, 8).Draw(t, "dh") {
	case 0:
		name = "element added to a row"
		f = func(e []group.Element) { e[i] = g.NewElement().Add(e[i], el) }
	case 1:
		name = "hash of a column added to a row"
		el = database.HashIndexToGroup(uint64(s.Intn(sc.Cols)), g)
		f = func(e []group.Element) { e[i] = g.NewElement().Add(e[i], el) }
	case 2:
		name = "row replaced by the identity"
		f = func(e []group.Element) { e[i] = g.Identity() }
	case 3:
		name = "row replaced"
		f = func(e []group.Element) { e[i] = g.NewElement().Set(el) }
	case 4:
		name = "rows swapped"
		f = func(e []group.Element) { e[i], e[j] = e[j], e[i] }
	case 5:
		name = "row copied"
		f = func(e []group.Element) { e[i] = e[j] }
	case 6:
		name = "row scaled"
		if s.Intn(2) == 0 {
			k = g.NewScalar().Neg(g.NewScalar().SetUint64(1))
		}
		f = func(e []group.Element) { e[i] = g.NewElement().Mul(e[i], k) }
	case 7:
		name = "all rows scaled"
		f = func(e []group.Element) {
			for i := range e {
				e[i] = g.NewElement().Mul(e[i], k)
			}
		}
	case 8:
		name = "another row added"
		f = func(e []group.Element) { e[i] = g.NewElement().Add(e[i], e[j]) }
	}
	return name, func(a []byte) []byte {
		e, err := database.UnmarshalGroupElements(a, g, sc.EC.ElementSize)
		if err != nil {
			hx.Broken("honest answer does not decode: %v", err)
		}
		f(e)
		return must(database.MarshalGroupElements(e, sc.EC.ElementSize))
	}
}

func latticeManip(t *rapid.T, s *hx.Stream, sc *single.Scheme, i int) (string, func([]byte) []byte) {
	j := s.Intn(sc.Cols)
	reps := []int{s.Intn(sc.Reps)}
	if s.Intn(2) == 0 {
		reps = nil
		for k := 0; k < sc.Reps; k++ {
			reps = append(reps, k)
		}
	}
	var d uint128.Uint128
	name := ""
	var f func(w []uint128.Uint128)
	add := func(w []uint128.Uint128) { w[i] = w[i].AddWrap(d) }
	switch rapid.IntRange(0, 8).Draw(t, "lattice") {
	case 0, 1:
		name, d, f = "large error in a column", sc.Large(s), add
	case 2:
		name, d, f = "small error in a column", uint128.From64(uint64(1+s.Intn(int(sc.Par.B/10)+1))), add
	case 3:
		name, f = "error about the bound in a column", add
		b := int(sc.Par.B)
		d = uint128.From64(uint64(b - b/8 + s.Intn(b/4)))
	case 4:
		name = "error about the bound in all columns"
		b := int(sc.Par.B)
		d = uint128.From64(uint64(b - b/8 + s.Intn(b/4)))
		f = func(w []uint128.Uint128) {
			for k := range w {
				w[k] = w[k].AddWrap(d)
			}
		}
	case 5:
		name = "columns swapped"
		f = func(w []uint128.Uint128) { w[i], w[j] = w[j], w[i] }
	case 6:
		name = "column replaced"
		d = uint128.New(s.U64(), s.U64())
		if s.Intn(2) == 0 {
			d = uint128.From64(0)
		}
		f = func(w []uint128.Uint128) { w[i] = d }
	case 7:
		name = "column scaled"
		d = uint128.From64(uint64(2 + s.Intn(3)))
		if s.Intn(2) == 0 {
			d = uint128.Max
		}
		f = func(w []uint128.Uint128) { w[i] = w[i].MulWrap(d) }
	case 8:
		name = "another column added"
		f = func(w []uint128.Uint128) { w[i] = w[i].AddWrap(w[j]) }
	}
	return name, func(a []byte) []byte {
		return sc.Words(a, func(w [][]uint128.Uint128) {
			for _, k := range reps {
				f(w[k])
			}
		})
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}
