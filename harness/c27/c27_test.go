package c27

import (
	"bytes"
	"fmt"
	"testing"

	"aaverif/gen"
	"aaverif/hx"
	"aaverif/stat"

	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/utils"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	hx.Main(m, hx.Meta{ID: "C27",
		Rule:        "all sizes up to 20000 and random sizes up to 2^46 (biased to squares and their neighbours) against the least square; all index mappings of random shapes; randomly generated databases of every kind, built twice with equal randomness, against their declared shape; buckets of random identifiers for random table lengths; non-trivial when there is more than one entry",
		Assumptions: []string{"sizes below 2^50, beyond which square roots are not exact in floating point", "requested lengths hold at least one block per row"}})
}

func TestProps(t *testing.T) {
	hx.Each(t, "shapes", 1, allShapes)
	hx.Run(t, "shape", 20000, 300000, shape)
	hx.Run(t, "indices", 2000, 30000, indices)
	hx.Run(t, "bytes", 6000, 90000, dbBytes)
	hx.Run(t, "merkle", 1500, 20000, dbMerkle)
	hx.Run(t, "bits", 6000, 90000, dbBits)
	hx.Run(t, "elliptic", 150, 2000, dbElliptic)
	hx.Run(t, "lattice", 400, 6000, dbLattice)
	hx.Run(t, "keys", 600, 9000, dbKeys)
	hx.Run(t, "zero", 3000, 40000, dbZero)
	hx.Run(t, "buckets", 20000, 300000, buckets)
	hx.Run(t, "spread-large", 150, 2000, spreadLarge)
	hx.Run(t, "spread", 100, 1500, spread)
	hx.Run(t, "max-length", 3000, 40000, maxLength)
}

func checkShape(n int) error {
	r, c := database.CalculateNumRowsAndColumns(n, false)
	if r != 1 || c != n {
		return fmt.Errorf("%d entries: %dx%d as a vector", n, r, c)
	}
	r, c = database.CalculateNumRowsAndColumns(n, true)
	if r != c || r*c < n || (r-1)*(r-1) >= n {
		return fmt.Errorf("%d entries: %dx%d rebalanced", n, r, c)
	}
	m := n
	utils.IncreaseToNextSquare(&m)
	if m != r*c {
		return fmt.Errorf("the next square of %d is %d", n, m)
	}
	return nil
}

func allShapes(_ int, c *hx.C) error {
	c.Case("all sizes from 1 to 20000")
	c.NonTrivial()
	for n := 1; n <= 20000; n++ {
		if err := checkShape(n); err != nil {
			return err
		}
	}
	return nil
}

func shape(t *rapid.T, c *hx.C) {
	side := rapid.IntRange(1, 1<<uint(rapid.IntRange(1, 23).Draw(t, "magnitude"))).Draw(t, "side")
	n := side*side + rapid.SampledFrom([]int{-2, -1, 0, 1, 2, side, 2 * side, 2*side + 1}).Draw(t, "offset")
	if rapid.IntRange(0, 3).Draw(t, "any") == 0 {
		n = rapid.IntRange(1, 1<<46).Draw(t, "n")
	}
	if n < 1 {
		n = 1
	}
	c.Case("%d", n)
	c.NonTrivialIf(n > 1)
	if err := checkShape(n); err != nil {
		t.Fatalf("%v", err)
	}
}

func indices(t *rapid.T, c *hx.C) {
	rows, cols := hx.Size(t, "rows", 1, 60, 1, 8), hx.Size(t, "cols", 1, 60, 1, 8)
	c.Case("%dx%d", rows, cols)
	c.NonTrivialIf(rows > 1 && cols > 1)
	seen := map[[2]int]int{}
	for i := 0; i < rows*cols; i++ {
		x, y := utils.VectorToMatrixIndices(i, cols)
		if x < 0 || x >= rows || y < 0 || y >= cols {
			t.Fatalf("%dx%d: index %d is at (%d,%d)", rows, cols, i, x, y)
		}
		if j, ok := seen[[2]int{x, y}]; ok {
			t.Fatalf("%dx%d: indices %d and %d are at (%d,%d)", rows, cols, i, j, x, y)
		}
		seen[[2]int{x, y}] = i
		// row-major, as the servers lay the database out
		if x*cols+y != i {
			t.Fatalf("%dx%d: index %d is at (%d,%d)", rows, cols, i, x, y)
		}
	}
}

type dims struct{ bits, rows, cols, block int }

// length draws a length in bits that holds cols blocks per row and a rest.
func length(t *rapid.T, maxCols, maxBlock int, unit int) dims {
	d := dims{rows: hx.Size(t, "rows", 1, 12, 1), cols: hx.Size(t, "cols", 1, maxCols, 1, 8), block: hx.Size(t, "block", 1, maxBlock, 1)}
	per := 8 * unit * d.rows * d.block
	d.bits = d.cols * per
	switch rapid.IntRange(0, 2).Draw(t, "rest") {
	case 0:
		d.bits += rapid.IntRange(0, per-1).Draw(t, "bits")
	case 1:
		d.bits += per - 1
	}
	return d
}

func (d dims) String() string {
	return fmt.Sprintf("%d bits, %d rows, blocks of %d", d.bits, d.rows, d.block)
}

func checkInfo(t *rapid.T, d string, i *database.Info, rows, cols, block int, lens bool) {
	if i.NumRows != rows || i.NumColumns != cols || i.BlockSize != block {
		t.Fatalf("%s: declared as %dx%d with blocks of %d", d, i.NumRows, i.NumColumns, i.BlockSize)
	}
	if !lens {
		return
	}
	if len(i.BlockLengths) != rows*cols {
		t.Fatalf("%s: %d block lengths for %dx%d", d, len(i.BlockLengths), rows, cols)
	}
	for k, l := range i.BlockLengths {
		if l != block {
			t.Fatalf("%s: block %d is declared with length %d", d, k, l)
		}
	}
}

func dbBytes(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	d := length(t, 40, 40, 1)
	c.Case("%v tape=%x", d, s.U64())
	c.NonTrivialIf(d.rows*d.cols > 1)
	seed := s.U64()
	db := database.CreateRandomBytes(hx.NewStream(seed), d.bits, d.rows, d.block)
	checkInfo(t, d.String(), &db.Info, d.rows, d.cols, d.block, true)
	if len(db.Entries) != d.rows*d.cols*d.block {
		t.Fatalf("%v: %d bytes of content for %dx%d blocks", d, len(db.Entries), d.rows, d.cols)
	}
	hx.Reseed(s.U64())
	if o := database.CreateRandomBytes(hx.NewStream(seed), d.bits, d.rows, d.block); !bytes.Equal(o.Entries, db.Entries) {
		t.Fatalf("%v: contents differ with equal randomness", d)
	}
	if o := database.CreateRandomBytes(hx.NewStream(seed+1), d.bits, d.rows, d.block); len(db.Entries) > 16 && bytes.Equal(o.Entries, db.Entries) {
		t.Fatalf("%v: contents do not depend on the randomness", d)
	}
}

func dbMerkle(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	d := length(t, 20, 40, 1)
	c.Case("%v tape=%x", d, s.U64())
	c.NonTrivialIf(d.rows*d.cols > 1)
	seed := s.U64()
	db := database.CreateRandomMerkle(hx.NewStream(seed), d.bits, d.rows, d.block)
	if db.Merkle == nil || db.PIRType != "merkle" {
		t.Fatalf("%v: not declared as authenticated", d)
	}
	block := d.block + db.ProofLen + 1
	checkInfo(t, d.String(), &db.Info, d.rows, d.cols, block, true)
	if len(db.Entries) != d.rows*d.cols*block {
		t.Fatalf("%v: %d bytes of content for %dx%d blocks of %d", d, len(db.Entries), d.rows, d.cols, block)
	}
	hx.Reseed(s.U64())
	o := database.CreateRandomMerkle(hx.NewStream(seed), d.bits, d.rows, d.block)
	if !bytes.Equal(o.Entries, db.Entries) || !bytes.Equal(o.Root, db.Root) || o.ProofLen != db.ProofLen {
		t.Fatalf("%v: contents or root differ with equal randomness", d)
	}
	if o := database.CreateRandomMerkle(hx.NewStream(seed+1), d.bits, d.rows, d.block); d.block > 16 && bytes.Equal(o.Root, db.Root) {
		t.Fatalf("%v: contents do not depend on the randomness", d)
	}
}

func dbBits(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	d := length(t, 30, 12, 4)
	c.Case("%v tape=%x", d, s.U64())
	c.NonTrivialIf(d.rows*d.cols > 1)
	seed := s.U64()
	if rapid.IntRange(0, 9).Draw(t, "tiny") == 0 {
		d.bits, d.cols = rapid.IntRange(0, 8*4*d.rows*d.block-1).Draw(t, "few"), 1
	}
	db, err := database.CreateRandomBitsDB(hx.NewStream(seed), d.bits, d.rows, d.block)
	if err != nil {
		t.Fatalf("%v: %v", d, err)
	}
	checkInfo(t, d.String(), &db.Info, d.rows, d.cols, d.block, true)
	if len(db.Entries) != d.rows*d.cols*d.block {
		t.Fatalf("%v: %d elements of content for %dx%d blocks", d, len(db.Entries), d.rows, d.cols)
	}
	for i, e := range db.Entries {
		if e >= 1<<31-1 {
			t.Fatalf("%v: element %d is %#x", d, i, e)
		}
	}
	hx.Reseed(s.U64())
	o, err := database.CreateRandomBitsDB(hx.NewStream(seed), d.bits, d.rows, d.block)
	if err != nil || fmt.Sprint(o.Entries) != fmt.Sprint(db.Entries) {
		t.Fatalf("%v: contents differ with equal randomness (%v)", d, err)
	}
	o, err = database.CreateRandomBitsDB(hx.NewStream(seed+1), d.bits, d.rows, d.block)
	if err != nil || (len(db.Entries) > 4 && fmt.Sprint(o.Entries) == fmt.Sprint(db.Entries)) {
		t.Fatalf("%v: contents do not depend on the randomness (%v)", d, err)
	}
}

func dbElliptic(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	g := rapid.SampledFrom(gen.Groups).Draw(t, "group")
	n, reb := hx.Size(t, "size", 1, 40, 1, 4, 9, 16, 25), rapid.Bool().Draw(t, "rebalanced")
	c.Case("%s %d rebalanced=%v tape=%x", gen.GroupName(g), n, reb, s.U64())
	c.NonTrivialIf(n > 1)
	seed := s.U64()
	db := database.CreateRandomEllipticWithDigest(hx.NewStream(seed), n, g, reb)
	rows, cols := database.CalculateNumRowsAndColumns(n, reb)
	checkInfo(t, fmt.Sprintf("%d rebalanced=%v", n, reb), &db.Info, rows, cols, 1, false)
	if len(db.Entries) != rows*cols || len(db.SubDigests) != rows*db.ElementSize {
		t.Fatalf("%d rebalanced=%v: %d entries and %d bytes of digests for %dx%d", n, reb, len(db.Entries), len(db.SubDigests), rows, cols)
	}
	for i, b := range db.Entries {
		if b > 1 {
			t.Fatalf("entry %d is %d", i, b)
		}
	}
	hx.Reseed(s.U64())
	o := database.CreateRandomEllipticWithDigest(hx.NewStream(seed), n, g, reb)
	if !bytes.Equal(o.Entries, db.Entries) || !bytes.Equal(o.Digest, db.Digest) || !bytes.Equal(o.SubDigests, db.SubDigests) {
		t.Fatalf("%d rebalanced=%v: contents or digests differ with equal randomness", n, reb)
	}
}

func dbLattice(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	kind := rapid.IntRange(0, 3).Draw(t, "kind")
	rows, cols := gen.Dims(t, []int{24, 24, 6, 6}[kind])
	n := rapid.IntRange(1, rows*rows).Draw(t, "n")
	if kind%2 == 1 {
		rows, cols = database.CalculateNumRowsAndColumns(n, true)
	}
	seed := s.U64()
	d := fmt.Sprintf("%s %dx%d", []string{"LWE", "LWE with length", "LWE128", "LWE128 with length"}[kind], rows, cols)
	c.Case("%s tape=%x", d, s.U64())
	c.Class([]string{"LWE", "LWE with length", "LWE128", "LWE128 with length"}[kind])
	c.NonTrivialIf(rows*cols > 1)
	mk := func(seed uint64) (*matrix.MatrixBytes, *database.Info, []byte) {
		r := hx.NewStream(seed)
		var l *database.LWE
		var w *database.LWE128
		switch kind {
		case 0:
			l = database.CreateRandomBinaryLWE(r, rows, cols)
		case 1:
			l = database.CreateRandomBinaryLWEWithLength(r, n)
		case 2:
			w = database.CreateRandomBinaryLWE128(r, rows, cols)
		case 3:
			w = database.CreateRandomBinaryLWEWithLength128(r, n)
		}
		if l != nil {
			return l.Matrix, &l.Info, matrix.MatrixToBytes(l.DigestLWE)
		}
		return w.Matrix, &w.Info, matrix.Matrix128ToBytes(w.DigestLWE128)
	}
	m, info, dig := mk(seed)
	checkInfo(t, d, info, rows, cols, 1, false)
	if m.Len() != rows*cols {
		t.Fatalf("%s: %d entries", d, m.Len())
	}
	hx.Reseed(s.U64())
	o, _, dig2 := mk(seed)
	x, _, _ := mk(seed + 1)
	same := true
	ones := 0
	for i := 0; i < rows; i++ {
		for j := 0; j < cols; j++ {
			if m.Get(i, j) > 1 || m.Get(i, j) != o.Get(i, j) {
				t.Fatalf("%s: entry (%d,%d) is %d, and %d with equal randomness", d, i, j, m.Get(i, j), o.Get(i, j))
			}
			same = same && m.Get(i, j) == x.Get(i, j)
			ones += int(m.Get(i, j))
		}
	}
	if !bytes.Equal(dig, dig2) {
		t.Fatalf("%s: digests differ with equal randomness", d)
	}
	if rows*cols >= 100 && (same || ones < rows*cols/20 || ones > rows*cols*19/20) {
		t.Fatalf("%s: %d ones, independent of the randomness: %v", d, ones, same)
	}
}

func dbKeys(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	n := rapid.IntRange(0, 50).Draw(t, "n")
	c.Case("%d identifiers", n)
	c.NonTrivialIf(n > 1)
	mk := func() *database.DB {
		db, err := database.CreateRandomKeysDB(hx.NewStream(1), n)
		if err != nil {
			t.Fatalf("%d identifiers: %v", n, err)
		}
		return db
	}
	db := mk()
	hx.Reseed(s.U64())
	o := mk()
	if len(db.KeysInfo) != n || db.NumColumns != n {
		t.Fatalf("%d identifiers: %d entries, %d columns", n, len(db.KeysInfo), db.NumColumns)
	}
	for i, k := range db.KeysInfo {
		x := o.KeysInfo[i]
		if k.UserId == nil || len(k.UserId.Email) != 32 || k.CreationTime.IsZero() {
			t.Fatalf("%d identifiers: entry %d is %+v", n, i, k)
		}
		if k.UserId.Email != x.UserId.Email || !k.CreationTime.Equal(x.CreationTime) || k.PubKeyAlgo != x.PubKeyAlgo {
			t.Fatalf("%d identifiers: entry %d differs between servers: %+v %+v", n, i, k, x)
		}
	}
}

func dbZero(t *rapid.T, c *hx.C) {
	r, cc, b := rapid.IntRange(1, 12).Draw(t, "rows"), rapid.IntRange(1, 30).Draw(t, "cols"), rapid.IntRange(1, 20).Draw(t, "block")
	d := fmt.Sprintf("%dx%d of %d", r, cc, b)
	c.Case("%s", d)
	c.NonTrivialIf(r*cc > 1)
	db := database.CreateZeroBytes(r, cc, b)
	checkInfo(t, d, &db.Info, r, cc, b, false)
	if !bytes.Equal(db.Entries, make([]byte, r*cc*b)) {
		t.Fatalf("%s: %d bytes, or not zero", d, len(db.Entries))
	}
	e := database.InitBytes(r, cc, b)
	checkInfo(t, d, &e.Info, r, cc, b, false)
	if len(e.Entries) != 0 || len(e.BlockLengths) != r*cc {
		t.Fatalf("%s: empty database with %d bytes and %d block lengths", d, len(e.Entries), len(e.BlockLengths))
	}
	k := database.NewBitsDB(database.Info{NumRows: r, NumColumns: cc, BlockSize: b})
	checkInfo(t, d, &k.Info, r, cc, b, false)
	if len(k.Entries) != r*cc*b {
		t.Fatalf("%s: %d elements", d, len(k.Entries))
	}
}

func buckets(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	id := string(s.Bytes(s.Intn(60)))
	if s.Intn(2) == 0 {
		id = gen.Word(s, 12, 26) + "@" + gen.Word(s, 6, 26) + ".org"
	}
	n := rapid.OneOf(rapid.IntRange(1, 300), rapid.IntRange(1, 1<<31)).Draw(t, "length")
	c.Case("%q of %d", id, n)
	c.NonTrivialIf(n > 1)
	h := database.HashToIndex(id, n)
	if uint64(h) >= uint64(n) {
		t.Fatalf("%q: bucket %d of %d", id, h, n)
	}
	hx.Reseed(s.U64())
	if o := database.HashToIndex(id, n); o != h {
		t.Fatalf("%q: buckets %d and %d of %d", id, h, o, n)
	}
}

// spreadLarge looks at tables of many buckets: identifiers are spread over all
// parts of the table and over the buckets of every part.
func spreadLarge(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	n := hx.Size(t, "length", 1000, 1<<31, 1<<16, 1<<17, 100000, 1<<20, 1<<24, 1<<30)
	k := rapid.SampledFrom([]int{2, 3, 7, 16, 30}).Draw(t, "parts")
	c.Case("%d buckets, %d parts tape=%x", n, k, s.U64())
	c.NonTrivial()
	ranges, residues := make([]int, k), make([]int, k)
	distinct := map[uint32]bool{}
	const ids = 3000
	for i := 0; i < ids; i++ {
		h := database.HashToIndex(fmt.Sprintf("%x@epfl.ch", s.U64()), n)
		if uint64(h) >= uint64(n) {
			t.Fatalf("bucket %d of %d", h, n)
		}
		ranges[int(uint64(h)*uint64(k)/uint64(n))]++
		residues[int(h)%k]++
		distinct[h] = true
	}
	// the reduction modulo the length favours some buckets, by a factor of two
	// at most, in tables of more than 2^30 buckets
	for p := range ranges {
		if lo, hi := ids/k/3, ids/k*3; ranges[p] < lo || ranges[p] > hi || residues[p] < lo || residues[p] > hi {
			t.Fatalf("%d buckets: the parts of the table get %v and the residues modulo %d get %v of %d identifiers", n, ranges, k, residues, ids)
		}
	}
	// ids^2/2n of the identifiers are expected to meet another one
	if exp := float64(ids) * float64(ids) / 2 / float64(n); float64(ids-len(distinct)) > 2*exp+60 {
		t.Fatalf("%d buckets: %d identifiers share only %d buckets", n, ids, len(distinct))
	}
}

func spread(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	n := rapid.IntRange(2, 80).Draw(t, "length")
	mode := rapid.IntRange(0, 2).Draw(t, "identifiers")
	c.Case("%d buckets, identifiers %d tape=%x", n, mode, s.U64())
	c.NonTrivial()
	counts := make([]int, n)
	pre := gen.Word(s, 8, 26)
	for i := 0; i < 300*n; i++ {
		id := ""
		switch mode {
		case 0:
			id = fmt.Sprintf("%s%d@epfl.ch", pre, i)
		case 1:
			id = fmt.Sprintf("user@%s%d.org", pre, i)
		default:
			id = string(s.Bytes(12))
		}
		counts[database.HashToIndex(id, n)]++
	}
	if err := stat.Uniform(counts); err != nil {
		t.Fatalf("%d buckets: %v", n, err)
	}
}

func maxLength(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	m := map[int][]byte{}
	want := 0
	n := rapid.IntRange(0, 12).Draw(t, "n")
	for i := 0; i < n; i++ {
		l := s.Intn(40)
		m[s.Intn(50)] = make([]byte, l)
	}
	for _, v := range m {
		if len(v) > want {
			want = len(v)
		}
	}
	c.Case("%d values, longest %d", n, want)
	c.NonTrivialIf(len(m) > 1)
	if got := utils.MaxBytesLength(m); got != want {
		t.Fatalf("longest value of %v: %d", m, got)
	}
}
