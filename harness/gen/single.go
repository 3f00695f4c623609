package gen

import (
	"fmt"

	"aaverif/hx"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/utils"
	"pgregory.net/rapid"
)

// NewFixed is a randomness source that returns data first and then the stream.
func NewFixed(data []byte, s *hx.Stream) *FixedReader { return &FixedReader{data: data, s: s} }

// Groups are the supported prime-order groups.
var Groups = []group.Group{group.Ristretto255, group.P256, group.P384, group.P521}

// GroupName names a group.
func GroupName(g group.Group) string {
	return []string{"ristretto255", "P-256", "P-384", "P-521"}[map[group.Group]int{group.Ristretto255: 0, group.P256: 1, group.P384: 2, group.P521: 3}[g]]
}

// Bits draws bits with all-zero and all-one rows.
func Bits(t *rapid.T, s *hx.Stream, rows, cols int) []byte {
	out := make([]byte, rows*cols)
	density := rapid.SampledFrom([]int{2, 2, 2, 8, 1}).Draw(t, "density")
	zero := rapid.IntRange(0, 3).Draw(t, "rows?")
	for r := 0; r < rows; r++ {
		m := 0
		if zero == 0 {
			m = s.Intn(4)
		}
		for c := 0; c < cols; c++ {
			b := byte(0)
			if s.Intn(density) == 0 {
				b = 1
			}
			if m == 1 {
				b = 0
			} else if m == 2 && r > 0 {
				b = out[(r-1)*cols+c]
			}
			out[r*cols+c] = b
		}
	}
	if zero == 1 {
		for i := range out {
			out[i] = 0
		}
	}
	return out
}

// Elliptic draws a database of the discrete-log scheme with its bits.
func Elliptic(t *rapid.T, s *hx.Stream, max int) (*database.Elliptic, []byte, string) {
	g := rapid.SampledFrom([]group.Group{group.Ristretto255, group.Ristretto255, group.P256, group.P384, group.P521}).Draw(t, "group")
	if g == group.P384 || g == group.P521 {
		if max > 20 {
			max = 20
		}
	}
	reb := rapid.IntRange(0, 2).Draw(t, "rebalanced") > 0
	n := hx.Size(t, "size", 1, max, 1, 4, 9, 16, 25, 49, 64, 81)
	return EllipticOf(t, s, g, n, reb)
}

// EllipticOf is a bit database of at least n elements.
func EllipticOf(t *rapid.T, s *hx.Stream, g group.Group, n int, reb bool) (*database.Elliptic, []byte, string) {
	rows, cols := 1, n
	if reb {
		side := 1
		for side*side < n {
			side++
		}
		rows, cols = side, side
	}
	bits := Bits(t, s, rows, cols)
	// the generator keeps the low bit of every byte
	data := make([]byte, len(bits))
	for i, b := range s.Bytes(len(bits)) {
		data[i] = b&^1 | bits[i]
	}
	db := database.CreateRandomEllipticWithDigest(NewFixed(data, s), n, g, reb)
	d := fmt.Sprintf("%s %dx%d (%d asked, rebalanced=%v)", GroupName(g), rows, cols, n, reb)
	if db.NumRows != rows || db.NumColumns != cols || len(db.Entries) != rows*cols {
		t.Fatalf("%s: database is %dx%d with %d entries", d, db.NumRows, db.NumColumns, len(db.Entries))
	}
	return db, bits, d
}

// pack packs bits for the generators of the lattice databases.
func pack(bits []byte) []byte {
	out := make([]byte, len(bits)/8+1)
	for i, b := range bits {
		out[i/8] |= b << uint(i%8)
	}
	return out
}

// Dims draws matrix dimensions.
func Dims(t *rapid.T, max int) (int, int) {
	r := hx.Size(t, "rows", 1, max, 1, 8, 16)
	c := hx.Size(t, "cols", 1, max, 1, 8, 16)
	if rapid.IntRange(0, 3).Draw(t, "square") == 0 {
		c = r
	}
	return r, c
}

// LWE draws a lattice database with its bits.
func LWE(t *rapid.T, s *hx.Stream, max int) (*database.LWE, []byte, *utils.ParamsLWE, string) {
	r, c := Dims(t, max)
	return LWEOf(t, s, r, c)
}

// LWEOf is LWE with given dimensions.
func LWEOf(t *rapid.T, s *hx.Stream, r, c int) (*database.LWE, []byte, *utils.ParamsLWE, string) {
	bits := Bits(t, s, r, c)
	db := database.CreateRandomBinaryLWE(NewFixed(pack(bits), s), r, c)
	d := fmt.Sprintf("LWE %dx%d", r, c)
	check(t, d, db.Matrix, bits, r, c)
	return db, bits, utils.ParamsWithDatabaseSize(r, c), d
}

// LWE128 is LWE for the 128-bit scheme.
func LWE128(t *rapid.T, s *hx.Stream, max int) (*database.LWE128, []byte, *utils.ParamsLWE, string) {
	r, c := Dims(t, max)
	return LWE128Of(t, s, r, c)
}

// LWE128Of is LWE128 with given dimensions.
func LWE128Of(t *rapid.T, s *hx.Stream, r, c int) (*database.LWE128, []byte, *utils.ParamsLWE, string) {
	bits := Bits(t, s, r, c)
	db := database.CreateRandomBinaryLWE128(NewFixed(pack(bits), s), r, c)
	d := fmt.Sprintf("LWE128 %dx%d", r, c)
	check(t, d, db.Matrix, bits, r, c)
	return db, bits, utils.ParamsWithDatabaseSize128(r, c), d
}

func check(t *rapid.T, d string, m *matrix.MatrixBytes, bits []byte, r, c int) {
	for i, b := range bits {
		if m.Get(i/c, i%c) != b {
			t.Fatalf("%s: entry (%d,%d) of the generated database is %d, the randomness says %d", d, i/c, i%c, m.Get(i/c, i%c), b)
		}
	}
}
