package c16

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"aaverif/hx"

	"github.com/si-co/vpir-code/lib/matrix"
	"lukechampine.com/uint128"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	hx.Main(m, hx.Meta{ID: "C16",
		Rule:        "random dimensions (small, vectors, long and wide shapes, inner dimensions above 2^16) and contents (random words and the extreme ones), every operation compared with the definition over 64-bit or big integers, incompatible shapes and aliased operands included; non-trivial when more than one product is summed, or the shapes are incompatible",
		Assumptions: []string{"matrices have at least one row and one column", "byte matrices hold zeros and ones"}})
}

func TestProps(t *testing.T) {
	hx.Run(t, "mul", 30000, 600000, mul)
	hx.Run(t, "mul-large", 600, 9000, mulLarge)
	hx.Run(t, "mul128", 20000, 400000, mul128)
	hx.Run(t, "mul128-large", 400, 6000, mul128Large)
	hx.Run(t, "mul-long", 120, 1500, mulLong)
	hx.Run(t, "mul128-long", 40, 600, mul128Long)
	hx.Run(t, "add", 20000, 300000, add)
	hx.Run(t, "incompatible", 40000, 600000, incompatible)
	hx.Run(t, "accessors", 10000, 100000, accessors)
	hx.Run(t, "identities", 5000, 60000, identities)
}

func dim(t *rapid.T, label string, max int) int {
	return hx.Size(t, label, 1, max, 1, 4, 8, 16, 32)
}

var ext = []uint64{0, 1, 2, 1 << 31, 1<<31 - 1, 1<<32 - 1, 1<<32 - 2, 1 << 16, 1<<16 - 1, 1 << 24}

// fill is a content generator: kind 0 random, 1 extreme, 2 all the largest,
// 3 sparse.
func word(s *hx.Stream, kind int) uint32 {
	switch kind {
	case 1:
		return uint32(ext[s.Intn(len(ext))])
	case 2:
		return 1<<32 - 1
	case 3:
		if s.Intn(4) > 0 {
			return 0
		}
	}
	return uint32(s.U64())
}

func word128(s *hx.Stream, kind int) uint128.Uint128 {
	w := func() uint64 {
		switch s.Intn(5) {
		case 0:
			return 0
		case 1:
			return ^uint64(0)
		case 2:
			return 1 << 63
		case 3:
			return ext[s.Intn(len(ext))]
		}
		return s.U64()
	}
	switch kind {
	case 1:
		return uint128.New(w(), w())
	case 2:
		return uint128.Max
	case 3:
		if s.Intn(4) > 0 {
			return uint128.Zero
		}
	}
	return uint128.New(s.U64(), s.U64())
}

type m32 struct {
	r, c int
	d    []uint32
}

func (m m32) get(i, j int) uint32 { return m.d[i*m.c+j] }

func new32(s *hx.Stream, r, c, kind int) (m32, *matrix.Matrix) {
	m := m32{r, c, make([]uint32, r*c)}
	x := matrix.New(r, c)
	for i := range m.d {
		m.d[i] = word(s, kind)
		x.Set(i/c, i%c, m.d[i])
	}
	switch s.Intn(3) {
	case 0:
		return m, x
	case 1:
		return m, matrix.NewWithData(r, c, append([]uint32{}, m.d...))
	}
	x = matrix.New(r, c)
	for i, v := range m.d {
		x.SetData(i, v)
	}
	return m, x
}

func (m m32) diff(x *matrix.Matrix) error {
	if x.Rows() != m.r || x.Cols() != m.c || x.Len() != m.r*m.c {
		return fmt.Errorf("is %dx%d with %d words instead of %dx%d", x.Rows(), x.Cols(), x.Len(), m.r, m.c)
	}
	for i := range m.d {
		if v := x.Get(i/m.c, i%m.c); v != m.d[i] {
			return fmt.Errorf("has %d at (%d,%d) instead of %d", v, i/m.c, i%m.c, m.d[i])
		}
	}
	return nil
}

type m128 struct {
	r, c int
	d    []uint128.Uint128
}

func new128(s *hx.Stream, r, c, kind int) (m128, *matrix.Matrix128) {
	m := m128{r, c, make([]uint128.Uint128, r*c)}
	x := matrix.New128(r, c)
	for i := range m.d {
		m.d[i] = word128(s, kind)
		x.Set(i/c, i%c, m.d[i])
	}
	return m, x
}

func (m m128) diff(x *matrix.Matrix128) error {
	if x.Rows() != m.r || x.Cols() != m.c || x.Len() != m.r*m.c {
		return fmt.Errorf("is %dx%d with %d words instead of %dx%d", x.Rows(), x.Cols(), x.Len(), m.r, m.c)
	}
	for i := range m.d {
		if v := x.Get(i/m.c, i%m.c); v != m.d[i] {
			return fmt.Errorf("has %v at (%d,%d) instead of %v", v, i/m.c, i%m.c, m.d[i])
		}
	}
	return nil
}

func newBytes(s *hx.Stream, r, c, kind int) ([]byte, *matrix.MatrixBytes) {
	d := make([]byte, r*c)
	x := matrix.NewBytes(r, c)
	for i := range d {
		switch kind {
		case 2:
			d[i] = 1
		case 3:
			if s.Intn(8) == 0 {
				d[i] = 1
			}
		default:
			d[i] = byte(s.Intn(2))
		}
		x.SetData(i, d[i])
	}
	return d, x
}

func diffBytes(d []byte, r, c int, x *matrix.MatrixBytes) error {
	if x.Len() != r*c {
		return fmt.Errorf("has %d bytes", x.Len())
	}
	for i, v := range d {
		if x.Get(i/c, i%c) != v {
			return fmt.Errorf("has %d at (%d,%d) instead of %d", x.Get(i/c, i%c), i/c, i%c, v)
		}
	}
	return nil
}

func shapes(t *rapid.T, max int) (r, k, c int) {
	r, k, c = dim(t, "rows", max), dim(t, "inner", max), dim(t, "cols", max)
	switch rapid.IntRange(0, 5).Draw(t, "shape") {
	case 0:
		r = 1
	case 1:
		c = 1
	case 2:
		k = 1
	}
	return
}

func mul(t *rapid.T, c *hx.C) {
	r, k, cc := shapes(t, 24)
	doMul(t, c, r, k, cc)
}

func mulLarge(t *rapid.T, c *hx.C) {
	r := rapid.IntRange(1, 4).Draw(t, "rows")
	k, cc := rapid.IntRange(1, 1500).Draw(t, "inner"), rapid.IntRange(1, 300).Draw(t, "cols")
	if rapid.Bool().Draw(t, "tall") {
		r, cc = cc, r
	}
	doMul(t, c, r, k, cc)
}

// mulLong multiplies matrices of which one dimension needs more than 16 bits.
func mulLong(t *rapid.T, c *hx.C) {
	d := [3]int{1, 1, 1}
	for i := range d {
		d[i] = rapid.IntRange(1, 3).Draw(t, "small")
	}
	d[rapid.IntRange(0, 2).Draw(t, "which")] = hx.Size(t, "long", 5000, 140000, 32768, 32769, 65536, 65537, 131072)
	doMul(t, c, d[0], d[1], d[2])
}

func mul128Long(t *rapid.T, c *hx.C) {
	d := [3]int{1, 1, 1}
	for i := range d {
		d[i] = rapid.IntRange(1, 2).Draw(t, "small")
	}
	d[rapid.IntRange(0, 2).Draw(t, "which")] = hx.Size(t, "long", 3000, 80000, 32768, 32769, 65536, 65537)
	doMul128(t, c, d[0], d[1], d[2])
}

func doMul(t *rapid.T, c *hx.C, r, k, cc int) {
	s := hx.Tape(t)
	kind := rapid.IntRange(0, 3).Draw(t, "content")
	bin := rapid.Bool().Draw(t, "binary")
	ra, a := new32(s, r, k, kind)
	c.Case("%dx%d by %dx%d binary=%v content=%d tape=%x", r, k, k, cc, bin, kind, s.U64())
	c.NonTrivialIf(k > 1)
	want := m32{r, cc, make([]uint32, r*cc)}
	if bin {
		c.Class("binary")
		rb, b := newBytes(s, k, cc, kind)
		for i := 0; i < r; i++ {
			for j := 0; j < cc; j++ {
				v := uint64(0)
				for l := 0; l < k; l++ {
					v = (v + uint64(ra.get(i, l))*uint64(rb[l*cc+j])) % (1 << 32)
				}
				want.d[i*cc+j] = uint32(v)
			}
		}
		for n := 0; n < 2; n++ {
			if err := want.diff(matrix.BinaryMul(a, b)); err != nil {
				t.Fatalf("product %v", err)
			}
		}
		if err := diffBytes(rb, k, cc, b); err != nil {
			t.Fatalf("right operand %v", err)
		}
	} else {
		c.Class("words")
		rb, b := new32(s, k, cc, (kind+s.Intn(2))%4)
		for i := 0; i < r; i++ {
			for j := 0; j < cc; j++ {
				v := uint64(0)
				for l := 0; l < k; l++ {
					v = (v + uint64(ra.get(i, l))*uint64(rb.get(l, j))%(1<<32)) % (1 << 32)
				}
				want.d[i*cc+j] = uint32(v)
			}
		}
		for n := 0; n < 2; n++ {
			if err := want.diff(matrix.Mul(a, b)); err != nil {
				t.Fatalf("product %v", err)
			}
		}
		if err := rb.diff(b); err != nil {
			t.Fatalf("right operand %v", err)
		}
	}
	if err := ra.diff(a); err != nil {
		t.Fatalf("left operand %v", err)
	}
}

func mul128(t *rapid.T, c *hx.C) {
	r, k, cc := shapes(t, 12)
	doMul128(t, c, r, k, cc)
}

func mul128Large(t *rapid.T, c *hx.C) {
	r := rapid.IntRange(1, 3).Draw(t, "rows")
	k, cc := rapid.IntRange(1, 400).Draw(t, "inner"), rapid.IntRange(1, 60).Draw(t, "cols")
	if rapid.Bool().Draw(t, "tall") {
		r, cc = cc, r
	}
	doMul128(t, c, r, k, cc)
}

var mask128 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 128), big.NewInt(1))

func doMul128(t *rapid.T, c *hx.C, r, k, cc int) {
	s := hx.Tape(t)
	kind := rapid.IntRange(0, 3).Draw(t, "content")
	bin := rapid.Bool().Draw(t, "binary")
	ra, a := new128(s, r, k, kind)
	c.Case("%dx%d by %dx%d binary=%v content=%d tape=%x", r, k, k, cc, bin, kind, s.U64())
	c.NonTrivialIf(k > 1)
	var bb m128
	var rb []byte
	var b *matrix.Matrix128
	var xb *matrix.MatrixBytes
	if bin {
		c.Class("binary")
		rb, xb = newBytes(s, k, cc, kind)
	} else {
		c.Class("words")
		bb, b = new128(s, k, cc, (kind+s.Intn(2))%4)
	}
	want := m128{r, cc, make([]uint128.Uint128, r*cc)}
	av := make([]*big.Int, len(ra.d))
	for i := range av {
		av[i] = ra.d[i].Big()
	}
	bv := make([]*big.Int, k*cc)
	for i := range bv {
		if bin {
			bv[i] = big.NewInt(int64(rb[i]))
		} else {
			bv[i] = bb.d[i].Big()
		}
	}
	v, p := new(big.Int), new(big.Int)
	for i := 0; i < r; i++ {
		for j := 0; j < cc; j++ {
			v.SetInt64(0)
			for l := 0; l < k; l++ {
				v.Add(v, p.Mul(av[i*k+l], bv[l*cc+j]))
			}
			want.d[i*cc+j] = uint128.FromBig(v.And(v, mask128))
		}
	}
	for n := 0; n < 2; n++ {
		var got *matrix.Matrix128
		if bin {
			got = matrix.BinaryMul128(a, xb)
		} else {
			got = matrix.Mul128(a, b)
		}
		if err := want.diff(got); err != nil {
			t.Fatalf("product %v", err)
		}
	}
	if bin {
		if err := diffBytes(rb, k, cc, xb); err != nil {
			t.Fatalf("right operand %v", err)
		}
	} else if err := bb.diff(b); err != nil {
		t.Fatalf("right operand %v", err)
	}
	if err := ra.diff(a); err != nil {
		t.Fatalf("left operand %v", err)
	}
}

func add(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	r, k := dim(t, "rows", 40), dim(t, "cols", 40)
	kind := rapid.IntRange(0, 3).Draw(t, "content")
	wide, sub, alias := rapid.Bool().Draw(t, "wide"), rapid.Bool().Draw(t, "sub"), rapid.IntRange(0, 9).Draw(t, "alias") == 0
	c.Case("%dx%d wide=%v sub=%v alias=%v content=%d tape=%x", r, k, wide, sub, alias, kind, s.U64())
	c.NonTrivialIf(r*k > 1)
	if wide {
		c.Class("128 bit")
		ra, a := new128(s, r, k, kind)
		rb, b := new128(s, r, k, (kind+s.Intn(2))%4)
		if alias {
			rb, b = m128{r, k, append([]uint128.Uint128{}, ra.d...)}, a
		}
		for i := range ra.d {
			x, y := ra.d[i].Big(), rb.d[i].Big()
			if sub {
				x.Sub(x, y)
			} else {
				x.Add(x, y)
			}
			ra.d[i] = uint128.FromBig(x.And(x, mask128))
		}
		if sub {
			a.Sub(b)
		} else {
			a.Add(b)
		}
		if err := ra.diff(a); err != nil {
			t.Fatalf("result %v", err)
		}
		if !alias {
			if err := rb.diff(b); err != nil {
				t.Fatalf("operand %v", err)
			}
		}
		return
	}
	c.Class("32 bit")
	ra, a := new32(s, r, k, kind)
	rb, b := new32(s, r, k, (kind+s.Intn(2))%4)
	if alias {
		rb, b = m32{r, k, append([]uint32{}, ra.d...)}, a
	}
	for i := range ra.d {
		x, y := uint64(ra.d[i]), uint64(rb.d[i])
		if sub {
			ra.d[i] = uint32((x + 1<<32 - y) % (1 << 32))
		} else {
			ra.d[i] = uint32((x + y) % (1 << 32))
		}
	}
	if sub {
		a.Sub(b)
	} else {
		a.Add(b)
	}
	if err := ra.diff(a); err != nil {
		t.Fatalf("result %v", err)
	}
	if !alias {
		if err := rb.diff(b); err != nil {
			t.Fatalf("operand %v", err)
		}
	}
}

// incompatible operands are refused, and stay as they are.
func incompatible(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	op := rapid.IntRange(0, 7).Draw(t, "op")
	name := []string{"Mul", "BinaryMul", "Mul128", "BinaryMul128", "Add", "Sub", "Add128", "Sub128"}[op]
	r, k, r2, k2 := dim(t, "rows", 9), dim(t, "cols", 9), dim(t, "rows2", 9), dim(t, "cols2", 9)
	switch rapid.IntRange(0, 4).Draw(t, "shape") {
	case 0: // the same number of words
		r2, k2 = k, r
	case 1:
		r2 = r
	case 2:
		k2 = k
	case 3:
		r2, k2 = r*k, 1
	}
	ok := r == r2 && k == k2
	if op < 4 {
		ok = k == r2
	}
	c.Case("%s %dx%d with %dx%d tape=%x", name, r, k, r2, k2, s.U64())
	c.Class(name)
	c.NonTrivialIf(!ok)
	a, x := new32(s, r, k, 0)
	b, y := new32(s, r2, k2, 0)
	a2, x2 := new128(s, r, k, 0)
	b2, y2 := new128(s, r2, k2, 0)
	bb, z := newBytes(s, r2, k2, 0)
	refused := func() (p interface{}) {
		defer func() { p = recover() }()
		switch op {
		case 0:
			matrix.Mul(x, y)
		case 1:
			matrix.BinaryMul(x, z)
		case 2:
			matrix.Mul128(x2, y2)
		case 3:
			matrix.BinaryMul128(x2, z)
		case 4:
			x.Add(y)
		case 5:
			x.Sub(y)
		case 6:
			x2.Add(y2)
		case 7:
			x2.Sub(y2)
		}
		return nil
	}()
	if ok {
		if refused != nil {
			t.Fatalf("%s of %dx%d with %dx%d is refused: %v", name, r, k, r2, k2, refused)
		}
		return
	}
	if refused == nil {
		t.Fatalf("%s of %dx%d with %dx%d is not refused", name, r, k, r2, k2)
	}
	for _, err := range []error{a.diff(x), b.diff(y), a2.diff(x2), b2.diff(y2), diffBytes(bb, r2, k2, z)} {
		if err != nil {
			t.Fatalf("%s of %dx%d with %dx%d is refused, an operand %v", name, r, k, r2, k2, err)
		}
	}
}

// accessors write and read single entries.
func accessors(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	r, k := dim(t, "rows", 12), dim(t, "cols", 12)
	c.Case("%dx%d tape=%x", r, k, s.U64())
	c.NonTrivialIf(r > 1 && k > 1)
	a, x := new32(s, r, k, 0)
	a2, x2 := new128(s, r, k, 0)
	for n := 0; n < 10; n++ {
		i, j := s.Intn(r), s.Intn(k)
		v, w := word(s, s.Intn(4)), word128(s, s.Intn(4))
		a.d[i*k+j], a2.d[i*k+j] = v, w
		if s.Intn(2) == 0 {
			x.Set(i, j, v)
		} else {
			x.SetData(i*k+j, v)
		}
		x2.Set(i, j, w)
	}
	for _, err := range []error{a.diff(x), a2.diff(x2)} {
		if err != nil {
			t.Fatalf("matrix %v", err)
		}
	}
	if x.BytesSize() != float64(4*r*k) || x2.BytesSize() != float64(16*r*k) {
		t.Fatalf("%dx%d: sizes %v and %v", r, k, x.BytesSize(), x2.BytesSize())
	}
	// random matrices take their words from the given randomness only
	seed := s.U64()
	p, q := matrix.NewRandom(hx.NewStream(seed), r, k), matrix.NewRandom(hx.NewStream(seed), r, k)
	p2, q2 := matrix.NewRandom128(hx.NewStream(seed), r, k), matrix.NewRandom128(hx.NewStream(seed), r, k)
	if !bytes.Equal(matrix.MatrixToBytes(p), matrix.MatrixToBytes(q)) || !bytes.Equal(matrix.Matrix128ToBytes(p2), matrix.Matrix128ToBytes(q2)) {
		t.Fatalf("%dx%d: random matrices of equal randomness differ", r, k)
	}
	if p.Rows() != r || p.Cols() != k || p.Len() != r*k || p2.Rows() != r || p2.Cols() != k || p2.Len() != r*k {
		t.Fatalf("%dx%d: random matrices have another shape", r, k)
	}
}

// identities are laws that hold for products and sums of any matrices.
func identities(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	r, k, l, cc := dim(t, "a", 9), dim(t, "b", 9), dim(t, "c", 9), dim(t, "d", 9)
	c.Case("%d %d %d %d tape=%x", r, k, l, cc, s.U64())
	c.NonTrivialIf(k > 1 && l > 1)
	_, x := new32(s, r, k, s.Intn(4))
	_, y := new32(s, k, l, s.Intn(4))
	_, z := new32(s, l, cc, s.Intn(4))
	if !bytes.Equal(matrix.MatrixToBytes(matrix.Mul(matrix.Mul(x, y), z)), matrix.MatrixToBytes(matrix.Mul(x, matrix.Mul(y, z)))) {
		t.Fatalf("the product is not associative")
	}
	_, x2 := new128(s, r, k, s.Intn(4))
	_, y2 := new128(s, k, l, s.Intn(4))
	_, z2 := new128(s, l, cc, s.Intn(4))
	if !bytes.Equal(matrix.Matrix128ToBytes(matrix.Mul128(matrix.Mul128(x2, y2), z2)), matrix.Matrix128ToBytes(matrix.Mul128(x2, matrix.Mul128(y2, z2)))) {
		t.Fatalf("the 128-bit product is not associative")
	}
	rw, w := new32(s, r, k, s.Intn(4))
	sum := matrix.Mul(x, y)
	sum.Add(matrix.Mul(w, y))
	x.Add(w)
	if !bytes.Equal(matrix.MatrixToBytes(matrix.Mul(x, y)), matrix.MatrixToBytes(sum)) {
		t.Fatalf("the product is not distributive")
	}
	x.Sub(w)
	if err := rw.diff(w); err != nil {
		t.Fatalf("operand %v", err)
	}
}
