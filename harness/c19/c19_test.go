package c19

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"sync"
	"testing"

	"aaverif/gen"
	"aaverif/hx"
	"aaverif/stat"

	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/utils"
	"pgregory.net/rapid"
)

const P = 1<<31 - 1

func TestMain(m *testing.M) {
	hx.Main(m, hx.Meta{ID: "C19",
		Rule:        "byte strings and randomness biased to the words around the modulus (0, p-1, p, p+1, 2^31, 2^32-1) for conversion, negation and sampling (also sources that yield long runs of words that must be rejected); generators with random and related keys read in random sequences of lengths into clean and dirty buffers; non-trivial when a word at or above the modulus occurs, or at least two reads are compared",
		Assumptions: []string{"statistical: biases below about 0.1 per bit are not seen"}})
}

func TestProps(t *testing.T) {
	hx.Run(t, "convert", 20000, 300000, convert)
	hx.Run(t, "negate", 20000, 300000, negate)
	hx.Run(t, "sample", 10000, 150000, sample)
	hx.Run(t, "sample-again", 200, 3000, rejection)
	hx.Run(t, "sample-uniform", 30, 400, sampleUniform)
	hx.Run(t, "prg", 10000, 150000, prg)
	hx.Run(t, "prg-long", 12, 200, long)
	hx.Run(t, "prg-keystream", 60, 1500, keystream)
	hx.Run(t, "prg-unrelated", 600, 10000, unrelated)
	hx.Run(t, "prg-uniform", 20, 300, prgUniform)
	hx.Run(t, "fresh-keys", 200, 3000, freshKeys)
	hx.Run(t, "buffered", 60, 1500, buffered)
	hx.Run(t, "randint", 2000, 30000, randInt)
}

var edge = []uint32{0, 1, P - 1, P, P + 1, P + 2, 1<<32 - 1, 1<<32 - 2, 1 << 31, 1<<31 - 3, 1 << 30}

func word(s *hx.Stream) uint32 {
	if s.Intn(2) == 0 {
		return edge[s.Intn(len(edge))]
	}
	return uint32(s.U64())
}

func convert(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	n := rapid.IntRange(0, 24).Draw(t, "n")
	in := make([]byte, 4*n, 4*n+8)
	var big bool
	ws := make([]uint32, n)
	for i := range ws {
		ws[i] = word(s)
		big = big || ws[i] >= P
		binary.BigEndian.PutUint32(in[4*i:], ws[i])
	}
	in = append(in, s.Bytes(s.Intn(8))...) // more bytes than needed
	c.Case("%x", in)
	c.NonTrivialIf(big)
	keep := append([]byte{}, in...)
	out := make([]uint32, n)
	for i := range out {
		out[i] = uint32(s.U64())
	}
	field.BytesToElements(out, in)
	if !bytes.Equal(keep, in) {
		t.Fatalf("%x is now %x", keep, in)
	}
	// in other company and again
	hx.Reseed(s.U64())
	for i := range out {
		if out[i] >= P {
			t.Fatalf("word %d: %#x becomes %#x", i, ws[i], out[i])
		}
		if ws[i] < P && out[i] != ws[i] {
			t.Fatalf("word %d: element %d becomes %d", i, ws[i], out[i])
		}
		one := []uint32{7}
		field.BytesToElements(one, in[4*i:4*i+4])
		if one[0] != out[i] {
			t.Fatalf("word %d: %#x becomes %d and %d", i, ws[i], out[i], one[0])
		}
	}
}

func negate(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	n := rapid.IntRange(0, 24).Draw(t, "n")
	in := make([]uint32, n)
	zero := false
	for i := range in {
		in[i] = word(s) % P
		zero = zero || in[i] == 0
	}
	c.Case("%v", in)
	c.NonTrivialIf(n > 0)
	if zero {
		c.Class("zero")
	}
	keep := append([]uint32{}, in...)
	out := field.NegateVector(in)
	if len(out) != n {
		t.Fatalf("%d elements become %d", n, len(out))
	}
	for i := range out {
		if out[i] >= P || (uint64(out[i])+uint64(keep[i]))%P != 0 {
			t.Fatalf("the negation of %d is %d", keep[i], out[i])
		}
	}
	back := field.NegateVector(append([]uint32{}, out...))
	for i := range back {
		if back[i] != keep[i] {
			t.Fatalf("%d negated twice is %d", keep[i], back[i])
		}
	}
}

// sample draws from randomness that contains words at the modulus.
func sample(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	n := rapid.IntRange(1, 20).Draw(t, "n")
	m := rapid.IntRange(1, 40).Draw(t, "prefix")
	var data []byte
	hit := false
	for i := 0; i < m; i++ {
		w := word(s)
		if s.Intn(2) == 0 {
			w = []uint32{P, 1<<32 - 1}[s.Intn(2)]
		}
		hit = hit || w&P == P
		data = binary.BigEndian.AppendUint32(data, w)
	}
	vec := rapid.Bool().Draw(t, "vector")
	c.Case("vector=%v %d from %x tape=%x", vec, n, data, s.U64())
	c.NonTrivialIf(hit)
	seed := s.U64()
	draw := func() []uint32 {
		r := gen.NewFixed(append([]byte{}, data...), hx.NewStream(seed))
		if vec {
			return field.RandVectorWithPRG(n, r)
		}
		var out []uint32
		for i := 0; i < n; i++ {
			out = append(out, field.RandElementWithPRG(r))
		}
		return out
	}
	a := draw()
	hx.Reseed(s.U64())
	b := draw()
	if len(a) != n || len(b) != n {
		t.Fatalf("%d elements asked, %d drawn", n, len(a))
	}
	for i := range a {
		if a[i] >= P {
			t.Fatalf("element %d is %#x", i, a[i])
		}
		if a[i] != b[i] {
			t.Fatalf("element %d is %d and then %d with equal randomness", i, a[i], b[i])
		}
	}
	for _, v := range [][]uint32{field.RandVector(n), {field.RandElement()}} {
		for i := range v {
			if v[i] >= P {
				t.Fatalf("random element %d is %#x", i, v[i])
			}
		}
	}
}

// half yields the excluded value for about half of all words.
type half struct{ s *hx.Stream }

func (h half) Read(p []byte) (int, error) {
	if _, err := h.s.Read(p); err != nil {
		return 0, err
	}
	for i := 0; i+4 <= len(p); i += 4 {
		if h.s.U64()&1 == 0 {
			binary.BigEndian.PutUint32(p[i:], []uint32{P, 1<<32 - 1}[h.s.Intn(2)])
		}
	}
	return len(p), nil
}

// rejection looks at vectors of which many elements have to be drawn again:
// the new ones are as fresh as the others.
func rejection(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	n := rapid.IntRange(50, 2000).Draw(t, "n")
	c.Case("%d elements tape=%x", n, s.U64())
	c.NonTrivial()
	v := field.RandVectorWithPRG(n, half{s})
	if len(v) != n {
		t.Fatalf("%d elements asked, %d drawn", n, len(v))
	}
	seen, equal, high := map[uint32]bool{}, 0, 0
	for i, x := range v {
		if x >= P {
			t.Fatalf("element %d is %#x", i, x)
		}
		if seen[x] {
			equal++
		}
		seen[x] = true
		if x > P/2 {
			high++
		}
	}
	if equal > 3 {
		t.Fatalf("%d of %d elements are repeated", equal, n)
	}
	// 8 standard deviations
	if d := math.Abs(float64(high) - float64(n)/2); d > 4*math.Sqrt(float64(n)) {
		t.Fatalf("%d of %d elements are in the upper half", high, n)
	}
}

func sampleUniform(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	kind := rapid.IntRange(0, 3).Draw(t, "kind")
	name := []string{"RandElementWithPRG", "RandVectorWithPRG", "RandElement", "RandVector"}[kind]
	k := 1
	if kind%2 == 1 {
		k = rapid.IntRange(1, 9).Draw(t, "length")
	}
	c.Case("%s of %d tape=%x", name, k, s.U64())
	c.Class(name)
	c.NonTrivial()
	const N = 4000
	b := stat.New(N)
	var rnd = utils.NewPRG(key(s))
	for i := 0; i < N; i++ {
		var v []uint32
		switch kind {
		case 0:
			v = []uint32{field.RandElementWithPRG(rnd)}
		case 1:
			v = field.RandVectorWithPRG(k, rnd)
		case 2:
			v = []uint32{field.RandElement()}
		case 3:
			v = field.RandVector(k)
		}
		row := make([]byte, 0, 4*k)
		for _, x := range v {
			// the top bit of the 32 is free
			row = binary.LittleEndian.AppendUint32(row, x|uint32(s.U64())&(1<<31))
		}
		b.Add(row)
	}
	if err := b.Balanced(20000, s); err != nil {
		t.Fatalf("%s of %d: %v", name, k, err)
	}
}

func key(s *hx.Stream) *utils.PRGKey {
	var k utils.PRGKey
	copy(k[:], s.Bytes(len(k)))
	if s.Intn(6) == 0 {
		k = utils.PRGKey{}
		k[s.Intn(len(k))] = byte(s.Intn(3))
	}
	return &k
}

func lengths(t *rapid.T, max int) []int {
	return rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 40), rapid.SampledFrom([]int{0, 1, 15, 16, 17, 31, 32, 33, 100, 1000})), 1, max).Draw(t, "lengths")
}

func prg(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	k := key(s)
	keep := *k
	ls := lengths(t, 12)
	c.Case("key %x lengths %v", *k, ls)
	c.NonTrivialIf(len(ls) > 1)
	a, b := utils.NewPRG(k), utils.NewPRG(k)
	if *k != keep || a.Key != keep {
		t.Fatalf("the key changed")
	}
	var back []byte
	for i, l := range ls {
		x := make([]byte, l)
		y := append(s.Bytes(l), 0xaa, 0xbb, 0xcc) // dirty, and followed by other data
		if i%3 == 2 && len(back) >= l {           // a buffer used before
			y = append(append([]byte{}, back[:l]...), 0xaa, 0xbb, 0xcc)
		}
		n, err := a.Read(x)
		m, err2 := b.Read(y[:l])
		if n != l || m != l || err != nil || err2 != nil {
			t.Fatalf("lengths %v: read %d and %d of %d bytes (%v, %v)", ls, n, m, l, err, err2)
		}
		if !bytes.Equal(x, y[:l]) {
			t.Fatalf("lengths %v: read %d gives %x in one generator and %x in the other", ls, i, x, y[:l])
		}
		if !bytes.Equal(y[l:], []byte{0xaa, 0xbb, 0xcc}) {
			t.Fatalf("lengths %v: read %d writes beyond the buffer", ls, i)
		}
		back = y[:l]
	}
}

// unrelated compares all 16-byte pieces read from several generators.
// long reads: of megabytes in total, at once or in parts. Every part of the
// output depends on the key, and nothing repeats.
func long(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	ls := rapid.SampledFrom([][]int{{3 << 20}, {1<<20 + 1, 1 << 20}, {100, 2<<20 + 5, 70000}, {65536, 65536, 65537, 1 << 16}, {1 << 17, 3, 1 << 21}}).Draw(t, "lengths")
	k := key(s)
	o := *k
	o[s.Intn(len(o))] ^= 1 << uint(s.Intn(8))
	c.Case("keys %x and %x lengths %v", *k, o, ls)
	c.NonTrivial()
	a, b, d := utils.NewPRG(k), utils.NewPRG(k), utils.NewPRG(&o)
	seen := map[string]string{}
	for i, l := range ls {
		x, y, z := make([]byte, l), bytes.Repeat([]byte{0xff}, l), make([]byte, l)
		for _, e := range []struct {
			g *utils.PRGReader
			b []byte
		}{{a, x}, {b, y}, {d, z}} {
			if n, err := e.g.Read(e.b); n != l || err != nil {
				t.Fatalf("lengths %v: read %d of %d bytes (%v)", ls, n, l, err)
			}
		}
		if !bytes.Equal(x, y) {
			t.Fatalf("lengths %v: read %d depends on the content of the buffer", ls, i)
		}
		for j, v := range [][]byte{x, z} {
			for p := 0; p+16 <= l; p += 16 {
				if p%(1<<12) >= 16*4 && p%(1<<16) >= 16*64 { // some blocks of every page
					continue
				}
				w := string(v[p : p+12])
				me := fmt.Sprintf("key %d read %d byte %d", j, i, p)
				if o, ok := seen[w]; ok {
					t.Fatalf("lengths %v: %s and %s give the same bytes %x", ls, o, me, w)
				}
				seen[w] = me
			}
		}
	}
}

// keystream finds everything a generator gives out in the stream of AES in
// counter mode under its key, in order and nothing twice. What a read skips is
// its own business.
func keystream(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	ls := lengths(t, 12)
	for j := rapid.IntRange(0, 3).Draw(t, "long"); j > 0; j-- {
		ls[s.Intn(len(ls))] = rapid.SampledFrom([]int{1 << 12, 1<<14 + 1, 1<<16 - 1, 1 << 18, 1<<20 + 17, 2<<20 + 5}).Draw(t, "length")
	}
	k := key(s)
	c.Case("key %x lengths %v", *k, ls)
	c.NonTrivialIf(len(ls) > 1)
	block, err := aes.NewCipher(k[:])
	if err != nil {
		t.Fatalf("%v", err)
	}
	ref := cipher.NewCTR(block, make([]byte, aes.BlockSize))
	var ahead []byte
	g := utils.NewPRG(k)
	var copies []*utils.PRGReader
	for i, l := range ls {
		x := make([]byte, l)
		if n, err := g.Read(x); n != l || err != nil {
			t.Fatalf("lengths %v: read %d of %d bytes (%v)", ls, n, l, err)
		}
		copies = append(copies, utils.NewPRG(k)) // other generators with the key are no matter
		if need := l + 1<<12 - len(ahead); need > 0 {
			more := make([]byte, need)
			ref.XORKeyStream(more, more)
			ahead = append(ahead, more...)
		}
		at := bytes.Index(ahead, x)
		if at < 0 {
			t.Fatalf("lengths %v: read %d, of %d bytes, is not in the key stream", ls, i, l)
		}
		ahead = ahead[at+l:]
		copies[s.Intn(len(copies))].Read(make([]byte, s.Intn(64)))
	}
}

func unrelated(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	ls := lengths(t, 12)
	k := key(s)
	ks := []*utils.PRGKey{k}
	for i := 0; i < 4; i++ { // keys that differ in one bit
		o := *k
		o[s.Intn(len(o))] ^= 1 << uint(s.Intn(8))
		if o != *k {
			dup := false
			for _, x := range ks {
				dup = dup || *x == o
			}
			if !dup {
				ks = append(ks, &o)
			}
		}
	}
	ks = append(ks, key(s))
	for _, x := range ks[:len(ks)-1] {
		if *x == *ks[len(ks)-1] {
			ks = ks[:len(ks)-1]
			break
		}
	}
	c.Case("key %x lengths %v and %d more keys", *k, ls, len(ks)-1)
	c.NonTrivial()
	seen := map[string]string{}
	for i, k := range ks {
		g := utils.NewPRG(k)
		for j, l := range ls {
			b := make([]byte, l)
			g.Read(b)
			for p := 0; p+12 <= l; p += 16 {
				me := fmt.Sprintf("key %d read %d byte %d", i, j, p)
				v := string(b[p : p+12])
				if o, ok := seen[v]; ok {
					t.Fatalf("lengths %v: %s and %s give the same bytes %x", ls, o, me, v)
				}
				seen[v] = me
			}
		}
	}
}

func prgUniform(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	l := rapid.SampledFrom([]int{1, 4, 8, 15, 16, 17, 40}).Draw(t, "length")
	manyKeys := rapid.Bool().Draw(t, "keys")
	c.Case("length %d, key per read=%v tape=%x", l, manyKeys, s.U64())
	c.NonTrivial()
	const N = 3000
	b := stat.New(N)
	g := utils.NewPRG(key(s))
	for i := 0; i < N; i++ {
		if manyKeys {
			var k utils.PRGKey
			binary.BigEndian.PutUint32(k[4*s.Intn(4):], uint32(i+1)) // related keys
			copy(k[:1], s.Bytes(1))
			g = utils.NewPRG(&k)
		}
		x := s.Bytes(l)
		g.Read(x)
		b.Add(x)
	}
	if err := b.Balanced(20000, s); err != nil {
		t.Fatalf("length %d: %v", l, err)
	}
}

// freshKeys makes generators with random keys, also from several goroutines.
func freshKeys(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	n := rapid.IntRange(2, 40).Draw(t, "n")
	c.Case("%d keys tape=%x", n, s.U64())
	c.NonTrivial()
	out := make([][2]string, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			k := utils.RandomPRGKey()
			b := make([]byte, 16)
			utils.RandomPRG().Read(b)
			out[i] = [2]string{string(k[:]), string(b)}
		}(i)
	}
	wg.Wait()
	seen := map[string]bool{}
	for _, o := range out {
		for _, x := range o {
			if seen[x] {
				t.Fatalf("a random key or its output repeats: %x", x)
			}
			seen[x] = true
		}
	}
}

func randInt(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	m := new(big.Int).SetBytes(s.Bytes(1 + s.Intn(20)))
	m.Add(m, big.NewInt(1))
	c.Case("modulus %v", m)
	c.NonTrivialIf(m.BitLen() > 1)
	seen := map[string]bool{}
	for i := 0; i < 20; i++ {
		x := utils.RandInt(m)
		if x.Sign() < 0 || x.Cmp(m) >= 0 {
			t.Fatalf("%v is not below %v", x, m)
		}
		if m.BitLen() > 100 && seen[x.String()] {
			t.Fatalf("%v repeats modulo %v", x, m)
		}
		seen[x.String()] = true
	}
}

// buffered reads words of eight bytes and small numbers, which take one byte,
// from the buffered generator, so that words meet the ends of its buffer in
// every way.
func buffered(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	k := key(s)
	every := rapid.SampledFrom([]int{1, 3, 50, 500, 2000}).Draw(t, "every")
	const N = 24000
	seed := s.U64()
	c.Case("key %x, a small number about every %d words, tape=%x", *k, every, seed)
	c.NonTrivial()
	a, b := utils.NewBufPRG(utils.NewPRG(k)), utils.NewBufPRG(utils.NewPRG(k))
	m := big.NewInt(256)
	seen := map[uint64]int{}
	r := hx.NewStream(seed)
	for i := 0; i < N; i++ {
		if r.Intn(every) == 0 {
			x, y := a.RandInt(m), b.RandInt(m)
			if x.Cmp(y) != 0 || x.Sign() < 0 || x.Cmp(m) >= 0 {
				t.Fatalf("word %d: small numbers %v and %v from one key", i, x, y)
			}
		}
		var x, y uint64
		if i%5 == 4 {
			v, w := a.Int63(), b.Int63()
			if v < 0 {
				t.Fatalf("word %d: Int63 gives %d", i, v)
			}
			x, y = uint64(v), uint64(w)
			if o, ok := seen[x|1<<63]; ok {
				t.Fatalf("Int63 at %d repeats the word at %d", i, o)
			}
		} else {
			x, y = a.Uint64(), b.Uint64()
		}
		if x != y {
			t.Fatalf("word %d: %x and %x from one key", i, x, y)
		}
		if o, ok := seen[x]; ok {
			t.Fatalf("word %d repeats the word at %d: %x", i, o, x)
		}
		seen[x] = i
		if x>>24 == 0 || x<<24 == 0 || x>>24 == 1<<40-1 {
			t.Fatalf("word %d has five equal bytes at one end: %016x", i, x)
		}
	}
}
