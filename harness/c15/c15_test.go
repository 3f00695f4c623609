package c15

import (
	"fmt"
	"math"
	"testing"

	"aaverif/gen"
	"aaverif/hx"
	"aaverif/single"

	"github.com/si-co/vpir-code/lib/ecc"
	"github.com/si-co/vpir-code/lib/matrix"
	"lukechampine.com/uint128"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	hx.Main(m, hx.Meta{ID: "C15",
		Rule:        "all words of up to 7 symbols over 4 symbols and random longer words (to thousands of symbols) against the strict majority; encodings with up to t corruptions; amplified retrieval with honest servers, with answers in which chosen repetitions are steered to the other bit, and with answers in which chosen repetitions or columns carry a large error; non-trivial when a word has at least two distinct symbols, or the database has more than one entry",
		Assumptions: []string{"repetitions are steered with the scalars found by replaying the client's randomness for two rows (needs two rows or more)"}})
}

func TestProps(t *testing.T) {
	hx.Each(t, "words", 1, allWords)
	hx.Run(t, "random-words", 20000, 300000, randomWords)
	hx.Run(t, "corruptions", 20000, 300000, corruptions)
	hx.Run(t, "honest", 2500, 40000, honest)
	hx.Run(t, "large", 40, 400, large)
	hx.Run(t, "many-repetitions", 25, 400, manyReps)
	hx.Run(t, "long-words", 60, 900, longWords)
	hx.Run(t, "majority", 2500, 40000, func(t *rapid.T, c *hx.C) { majority(t, c, few) })
	hx.Run(t, "majority-many", 40, 600, func(t *rapid.T, c *hx.C) { majority(t, c, many) })
	hx.Run(t, "one-fails", 2500, 40000, func(t *rapid.T, c *hx.C) { oneFails(t, c, few) })
	hx.Run(t, "one-fails-many", 80, 1500, func(t *rapid.T, c *hx.C) { oneFails(t, c, many) })
}

func reference(w []uint32) (uint32, bool) {
	n := map[uint32]int{}
	for _, x := range w {
		n[x]++
	}
	for x, k := range n {
		if 2*k > len(w) {
			return x, true
		}
	}
	return 0, false
}

func checkWord(t int, w []uint32) error {
	in := append([]uint32{}, w...)
	got, err := ecc.New(t).Decode(in)
	want, ok := reference(w)
	if ok != (err == nil) {
		return fmt.Errorf("word %v: majority %v, error %v", w, ok, err)
	}
	if ok && got != want {
		return fmt.Errorf("word %v decodes to %d instead of %d", w, got, want)
	}
	if fmt.Sprint(in) != fmt.Sprint(w) {
		return fmt.Errorf("word %v is now %v", w, in)
	}
	return nil
}

func allWords(_ int, c *hx.C) error {
	n := 0
	for l := 1; l <= 7; l++ {
		w := make([]uint32, l)
		for k := 0; k < 1<<uint(2*l); k++ {
			for i := range w {
				w[i] = uint32(k>>uint(2*i)) & 3
			}
			if err := checkWord((l-1)/2, w); err != nil {
				return err
			}
			n++
		}
	}
	c.Case("all %d words of 1..7 symbols over {0,1,2,3}", n)
	c.NonTrivial()
	return nil
}

func symbols(t *rapid.T) []uint32 {
	return rapid.SliceOfN(rapid.OneOf(rapid.Uint32Range(0, 3), rapid.Uint32(), rapid.SampledFrom([]uint32{0, 1, math.MaxUint32, 1 << 31})), 1, 5).Draw(t, "alphabet")
}

func randomWords(t *rapid.T, c *hx.C) {
	tt := rapid.IntRange(0, 30).Draw(t, "t")
	a := symbols(t)
	if len(a) > 3 && rapid.Bool().Draw(t, "few") {
		a = a[:2]
	}
	w := make([]uint32, 2*tt+1)
	for i := range w {
		w[i] = rapid.SampledFrom(a).Draw(t, "symbol")
	}
	c.Case("t=%d word %v", tt, w)
	c.NonTrivialIf(len(w) > 1)
	if _, ok := reference(w); ok {
		c.Class("majority")
	} else {
		c.Class("no majority")
	}
	if err := checkWord(tt, w); err != nil {
		t.Fatalf("%v", err)
	}
}

// longWords are words whose number of symbols, or of equal symbols, needs two
// or three bytes.
func longWords(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	tt := hx.Size(t, "t", 100, 40000, 127, 128, 255, 256, 16383, 16384, 32767, 32768)
	a := symbols(t)
	n := 2*tt + 1
	w := make([]uint32, n)
	// as many of the first symbol as decide, or a few more or less
	k := tt + 1 + s.Intn(3) - 1
	if s.Intn(3) == 0 {
		k = s.Intn(n + 1)
	}
	how := s.Intn(4)
	for i := range w {
		w[i] = a[s.Intn(len(a))]
		if how == 3 {
			w[i] = a[len(a)-1]
		}
	}
	switch how {
	case 0, 3: // first
		for i := 0; i < k; i++ {
			w[i] = a[0]
		}
	case 1: // last
		for i := n - k; i < n; i++ {
			w[i] = a[0]
		}
	case 2: // spread
		for i := 0; i < k; i++ {
			w[i*n/k] = a[0]
		}
	}
	c.Case("t=%d: %d of %v, placement %d, tape=%x", tt, k, a, how, s.U64())
	c.NonTrivial()
	if err := checkWord(tt, w); err != nil {
		if m := err.Error(); len(m) > 300 {
			err = fmt.Errorf("%s", m[:300])
		}
		t.Fatalf("%v", err)
	}
	if err := checkWord(tt, ecc.New(tt).Encode(a[0])); err != nil {
		t.Fatalf("encoded word of t=%d: %.300v", tt, err)
	}
}

func corruptions(t *rapid.T, c *hx.C) {
	tt := rapid.IntRange(0, 40).Draw(t, "t")
	a := symbols(t)
	e := ecc.New(tt)
	w := e.Encode(a[0])
	if len(w) != 2*tt+1 {
		t.Fatalf("t=%d: code word of %d symbols", tt, len(w))
	}
	for i, x := range w {
		if x != a[0] {
			t.Fatalf("t=%d: symbol %d of the code word of %d is %d", tt, i, a[0], x)
		}
	}
	p := gen.Perm(t, len(w), "positions")
	k := rapid.IntRange(0, tt).Draw(t, "corrupted")
	if rapid.Bool().Draw(t, "max") {
		k = tt
	}
	for _, i := range p[:k] {
		w[i] = rapid.SampledFrom(a).Draw(t, "symbol")
	}
	c.Case("t=%d symbol %d corrupted %v: %v", tt, a[0], p[:k], w)
	c.NonTrivialIf(k > 0)
	got, err := e.Decode(w)
	if err != nil || got != a[0] {
		t.Fatalf("t=%d: word %v decodes to %d (%v) instead of %d", tt, w, got, err, a[0])
	}
}

func parts(t *rapid.T, sc *single.Scheme, q []byte) []*matrix.Matrix {
	ms := matrix.BytesToMatrices(q)
	if len(ms) != sc.Reps {
		t.Fatalf("%s: %d queries instead of %d", sc.Desc, len(ms), sc.Reps)
	}
	for _, m := range ms {
		if m == nil || m.Rows() != 1 || m.Cols() != sc.Rows {
			t.Fatalf("%s: query of the wrong shape", sc.Desc)
		}
	}
	return ms
}

func honest(t *rapid.T, c *hx.C) { retrieve(t, c, 14) }
func large(t *rapid.T, c *hx.C)  { retrieve(t, c, 90) }

// many repetitions: their number needs more than a byte
// few and many draw databases that are retrieved with that many repetitions.
func few(t *rapid.T, s *hx.Stream) *single.Scheme { return single.New(t, s, single.Amplify, 12) }

func many(t *rapid.T, s *hx.Stream) *single.Scheme {
	return single.NewT(t, s, single.Amplify, 5, rapid.IntRange(4, 200).Draw(t, "t"))
}

func manyReps(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	tt := rapid.SampledFrom([]int{10, 40, 63, 64, 127, 128, 140, 200, 1200, 2048}).Draw(t, "t")
	retrieveOn(t, c, s, single.NewT(t, s, single.Amplify, 5, tt))
}

func retrieve(t *rapid.T, c *hx.C, max int) {
	s := hx.Tape(t)
	retrieveOn(t, c, s, single.New(t, s, single.Amplify, max))
}

func retrieveOn(t *rapid.T, c *hx.C, s *hx.Stream, sc *single.Scheme) {
	cl := sc.Client(s)
	n := rapid.IntRange(1, 3).Draw(t, "queries")
	c.Case("%s tape=%x", sc.Desc, s.U64())
	c.NonTrivialIf(sc.Rows*sc.Cols > 1)
	for k := 0; k < n; k++ {
		idx := gen.PickIndex(t, sc.Rows, sc.Cols, "idx")
		c.More("index %d", idx)
		q, err := cl.Query(idx)
		if err != nil {
			t.Fatalf("%s index %d: %v", sc.Desc, idx, err)
		}
		ms := parts(t, sc, q)
		for i := range ms {
			for j := 0; j < i; j++ {
				// the repetitions are independent: their entries differ by more than errors
				near := 0
				for r := 0; r < sc.Rows; r++ {
					if d := int32(ms[i].Get(0, r) - ms[j].Get(0, r)); d > -4096 && d < 4096 {
						near++
					}
				}
				if near >= 4 || near >= 3 && near == sc.Rows {
					t.Fatalf("%s index %d: repetitions %d and %d agree up to small errors in %d of %d entries", sc.Desc, idx, i, j, near, sc.Rows)
				}
			}
		}
		a, err := sc.Answer(q)
		if err != nil {
			t.Fatalf("%s index %d: %v", sc.Desc, idx, err)
		}
		if rapid.IntRange(0, 4).Draw(t, "between") == 0 { // another client is answered in between
			oq, err := sc.Client(s).Query(gen.PickIndex(t, sc.Rows, sc.Cols, "other"))
			if err != nil {
				t.Fatalf("%s: %v", sc.Desc, err)
			}
			if _, err := sc.Answer(oq); err != nil {
				t.Fatalf("%s: %v", sc.Desc, err)
			}
		}
		got, err := cl.Reconstruct(a)
		if err != nil || got != int(sc.Bits[idx]) {
			t.Fatalf("%s index %d: got %d (%v) instead of %d", sc.Desc, idx, got, err, sc.Bits[idx])
		}
	}
}

// majority steers chosen repetitions to the other bit of the column.
func majority(t *rapid.T, c *hx.C, of func(*rapid.T, *hx.Stream) *single.Scheme) {
	s := hx.Tape(t)
	sc := of(t, s)
	idx := gen.PickIndex(t, sc.Rows, sc.Cols, "idx")
	row, col := idx/sc.Cols, idx%sc.Cols
	k := rapid.IntRange(0, sc.Reps).Draw(t, "steered")
	p := gen.Perm(t, sc.Reps, "repetitions")[:k]
	c.Case("%s index %d repetitions %v tape=%x", sc.Desc, idx, p, s.U64())
	if sc.Rows < 2 {
		c.Class("single row")
		return
	}
	seed := s.U64()
	cl := sc.Client(hx.NewStream(seed))
	q, err := cl.Query(idx)
	if err != nil {
		t.Fatalf("%v", err)
	}
	q2, err := sc.Client(hx.NewStream(seed)).Query((row+1)%sc.Rows*sc.Cols + col)
	if err != nil {
		t.Fatalf("%v", err)
	}
	m, m2 := parts(t, sc, q), parts(t, sc, q2)
	for i := range m {
		for r := 0; r < sc.Rows; r++ {
			d := int32(m[i].Get(0, r) - m2[i].Get(0, r))
			if r != row && r != (row+1)%sc.Rows && (d > 400 || d < -400) {
				c.Class("not replayable")
				return
			}
		}
	}
	a, err := sc.Answer(q)
	if err != nil {
		t.Fatalf("%v", err)
	}
	bit := int(sc.Bits[idx])
	a = sc.Words(a, func(w [][]uint128.Uint128) {
		for _, i := range p {
			tt := m[i].Get(0, row) - m2[i].Get(0, row)
			if bit == 1 {
				tt = -tt
			}
			w[i][col] = uint128.From64(uint64(uint32(w[i][col].Lo) + tt))
		}
	})
	c.NonTrivialIf(k > 0)
	want := bit
	if 2*k > sc.Reps {
		want = 1 - bit
		c.Class("majority steered")
	} else {
		c.Class("minority steered")
	}
	got, err := cl.Reconstruct(a)
	// the error of the scalars' difference may leave the bound in rare cases,
	// with two rows or more it has to exceed four standard deviations
	if err != nil {
		if sc.Rows*84 > 250 {
			t.Fatalf("%s index %d, %d of %d repetitions steered: %v", sc.Desc, idx, k, sc.Reps, err)
		}
		c.Class("rejected")
		return
	}
	if got != want {
		t.Fatalf("%s index %d, %d of %d repetitions steered from %d: got %d", sc.Desc, idx, k, sc.Reps, bit, got)
	}
}

// oneFails puts a large error into some columns of some repetitions.
func oneFails(t *rapid.T, c *hx.C, of func(*rapid.T, *hx.Stream) *single.Scheme) {
	s := hx.Tape(t)
	sc := of(t, s)
	idx := gen.PickIndex(t, sc.Rows, sc.Cols, "idx")
	cl := sc.Client(s)
	q, err := cl.Query(idx)
	if err != nil {
		t.Fatalf("%v", err)
	}
	a, err := sc.Answer(q)
	if err != nil {
		t.Fatalf("%v", err)
	}
	if rapid.IntRange(0, 5).Draw(t, "kind") == 0 {
		// fewer or more repetitions
		ms := matrix.BytesToMatrices(a)
		n := rapid.IntRange(1, sc.Reps+3).Draw(t, "n")
		var out []*matrix.Matrix
		for i := 0; i < n; i++ {
			out = append(out, ms[i%sc.Reps])
		}
		c.Case("%s index %d answered with %d repetitions tape=%x", sc.Desc, idx, n, s.U64())
		c.Class("repetitions")
		c.NonTrivialIf(n != sc.Reps)
		got, err := cl.Reconstruct(matrix.MatricesToBytes(out))
		if n == sc.Reps && (err != nil || got != int(sc.Bits[idx])) {
			t.Fatalf("%s index %d: got %d (%v)", sc.Desc, idx, got, err)
		}
		if n != sc.Reps && err == nil {
			t.Fatalf("%s index %d: accepts an answer of %d repetitions", sc.Desc, idx, n)
		}
		return
	}
	rep := rapid.IntRange(0, sc.Reps-1).Draw(t, "repetition")
	col := rapid.IntRange(0, sc.Cols-1).Draw(t, "column")
	e := sc.Large(s)
	c.Case("%s index %d: repetition %d, column %d, error %v tape=%x", sc.Desc, idx, rep, col, e, s.U64())
	c.NonTrivial()
	c.Class("large error")
	// an error equal to the secret scalar goes unnoticed, which happens once in
	// a million queries
	for try := 0; ; try++ {
		a = sc.Words(a, func(w [][]uint128.Uint128) {
			w[rep][col] = uint128.From64(uint64(uint32(w[rep][col].Lo) + uint32(e.Lo)))
		})
		got, err := cl.Reconstruct(a)
		if err != nil {
			return
		}
		if try == 2 {
			t.Fatalf("%s index %d: accepts %d although repetition %d fails at column %d", sc.Desc, idx, got, rep, col)
		}
		if q, err = cl.Query(idx); err != nil {
			t.Fatalf("%v", err)
		}
		if a, err = sc.Answer(q); err != nil {
			t.Fatalf("%v", err)
		}
	}
}
