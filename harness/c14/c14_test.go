package c14

import (
	"fmt"
	"math"
	"math/big"
	"sync"
	"testing"

	"aaverif/gen"
	"aaverif/hx"
	"aaverif/single"
	"aaverif/stat"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/utils"
	"lukechampine.com/uint128"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	hx.Main(m, hx.Meta{ID: "C14",
		Rule:        "random databases and pairs of indices for every single-server scheme; per case N queries are drawn and compared bit by bit between the indices and with a coin, consecutive queries and repetitions are compared for reused secrets (also for large databases), every byte of the client's randomness is changed to see that the query depends on it, pairs of queries made with equal secrets expose the errors, and the error sampler is compared with the configured discrete Gaussian; non-trivial when the indices differ, or more than 1000 error samples are judged",
		Assumptions: []string{"errors are exposed by replaying the client's randomness while the error sampler keeps its own", "statistical: biases below about 0.14 per bit and widths within 40 % (20 % for the sampler's bins) are not seen; thresholds leave less than 1e-9 per run to chance"}})
}

func TestProps(t *testing.T) {
	hx.Run(t, "uniform", 60, 900, uniform)
	hx.Run(t, "fresh", 600, 12000, fresh)
	hx.Run(t, "errors", 60, 900, errors)
	hx.Run(t, "unmasked", 60, 900, unmasked)
	hx.Run(t, "dh-uniform", 4, 60, dhUniform)
	hx.Run(t, "sampler", 6, 60, sampler)
	hx.Run(t, "large", 16, 250, large)
	hx.Run(t, "randomness", 40, 600, randomness)
	hx.Run(t, "concurrent", 10, 100, concurrent)
}

func lattice(t *rapid.T, s *hx.Stream, max, max128 int) *single.Scheme {
	n := rapid.SampledFrom([]string{single.LWE, single.LWE, single.LWE128, single.Amplify}).Draw(t, "scheme")
	if n == single.LWE128 {
		return single.New(t, s, n, max128)
	}
	return single.New(t, s, n, max)
}

// entries decodes a query into its words.
func entries(sc *single.Scheme, q []byte) (out []uint128.Uint128) {
	switch sc.Name {
	case single.LWE128:
		m := matrix.BytesToMatrix128(q)
		if m == nil {
			return nil
		}
		for i := 0; i < m.Cols(); i++ {
			out = append(out, m.Get(0, i))
		}
	default:
		ms := []*matrix.Matrix{nil}
		if sc.Name == single.LWE {
			ms[0] = matrix.BytesToMatrix(q)
		} else {
			ms = matrix.BytesToMatrices(q)
		}
		for _, m := range ms {
			if m == nil {
				return nil
			}
			for i := 0; i < m.Cols(); i++ {
				out = append(out, uint128.From64(uint64(m.Get(0, i))))
			}
		}
	}
	return
}

func query(t *rapid.T, sc *single.Scheme, cl single.Client, idx int) ([]byte, []uint128.Uint128) {
	q, err := cl.Query(idx)
	if err != nil {
		t.Fatalf("%s index %d: %v", sc.Desc, idx, err)
	}
	if sc.Name == single.DH {
		return q, nil
	}
	e := entries(sc, q)
	if len(e) != sc.Reps*sc.Rows {
		t.Fatalf("%s index %d: %d entries in the query", sc.Desc, idx, len(e))
	}
	return q, e
}

// signed is the representative of a word nearest to zero.
func signed(sc *single.Scheme, w uint128.Uint128) float64 {
	if sc.Name != single.LWE128 {
		return float64(int32(uint32(w.Lo)))
	}
	b := w.Big()
	if w.Hi>>63 == 1 {
		b.Sub(b, new(big.Int).Lsh(big.NewInt(1), 128))
	}
	f, _ := new(big.Float).SetInt(b).Float64()
	return f
}

func wordBytes(sc *single.Scheme, w uint128.Uint128) []byte {
	var b [16]byte
	w.PutBytes(b[:])
	if sc.Name != single.LWE128 {
		return b[:4]
	}
	return b[:]
}

func uniform(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	sc := lattice(t, s, 6, 3)
	a, b := gen.PickIndex(t, sc.Rows, sc.Cols, "a"), gen.PickIndex(t, sc.Rows, sc.Cols, "b")
	c.Case("%s indices %d %d tape=%x", sc.Desc, a, b, s.U64())
	c.NonTrivialIf(a != b)
	c.Class(sc.Name)
	N := 512
	if sc.Name == single.LWE {
		N = 1024
	}
	v := [2]*stat.Bits{stat.New(N), stat.New(N)}
	cl := sc.Client(s)
	for i := 0; i < N; i++ {
		for w, idx := range []int{a, b} {
			if s.Intn(16) == 0 {
				cl = sc.Client(s)
			}
			_, e := query(t, sc, cl, idx)
			var row []byte
			for _, x := range e {
				row = append(row, wordBytes(sc, x)...)
			}
			v[w].Add(row)
		}
	}
	for w := range v {
		if err := v[w].Balanced(60000, s); err != nil {
			t.Fatalf("%s, index %d: %v", sc.Desc, []int{a, b}[w], err)
		}
	}
	if err := stat.Same(v[0], v[1], 60000, s); err != nil {
		t.Fatalf("%s, indices %d and %d: %v", sc.Desc, a, b, err)
	}
}

// fresh compares queries pairwise: with fresh secrets no difference of two
// queries is small in several entries.
func fresh(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	name := rapid.SampledFrom([]string{single.LWE, single.LWE128, single.Amplify, single.DH}).Draw(t, "scheme")
	sc := single.New(t, s, name, 6)
	c.Case("%s tape=%x", sc.Desc, s.U64())
	c.NonTrivial()
	c.Class(name)
	idx := gen.PickIndex(t, sc.Rows, sc.Cols, "idx")
	other := gen.PickIndex(t, sc.Rows, sc.Cols, "other")
	cl := sc.Client(s)
	type part struct {
		name string
		w    []uint128.Uint128
	}
	var parts []part
	seen := map[string]string{}
	for q := 0; q < 4; q++ {
		i := []int{idx, idx, other, idx}[q]
		if q == 3 || (q > 0 && s.Intn(3) == 0) {
			cl = sc.Client(s)
		}
		hx.Predictable()
		raw, e := query(t, sc, cl, i)
		if o, ok := seen[string(raw)]; ok {
			t.Fatalf("%s: query %d for index %d equals query %s", sc.Desc, q, i, o)
		}
		seen[string(raw)] = fmt.Sprint(q)
		if name == single.DH {
			n := sc.EC.ElementSize
			if len(raw) != n*sc.Cols {
				t.Fatalf("%s: query of %d bytes", sc.Desc, len(raw))
			}
			for k := 0; k < sc.Cols; k++ {
				me := fmt.Sprintf("entry %d of query %d", k, q)
				if o, ok := seen[string(raw[k*n:(k+1)*n])]; ok && sc.Cols > 1 {
					t.Fatalf("%s: %s equals %s", sc.Desc, me, o)
				}
				seen[string(raw[k*n:(k+1)*n])] = me
				if base, err := database.MarshalGroupElements([]group.Element{database.HashIndexToGroup(uint64(k), sc.EC.Group)}, n); err == nil && string(base) == string(raw[k*n:(k+1)*n]) {
					t.Fatalf("%s: %s is not masked", sc.Desc, me)
				}
			}
			continue
		}
		for k := 0; k < sc.Reps; k++ {
			parts = append(parts, part{fmt.Sprintf("query %d repetition %d", q, k), e[k*sc.Rows : (k+1)*sc.Rows]})
		}
	}
	small := func(x float64) bool { return math.Abs(x) < 1<<12 }
	for i := range parts {
		for j := -1; j < i; j++ {
			n := 0
			for k, x := range parts[i].w {
				if j >= 0 {
					x = x.SubWrap(parts[j].w[k])
				}
				if small(signed(sc, x)) {
					n++
				}
			}
			// one small entry has probability 2^-19
			if n >= 4 || (n >= 2 && n == sc.Rows) || (sc.Name == single.LWE128 && n >= 1) {
				if j < 0 {
					t.Fatalf("%s: %d of %d entries of %s are nearly zero", sc.Desc, n, sc.Rows, parts[i].name)
				}
				t.Fatalf("%s: %d of %d entries of %s and %s nearly agree", sc.Desc, n, sc.Rows, parts[i].name, parts[j].name)
			}
		}
	}
}

// errors replays the client's randomness: two queries with equal secrets
// differ by the difference of their errors.
func errors(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	sc := lattice(t, s, 16, 6)
	idx := gen.PickIndex(t, sc.Rows, sc.Cols, "idx")
	c.Case("%s index %d tape=%x", sc.Desc, idx, s.U64())
	c.NonTrivial()
	c.Class(sc.Name)
	N := 600
	n := sc.Reps * sc.Rows
	sum, sq := make([]float64, n), make([]float64, n)
	cross := make([]float64, n) // with the next entry
	lag := make([]float64, n)   // with the previous sample
	prev := make([]float64, n)
	zero := 0
	for k := 0; k < N; k++ {
		seed := s.U64()
		hx.Predictable()
		_, e1 := query(t, sc, sc.Client(hx.NewStream(seed)), idx)
		hx.Predictable()
		_, e2 := query(t, sc, sc.Client(hx.NewStream(seed)), idx)
		d := make([]float64, n)
		for i := range d {
			d[i] = signed(sc, e1[i].SubWrap(e2[i]))
			if math.Abs(d[i]) > 400 {
				t.Fatalf("%s index %d: errors of entry %d differ by %.0f for equal secrets", sc.Desc, idx, i, d[i])
			}
			if d[i] == 0 {
				zero++
			}
		}
		for i := range d {
			sum[i] += d[i]
			sq[i] += d[i] * d[i]
			cross[i] += d[i] * d[(i+1)%n]
			lag[i] += d[i] * prev[i]
		}
		prev = d
	}
	sigma := utils.ParamsDefault().Sigma
	want := 2 * sigma * sigma
	for i := range sum {
		v := sq[i] / float64(N)
		if v < 0.55*want || v > 1.6*want {
			t.Fatalf("%s index %d: the errors of entry %d have variance %.1f instead of %.1f", sc.Desc, idx, i, v/2, want/2)
		}
		if n > 1 && math.Abs(cross[i])/float64(N) > 0.4*want {
			t.Fatalf("%s index %d: the errors of entries %d and %d are correlated (%.2f)", sc.Desc, idx, i, (i+1)%n, cross[i]/float64(N)/want)
		}
		if math.Abs(lag[i])/float64(N) > 0.4*want {
			t.Fatalf("%s index %d: the errors of entry %d in consecutive queries are correlated (%.2f)", sc.Desc, idx, i, lag[i]/float64(N)/want)
		}
	}
}

// blank yields zeros for long reads (secrets) and random bytes for short ones
// (scalars).
type blank struct{ s *hx.Stream }

func (b blank) Read(p []byte) (int, error) {
	if len(p) > 64 {
		for i := range p {
			p[i] = 0
		}
		return len(p), nil
	}
	return b.s.Read(p)
}

// unmasked looks at queries made with a zero secret: the errors are small and
// centred, and the scalar at the requested position is uniform.
func unmasked(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	sc := lattice(t, s, 12, 5)
	idx := gen.PickIndex(t, sc.Rows, sc.Cols, "idx")
	c.Case("%s index %d tape=%x", sc.Desc, idx, s.U64())
	N := 512
	row := idx / sc.Cols
	scal := stat.New(N)
	sum, cnt := 0.0, 0
	var ts []uint128.Uint128
	cl := sc.Client(blank{s})
	for k := 0; k < N; k++ {
		if s.Intn(8) == 0 {
			cl = sc.Client(blank{s})
		}
		_, e := query(t, sc, cl, idx)
		var v []byte
		for i, x := range e {
			if i%sc.Rows == row {
				// low bits carry the error, drop the lowest byte
				ts = append(ts, x)
				v = append(v, wordBytes(sc, x)[1:]...)
				continue
			}
			f := signed(sc, x)
			if math.Abs(f) > 200 {
				c.Class("no unmasked view")
				return // the secret is drawn in another way
			}
			sum += f
			cnt++
		}
		scal.Add(v)
	}
	c.NonTrivialIf(cnt > 1000)
	c.Class(sc.Name)
	sigma := utils.ParamsDefault().Sigma
	// mean within 9 standard deviations
	if cnt > 0 && math.Abs(sum/float64(cnt)) > 9*sigma/math.Sqrt(float64(cnt)) {
		t.Fatalf("%s index %d: the errors have mean %.2f over %d samples", sc.Desc, idx, sum/float64(cnt), cnt)
	}
	if sc.Rows == 1 && sc.Name != single.LWE128 {
		// with a single row the view cannot be told from a masked one, and the
		// scalar is checked the same way
		c.Class("single row")
	}
	if err := scal.Balanced(20000, s); err != nil {
		t.Fatalf("%s index %d: the scalar at the requested position: %v", sc.Desc, idx, err)
	}
	for i := 1; i < len(ts); i++ {
		if math.Abs(signed(sc, ts[i].SubWrap(ts[i-1]))) < 300 && i+1 < len(ts) && math.Abs(signed(sc, ts[i+1].SubWrap(ts[i]))) < 300 {
			t.Fatalf("%s index %d: the scalar at the requested position repeats", sc.Desc, idx)
		}
	}
}

func dhUniform(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	g := rapid.SampledFrom([]group.Group{group.Ristretto255, group.P256}).Draw(t, "group")
	cols := rapid.IntRange(2, 3).Draw(t, "cols")
	db := database.CreateRandomEllipticWithDigest(s, cols, g, false)
	a := rapid.IntRange(0, cols-1).Draw(t, "a")
	b := (a + rapid.IntRange(1, cols-1).Draw(t, "b")) % cols
	c.Case("%s %d columns, indices %d %d tape=%x", gen.GroupName(g), cols, a, b, s.U64())
	c.NonTrivialIf(a != b)
	N := 1024
	v := [2]*stat.Bits{stat.New(N), stat.New(N)}
	cl := client.NewDH(s, &db.Info)
	for i := 0; i < N; i++ {
		for w, idx := range []int{a, b} {
			q, err := cl.QueryBytes(idx)
			if err != nil {
				t.Fatalf("%v", err)
			}
			v[w].Add(q)
		}
	}
	if err := stat.Same(v[0], v[1], 40000, s); err != nil {
		t.Fatalf("%s, indices %d and %d: %v", gen.GroupName(g), a, b, err)
	}
	for w := range v {
		sub := &stat.Bits{N: N}
		n := db.ElementSize
		for k := 0; k < cols; k++ { // the inner bytes of an encoding are free
			sub.Cols = append(sub.Cols, v[w].Cols[8*(k*n+2):8*(k*n+n-2)]...)
		}
		if err := sub.Balanced(40000, s); err != nil {
			t.Fatalf("%s, index %d: %v", gen.GroupName(g), []int{a, b}[w], err)
		}
	}
}

// sampler compares the error sampler and the matrices made from it with the
// discrete Gaussian of the configured width.
func sampler(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	hx.Reseed(s.U64())
	kind := rapid.IntRange(0, 2).Draw(t, "kind")
	r, cc := rapid.IntRange(1, 300).Draw(t, "rows"), rapid.IntRange(1, 300).Draw(t, "cols")
	N := 150000
	c.Case("%s %dx%d tape=%x", []string{"GaussSample", "NewGauss", "NewGauss128"}[kind], r, cc, s.U64())
	c.NonTrivial()
	c.Class([]string{"GaussSample", "NewGauss", "NewGauss128"}[kind])
	sigma := utils.ParamsDefault().Sigma
	const R = 40
	counts, prob := make([]int, 2*R+3), make([]float64, 2*R+3)
	z := 0.0
	for x := -300; x <= 300; x++ {
		z += math.Exp(-float64(x*x) / (2 * sigma * sigma))
	}
	for x := -300; x <= 300; x++ {
		b := x + R + 1
		if b < 0 {
			b = 0
		} else if b > 2*R+2 {
			b = 2*R + 2
		}
		prob[b] += math.Exp(-float64(x*x)/(2*sigma*sigma)) / z
	}
	n := 0
	add := func(x float64) {
		b := 0
		if x > R {
			b = 2*R + 2
		} else if x >= -R {
			b = int(x) + R + 1
		}
		counts[b]++
		n++
	}
	for n < N {
		switch kind {
		case 0:
			add(float64(utils.GaussSample()))
		case 1:
			m := matrix.NewGauss(r, cc)
			if m.Rows() != r || m.Cols() != cc || m.Len() != r*cc {
				t.Fatalf("NewGauss(%d,%d) is %dx%d", r, cc, m.Rows(), m.Cols())
			}
			for i := 0; i < r; i++ {
				for j := 0; j < cc; j++ {
					add(float64(int32(m.Get(i, j))))
				}
			}
		case 2:
			m := matrix.NewGauss128(r, cc)
			for i := 0; i < r; i++ {
				for j := 0; j < cc; j++ {
					w := m.Get(i, j)
					if w.Hi != 0 && w.Hi != math.MaxUint64 {
						t.Fatalf("NewGauss128: error %v", w)
					}
					add(float64(int64(w.Lo)))
				}
			}
		}
	}
	if err := stat.Fit(counts, prob); err != nil {
		t.Fatalf("bin b stands for the value b-%d: %v", R+1, err)
	}
}

// concurrent makes queries from several clients at once.
func concurrent(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	sc := lattice(t, s, 8, 3)
	idx := gen.PickIndex(t, sc.Rows, sc.Cols, "idx")
	c.Case("%s index %d tape=%x", sc.Desc, idx, s.U64())
	c.NonTrivial()
	var wg sync.WaitGroup
	qs := make([][]byte, 64)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			cl := sc.Client(s)
			for i := 0; i < 8; i++ {
				qs[8*g+i], _ = cl.Query(idx)
			}
		}(g)
	}
	wg.Wait()
	seen := map[string]bool{}
	for i, q := range qs {
		if len(q) == 0 || seen[string(q)] {
			t.Fatalf("%s: query %d of concurrent clients is empty or repeated", sc.Desc, i)
		}
		seen[string(q)] = true
	}
}

// large looks at queries to databases of many rows (columns for DH): nothing
// repeats from query to query, and the errors are independent.
func large(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	name := rapid.SampledFrom([]string{single.LWE, single.LWE, single.LWE128, single.Amplify, single.DH}).Draw(t, "scheme")
	r, cc, tt := 0, rapid.IntRange(1, 2).Draw(t, "cols"), 0
	switch name {
	case single.LWE:
		r = 1 << rapid.IntRange(8, 13).Draw(t, "magnitude")
	case single.Amplify:
		r, tt = 1<<rapid.IntRange(8, 11).Draw(t, "magnitude"), 1
	case single.LWE128:
		r = 1 << rapid.IntRange(6, 9).Draw(t, "magnitude")
	case single.DH:
		r, cc = 1, 1<<rapid.IntRange(5, 10).Draw(t, "magnitude")
	}
	if name == single.DH {
		cc += rapid.IntRange(0, cc-1).Draw(t, "more")
	} else {
		r += rapid.IntRange(0, r-1).Draw(t, "more")
	}
	sc := single.NewOf(t, s, name, r, cc, tt)
	idx := gen.PickIndex(t, sc.Rows, sc.Cols, "idx")
	c.Case("%s index %d tape=%x", sc.Desc, idx, s.U64())
	c.NonTrivial()
	c.Class(name)
	if name == single.DH {
		seen := map[string]string{}
		n := sc.EC.ElementSize
		cl := sc.Client(s)
		for q := 0; q < 3; q++ {
			hx.Predictable()
			raw, _ := query(t, sc, cl, []int{idx, idx, s.Intn(len(sc.Bits))}[q])
			if len(raw) != n*sc.Cols {
				t.Fatalf("%s: query of %d bytes", sc.Desc, len(raw))
			}
			for k := 0; k < sc.Cols; k++ {
				e, me := string(raw[k*n:(k+1)*n]), fmt.Sprintf("entry %d of query %d", k, q)
				if o, ok := seen[e]; ok {
					t.Fatalf("%s: %s equals %s", sc.Desc, me, o)
				}
				seen[e] = me
			}
			cl = sc.Client(s)
		}
		return
	}
	seed := s.U64()
	hx.Predictable()
	_, e1 := query(t, sc, sc.Client(hx.NewStream(seed)), idx)
	hx.Predictable()
	_, e2 := query(t, sc, sc.Client(hx.NewStream(seed)), idx)
	hx.Predictable()
	_, e3 := query(t, sc, sc.Client(s), idx)
	// fresh secrets: entries at equal places, or anywhere in two halves, do not nearly agree
	for shift := 0; shift < len(e1); shift++ {
		near, own := 0, 0
		for i := range e1 {
			j := (i + shift) % len(e1)
			if math.Abs(signed(sc, e1[i].SubWrap(e3[j]))) < 1<<12 {
				near++
			}
			if shift > 0 && math.Abs(signed(sc, e1[i].SubWrap(e1[j]))) < 1<<12 {
				own++
			}
		}
		if near >= 7 || own >= 8 { // own sees each pair twice when it is half the length
			t.Fatalf("%s index %d: %d entries of two queries agree up to small errors at distance %d (%d of one query)", sc.Desc, idx, near, shift, own)
		}
	}
	sigma := utils.ParamsDefault().Sigma
	want := 2 * sigma * sigma
	d := make([]float64, len(e1))
	for i := range d {
		d[i] = signed(sc, e1[i].SubWrap(e2[i]))
		if math.Abs(d[i]) > 400 {
			t.Fatalf("%s index %d: errors of entry %d differ by %.0f for equal secrets", sc.Desc, idx, i, d[i])
		}
	}
	for lag := 0; lag+64 <= len(d); lag++ {
		x := 0.
		for i := 0; i+lag < len(d); i++ {
			x += d[i] * d[i+lag]
		}
		if lag == 0 {
			x -= float64(len(d)) * want
			x /= math.Sqrt2
		}
		if math.Abs(x) > 10*want*math.Sqrt(float64(len(d)-lag)) {
			t.Fatalf("%s index %d: the errors at distance %d are not independent or not of the configured width (%.1f)", sc.Desc, idx, lag, x/want)
		}
	}
	for from := 0; from+100 <= len(d); from += 50 {
		x := 0.
		for _, y := range d[from : from+100] {
			x += y * y
		}
		if x /= 100 * want; x < 0.2 || x > 2.6 {
			t.Fatalf("%s index %d: the errors of entries %d to %d have %.2f times the configured variance", sc.Desc, idx, from, from+100, x)
		}
	}
}

// changed changes one byte of a stream.
type changed struct {
	s   *hx.Stream
	pos int // next byte
	at  int
	n   *int
}

func (r *changed) Read(p []byte) (int, error) {
	n, err := r.s.Read(p)
	if r.at >= r.pos && r.at < r.pos+n {
		p[r.at-r.pos] ^= 0xff
	}
	r.pos += n
	*r.n = r.pos
	return n, err
}

// randomness changes single bytes of the client's randomness: a secret of full
// length makes nearly all of them matter.
func randomness(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	name := rapid.SampledFrom([]string{single.LWE, single.LWE, single.LWE128, single.Amplify}).Draw(t, "scheme")
	r := 4 + 1<<rapid.IntRange(1, 9).Draw(t, "magnitude")
	if name == single.LWE128 && r > 68 {
		r = 68
	}
	sc := single.NewOf(t, s, name, r, rapid.IntRange(1, 9).Draw(t, "cols"), 1)
	idx := gen.PickIndex(t, sc.Rows, sc.Cols, "idx")
	c.Case("%s index %d tape=%x", sc.Desc, idx, s.U64())
	c.Class(name)
	seed := s.U64()
	total := 0
	run := func(at int) []uint128.Uint128 {
		hx.Predictable()
		_, e := query(t, sc, sc.Client(&changed{s: hx.NewStream(seed), at: at, n: &total}), idx)
		return e
	}
	e := run(-1)
	n := total
	if n < 16 {
		c.Class("other randomness")
		return
	}
	c.NonTrivial()
	const tries = 60
	idle := 0
	for k := 0; k < tries; k++ {
		at := s.Intn(n)
		f := run(at)
		diff := 0
		for i := range e {
			if math.Abs(signed(sc, e[i].SubWrap(f[i]))) > 4096 {
				diff++
			}
		}
		if diff < 2 { // the scalars matter for one entry
			idle++
		}
	}
	if idle > 20 {
		t.Fatalf("%s index %d: %d of %d random bytes do not change the query", sc.Desc, idx, idle, tries)
	}
}
