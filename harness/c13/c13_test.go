package c13

import (
	"bytes"
	"fmt"
	"sort"
	"testing"

	"aaverif/gen"
	"aaverif/hx"
	"aaverif/single"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/matrix"
	"lukechampine.com/uint128"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	hx.Main(m, hx.Meta{ID: "C13",
		Rule:        "random databases of the four single-server schemes, indices and manipulations of the answer (entries changed by small, large or special errors, swapped, negated, scaled, replayed from earlier queries, replaced by query entries or identities, computed on databases that differ in chosen bits including the requested one, all repetitions or some, truncated, extended, reshaped, undecodable), large databases included; non-trivial when the bytes differ from the honest answer",
		Assumptions: []string{"the lattice schemes accept a random error with probability about 2^-20 per entry, so a wrong output counts when it repeats with fresh randomness"}})
}

func TestProps(t *testing.T) {
	hx.Run(t, "lwe", 8000, 150000, func(t *rapid.T, c *hx.C) { cheat(t, c, single.LWE, 12) })
	hx.Run(t, "amplify", 3000, 60000, func(t *rapid.T, c *hx.C) { cheat(t, c, single.Amplify, 10) })
	hx.Run(t, "lwe128", 1500, 30000, func(t *rapid.T, c *hx.C) { cheat(t, c, single.LWE128, 8) })
	hx.Run(t, "dh", 1200, 25000, func(t *rapid.T, c *hx.C) { cheat(t, c, single.DH, 6) })
	hx.Run(t, "amplified-many", 60, 1000, func(t *rapid.T, c *hx.C) {
		s := hx.Tape(t)
		sc := single.NewT(t, s, single.Amplify, 4, rapid.IntRange(4, 60).Draw(t, "t"))
		for k := 0; k < 4; k++ {
			cheatOn(t, c, s, sc)
		}
	})
	hx.Run(t, "large", 40, 400, large)
	hx.Run(t, "dh-generators", 40, 1500, dhGenerators)
	hx.Run(t, "dh-multiples", 60, 1000, dhMultiples)
	hx.Run(t, "dh-info", 300, 5000, dhInfo)
}

// manip makes the manipulated answer; all its choices are drawn from the
// stream so that it can be repeated with the same choices.
type manip struct {
	name string
	f    func(s *hx.Stream, sc *single.Scheme, cl single.Client, q, a []byte, idx int) []byte
}

func flipped(s *hx.Stream, sc *single.Scheme, idx int) []byte {
	b := append([]byte{}, sc.Bits...)
	switch s.Intn(5) {
	case 0:
		b[idx] ^= 1
	case 1:
		b[s.Intn(len(b))] ^= 1
	case 2:
		for i := range b {
			b[i] ^= 1
		}
	case 3:
		for i := range b {
			b[i] = byte(s.Intn(2))
		}
	case 4: // within the column or the row of the requested bit
		if s.Intn(2) == 0 {
			b[s.Intn(sc.Rows)*sc.Cols+idx%sc.Cols] ^= 1
		} else {
			b[idx/sc.Cols*sc.Cols+s.Intn(sc.Cols)] ^= 1
		}
	}
	return b
}

func must(b []byte, err error) []byte {
	if err != nil {
		hx.Broken("honest computation failed: %v", err)
	}
	return b
}

var generic = []manip{
	{"other database", func(s *hx.Stream, sc *single.Scheme, cl single.Client, q, a []byte, idx int) []byte {
		return must(sc.On(flipped(s, sc, idx))(q))
	}},
	{"other database, bit set flipped at the index", func(s *hx.Stream, sc *single.Scheme, cl single.Client, q, a []byte, idx int) []byte {
		b := append([]byte{}, sc.Bits...)
		b[idx] ^= 1
		return must(sc.On(b)(q))
	}},
	{"truncated", func(s *hx.Stream, sc *single.Scheme, cl single.Client, q, a []byte, idx int) []byte {
		return a[:s.Intn(len(a))]
	}},
	{"extended", func(s *hx.Stream, sc *single.Scheme, cl single.Client, q, a []byte, idx int) []byte {
		return append(append([]byte{}, a...), s.Bytes(1+s.Intn(64))...)
	}},
	{"bit flips", func(s *hx.Stream, sc *single.Scheme, cl single.Client, q, a []byte, idx int) []byte {
		b := append([]byte{}, a...)
		for i := 0; i <= s.Intn(3); i++ {
			b[s.Intn(len(b))] ^= 1 << uint(s.Intn(8))
		}
		return b
	}},
	{"random bytes", func(s *hx.Stream, sc *single.Scheme, cl single.Client, q, a []byte, idx int) []byte {
		n := len(a)
		if s.Intn(2) == 0 {
			n = s.Intn(2*n + 2)
		}
		return s.Bytes(n)
	}},
	{"zero bytes", func(s *hx.Stream, sc *single.Scheme, cl single.Client, q, a []byte, idx int) []byte {
		n := len(a)
		if s.Intn(2) == 0 {
			n = s.Intn(2*n + 2)
		}
		return make([]byte, n)
	}},
	{"the query", func(s *hx.Stream, sc *single.Scheme, cl single.Client, q, a []byte, idx int) []byte { return q }},
	{"answer to a query of another client", func(s *hx.Stream, sc *single.Scheme, cl single.Client, q, a []byte, idx int) []byte {
		return must(sc.Answer(must(sc.Client(s).Query(idx))))
	}},
	{"answer to a query for another index", func(s *hx.Stream, sc *single.Scheme, cl single.Client, q, a []byte, idx int) []byte {
		return must(sc.Answer(must(sc.Client(s).Query(s.Intn(len(sc.Bits))))))
	}},
	{"header changed", func(s *hx.Stream, sc *single.Scheme, cl single.Client, q, a []byte, idx int) []byte {
		b := append([]byte{}, a...)
		for i := 0; i <= s.Intn(3); i++ {
			b[s.Intn(min(len(b), 12))] = byte(s.U64())
		}
		return b
	}},
}

func words(name string, f func(s *hx.Stream, sc *single.Scheme, w [][]uint128.Uint128)) manip {
	return manip{name, func(s *hx.Stream, sc *single.Scheme, cl single.Client, q, a []byte, idx int) []byte {
		return sc.Words(a, func(w [][]uint128.Uint128) { f(s, sc, w) })
	}}
}

// some picks the repetitions that are manipulated.
func some(s *hx.Stream, w [][]uint128.Uint128) []int {
	all := s.Intn(2) == 0
	var out []int
	for k := range w {
		if all || s.Intn(2) == 0 {
			out = append(out, k)
		}
	}
	if len(out) == 0 {
		out = []int{s.Intn(len(w))}
	}
	return out
}

var lattice = []manip{
	words("one entry", func(s *hx.Stream, sc *single.Scheme, w [][]uint128.Uint128) {
		i, d := s.Intn(sc.Cols), sc.Large(s)
		for _, k := range some(s, w) {
			w[k][i] = w[k][i].AddWrap(d)
		}
	}),
	words("all entries", func(s *hx.Stream, sc *single.Scheme, w [][]uint128.Uint128) {
		d := sc.Large(s)
		for _, k := range some(s, w) {
			for i := range w[k] {
				w[k][i] = w[k][i].AddWrap(d)
			}
		}
	}),
	words("small errors", func(s *hx.Stream, sc *single.Scheme, w [][]uint128.Uint128) {
		for _, k := range some(s, w) {
			for i := range w[k] {
				w[k][i] = w[k][i].AddWrap64(uint64(s.Intn(int(sc.Par.B/2) + 1)))
			}
		}
	}),
	words("swapped entries", func(s *hx.Stream, sc *single.Scheme, w [][]uint128.Uint128) {
		for _, k := range some(s, w) {
			i, j := s.Intn(sc.Cols), s.Intn(sc.Cols)
			w[k][i], w[k][j] = w[k][j], w[k][i]
		}
	}),
	words("negated or scaled", func(s *hx.Stream, sc *single.Scheme, w [][]uint128.Uint128) {
		m := []uint128.Uint128{uint128.Max, uint128.From64(2), uint128.New(s.U64(), s.U64()), uint128.From64(0)}[s.Intn(4)]
		for _, k := range some(s, w) {
			for i := range w[k] {
				w[k][i] = w[k][i].MulWrap(m)
			}
		}
	}),
	words("random entries", func(s *hx.Stream, sc *single.Scheme, w [][]uint128.Uint128) {
		for _, k := range some(s, w) {
			for i := range w[k] {
				w[k][i] = uint128.New(s.U64(), s.U64())
			}
		}
	}),
	words("repetitions replayed or reordered", func(s *hx.Stream, sc *single.Scheme, w [][]uint128.Uint128) {
		for n := 0; n <= s.Intn(3); n++ {
			i, j := s.Intn(len(w)), s.Intn(len(w))
			if s.Intn(2) == 0 {
				copy(w[i], w[j])
			} else {
				w[i], w[j] = w[j], w[i]
			}
		}
	}),
	{"combination of query entries added", func(s *hx.Stream, sc *single.Scheme, cl single.Client, q, a []byte, idx int) []byte {
		if sc.Name == single.LWE128 {
			m := matrix.BytesToMatrix128(q)
			return sc.Words(a, func(w [][]uint128.Uint128) {
				w[0][s.Intn(sc.Cols)] = w[0][idx%sc.Cols].AddWrap(m.Get(0, s.Intn(sc.Rows)))
			})
		}
		ms := []*matrix.Matrix{matrix.BytesToMatrix(q)}
		if sc.Name == single.Amplify {
			ms = matrix.BytesToMatrices(q)
		}
		return sc.Words(a, func(w [][]uint128.Uint128) {
			r := s.Intn(sc.Rows)
			j := idx % sc.Cols
			neg := s.Intn(2) == 0
			for _, k := range some(s, w) {
				x := uint128.From64(uint64(ms[k].Get(0, r)))
				if neg {
					w[k][j] = w[k][j].SubWrap(x)
				} else {
					w[k][j] = w[k][j].AddWrap(x)
				}
			}
		})
	}},
	{"reshaped", func(s *hx.Stream, sc *single.Scheme, cl single.Client, q, a []byte, idx int) []byte {
		if sc.Name == single.LWE128 {
			m := matrix.BytesToMatrix128(a)
			n := []*matrix.Matrix128{matrix.New128(m.Cols(), 1), matrix.New128(1, m.Cols()+1), matrix.New128(2, m.Cols()), matrix.New128(0, 0), matrix.New128(1, m.Cols()-1), matrix.New128(0, m.Cols())}[s.Intn(6)]
			return matrix.Matrix128ToBytes(n)
		}
		c := sc.Cols
		mk := func(which int) *matrix.Matrix {
			return []*matrix.Matrix{matrix.New(c, 1), matrix.New(1, c+1), matrix.New(2, c), matrix.New(0, 0), matrix.New(1, c-1), matrix.New(0, c)}[which]
		}
		which := s.Intn(6)
		if sc.Name == single.LWE {
			return matrix.MatrixToBytes(mk(which))
		}
		var ms []*matrix.Matrix
		for k := 0; k < sc.Reps; k++ {
			ms = append(ms, mk(which))
		}
		return matrix.MatricesToBytes(ms)
	}},
}

var amplified = []manip{
	{"fewer or more repetitions", func(s *hx.Stream, sc *single.Scheme, cl single.Client, q, a []byte, idx int) []byte {
		ms := matrix.BytesToMatrices(a)
		n := s.Intn(len(ms) + 3)
		if n == 0 {
			return a[:4]
		}
		var out []*matrix.Matrix
		for i := 0; i < n; i++ {
			out = append(out, ms[i%len(ms)])
		}
		return matrix.MatricesToBytes(out)
	}},
	{"some repetitions on another database", func(s *hx.Stream, sc *single.Scheme, cl single.Client, q, a []byte, idx int) []byte {
		ms := matrix.BytesToMatrices(a)
		os := matrix.BytesToMatrices(must(sc.On(flipped(s, sc, idx))(q)))
		for i := range ms {
			if s.Intn(2) == 0 {
				ms[i] = os[i]
			}
		}
		return matrix.MatricesToBytes(ms)
	}},
}

func elems(name string, f func(s *hx.Stream, sc *single.Scheme, e, q []group.Element)) manip {
	return manip{name, func(s *hx.Stream, sc *single.Scheme, cl single.Client, q, a []byte, idx int) []byte {
		e, err := database.UnmarshalGroupElements(a, sc.EC.Group, sc.EC.ElementSize)
		if err != nil {
			hx.Broken("honest answer does not decode: %v", err)
		}
		qe, err := database.UnmarshalGroupElements(q, sc.EC.Group, sc.EC.ElementSize)
		if err != nil {
			hx.Broken("honest query does not decode: %v", err)
		}
		f(s, sc, e, qe)
		return must(database.MarshalGroupElements(e, sc.EC.ElementSize))
	}}
}

func el(sc *single.Scheme) group.Element { return sc.EC.Group.NewElement() }

var dhs = []manip{
	elems("element added", func(s *hx.Stream, sc *single.Scheme, e, q []group.Element) {
		i := s.Intn(len(e))
		e[i] = el(sc).Add(e[i], sc.EC.Group.RandomElement(s))
	}),
	elems("query element added or subtracted", func(s *hx.Stream, sc *single.Scheme, e, q []group.Element) {
		i, x := s.Intn(len(e)), q[s.Intn(len(q))]
		if s.Intn(2) == 0 {
			x = el(sc).Neg(x)
		}
		e[i] = el(sc).Add(e[i], x)
	}),
	elems("multiple of a query element added", func(s *hx.Stream, sc *single.Scheme, e, q []group.Element) {
		g := sc.EC.Group
		k := g.NewScalar().SetUint64(uint64(1 + s.Intn(4)))
		if s.Intn(2) == 0 {
			k = g.NewScalar().Inv(k)
		}
		if s.Intn(2) == 0 {
			k = g.NewScalar().Neg(k)
		}
		i := s.Intn(len(e))
		e[i] = el(sc).Add(e[i], el(sc).Mul(q[s.Intn(len(q))], k))
	}),
	elems("identity", func(s *hx.Stream, sc *single.Scheme, e, q []group.Element) {
		e[s.Intn(len(e))] = sc.EC.Group.Identity()
	}),
	elems("negated, doubled or scaled", func(s *hx.Stream, sc *single.Scheme, e, q []group.Element) {
		i := s.Intn(len(e))
		switch s.Intn(3) {
		case 0:
			e[i] = el(sc).Neg(e[i])
		case 1:
			e[i] = el(sc).Dbl(e[i])
		default:
			e[i] = el(sc).Mul(e[i], sc.EC.Group.RandomScalar(s))
		}
	}),
	elems("rows swapped or copied", func(s *hx.Stream, sc *single.Scheme, e, q []group.Element) {
		i, j := s.Intn(len(e)), s.Intn(len(e))
		if s.Intn(2) == 0 {
			e[i], e[j] = e[j], e[i]
		} else {
			e[i] = e[j]
		}
	}),
	elems("all rows random", func(s *hx.Stream, sc *single.Scheme, e, q []group.Element) {
		for i := range e {
			e[i] = sc.EC.Group.RandomElement(s)
		}
	}),
	elems("all rows shifted by one query element", func(s *hx.Stream, sc *single.Scheme, e, q []group.Element) {
		x := q[s.Intn(len(q))]
		for i := range e {
			e[i] = el(sc).Add(e[i], x)
		}
	}),
	elems("row answers from hashes of columns", func(s *hx.Stream, sc *single.Scheme, e, q []group.Element) {
		i := s.Intn(len(e))
		e[i] = el(sc).Add(e[i], database.HashIndexToGroup(uint64(s.Intn(len(q))), sc.EC.Group))
	}),
	{"rows missing or repeated", func(s *hx.Stream, sc *single.Scheme, cl single.Client, q, a []byte, idx int) []byte {
		n := sc.EC.ElementSize
		if s.Intn(2) == 0 {
			return a[:n*s.Intn(len(a)/n)]
		}
		return append(append([]byte{}, a...), a[:n*(1+s.Intn(len(a)/n))]...)
	}},
}

func cheat(t *rapid.T, c *hx.C, name string, max int) {
	s := hx.Tape(t)
	cheatOn(t, c, s, single.New(t, s, name, max))
}

// large cheats on databases of many columns or rows.
func large(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	name := rapid.SampledFrom([]string{single.LWE, single.LWE, single.LWE, single.Amplify, single.LWE128, single.DH}).Draw(t, "scheme")
	r, cc, tt, tries := 1, 0, 0, 20
	switch name {
	case single.LWE:
		cc, tries = 1<<rapid.IntRange(9, 16).Draw(t, "magnitude"), 10
	case single.Amplify:
		cc, tt = 1<<rapid.IntRange(9, 12).Draw(t, "magnitude"), rapid.IntRange(1, 2).Draw(t, "t")
	case single.LWE128:
		cc, tries = 1<<rapid.IntRange(6, 9).Draw(t, "magnitude"), 6
	case single.DH:
		r = rapid.IntRange(20, 60).Draw(t, "side")
		cc, tries = r, 6
	}
	cc += rapid.IntRange(0, 500).Draw(t, "more")
	if name == single.DH {
		cc = r
	} else if rapid.IntRange(0, 3).Draw(t, "rows") == 0 && cc < 5000 {
		r, cc = cc, rapid.IntRange(1, 3).Draw(t, "columns")
	}
	sc := single.NewOf(t, s, name, r, cc, tt)
	for k := 0; k < tries; k++ {
		cheatOn(t, c, s, sc)
	}
	if name != single.DH {
		// large errors in single entries, in far ones in particular
		cl := sc.Client(s)
		idx := s.Intn(len(sc.Bits))
		for k := 0; k < 2*tries; k++ {
			at := []int{s.Intn(sc.Cols), sc.Cols - 1, 0, idx % sc.Cols, sc.Cols - 1 - s.Intn(min(sc.Cols, 300))}[k%5]
			try := func() bool {
				a := sc.Words(must(sc.Answer(must(cl.Query(idx)))), func(w [][]uint128.Uint128) {
					w[0][at] = w[0][at].AddWrap(sc.Large(s))
				})
				v, err := cl.Reconstruct(a)
				return err == nil && v != int(sc.Bits[idx])
			}
			if try() && (try() || try() || try()) {
				t.Fatalf("%s index %d: not %d when entry %d is changed", sc.Desc, idx, sc.Bits[idx], at)
			}
		}
	}
}

func cheatOn(t *rapid.T, c *hx.C, s *hx.Stream, sc *single.Scheme) {
	name := sc.Name
	idx := gen.PickIndex(t, sc.Rows, sc.Cols, "idx")
	ms := append([]manip{}, generic...)
	switch name {
	case single.DH:
		ms = append(ms, dhs...)
	case single.Amplify:
		ms = append(append(ms, lattice...), amplified...)
	default:
		ms = append(ms, lattice...)
	}
	k := rapid.IntRange(0, len(ms)+1).Draw(t, "manipulation")
	seed := rapid.Uint64().Draw(t, "choices")
	cl := sc.Client(s)
	what := ""
	try := func() (int, error, bool) {
		q := must(cl.Query(idx))
		old := must(sc.Answer(q))
		if k >= len(ms) { // replay of the answer to an earlier query of this client
			what = "replay"
			q2 := must(cl.Query(idx))
			a2 := must(sc.Answer(q2))
			v, err := cl.Reconstruct(append([]byte{}, old...))
			return v, err, !bytes.Equal(old, a2)
		}
		what = ms[k].name
		a := ms[k].f(hx.NewStream(seed), sc, cl, q, append([]byte{}, old...), idx)
		v, err := cl.Reconstruct(append([]byte{}, a...))
		return v, err, !bytes.Equal(a, old)
	}
	v, err, changed := try()
	bits := fmt.Sprint(sc.Bits)
	if len(bits) > 300 {
		bits = fmt.Sprintf("(%d)", len(sc.Bits))
	}
	c.Case("%s bits %s index %d: %s (%x)", sc.Desc, bits, idx, what, seed)
	c.NonTrivialIf(changed)
	c.Class(what)
	if err != nil {
		c.Class("rejected")
		return
	}
	c.Class("accepted")
	if v == int(sc.Bits[idx]) {
		return
	}
	if name != single.DH {
		wrong := 0
		for i := 0; i < 6; i++ {
			if v, err, _ := try(); err == nil && v != int(sc.Bits[idx]) {
				wrong++
			}
		}
		if wrong == 0 {
			c.Class("chance")
			return
		}
	}
	t.Fatalf("%s, index %d, %s: client outputs %d, the database has %d", sc.Desc, idx, what, v, sc.Bits[idx])
}

// dhGenerators looks for relations among the group elements that stand for the
// columns: with one that a server knows, such as two equal elements, it can
// move bits between columns without changing the digest.
func dhGenerators(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	g := gen.Groups[rapid.IntRange(0, len(gen.Groups)-1).Draw(t, "group")]
	set := map[uint64]bool{0: true, 1: true, 2: true}
	base := uint64(rapid.IntRange(0, 1<<22).Draw(t, "column"))
	for k := uint(0); k < 40; k++ { // related to the column in one bit or sum
		set[base^1<<k] = true
		set[base+1<<k] = true
		set[1<<k] = true
	}
	set[base], set[base*2], set[base+256*255] = true, true, true
	js := make([]uint64, 0, len(set))
	for j := range set {
		js = append(js, j)
	}
	sort.Slice(js, func(i, k int) bool { return js[i] < js[k] })
	c.Case("%s: %d columns related to %d", gen.GroupName(g), len(js), base)
	c.Class(gen.GroupName(g))
	c.NonTrivial()
	enc := func(e group.Element) string {
		b, err := e.MarshalBinaryCompress()
		if err != nil {
			hx.Broken("encode: %v", err)
		}
		return string(b)
	}
	hs := make([]group.Element, len(js))
	seen := map[string]string{enc(g.Identity()): "the identity", enc(g.Generator()): "the generator"}
	note := func(e group.Element, what string) {
		k := enc(e)
		if o, ok := seen[k]; ok {
			t.Fatalf("%s: %s is %s", gen.GroupName(g), what, o)
		}
		seen[k] = what
	}
	for i, j := range js {
		hs[i] = database.HashIndexToGroup(j, g)
		if enc(hs[i]) != enc(database.HashIndexToGroup(j, g)) {
			t.Fatalf("%s: the element of column %d changes", gen.GroupName(g), j)
		}
		note(hs[i], fmt.Sprintf("the element of column %d", j))
		note(g.NewElement().Neg(hs[i]), fmt.Sprintf("the inverse of the element of column %d", j))
	}
	for n := 0; n < 60; n++ { // H(i)+H(k), twice H(i)
		i, k := s.Intn(len(hs)), s.Intn(len(hs))
		if js[i] > js[k] {
			i, k = k, i
		}
		what := fmt.Sprintf("the sum of the elements of columns %d and %d", js[i], js[k])
		e := g.NewElement().Add(hs[i], hs[k])
		if seen[enc(e)] != what {
			note(e, what)
		}
		if i == k {
			continue
		}
		what = fmt.Sprintf("the difference of the elements of columns %d and %d", js[i], js[k])
		if e = g.NewElement().Add(hs[i], g.NewElement().Neg(hs[k])); seen[enc(e)] != what {
			note(e, what)
		}
	}
}

// dhMultiples adds all small multiples and fractions of the query element of the
// requested column to the row of the requested bit: a server that guesses the
// column would turn the bit if the blinding were such a multiple.
func dhMultiples(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	sc := single.New(t, s, single.DH, 3)
	idx := gen.PickIndex(t, sc.Rows, sc.Cols, "idx")
	g := sc.EC.Group
	c.Case("%s bits %v index %d", sc.Desc, sc.Bits, idx)
	c.NonTrivial()
	cl := sc.Client(s)
	q := must(cl.Query(idx))
	qe, err := database.UnmarshalGroupElements(q, g, sc.EC.ElementSize)
	if err != nil {
		hx.Broken("honest query does not decode: %v", err)
	}
	a := must(sc.Answer(q))
	for n := uint64(1); n <= 5; n++ {
		for d := uint64(1); d <= 5; d++ {
			k := g.NewScalar().Inv(g.NewScalar().SetUint64(d))
			k.Mul(k, g.NewScalar().SetUint64(n))
			for _, neg := range []bool{false, true} {
				x := el(sc).Mul(qe[idx%sc.Cols], k)
				if neg {
					x = el(sc).Neg(x)
				}
				e, err := database.UnmarshalGroupElements(a, g, sc.EC.ElementSize)
				if err != nil {
					hx.Broken("honest answer does not decode: %v", err)
				}
				e[idx/sc.Cols] = el(sc).Add(e[idx/sc.Cols], x)
				v, err := cl.Reconstruct(must(database.MarshalGroupElements(e, sc.EC.ElementSize)))
				if err == nil && v != int(sc.Bits[idx]) {
					t.Fatalf("%s, index %d, %d/%d of the query element added (%v): client outputs %d, the database has %d", sc.Desc, idx, n, d, neg, v, sc.Bits[idx])
				}
			}
		}
	}
}

// dhInfo changes the digests of the database information.
func dhInfo(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	db, bits, desc := gen.Elliptic(t, s, 36)
	i := db.Info
	a := *i.Auth
	i.Auth = &a
	a.Digest = append([]byte{}, a.Digest...)
	a.SubDigests = append([]byte{}, a.SubDigests...)
	what := ""
	switch rapid.IntRange(0, 6).Draw(t, "change") {
	case 0:
		what = "row digest bit"
		a.SubDigests[s.Intn(len(a.SubDigests))] ^= 1 << uint(s.Intn(8))
	case 1:
		what = "digest bit"
		a.Digest[s.Intn(len(a.Digest))] ^= 1 << uint(s.Intn(8))
	case 2:
		what = "row digest missing"
		a.SubDigests = a.SubDigests[:len(a.SubDigests)-db.ElementSize]
	case 3:
		what = "row digest appended"
		a.SubDigests = append(a.SubDigests, s.Bytes(db.ElementSize)...)
	case 4:
		what = "digest truncated or empty"
		a.Digest = a.Digest[:s.Intn(len(a.Digest))]
	case 5:
		what = "digests of another database"
		nb := append([]byte{}, bits...)
		nb[s.Intn(len(nb))] ^= 1
		d2 := database.CreateRandomEllipticWithDigest(gen.NewFixed(nb, s), len(nb), db.Group, db.NumRows > 1)
		if d2.NumRows != db.NumRows || bytes.Equal(d2.SubDigests, a.SubDigests) {
			hx.Broken("other database")
		}
		a.SubDigests = d2.SubDigests
	case 6:
		what = "row digests extended by one byte"
		a.SubDigests = append(a.SubDigests, 0)
	}
	c.Case("%s bits %v: %s", desc, bits, what)
	c.NonTrivial()
	c.Class(what)
	refused := func() (r bool) {
		defer func() { r = r || recover() != nil }()
		cl := client.NewDH(s, &i)
		return cl == nil
	}()
	if !refused {
		t.Fatalf("%s, %s: the client accepts the database information", desc, what)
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
