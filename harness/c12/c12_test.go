package c12

import (
	"encoding/binary"
	"fmt"
	"io"
	"testing"

	"aaverif/gen"
	"aaverif/hx"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	hx.Main(m, hx.Meta{ID: "C12",
		Rule:        "random bit matrices (1-64 rows and columns, rows of zeros or ones), indices, and client randomness that is random, or has small, extreme or repeated values in chosen positions (in particular the scalar that encodes the bit), with sequences of retrievals through the matrix or the byte interface; non-trivial when the retrieved bits include a one, or the randomness is adversarial",
		Assumptions: []string{"the Gaussian error stays below the reconstruction bound (probability above 1-2^-100 for the parameters)"}})
}

func TestProps(t *testing.T) {
	hx.Run(t, "lwe", 6000, 100000, lwe)
	hx.Run(t, "lwe-large", 200, 2000, lweLarge)
	hx.Run(t, "lwe-long", 40, 600, lweLong)
	hx.Run(t, "lwe128-long", 12, 150, lwe128Long)
	hx.Run(t, "lwe128", 1500, 15000, lwe128)
	hx.Run(t, "lwe128-scalars", 800, 10000, func(t *rapid.T, c *hx.C) { scalars128(t, c) })
	hx.Run(t, "lwe-scalars", 5000, 60000, func(t *rapid.T, c *hx.C) { scalars(t, c) })
}

// odd is a source whose reads of few bytes (scalars) return chosen words first
// and random ones afterwards; long reads (secrets) are filled by a pattern.
type odd struct {
	s     *hx.Stream
	words [][]byte
	fill  int
}

func (o *odd) Read(p []byte) (int, error) {
	if len(p) <= 16 {
		if len(o.words) > 0 {
			w := o.words[0]
			o.words = o.words[1:]
			n := copy(p, w)
			for i := n; i < len(p); i++ {
				p[i] = w[len(w)-1]
			}
			return len(p), nil
		}
		return o.s.Read(p)
	}
	switch o.fill {
	case 1:
		for i := range p {
			p[i] = 0
		}
		return len(p), nil
	case 2:
		for i := range p {
			p[i] = 0xff
		}
		return len(p), nil
	}
	return o.s.Read(p)
}

func source(t *rapid.T, s *hx.Stream) (io.Reader, string, bool) {
	switch rapid.IntRange(0, 2).Draw(t, "source") {
	case 0:
		return s, "random", false
	}
	o := &odd{s: s, fill: rapid.IntRange(0, 2).Draw(t, "fill")}
	d := fmt.Sprintf("secrets=%d scalars", o.fill)
	for i := rapid.IntRange(0, 4).Draw(t, "words"); i > 0; i-- {
		w := word(t, 4)
		o.words = append(o.words, w)
		d += fmt.Sprintf(" %x", w)
	}
	return o, d, true
}

// word draws a scalar near zero from either side, near a power of two, or any.
func word(t *rapid.T, n int) []byte {
	w := make([]byte, n)
	v := uint64(rapid.OneOf(rapid.Uint32Range(0, 20), rapid.Uint32Range(0, 3000), rapid.Uint32Range(0, 40000), rapid.Uint32()).Draw(t, "word"))
	switch rapid.IntRange(0, 3).Draw(t, "form") {
	case 0:
		v = -v
	case 1:
		v = 1<<31 + v
	}
	for i := range w {
		w[i] = byte(v >> uint(8*i%64))
		if i >= 8 && v>>63 == 0 {
			w[i] = 0
		} else if i >= 8 {
			w[i] = 0xff
		}
	}
	return w
}

// between lets the server answer another client, now and then.
func between(t *rapid.T, n int, cl interface {
	QueryBytes(int) ([]byte, error)
}, sv interface {
	AnswerBytes([]byte) ([]byte, error)
}) {
	if rapid.IntRange(0, 4).Draw(t, "between") > 0 {
		return
	}
	q, err := cl.QueryBytes(rapid.IntRange(0, n-1).Draw(t, "other"))
	if err != nil {
		t.Fatalf("%v", err)
	}
	if _, err := sv.AnswerBytes(q); err != nil {
		t.Fatalf("%v", err)
	}
}

func short(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%v... (%d)", b[:50], len(b))
	}
	return fmt.Sprint(b)
}

func lwe(t *rapid.T, c *hx.C)      { lweN(t, c, 24) }
func lweLarge(t *rapid.T, c *hx.C) { lweN(t, c, 200) }

func lweN(t *rapid.T, c *hx.C, max int) {
	s := hx.Tape(t)
	db, bits, par, desc := gen.LWE(t, s, max)
	lweOn(t, c, s, db, bits, par, desc)
}

// long draws very different numbers of rows and columns: the noise of the
// answer grows with the rows only.
func long(t *rapid.T, max int) (int, int) {
	l := rapid.IntRange(max/2, max).Draw(t, "long")
	w := rapid.IntRange(1, 3).Draw(t, "short")
	if rapid.IntRange(0, 2).Draw(t, "wide") == 0 {
		return w, l
	}
	return l, w
}

func lweLong(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	r, w := long(t, 3000)
	db, bits, par, desc := gen.LWEOf(t, s, r, w)
	lweOn(t, c, s, db, bits, par, desc)
}

func lweOn(t *rapid.T, c *hx.C, s *hx.Stream, db *database.LWE, bits []byte, par *utils.ParamsLWE, desc string) {
	src, sd, adv := source(t, s)
	c.Case("%s randomness %s bits %s", desc, sd, short(bits))
	c.NonTrivialIf(adv)
	cl := client.NewLWE(src, &db.Info, par)
	sv := server.NewLWE(db)
	k := rapid.IntRange(1, 3).Draw(t, "retrievals")
	for q := 0; q < k; q++ {
		idx := gen.PickIndex(t, db.NumRows, db.NumColumns, "idx")
		c.More("index %d", idx)
		var got uint32
		var err error
		if rapid.Bool().Draw(t, "bytes") {
			qb, e := cl.QueryBytes(idx)
			if e != nil {
				t.Fatalf("%v", e)
			}
			a, e := sv.AnswerBytes(qb)
			if e != nil {
				t.Fatalf("%s index %d: server: %v", desc, idx, e)
			}
			between(t, db.NumRows*db.NumColumns, client.NewLWE(s, &db.Info, par), sv)
			got, err = cl.ReconstructBytes(a)
		} else {
			a := sv.Answer(cl.Query(idx/db.NumColumns, idx%db.NumColumns))
			between(t, db.NumRows*db.NumColumns, client.NewLWE(s, &db.Info, par), sv)
			got, err = cl.Reconstruct(a)
		}
		if err != nil {
			t.Fatalf("%s randomness %s index %d: honest answer rejected: %v", desc, sd, idx, err)
		}
		if got != uint32(bits[idx]) {
			t.Fatalf("%s randomness %s index %d: got %d, stored %d", desc, sd, idx, got, bits[idx])
		}
		c.NonTrivialIf(bits[idx] == 1)
		c.Class(fmt.Sprintf("bit%d", bits[idx]))
	}
}

func lwe128(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	db, bits, par, desc := gen.LWE128(t, s, 14)
	lwe128On(t, c, s, db, bits, par, desc)
}

func lwe128Long(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	r, w := long(t, 900)
	db, bits, par, desc := gen.LWE128Of(t, s, r, w)
	lwe128On(t, c, s, db, bits, par, desc)
}

func lwe128On(t *rapid.T, c *hx.C, s *hx.Stream, db *database.LWE128, bits []byte, par *utils.ParamsLWE, desc string) {
	src, sd, adv := source(t, s)
	c.Case("%s randomness %s bits %s", desc, sd, short(bits))
	c.NonTrivialIf(adv)
	cl := client.NewLWE128(src, &db.Info, par)
	sv := server.NewLWE128(db)
	k := rapid.IntRange(1, 2).Draw(t, "retrievals")
	for q := 0; q < k; q++ {
		idx := gen.PickIndex(t, db.NumRows, db.NumColumns, "idx")
		c.More("index %d", idx)
		var got uint32
		var err error
		if rapid.Bool().Draw(t, "bytes") {
			qb, e := cl.QueryBytes(idx)
			if e != nil {
				t.Fatalf("%v", e)
			}
			a, e := sv.AnswerBytes(qb)
			if e != nil {
				t.Fatalf("%s index %d: server: %v", desc, idx, e)
			}
			between(t, db.NumRows*db.NumColumns, client.NewLWE128(s, &db.Info, par), sv)
			got, err = cl.ReconstructBytes(a)
		} else {
			a := sv.Answer(cl.Query(idx/db.NumColumns, idx%db.NumColumns))
			between(t, db.NumRows*db.NumColumns, client.NewLWE128(s, &db.Info, par), sv)
			got, err = cl.Reconstruct(a)
		}
		if err != nil || got != uint32(bits[idx]) {
			t.Fatalf("%s randomness %s index %d: got %d, %v, stored %d", desc, sd, idx, got, err, bits[idx])
		}
		c.NonTrivialIf(bits[idx] == 1)
		c.Class(fmt.Sprintf("bit%d", bits[idx]))
	}
}

// tiny is a source that mostly yields words of small absolute value until its
// budget is used up.
type tiny struct {
	s      *hx.Stream
	size   int // bytes per word
	bound  int64
	budget int
}

func (r *tiny) Read(p []byte) (int, error) {
	if len(p) > 16 {
		return r.s.Read(p)
	}
	if r.budget <= 0 {
		return r.s.Read(p)
	}
	r.budget--
	v := int64(r.s.Intn(int(2*r.bound+1))) - r.bound
	var w [16]byte
	binary.LittleEndian.PutUint64(w[:8], uint64(v))
	if v < 0 {
		binary.LittleEndian.PutUint64(w[8:], ^uint64(0))
	}
	copy(p, w[:])
	return len(p), nil
}

// scalars concentrates on the random scalar: it is near zero again and again.
func scalars(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	db, bits, par, desc := gen.LWE(t, s, 8)
	f := rapid.SampledFrom([]int64{1, 2, 4, 16}).Draw(t, "factor")
	r := &tiny{s: s, size: 4, bound: int64(par.B)*f/2 + 1, budget: rapid.IntRange(1, 12).Draw(t, "budget")}
	c.Case("%s scalars within %d, %d times, bits %v tape=%x", desc, r.bound, r.budget, bits, s.U64())
	c.NonTrivial()
	sv := server.NewLWE(db)
	cl := client.NewLWE(r, &db.Info, par)
	for q := 0; q < 4; q++ {
		idx := gen.PickIndex(t, db.NumRows, db.NumColumns, "idx")
		got, err := cl.Reconstruct(sv.Answer(cl.Query(idx/db.NumColumns, idx%db.NumColumns)))
		if err != nil || got != uint32(bits[idx]) {
			t.Fatalf("%s index %d, scalars within %d: got %d, %v, stored %d", desc, idx, r.bound, got, err, bits[idx])
		}
	}
}

func scalars128(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	db, bits, par, desc := gen.LWE128(t, s, 5)
	f := rapid.SampledFrom([]int64{1, 2, 4, 16}).Draw(t, "factor")
	r := &tiny{s: s, size: 16, bound: int64(par.B)*f/2 + 1, budget: rapid.IntRange(1, 12).Draw(t, "budget")}
	c.Case("%s scalars within %d, %d times, bits %v tape=%x", desc, r.bound, r.budget, bits, s.U64())
	c.NonTrivial()
	sv := server.NewLWE128(db)
	cl := client.NewLWE128(r, &db.Info, par)
	for q := 0; q < 3; q++ {
		idx := gen.PickIndex(t, db.NumRows, db.NumColumns, "idx")
		got, err := cl.Reconstruct(sv.Answer(cl.Query(idx/db.NumColumns, idx%db.NumColumns)))
		if err != nil || got != uint32(bits[idx]) {
			t.Fatalf("%s index %d, scalars within %d: got %d, %v, stored %d", desc, idx, r.bound, got, err, bits[idx])
		}
	}
}
