package c21

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"math"
	"math/bits"
	"sync"
	"testing"

	"aaverif/gen"
	"aaverif/hx"
	"aaverif/single"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/fss"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/server"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	hx.Main(m, hx.Meta{ID: "C21",
		Rule:        "servers on random databases, given sequences of random bytes, mutated valid queries (truncated, extended, flipped, spliced, header words replaced), structured queries with extreme fields, and queries for other databases and schemes, with valid queries in between whose answers were recorded before; non-trivial when at least one delivered query is not a valid one",
		Assumptions: []string{"built with the address sanitizer, which sees accesses of the C code outside Go objects, most queries end where inaccessible memory begins; queries are delivered one after another, as the deployed server does"}})
}

func TestProps(t *testing.T) {
	hx.Run(t, "point", 8000, 60000, run(point))
	hx.Run(t, "predicate", 2500, 60000, run(predicate))
	hx.Run(t, "dh", 400, 8000, run(lattice(single.DH)))
	hx.Run(t, "lwe", 8000, 50000, run(lattice(single.LWE)))
	hx.Run(t, "lwe128", 8000, 20000, run(lattice(single.LWE128)))
	hx.Run(t, "amplify", 8000, 50000, run(lattice(single.Amplify)))
}

type target struct {
	desc       string
	answer     func([]byte) ([]byte, error)
	valid      func() []byte
	structured func(s *hx.Stream) []byte
}

func run(mk func(t *rapid.T, s *hx.Stream) *target) func(t *rapid.T, c *hx.C) {
	return func(t *rapid.T, c *hx.C) {
		s := hx.Tape(t)
		tg := mk(t, s)
		c.Case("%s", tg.desc)
		var qs, as [][]byte
		ask := func(what string, q []byte) []byte {
			a, err := tg.answer(deliver(s, q))
			if err != nil {
				t.Fatalf("%s: %s refused: %v", tg.desc, what, err)
			}
			return append([]byte{}, a...)
		}
		for k := 0; k < 3; k++ {
			qs = append(qs, tg.valid())
			as = append(as, ask("valid query", qs[k]))
		}
		isValid := func(q []byte) bool {
			for _, v := range qs {
				if bytes.Equal(v, q) {
					return true
				}
			}
			return false
		}
		n := rapid.IntRange(1, 8).Draw(t, "queries")
		for k := 0; k < n; k++ {
			var q []byte
			kind := rapid.IntRange(0, 9).Draw(t, "kind")
			switch {
			case kind == 0:
				q = s.Bytes(hx.Size(t, "len", 0, 3*len(qs[0])+8, 0, 4, 8, 12, 16, len(qs[0])))
			case kind == 1:
				othersOnce.Do(func() { others = otherQueries() })
				q = others[s.Intn(len(others))]
			case kind <= 4:
				q = tg.structured(s)
			default:
				q = mutate(s, qs)
			}
			if len(q) < 200 {
				c.More("%x", q)
			} else {
				c.More("%d:%x..", len(q), q[:100])
			}
			c.NonTrivialIf(!isValid(q))
			a, err := tg.answer(deliver(s, q))
			switch {
			case err == nil && a == nil:
				t.Fatalf("%s: neither an answer nor an error for %x", tg.desc, q)
			case err == nil:
				c.Class("answered")
			default:
				c.Class("refused")
			}
			if s.Intn(3) == 0 {
				v := s.Intn(len(qs))
				if got := ask("valid query", qs[v]); !bytes.Equal(got, as[v]) {
					t.Fatalf("%s: answer to a valid query changed after %x: %x, before %x", tg.desc, q, got, as[v])
				}
			}
		}
		for v := range qs {
			if got := ask("valid query", qs[v]); !bytes.Equal(got, as[v]) {
				t.Fatalf("%s: answer to a valid query changed: %x, before %x", tg.desc, got, as[v])
			}
		}
	}
}

// deliver copies the query, mostly to where memory ends.
func deliver(s *hx.Stream, q []byte) []byte {
	if s.Intn(4) == 0 {
		return append([]byte{}, q...)
	}
	return hx.Guarded(q)
}

// mutate changes a valid query.
func mutate(s *hx.Stream, qs [][]byte) []byte {
	q := append([]byte{}, qs[s.Intn(len(qs))]...)
	for n := 1 + s.Intn(3); n > 0; n-- {
		if len(q) == 0 {
			return s.Bytes(s.Intn(20))
		}
		switch s.Intn(12) {
		case 0:
			q = q[:s.Intn(len(q))]
		case 1:
			q = q[:len(q)-1-s.Intn(min(len(q), 4))]
		case 2:
			q = append(q, s.Bytes(1+s.Intn(40))...)
		case 3:
			q = append(q, qs[s.Intn(len(qs))]...)
		case 4:
			q[s.Intn(len(q))] ^= 1 << uint(s.Intn(8))
		case 5:
			q[s.Intn(len(q))] = []byte{0, 1, 2, 3, 4, 0x7f, 0x80, 0xff, 0xfe, byte(s.U64())}[s.Intn(10)]
		case 6: // a header word
			if len(q) >= 12 {
				binary.BigEndian.PutUint32(q[4*s.Intn(3):], word(s, len(q)))
			}
		case 7: // splice
			o := qs[s.Intn(len(qs))]
			k := s.Intn(min(len(q), len(o)))
			q = append(q[:k], o[k:]...)
		case 8: // remove a range
			a := s.Intn(len(q))
			b := a + s.Intn(min(len(q)-a, 40)+1)
			q = append(q[:a], q[b:]...)
		case 9: // duplicate a range
			a := s.Intn(len(q))
			b := a + s.Intn(min(len(q)-a, 40)+1)
			q = append(append(append([]byte{}, q[:b]...), q[a:b]...), q[b:]...)
		case 10: // overwrite a range
			a := s.Intn(len(q))
			b := a + s.Intn(min(len(q)-a, 20)+1)
			copy(q[a:b], s.Bytes(b-a))
		case 11:
			a := s.Intn(len(q))
			for i := a; i < len(q) && i < a+8; i++ {
				q[i] = 0xff
			}
		}
	}
	return q
}

func word(s *hx.Stream, n int) uint32 {
	w := []uint32{0, 1, 2, math.MaxUint32, 1 << 31, 1<<31 - 1, 1 << 30, 1 << 16, 0x10001, uint32(n), uint32(n / 4), uint32((n - 8) / 4), uint32(s.U64()), uint32(s.Intn(64))}
	return w[s.Intn(len(w))]
}

func point(t *rapid.T, s *hx.Stream) *target {
	r := gen.Recs(t, s, 300, 20)
	db := r.Bytes()
	n := rapid.SampledFrom([]int{2, 2, 3, 4}).Draw(t, "servers")
	srv := gen.Servers(t, db, n)[0]
	lens := 17 + 16
	if l := bits.Len(uint(r.Cols)) - 7; l > 0 {
		lens += 18 * l
	}
	return &target{
		desc:   fmt.Sprintf("point server of %d on %v", n, r),
		answer: srv.AnswerBytes,
		valid: func() []byte {
			q, err := client.NewPIR(s, gen.RemoteInfo(&db.Info)).QueryBytes(gen.Index(s.Intn(r.Rows*r.Cols)), n)
			if err != nil {
				hx.Broken("%v", err)
			}
			return q[s.Intn(n)]
		},
		structured: func(s *hx.Stream) []byte {
			l := lens
			if n > 2 {
				l = (r.Cols + 7) / 8
			}
			switch s.Intn(4) {
			case 0: // just the right length
			case 1:
				l += s.Intn(5) - 2
			case 2: // another number of levels
				l += 18 * (s.Intn(7) - 3)
			case 3:
				l = 33 + 18*s.Intn(60)
			}
			if l < 0 {
				l = 0
			}
			return s.Bytes(l)
		},
	}
}

func enc(v interface{}) []byte {
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(v); err != nil {
		hx.Broken("gob: %v", err)
	}
	return b.Bytes()
}

// shapes that a query might be taken for
type fssNoInfo struct{ FssKey fss.FssKeyEq2P }
type fssWrong struct {
	Info   string
	FssKey []byte
}
type fssKeyWrong struct {
	Info   *query.Info
	FssKey struct {
		SInit   string
		TInit   int64
		CW      [][]byte
		FinalCW []int64
	}
}

func predicate(t *rapid.T, s *hx.Stream) *target {
	db := gen.KeysDB(t, s, 6)
	auth := rapid.Bool().Draw(t, "authenticated")
	num := byte(rapid.IntRange(0, 1).Draw(t, "server"))
	var answer func([]byte) ([]byte, error)
	words := 1
	if auth {
		answer = server.NewPredicateAPIR(db, num).AnswerBytes
		words = 5
	} else {
		answer = server.NewPredicatePIR(db, num).AnswerBytes
	}
	var preds []*gen.Pred
	for i := 0; i < 3; i++ {
		preds = append(preds, gen.NewPred(t, s, db, fmt.Sprint("p", i)))
	}
	k := 0
	return &target{
		desc:   fmt.Sprintf("predicate server (authenticated %v) of %d keys", auth, len(db.KeysInfo)),
		answer: answer,
		valid: func() []byte {
			p := preds[k%len(preds)]
			k++
			var q [][]byte
			var err error
			if auth {
				q, err = client.NewPredicateAPIR(s, &db.Info).QueryBytes(enc(p.Q), 2)
			} else {
				q, err = client.NewPredicatePIR(s, &db.Info).QueryBytes(enc(p.Q), 2)
			}
			if err != nil {
				hx.Broken("%v", err)
			}
			return q[num]
		},
		structured: func(s *hx.Stream) []byte {
			ints := []int{0, 0, 1, 2, 5, 40, -1, math.MinInt64, math.MaxInt64, 1 << 61, 1<<61 + 1, 1 << 60, 1<<60 + 1, 33, 256, 1 << 31, 3<<61 + 2}
			info := &query.Info{Target: query.Target(s.Intn(5)), FromStart: ints[s.Intn(len(ints))], FromEnd: ints[s.Intn(len(ints))],
				And: s.Intn(2) == 0, Avg: s.Intn(3) == 0, Sum: s.Intn(5) == 0}
			if s.Intn(8) == 0 {
				info.Target = query.Target(s.U64())
			}
			for i := s.Intn(4); i > 0; i-- {
				info.Targets = append(info.Targets, query.Target(s.U64()))
			}
			key := fss.FssKeyEq2P{TInit: byte(s.U64())}
			key.SInit = s.Bytes([]int{16, 16, 16, 0, 15, 17, 100}[s.Intn(7)])
			n := []int{0, 1, 8, 40, 120, 128, 160, 7, 127, 159, 320, 300}[s.Intn(12)]
			l := 18
			for i := 0; i < n; i++ {
				m := l
				if s.Intn(100) == 0 {
					m = s.Intn(40)
				}
				key.CW = append(key.CW, s.Bytes(m))
			}
			if n > 0 && s.Intn(4) == 0 {
				key.CW[s.Intn(n)] = s.Bytes([]int{0, 17, 1, 16, 19}[s.Intn(5)])
			}
			m := words
			if s.Intn(4) == 0 {
				m = s.Intn(7)
			}
			for i := 0; i < m; i++ {
				key.FinalCW = append(key.FinalCW, []uint32{0, 1, 1<<31 - 1, 1<<31 - 2, math.MaxUint32, uint32(s.U64())}[s.Intn(6)])
			}
			switch s.Intn(12) {
			case 0:
				return enc(&fssNoInfo{key})
			case 1:
				return enc(&fssWrong{"x", s.Bytes(s.Intn(40))})
			case 2:
				w := &fssKeyWrong{Info: info}
				w.FssKey.CW, w.FssKey.TInit = key.CW, int64(s.U64())
				return enc(w)
			case 3:
				return enc(preds[s.Intn(len(preds))].Q)
			case 4:
				return enc(info)
			case 5:
				return enc(&query.FSS{Info: info})
			}
			return enc(&query.FSS{Info: info, FssKey: key})
		},
	}
}

// target database of a single-server scheme, without the digests that only
// clients need
type tiny struct {
	Name       string
	Rows, Cols int
	Group      group.Group
	Size       int
}

var pool = map[group.Group][]group.Element{}

func someElement(s *hx.Stream, g group.Group) group.Element {
	if pool[g] == nil {
		r := hx.NewStream(7)
		for i := 0; i < 16; i++ {
			pool[g] = append(pool[g], g.RandomElement(r))
		}
	}
	return pool[g][s.Intn(16)].Copy()
}

func lattice(name string) func(t *rapid.T, s *hx.Stream) *target {
	return func(t *rapid.T, s *hx.Stream) *target {
		sc := &tiny{Name: name}
		sc.Rows, sc.Cols = gen.Dims(t, 12)
		tg := &target{}
		info := database.Info{NumRows: sc.Rows, NumColumns: sc.Cols, BlockSize: 1}
		if name == single.DH {
			sc.Group = rapid.SampledFrom([]group.Group{group.Ristretto255, group.Ristretto255, group.P256, group.P384, group.P521}).Draw(t, "group")
			sc.Size = int(sc.Group.Params().CompressedElementLength)
			info.Auth = &database.Auth{Group: sc.Group, ElementSize: sc.Size}
			tg.answer = server.NewDH(&database.Elliptic{Entries: gen.Bits(t, s, sc.Rows, sc.Cols), Info: info}).AnswerBytes
			tg.desc = fmt.Sprintf("DH %s %dx%d", gen.GroupName(sc.Group), sc.Rows, sc.Cols)
			tg.structured = func(s *hx.Stream) []byte { return elements(s, sc) }
			tg.valid = func() []byte {
				es := make([]group.Element, sc.Cols)
				for i := range es {
					es[i] = someElement(s, sc.Group)
				}
				b, err := database.MarshalGroupElements(es, sc.Size)
				if err != nil {
					hx.Broken("%v", err)
				}
				return b
			}
			return tg
		}
		m := matrix.NewBytes(sc.Rows, sc.Cols)
		for i, b := range gen.Bits(t, s, sc.Rows, sc.Cols) {
			m.SetData(i, b)
		}
		tg.desc = fmt.Sprintf("%s %dx%d", name, sc.Rows, sc.Cols)
		reps := 1 + 2*s.Intn(4)
		tg.structured = func(s *hx.Stream) []byte { return mat(s, sc) }
		switch name {
		case single.LWE:
			tg.answer = server.NewLWE(&database.LWE{Matrix: m, Info: info}).AnswerBytes
			tg.valid = func() []byte { return matrix.MatrixToBytes(matrix.NewRandom(s, 1, sc.Rows)) }
		case single.LWE128:
			tg.answer = server.NewLWE128(&database.LWE128{Matrix: m, Info: info}).AnswerBytes
			tg.valid = func() []byte { return matrix.Matrix128ToBytes(matrix.NewRandom128(s, 1, sc.Rows)) }
		case single.Amplify:
			tg.answer = server.NewAmplify(&database.LWE{Matrix: m, Info: info}).AnswerBytes
			tg.structured = func(s *hx.Stream) []byte { return matrices(s, sc) }
			tg.valid = func() []byte {
				var ms []*matrix.Matrix
				for i := 0; i < reps; i++ {
					ms = append(ms, matrix.NewRandom(s, 1, sc.Rows))
				}
				return matrix.MatricesToBytes(ms)
			}
		}
		return tg
	}
}

// mat encodes a matrix of some dimensions with more or less matching data.
func mat(s *hx.Stream, sc *tiny) []byte {
	size := 4
	if sc.Name == single.LWE128 {
		size = 16
	}
	r, c := 1, sc.Rows
	switch s.Intn(8) {
	case 0:
		r, c = c, r
	case 1:
		r = s.Intn(4)
	case 2:
		c += s.Intn(5) - 2
	case 3:
		r, c = 0, sc.Rows
	case 4:
		r, c = s.Intn(5), s.Intn(5)
	case 5: // the product matches, the dimensions do not
		for d := 2; d <= c; d++ {
			if c%d == 0 {
				r, c = d, c/d
				break
			}
		}
	}
	if c < 0 {
		c = 0
	}
	n := r * c
	switch s.Intn(6) {
	case 0:
		n = s.Intn(2*n + 2)
	case 1:
		n = sc.Rows
	}
	out := make([]byte, 8, 8+size*n)
	binary.BigEndian.PutUint32(out, uint32(r))
	binary.BigEndian.PutUint32(out[4:], uint32(c))
	switch s.Intn(8) {
	case 0:
		binary.BigEndian.PutUint32(out, word(s, sc.Rows))
	case 1:
		binary.BigEndian.PutUint32(out[4:], word(s, sc.Rows))
	case 2: // overflowing products
		binary.BigEndian.PutUint32(out, 1<<16)
		binary.BigEndian.PutUint32(out[4:], 1<<16+uint32(s.Intn(2)*sc.Rows))
	}
	out = append(out, s.Bytes(size*n)...)
	if s.Intn(8) == 0 {
		out = append(out, s.Bytes(s.Intn(size))...)
	}
	return out
}

func matrices(s *hx.Stream, sc *tiny) []byte {
	n := s.Intn(6)
	one := mat(s, sc)
	out := make([]byte, 4)
	l := uint32(len(one))
	switch s.Intn(6) {
	case 0:
		l = word(s, len(one))
	case 1:
		l = uint32(s.Intn(2*len(one) + 1))
	case 2:
		l = uint32(1 + s.Intn(8))
	}
	binary.BigEndian.PutUint32(out, l)
	for i := 0; i < n; i++ {
		out = append(out, one...)
		if s.Intn(3) == 0 {
			one = mat(s, sc)
		}
	}
	if s.Intn(8) == 0 {
		out = append(out, s.Bytes(s.Intn(9))...)
	}
	return out
}

func elements(s *hx.Stream, sc *tiny) []byte {
	g := sc.Group
	n := sc.Cols
	if s.Intn(4) == 0 {
		n = s.Intn(2*n + 2)
	}
	var es []group.Element
	for i := 0; i < n; i++ {
		e := someElement(s, g)
		switch s.Intn(6) {
		case 0:
			e = g.Identity()
		case 1:
			e = g.Generator()
		}
		es = append(es, e)
	}
	var out []byte
	if n > 0 {
		b, err := database.MarshalGroupElements(es, sc.Size)
		if err != nil {
			hx.Broken("%v", err)
		}
		out = b
	}
	switch s.Intn(6) {
	case 0: // uncompressed elements
		out = nil
		for _, e := range es {
			b, _ := e.MarshalBinary()
			out = append(out, b...)
		}
	case 1: // elements of another group
		o := gen.Groups[s.Intn(len(gen.Groups))]
		out = nil
		for i := 0; i < n; i++ {
			b, _ := someElement(s, o).MarshalBinaryCompress()
			out = append(out, b...)
		}
	case 2: // one element is not in the group
		if n > 0 {
			i := s.Intn(n) * sc.Size
			b := s.Bytes(sc.Size)
			switch s.Intn(3) {
			case 0:
				for k := range b {
					b[k] = 0xff
				}
			case 1:
				for k := range b {
					b[k] = 0
				}
				b[0] = byte(s.Intn(8))
			}
			copy(out[i:], b)
		}
	}
	return out
}

// others are valid queries of other schemes.
var (
	others     [][]byte
	othersOnce sync.Once
)

func otherQueries() (out [][]byte) {
	defer func() { recover() }() // clients are not at issue here
	s := hx.NewStream(hx.Seed())
	out = [][]byte{nil, {}, {0}, []byte("GET / HTTP/1.1\r\n\r\n")}
	for _, n := range []int{2, 3} {
		for _, cols := range []int{1, 10, 300} {
			q, err := client.NewPIR(s, &database.Info{NumRows: 2, NumColumns: cols, BlockSize: 4}).QueryBytes(gen.Index(0), n)
			if err != nil {
				continue
			}
			out = append(out, q...)
		}
	}
	for _, d := range []int{1, 2, 7, 12} {
		m := matrix.NewRandom(s, 1, d)
		out = append(out, matrix.MatrixToBytes(m), matrix.MatricesToBytes([]*matrix.Matrix{m, m, m}), matrix.Matrix128ToBytes(matrix.NewRandom128(s, 1, d)))
	}
	for _, g := range gen.Groups {
		if b, err := g.RandomElement(s).MarshalBinaryCompress(); err == nil {
			out = append(out, b)
		}
	}
	i := &query.Info{Target: query.UserId}
	if q, err := client.NewPredicateAPIR(s, &database.Info{}).QueryBytes(enc(i.ToEmailClientFSS("a@b")), 2); err == nil {
		out = append(out, q...)
	}
	i = &query.Info{Target: query.PubKeyAlgo}
	if q, err := client.NewPredicatePIR(s, &database.Info{}).QueryBytes(enc(i.ToPKAClientFSS("RSA")), 2); err == nil {
		out = append(out, q...)
	}
	return out
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
