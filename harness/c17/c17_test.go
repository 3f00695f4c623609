package c17

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"reflect"
	"testing"

	"aaverif/gen"
	"aaverif/hx"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/merkle"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	"lukechampine.com/uint128"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	hx.Main(m, hx.Meta{ID: "C17",
		Rule:        "random values of every kind that is sent, encoded and decoded; random and structured byte strings decoded and, where they decode, encoded again; sizes compared over contents of equal dimensions; non-trivial when the value has more than one element, or the byte string decodes",
		Assumptions: []string{"matrices in a sequence have equal shapes, as the encoder demands"}})
}

func TestProps(t *testing.T) {
	hx.Run(t, "words", 20000, 300000, words)
	hx.Run(t, "three-bytes", 5000, 80000, threeBytes)
	hx.Run(t, "matrix", 10000, 150000, mat)
	hx.Run(t, "matrix128", 6000, 90000, mat128)
	hx.Run(t, "matrices", 10000, 150000, mats)
	hx.Run(t, "bytes-to-matrix", 20000, 300000, raw)
	hx.Run(t, "proof", 10000, 150000, proof)
	hx.Run(t, "bytes-to-proof", 20000, 300000, rawProof)
	hx.Run(t, "group", 800, 12000, elements)
	hx.Run(t, "bytes-to-group", 3000, 50000, rawElements)
	hx.Run(t, "client-query", 10000, 150000, clientQuery)
	hx.Run(t, "server-query", 1500, 20000, serverQuery)
	hx.Run(t, "bits", 10000, 150000, bits)
}

func dim(t *rapid.T, label string, max int) int {
	return hx.Size(t, label, 1, max, 1, 2, 8)
}

func word(s *hx.Stream) uint32 {
	if s.Intn(4) == 0 {
		return []uint32{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 0x01020304}[s.Intn(6)]
	}
	return uint32(s.U64())
}

func words(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	w := make([]uint32, rapid.IntRange(0, 60).Draw(t, "n"))
	for i := range w {
		w[i] = word(s)
	}
	c.Case("%v", w)
	c.NonTrivialIf(len(w) > 1)
	b := utils.Uint32SliceToByteSlice(w)
	if len(b) != 4*len(w) {
		t.Fatalf("%d words take %d bytes", len(w), len(b))
	}
	keep := append([]byte{}, b...)
	got := utils.ByteSliceToUint32Slice(b)
	if len(got) != len(w) {
		t.Fatalf("%d words decode to %d", len(w), len(got))
	}
	for i := range w {
		if got[i] != w[i] {
			t.Fatalf("word %d: %d decodes to %d", i, w[i], got[i])
		}
	}
	if !bytes.Equal(keep, b) {
		t.Fatalf("decoding changed the bytes")
	}
	r := s.Bytes(4 * len(w))
	if !bytes.Equal(utils.Uint32SliceToByteSlice(utils.ByteSliceToUint32Slice(r)), r) {
		t.Fatalf("bytes %x change", r)
	}
}

// threeBytes: field elements that carry three bytes of data each.
func threeBytes(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	data := s.Bytes(3 * rapid.IntRange(0, 200).Draw(t, "n"))
	for i := range data { // zeros at every place
		if s.Intn(5) == 0 {
			data[i] = 0
		}
	}
	c.Case("%x", data)
	c.NonTrivialIf(len(data) > 3)
	var v []uint32
	for i := 0; i < len(data); i += 3 {
		v = append(v, uint32(data[i])<<16|uint32(data[i+1])<<8|uint32(data[i+2]))
	}
	keep := append([]uint32{}, v...)
	for k := 0; k < 2; k++ {
		if got := field.VectorToBytes(v); !bytes.Equal(got, data) {
			t.Fatalf("elements %v carry %x instead of %x", v, got, data)
		}
	}
	for i := range v {
		if v[i] != keep[i] {
			t.Fatalf("element %d changed from %d to %d", i, keep[i], v[i])
		}
	}
}

func rnd(s *hx.Stream, r, k int) *matrix.Matrix {
	switch s.Intn(3) {
	case 0:
		return matrix.NewRandom(s, r, k)
	case 1:
		return matrix.NewGauss(r, k)
	}
	m := matrix.New(r, k)
	for i := 0; i < r*k; i++ {
		m.SetData(i, word(s))
	}
	return m
}

func same(a, b *matrix.Matrix) error {
	if b == nil {
		return fmt.Errorf("the encoding of a %dx%d matrix does not decode", a.Rows(), a.Cols())
	}
	if a.Rows() != b.Rows() || a.Cols() != b.Cols() || b.Len() != b.Rows()*b.Cols() {
		return fmt.Errorf("a %dx%d matrix decodes to %dx%d with %d words", a.Rows(), a.Cols(), b.Rows(), b.Cols(), b.Len())
	}
	for i := 0; i < a.Rows(); i++ {
		for j := 0; j < a.Cols(); j++ {
			if a.Get(i, j) != b.Get(i, j) {
				return fmt.Errorf("entry (%d,%d) of a %dx%d matrix: %d decodes to %d", i, j, a.Rows(), a.Cols(), a.Get(i, j), b.Get(i, j))
			}
		}
	}
	return nil
}

func mat(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	r, k := dim(t, "rows", 40), dim(t, "cols", 40)
	m := rnd(s, r, k)
	c.Case("%dx%d tape=%x", r, k, s.U64())
	c.NonTrivialIf(r*k > 1)
	b := matrix.MatrixToBytes(m)
	if len(b) != len(matrix.MatrixToBytes(matrix.New(r, k))) {
		t.Fatalf("%dx%d: the size depends on the content", r, k)
	}
	got := matrix.BytesToMatrix(b)
	if err := same(m, got); err != nil {
		t.Fatalf("%v", err)
	}
	if !bytes.Equal(matrix.MatrixToBytes(got), b) {
		t.Fatalf("%dx%d: encoding again differs", r, k)
	}
	// the decoded matrix is a value of its own
	for i := range b {
		b[i] ^= 0x5a
	}
	if err := same(m, got); err != nil {
		t.Fatalf("after the bytes changed: %v", err)
	}
}

func mat128(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	r, k := dim(t, "rows", 20), dim(t, "cols", 20)
	c.Case("%dx%d tape=%x", r, k, s.U64())
	c.NonTrivialIf(r*k > 1)
	m := matrix.New128(r, k)
	switch s.Intn(3) {
	case 0:
		m = matrix.NewRandom128(s, r, k)
	case 1:
		m = matrix.NewGauss128(r, k)
	default:
		for i := 0; i < r; i++ {
			for j := 0; j < k; j++ {
				m.Set(i, j, uint128.New(uint64(word(s))<<32|uint64(word(s)), uint64(word(s))<<32|uint64(word(s))))
			}
		}
	}
	b := matrix.Matrix128ToBytes(m)
	if len(b) != len(matrix.Matrix128ToBytes(matrix.New128(r, k))) {
		t.Fatalf("%dx%d: the size depends on the content", r, k)
	}
	got := matrix.BytesToMatrix128(b)
	if got == nil || got.Rows() != r || got.Cols() != k || got.Len() != r*k {
		t.Fatalf("a %dx%d matrix decodes to %+v", r, k, got)
	}
	for i := 0; i < r; i++ {
		for j := 0; j < k; j++ {
			if m.Get(i, j) != got.Get(i, j) {
				t.Fatalf("entry (%d,%d) of a %dx%d matrix: %v decodes to %v", i, j, r, k, m.Get(i, j), got.Get(i, j))
			}
		}
	}
	if !bytes.Equal(matrix.Matrix128ToBytes(got), b) {
		t.Fatalf("%dx%d: encoding again differs", r, k)
	}
}

func mats(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	r, k := dim(t, "rows", 20), dim(t, "cols", 20)
	n := rapid.IntRange(1, 12).Draw(t, "n")
	if rapid.IntRange(0, 30).Draw(t, "many") == 0 { // more than a byte counts
		n = hx.Size(t, "count", 13, 700, 127, 128, 255, 256, 257, 512)
		if rapid.IntRange(0, 9).Draw(t, "more") == 0 { // or two
			n = hx.Size(t, "large-count", 4000, 70000, 4096, 32768, 65535, 65536)
			r, k = 1+r%2, 1+k%2
		}
	}
	c.Case("%d of %dx%d tape=%x", n, r, k, s.U64())
	c.NonTrivialIf(n > 1)
	ms, zero := make([]*matrix.Matrix, n), make([]*matrix.Matrix, n)
	for i := range ms {
		ms[i], zero[i] = rnd(s, r, k), matrix.New(r, k)
	}
	if n > 1 && s.Intn(3) == 0 {
		ms[n-1] = ms[0]
	}
	b := matrix.MatricesToBytes(ms)
	if len(b) != len(matrix.MatricesToBytes(zero)) {
		t.Fatalf("%d of %dx%d: the size depends on the content", n, r, k)
	}
	got := matrix.BytesToMatrices(b)
	if len(got) != n {
		t.Fatalf("%d matrices decode to %d", n, len(got))
	}
	for i := range ms {
		if err := same(ms[i], got[i]); err != nil {
			t.Fatalf("matrix %d: %v", i, err)
		}
	}
	if !bytes.Equal(matrix.MatricesToBytes(got), b) {
		t.Fatalf("%d of %dx%d: encoding again differs", n, r, k)
	}
}

// raw decodes bytes that look like encodings; what decodes is encoded the same.
func raw(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	kind := rapid.IntRange(0, 2).Draw(t, "kind")
	r, k, n := rapid.IntRange(0, 6).Draw(t, "rows"), rapid.IntRange(0, 6).Draw(t, "cols"), 1
	size := []int{4, 16, 4}[kind]
	mk := func() []byte {
		b := make([]byte, 8, 8+size*r*k)
		binary.BigEndian.PutUint32(b, uint32(r))
		binary.BigEndian.PutUint32(b[4:], uint32(k))
		return append(b, s.Bytes(size*r*k)...)
	}
	b := mk()
	if kind == 2 {
		n = rapid.IntRange(1, 5).Draw(t, "n")
		h := make([]byte, 4)
		binary.BigEndian.PutUint32(h, uint32(len(b)))
		for i := 1; i < n; i++ {
			b = append(b, mk()...)
		}
		b = append(h, b...)
	}
	switch rapid.IntRange(0, 4).Draw(t, "edit") {
	case 0:
		b = b[:s.Intn(len(b)+1)]
	case 1:
		b = append(b, s.Bytes(1+s.Intn(20))...)
	case 2:
		b[s.Intn(len(b))] ^= 1 << uint(s.Intn(8))
	}
	c.Case("%s %x", []string{"matrix", "matrix128", "matrices"}[kind], b)
	keep := append([]byte{}, b...)
	var out []byte
	switch kind {
	case 0:
		if m := matrix.BytesToMatrix(b); m != nil {
			out = matrix.MatrixToBytes(m)
		}
	case 1:
		if m := matrix.BytesToMatrix128(b); m != nil {
			out = matrix.Matrix128ToBytes(m)
		}
	case 2:
		ms := matrix.BytesToMatrices(b)
		if len(ms) > 0 {
			for _, m := range ms {
				if m == nil {
					t.Fatalf("%x decodes to a missing matrix", b)
				}
				if m.Rows() != ms[0].Rows() || m.Cols() != ms[0].Cols() {
					c.Class("mixed shapes")
					return
				}
			}
			out = matrix.MatricesToBytes(ms)
		}
	}
	if !bytes.Equal(keep, b) {
		t.Fatalf("decoding changed the bytes")
	}
	if out == nil {
		c.Class("refused")
		return
	}
	c.NonTrivial()
	c.Class("decoded")
	if !bytes.Equal(out, b) {
		t.Fatalf("%x decodes and is encoded as %x", b, out)
	}
}

func proof(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	p := &merkle.Proof{Index: word(s)}
	n := rapid.IntRange(0, 32).Draw(t, "hashes")
	for i := 0; i < n; i++ {
		p.Hashes = append(p.Hashes, gen.Content(t, s, 32))
	}
	c.Case("%d hashes index %d tape=%x", n, p.Index, s.U64())
	c.NonTrivialIf(n > 0)
	b := merkle.EncodeProof(p)
	z := &merkle.Proof{}
	for i := 0; i < n; i++ {
		z.Hashes = append(z.Hashes, make([]byte, 32))
	}
	if len(merkle.EncodeProof(z)) != len(b) {
		t.Fatalf("%d hashes: the size depends on the content", n)
	}
	got := merkle.DecodeProof(b)
	if got == nil || got.Index != p.Index || len(got.Hashes) != n {
		t.Fatalf("%d hashes, index %d: decodes to %+v", n, p.Index, got)
	}
	for i := range p.Hashes {
		if !bytes.Equal(p.Hashes[i], got.Hashes[i]) {
			t.Fatalf("hash %d differs", i)
		}
	}
	if !bytes.Equal(merkle.EncodeProof(got), b) {
		t.Fatalf("encoding again differs")
	}
}

func rawProof(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	n := rapid.IntRange(0, 10).Draw(t, "hashes")
	b := make([]byte, 4, 8+32*n)
	binary.LittleEndian.PutUint32(b, uint32(n))
	b = append(b, s.Bytes(32*n+4)...)
	switch rapid.IntRange(0, 4).Draw(t, "edit") {
	case 0:
		b = b[:s.Intn(len(b)+1)]
	case 1:
		b = append(b, s.Bytes(1+s.Intn(70))...)
	case 2:
		b[s.Intn(len(b))] ^= 1 << uint(s.Intn(8))
	}
	c.Case("proof %x", b)
	p := merkle.DecodeProof(b)
	if p == nil {
		c.Class("refused")
		return
	}
	c.NonTrivial()
	if out := merkle.EncodeProof(p); !bytes.Equal(out, b) {
		t.Fatalf("%x decodes and is encoded as %x", b, out)
	}
}

var sizes = map[group.Group]int{}

func size(g group.Group) int {
	if sizes[g] == 0 {
		sizes[g] = database.CreateRandomEllipticWithDigest(hx.NewStream(1), 1, g, false).ElementSize
	}
	return sizes[g]
}

func elements(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	g := rapid.SampledFrom(gen.Groups).Draw(t, "group")
	es := make([]group.Element, rapid.IntRange(0, 6).Draw(t, "n"))
	d := ""
	for i := range es {
		switch rapid.IntRange(0, 4).Draw(t, "kind") {
		case 0:
			es[i] = g.Identity()
			d += "0"
		case 1:
			es[i] = g.Generator()
			d += "G"
		case 2:
			es[i] = g.NewElement().Neg(g.RandomElement(s))
			d += "-"
		case 3: // an identity that was computed
			e := g.RandomElement(s)
			es[i] = g.NewElement().Add(e, g.NewElement().Neg(e))
			d += "z"
		default:
			es[i] = database.HashIndexToGroup(s.U64(), g)
			d += "h"
		}
	}
	c.Case("%s %s tape=%x", gen.GroupName(g), d, s.U64())
	c.Class(gen.GroupName(g))
	c.NonTrivialIf(len(es) > 1)
	n := size(g)
	b, err := database.MarshalGroupElements(es, n)
	if err != nil {
		t.Fatalf("%v", err)
	}
	if len(b) != n*len(es) {
		t.Fatalf("%s: elements %s take %d bytes of %d each", gen.GroupName(g), d, len(b), n)
	}
	got, err := database.UnmarshalGroupElements(b, g, n)
	if err != nil {
		t.Fatalf("%s: elements %s: %v", gen.GroupName(g), d, err)
	}
	if len(got) != len(es) {
		t.Fatalf("%s: %d elements decode to %d", gen.GroupName(g), len(es), len(got))
	}
	for i := range es {
		if !es[i].IsEqual(got[i]) || es[i].IsIdentity() != got[i].IsIdentity() {
			t.Fatalf("%s: element %d of %s decodes to another one", gen.GroupName(g), i, d)
		}
	}
	b2, err := database.MarshalGroupElements(got, n)
	if err != nil || !bytes.Equal(b, b2) {
		t.Fatalf("%s: elements %s: encoding again differs (%v)", gen.GroupName(g), d, err)
	}
}

func rawElements(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	g := rapid.SampledFrom(gen.Groups).Draw(t, "group")
	n := size(g)
	var b []byte
	for i := rapid.IntRange(1, 3).Draw(t, "n"); i > 0; i-- {
		switch s.Intn(5) {
		case 0:
			b = append(b, make([]byte, n)...)
		case 1:
			b = append(b, byte(2+s.Intn(3)))
			b = append(b, s.Bytes(n-1)...)
		case 2:
			b = append(b, s.Bytes(n)...)
		default:
			e, _ := database.MarshalGroupElements([]group.Element{g.RandomElement(s)}, n)
			b = append(b, e...)
		}
	}
	if s.Intn(3) == 0 {
		b[s.Intn(len(b))] ^= 1 << uint(s.Intn(8))
	}
	if s.Intn(6) == 0 {
		b = b[:s.Intn(len(b))]
	}
	c.Case("%s %x", gen.GroupName(g), b)
	es, err := database.UnmarshalGroupElements(b, g, n)
	if err != nil {
		c.Class("refused")
		return
	}
	c.NonTrivial()
	out, err := database.MarshalGroupElements(es, n)
	if err != nil || !bytes.Equal(out, b) {
		t.Fatalf("%s: %x decodes and is encoded as %x (%v)", gen.GroupName(g), b, out, err)
	}
}

func info(s *hx.Stream) *query.Info {
	i := &query.Info{
		Target:    query.Target(s.Intn(3)),
		FromStart: s.Intn(40), FromEnd: s.Intn(40),
		And: s.Intn(2) == 0, Avg: s.Intn(2) == 0, Sum: s.Intn(2) == 0,
	}
	for k := s.Intn(3); k > 0; k-- {
		i.Targets = append(i.Targets, query.Target(s.Intn(3)))
	}
	return i
}

func equalInfo(a, b *query.Info) bool {
	if a == nil || b == nil {
		return false
	}
	x, y := *a, *b
	if len(x.Targets) == 0 {
		x.Targets = nil
	}
	if len(y.Targets) == 0 {
		y.Targets = nil
	}
	return reflect.DeepEqual(x, y)
}

func clientQuery(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	q := &query.ClientFSS{Info: info(s), Input: make([]bool, rapid.IntRange(0, 400).Draw(t, "bits"))}
	one := rapid.IntRange(0, 3).Draw(t, "content")
	for i := range q.Input {
		q.Input[i] = one == 0 || (one > 1 && s.Intn(2) == 0)
	}
	c.Case("%+v %d bits tape=%x", *q.Info, len(q.Input), s.U64())
	c.NonTrivialIf(len(q.Input) > 0)
	b, err := q.Encode()
	if err != nil {
		t.Fatalf("%v", err)
	}
	got, err := query.DecodeClientFSS(b)
	if err != nil {
		t.Fatalf("%v", err)
	}
	if !equalInfo(q.Info, got.Info) || len(got.Input) != len(q.Input) {
		t.Fatalf("%+v (%d bits) decodes to %+v (%d bits)", *q.Info, len(q.Input), got.Info, len(got.Input))
	}
	for i := range q.Input {
		if q.Input[i] != got.Input[i] {
			t.Fatalf("bit %d decodes to %v", i, got.Input[i])
		}
	}
	b2, err := got.Encode()
	if err != nil || !bytes.Equal(b, b2) {
		t.Fatalf("%+v: encoding again differs (%v)", *q.Info, err)
	}
}

// serverQuery makes encoded queries and compares what the server decodes with
// what the same client makes as values.
func serverQuery(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	db := gen.KeysDB(t, s, 6)
	p := gen.NewPred(t, s, db, "q")
	auth := rapid.Bool().Draw(t, "auth")
	c.Case("%s auth=%v on %d keys tape=%x", p.Desc, auth, len(db.KeysInfo), s.U64())
	c.NonTrivialIf(len(db.KeysInfo) > 0)
	type cl interface {
		QueryBytes([]byte, int) ([][]byte, error)
		Query(*query.ClientFSS, int) []*query.FSS
	}
	type sv interface {
		AnswerBytes([]byte) ([]byte, error)
		Answer(*query.FSS) []uint32
	}
	seed := s.U64()
	mk := func() cl {
		hx.Reseed(seed)
		if auth {
			return client.NewPredicateAPIR(hx.NewStream(seed), &db.Info)
		}
		return client.NewPredicatePIR(hx.NewStream(seed), &db.Info)
	}
	in, err := p.Q.Encode()
	if err != nil {
		t.Fatalf("%v", err)
	}
	enc, err := mk().QueryBytes(in, 2)
	if err != nil || len(enc) != 2 {
		t.Fatalf("%d queries: %v", len(enc), err)
	}
	if again, err := mk().QueryBytes(in, 2); err != nil || !bytes.Equal(again[0], enc[0]) || !bytes.Equal(again[1], enc[1]) {
		c.Class("not replayable")
		return
	}
	dec, err := query.DecodeClientFSS(in)
	if err != nil {
		t.Fatalf("%v", err)
	}
	plain := mk().Query(dec, 2)
	for k := range enc {
		var got *query.FSS
		if err := gob.NewDecoder(bytes.NewReader(enc[k])).Decode(&got); err != nil {
			t.Fatalf("query %d: %v", k, err)
		}
		if !equalInfo(got.Info, plain[k].Info) || !equalInfo(got.Info, p.Q.Info) {
			t.Fatalf("query %d is about %+v instead of %+v", k, got.Info, plain[k].Info)
		}
		a, b := got.FssKey, plain[k].FssKey
		if !bytes.Equal(a.SInit, b.SInit) || a.TInit != b.TInit || !reflect.DeepEqual(a.FinalCW, b.FinalCW) ||
			len(a.CW) != len(b.CW) || (len(a.CW) > 0 && !reflect.DeepEqual(a.CW, b.CW)) {
			t.Fatalf("query %d decodes to another key", k)
		}
		var buf bytes.Buffer
		if err := gob.NewEncoder(&buf).Encode(got); err != nil || !bytes.Equal(buf.Bytes(), enc[k]) {
			t.Fatalf("query %d: encoding again differs (%v)", k, err)
		}
		// the encoded answer is the answer
		var sb, sp sv
		if auth {
			sb, sp = server.NewPredicateAPIR(db, byte(k)), server.NewPredicateAPIR(db, byte(k))
		} else {
			sb, sp = server.NewPredicatePIR(db, byte(k)), server.NewPredicatePIR(db, byte(k))
		}
		ab, err := sb.AnswerBytes(enc[k])
		if err != nil {
			t.Fatalf("server %d: %v", k, err)
		}
		ap := sp.Answer(plain[k])
		if !bytes.Equal(ab, utils.Uint32SliceToByteSlice(ap)) {
			t.Fatalf("server %d: the encoded answer differs from the answer", k)
		}
	}
}

// bits checks the conversion of bytes to input bits.
func bits(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	b := gen.Content(t, s, rapid.IntRange(0, 40).Draw(t, "n"))
	c.Case("%x", b)
	c.NonTrivialIf(len(b) > 0)
	keep := append([]byte{}, b...)
	got := utils.ByteToBits(b)
	if len(got) != 8*len(b) || !bytes.Equal(keep, b) {
		t.Fatalf("%x: %d bits", b, len(got))
	}
	back := make([]byte, len(b))
	for i, x := range got {
		if x {
			back[i/8] |= 0x80 >> uint(i%8)
		}
	}
	if !bytes.Equal(back, b) {
		t.Fatalf("%x: the bits stand for %x", b, back)
	}
}
