package c06

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"io"
	"reflect"
	"testing"

	"aaverif/gen"
	"aaverif/hx"
	"aaverif/stat"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/fss"
	"github.com/si-co/vpir-code/lib/query"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	hx.Main(m, hx.Meta{ID: "C06",
		Rule:        "random predicate queries of every kind, authenticated and unauthenticated; per case N keys for each of two secret inputs of equal length are drawn and the bits, the xors of any two bits and the bits of sums and differences of payload words are compared between the inputs and with a fair coin, with random and with fixed MAC keys; single keys are searched for MAC keys in clear and evaluated at other points; the seeds of the two servers are compared for fixed relations over many queries; non-trivial when the two secret inputs differ (statistics) or the query is authenticated (keys in clear)",
		Assumptions: []string{"statistical: biases below about 0.14 per bit are not seen; the thresholds leave less than 1e-9 per run to chance", "the pseudorandomness of AES is trusted"}})
}

func TestProps(t *testing.T) {
	hx.Run(t, "bits", 40, 1200, distribution)
	hx.Run(t, "clear", 3000, 50000, clear)
	hx.Run(t, "fresh", 300, 5000, fresh)
	hx.Run(t, "related", 12, 200, related)
	hx.Run(t, "mac-keys", 20, 300, macKeys)
}

const p = uint64(field.ModP)

type cli interface {
	client.Client
	Query(*query.ClientFSS, int) []*query.FSS
}

func newClient(rnd io.Reader, auth bool) cli {
	info := &database.Info{NumColumns: 1000}
	if auth {
		return client.NewPredicateAPIR(rnd, info)
	}
	return client.NewPredicatePIR(rnd, info)
}

func words(auth bool) int {
	if auth {
		return 1 + field.ConcurrentExecutions
	}
	return 1
}

// ask sends the query through the byte interface and decodes the two keys.
func ask(t *rapid.T, cl cli, q *query.ClientFSS) ([2]*query.FSS, [2]int) {
	in, err := q.Encode()
	if err != nil {
		t.Fatalf("%v", err)
	}
	qs, err := cl.QueryBytes(in, 2)
	if err != nil || len(qs) != 2 {
		t.Fatalf("%d queries, %v", len(qs), err)
	}
	var out [2]*query.FSS
	for k := range qs {
		out[k] = new(query.FSS)
		if err := gob.NewDecoder(bytes.NewReader(qs[k])).Decode(out[k]); err != nil {
			t.Fatalf("query does not decode: %v", err)
		}
	}
	return out, [2]int{len(qs[0]), len(qs[1])}
}

// flatten turns everything a server receives into bits.
func flatten(q *query.FSS) []byte {
	var b bytes.Buffer
	walk(&b, reflect.ValueOf(q))
	return b.Bytes()
}

func walk(b *bytes.Buffer, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteByte(0)
			return
		}
		walk(b, v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			walk(b, v.Field(i))
		}
	case reflect.Slice, reflect.Array, reflect.String:
		binary.Write(b, binary.BigEndian, uint32(v.Len()))
		for i := 0; i < v.Len(); i++ {
			walk(b, v.Index(i))
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		if v.Kind() == reflect.Uint8 {
			b.WriteByte(byte(v.Uint()))
		} else if v.Kind() == reflect.Uint32 {
			binary.Write(b, binary.BigEndian, uint32(v.Uint()))
		} else {
			binary.Write(b, binary.BigEndian, v.Uint())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		binary.Write(b, binary.BigEndian, v.Int())
	case reflect.Bool:
		if v.Bool() {
			b.WriteByte(1)
		} else {
			b.WriteByte(0)
		}
	default:
		panic("c06: unexpected kind " + v.Kind().String())
	}
}

// secrets draws a public description and two secret inputs of equal length.
func secrets(t *rapid.T, s *hx.Stream, maxBytes int) (*query.Info, [2][]bool, string) {
	info := &query.Info{}
	n := 0
	desc := ""
	kind := rapid.IntRange(0, 6).Draw(t, "kind")
	mk := func(nb int) [2]string {
		var e [2]string
		a := s.Bytes(nb)
		b := append([]byte{}, a...)
		switch s.Intn(3) {
		case 0:
			b = s.Bytes(nb)
		case 1:
			for i := range b {
				b[i] ^= 0xff
			}
		default:
			if nb > 0 {
				b[s.Intn(nb)] ^= 1 << uint(s.Intn(8))
			}
		}
		e[0], e[1] = string(a), string(b)
		return e
	}
	part := func() [2]string {
		n = rapid.IntRange(1, maxBytes).Draw(t, "len")
		if rapid.Bool().Draw(t, "start") {
			info.FromStart = n
		} else {
			info.FromEnd = n
		}
		return mk(n)
	}
	var in [2][]bool
	emails := func(e [2]string) {
		for w := range in {
			id, ok := info.IdForEmail(e[w])
			if !ok {
				hx.Broken("IdForEmail(%q)", e[w])
			}
			in[w] = append(in[w], id...)
		}
	}
	switch kind {
	case 0, 1:
		emails(part())
		desc = fmt.Sprintf("email part of %d bytes", n)
	case 2:
		if maxBytes >= 16 {
			emails(mk(20))
			desc = "whole email"
		} else {
			emails(part())
			desc = fmt.Sprintf("email part of %d bytes", n)
		}
	case 3:
		info.Target = query.PubKeyAlgo
		for w := range in {
			in[w] = info.IdForPubKeyAlgo(gen.Algos[s.Intn(len(gen.Algos))])
		}
		desc = "algorithm"
	case 4:
		info.And, info.Targets = true, []query.Target{query.CreationTime, query.UserId}
		for w := range in {
			in[w] = gen.WholeID(fmt.Sprint(w, s.U64()))[:32]
		}
		emails(part())
		desc = "year and email part"
	case 5, 6:
		info.And, info.Avg = true, true
		emails(part())
		desc = "average"
	}
	if len(in[0]) != len(in[1]) {
		hx.Broken("inputs of different lengths")
	}
	return info, in, fmt.Sprintf("%s, %d bits, inputs %v and %v", desc, len(in[0]), b01(in[0]), b01(in[1]))
}

func b01(b []bool) string {
	o := ""
	for _, x := range b {
		if x {
			o += "1"
		} else {
			o += "0"
		}
	}
	return o
}

type repeat struct {
	b   []byte
	pos int
}

func (r *repeat) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = r.b[r.pos%len(r.b)]
		r.pos++
	}
	return len(p), nil
}

func distribution(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	max := 2
	if rapid.IntRange(0, 5).Draw(t, "long") == 0 {
		max = 18
	}
	info, in, desc := secrets(t, s, max)
	auth := rapid.IntRange(0, 3).Draw(t, "auth") > 0
	fixed := auth && rapid.Bool().Draw(t, "fixed MAC keys")
	c.Case("auth=%v fixed MAC keys=%v %s tape=%x", auth, fixed, desc, s.U64())
	c.NonTrivialIf(b01(in[0]) != b01(in[1]))
	c.Class(fmt.Sprintf("auth=%v fixed=%v", auth, fixed))
	N := hx.N(1024, 2048)
	var view, coin [2][2]*stat.Bits // server, input
	var size [2][2]float64
	var cl [2]cli
	tape := s.Bytes(64)
	for i := 0; i < N; i++ {
		for w := range in {
			if cl[w] == nil || s.Intn(8) == 0 || fixed {
				var r io.Reader = s
				if fixed {
					r = &repeat{b: tape}
				}
				cl[w] = newClient(r, auth)
			}
			q := &query.ClientFSS{Info: info, Input: in[w]}
			var k [2]*query.FSS
			var sz [2]int
			if i%8 == 0 {
				k, sz = ask(t, cl[w], q)
			} else {
				qs := cl[w].Query(q, 2)
				k[0], k[1] = qs[0], qs[1]
			}
			for v := range k {
				f := flatten(k[v])
				if coin[v][w] == nil {
					coin[v][w] = stat.New(N)
				}
				coin[v][w].Add(coinBits(k[v]))
				if view[v][w] == nil {
					view[v][w] = stat.New(N)
				} else if 8*len(f) != len(view[v][w].Cols) {
					t.Fatalf("%s: the key of server %d changes its size", desc, v)
				}
				view[v][w].Add(f)
				size[v][w] += float64(sz[v])
				if len(k[v].FssKey.CW) != len(in[w]) || len(k[v].FssKey.FinalCW) != words(auth) {
					t.Fatalf("%s: %d correction words and %d payload words", desc, len(k[v].FssKey.CW), len(k[v].FssKey.FinalCW))
				}
				if !reflect.DeepEqual(norm(k[v].Info), norm(info)) {
					t.Fatalf("%s: server %d gets the description %+v instead of %+v", desc, v, k[v].Info, info)
				}
			}
		}
	}
	maxPairs := 100000
	for v := range view {
		if len(view[v][0].Cols) != len(view[v][1].Cols) {
			t.Fatalf("%s: the key of server %d is of different size for the two inputs", desc, v)
		}
		if err := stat.Same(view[v][0], view[v][1], maxPairs, s); err != nil {
			t.Fatalf("%s, auth=%v, key of server %d: %v", desc, auth, v, err)
		}
		if d := (size[v][0] - size[v][1]) / float64(N/8); d > 2 || d < -2 {
			t.Fatalf("%s, auth=%v, key of server %d: mean encoded sizes differ by %.1f bytes", desc, auth, v, d)
		}
		for w := range in {
			if err := coin[v][w].Balanced(maxPairs, s); err != nil {
				t.Fatalf("%s, auth=%v fixed=%v, input %d, key of server %d: %v", desc, auth, fixed, w, v, err)
			}
		}
	}
}

func norm(i *query.Info) query.Info {
	o := *i
	if len(o.Targets) == 0 {
		o.Targets = nil
	}
	return o
}

// coinBits lists the parts of a key that must look like coins: the seed, the
// correction words and the payload words with their sums and differences.
func coinBits(q *query.FSS) []byte {
	var out []byte
	acc, n := byte(0), 0
	put := func(v uint64, bits int) {
		for i := 0; i < bits; i++ {
			acc |= byte(v>>uint(i)&1) << uint(n)
			if n++; n == 8 {
				out = append(out, acc)
				acc, n = 0, 0
			}
		}
	}
	for _, x := range q.FssKey.SInit {
		put(uint64(x), 8)
	}
	for _, cw := range q.FssKey.CW {
		for _, x := range cw[:16] {
			put(uint64(x), 8)
		}
		put(uint64(cw[16]), 1)
		put(uint64(cw[17]), 1)
	}
	f := q.FssKey.FinalCW
	for i := range f {
		for j := range f {
			switch {
			case i == j:
				put(uint64(f[i]), 31)
			case i < j:
				put((uint64(f[i])+uint64(f[j]))%p, 31)
			default:
				put((uint64(f[i])+p-uint64(f[j])%p)%p, 31)
			}
		}
	}
	for n != 0 {
		put(rndBit(), 1)
	}
	return out
}

var filler = hx.NewStream(99)

func rndBit() uint64 { return filler.U64() & 1 }

// evaluate sums the evaluations of both keys.
func evaluate(k [2]*query.FSS, x []bool, w int) []uint64 {
	sum := make([]uint64, w)
	for v := range k {
		out := make([]uint32, w)
		fss.ServerInitialize(w).EvaluatePF(byte(v), k[v].FssKey, x, out)
		for i := range sum {
			sum[i] = (sum[i] + uint64(out[i])) % p
		}
	}
	return sum
}

// clear searches single queries for the MAC keys and for a second input.
func clear(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	info, in, desc := secrets(t, s, 20)
	auth := rapid.IntRange(0, 3).Draw(t, "auth") > 0
	c.Case("auth=%v %s tape=%x", auth, desc, s.U64())
	c.NonTrivialIf(auth)
	var r io.Reader = s
	if rapid.IntRange(0, 3).Draw(t, "extreme") == 0 {
		r = &repeat{b: [][]byte{{1}, {0x7f, 0xff, 0xff, 0xfe}, {0xff, 0, 1, 2, 3}, s.Bytes(4)}[s.Intn(4)]}
	}
	k, _ := ask(t, newClient(r, auth), &query.ClientFSS{Info: info, Input: in[0]})
	w := words(auth)
	a := evaluate(k, in[0], w)
	if a[0] != 1 {
		t.Fatalf("%s: keys evaluate to %v at the secret input", desc, a)
	}
	// every other point evaluates to zero: one secret input
	for j := 0; j < 4; j++ {
		x := append([]bool{}, in[0]...)
		l := s.Intn(len(x))
		x[l] = !x[l]
		for q := l + 1; q < len(x) && j%2 == 0; q++ {
			x[q] = s.Intn(2) == 0
		}
		for i, v := range evaluate(k, x, w) {
			if v != 0 {
				t.Fatalf("%s: element %d of the evaluation at %s is %d", desc, i, b01(x), v)
			}
		}
	}
	for v := range k {
		for i := 0; i < w; i++ {
			for j, f := range k[v].FssKey.FinalCW {
				if a[i] > 1 && (uint64(f)%p == a[i] || (p-uint64(f)%p)%p == a[i]) && a[i] > 1<<20 && a[i] < p-1<<20 {
					// a coincidence has probability 2^-30 per pair
					if again(t, s, r, auth, info, in[0], i, j) {
						t.Fatalf("%s: payload word %d of server %d is MAC key %d (%d) up to sign", desc, j, v, i, a[i])
					}
				}
			}
		}
	}
}

// again tells whether the MAC key appears in clear in a second query as well.
func again(t *rapid.T, s *hx.Stream, r io.Reader, auth bool, info *query.Info, in []bool, i, j int) bool {
	w := words(auth)
	for n := 0; n < 4; n++ {
		k, _ := ask(t, newClient(r, auth), &query.ClientFSS{Info: info, Input: in})
		a := evaluate(k, in, w)
		f := uint64(k[0].FssKey.FinalCW[j]) % p
		if f == a[i] || (p-f)%p == a[i] {
			return true
		}
	}
	return false
}

// fresh repeats queries.
func fresh(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	info, in, desc := secrets(t, s, 20)
	auth := rapid.Bool().Draw(t, "auth")
	c.Case("auth=%v %s", auth, desc)
	c.NonTrivial()
	cl := newClient(s, auth)
	seeds := map[string]string{}
	cws := map[string]string{}
	for q := 0; q < 6; q++ {
		if q > 0 && s.Intn(3) == 0 {
			cl = newClient(s, auth)
		}
		w := s.Intn(2)
		hx.Predictable()
		k, _ := ask(t, cl, &query.ClientFSS{Info: info, Input: in[w]})
		for v := range k {
			me := fmt.Sprintf("query %d server %d", q, v)
			sd := string(k[v].FssKey.SInit)
			if len(sd) != 16 || seeds[sd] != "" {
				t.Fatalf("%s: seed %x of %s was used by %s", desc, sd, me, seeds[sd])
			}
			seeds[sd] = me
		}
		if k[0].FssKey.TInit^k[1].FssKey.TInit != 1 {
			t.Fatalf("%s: control bits %d %d", desc, k[0].FssKey.TInit, k[1].FssKey.TInit)
		}
		for i, x := range k[0].FssKey.CW {
			me := fmt.Sprintf("query %d level %d", q, i)
			if o := cws[string(x[:16])]; o != "" {
				t.Fatalf("%s: correction word of %s equals that of %s", desc, me, o)
			}
			cws[string(x[:16])] = me
		}
	}
}

// related looks for relations between what the two servers get: a server that
// could work out the key of the other one would know the secret input.
func related(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	info, in, desc := secrets(t, s, 4)
	auth := rapid.Bool().Draw(t, "auth")
	c.Case("auth=%v %s", auth, desc)
	c.NonTrivial()
	cl := newClient(s, auth)
	const N = 60
	type at struct{ i, j, op int }
	seen := map[at]*[256]int{}
	for q := 0; q < N; q++ {
		if s.Intn(4) == 0 {
			cl = newClient(s, auth)
		}
		k, _ := ask(t, cl, &query.ClientFSS{Info: info, Input: in[s.Intn(2)]})
		a, b := k[0].FssKey.SInit, k[1].FssKey.SInit
		for i, x := range a {
			for j, y := range b {
				for op, v := range []byte{x ^ y, x - y, x + y} {
					p := at{i, j, op}
					if seen[p] == nil {
						seen[p] = new([256]int)
					}
					// a value has the probability 2^-8: 12 of 60 times means
					// 2^-96 * C(60,12), about 2^-56
					if seen[p][v]++; seen[p][v] >= 12 {
						t.Fatalf("%s: byte %d of the seed of server 0 and byte %d of that of server 1 are related (operation %d yields %d in %d of %d queries)",
							desc, i, j, op, v, seen[p][v], q+1)
					}
				}
			}
		}
	}
}

// macKeys recovers the MAC keys of many queries: uniform, independent, fresh.
func macKeys(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	info, in, desc := secrets(t, s, 2)
	N := 1024
	c.Case("%s tape=%x", desc, s.U64())
	c.NonTrivial()
	w := words(true)
	v := stat.New(N)
	cl := newClient(s, true)
	seen := map[string]bool{}
	var prev []uint64
	for i := 0; i < N; i++ {
		if s.Intn(4) == 0 {
			cl = newClient(s, true)
		}
		k, _ := ask(t, cl, &query.ClientFSS{Info: info, Input: in[0]})
		a := evaluate(k, in[0], w)
		var row []byte
		id := fmt.Sprint(a)
		if seen[id] {
			t.Fatalf("%s: MAC keys %s are used twice", desc, id)
		}
		seen[id] = true
		for j := 1; j < w; j++ {
			row = append(row, word(a[j])...)
			for l := 1; l < j; l++ {
				row = append(row, word((a[j]+p-a[l])%p)...)
			}
			if prev != nil {
				row = append(row, word((a[j]+p-prev[j])%p)...)
			} else {
				row = append(row, word(s.U64()%p)...)
			}
		}
		prev = a
		v.Add(row)
	}
	// every fourth byte holds 7 significant bits: drop the constant one
	sub := &stat.Bits{N: v.N}
	for i := range v.Cols {
		if i%32 != 7 {
			sub.Cols = append(sub.Cols, v.Cols[i])
		}
	}
	if err := sub.Balanced(300000, s); err != nil {
		t.Fatalf("%s: MAC keys: %v", desc, err)
	}
}

func word(v uint64) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, uint32(v))
	return b
}
