package c07

import (
	"fmt"
	"reflect"
	"testing"

	"aaverif/hx"

	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/fss"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	hx.Main(m, hx.Meta{ID: "C07",
		Rule: "random input lengths 0-512 (boundary biased), payload vectors of 1-21 elements (zero, extreme and random values), evaluation points that are random, equal to the secret, share a prefix of any length with it or differ in one bit; key generators and evaluators are reused and interleaved, output buffers are dirty; non-trivial when both the secret point and a different point of the same length were evaluated and the payload is not all zero"})
}

func TestProps(t *testing.T) {
	hx.Run(t, "point", 12000, 200000, point)
	hx.Run(t, "exhaustive", 250, 2500, exhaustive)
	hx.Run(t, "interleave", 600, 10000, interleave)
}

const p = uint64(field.ModP)

func bits(s *hx.Stream, n int) []bool {
	out := make([]bool, n)
	switch s.Intn(6) {
	case 0:
	case 1:
		for i := range out {
			out[i] = true
		}
	default:
		for i, b := range s.Bytes(n) {
			out[i] = b&1 == 1
		}
	}
	return out
}

func payload(s *hx.Stream, n int) []uint32 {
	out := make([]uint32, n)
	m := s.Intn(5)
	for i := range out {
		v := s.U64()
		switch {
		case m == 0 || v>>60 == 0:
			out[i] = []uint32{0, 1, field.ModP - 1, field.ModP / 2}[v%4]
		default:
			out[i] = uint32(v % p)
		}
	}
	if m == 1 {
		out[0] = 1
	}
	return out
}

func str(b []bool) string {
	s := make([]byte, len(b))
	for i, x := range b {
		s[i] = '0'
		if x {
			s[i] = '1'
		}
	}
	return string(s)
}

func eval(sv *fss.Fss, num byte, k fss.FssKeyEq2P, x []bool, dirty uint32, n int) []uint32 {
	out := make([]uint32, n)
	for i := range out {
		out[i] = dirty
	}
	sv.EvaluatePF(num, k, x, out)
	return out
}

func clone(k fss.FssKeyEq2P) fss.FssKeyEq2P {
	o := fss.FssKeyEq2P{SInit: append([]byte{}, k.SInit...), TInit: k.TInit, FinalCW: append([]uint32{}, k.FinalCW...)}
	for _, c := range k.CW {
		o.CW = append(o.CW, append([]byte{}, c...))
	}
	return o
}

func sum(t *rapid.T, what string, a, b, want []uint32) {
	for i := range want {
		if uint64(a[i]) > p || uint64(b[i]) > p {
			t.Fatalf("%s: share out of range: %d %d", what, a[i], b[i])
		}
		if (uint64(a[i])+uint64(b[i]))%p != uint64(want[i]) {
			t.Fatalf("%s: element %d: %d + %d, expected %d", what, i, a[i], b[i], want[i])
		}
	}
}

var lens = []int{1, 2, 8, 16, 32, 64, 120, 127, 128, 160, 255, 256, 257, 288, 300, 512}

func point(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	n := hx.Size(t, "bits", 0, 300, lens...)
	if rapid.IntRange(0, 3).Draw(t, "long") == 0 {
		n = rapid.SampledFrom(lens).Draw(t, "n")
	}
	if rapid.IntRange(0, 30).Draw(t, "very long") == 0 { // emails of hundreds of letters
		n = hx.Size(t, "many bits", 300, 4200, 512, 513, 520, 1024, 2048, 2400, 4096)
	}
	bl := rapid.SampledFrom([]int{1, 5, 5, 2, 3, 4, 6, 8, 9, 16, 17, 20}).Draw(t, "block")
	a, b := bits(s, n), payload(s, bl)
	ac, bc := append([]bool{}, a...), append([]uint32{}, b...)
	c.Case("%d bits, %d elements, secret %s payload %v", n, bl, str(a), b)
	cl, s0, s1 := fss.ClientInitialize(bl), fss.ServerInitialize(bl), fss.ServerInitialize(bl)
	k := cl.GenerateTreePF(a, b)
	if len(k) != 2 || !reflect.DeepEqual(a, ac) || !reflect.DeepEqual(b, bc) {
		t.Fatalf("inputs changed or %d keys", len(k))
	}
	same := rapid.Bool().Draw(t, "one evaluator")
	if same {
		s1 = s0
	}
	zero := make([]uint32, bl)
	any := false
	for _, v := range b {
		any = any || v != 0
	}
	other := false
	for j := 0; j < 6; j++ {
		x := append([]bool{}, a...)
		what := "secret point"
		if n > 0 && j > 0 {
			switch j % 3 {
			case 0:
				x = bits(s, n)
				what = "random point"
			case 1: // shares a prefix
				l := s.Intn(n)
				copy(x[l+1:], bits(s, n-l-1))
				x[l] = !x[l]
				what = fmt.Sprintf("point sharing %d bits", l)
			case 2:
				l := s.Intn(n)
				x[l] = !x[l]
				what = fmt.Sprintf("point differing in bit %d", l)
			}
		}
		want := zero
		if str(x) == str(a) {
			want = b
		} else {
			other = true
		}
		d := uint32(s.U64())
		o0, o1 := eval(s0, 0, k[0], x, d, bl), eval(s1, 1, k[1], x, ^d, bl)
		sum(t, what+" "+str(x), o0, o1, want)
		if r0 := eval(s0, 0, k[0], x, 7, bl); !reflect.DeepEqual(r0, o0) {
			t.Fatalf("%s: evaluating again gives %v, not %v", what, r0, o0)
		}
	}
	c.NonTrivialIf(other && any)
	c.Class(fmt.Sprintf("len<=%d", map[bool]int{true: 128, false: 4200}[n <= 128]))
}

// exhaustive checks every point of a small domain.
func exhaustive(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	n := rapid.IntRange(1, 9).Draw(t, "bits")
	bl := rapid.SampledFrom([]int{1, 5}).Draw(t, "block")
	a, b := bits(s, n), payload(s, bl)
	c.Case("all points of %d bits, secret %s payload %v", n, str(a), b)
	c.NonTrivial()
	cl, s0, s1 := fss.ClientInitialize(bl), fss.ServerInitialize(bl), fss.ServerInitialize(bl)
	k := cl.GenerateTreePF(a, b)
	zero := make([]uint32, bl)
	for v := 0; v < 1<<uint(n); v++ {
		x := make([]bool, n)
		for i := range x {
			x[i] = v>>uint(i)&1 == 1
		}
		want := zero
		if str(x) == str(a) {
			want = b
		}
		sum(t, "point "+str(x), eval(s0, 0, k[0], x, 1, bl), eval(s1, 1, k[1], x, 2, bl), want)
	}
}

// interleave uses one generator and one evaluator per server for several keys
// of different lengths.
func interleave(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	bl := rapid.SampledFrom([]int{1, 5, 17}).Draw(t, "block")
	m := rapid.IntRange(2, 6).Draw(t, "keys")
	cl := fss.ClientInitialize(bl)
	sv := [2]*fss.Fss{fss.ServerInitialize(bl), fss.ServerInitialize(bl)}
	var as [][]bool
	var bs [][]uint32
	var ks, orig [][]fss.FssKeyEq2P
	d := ""
	for i := 0; i < m; i++ {
		n := rapid.SampledFrom(lens).Draw(t, "n")
		as, bs = append(as, bits(s, n)), append(bs, payload(s, bl))
		k := cl.GenerateTreePF(as[i], bs[i])
		ks = append(ks, k)
		orig = append(orig, []fss.FssKeyEq2P{clone(k[0]), clone(k[1])})
		d += fmt.Sprintf(" %s", str(as[i]))
	}
	c.Case("%d keys, %d elements, secrets%s", m, bl, d)
	c.NonTrivial()
	memo := map[string][]uint32{}
	zero := make([]uint32, bl)
	type pt struct {
		i int
		x []bool
	}
	var pts []pt
	for j := 0; j < 4*m; j++ {
		i := s.Intn(m)
		x := append([]bool{}, as[i]...)
		if s.Intn(2) == 0 {
			l := s.Intn(len(x))
			x[l] = !x[l]
		}
		pts = append(pts, pt{i, x})
	}
	for j := 0; j < 3*len(pts); j++ {
		q := pts[s.Intn(len(pts))]
		num := byte(s.Intn(2))
		key := fmt.Sprintf("%d/%d/%s", num, q.i, str(q.x))
		o := eval(sv[num], num, ks[q.i][num], q.x, uint32(s.U64()), bl)
		if w, ok := memo[key]; ok && !reflect.DeepEqual(w, o) {
			t.Fatalf("evaluation of %s gives %v, before %v", key, o, w)
		}
		memo[key] = o
		if o2, ok := memo[fmt.Sprintf("%d/%d/%s", 1-num, q.i, str(q.x))]; ok {
			want := zero
			if str(q.x) == str(as[q.i]) {
				want = bs[q.i]
			}
			sum(t, key, o, o2, want)
		}
	}
	if !reflect.DeepEqual(orig, ks) {
		t.Fatalf("evaluation changed the keys")
	}
}
