package c18

import (
	"bytes"
	"fmt"
	"testing"

	"aaverif/gen"
	"aaverif/hx"

	"github.com/si-co/vpir-code/lib/merkle"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	hx.Main(m, hx.Meta{ID: "C18",
		Rule:        "random lists of records (one to a few hundred, in some cases up to 2^21, equal records, empty records, records that look like hashes, leaf or branch inputs); all proofs verified, and altered claims (other data, position, path, root; inner nodes presented as records; proofs of other leaves and trees) rejected; roots compared between lists that differ in content, order, boundaries or number; non-trivial when the list has at least two records",
		Assumptions: []string{"BLAKE3 is collision resistant"}})
}

func TestProps(t *testing.T) {
	hx.Run(t, "proofs", 4000, 60000, proofs)
	hx.Run(t, "forged", 20000, 300000, forged)
	hx.Run(t, "roots", 10000, 150000, roots)
	hx.Run(t, "long-records", 60, 1000, long)
	hx.Run(t, "sizes", 300, 4000, func(t *rapid.T, c *hx.C) { sizes(t, c, 1, 3000) })
	hx.Run(t, "large-sizes", 12, 200, func(t *rapid.T, c *hx.C) { sizes(t, c, 50000, 150000) })
	hx.Run(t, "huge-sizes", 3, 15, func(t *rapid.T, c *hx.C) {
		n := 1<<uint(rapid.SampledFrom([]int{21, 21, 20, 19}).Draw(t, "magnitude")) + rapid.SampledFrom([]int{1, 1, 1, 0, 2, 5000}).Draw(t, "more")
		sizes(t, c, n, n)
	})
}

func list(t *rapid.T, s *hx.Stream, max int) [][]byte {
	n := hx.Size(t, "records", 1, max, 1, 2, 4, 8, 16, 32, 64)
	l := rapid.SampledFrom([]int{0, 1, 3, 31, 32, 33, 64, 65, 100}).Draw(t, "length")
	pool := rapid.SampledFrom([]int{1, 2, 1 << 20, 1 << 20}).Draw(t, "distinct")
	variable := rapid.Bool().Draw(t, "variable")
	out := make([][]byte, n)
	for i := range out {
		k := l
		if variable {
			k = s.Intn(l + 1)
		}
		out[i] = gen.Content(t, s, k)
		if i >= pool {
			out[i] = append([]byte{}, out[s.Intn(pool)]...)
		}
	}
	return out
}

func clone(l [][]byte) [][]byte {
	out := make([][]byte, len(l))
	for i := range l {
		out[i] = append([]byte{}, l[i]...)
	}
	return out
}

func equal(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func describe(l [][]byte) string {
	var n []int
	for i, x := range l {
		if i == 20 {
			break
		}
		n = append(n, len(x))
	}
	return fmt.Sprintf("%d records of %v", len(l), n)
}

func build(t *rapid.T, l [][]byte) *merkle.MerkleTree {
	keep := clone(l)
	tree, err := merkle.New(l)
	if err != nil {
		t.Fatalf("%s: %v", describe(l), err)
	}
	if !equal(keep, l) {
		t.Fatalf("%s: building the tree changes the records", describe(l))
	}
	return tree
}

func verify(t *rapid.T, data []byte, p *merkle.Proof, root []byte) bool {
	ok, err := merkle.VerifyProof(data, p, root)
	return ok && err == nil
}

func proofs(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	l := list(t, s, 70)
	c.Case("%s tape=%x", describe(l), s.U64())
	c.NonTrivialIf(len(l) > 1)
	tree := build(t, l)
	root := append([]byte{}, tree.Root()...)
	if !bytes.Equal(build(t, clone(l)).Root(), root) {
		t.Fatalf("%s: the root of an equal list differs", describe(l))
	}
	for i := range l {
		p, err := tree.GenerateProofAt(uint32(i))
		if err != nil {
			t.Fatalf("%s: no proof for record %d: %v", describe(l), i, err)
		}
		if int(p.Index) != i {
			t.Fatalf("%s: proof of record %d is for %d", describe(l), i, p.Index)
		}
		if !verify(t, l[i], p, root) {
			t.Fatalf("%s: the proof of record %d does not verify", describe(l), i)
		}
		e := merkle.EncodeProof(p)
		if len(e) != tree.EncodedProofLength() {
			t.Fatalf("%s: encoded proof of record %d has %d bytes, the tree says %d", describe(l), i, len(e), tree.EncodedProofLength())
		}
		if !verify(t, l[i], merkle.DecodeProof(e), root) {
			t.Fatalf("%s: the encoded proof of record %d does not verify", describe(l), i)
		}
		// a proof by content is for a position with this content
		q, err := tree.GenerateProof(l[i])
		if err != nil || int(q.Index) >= len(l) || !bytes.Equal(l[q.Index], l[i]) || !verify(t, l[i], q, root) {
			t.Fatalf("%s: proof by content of record %d: %+v %v", describe(l), i, q, err)
		}
	}
	for _, i := range []int{len(l), len(l) + 1, 2*len(l) + 5, 1 << 31} {
		if p, err := tree.GenerateProofAt(uint32(i)); err == nil {
			t.Fatalf("%s: there is a proof for position %d: %+v", describe(l), i, p)
		}
	}
	if x := s.Bytes(40); true {
		if p, err := tree.GenerateProof(x); err == nil {
			t.Fatalf("%s: there is a proof for absent data: %+v", describe(l), p)
		}
	}
	if !bytes.Equal(tree.Root(), root) {
		t.Fatalf("%s: making proofs changes the root", describe(l))
	}
	if _, err := merkle.New(nil); err == nil {
		t.Fatalf("there is a tree of no records")
	}
}

func copyProof(p *merkle.Proof) *merkle.Proof {
	return &merkle.Proof{Hashes: clone(p.Hashes), Index: p.Index}
}

// node recomputes the nodes above a leaf: what verification of a shorter path
// reaches.
func nodeInput(p *merkle.Proof, data []byte, level int) [][2][]byte {
	h := merkle.NewBLAKE3()
	var out [][2][]byte
	idx := p.Index
	leaf := []byte{byte(p.Index), byte(p.Index >> 8), byte(p.Index >> 16), byte(p.Index >> 24)}
	for _, suffix := range [][]byte{append(append([]byte{}, leaf...), 0), leaf} {
		cur := h.Hash(data, suffix)
		for i := 0; i < level && i < len(p.Hashes); i++ {
			a, b := cur, p.Hashes[i]
			if (idx>>uint(i))&1 == 1 {
				a, b = b, a
			}
			if i == level-1 {
				out = append(out, [2][]byte{a, b})
			}
			cur = h.Hash(a, append(append([]byte{}, b...), 1))
		}
	}
	return out
}

func forged(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	l := list(t, s, 40)
	tree := build(t, l)
	root := tree.Root()
	i := s.Intn(len(l))
	p, err := tree.GenerateProofAt(uint32(i))
	if err != nil {
		t.Fatalf("%v", err)
	}
	orig := copyProof(p)
	data := append([]byte{}, l[i]...)
	q := copyProof(p)
	r := append([]byte{}, root...)
	name := ""
	depth := len(p.Hashes)
	j := s.Intn(len(l))
	switch rapid.IntRange(0, 15).Draw(t, "strategy") {
	case 0:
		name = "another record"
		data = append([]byte{}, l[j]...)
	case 1:
		name = "bit of the record"
		if len(data) == 0 {
			data = []byte{0}
		} else {
			data[s.Intn(len(data))] ^= 1 << uint(s.Intn(8))
		}
	case 2:
		name = "record extended"
		data = append(data, []byte{0, 0x80, byte(s.U64())}[s.Intn(3)])
	case 3:
		name = "record truncated"
		data = data[:s.Intn(len(data)+1)]
	case 4:
		name = "another position"
		q.Index = uint32(j)
	case 5:
		name = "position outside of the tree"
		q.Index = p.Index + uint32(1+s.Intn(4))<<uint(depth)
		if s.Intn(3) == 0 {
			q.Index = uint32(s.U64())
		}
	case 6:
		name = "bit of the path"
		if depth > 0 {
			q.Hashes[s.Intn(depth)][s.Intn(32)] ^= 1 << uint(s.Intn(8))
		}
	case 7:
		name = "path truncated"
		if depth > 0 {
			k := s.Intn(depth)
			if s.Intn(2) == 0 {
				q.Hashes = q.Hashes[:k]
			} else {
				q.Hashes = q.Hashes[k+1:]
				q.Index >>= uint(s.Intn(k + 2))
			}
		}
	case 8:
		name = "path extended"
		q.Hashes = append(q.Hashes, s.Bytes(32))
		if s.Intn(2) == 0 {
			q.Hashes[depth] = make([]byte, 32)
		}
		if s.Intn(2) == 0 {
			q.Index += 1 << uint(depth)
		}
	case 9:
		name = "path in another order"
		if depth > 1 {
			a, b := s.Intn(depth), s.Intn(depth)
			q.Hashes[a], q.Hashes[b] = q.Hashes[b], q.Hashes[a]
		}
	case 10:
		name = "another root"
		o := clone(l)
		o[j] = append(o[j], 1)
		r = append([]byte{}, build(t, o).Root()...)
	case 11:
		name = "bit of the root"
		r[s.Intn(32)] ^= 1 << uint(s.Intn(8))
	case 12:
		name = "root truncated"
		r = r[:s.Intn(32)]
	case 13:
		name = "proof of another position"
		x, err := tree.GenerateProofAt(uint32(j))
		if err != nil {
			t.Fatalf("%v", err)
		}
		q = copyProof(x)
	case 14:
		name = "inner node as a record"
		if depth > 0 {
			lv := 1 + s.Intn(depth)
			ins := nodeInput(p, data, lv)
			in := ins[s.Intn(len(ins))]
			whole := append(append([]byte{}, in[0]...), in[1]...)
			q.Hashes = q.Hashes[lv:]
			q.Index >>= uint(lv)
			switch s.Intn(4) {
			case 0: // the branch suffix in the place of the leaf's position
				data = append(whole, 1)
			case 1:
				if n := len(whole); s.Intn(2) == 0 {
					data = whole[:n-4]
					q.Index = uint32(whole[n-4]) | uint32(whole[n-3])<<8 | uint32(whole[n-2])<<16 | uint32(whole[n-1])<<24
				} else {
					data = whole[:n-5]
				}
			case 2:
				data = in[0]
			default:
				data = whole
			}
		}
	case 15:
		name = "hash lengths shifted"
		if depth > 0 {
			k := s.Intn(depth)
			if s.Intn(2) == 0 {
				q.Hashes[k] = q.Hashes[k][:s.Intn(32)]
			} else {
				q.Hashes[k] = append(q.Hashes[k], byte(s.Intn(2)))
			}
			if k+1 < depth && s.Intn(2) == 0 {
				all := append(append([]byte{}, orig.Hashes[k]...), orig.Hashes[k+1]...)
				m := s.Intn(65)
				q.Hashes[k], q.Hashes[k+1] = all[:m], all[m:]
			}
		}
	}
	changed := !bytes.Equal(data, l[i]) || q.Index != orig.Index || !equal(q.Hashes, orig.Hashes) || !bytes.Equal(r, root)
	c.Case("%s: %s at %d, tape=%x", describe(l), name, i, s.U64())
	c.Class(name)
	want := !changed
	if changed && bytes.Equal(r, root) && int(q.Index) < len(l) && bytes.Equal(data, l[q.Index]) {
		// another true claim
		x, err := tree.GenerateProofAt(q.Index)
		want = err == nil && equal(x.Hashes, q.Hashes)
	}
	c.NonTrivialIf(!want && len(l) > 1)
	for n := 0; n < 2; n++ {
		if got := verify(t, data, q, r); got != want {
			t.Fatalf("%s: %s at position %d (claimed %d) verifies: %v", describe(l), name, i, q.Index, got)
		}
		// as it is sent
		whole := true
		for _, h := range q.Hashes {
			whole = whole && len(h) == 32
		}
		if !whole {
			continue
		}
		if got := verify(t, data, merkle.DecodeProof(merkle.EncodeProof(q)), r); got != want {
			t.Fatalf("%s: %s at position %d (claimed %d), encoded, verifies: %v", describe(l), name, i, q.Index, got)
		}
	}
	if verify(t, data, nil, r) {
		t.Fatalf("a missing proof verifies")
	}
}

// roots compares the roots of related lists.
func roots(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	l := list(t, s, 40)
	o := clone(l)
	i, j := s.Intn(len(l)), s.Intn(len(l))
	name := ""
	switch rapid.IntRange(0, 9).Draw(t, "change") {
	case 0:
		name = "bit"
		if len(o[i]) > 0 {
			o[i][s.Intn(len(o[i]))] ^= 1 << uint(s.Intn(8))
		}
	case 1:
		name = "order"
		o[i], o[j] = o[j], o[i]
	case 2:
		name = "bytes moved to the next record"
		if i+1 < len(o) && len(o[i]) > 0 {
			k := s.Intn(len(o[i]))
			o[i+1] = append(append([]byte{}, o[i][k:]...), o[i+1]...)
			o[i] = o[i][:k]
		}
	case 3:
		name = "record appended"
		o = append(o, [][]byte{nil, make([]byte, 32), s.Bytes(32)}[s.Intn(3)])
	case 4:
		name = "record removed"
		if len(o) > 1 {
			o = append(o[:i:i], o[i+1:]...)
		}
	case 5:
		name = "record repeated"
		o = append(o[:i+1:i+1], o[i:]...)
	case 6:
		name = "records joined"
		if i+1 < len(o) {
			o[i] = append(append([]byte{}, o[i]...), o[i+1]...)
			o = append(o[:i+1:i+1], o[i+2:]...)
		}
	case 7:
		name = "zero byte appended"
		o[i] = append(o[i], 0)
	case 8:
		name = "nothing"
	case 9:
		name = "another list"
		o = list(t, s, 40)
	}
	same := equal(l, o)
	c.Case("%s against %s: %s tape=%x", describe(l), describe(o), name, s.U64())
	c.Class(name)
	c.NonTrivialIf(!same && len(l) > 1)
	a, b := build(t, l).Root(), build(t, o).Root()
	if bytes.Equal(a, b) != same {
		t.Fatalf("%s, %s (%s): equal lists %v, equal roots %v", describe(l), describe(o), name, same, bytes.Equal(a, b))
	}
}

// sizes tries larger numbers of records.
// long has records of many kilobytes that differ in one place only.
func long(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	n := rapid.IntRange(1, 6).Draw(t, "records")
	size := hx.Size(t, "length", 1000, 300000, 1023, 1024, 1025, 4096, 16384, 65535, 65536, 131072)
	l := make([][]byte, n)
	b := s.Bytes(size)
	for i := range l {
		l[i] = append([]byte{}, b...)
	}
	tree := build(t, l)
	root := tree.Root()
	at := s.Intn(n)
	p, err := tree.GenerateProofAt(uint32(at))
	if err != nil || !verify(t, l[at], p, root) {
		t.Fatalf("%d records of %d bytes: the proof of record %d does not verify (%v)", n, size, at, err)
	}
	c.Case("%d records of %d bytes tape=%x", n, size, s.U64())
	c.NonTrivial()
	for k := 0; k < 12; k++ {
		d := append([]byte{}, l[at]...)
		what := ""
		switch pos := []int{0, size - 1, s.Intn(size), s.Intn(size)}[k%4]; k / 4 {
		case 0:
			d[pos] ^= 1 << uint(s.Intn(8))
			what = fmt.Sprintf("a bit of byte %d changed", pos)
		case 1:
			d = d[:pos]
			what = fmt.Sprintf("all from byte %d on cut", pos)
		case 2:
			d = append(d, s.Bytes(1+s.Intn(40))...)
			what = "bytes appended"
		}
		if verify(t, d, p, root) {
			t.Fatalf("%d records of %d bytes: the proof of record %d verifies with %s", n, size, at, what)
		}
		o := append([][]byte{}, l...)
		o[at] = d
		if bytes.Equal(build(t, o).Root(), root) {
			t.Fatalf("%d records of %d bytes: the root is the same with %s in record %d", n, size, what, at)
		}
	}
}

func sizes(t *rapid.T, c *hx.C, min, max int) {
	s := hx.Tape(t)
	n := hx.Size(t, "records", min, max, 1, 64, 128, 256, 512, 1024, 2048, 65535, 65536, 131072)
	l := make([][]byte, n)
	for i := range l {
		l[i] = []byte{byte(s.U64())}
	}
	c.Case("%d records tape=%x", n, s.U64())
	c.NonTrivialIf(n > 1)
	tree := build(t, l)
	at := []int{0, n - 1, n / 2, s.Intn(n), s.Intn(n), s.Intn(n)}
	for k := uint(0); k < 18; k++ { // indices that differ in one bit
		if j := at[5] ^ 1<<k; j < n {
			at = append(at, j)
		}
	}
	for _, i := range at {
		p, err := tree.GenerateProofAt(uint32(i))
		if err != nil || !verify(t, l[i], p, tree.Root()) {
			t.Fatalf("%d records: the proof of record %d does not verify (%v)", n, i, err)
		}
		if got := len(merkle.EncodeProof(p)); got != tree.EncodedProofLength() {
			t.Fatalf("%d records: the encoded proof of record %d has %d bytes, the tree says %d", n, i, got, tree.EncodedProofLength())
		}
		for _, j := range at {
			if j != i {
				q := copyProof(p)
				q.Index = uint32(j)
				if verify(t, l[i], q, tree.Root()) || verify(t, l[j], q, tree.Root()) {
					t.Fatalf("%d records: the proof of record %d verifies for %d", n, i, j)
				}
			}
		}
	}
}
