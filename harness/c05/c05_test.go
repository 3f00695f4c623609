package c05

import (
	"bytes"
	"fmt"
	"testing"

	"aaverif/gen"
	"aaverif/hx"
	"aaverif/stat"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	hx.Main(m, hx.Meta{ID: "C05",
		Rule: "random database shapes, 2-5 servers (also up to 33 servers and 2^20 columns) and pairs of different indices; for each pair, N queries per index are drawn and the bits, the xors of any two bits and the xors of any proper subset of the shares are compared between the indices and with a fair coin; non-trivial when the two indices lie in different columns",
		Assumptions: []string{"statistical: biases below about 0.14 per bit (0.02 for the byte histograms) are not seen; the thresholds leave less than 1e-9 per run to chance",
			"the pseudorandomness of AES inside the vendored DPF library is trusted"}})
}

func TestProps(t *testing.T) {
	hx.Run(t, "bits", 400, 6000, views)
	hx.Run(t, "bytes", 40, 400, histogram)
	hx.Run(t, "fresh", 300, 5000, fresh)
	hx.Run(t, "large", 60, 900, large)
}

type inst struct {
	info *database.Info
	n    int
	desc string
}

func draw(t *rapid.T, maxCols int) *inst {
	rows, cols := gen.Shape(t, maxCols)
	n := rapid.SampledFrom([]int{2, 2, 3, 3, 4, 5}).Draw(t, "servers")
	info := &database.Info{NumRows: rows, NumColumns: cols, BlockSize: rapid.IntRange(1, 64).Draw(t, "block")}
	if rapid.Bool().Draw(t, "merkle") {
		info.PIRType = "merkle"
		info.Merkle = &database.Merkle{Root: make([]byte, 32), ProofLen: 40}
	} else if rapid.Bool().Draw(t, "named") {
		info.PIRType = "classical"
	}
	return &inst{info: info, n: n, desc: fmt.Sprintf("%dx%d servers=%d", rows, cols, n)}
}

func two(t *rapid.T, in *inst) (int, int) {
	a := gen.PickIndex(t, in.info.NumRows, in.info.NumColumns, "a")
	b := gen.PickIndex(t, in.info.NumRows, in.info.NumColumns, "b")
	return a, b
}

func query(t *rapid.T, cl *client.PIR, in *inst, idx int) [][]byte {
	q, err := cl.QueryBytes(gen.Index(idx), in.n)
	if err != nil {
		t.Fatalf("%s index %d: %v", in.desc, idx, err)
	}
	if len(q) != in.n {
		t.Fatalf("%s index %d: %d queries", in.desc, idx, len(q))
	}
	return q
}

// proper lists the proper non-empty subsets of n servers.
func proper(n int) (out [][]int) {
	for m := 1; m < 1<<uint(n)-1; m++ {
		var s []int
		for k := 0; k < n; k++ {
			if m>>uint(k)&1 == 1 {
				s = append(s, k)
			}
		}
		out = append(out, s)
	}
	return
}

func views(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	in := draw(t, 300)
	a, b := two(t, in)
	mode := rapid.IntRange(0, 2).Draw(t, "clients") // one client, one per index, one per query
	c.Case("%s indices %d %d clients=%d", in.desc, a, b, mode)
	c.NonTrivialIf(a%in.info.NumColumns != b%in.info.NumColumns)
	N := hx.N(1024, 2048)
	subs := proper(in.n)
	// one view per coalition of n-1 servers, one vector of subset xors, and one
	// of the changes between successive queries
	view := make([][2]*stat.Bits, in.n)
	for k := range view {
		view[k] = [2]*stat.Bits{stat.New(N), stat.New(N)}
	}
	comb := [2]*stat.Bits{stat.New(N), stat.New(N)}
	lag := [2]*stat.Bits{stat.New(N), stat.New(N)}
	var prev []byte
	ln := -1
	var cl *client.PIR
	for i := 0; i < 2*N; i++ {
		if cl == nil || mode == 2 || (mode == 1 && i == N) {
			cl = client.NewPIR(s, gen.RemoteInfo(in.info))
		}
		which := i % 2
		if mode == 1 {
			which = i / N
		}
		q := query(t, cl, in, []int{a, b}[which])
		for k := range q {
			if ln >= 0 && len(q[k]) != ln {
				t.Fatalf("%s: queries of %d and %d bytes for indices %d, %d", in.desc, ln, len(q[k]), a, b)
			}
			ln = len(q[k])
		}
		var all []byte
		for k := range view {
			var v []byte
			for j := range q {
				if j != k {
					v = append(v, q[j]...)
				}
			}
			view[k][which].Add(v)
			all = append(all, q[k]...)
		}
		if in.n > 2 {
			var x []byte
			for _, sub := range subs {
				y := make([]byte, ln)
				for _, k := range sub {
					for p := range y {
						y[p] ^= q[k][p]
					}
				}
				x = append(x, y...)
			}
			comb[which].Add(x)
		}
		if prev == nil {
			prev = make([]byte, len(all))
		}
		d := make([]byte, len(all))
		for p := range d {
			d[p] = all[p] ^ prev[p]
		}
		lag[which].Add(d)
		prev = all
	}
	const maxPairs = 150000
	for k := range view {
		who := fmt.Sprintf("view of all servers but %d", k)
		if err := stat.Same(view[k][0], view[k][1], maxPairs, s); err != nil {
			t.Fatalf("%s, indices %d and %d, %s: %v", in.desc, a, b, who, err)
		}
		if in.n > 2 {
			for w := 0; w < 2; w++ {
				if err := view[k][w].Balanced(maxPairs, s); err != nil {
					t.Fatalf("%s, index %d, %s: %v", in.desc, []int{a, b}[w], who, err)
				}
			}
		}
	}
	if in.n > 2 {
		for w := 0; w < 2; w++ {
			if err := comb[w].Balanced(0, s); err != nil {
				t.Fatalf("%s, index %d, xors of share subsets: %v", in.desc, []int{a, b}[w], err)
			}
		}
	}
	if in.n == 2 {
		if err := stat.Same(lag[0], lag[1], 0, s); err != nil && mode != 1 {
			t.Fatalf("%s, indices %d and %d, changes between successive queries: %v", in.desc, a, b, err)
		}
	} else {
		for w := 0; w < 2; w++ {
			if err := lag[w].Balanced(0, s); err != nil {
				t.Fatalf("%s, index %d, changes between successive queries: %v", in.desc, []int{a, b}[w], err)
			}
		}
	}
	c.Class(fmt.Sprintf("n%d", in.n), fmt.Sprintf("mode%d", mode))
}

// histogram checks every byte value of every share.
func histogram(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	in := draw(t, 24)
	a, b := two(t, in)
	c.Case("%s indices %d %d", in.desc, a, b)
	c.NonTrivialIf(a%in.info.NumColumns != b%in.info.NumColumns)
	N := 1 << 16
	cl := client.NewPIR(s, gen.RemoteInfo(in.info))
	var h [2][][]int
	for w := 0; w < 2; w++ {
		for i := 0; i < N; i++ {
			q := query(t, cl, in, []int{a, b}[w])
			var v []byte
			for _, x := range q {
				v = append(v, x...)
			}
			if h[w] == nil {
				h[w] = make([][]int, len(v))
				for p := range h[w] {
					h[w][p] = make([]int, 256)
				}
			}
			for p, x := range v {
				h[w][p][x]++
			}
		}
	}
	if len(h[0]) != len(h[1]) {
		t.Fatalf("%s: query lengths differ", in.desc)
	}
	for p := range h[0] {
		if err := stat.SameHist(h[0][p], h[1][p]); err != nil {
			t.Fatalf("%s, indices %d and %d, byte %d of the queries: %v", in.desc, a, b, p, err)
		}
		if in.n > 2 {
			if err := stat.Uniform(h[0][p]); err != nil {
				t.Fatalf("%s, index %d, byte %d of the queries: %v", in.desc, a, p, err)
			}
		}
	}
	c.Class(fmt.Sprintf("n%d", in.n))
}

// fresh repeats queries with one client and with new clients.
func fresh(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	in := draw(t, 2000)
	if in.info.NumColumns < 150 {
		in.info.NumColumns += 150 // shares of at least 16 bytes
	}
	in.desc = fmt.Sprintf("%dx%d servers=%d", in.info.NumRows, in.info.NumColumns, in.n)
	a, b := two(t, in)
	c.Case("%s indices %d %d", in.desc, a, b)
	c.NonTrivial()
	cl := client.NewPIR(s, gen.RemoteInfo(in.info))
	seen := map[string]string{}
	ln := -1
	for i := 0; i < 8; i++ {
		idx := []int{a, a, b, a, s.Intn(in.info.NumRows * in.info.NumColumns)}[s.Intn(5)]
		if i > 0 && s.Intn(3) == 0 {
			cl = client.NewPIR(s, gen.RemoteInfo(in.info))
		}
		hx.Predictable()
		for k, q := range query(t, cl, in, idx) {
			me := fmt.Sprintf("query %d share %d", i, k)
			if ln >= 0 && ln != len(q) {
				t.Fatalf("%s: share lengths %d and %d", in.desc, ln, len(q))
			}
			ln = len(q)
			if o, ok := seen[string(q)]; ok {
				t.Fatalf("%s: %s equals %s", in.desc, me, o)
			}
			seen[string(q)] = me
			if in.n > 2 && bytes.Count(q, []byte{0}) > len(q)/2 {
				t.Fatalf("%s: %s is mostly zero", in.desc, me)
			}
		}
	}
}

// large looks at few queries to databases of many columns and to many servers:
// nothing repeats within or between the shares, and no shares of a proper
// subset of the servers depend on each other.
func large(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	n := rapid.SampledFrom([]int{2, 3, 3, 4, 6, 7, 9, 12, 17, 33}).Draw(t, "servers")
	info := &database.Info{NumRows: rapid.IntRange(1, 3).Draw(t, "rows"), BlockSize: 1}
	info.NumColumns = hx.Size(t, "columns", 300, 1<<rapid.IntRange(10, 20).Draw(t, "magnitude"), 8192, 65536, 1<<17, 1<<19)
	if n*info.NumColumns > 1<<22 {
		info.NumColumns = 1 << 22 / n
	}
	in := &inst{info: info, n: n, desc: fmt.Sprintf("%dx%d servers=%d", info.NumRows, info.NumColumns, n)}
	c.Case("%s tape=%x", in.desc, s.U64())
	c.NonTrivial()
	c.Class(fmt.Sprintf("n%d", n))
	const w = 16
	seen := map[[w]byte]string{}
	cl := client.NewPIR(s, gen.RemoteInfo(info))
	for i := 0; i < 2; i++ {
		if i > 0 && s.Intn(2) == 0 {
			cl = client.NewPIR(s, gen.RemoteInfo(info))
		}
		hx.Predictable()
		idx := s.Intn(info.NumRows * info.NumColumns)
		qs := query(t, cl, in, idx)
		if n == 2 {
			// keys of a point function have parts in common, but no share
			// repeats that of another query
			for k, q := range qs {
				if len(q) < w {
					t.Fatalf("%s: a share of %d bytes", in.desc, len(q))
				}
				var x [w]byte
				copy(x[:], q)
				me := fmt.Sprintf("the begin of share %d of query %d", k, i)
				if o, ok := seen[x]; ok {
					t.Fatalf("%s: %s is %s", in.desc, me, o)
				}
				seen[x] = me
			}
			continue
		}
		for k, q := range qs {
			// every window of one share at aligned places, to keep the table small
			for p := 0; p+w <= len(q); p += w {
				var x [w]byte
				copy(x[:], q[p:])
				me := fmt.Sprintf("bytes %d to %d of share %d of query %d", p, p+w, k, i)
				if o, ok := seen[x]; ok {
					t.Fatalf("%s: %s are also %s", in.desc, me, o)
				}
				seen[x] = me
			}
		}
		for k, q := range qs { // other places against the aligned ones
			for p := 0; p+w <= len(q); p++ {
				if p%w == 0 {
					continue
				}
				var x [w]byte
				copy(x[:], q[p:])
				if o, ok := seen[x]; ok {
					t.Fatalf("%s: bytes %d to %d of share %d of query %d are also %s", in.desc, p, p+w, k, i, o)
				}
			}
		}
		// rank of the shares of all servers but one, looking at a window of 256 bits
		// (and at all of them where there are not so many)
		ln := len(qs[0])
		for tries := 0; tries < 4; tries++ {
			left := s.Intn(n)
			from, to := 0, ln
			if ln > 64 {
				from = s.Intn(ln - 31)
				to = from + 32
			}
			if 8*(to-from) < n+100 {
				break
			}
			var rows [][]byte
			for k, q := range qs {
				if k != left {
					rows = append(rows, append([]byte{}, q[from:to]...))
				}
			}
			if r := rank(rows); r < n-1 {
				t.Fatalf("%s: the shares of all servers but %d depend on each other (rank %d)", in.desc, left, r)
			}
		}
	}
}

// rank is the rank over GF(2); it changes the rows.
func rank(rows [][]byte) int {
	r := 0
	for bit := 0; bit < 8*len(rows[0]) && r < len(rows); bit++ {
		p := r
		for p < len(rows) && rows[p][bit/8]>>uint(bit%8)&1 == 0 {
			p++
		}
		if p == len(rows) {
			continue
		}
		rows[r], rows[p] = rows[p], rows[r]
		for k := range rows {
			if k != r && rows[k][bit/8]>>uint(bit%8)&1 == 1 {
				for i := range rows[k] {
					rows[k][i] ^= rows[r][i]
				}
			}
		}
		r++
	}
	return r
}
