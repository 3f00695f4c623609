package gen

import (
	"encoding/binary"

	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/server"
	"pgregory.net/rapid"
)

// Servers makes n servers for a point database, configured as for n servers.
func Servers(t *rapid.T, db *database.Bytes, n int) []*server.PIR {
	out := make([]*server.PIR, n)
	for i := range out {
		var cores []int
		if c := rapid.IntRange(0, 4).Draw(t, "cores"); c == 4 { // more than columns, maybe
			cores = []int{rapid.IntRange(4, 40).Draw(t, "many")}
		} else if c > 0 {
			cores = []int{c}
		}
		if n == 2 {
			out[i] = server.NewPIRTwo(db, cores...)
		} else {
			out[i] = server.NewPIR(db, cores...)
		}
	}
	return out
}

// Index encodes a point query input.
func Index(i int) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, uint32(i))
	return b
}

// Perm draws a permutation of n.
func Perm(t *rapid.T, n int, label string) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	return rapid.Permutation(p).Draw(t, label)
}

// PickIndex draws an index, biased to the corners and byte boundaries.
func PickIndex(t *rapid.T, rows, cols int, label string) int {
	r := rapid.IntRange(0, rows-1).Draw(t, label+".row")
	var c int
	switch rapid.IntRange(0, 3).Draw(t, label+".kind") {
	case 0:
		c = rapid.SampledFrom([]int{0, cols - 1, cols / 2}).Draw(t, label+".col")
	case 1:
		c = (rapid.IntRange(0, cols/8).Draw(t, label+".byte")*8 + rapid.SampledFrom([]int{0, 7}).Draw(t, label+".bit"))
		if c >= cols {
			c = cols - 1
		}
	default:
		c = rapid.IntRange(0, cols-1).Draw(t, label+".col")
	}
	return r*cols + c
}
