// Package gen holds generators shared by several checks.
package gen

import (
	"fmt"

	"aaverif/hx"

	"github.com/si-co/vpir-code/lib/database"
	"pgregory.net/rapid"
)

// Records is a plain record matrix, the reference for point retrieval.
type Records struct {
	Rows, Cols int
	Recs       [][]byte
	BlockSize  int
}

// Shape draws rows and columns.
func Shape(t *rapid.T, maxCols int) (rows, cols int) {
	switch rapid.IntRange(0, 3).Draw(t, "layout") {
	case 0: // vector
		rows = 1
		cols = hx.Size(t, "cols", 1, maxCols, 1, 8, 16, 32, 64, 128, 256, 512, 1024)
	case 1: // square
		n := hx.Size(t, "side", 1, 20, 1, 8, 16)
		rows, cols = n, n
	default:
		rows = rapid.IntRange(1, 9).Draw(t, "rows")
		cols = hx.Size(t, "cols", 1, maxCols/8+1, 1, 8, 16, 32, 64, 128)
	}
	return
}

// Content fills a record of length n with an interesting content.
func Content(t *rapid.T, s *hx.Stream, n int) []byte {
	b := s.Bytes(n)
	switch s.Intn(8) {
	case 0:
		for i := range b {
			b[i] = 0
		}
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2: // trailing zeros
		for i := n / 2; i < n; i++ {
			b[i] = 0
		}
	case 3: // looks like padding
		if n > 1 {
			b[n-1] = 0
			b[n-2] = 0x80
		} else if n > 0 {
			b[n-1] = 0x80
		}
	}
	return b
}

// Recs draws a record matrix; variable tells whether lengths differ.
func Recs(t *rapid.T, s *hx.Stream, maxCols, maxLen int) *Records {
	r := &Records{}
	r.Rows, r.Cols = Shape(t, maxCols)
	l := hx.Size(t, "reclen", 1, maxLen, 1, 8, 16, 32, 64)
	mode := rapid.IntRange(0, 2).Draw(t, "lengths") // 0 fixed, 1 variable, 2 variable with many empty
	r.Recs = make([][]byte, r.Rows*r.Cols)
	for i := range r.Recs {
		n := l
		if mode == 1 {
			n = s.Intn(l + 1)
		} else if mode == 2 && s.Intn(2) == 0 {
			n = 0
		}
		r.Recs[i] = Content(t, s, n)
		if n > r.BlockSize {
			r.BlockSize = n
		}
	}
	r.BlockSize += rapid.IntRange(0, 2).Draw(t, "slack")
	if r.BlockSize == 0 {
		r.BlockSize = 1
	}
	return r
}

func (r *Records) String() string {
	min, max := 1<<30, 0
	for _, x := range r.Recs {
		if len(x) < min {
			min = len(x)
		}
		if len(x) > max {
			max = len(x)
		}
	}
	return fmt.Sprintf("%dx%d records %d..%d bytes block %d", r.Rows, r.Cols, min, max, r.BlockSize)
}

// Bytes builds the classical database.
func (r *Records) Bytes() *database.Bytes {
	db := database.InitBytes(r.Rows, r.Cols, r.BlockSize)
	for i, x := range r.Recs {
		db.BlockLengths[i] = len(x)
		db.Entries = append(db.Entries, x...)
	}
	return db
}

// Padded is the expected block of record i.
func (r *Records) Padded(i int) []byte {
	b := make([]byte, r.BlockSize)
	copy(b, r.Recs[i])
	return b
}

// RemoteInfo is the database information as a remote client gets it: what the
// deployed protocol transports and nothing else.
func RemoteInfo(i *database.Info) *database.Info {
	out := &database.Info{NumRows: i.NumRows, NumColumns: i.NumColumns, BlockSize: i.BlockSize, PIRType: i.PIRType}
	if i.Merkle != nil {
		root := append([]byte{}, i.Merkle.Root...)
		out.Merkle = &database.Merkle{Root: root, ProofLen: i.Merkle.ProofLen}
	}
	return out
}
