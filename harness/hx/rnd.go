package hx

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/rand"
	"encoding/binary"
	"io"
	mrand "math/rand"
	"sync"

	"pgregory.net/rapid"
)

// Stream is a deterministic random stream (AES-CTR under a seed), independent
// of the generators under test.
type Stream struct {
	mu sync.Mutex
	s  cipher.Stream
}

// NewStream returns the stream of a seed.
func NewStream(seed uint64) *Stream {
	var key [16]byte
	binary.LittleEndian.PutUint64(key[:], seed)
	copy(key[8:], "hxstream")
	b, _ := aes.NewCipher(key[:])
	return &Stream{s: cipher.NewCTR(b, make([]byte, 16))}
}

func (s *Stream) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i := range p {
		p[i] = 0
	}
	s.s.XORKeyStream(p, p)
	return len(p), nil
}

// U64 draws a word.
func (s *Stream) U64() uint64 {
	var b [8]byte
	s.Read(b[:])
	return binary.LittleEndian.Uint64(b[:])
}

// Intn draws below n.
func (s *Stream) Intn(n int) int { return int(s.U64() % uint64(n)) }

// Bytes draws n bytes.
func (s *Stream) Bytes(n int) []byte {
	b := make([]byte, n)
	s.Read(b)
	return b
}

type global struct {
	mu sync.Mutex
	r  io.Reader
}

func (g *global) Read(p []byte) (int, error) {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.r.Read(p)
}

var glob = &global{r: NewStream(0x68785f696e6974)}

// The init of this package runs before those of the code under test (module
// path "aaverif" sorts first), so that generators seeded there are
// deterministic as well.
func init() { rand.Reader = glob }

// Reseed restarts the process-wide randomness source.
func Reseed(seed uint64) {
	glob.mu.Lock()
	glob.r = NewStream(seed)
	glob.mu.Unlock()
}

// SetGlobal installs r as process-wide randomness source.
func SetGlobal(r io.Reader) {
	glob.mu.Lock()
	glob.r = r
	glob.mu.Unlock()
}

// Tape draws a random tape for the case: it reseeds the process-wide source
// and returns an independent stream.
func Tape(t *rapid.T) *Stream {
	s := rapid.Uint64().Draw(t, "tape")
	Reseed(s)
	return NewStream(s ^ 0x5bd1e995a5a5a5a5)
}

// Size draws a size in [lo, hi] biased to the boundaries in bounds.
func Size(t *rapid.T, label string, lo, hi int, bounds ...int) int {
	var in []int
	for _, b := range bounds {
		for d := -1; d <= 1; d++ {
			if b+d >= lo && b+d <= hi {
				in = append(in, b+d)
			}
		}
	}
	if len(in) > 0 && rapid.IntRange(0, 2).Draw(t, label+"?") == 0 {
		return rapid.SampledFrom(in).Draw(t, label)
	}
	return rapid.IntRange(lo, hi).Draw(t, label)
}

// Predictable restarts the generator of math/rand, so that whatever takes its
// randomness from there repeats itself.
func Predictable() { mrand.Seed(1) }
