// Package stat compares bit statistics of sampled views. All thresholds are
// far beyond what Hoeffding's inequality leaves to chance over a whole run.
package stat

import (
	"fmt"
	"math"
	"math/bits"

	"aaverif/hx"
)

// Bits holds N samples of a fixed number of bits, one bitset per position.
type Bits struct {
	N    int
	Cols [][]uint64
	len  int
}

// New makes room for n samples.
func New(n int) *Bits { return &Bits{len: n} }

// Add adds one sample.
func (b *Bits) Add(v []byte) {
	if b.Cols == nil {
		b.Cols = make([][]uint64, 8*len(v))
		for i := range b.Cols {
			b.Cols[i] = make([]uint64, (b.len+63)/64)
		}
	}
	if 8*len(v) != len(b.Cols) {
		panic(fmt.Sprintf("stat: sample of %d bytes instead of %d", len(v), len(b.Cols)/8))
	}
	for i, x := range v {
		for j := 0; x != 0; j++ {
			if x&1 == 1 {
				b.Cols[8*i+j][b.N/64] |= 1 << uint(b.N%64)
			}
			x >>= 1
		}
	}
	b.N++
}

func (b *Bits) freq(i, j int) float64 {
	c := 0
	if i == j {
		for _, w := range b.Cols[i] {
			c += bits.OnesCount64(w)
		}
	} else {
		x, y := b.Cols[i], b.Cols[j]
		for k := range x {
			c += bits.OnesCount64(x[k] ^ y[k])
		}
	}
	return float64(c) / float64(b.N)
}

// pairs calls f for every bit (i,i) and every pair, or for max sampled pairs.
func pairs(n, max int, s *hx.Stream, f func(i, j int) error) error {
	for i := 0; i < n; i++ {
		if err := f(i, i); err != nil {
			return err
		}
	}
	if n*(n-1)/2 <= max {
		for i := 0; i < n; i++ {
			for j := 0; j < i; j++ {
				if err := f(i, j); err != nil {
					return err
				}
			}
		}
		return nil
	}
	for k := 0; k < max; k++ {
		i, j := s.Intn(n), s.Intn(n)
		if i != j {
			if err := f(i, j); err != nil {
				return err
			}
		}
	}
	return nil
}

// Eps is a deviation that N samples exceed with probability below 1e-16.
func Eps(n int) float64 { return math.Sqrt(38 / (2 * float64(n))) }

// Balanced checks that every bit and every xor of two bits is balanced.
func (b *Bits) Balanced(maxPairs int, s *hx.Stream) error {
	eps := Eps(b.N)
	return pairs(len(b.Cols), maxPairs, s, func(i, j int) error {
		if f := b.freq(i, j); math.Abs(f-0.5) > eps {
			if i == j {
				return fmt.Errorf("bit %d is set in %.3f of %d samples", i, f, b.N)
			}
			return fmt.Errorf("bits %d and %d differ in %.3f of %d samples", i, j, f, b.N)
		}
		return nil
	})
}

// Same checks that every bit and every xor of two bits has the same frequency
// in both.
func Same(a, b *Bits, maxPairs int, s *hx.Stream) error {
	eps := 2 * Eps(a.N)
	if a.N != b.N {
		panic("stat: sample counts")
	}
	return pairs(len(a.Cols), maxPairs, s, func(i, j int) error {
		if f, g := a.freq(i, j), b.freq(i, j); math.Abs(f-g) > eps {
			if i == j {
				return fmt.Errorf("bit %d is set in %.3f of the samples for one input and in %.3f for the other", i, f, g)
			}
			return fmt.Errorf("bits %d and %d differ in %.3f of the samples for one input and in %.3f for the other", i, j, f, g)
		}
		return nil
	})
}

// Uniform checks a histogram of equally likely bins (expected count >= 100).
func Uniform(counts []int) error {
	n := 0
	for _, c := range counts {
		n += c
	}
	e := float64(n) / float64(len(counts))
	for i, c := range counts {
		// Bernstein bound: exp(-d^2/(2(e+d/3))) < 1e-16
		d := math.Abs(float64(c) - e)
		if d*d/(2*(e+d/3)) > 38 {
			return fmt.Errorf("value %d drawn %d times instead of about %.0f", i, c, e)
		}
	}
	return nil
}

// SameHist compares two histograms of the same number of samples.
func SameHist(a, b []int) error {
	for i := range a {
		x, y := float64(a[i]), float64(b[i])
		d := math.Abs(x - y)
		if d*d/(2*(x+y+d/3)) > 38 {
			return fmt.Errorf("value %d drawn %d times for one input and %d times for the other", i, a[i], b[i])
		}
	}
	return nil
}

// Fit checks a histogram against probabilities.
func Fit(counts []int, prob []float64) error {
	n := 0
	for _, c := range counts {
		n += c
	}
	for i, c := range counts {
		e := float64(n) * prob[i]
		d := math.Abs(float64(c) - e)
		if d*d/(2*(e+d/3)) > 38 {
			return fmt.Errorf("bin %d has %d of %d samples instead of about %.1f", i, c, n, e)
		}
	}
	return nil
}
