// Package single drives the four single-server schemes through one interface.
package single

import (
	"fmt"
	"io"

	"aaverif/gen"
	"aaverif/hx"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	"lukechampine.com/uint128"
	"pgregory.net/rapid"
)

// Scheme is one database with its clients and servers.
type Scheme struct {
	Name       string
	Desc       string
	Rows, Cols int
	Bits       []byte
	// Client makes a new client
	Client func(s io.Reader) Client
	// Answer is what an honest server returns
	Answer func(q []byte) ([]byte, error)
	// On makes a server of a database with other bits
	On func(bits []byte) func(q []byte) ([]byte, error)
	// Reps is the number of repetitions (1 but for amplification)
	Reps int
	Par  *utils.ParamsLWE
	EC   *database.Elliptic
	// Info gives the database information
	Info *database.Info
}

// Client is a single-server client.
type Client interface {
	Query(idx int) ([]byte, error)
	Reconstruct(a []byte) (int, error)
}

type dh struct{ c *client.DH }

func (d dh) Query(i int) ([]byte, error) { return d.c.QueryBytes(i) }
func (d dh) Reconstruct(a []byte) (int, error) {
	v, err := d.c.ReconstructBytes(a)
	if err != nil {
		return -1, err
	}
	b, ok := v.(byte)
	if !ok {
		return -1, fmt.Errorf("result of type %T", v)
	}
	return int(b), nil
}

type lat struct {
	c interface {
		QueryBytes(int) ([]byte, error)
		ReconstructBytes([]byte) (uint32, error)
	}
}

func (l lat) Query(i int) ([]byte, error) { return l.c.QueryBytes(i) }
func (l lat) Reconstruct(a []byte) (int, error) {
	v, err := l.c.ReconstructBytes(a)
	return int(v), err
}

// Names of the schemes.
const (
	DH      = "DH"
	LWE     = "LWE"
	LWE128  = "LWE128"
	Amplify = "Amplify"
)

// New draws a database for the scheme.
func New(t *rapid.T, s *hx.Stream, name string, max int) *Scheme {
	tt := 0
	if name == Amplify {
		tt = rapid.IntRange(0, 3).Draw(t, "t")
	}
	return NewT(t, s, name, max, tt)
}

// NewT draws a database for the scheme, with 2*tt+1 repetitions if it is
// amplified.
func NewT(t *rapid.T, s *hx.Stream, name string, max, tt int) *Scheme {
	switch name {
	case DH:
		db, bits, d := gen.Elliptic(t, s, max*max)
		return ofDH(db, bits, d)
	}
	r, c := gen.Dims(t, max)
	return NewOf(t, s, name, r, c, tt)
}

// NewOf draws a database of the given size; for DH it is a square of at least
// that many elements when there is more than one row.
func NewOf(t *rapid.T, s *hx.Stream, name string, r, c, tt int) *Scheme {
	sc := &Scheme{Name: name, Reps: 1}
	switch name {
	case DH:
		return ofDH(gen.EllipticOf(t, s, group.Ristretto255, r*c, r > 1))
	case LWE, Amplify:
		db, bits, par, d := gen.LWEOf(t, s, r, c)
		sc.Desc, sc.Bits, sc.Rows, sc.Cols, sc.Par, sc.Info = d, bits, db.NumRows, db.NumColumns, par, &db.Info
		if name == Amplify {
			sc.Reps = 2*tt + 1
			sc.Desc = fmt.Sprintf("amplified t=%d %s", tt, d)
		}
		mk := func(d *database.LWE) func([]byte) ([]byte, error) {
			if name == Amplify {
				return server.NewAmplify(d).AnswerBytes
			}
			return server.NewLWE(d).AnswerBytes
		}
		sc.Client = func(s io.Reader) Client {
			if name == Amplify {
				return lat{client.NewAmplify(s, &db.Info, par, tt)}
			}
			return lat{client.NewLWE(s, &db.Info, par)}
		}
		sc.Answer = mk(db)
		sc.On = func(b []byte) func([]byte) ([]byte, error) {
			d2 := *db
			d2.Matrix = bytesMatrix(b, sc.Rows, sc.Cols)
			return mk(&d2)
		}
	case LWE128:
		db, bits, par, d := gen.LWE128Of(t, s, r, c)
		sc.Desc, sc.Bits, sc.Rows, sc.Cols, sc.Par, sc.Info = d, bits, db.NumRows, db.NumColumns, par, &db.Info
		sc.Client = func(s io.Reader) Client { return lat{client.NewLWE128(s, &db.Info, par)} }
		sc.Answer = server.NewLWE128(db).AnswerBytes
		sc.On = func(b []byte) func([]byte) ([]byte, error) {
			d2 := *db
			d2.Matrix = bytesMatrix(b, sc.Rows, sc.Cols)
			return server.NewLWE128(&d2).AnswerBytes
		}
	}
	return sc
}

func ofDH(db *database.Elliptic, bits []byte, d string) *Scheme {
	sc := &Scheme{Name: DH, Reps: 1}
	sc.Desc, sc.Bits, sc.Rows, sc.Cols, sc.EC, sc.Info = d, bits, db.NumRows, db.NumColumns, db, &db.Info
	sc.Client = func(s io.Reader) Client {
		i := db.Info
		a := *i.Auth
		i.Auth = &a
		return dh{client.NewDH(s, &i)}
	}
	sc.Answer = server.NewDH(db).AnswerBytes
	sc.On = func(b []byte) func([]byte) ([]byte, error) {
		d2 := *db
		d2.Entries = b
		return server.NewDH(&d2).AnswerBytes
	}
	return sc
}

func bytesMatrix(b []byte, r, c int) *matrix.MatrixBytes {
	m := matrix.NewBytes(r, c)
	for i, x := range b {
		m.SetData(i, x)
	}
	return m
}

// Words gives access to the entries of a lattice answer as 128-bit words:
// edit gets repetition, position and value.
func (sc *Scheme) Words(a []byte, edit func(w [][]uint128.Uint128)) []byte {
	switch sc.Name {
	case LWE128:
		m := matrix.BytesToMatrix128(a)
		w := make([]uint128.Uint128, m.Cols())
		for i := range w {
			w[i] = m.Get(0, i)
		}
		edit([][]uint128.Uint128{w})
		for i := range w {
			m.Set(0, i, w[i])
		}
		return matrix.Matrix128ToBytes(m)
	case LWE, Amplify:
		ms := []*matrix.Matrix{nil}
		if sc.Name == LWE {
			ms[0] = matrix.BytesToMatrix(a)
		} else {
			ms = matrix.BytesToMatrices(a)
		}
		w := make([][]uint128.Uint128, len(ms))
		for k, m := range ms {
			w[k] = make([]uint128.Uint128, m.Cols())
			for i := range w[k] {
				w[k][i] = uint128.From64(uint64(m.Get(0, i)))
			}
		}
		edit(w)
		for k, m := range ms {
			for i := range w[k] {
				m.Set(0, i, uint32(w[k][i].Lo))
			}
		}
		if sc.Name == LWE {
			return matrix.MatrixToBytes(ms[0])
		}
		return matrix.MatricesToBytes(ms)
	}
	panic("words of " + sc.Name)
}

// Large draws an error that is far from zero for the scheme.
func (sc *Scheme) Large(s *hx.Stream) uint128.Uint128 {
	for {
		v := uint128.New(s.U64(), s.U64())
		switch s.Intn(4) {
		case 0: // halves and quarters of the modulus
			v = uint128.New(0, 1<<63)
			if sc.Name != LWE128 {
				v = uint128.From64(1 << 31)
			}
			v = v.Rsh(uint(s.Intn(3)))
		case 1:
			v = uint128.From64(uint64(s.Intn(1 << 30)))
		}
		b := uint64(4 * sc.Par.B)
		if sc.Name != LWE128 {
			if x := uint32(v.Lo); uint64(x) < b || uint64(-x) < b {
				continue
			}
			return uint128.From64(v.Lo & 0xffffffff)
		}
		if v.Cmp64(b) < 0 || v.Cmp(uint128.Max.Sub64(b)) > 0 {
			continue
		}
		return v
	}
}
