package gen

import (
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"log"
	"os"
	"path/filepath"
	"sort"

	"aaverif/hx"

	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/pgp"
	"golang.org/x/crypto/blake2b"
	"pgregory.net/rapid"
)

func init() {
	// the code under test logs what it does
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	log.SetOutput(null)
}

// Dir is a key directory with arbitrary key packets.
type Dir struct {
	Keys []pgp.Key
}

// NewDir draws n keys with distinct emails and packets of up to maxLen bytes.
func NewDir(t *rapid.T, s *hx.Stream, n, maxLen int) *Dir {
	d := &Dir{}
	same := rapid.IntRange(0, 3).Draw(t, "same-packets") == 0
	l := rapid.IntRange(0, maxLen).Draw(t, "packet-len")
	fixed := s.Bytes(l)
	for i := 0; i < n; i++ {
		p := fixed
		if !same {
			p = Content(t, s, s.Intn(l+1))
		}
		d.Keys = append(d.Keys, pgp.Key{ID: fmt.Sprintf("u%x.%d@%s", s.U64()&0xffffff, i, []string{"epfl.ch", "mit.edu", "x.org"}[s.Intn(3)]), Packet: p})
	}
	return d
}

// WriteKeys writes keys into a file as the key-dump tool does.
func WriteKeys(path string, keys []pgp.Key) {
	f, err := os.Create(path)
	if err != nil {
		hx.Broken("cannot write %s: %v", path, err)
	}
	e := gob.NewEncoder(f)
	for i := range keys {
		if err := e.Encode(&keys[i]); err != nil {
			hx.Broken("gob: %v", err)
		}
	}
	f.Close()
}

// Files writes the keys in the order of perm into len(cuts)+1 files.
func (d *Dir) Files(dir string, perm []int, files int) []string {
	os.MkdirAll(dir, 0o755)
	var out []string
	for f := 0; f < files; f++ {
		lo, hi := len(perm)*f/files, len(perm)*(f+1)/files
		var ks []pgp.Key
		for _, i := range perm[lo:hi] {
			ks = append(ks, d.Keys[i])
		}
		p := filepath.Join(dir, fmt.Sprintf("sks-%03d.pgp", f))
		WriteKeys(p, ks)
		out = append(out, p)
	}
	return out
}

// Bucket is the reference hash of an email.
func Bucket(id string, n int) int {
	h := blake2b.Sum256([]byte(id))
	return int(binary.BigEndian.Uint32(h[:4]) % uint32(n))
}

// Buckets is the reference content of the hash table with n buckets: the
// packets of the emails in descending order.
func (d *Dir) Buckets(n int) [][]byte {
	ks := append([]pgp.Key{}, d.Keys...)
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID > ks[j].ID })
	out := make([][]byte, n)
	for _, k := range ks {
		b := Bucket(k.ID, n)
		out[b] = append(out[b], k.Packet...)
	}
	return out
}

// Merkle is an authenticated database with its reference records.
type Merkle struct {
	DB   *database.Bytes
	Want [][]byte
	// Get turns what the client returns into the record
	Get func([]byte) []byte
	Key bool
}

type FixedReader struct {
	data []byte
	s    *hx.Stream
}

func (r *FixedReader) Read(p []byte) (int, error) {
	n := copy(p, r.data)
	r.data = r.data[n:]
	if n < len(p) {
		r.s.Read(p[n:])
	}
	return len(p), nil
}

// NewMerkleLong draws an authenticated database of a few long records.
func NewMerkleLong(t *rapid.T, s *hx.Stream) (*Merkle, string) {
	rows, cols := rapid.IntRange(1, 3).Draw(t, "rows"), rapid.IntRange(1, 5).Draw(t, "cols")
	l := hx.Size(t, "reclen", 60, 70000, 255, 256, 1024, 4096, 65535, 65536)
	var data []byte
	want := make([][]byte, rows*cols)
	for i := range want {
		want[i] = Content(t, s, l)
		data = append(data, want[i]...)
	}
	db := database.CreateRandomMerkle(NewFixed(data, s), 8*len(want)*l, rows, l)
	return &Merkle{DB: db, Want: want, Get: func(b []byte) []byte { return b }}, fmt.Sprintf("merkle %dx%d of %d bytes", rows, cols, l)
}

// NewMerkleWide draws an authenticated database of many short records.
func NewMerkleWide(t *rapid.T, s *hx.Stream) (*Merkle, string) {
	rows := rapid.SampledFrom([]int{1, 1, 2, 3, 300}).Draw(t, "rows")
	cols := 1 + hx.Size(t, "records", rapid.SampledFrom([]int{200, 60000, 65000}).Draw(t, "min"), 140000, 256, 65535, 65536, 131072)/rows
	return NewMerkleOf(s, rows, cols, rapid.IntRange(1, 6).Draw(t, "reclen"))
}

// NewMerkleOf is an authenticated database of random records.
func NewMerkleOf(s *hx.Stream, rows, cols, l int) (*Merkle, string) {
	n := rows * cols
	data := s.Bytes(n * l)
	want := make([][]byte, n)
	for i := range want {
		want[i] = data[i*l : (i+1)*l]
	}
	db := database.CreateRandomMerkle(NewFixed(append([]byte{}, data...), s), 8*n*l, rows, l)
	return &Merkle{DB: db, Want: want, Get: func(b []byte) []byte { return b }}, fmt.Sprintf("merkle %dx%d of %d bytes", rows, cols, l)
}

var dirNo int

// NewMerkle draws an authenticated database: either fixed-length records with
// chosen content, or a key directory with buckets of varying length.
func NewMerkle(t *rapid.T, s *hx.Stream, maxRecs int) (*Merkle, string) {
	if rapid.IntRange(0, 2).Draw(t, "kind") < 2 {
		rows, cols := 1, hx.Size(t, "cols", 1, maxRecs, 1, 2, 4, 8, 16, 32, 64, 65536)
		if rapid.Bool().Draw(t, "matrix") {
			rows = rapid.IntRange(1, 8).Draw(t, "rows")
			cols = rapid.IntRange(1, maxRecs/rows+1).Draw(t, "mcols")
		}
		l := hx.Size(t, "reclen", 1, 50, 1, 28, 32)
		n := rows * cols
		pool := rapid.SampledFrom([]int{1, 2, 3, 1 << 20, 1 << 20, 1 << 20}).Draw(t, "distinct")
		if pool > n {
			pool = n
		}
		recs := make([][]byte, pool)
		for i := range recs {
			recs[i] = Content(t, s, l)
		}
		var data []byte
		want := make([][]byte, n)
		for i := range want {
			k := i
			if k >= pool || pool < n {
				k = s.Intn(pool)
			}
			want[i] = recs[k]
			data = append(data, recs[k]...)
		}
		db := database.CreateRandomMerkle(NewFixed(data, s), 8*n*l, rows, l)
		return &Merkle{DB: db, Want: want, Get: func(b []byte) []byte { return b }},
			fmt.Sprintf("merkle %dx%d of %d bytes, %d distinct", rows, cols, l, pool)
	}
	d := NewDir(t, s, hx.Size(t, "keys", 1, 12*maxRecs, 10, 20, 40), 40)
	reb := rapid.Bool().Draw(t, "rebalanced")
	dirNo++
	path := filepath.Join(hx.WorkDir(), fmt.Sprintf("m%d", dirNo))
	perm := make([]int, len(d.Keys))
	for i := range perm {
		perm[i] = i
	}
	files := d.Files(path, perm, 1)
	db, err := database.GenerateRealKeyMerkle(files, reb)
	os.RemoveAll(path)
	if err != nil {
		t.Fatalf("building the database of %d keys: %v", len(d.Keys), err)
	}
	want := d.Buckets(db.NumRows * db.NumColumns)
	return &Merkle{DB: db, Want: want, Get: database.UnPadBlock, Key: true},
		fmt.Sprintf("key directory %dx%d of %d keys", db.NumRows, db.NumColumns, len(d.Keys))
}

// Block returns the zero-padded block of record i.
func (m *Merkle) Block(i int) []byte {
	pos := 0
	for _, l := range m.DB.BlockLengths[:i] {
		pos += l
	}
	b := make([]byte, m.DB.BlockSize)
	copy(b, m.DB.Entries[pos:pos+m.DB.BlockLengths[i]])
	return b
}
