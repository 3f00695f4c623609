package c23

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"aaverif/gen"
	"aaverif/hx"

	"github.com/nikirill/go-crypto/openpgp"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/pgp"
	"github.com/si-co/vpir-code/lib/server"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	hx.Main(m, hx.Meta{ID: "C23",
		Rule:        "directories of 1 to 200 real OpenPGP keys with distinct lower-case emails, one or several identities, different algorithms and sizes, in random order over 1 to 5 files, both layouts; every stored email and absent ones (other cases, parts, secondary identities and near misses of stored ones) looked up; some directories with keys of more than 64 KiB; non-trivial when a bucket holds several keys or the directory is split or reordered",
		Assumptions: []string{"the identifiers are the lower-cased primary emails, as the dump processing writes them (C22)"}})
}

func TestProps(t *testing.T) {
	hx.Run(t, "records", 120, 1500, records)
	hx.Run(t, "predicate", 100, 1000, predicate)
	hx.Run(t, "padding", 5000, 100000, padding)
	hx.Run(t, "table", 400, 6000, func(t *rapid.T, c *hx.C) {
		table(t, c, hx.Size(t, "keys", 0, hx.N(400, 3000), 0, 1, 9, 10, 11, 20), 60)
	})
	hx.Run(t, "long-packets", 40, 800, func(t *rapid.T, c *hx.C) { table(t, c, hx.Size(t, "keys", 1, 40, 10, 20), 70000) })
	hx.Run(t, "many-keys", 6, 40, func(t *rapid.T, c *hx.C) {
		n := rapid.SampledFrom([]int{20000, 32768, 40000, 50000, 65535, 65536, 80000}).Draw(t, "keys")
		table(t, c, n+rapid.IntRange(0, 2000).Draw(t, "more"), 5)
	})
}

// entry is one key of the directory.
type entry struct {
	key    pgp.Key
	k      *gen.PKey
	print  string
	others []string // emails of further identities
}

var stock []*entry

// long are the indices of the keys with long packets in stock.
var long []int

// makeStock builds the keys that directories are drawn from.
func makeStock() {
	if stock != nil {
		return
	}
	s := hx.NewStream(hx.Seed())
	tr := true
	used := map[string]bool{}
	for i := 0; i < hx.N(260, 700); i++ {
		em := fmt.Sprintf("%s%d@%s", gen.Word(s, 6, 3), i, []string{"epfl.ch", "mit.edu", "x.org", "a.b.ch"}[s.Intn(4)])
		if i > 0 && s.Intn(4) == 0 { // nearly the one before
			p := stock[i-1].key.ID
			switch s.Intn(3) {
			case 0:
				em = p + string(rune('a'+s.Intn(26)))
			case 1:
				em = p[:len(p)-1] + string(rune('a'+(int(p[len(p)-1]-'a')+1+s.Intn(25))%26))
			default:
				em = string(rune('a'+s.Intn(26))) + p
			}
		}
		if used[em] {
			em = fmt.Sprintf("%d.%s", i, em)
		}
		used[em] = true
		k := &gen.PKey{Created: gen.Secs(900000000 + s.Intn(600000000))}
		k.Priv = gen.NewPriv(s, k.Created, gen.AnyAlgo)
		shown := em
		if s.Intn(3) == 0 {
			shown = strings.ToUpper(em[:1+s.Intn(len(em))]) + ""
			shown += em[len(shown):]
		}
		e := &entry{k: k}
		for n := s.Intn(4); n > 0; n-- {
			o := fmt.Sprintf("other%d.%d@x.org", i, n)
			if n == 3 && len(stock) > 0 { // the email of somebody else
				o = stock[s.Intn(len(stock))].key.ID
			}
			e.others = append(e.others, o)
			k.Idents = append(k.Idents, gen.PIdent{Name: fmt.Sprintf("O%d <%s>", n, o), Email: o, Signed: true, Self: k.Created.Add(time.Minute), Third: s.Intn(2)})
		}
		name := fmt.Sprintf("U%d", i)
		if s.Intn(8) == 0 {
			name = strings.Repeat("long ", s.Intn(1500))
			long = append(long, i)
		}
		k.Idents = append(k.Idents, gen.PIdent{Name: name + " <" + shown + ">", Email: shown, Signed: true, Self: k.Created, Primary: &tr})
		k.Build(s, false)
		ent := k.Entity()
		e.print = gen.Print(ent)
		e.key = pgp.Key{ID: em, Packet: k.Raw}
		stock = append(stock, e)
	}
}

var dirNo int

// dir draws a directory and writes it once in order into one file and twice
// otherwise. The returned function removes it.
func dir(t *rapid.T, c *hx.C) ([]*entry, [][]string, func()) {
	makeStock()
	n := hx.Size(t, "keys", 1, hx.N(70, 300), 1, 2, 9, 10, 11, 19, 20, 30)
	from := seq(len(stock))
	if rapid.IntRange(0, 5).Draw(t, "long") == 0 {
		from = long
		if n > len(long) {
			n = len(long)
		}
		c.Class("long")
	}
	perm := rapid.Permutation(from).Draw(t, "choice")[:n]
	d := &gen.Dir{}
	var es []*entry
	for _, i := range perm {
		es = append(es, stock[i])
		d.Keys = append(d.Keys, stock[i].key)
	}
	dirNo++
	path := filepath.Join(hx.WorkDir(), fmt.Sprintf("d%d", dirNo))
	files := [][]string{d.Files(filepath.Join(path, "0"), seq(n), 1)}
	desc := ""
	for v := 1; v <= 2; v++ {
		nf := rapid.IntRange(1, 5).Draw(t, "files")
		p := rapid.Permutation(seq(n)).Draw(t, "order")
		fs := d.Files(filepath.Join(path, fmt.Sprint(v)), p, nf)
		files = append(files, rapid.Permutation(fs).Draw(t, "file-order"))
		desc += fmt.Sprintf("%d ", nf)
	}
	c.Case("%d keys, rewritten over %sfiles, first %s", n, desc, es[0].print)
	return es, files, func() { os.RemoveAll(path) }
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

func records(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	es, files, done := dir(t, c)
	defer done()
	reb := rapid.Bool().Draw(t, "rebalanced")
	merkle := rapid.Bool().Draw(t, "merkle")
	var dbs []*database.Bytes
	for _, f := range files {
		g := database.GenerateRealKeyBytes
		if merkle {
			g = database.GenerateRealKeyMerkle
		}
		db, err := g(f, reb)
		if err != nil {
			t.Fatalf("building the database: %v", err)
		}
		dbs = append(dbs, db)
	}
	db := dbs[0]
	for i, o := range dbs[1:] {
		if !bytes.Equal(o.Entries, db.Entries) || !reflect.DeepEqual(o.Info, db.Info) {
			t.Fatalf("the keys in another order and split (%d) yield another database", i+1)
		}
	}
	n := db.NumRows * db.NumColumns
	c.Class(fmt.Sprintf("merkle=%v", merkle), fmt.Sprintf("reb=%v", reb))
	c.NonTrivialIf(len(es) > 1)
	// the records as they are stored
	blocks := make([][]byte, n)
	pos := 0
	for i, l := range db.BlockLengths {
		b := db.Entries[pos : pos+l]
		pos += l
		if merkle { // record, proof and a byte of padding
			b = b[:l-db.ProofLen-1]
		}
		blocks[i] = database.UnPadBlock(append([]byte{}, b...))
	}
	if pos != len(db.Entries) {
		t.Fatalf("the block lengths sum up to %d instead of %d", pos, len(db.Entries))
	}
	lookup := func(email string) (*openpgp.Entity, error) {
		return pgp.RecoverKeyFromBlock(blocks[database.HashToIndex(email, n)], email)
	}
	stored := map[string]bool{}
	total := 0
	for i, e := range es {
		stored[e.key.ID] = true
		total += len(e.key.Packet)
		if i >= 25 { // the choice is random
			continue
		}
		got, err := lookup(e.key.ID)
		if err != nil {
			t.Fatalf("the key of %s is not found: %v", e.key.ID, err)
		}
		if p := gen.Print(got); p != e.print {
			t.Fatalf("the key of %s is %s instead of %s", e.key.ID, p, e.print)
		}
	}
	for _, b := range blocks {
		total -= len(b)
	}
	if total != 0 {
		t.Fatalf("the records hold %d bytes less than the keys", total)
	}
	absent := []string{"", "nobody@x.org", "@", "other"}
	for i := 0; i < 2; i++ {
		e := es[s.Intn(len(es))]
		absent = append(absent, e.key.ID[1:], e.key.ID[:len(e.key.ID)-1], e.key.ID+"x", "x"+e.key.ID, "<"+e.key.ID+">")
		absent = append(absent, e.others...)
		absent = append(absent, stock[s.Intn(len(stock))].key.ID)
	}
	for _, a := range absent {
		if stored[a] {
			continue
		}
		if got, err := lookup(a); err == nil {
			t.Fatalf("the absent email %q yields %s", a, gen.Print(got))
		}
		// wherever it may be looked up
		if s.Intn(3) > 0 {
			continue
		}
		if got, err := pgp.RecoverKeyFromBlock(blocks[s.Intn(n)], a); err == nil {
			t.Fatalf("the absent email %q yields %s", a, gen.Print(got))
		}
	}
	// through the scheme, with every server having its own copy
	e := es[s.Intn(len(es))]
	ns := rapid.IntRange(2, 3).Draw(t, "servers")
	cl := client.NewPIR(s, &db.Info)
	idx := int(database.HashToIndex(e.key.ID, n))
	in := []byte{byte(idx >> 24), byte(idx >> 16), byte(idx >> 8), byte(idx)}
	qs, err := cl.QueryBytes(in, ns)
	if err != nil {
		t.Fatalf("QueryBytes(%d): %v", idx, err)
	}
	var as [][]byte
	for i := range qs {
		d := dbs[i%len(dbs)]
		sv := server.NewPIR(d)
		if ns == 2 {
			sv = server.NewPIRTwo(d)
		}
		a, err := sv.AnswerBytes(qs[i])
		if err != nil {
			t.Fatalf("server %d: %v", i, err)
		}
		as = append(as, a)
	}
	res, err := cl.ReconstructBytes(as)
	if err != nil {
		t.Fatalf("reconstruction: %v", err)
	}
	got, err := pgp.RecoverKeyFromBlock(database.UnPadBlock(res.([]byte)), e.key.ID)
	if err != nil || gen.Print(got) != e.print {
		t.Fatalf("the key of %s retrieved from %d servers is wrong or missing: %v", e.key.ID, ns, err)
	}
}

func predicate(t *rapid.T, c *hx.C) {
	es, files, done := dir(t, c)
	defer done()
	c.NonTrivialIf(len(es) > 1)
	str := func(k *database.KeyInfo) string {
		return fmt.Sprintf("%s %s %d %d %d", k.UserId.Email, k.UserId.Id, k.CreationTime.Unix(), k.PubKeyAlgo, k.BitLength)
	}
	var want []string
	for _, e := range es {
		id := e.k.Idents[len(e.k.Idents)-1]
		bl, _ := e.k.Priv.BitLength()
		want = append(want, fmt.Sprintf("%s %s %d %d %d", id.Email, id.Name, e.k.Created.Unix(), e.k.Algo, bl))
	}
	sort.Strings(want)
	var first []string
	for v, f := range files {
		db, err := database.GenerateRealKeyDB(f)
		if err != nil {
			t.Fatalf("building the database: %v", err)
		}
		if db.NumColumns != len(es) {
			t.Fatalf("the database describes %d keys instead of %d", db.NumColumns, len(es))
		}
		var got []string
		for _, k := range db.KeysInfo {
			got = append(got, str(k))
		}
		if v == 0 {
			first = append(first, got...)
		} else if !reflect.DeepEqual(got, first) {
			t.Fatalf("the keys in another order and split (%d) yield another database", v)
		}
		sort.Strings(got)
		if !reflect.DeepEqual(got, want) {
			t.Fatalf("the entries are %q instead of %q", got, want)
		}
	}
}

// padding checks that padding is undone for any content.
func padding(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	n := hx.Size(t, "len", 0, 300, 0, 1)
	b := gen.Content(t, s, n)
	tail := rapid.SampledFrom([][]byte{nil, {0}, {0x80}, {0x80, 0, 0}, {0, 0x80}, {0xff}, {0xc2, 0x80}, {0xe2, 0x82}, {0xf0, 0x90, 0x80}}).Draw(t, "tail")
	b = append(append([]byte{}, b...), tail...)
	l := hx.Size(t, "block", 1, 400, 1, len(b), len(b)+1)
	if l == 0 {
		l = 1
	}
	zeros := hx.Size(t, "zeros", 0, 300, 0, 1)
	c.Case("%d bytes ending in %x, block %d, %d more zeros", len(b), tail, l, zeros)
	c.NonTrivialIf(len(b) > 0)
	p := database.PadBlock(append([]byte{}, b...), l)
	if len(p)%l != 0 || len(p) <= len(b) || !bytes.HasPrefix(p, b) {
		t.Fatalf("%x padded to %d: %x", b, l, p)
	}
	if u := database.UnPadBlock(p); !bytes.Equal(u, b) {
		t.Fatalf("%x was padded to a multiple of %d and unpadded to %x", b, l, u)
	}
	p = append(database.PadWithSignalByte(append([]byte{}, b...)), make([]byte, zeros)...)
	if u := database.UnPadBlock(p); !bytes.Equal(u, b) {
		t.Fatalf("%x was unpadded to %x", b, u)
	}
}

// table checks the records of directories with arbitrary packets.
func table(t *rapid.T, c *hx.C, n, maxLen int) {
	s := hx.Tape(t)
	d := gen.NewDir(t, s, n, maxLen)
	dirNo++
	path := filepath.Join(hx.WorkDir(), fmt.Sprintf("d%d", dirNo))
	defer os.RemoveAll(path)
	reb := rapid.Bool().Draw(t, "rebalanced")
	merkle := rapid.Bool().Draw(t, "merkle")
	g := database.GenerateRealKeyBytes
	if merkle {
		g = database.GenerateRealKeyMerkle
	}
	perm := seq(n)
	for i := range perm {
		j := s.Intn(i + 1)
		perm[i], perm[j] = perm[j], perm[i]
	}
	db, err := g(d.Files(path, perm, rapid.IntRange(1, 4).Draw(t, "files")), reb)
	c.Case("%d keys, rebalanced=%v merkle=%v", n, reb, merkle)
	c.NonTrivialIf(n > 10)
	if err != nil {
		t.Fatalf("building the database: %v", err)
	}
	blocks := db.NumRows * db.NumColumns
	want := d.Buckets(blocks)
	if len(db.BlockLengths) != blocks {
		t.Fatalf("%d block lengths for %dx%d blocks", len(db.BlockLengths), db.NumRows, db.NumColumns)
	}
	pos, longest := 0, 0
	for i, l := range db.BlockLengths {
		b := db.Entries[pos : pos+l]
		pos += l
		if l > longest {
			longest = l
		}
		if merkle {
			b = b[:l-db.ProofLen-1]
		}
		if u := database.UnPadBlock(append([]byte{}, b...)); !bytes.Equal(u, want[i]) {
			t.Fatalf("record %d holds %x instead of %x", i, u, want[i])
		}
		if len(want[i]) == 0 {
			c.Class("empty-record")
		}
	}
	if longest > db.BlockSize {
		t.Fatalf("a record has %d bytes, the block length is %d", longest, db.BlockSize)
	}
}
