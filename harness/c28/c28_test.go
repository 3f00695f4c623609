package c28

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"testing"

	"aaverif/e2e"
	"aaverif/gen"
	"aaverif/hx"

	"github.com/nikirill/go-crypto/openpgp"
	"github.com/si-co/vpir-code/lib/pgp"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	hx.Main(m, hx.Meta{ID: "C28",
		Rule:        "key files of 0 to 200 keys with packets of 0 bytes to 120 MB, a few of them 100 to 400 MB in total with sizes at the limit of a chunk, files that were cut or had bits flipped, output folders with older and larger files, and dumps of OpenPGP keys that are parsed and then split by the program; non-trivial when there are keys, several chunks, or damage that the reference decoder reports",
		Assumptions: []string{"a file that was cut between two keys is not damaged", "the reference decoder of a key file is that of encoding/gob"}})
}

func TestProps(t *testing.T) {
	hx.NoHang()
	hx.Run(t, "small", 250, 4000, small)
	hx.Run(t, "damaged", 350, 6000, damaged)
	hx.Each(t, "large", hx.N(8, 60), large)
	hx.Run(t, "pipeline", 30, 400, pipeline)
}

// limit is the size after which the next chunk begins.
const limit = 104857600

func scratch() string {
	d, err := os.MkdirTemp(hx.WorkDir(), "c28-")
	if err != nil {
		hx.Broken("%v", err)
	}
	return d
}

func tool(cmd, path, out string) e2e.Result {
	return e2e.Run(e2e.Build("data"), "", "-cmd", cmd, "-path", path, "-out", out)
}

// ref decodes a key file.
func ref(r io.Reader) (keys []pgp.Key, err error) {
	d := gob.NewDecoder(r)
	for {
		var k pgp.Key
		if err := d.Decode(&k); err == io.EOF {
			return keys, nil
		} else if err != nil {
			return keys, err
		}
		keys = append(keys, k)
	}
}

// chunks checks the files that the program wrote.
func chunks(dir string, want []pgp.Key) (int, error) {
	es, err := os.ReadDir(dir)
	if err != nil {
		hx.Broken("%v", err)
	}
	var names []string
	for _, e := range es {
		names = append(names, e.Name())
	}
	sort.Strings(names)
	at := 0
	for _, n := range names {
		p := filepath.Join(dir, n)
		f, err := os.Open(p)
		if err != nil {
			hx.Broken("%v", err)
		}
		got, err := ref(f)
		f.Close()
		if err != nil {
			return 0, fmt.Errorf("%s cannot be read on its own: %v", n, err)
		}
		lib, err := pgp.LoadKeysFromDisk([]string{p})
		if err != nil || len(lib) != len(got) {
			return 0, fmt.Errorf("the library reads %d instead of %d keys from %s (%v)", len(lib), len(got), n, err)
		}
		size, last := 0, 0
		for i, k := range got {
			if at >= len(want) {
				return 0, fmt.Errorf("%s has a key too many: %q", n, k.ID)
			}
			if k.ID != want[at].ID || !bytes.Equal(k.Packet, want[at].Packet) {
				return 0, fmt.Errorf("key %d in %s is %q with %d bytes instead of %q with %d bytes (key %d of the file)", i, n, k.ID, len(k.Packet), want[at].ID, len(want[at].Packet), at)
			}
			if lib[i].ID != k.ID || !bytes.Equal(lib[i].Packet, k.Packet) {
				return 0, fmt.Errorf("the library reads another key %d from %s", i, n)
			}
			last = len(k.ID) + len(k.Packet)
			size += last
			at++
		}
		if size-last > limit {
			return 0, fmt.Errorf("%s has %d bytes, and %d without its last key", n, size, size-last)
		}
	}
	if at != len(want) {
		return 0, fmt.Errorf("%d of %d keys were written, into %d files", at, len(want), len(names))
	}
	return len(names), nil
}

func drawKeys(t *rapid.T, s *hx.Stream, max int) []pgp.Key {
	n := hx.Size(t, "keys", 0, max, 0, 1, 2)
	l := rapid.SampledFrom([]int{0, 1, 30, 3000}).Draw(t, "packet-len")
	var out []pgp.Key
	for i := 0; i < n; i++ {
		k := pgp.Key{ID: fmt.Sprintf("%s%d@x.org", gen.Word(s, 5, 26), i), Packet: s.Bytes(s.Intn(l + 1))}
		if len(k.Packet) == 0 {
			k.Packet = nil
		}
		switch s.Intn(8) {
		case 0:
			k.ID = ""
		case 1:
			k.Packet = nil
		case 2:
			if i > 0 { // the same email or key again
				k.ID = out[s.Intn(i)].ID
			}
		case 3:
			if i > 0 {
				k = out[s.Intn(i)]
			}
		}
		out = append(out, k)
	}
	return out
}

// older writes files that were there before, possibly larger ones.
func older(t *rapid.T, s *hx.Stream, dir string) {
	if rapid.Bool().Draw(t, "older") {
		os.WriteFile(filepath.Join(dir, "sks-000.pgp"), s.Bytes(s.Intn(20000)), 0o644)
	}
}

func small(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	dir := scratch()
	defer os.RemoveAll(dir)
	keys := drawKeys(t, s, 200)
	in := filepath.Join(dir, "sks-full.pgp")
	gen.WriteKeys(in, keys)
	out := filepath.Join(dir, "out")
	os.Mkdir(out, 0o755)
	older(t, s, out)
	c.Case("%d keys", len(keys))
	c.NonTrivialIf(len(keys) > 0)
	r := tool("genChunks", in, out)
	if r.Hung || r.Exit != 0 {
		t.Fatalf("exit status %d (hung: %v):\n%s", r.Exit, r.Hung, r.Out)
	}
	if _, err := chunks(out, keys); err != nil {
		t.Fatalf("%v", err)
	}
}

func damaged(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	dir := scratch()
	defer os.RemoveAll(dir)
	keys := drawKeys(t, s, 6)
	in := filepath.Join(dir, "sks-full.pgp")
	gen.WriteKeys(in, keys)
	b, err := os.ReadFile(in)
	if err != nil {
		hx.Broken("%v", err)
	}
	out := filepath.Join(dir, "out")
	os.Mkdir(out, 0o755)
	kind := rapid.SampledFrom([]string{"cut", "cut", "flip", "insert", "noise", "twice", "missing", "folder", "nowhere"}).Draw(t, "kind")
	fails := false
	switch kind {
	case "cut":
		if len(b) > 0 {
			b = b[:rapid.IntRange(0, len(b)-1).Draw(t, "len")]
		}
	case "flip":
		for i := rapid.IntRange(1, 3).Draw(t, "flips"); i > 0 && len(b) > 0; i-- {
			b[s.Intn(len(b))] ^= 1 << s.Intn(8)
		}
	case "insert":
		at := s.Intn(len(b) + 1)
		b = append(append(append([]byte{}, b[:at]...), s.Bytes(1+s.Intn(4))...), b[at:]...)
	case "noise":
		b = s.Bytes(s.Intn(300))
	case "twice": // two streams in a file: the types are defined anew
		b = append(b, b...)
	case "missing":
		in += "x"
		fails = true
	case "folder":
		in = dir
		fails = true
	case "nowhere":
		out = filepath.Join(dir, "no", "such")
		fails = true
	}
	c.Class(kind)
	if !fails {
		os.WriteFile(in, b, 0o644)
	}
	var want []pgp.Key
	if !fails {
		want, err = ref(bytes.NewReader(b))
		fails = err != nil
	}
	c.Case("%s of %d keys, %d bytes, damaged=%v (%v)", kind, len(keys), len(b), fails, err)
	c.NonTrivialIf(fails)
	r := tool("genChunks", in, out)
	if r.Hung {
		t.Fatalf("the program does not end:\n%s", r.Out)
	}
	if fails {
		if r.Exit == 0 {
			t.Fatalf("damaged input is split without an error: %v", err)
		}
		return
	}
	if r.Exit != 0 {
		t.Fatalf("exit status %d for readable input:\n%s", r.Exit, r.Out)
	}
	if _, err := chunks(out, want); err != nil {
		t.Fatalf("%v", err)
	}
}

// large writes files that take several chunks.
func large(i int, c *hx.C) error {
	s := hx.NewStream(hx.Seed()*7919 + uint64(i))
	dir := scratch()
	defer os.RemoveAll(dir)
	pattern := s.Bytes(1<<20 + 13)
	packet := func(n int) []byte {
		out := make([]byte, 0, n)
		o := s.Intn(len(pattern))
		for len(out) < n {
			p := pattern[o:]
			o = 0
			if len(p) > n-len(out) {
				p = p[:n-len(out)]
			}
			out = append(out, p...)
		}
		if n > 8 {
			copy(out, s.Bytes(8))
		}
		return out
	}
	var keys []pgp.Key
	total := 0
	add := func(n int) { // a key of n bytes in total
		id := fmt.Sprintf("k%d@x.org", len(keys))
		if n < len(id) {
			n = len(id)
		}
		keys = append(keys, pgp.Key{ID: id, Packet: packet(n - len(id))})
		total += n
	}
	// to fill the chunk up to a size
	fill := func(size, step int) {
		for sum := 0; sum < size; {
			n := 1 + s.Intn(step)
			if n < 20 {
				n = 20
			}
			if size-sum-n < 20 {
				n = size - sum
			}
			add(n)
			sum += n
		}
	}
	desc := ""
	step := []int{60000, 1 << 20, 9 << 20}[s.Intn(3)]
	switch i % 8 {
	case 0: // the limit to the byte
		fill(limit, step)
		add(100)
		add(200)
		desc = "at the limit"
	case 1: // one above it, nothing behind
		fill(limit+1, step)
		desc = "one above the limit"
	case 2:
		fill(limit-1, step)
		add(5000)
		fill(limit, step)
		add(10)
		desc = "one below the limit, twice"
	case 3: // keys larger than the limit
		add(limit + 1 + s.Intn(1<<20))
		add(30)
		add(limit + 7)
		add(limit)
		desc = "huge keys"
	case 4:
		fill(limit+1, step)
		fill(limit+1, step)
		fill(limit+1, step)
		add(40)
		desc = "three chunks and a key"
	default:
		for k := 1 + s.Intn(3); k >= 0; k-- {
			fill(1+s.Intn(limit*5/4), step)
		}
		desc = "any"
	}
	in := filepath.Join(dir, "sks-full.pgp")
	gen.WriteKeys(in, keys)
	out := filepath.Join(dir, "out")
	os.Mkdir(out, 0o755)
	if s.Intn(3) == 0 { // a former chunk with more keys in it
		gen.WriteKeys(filepath.Join(out, "sks-001.pgp"), append(append([]pgp.Key{}, keys...), keys...))
		os.WriteFile(filepath.Join(out, "sks-000.pgp"), make([]byte, 300), 0o644)
		desc += ", older chunks"
		// it remains if there is one chunk only
		if total <= limit {
			os.Remove(filepath.Join(out, "sks-001.pgp"))
		}
	}
	c.Case("%s: %d keys, %d bytes", desc, len(keys), total)
	c.Class(desc)
	r := tool("genChunks", in, out)
	if r.Hung || r.Exit != 0 {
		return fmt.Errorf("exit status %d (hung: %v):\n%s", r.Exit, r.Hung, r.Out)
	}
	n, err := chunks(out, keys)
	c.NonTrivialIf(n > 1)
	return err
}

// pipeline parses a dump and splits the outcome.
func pipeline(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	dir := scratch()
	defer os.RemoveAll(dir)
	n := rapid.IntRange(1, 12).Draw(t, "keys")
	files := rapid.IntRange(1, 3).Draw(t, "files")
	raw := make([][]byte, files)
	want := map[string]string{}
	for i := 0; i < n; i++ {
		tr := true
		at := gen.Secs(1400000000 + s.Intn(1000000))
		em := fmt.Sprintf("%s%d@x.org", gen.Word(s, 3, 2), i)
		k := &gen.PKey{Created: at, Priv: gen.NewPriv(s, at, gen.AnyAlgo), Revoked: s.Intn(5) == 0}
		k.Idents = []gen.PIdent{{Name: "U <" + em + ">", Email: em, Signed: true, Self: at, Primary: &tr}}
		k.Build(s, false)
		f := s.Intn(files)
		raw[f] = append(raw[f], k.Raw...)
		if !k.Revoked {
			want[em] = gen.Print(k.Entity())
		}
	}
	in, out := filepath.Join(dir, "dump"), filepath.Join(dir, "out")
	os.Mkdir(in, 0o755)
	os.Mkdir(out, 0o755)
	for i, b := range raw {
		os.WriteFile(filepath.Join(in, fmt.Sprintf("sks-dump-%04d.pgp", i)), b, 0o644)
	}
	c.Case("%d keys in %d files, %d valid", n, files, len(want))
	c.NonTrivialIf(len(want) > 1)
	r := tool("parseDump", in, dir)
	if r.Hung || r.Exit != 0 {
		t.Fatalf("parseDump: exit status %d (hung: %v):\n%s", r.Exit, r.Hung, r.Out)
	}
	full := filepath.Join(dir, pgp.SksParsedFullFileName)
	r = tool("genChunks", full, out)
	if r.Hung || r.Exit != 0 {
		t.Fatalf("genChunks: exit status %d (hung: %v):\n%s", r.Exit, r.Hung, r.Out)
	}
	// the servers find their keys this way
	fs, err := pgp.GetSksOriginalDumpFiles(in)
	if err != nil || len(fs) != files {
		t.Fatalf("%d files of %d in the dump were found (%v)", len(fs), files, err)
	}
	parts, err := filepath.Glob(filepath.Join(out, "sks-*.pgp"))
	if err != nil {
		hx.Broken("%v", err)
	}
	keys, err := pgp.LoadKeysFromDisk(parts)
	if err != nil {
		t.Fatalf("loading the chunks: %v", err)
	}
	if len(keys) != len(want) {
		t.Fatalf("%d keys were kept instead of %d", len(keys), len(want))
	}
	for _, k := range keys {
		el, err := openpgp.ReadKeyRing(bytes.NewReader(k.Packet))
		if err != nil || len(el) != 1 {
			t.Fatalf("the key of %q cannot be read: %v", k.ID, err)
		}
		if p := gen.Print(el[0]); p != want[k.ID] {
			t.Fatalf("under %q the key %s was kept instead of %s", k.ID, p, want[k.ID])
		}
	}
}
