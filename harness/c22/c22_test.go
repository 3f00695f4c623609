package c22

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"aaverif/gen"
	"aaverif/hx"

	"github.com/nikirill/go-crypto/openpgp"
	"github.com/nikirill/go-crypto/openpgp/armor"
	"github.com/nikirill/go-crypto/openpgp/packet"
	"github.com/si-co/vpir-code/lib/pgp"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	hx.Main(m, hx.Meta{ID: "C22",
		Rule: "dumps of signed RSA, DSA and elliptic-curve keys whose identities share few emails in different cases, with primary flags, ties, missing emails, signatures of other keys, unsigned and forged identities, up to six subkeys, revocations, creation times around 2^31 and 2^32, unknown packets and unreadable keys, spread over files in random order; key files with sizes around the limit; non-trivial when keys compete for an email, a key is skipped, an identity must be chosen among several, or a size is at the limit",
		Assumptions: []string{"which keys a dump contains is what the OpenPGP library reads from it",
			"when the primary identity has no email and several others do, any of them may be the primary email, but always the same"}})
}

func TestProps(t *testing.T) {
	hx.Run(t, "primary-email", 30000, 400000, primaryEmail)
	hx.Run(t, "selection", 500, 6000, selection)
	hx.Run(t, "unsupported", 60, 300, unsupported)
	hx.Run(t, "write-load", 150, 2000, writeLoad)
	hx.Run(t, "load-files", 400, 6000, loadFiles)
	hx.Run(t, "armor", 300, 3000, armored)
	hx.Run(t, "dump-names", 300, 3000, dumpNames)
}

var flags = []*bool{nil, new(bool), func() *bool { b := true; return &b }()}

var emails = []string{"a@x.org", "A@x.org", "A@X.ORG", "b@x.org", "B@x.org", "ab@x.org", "Ünal@x.org", "ünal@x.org", "weird", "a@x.org.", " "}

func email(t *rapid.T, label string, n int) string {
	return emails[rapid.IntRange(0, n-1).Draw(t, label)]
}

// primaryEmail checks PrimaryEmail on arbitrary identities.
func primaryEmail(t *rapid.T, c *hx.C) {
	n := rapid.IntRange(1, 6).Draw(t, "identities")
	k := &gen.PKey{}
	base := time.Unix(1400000000, 0)
	for i := 0; i < n; i++ {
		id := gen.PIdent{Signed: true}
		if rapid.IntRange(0, 3).Draw(t, "has") > 0 {
			id.Email = rapid.SampledFrom(emails[:8]).Draw(t, "email")
		}
		id.Name = fmt.Sprintf("%c %d", rapid.IntRange('a', 'c').Draw(t, "name"), i)
		if id.Email != "" {
			id.Name += " <" + id.Email + ">"
		}
		id.Self = base.Add(time.Duration(rapid.IntRange(-1, 1).Draw(t, "self")) * time.Second)
		id.Primary = rapid.SampledFrom(flags).Draw(t, "flag")
		k.Idents = append(k.Idents, id)
	}
	c.Case("%+v", k.Idents)
	build := func() *openpgp.Entity {
		e := &openpgp.Entity{Identities: map[string]*openpgp.Identity{}}
		for _, id := range k.Idents {
			e.Identities[id.Name] = &openpgp.Identity{Name: id.Name,
				UserId:        &packet.UserId{Id: id.Name, Email: id.Email},
				SelfSignature: &packet.Signature{CreationTime: id.Self, IsPrimaryId: id.Primary}}
		}
		return e
	}
	want := k.PrimaryEmails()
	got := pgp.PrimaryEmail(build())
	ok := len(want) == 0 && got == ""
	for _, w := range want {
		ok = ok || got == w
	}
	if !ok {
		t.Fatalf("the primary email is %q instead of one of %q", got, want)
	}
	for i := 0; i < 8; i++ {
		if g := pgp.PrimaryEmail(build()); g != got {
			t.Fatalf("the primary email is %q and then %q", got, g)
		}
	}
	c.NonTrivialIf(n > 1)
	if len(want) > 1 {
		c.Class("several")
	} else if len(want) == 0 {
		c.Class("no-email")
	}
}

// drawKey draws a key whose emails are among the first n.
func drawKey(t *rapid.T, s *hx.Stream, epoch, n int, label string) *gen.PKey {
	k := &gen.PKey{}
	k.Created = gen.Secs(epoch + rapid.IntRange(0, 4).Draw(t, label+".created"))
	k.Priv = gen.NewPriv(s, k.Created, gen.AnyAlgo)
	k.Revoked = rapid.IntRange(0, 4).Draw(t, label+".revoked") == 0
	k.Subkeys = rapid.SampledFrom([]int{0, 0, 1, 2, 3, 6}).Draw(t, label+".subkeys")
	ids := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, label+".ids")
	emailsOfOthers := 0
	for i := 0; i < ids; i++ {
		id := gen.PIdent{Signed: true}
		if rapid.IntRange(0, 5).Draw(t, label+".noemail") > 0 {
			id.Email = email(t, label+".email", n)
		}
		id.Name = fmt.Sprintf("N%d%s", i, []string{"", " (c)", " Ä", " (<)"}[s.Intn(4)])
		if id.Email != "" {
			id.Name += " <" + id.Email + ">"
		}
		id.Email = strings.TrimSpace(id.Email)
		id.Self = k.Created.Add(time.Duration(rapid.IntRange(0, 2).Draw(t, label+".self")) * time.Second)
		id.Primary = rapid.SampledFrom(flags).Draw(t, label+".flag")
		id.Third = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, label+".third")
		switch rapid.IntRange(0, 11).Draw(t, label+".sig") {
		case 0:
			id.Signed = false
		case 1:
			id.Signed, id.Bad = false, true
		}
		if id.Email != "" && id.Signed {
			emailsOfOthers++
		}
		k.Idents = append(k.Idents, id)
	}
	k.Build(s, rapid.IntRange(0, 2).Draw(t, label+".junk") == 0)
	return k
}

var dirNo int

func scratch() string {
	dirNo++
	d := filepath.Join(hx.WorkDir(), fmt.Sprintf("d%d", dirNo))
	os.MkdirAll(d, 0o755)
	return d
}

func quiet(f func()) {
	old := os.Stdout
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = null
	defer func() { os.Stdout = old; null.Close() }()
	f()
}

// selection checks what is kept of a dump, and that it survives the disk.
func selection(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	n := rapid.IntRange(1, len(emails)).Draw(t, "emails")
	nk := hx.Size(t, "keys", 1, 14, 1, 2)
	// the created keys are within seconds of each other
	epoch := rapid.SampledFrom([]int{1400000000, 1400000000, 1<<31 - 2, 3000000000, 1<<32 - 100000, 2}).Draw(t, "epoch")
	var keys []*gen.PKey
	for i := 0; i < nk; i++ {
		keys = append(keys, drawKey(t, s, epoch, n, fmt.Sprintf("k%d", i)))
		if len(keys[i].PrimaryEmails()) > 1 && keys[i].Readable { // keep it unambiguous
			keys[i] = drawKey(t, s, epoch, n, fmt.Sprintf("k%d", i))
		}
	}
	files := rapid.IntRange(1, 4).Draw(t, "files")
	dir := scratch()
	defer os.RemoveAll(dir)
	var paths []string
	var kept []*gen.PKey
	skipped := 0
	for f := 0; f < files; f++ {
		var buf bytes.Buffer
		readable := false
		part := keys[nk*f/files : nk*(f+1)/files]
		for _, k := range part {
			if s.Intn(6) == 0 {
				// an unsupported algorithm is only put where no key precedes
				// (see unsupported)
				buf.Write(gen.Unreadable(s, emails[s.Intn(n)], !readable))
				skipped++
			}
			buf.Write(k.Raw)
			readable = readable || k.Readable
			if k.Readable && len(k.PrimaryEmails()) > 1 {
				c.Class("ambiguous")
				return
			}
		}
		if !readable && buf.Len() > 0 { // nothing of this file can be read
			k := &gen.PKey{Created: gen.Secs(1400000002), Idents: []gen.PIdent{{Name: "Q <q@q>", Email: "q@q", Signed: true, Self: gen.Secs(1400000003)}}}
			k.Priv = gen.NewPriv(s, k.Created, gen.ECDSA)
			k.Build(s, false)
			buf.Write(k.Raw)
			kept = append(kept, k)
		}
		p := filepath.Join(dir, fmt.Sprintf("sks-dump-%04d.pgp", f))
		os.WriteFile(p, buf.Bytes(), 0o644)
		paths = append(paths, p)
	}
	kept = append(kept, keys...)
	want := map[string][]*gen.PKey{}
	desc := ""
	for _, k := range kept {
		desc += fmt.Sprintf("[%d algo%d revoked=%v readable=%v %s] ", k.Created.Unix(), k.Algo, k.Revoked, k.Readable, brief(k))
		es := k.PrimaryEmails()
		if !k.Readable || k.Revoked || len(es) == 0 {
			skipped++
			continue
		}
		w := want[es[0]]
		switch {
		case len(w) == 0 || k.Created.After(w[0].Created):
			want[es[0]] = []*gen.PKey{k}
		case k.Created.Equal(w[0].Created):
			want[es[0]] = append(w, k)
		}
	}
	c.Case("%d files: %s", files, desc)
	perm := rapid.Permutation(paths).Draw(t, "order")
	var got map[string]*openpgp.Entity
	var err error
	quiet(func() { got, err = pgp.AnalyzeKeyDump(perm) })
	if err != nil {
		t.Fatalf("AnalyzeKeyDump: %v", err)
	}
	for em, e := range got {
		w, ok := want[em]
		if !ok {
			t.Fatalf("a key was kept under %q, which is no primary email of a valid key: %s", em, gen.Print(e))
		}
		match := false
		for _, k := range w {
			if k.Priv.Fingerprint != e.PrimaryKey.Fingerprint || len(e.Identities) != signed(k) {
				continue
			}
			// the key as the dump has it
			ref := gen.Print(k.Entity())
			if ref == gen.Print(e) {
				match = true
			}
		}
		if !match {
			t.Fatalf("under %q the key %s was kept instead of the latest one (%d candidates, first %X)", em, gen.Print(e), len(w), w[0].Priv.Fingerprint)
		}
		if len(e.Subkeys) != 0 {
			t.Fatalf("the key of %q kept its %d subkeys", em, len(e.Subkeys))
		}
	}
	for em, w := range want {
		if got[em] == nil {
			t.Fatalf("no key was kept for %q (fingerprint %X)", em, w[0].Priv.Fingerprint)
		}
	}
	c.NonTrivialIf(skipped > 0 || len(want) < len(kept)-skipped)
	c.Class(fmt.Sprintf("files%d", files))
	out := filepath.Join(dir, "out")
	os.MkdirAll(out, 0o755)
	roundTrip(t, out, got)
}

// unsupported checks that a key of an algorithm the library does not know takes
// no other key along.
func unsupported(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	k := &gen.PKey{Created: gen.Secs(1400000000), Idents: []gen.PIdent{{Name: "Q <q@q>", Email: "q@q", Signed: true, Self: gen.Secs(1400000003)}}}
	k.Priv = gen.NewPriv(s, k.Created, gen.AnyAlgo)
	k.Subkeys = rapid.IntRange(0, 2).Draw(t, "subkeys")
	k.Build(s, false)
	other := []byte{0xc6, 11, 4, 1, 2, 3, 4, rapid.SampledFrom([]byte{22, 20, 25, 99}).Draw(t, "algo"), 1, 2, 3, 4, 5, 0xcd, 5, '<', 'r', '@', 'r', '>'}
	c.Case("%s and a key of algorithm %d", gen.Print(k.Entity()), other[7])
	c.NonTrivial()
	dir := scratch()
	defer os.RemoveAll(dir)
	for _, after := range []bool{false, true} {
		dump := append(append([]byte{}, other...), k.Raw...)
		if after {
			dump = append(append([]byte{}, k.Raw...), other...)
		}
		p := filepath.Join(dir, "sks-dump-0000.pgp")
		os.WriteFile(p, dump, 0o644)
		var got map[string]*openpgp.Entity
		var err error
		quiet(func() { got, err = pgp.AnalyzeKeyDump([]string{p}) })
		if err == nil && len(got) == 1 && got["q@q"] != nil {
			continue
		}
		if after && len(got) == 0 && hx.Known("unsupported-after-key") {
			c.Class("known")
			continue
		}
		t.Fatalf("a key of algorithm %d (after=%v) made the dump yield %d keys (%v)", other[7], after, len(got), err)
	}
}

func signed(k *gen.PKey) int {
	n := 0
	for _, id := range k.Idents {
		if id.Signed {
			n++
		}
	}
	return n
}

func brief(k *gen.PKey) string {
	out := ""
	for _, id := range k.Idents {
		p := "-"
		if id.Primary != nil {
			p = fmt.Sprint(*id.Primary)
		}
		out += fmt.Sprintf("%q@%d prim=%s signed=%v bad=%v;", id.Name, id.Self.Sub(k.Created)/time.Second, p, id.Signed, id.Bad)
	}
	return out
}

func serialLen(t *rapid.T, e *openpgp.Entity) int {
	var b bytes.Buffer
	if err := e.Serialize(&b); err != nil {
		t.Fatalf("serialize: %v", err)
	}
	return b.Len()
}

// roundTrip writes the keys and loads them again.
func roundTrip(t *rapid.T, dir string, keys map[string]*openpgp.Entity) {
	prints := map[string]string{}
	for em, e := range keys {
		if serialLen(t, e) <= 8192 {
			prints[em] = gen.Print(e)
		}
	}
	var err error
	quiet(func() { err = pgp.WriteKeysOnDisk(dir, keys) })
	if err != nil {
		t.Fatalf("WriteKeysOnDisk: %v", err)
	}
	files, err := pgp.GetFilesThatMatch(dir, pgp.SksParsedFullFileName)
	if err != nil || len(files) != 1 {
		t.Fatalf("the written file is not found: %v %v", files, err)
	}
	loaded, err := pgp.LoadKeysFromDisk(files)
	if err != nil {
		t.Fatalf("LoadKeysFromDisk: %v", err)
	}
	parsed, err := pgp.LoadAndParseKeys(files)
	if err != nil {
		t.Fatalf("LoadAndParseKeys: %v", err)
	}
	if len(loaded) != len(prints) || len(parsed) != len(prints) {
		t.Fatalf("%d keys (%d parsed) were loaded instead of %d", len(loaded), len(parsed), len(prints))
	}
	seen := map[string]bool{}
	for i, k := range loaded {
		if seen[k.ID] {
			t.Fatalf("%q was written twice", k.ID)
		}
		seen[k.ID] = true
		el, err := openpgp.ReadKeyRing(bytes.NewReader(k.Packet))
		if err != nil || len(el) != 1 {
			t.Fatalf("the packet of %q yields %d keys: %v", k.ID, len(el), err)
		}
		if p := gen.Print(el[0]); p != prints[k.ID] {
			t.Fatalf("the key of %q changed from %s to %s", k.ID, prints[k.ID], p)
		}
		if p := gen.Print(parsed[i]); p != prints[k.ID] {
			t.Fatalf("the parsed key of %q changed from %s to %s", k.ID, prints[k.ID], p)
		}
		if e := pgp.PrimaryEmail(el[0]); e != k.ID {
			t.Fatalf("the key stored under %q has the primary email %q", k.ID, e)
		}
	}
}

// writeLoad writes keys whose sizes are around the limit.
func writeLoad(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	dir := scratch()
	defer os.RemoveAll(dir)
	keys := map[string]*openpgp.Entity{}
	n := rapid.IntRange(0, 6).Draw(t, "keys")
	desc := ""
	for i := 0; i < n; i++ {
		em := fmt.Sprintf("u%d@x.org", i)
		d := rapid.SampledFrom([]int{-1, 0, 1, 2, -8000, -100, 100, 9000}).Draw(t, "size")
		e := sized(s, em, 8192+d)
		keys[em] = e
		l := serialLen(t, e)
		desc += fmt.Sprintf("%d ", l)
		c.NonTrivialIf(l >= 8191 && l <= 8194)
		if l == 8192 {
			c.Class("at-limit")
		}
	}
	over := rapid.Bool().Draw(t, "overwrite")
	c.Case("keys of %sbytes, overwrite=%v", desc, over)
	if over {
		b := map[string]*openpgp.Entity{}
		for i := 0; i < 8; i++ {
			em := fmt.Sprintf("old%d@x.org", i)
			b[em] = sized(s, em, 3000)
		}
		quiet(func() { pgp.WriteKeysOnDisk(dir, b) })
	}
	roundTrip(t, dir, keys)
}

// sized makes a key whose serialization has about n bytes, exactly n mostly.
func sized(s *hx.Stream, em string, n int) *openpgp.Entity {
	pad := n - 300
	var e *openpgp.Entity
	for try := 0; try < 4; try++ {
		if pad < 1 {
			pad = 1
		}
		k := &gen.PKey{Created: gen.Secs(1400000000), Priv: gen.NewPriv(hx.NewStream(uint64(s.Intn(3))), gen.Secs(1400000000), gen.RSA)}
		k.Idents = []gen.PIdent{{Name: strings.Repeat("n", pad) + " <" + em + ">", Email: em, Signed: true, Self: gen.Secs(1400000000)}}
		k.Build(s, false)
		e = k.Entity()
		var b bytes.Buffer
		e.Serialize(&b)
		if b.Len() == n || n < 1000 {
			break
		}
		pad += n - b.Len()
	}
	return e
}

// loadFiles loads keys from several files, damaged ones among them.
func loadFiles(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	dir := scratch()
	defer os.RemoveAll(dir)
	nf := rapid.IntRange(0, 5).Draw(t, "files")
	var paths []string
	var want []pgp.Key
	desc := ""
	for f := 0; f < nf; f++ {
		var ks []pgp.Key
		for i := rapid.IntRange(0, 6).Draw(t, "keys"); i > 0; i-- {
			ks = append(ks, pgp.Key{ID: gen.Word(s, 20, 4), Packet: s.Bytes(hx.Size(t, "len", 0, 9000, 0, 1, 8192))})
		}
		p := filepath.Join(dir, fmt.Sprintf("%d", f))
		gen.WriteKeys(p, ks)
		paths = append(paths, p)
		want = append(want, ks...)
		desc += fmt.Sprintf("%d ", len(ks))
	}
	damage := nf > 0 && rapid.Bool().Draw(t, "damage")
	c.Case("files with %skeys, damage=%v", desc, damage)
	c.NonTrivialIf(len(want) > 0)
	same := func(got []*pgp.Key, want []pgp.Key) bool {
		for i, k := range got {
			if i >= len(want) || k.ID != want[i].ID || !bytes.Equal(k.Packet, want[i].Packet) {
				return false
			}
		}
		return true
	}
	if !damage {
		got, err := pgp.LoadKeysFromDisk(paths)
		if err != nil || len(got) != len(want) || !same(got, want) {
			t.Fatalf("loaded %d keys instead of %d, or other ones (%v)", len(got), len(want), err)
		}
		return
	}
	// cut the last file somewhere
	last := paths[nf-1]
	b, _ := os.ReadFile(last)
	if rapid.IntRange(0, 9).Draw(t, "missing") == 0 {
		os.Remove(last)
		if _, err := pgp.LoadKeysFromDisk(paths); err == nil {
			t.Fatalf("a missing file went unnoticed")
		}
		c.Class("missing")
		return
	}
	if len(b) == 0 {
		return
	}
	cut := rapid.IntRange(0, len(b)-1).Draw(t, "cut")
	os.WriteFile(last, b[:cut], 0o644)
	got, err := pgp.LoadKeysFromDisk(paths)
	c.Class("cut")
	if err == nil {
		c.Class("cut-at-boundary")
		// the cut must be between two messages
		if !boundary(b, cut) {
			t.Fatalf("a file cut at byte %d of %d was loaded without an error", cut, len(b))
		}
		if !same(got, want) {
			t.Fatalf("a cut file yields other keys")
		}
	}
}

// boundary tells whether a gob message ends at byte cut.
func boundary(b []byte, cut int) bool {
	pos := 0
	for pos < cut {
		l := int(b[pos])
		pos++
		if l >= 0x80 {
			n := 256 - l
			l = 0
			for ; n > 0; n-- {
				l = l<<8 | int(b[pos])
				pos++
			}
		}
		pos += l
	}
	return pos == cut
}

func armored(t *rapid.T, c *hx.C) {
	s := hx.Tape(t)
	k := drawKey(t, s, 1400000000, len(emails), "k")
	for !k.Readable {
		k.Idents = []gen.PIdent{{Name: "z <z@z>", Email: "z@z", Signed: true, Self: k.Created}}
		k.Build(s, false)
	}
	e := k.Entity()
	e.Revocations = nil
	c.Case("%s, %d subkeys", gen.Print(e), len(e.Subkeys))
	c.NonTrivialIf(len(e.Identities) > 1 || len(e.Subkeys) > 0)
	var subs []string
	for _, sk := range e.Subkeys {
		subs = append(subs, fmt.Sprintf("%X", sk.PublicKey.Fingerprint))
	}
	text, err := pgp.ArmorKey(e)
	if err != nil {
		t.Fatalf("ArmorKey: %v", err)
	}
	block, err := armor.Decode(strings.NewReader(text))
	if err != nil || block.Type != "PGP PUBLIC KEY BLOCK" {
		t.Fatalf("the armored key does not decode: %v", err)
	}
	raw, err := io.ReadAll(block.Body)
	if err != nil {
		t.Fatalf("the armored key does not decode: %v", err)
	}
	el, err := openpgp.ReadKeyRing(bytes.NewReader(raw))
	if err != nil || len(el) != 1 {
		t.Fatalf("the armored key yields %d keys: %v", len(el), err)
	}
	if a, b := gen.Print(e), gen.Print(el[0]); a != b {
		t.Fatalf("the armored key is %s instead of %s", b, a)
	}
	var subs2 []string
	for _, sk := range el[0].Subkeys {
		subs2 = append(subs2, fmt.Sprintf("%X", sk.PublicKey.Fingerprint))
	}
	if fmt.Sprint(subs) != fmt.Sprint(subs2) {
		t.Fatalf("the armored key has the subkeys %v instead of %v", subs2, subs)
	}
}

func dumpNames(t *rapid.T, c *hx.C) {
	dir := scratch()
	defer os.RemoveAll(dir)
	var want []string
	others := []string{"sks-dump-1.pgp", "sks-dump-00.pgp", "sks-dump-abcd.pgp", "sks-full.pgp", "sks-000.pgp", "sks-dump-0000.txt", "metadata", "dump-0000.pgp", "sks-dump-0000xpgp"}
	have := map[string]bool{}
	for i := rapid.IntRange(0, 12).Draw(t, "files"); i > 0; i-- {
		var name string
		if rapid.IntRange(0, 2).Draw(t, "kind") > 0 {
			name = fmt.Sprintf("sks-dump-%04d.pgp", hx.Size(t, "no", 0, 9999, 0, 9999))
			if !have[name] {
				want = append(want, filepath.Join(dir, name))
			}
		} else {
			name = rapid.SampledFrom(others).Draw(t, "other")
		}
		have[name] = true
		os.WriteFile(filepath.Join(dir, name), nil, 0o644)
	}
	var names []string
	for n := range have {
		names = append(names, n)
	}
	sort.Strings(names)
	sort.Strings(want)
	c.Case("%v", names)
	c.NonTrivialIf(len(want) > 0 && len(want) < len(have))
	got, err := pgp.GetSksOriginalDumpFiles(dir)
	if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fatalf("the dump files are %v instead of %v (%v)", got, want, err)
	}
	all, err := pgp.GetAllFiles(dir)
	if err != nil || len(all) != len(have) {
		t.Fatalf("the files are %v (%v)", all, err)
	}
	if _, err := pgp.GetAllFiles(filepath.Join(dir, "absent")); err == nil {
		t.Fatalf("an absent directory is not reported")
	}
}
