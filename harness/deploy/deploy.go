// Package deploy generates key directories and requests to deployments of the
// real programs, with the results expected.
package deploy

import (
	"fmt"
	"math/rand"
	"net/url"
	"path/filepath"
	"strings"
	"time"

	"aaverif/e2e"
	"aaverif/gen"
	"aaverif/hx"

	"github.com/nikirill/go-crypto/openpgp"
	"github.com/nikirill/go-crypto/openpgp/packet"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/pgp"
	"github.com/si-co/vpir-code/lib/query"
)

// Entry is a stored key.
type Entry struct {
	Key     pgp.Key
	Print   string
	Email   string
	Created time.Time
	Algo    packet.PublicKeyAlgorithm
}

// NewEntries are keys for a directory.
func NewEntries(s *hx.Stream, n int) []*Entry {
	var out []*Entry
	for i := 0; i < n; i++ {
		long := ""
		if s.Intn(8) == 0 {
			long = strings.Repeat("long.", 1+s.Intn(36))
		}
		if i == n/2 { // one that is as long as emails get
			long = strings.Repeat("long.", 26+s.Intn(20))
		}
		out = append(out, newEntry(s, fmt.Sprintf("%s%s%d@%s", long, gen.Word(s, 4, 2), i, []string{"epfl.ch", "mit.edu", "x.edu"}[s.Intn(3)]), i, 0))
	}
	return out
}

func newEntry(s *hx.Stream, em string, i, size int) *Entry {
	y := 2008 + s.Intn(12)
	created := time.Date(y, time.Month(1+s.Intn(12)), 1+s.Intn(28), s.Intn(24), 0, 0, 0, time.UTC)
	switch s.Intn(5) {
	case 0: // what a query for a year stands for
		created = time.Date(y, 0, 0, 0, 0, 0, 0, time.UTC)
	case 1: // the year of conjunctions
		created = time.Date(2018, time.Month(1+s.Intn(12)), 1+s.Intn(28), 1, 2, 3, 0, time.UTC)
	case 2: // a year ends in some time zones only
		created = []time.Time{time.Date(y, 12, 31, 20, 2, 3, 0, time.UTC), time.Date(y, 1, 1, 2, 2, 3, 0, time.UTC), time.Date(2018, 12, 31, 20, 2, 3, 0, time.UTC)}[s.Intn(3)]
	}
	k := &gen.PKey{Created: created, Priv: gen.NewPriv(s, created, gen.AnyAlgo)}
	tr := true
	name := "U"
	if s.Intn(6) == 0 {
		name = strings.Repeat("long ", s.Intn(500))
	}
	if size > 0 {
		name = strings.Repeat("L", size)
	}
	k.Idents = []gen.PIdent{{Name: name + " <" + em + ">", Email: em, Signed: true, Self: created, Primary: &tr}}
	if s.Intn(3) == 0 {
		o := fmt.Sprintf("other%d@x.org", i)
		k.Idents = append(k.Idents, gen.PIdent{Name: "O <" + o + ">", Email: o, Signed: true, Self: created})
	}
	k.Build(s, false)
	return &Entry{Key: pgp.Key{ID: em, Packet: k.Raw}, Print: gen.Print(k.Entity()), Email: em, Created: created, Algo: k.Algo}
}

// LargeEntries are many keys of which the largest share a record of the
// directory, so that answers of point servers exceed 4 MB.
func LargeEntries(s *hx.Stream) []*Entry {
	const n, large = 4000, 80
	var out []*Entry
	blocks := map[uint32]bool{}
	for i := 0; i < n; i++ {
		em := fmt.Sprintf("%s%d@large.org", gen.Word(s, 4, 2), i)
		size := 0
		if i < large {
			for k := 0; ; k++ {
				// 4000 keys make 400 records, whose proofs have more than 255 bytes
				if b := database.HashToIndex(em, 400); len(blocks) == 0 || blocks[b] {
					blocks[b] = true
					break
				}
				em = fmt.Sprintf("%s%d.%d@large.org", gen.Word(s, 4, 2), i, k)
			}
			size = 7000
		}
		out = append(out, newEntry(s, em, i, size))
	}
	return out
}

// Request is a request with its expected result.
type Request struct {
	Desc  string
	Args  []string // of the client program
	Stdin string   // what the client program reads
	Op    e2e.Op   // for the library
	Form  url.Values
	Path  string
	Menu  []string // what to type into the interactive program, and the question that follows
	// expected: a key, a number or an error
	Print string
	Num   uint64
	IsErr bool
}

// Check compares a result with the one expected.
func (r *Request) Check(armored string, num uint64, hasNum, failed bool, out string) error {
	switch {
	case r.IsErr:
		if !failed || armored != "" {
			return fmt.Errorf("%s did not fail:\n%s", r.Desc, out)
		}
	case failed:
		return fmt.Errorf("%s failed:\n%s", r.Desc, out)
	case r.Print != "":
		el, err := openpgp.ReadArmoredKeyRing(strings.NewReader(armored))
		if err != nil || len(el) != 1 {
			return fmt.Errorf("%s yields no key (%v):\n%s", r.Desc, err, out)
		}
		if p := gen.Print(el[0]); p != r.Print {
			return fmt.Errorf("%s yields the key %s instead of %s", r.Desc, p, r.Print)
		}
	default:
		if !hasNum || num != r.Num {
			return fmt.Errorf("%s yields %d instead of %d:\n%s", r.Desc, num, r.Num, out)
		}
	}
	return nil
}

// KeyRequest asks for the key of an email.
func KeyRequest(s *hx.Stream, es []*Entry, scheme string) *Request {
	id := ""
	if s.Intn(4) == 0 {
		id = []string{"nobody@x.org", "x", es[s.Intn(len(es))].Email + "x", es[s.Intn(len(es))].Email[1:], "other0@x.org"}[s.Intn(5)]
	} else {
		id = es[s.Intn(len(es))].Email
		if s.Intn(4) == 0 {
			for _, e := range es {
				if len(e.Email) > len(id) {
					id = e.Email
				}
			}
		}
	}
	return KeyOf(s, id, es, scheme)
}

// KeyOf asks for the key of this email.
func KeyOf(s *hx.Stream, id string, es []*Entry, scheme string) *Request {
	r := &Request{Path: "/retrieve", IsErr: true}
	for _, e := range es {
		if e.Email == id {
			r.IsErr, r.Print = false, e.Print
		}
	}
	r.Desc = fmt.Sprintf("%s: the key of %q (absent=%v)", scheme, id, r.IsErr)
	r.Args = []string{"-scheme", scheme, "-id", id}
	if s.Intn(4) == 0 { // the program asks for the email
		r.Args, r.Stdin = r.Args[:2], id+"\n"
	}
	if s.Intn(4) == 0 {
		r.Args = append(r.Args, "-experiment", "-cores", fmt.Sprint(1+s.Intn(5)))
	}
	r.Menu = []string{"Download", askEmail, id, askAction}
	r.Op = e2e.Op{Kind: "key", ID: id, Seed: s.U64()}
	r.Form = url.Values{"email": {id}}
	return r
}

// StatRequest asks for a statistic.
func StatRequest(s *hx.Stream, es []*Entry, scheme string) *Request {
	r := &Request{}
	args := []string{"-scheme", scheme}
	var q *query.ClientFSS
	var match func(*Entry) bool
	ref := es[s.Intn(len(es))].Email
	avg := false
	kind := s.Intn(6)
	part := func(info *query.Info) func(*Entry) bool {
		l := 1 + s.Intn(len(ref))
		if s.Intn(2) == 0 {
			l = 1 + s.Intn(3)
		}
		if s.Intn(2) == 0 {
			info.FromStart = l
			args = append(args, "-from-start", fmt.Sprint(l))
			r.Form = url.Values{"position": {"begin"}, "text": {ref[:l]}}
			r.Menu = []string{"begin", askText, ref[:l], result}
			return func(e *Entry) bool { return strings.HasPrefix(e.Email, ref[:l]) }
		}
		info.FromEnd = l
		args = append(args, "-from-end", fmt.Sprint(l))
		suf := ref[len(ref)-l:]
		r.Form = url.Values{"position": {"end"}, "text": {suf}}
		r.Menu = []string{"end", askText, suf, result}
		return func(e *Entry) bool { return strings.HasSuffix(e.Email, suf) }
	}
	switch kind {
	case 0, 1:
		info := &query.Info{Target: query.UserId}
		args = append(args, "-target", "email")
		if s.Intn(4) == 0 {
			if s.Intn(3) == 0 {
				ref = "nobody"
			}
			match = func(e *Entry) bool { return e.Email == ref }
		} else {
			match = part(info)
			r.Path = "/count/email"
			r.Menu = append([]string{"stats", askStat, "Count", askWhat, "email", askPos}, r.Menu...)
		}
		args = append(args, "-id", ref)
		q = info.ToEmailClientFSS(ref)
	case 2:
		info := &query.Info{Target: query.PubKeyAlgo}
		names := map[string]packet.PublicKeyAlgorithm{"RSA": 1, "ElGamal": 16, "DSA": 17, "ECDH": 18, "ECDSA": 19}
		nm := []string{"RSA", "ElGamal", "DSA", "ECDH", "ECDSA", "ECDSA"}[s.Intn(6)]
		args = append(args, "-target", "algo", "-id", nm)
		match = func(e *Entry) bool { return e.Algo == names[nm] }
		q = info.ToPKAClientFSS(nm)
		r.Form, r.Path = url.Values{"algo": {nm}}, "/count/algo"
		r.Menu = []string{"stats", askStat, "Count", askWhat, "algo", askAlgo, nm, result}
	case 3:
		info := &query.Info{Target: query.CreationTime}
		y := 2008 + s.Intn(13)
		args = append(args, "-target", "creation", "-id", fmt.Sprint(y))
		match = func(e *Entry) bool { return e.Created.Equal(time.Date(y, 0, 0, 0, 0, 0, 0, time.UTC)) }
		q = info.ToCreationTimeClientFSS(fmt.Sprint(y))
		r.Form, r.Path = url.Values{"year": {fmt.Sprint(y)}}, "/count/timestamp"
		r.Menu = []string{"stats", askStat, "Count", askWhat, "creation", askYear, fmt.Sprint(y), result}
	case 4: // the client matches the whole text as a suffix
		ref = ref[s.Intn(len(ref)):]
		info := &query.Info{And: true, FromEnd: len(ref)}
		args = append(args, "-and", "-id", ref)
		match = func(e *Entry) bool { return e.Created.UTC().Year() == 2018 && strings.HasSuffix(e.Email, ref) }
		q = info.ToAndClientFSS(ref)
	case 5:
		avg = true
		info := &query.Info{And: true, Avg: true}
		if s.Intn(5) == 0 {
			ref = "nobody@nowhere"
		}
		args = append(args, "-and", "-avg", "-id", ref)
		match = part(info)
		r.Menu = append([]string{"stats", askStat, "average", askPos}, r.Menu...)
		q = info.ToAvgClientFSS(ref)
	}
	var n, sum uint64
	for _, e := range es {
		if match(e) {
			n++
			sum += uint64(time.Now().UTC().Year() - e.Created.UTC().Year())
		}
	}
	r.Num = n
	if avg {
		if n == 0 {
			r.IsErr = true
		} else {
			r.Num = sum / n
		}
	}
	r.Args = args
	r.Desc = strings.Join(args, " ")
	r.Op = e2e.Stat(q, scheme, s.U64())
	return r
}

var deployNo int

// Directories writes the keys for every server, in files of its own choice.
func Directories(s *hx.Stream, es []*Entry, servers int) []string {
	deployNo++
	d := &gen.Dir{}
	for _, e := range es {
		d.Keys = append(d.Keys, e.Key)
	}
	var out []string
	for i := 0; i < servers; i++ {
		p := filepath.Join(hx.WorkDir(), fmt.Sprintf("keys%d-%d", deployNo, i))
		perm := rand.New(rand.NewSource(int64(s.U64()))).Perm(len(es))
		d.Files(p, perm, 1+s.Intn(3))
		out = append(out, p)
	}
	return out
}

// ByProgram makes the request with the client program.
func ByProgram(bin, conf string, r *Request) error {
	res := e2e.RunIn(bin, conf, r.Stdin, r.Args...)
	if res.Hung {
		return fmt.Errorf("%s was not answered within 120 s:\n%s", r.Desc, res.Out)
	}
	n, ok := res.Number()
	return r.Check(res.Armored(), n, ok, res.Exit != 0, "client: "+Clip(res.Out))
}

// Clip shortens a log.
func Clip(s string) string {
	if len(s) > 1500 {
		s = s[:700] + " ... " + s[len(s)-700:]
	}
	return s
}
