package gen

import (
	"fmt"
	"strings"
	"time"

	"aaverif/hx"

	"github.com/nikirill/go-crypto/openpgp/packet"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/query"
	"golang.org/x/crypto/blake2b"
	"pgregory.net/rapid"
)

// Algos are public-key algorithms of keys and queries.
var Algos = []packet.PublicKeyAlgorithm{1, 2, 3, 16, 17, 18, 19, 22, 0, 255, 200}

// KeysDB draws a key database with emails that share prefixes and suffixes.
func KeysDB(t *rapid.T, s *hx.Stream, maxKeys int) *database.DB {
	n := hx.Size(t, "keys", 0, maxKeys, 0, 1, 2)
	alpha := rapid.SampledFrom([]int{1, 2, 4, 26}).Draw(t, "alphabet")
	maxLen := rapid.SampledFrom([]int{0, 1, 3, 8, 20, 33, 50, 50, 300}).Draw(t, "maxlen")
	years := rapid.SampledFrom([]int{1, 2, 30}).Draw(t, "years")
	info := database.Info{NumColumns: n}
	db := database.NewKeysDB(info)
	var emails []string
	for i := 0; i < n; i++ {
		var e string
		switch s.Intn(4) {
		case 0:
			if len(emails) > 0 { // a relative of an earlier email
				o := emails[s.Intn(len(emails))]
				switch s.Intn(6) {
				case 4: // differs in what tolerant comparisons ignore
					e = []string{" " + o, o + " ", "\t" + o, o + "\n", "<" + o + ">", o + ".", "." + o, "\ufeff" + o, o + "\x00", o + "\xff"}[s.Intn(10)]
				case 5:
					if u := strings.ToUpper(o); u != o {
						e = u
					} else if len(o) > 0 {
						e = strings.ToUpper(o[:1]) + o[1:]
					}
				case 0:
					e = o
				case 1:
					e = Word(s, 2, alpha) + o
				case 2:
					e = o + Word(s, 2, alpha)
				case 3:
					if len(o) > 0 {
						e = o[:len(o)-1]
					}
				}
				break
			}
			fallthrough
		default:
			e = Word(s, maxLen, alpha)
			if s.Intn(3) == 0 {
				e += []string{"@epfl.ch", "@mit.edu", ".edu", "\x00", "é", " ", "\xe9", "@EPFL.ch"}[s.Intn(8)]
			}
		}
		emails = append(emails, e)
		ct := time.Date(2019-s.Intn(years), time.Month(1+s.Intn(12)), 1+s.Intn(28), s.Intn(24), s.Intn(60), s.Intn(60), 0, time.UTC)
		switch s.Intn(12) {
		case 0: // malformed keys are created in the future
			ct = time.Date(2040+s.Intn(80), 1, 2, 3, 4, 5, 0, time.UTC)
		case 1: // the instant that a query for a year stands for
			ct = time.Date(2000+s.Intn(20), 0, 0, 0, 0, 0, 0, time.UTC)
		case 2: // ends of years
			ct = time.Date(2018+s.Intn(3), 12, 31, 23, 59, 59, 999999999*s.Intn(2), time.UTC)
		case 3:
			ct = time.Date(2018+s.Intn(3), 1, 1, 0, 0, 0, 0, time.UTC)
		case 4:
			if i > 0 {
				ct = db.KeysInfo[s.Intn(i)].CreationTime
			}
		case 5:
			ct = time.Date(1970+s.Intn(60), 7, 1, 0, 0, 0, 0, time.UTC)
		}
		db.KeysInfo = append(db.KeysInfo, &database.KeyInfo{
			UserId:       &packet.UserId{Id: e, Email: e},
			CreationTime: ct,
			PubKeyAlgo:   Algos[s.Intn(len(Algos))],
			BitLength:    uint16(s.Intn(1 << 16)),
		})
	}
	return db
}

// Copies gives each of n servers its own copy of the database, with the
// creation times told in the time zone of that server.
func Copies(t *rapid.T, db *database.DB, n int) []*database.DB {
	out := make([]*database.DB, n)
	for i := range out {
		h := rapid.SampledFrom([]int{0, 0, 0, 14, 2, -5, -11}).Draw(t, "zone")
		if h == 0 {
			out[i] = db
			continue
		}
		z := time.FixedZone("z", 3600*h)
		d := *db
		d.KeysInfo = nil
		for _, k := range db.KeysInfo {
			c := *k
			c.CreationTime = k.CreationTime.In(z)
			d.KeysInfo = append(d.KeysInfo, &c)
		}
		out[i] = &d
	}
	return out
}

// Word draws a word of up to n letters.
func Word(s *hx.Stream, n, alpha int) string {
	b := make([]byte, s.Intn(n+1))
	for i := range b {
		b[i] = byte('a' + s.Intn(alpha))
	}
	return string(b)
}

// Pred is a predicate query with its meaning in the clear.
type Pred struct {
	Q     *query.ClientFSS
	Match func(*database.KeyInfo) bool
	Avg   bool
	Desc  string
	Kind  string
}

func part(t *rapid.T, s *hx.Stream, db *database.DB, info *query.Info, label string, wholeOK bool) (string, func(string) bool, string) {
	n := len(db.KeysInfo)
	ref := Word(s, 12, 26)
	if n > 0 && rapid.IntRange(0, 4).Draw(t, label+".src") > 0 {
		ref = db.KeysInfo[rapid.IntRange(0, n-1).Draw(t, label+".key")].UserId.Email
	}
	k := rapid.IntRange(0, 2).Draw(t, label+".part")
	if !wholeOK && k == 0 {
		k = 1
	}
	if k != 0 && len(ref) == 0 {
		ref = "x"
	}
	switch k {
	case 0:
		return ref, func(e string) bool { return e == ref }, fmt.Sprintf("email %q", ref)
	case 1:
		l := hx.Size(t, label+".len", 1, len(ref), 1, 32, len(ref))
		info.FromStart = l
		if rapid.IntRange(0, 3).Draw(t, label+".both") == 0 {
			info.FromEnd = rapid.IntRange(0, 5).Draw(t, label+".ignored") // FromStart prevails
		}
		return ref, func(e string) bool { return strings.HasPrefix(e, ref[:l]) }, fmt.Sprintf("prefix %q", ref[:l])
	default:
		l := hx.Size(t, label+".len", 1, len(ref), 1, 32, len(ref))
		info.FromEnd = l
		suf := ref[len(ref)-l:]
		return ref, func(e string) bool { return strings.HasSuffix(e, suf) }, fmt.Sprintf("suffix %q", suf)
	}
}

// NewPred draws a predicate query. Inputs are taken from the database mostly,
// so that they match something.
func NewPred(t *rapid.T, s *hx.Stream, db *database.DB, label string) *Pred {
	n := len(db.KeysInfo)
	info := &query.Info{}
	p := &Pred{}
	kind := rapid.IntRange(0, 7).Draw(t, label+".kind")
	switch kind {
	case 0, 1, 2: // email
		info.Target = query.UserId
		in, m, d := part(t, s, db, info, label, true)
		p.Q = info.ToEmailClientFSS(in)
		p.Match = func(k *database.KeyInfo) bool { return m(k.UserId.Email) }
		p.Kind, p.Desc = "email", d
	case 3: // algorithm
		info.Target = query.PubKeyAlgo
		var a packet.PublicKeyAlgorithm
		if rapid.Bool().Draw(t, label+".name") {
			names := map[string]packet.PublicKeyAlgorithm{"RSA": 1, "ElGamal": 16, "DSA": 17, "ECDH": 18, "ECDSA": 19}
			nm := rapid.SampledFrom([]string{"RSA", "ElGamal", "DSA", "ECDH", "ECDSA"}).Draw(t, label+".algo")
			a = names[nm]
			p.Q = info.ToPKAClientFSS(nm)
		} else {
			a = rapid.SampledFrom(Algos).Draw(t, label+".algo#")
			p.Q = &query.ClientFSS{Info: info, Input: info.IdForPubKeyAlgo(a)}
		}
		p.Match = func(k *database.KeyInfo) bool { return k.PubKeyAlgo == a }
		p.Kind, p.Desc = "algo", fmt.Sprintf("algorithm %d", a)
	case 4: // creation time
		info.Target = query.CreationTime
		var ct time.Time
		if n == 0 || rapid.Bool().Draw(t, label+".year") {
			y := rapid.IntRange(1999, 2021).Draw(t, label+".y")
			ct = time.Date(y, 0, 0, 0, 0, 0, 0, time.UTC)
			p.Q = info.ToCreationTimeClientFSS(fmt.Sprint(y))
		} else {
			ct = db.KeysInfo[rapid.IntRange(0, n-1).Draw(t, label+".key")].CreationTime
			if rapid.IntRange(0, 3).Draw(t, label+".off") == 0 {
				ct = ct.Add(time.Second)
			}
			// the same instant, told in another zone
			z := ct.In(time.FixedZone("z", 3600*rapid.SampledFrom([]int{0, 0, 2, -5}).Draw(t, label+".zone")))
			id, err := info.IdForCreationTime(z)
			if err != nil {
				t.Fatalf("%v", err)
			}
			p.Q = &query.ClientFSS{Info: info, Input: id}
		}
		p.Match = func(k *database.KeyInfo) bool { return k.CreationTime.Equal(ct) }
		p.Kind, p.Desc = "time", fmt.Sprintf("time %v", ct)
	case 5: // creation year and email
		info.And = true
		info.Targets = []query.Target{query.CreationTime, query.UserId}
		in, m, d := part(t, s, db, info, label, rapid.IntRange(0, 3).Draw(t, label+".whole") == 0)
		y := 2018 // what ToAndClientFSS asks for: time.Date(2019, 0, 0, ...)
		if rapid.Bool().Draw(t, label+".y") {
			p.Q = info.ToAndClientFSS(in)
		} else {
			y = rapid.SampledFrom([]int{2017, 2018, 2019, 2020}).Draw(t, label+".year")
			if n > 0 && rapid.Bool().Draw(t, label+".ydb") {
				y = db.KeysInfo[rapid.IntRange(0, n-1).Draw(t, label+".ykey")].CreationTime.Year()
			}
			id, err := info.IdForYearCreationTime(time.Date(y, 6, 6, 0, 0, 0, 0, time.UTC))
			if err != nil {
				t.Fatalf("%v", err)
			}
			e, _ := info.IdForEmail(in)
			p.Q = &query.ClientFSS{Info: info, Input: append(id, e...)}
		}
		p.Match = func(k *database.KeyInfo) bool { return k.CreationTime.UTC().Year() == y && m(k.UserId.Email) }
		p.Kind, p.Desc = "and", fmt.Sprintf("year %d and %s", y, d)
	default:
		info.And, info.Avg = true, true
		in, m, d := part(t, s, db, info, label, rapid.IntRange(0, 3).Draw(t, label+".whole") == 0)
		p.Q = info.ToAvgClientFSS(in)
		p.Match = func(k *database.KeyInfo) bool { return m(k.UserId.Email) }
		p.Avg = true
		p.Kind, p.Desc = "avg", "average of "+d
	}
	return p
}

// Plain evaluates the predicate in the clear: the number of matches, and for
// averages the number of those not created in the future and their summed age.
func (p *Pred) Plain(db *database.DB, year int) (count, sum uint64) {
	for _, k := range db.KeysInfo {
		if !p.Match(k) {
			continue
		}
		if p.Avg {
			age := year - k.CreationTime.UTC().Year()
			if age < 0 {
				continue
			}
			sum += uint64(age)
		}
		count++
	}
	return
}

// WholeID is the reference identifier of a whole email.
func WholeID(email string) []bool {
	h := blake2b.Sum256([]byte(email))
	var out []bool
	for _, b := range h[:16] {
		for j := 7; j >= 0; j-- {
			out = append(out, b>>uint(j)&1 == 1)
		}
	}
	return out
}

// SomeUser is a user whose email is in the database or shares a part with one.
func SomeUser(s *hx.Stream, db *database.DB) *packet.UserId {
	e := Word(s, 9, 3)
	if n := len(db.KeysInfo); n > 0 {
		e = db.KeysInfo[s.Intn(n)].UserId.Email
		switch s.Intn(3) {
		case 0:
			e = Word(s, 3, 3) + e
		case 1:
			e += Word(s, 3, 3)
		}
	}
	return &packet.UserId{Id: e, Email: e}
}
