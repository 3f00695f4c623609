package c29

import (
	"bytes"
	"fmt"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"aaverif/deploy"
	"aaverif/e2e"
	"aaverif/gen"
	"aaverif/hx"

	"github.com/nikirill/go-crypto/openpgp/packet"
)

func TestMain(m *testing.M) {
	e2e.HelperMain()
	hx.Main(m, hx.Meta{ID: "C29",
		Rule: "web front ends, built with the race detector, in front of real servers over random key directories, that get requests with missing, empty, repeated, unknown, binary, very long and badly encoded parameters, of other methods, types and paths, broken HTTP and aborted connections, one after the other and concurrently with requests whose result is known; and front ends whose servers hold different databases; non-trivial when a malformed request was refused",
		Assumptions: []string{"the loopback network is available", "the built-in certificates are valid",
			"texts have at most 4 kB", "servers stay reachable"}})
}

func TestProps(t *testing.T) {
	hx.NoHang()
	e2e.CheckCertificates()
	hx.Each(t, "malformed", hx.N(3, 30), malformed)
	hx.Each(t, "disagreeing", hx.N(2, 10), disagreeing)
}

// shot is a request and what may come back.
type shot struct {
	desc string
	do   func(w *deploy.Web) (status int, body string, err error)
	// refuse: the answer has to be an error
	refuse bool
	// count is the only number that may come back, if not negative
	count int64
	// page is what has to come back, or has to be part of it
	page  []string
	whole bool
	// free: anything but the end of the front end
	free bool
}

func post(path, body, typ string) func(*deploy.Web) (int, string, error) {
	return with("POST", path, body, typ, nil)
}

func with(method, path, body, typ string, head map[string]string) func(*deploy.Web) (int, string, error) {
	return func(w *deploy.Web) (int, string, error) {
		req, err := http.NewRequest(method, w.Base+path, strings.NewReader(body))
		if err != nil {
			return 0, "", nil // cannot be sent
		}
		if typ != "" {
			req.Header.Set("Content-Type", typ)
		}
		for k, v := range head {
			req.Header.Set(k, v)
		}
		return w.Send(req)
	}
}

const form = "application/x-www-form-urlencoded"

// weird are texts that a person or an attacker may enter.
func weird(s *hx.Stream) string {
	switch s.Intn(9) {
	case 0:
		return string(s.Bytes(1 + s.Intn(40)))
	case 1:
		return strings.Repeat("x", 1+s.Intn(4000))
	case 2:
		return strings.Repeat("é@", 1+s.Intn(60))
	case 3:
		return []string{" ", "\x00", "\n", "\r\n", "%", "%s%n%d", "../../../etc/passwd", "' OR 1=1 --", "<script>", "-1", "0", "\xff\xfe", "@", "{{.}}"}[s.Intn(14)]
	case 4:
		return gen.Word(s, 1+s.Intn(10), 3)
	case 5:
		return fmt.Sprint(int64(s.U64()))
	case 6:
		return fmt.Sprint(s.Intn(100000) - 50000)
	case 7:
		return []string{"99999999999999999999999", "-9223372036854775808", "9223372036854775807", "1e3", "0x7e2", "20 18", " 2018", "2018.0", "٢٠١٨", "NaN", "+", "-", "+2018", "02018"}[s.Intn(14)]
	default:
		return []string{"RSA", "rsa", "ed25519", "EdDSA", "begin", "end", "Begin", "middle"}[s.Intn(8)]
	}
}

// near is a text that is close to one of the given ones but none of them.
func near(s *hx.Stream, words ...string) string {
	w := words[s.Intn(len(words))]
	for {
		x := w
		i := s.Intn(len(x) + 1)
		j := i + s.Intn(len(x)-i+1)
		switch s.Intn(9) {
		case 0, 1: // a part
			x = x[i:j]
		case 2, 3: // the end or the beginning
			if x = x[i:]; s.Intn(2) == 0 {
				x = w[:i]
			}
		case 4:
			x = strings.Join(words, []string{"", " ", ",", "|", "&"}[s.Intn(5)])
		case 5:
			x = []string{strings.ToUpper(x), strings.Title(x), " " + x, x + " ", x + "\n", x + "\x00"}[s.Intn(6)]
		case 6: // something inside
			x = x[:i] + []string{"x", ".", "0", "-", "é"}[s.Intn(5)] + x[i:]
		case 7: // repeated
			x += x
		default: // a part is gone
			x = x[:i] + x[j:]
		}
		same := x == ""
		for _, v := range words {
			same = same || x == v
		}
		if !same {
			return x
		}
	}
}

func shots(s *hx.Stream, es []*deploy.Entry) *shot {
	enc := func(v url.Values) string { return v.Encode() }
	count := func(f func(*deploy.Entry) bool) int64 {
		var n int64
		for _, e := range es {
			if f(e) {
				n++
			}
		}
		return n
	}
	paths := []string{"/retrieve", "/count/email", "/count/algo", "/count/timestamp"}
	good := map[string]url.Values{
		"/retrieve":        {"email": {es[0].Email}},
		"/count/email":     {"position": {"begin"}, "text": {es[0].Email[:1]}},
		"/count/algo":      {"algo": {"RSA"}},
		"/count/timestamp": {"year": {"2018"}},
	}
	switch k := s.Intn(16); k {
	case 0, 1: // a parameter is missing or empty
		p := paths[s.Intn(4)]
		v := url.Values{}
		for n, x := range good[p] {
			v[n] = x
		}
		for _, n := range []string{"email", "algo", "year", []string{"position", "text"}[s.Intn(2)]} {
			if s.Intn(2) == 0 {
				v.Del(n)
			} else if _, ok := v[n]; ok {
				v[n] = []string{""}
			}
		}
		return &shot{desc: p + " without: " + enc(v), do: post(p, enc(v), form), refuse: true, count: -1}
	case 2: // parameters in the address are not those of the form
		p := paths[s.Intn(4)]
		m := []string{"GET", "HEAD", "PUT", "DELETE", "OPTIONS", "POST", "PATCH", "TRACE", "FOO"}[s.Intn(9)]
		return &shot{desc: m + " " + p, do: with(m, p+"?"+enc(good[p]), "", "", nil), free: true, count: -1}
	case 3: // another type
		p := paths[s.Intn(4)]
		typ := []string{"", "text/plain", "application/json", "multipart/form-data; boundary=x", "multipart/form-data", ";;;", "application/x-www-form-urlencoded; charset=\"", strings.Repeat("a", 5000)}[s.Intn(8)]
		body := []string{enc(good[p]), `{"year": 2018}`, "--x\r\nContent-Disposition: form-data; name=\"year\"\r\n\r\n2018\r\n--x--", "--x"}[s.Intn(4)]
		return &shot{desc: p + " of type " + strconv.Quote(typ), do: post(p, body, typ), free: true, count: -1}
	case 4: // bad encoding
		p := paths[s.Intn(4)]
		n := []string{"email", "position", "algo", "year"}[s.Intn(4)]
		body := n + "=" + []string{"%", "%zz", "%u1234", ";", "a;b", "%0"}[s.Intn(6)]
		return &shot{desc: p + " with " + body, do: post(p, body, form), refuse: true, count: -1}
	case 5, 14, 15: // a year that is none
		y := weird(s)
		if k > 5 {
			n := 2008 + s.Intn(12)
			y = fmt.Sprintf([]string{"0x%x", "0X%X", "0b%b", "0o%o", "0%o", "%d.0", "%de0", "%d.", "2_%03[2]d", "%d_0", "%d\n", "\t%d", "%d\u00a0", "%di", "%dn", "%[1]d,%[1]d", "inf", "NaN", "\uff12\uff10\uff11\uff18", "1e3", "0x1p3", "'%d'", "\"%d\"", "+-%d", "--%d", "%d-01-01"}[s.Intn(26)], n, n%1000)
			if p := strings.Index(y, "%!(EXTRA"); p > 0 {
				y = y[:p]
			}
			if y == "" {
				y = "x"
			}
		}
		if k == 5 && s.Intn(3) == 0 {
			y = near(s, fmt.Sprint(2008+s.Intn(12)))
		}
		sh := &shot{desc: fmt.Sprintf("year %q", y), do: post("/count/timestamp", enc(url.Values{"year": {y}}), form), refuse: true, count: -1}
		if n, err := strconv.Atoi(y); err == nil {
			sh.refuse, sh.count = false, count(func(e *deploy.Entry) bool {
				return e.Created.Equal(time.Date(n, 0, 0, 0, 0, 0, 0, time.UTC))
			})
		}
		return sh
	case 6:
		a := weird(s)
		if s.Intn(3) == 0 {
			a = near(s, "RSA", "ElGamal", "DSA", "ECDH", "ECDSA")
		}
		algos := map[string]packet.PublicKeyAlgorithm{"RSA": 1, "ElGamal": 16, "DSA": 17, "ECDH": 18, "ECDSA": 19}
		free := false
		for n := range algos { // another way of writing a name may be understood
			free = free || a != n && strings.EqualFold(strings.Trim(a, " \n\x00"), n)
		}
		return &shot{free: free, desc: fmt.Sprintf("algorithm %q", a), do: post("/count/algo", enc(url.Values{"algo": {a}}), form),
			count: count(func(e *deploy.Entry) bool { return algos[a] != 0 && e.Algo == algos[a] })}
	case 7:
		p := weird(s)
		if s.Intn(3) > 0 {
			p = near(s, "begin", "end")
		}
		if p == "begin" || p == "end" {
			p += " "
		}
		return &shot{desc: fmt.Sprintf("position %q", p), do: post("/count/email", enc(url.Values{"position": {p}, "text": {es[0].Email[:1]}}), form), refuse: true, count: -1}
	case 8, 9:
		x := weird(s)
		at := []string{"begin", "end"}[s.Intn(2)]
		return &shot{desc: fmt.Sprintf("text %q at the %s", clip(x), at), do: post("/count/email", enc(url.Values{"position": {at}, "text": {x}}), form),
			count: count(func(e *deploy.Entry) bool {
				if at == "begin" {
					return strings.HasPrefix(e.Email, x)
				}
				return strings.HasSuffix(e.Email, x)
			})}
	case 10:
		x := weird(s) + "?"
		return &shot{desc: fmt.Sprintf("email %q", clip(x)), do: with("POST", "/retrieve", enc(url.Values{"email": {x}}), form, map[string]string{"X-Request-Id": strings.Repeat("i", s.Intn(3000))}),
			count: -1, free: true}
	case 11: // other paths
		p := []string{"/", "/static/", "/static/../mod.go", "/..", "//", "/index.html", "/count", "/count/email/", "/retrieve/x", "/%2e%2e/%2e%2e/etc/passwd", "/static/%00", "/" + strings.Repeat("a", 3000)}[s.Intn(12)]
		switch q := p; {
		case s.Intn(3) == 0: // the page itself, and what it needs
			if sh := page([]string{"index.html", "static/style.css", "static/Inter.ttf"}[s.Intn(3)]); sh != nil {
				return sh
			}
		case q == "/index.html" || q == "/count" || q == "/count/email/" || q == "/retrieve/x" || strings.HasPrefix(q, "/aaa"):
			return &shot{desc: "GET " + clip(p), do: with("GET", p, "", "", nil), refuse: true, count: -1}
		}
		return &shot{desc: "path " + clip(p), do: with([]string{"GET", "POST"}[s.Intn(2)], p, "", "", nil), free: true, count: -1}
	case 12: // not HTTP, or not to its end
		b := [][]byte{s.Bytes(s.Intn(300)), []byte("GET / HTTP/1.1\r\n"), []byte("POST /count/timestamp HTTP/1.1\r\nHost: x\r\nContent-Type: " + form + "\r\nContent-Length: 100\r\n\r\nyear=20"),
			[]byte("POST /count/email HTTP/1.1\r\nHost: x\r\nContent-Length: -1\r\n\r\n"), []byte("POST /count/algo HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\nContent-Type: " + form + "\r\n\r\nzz\r\n")}[s.Intn(5)]
		return &shot{desc: fmt.Sprintf("raw %q", clip(string(b))), free: true, count: -1, do: func(w *deploy.Web) (int, string, error) {
			if c, err := net.DialTimeout("tcp", strings.TrimPrefix(w.Base, "http://"), 10*time.Second); err == nil {
				c.Write(b)
				c.Close()
			}
			return 0, "", nil
		}}
	default: // repeated parameters: the first or the last one counts
		y := 2008 + s.Intn(12)
		return &shot{desc: "repeated years", do: post("/count/timestamp", fmt.Sprintf("year=%d&year=%d&x=y", y, y), form),
			count: count(func(e *deploy.Entry) bool { return e.Created.Equal(time.Date(y, 0, 0, 0, 0, 0, 0, time.UTC)) })}
	}
}

var (
	comment = regexp.MustCompile(`(?s)<!--.*?-->`)
	ids     = regexp.MustCompile(`\bid="[^"{}]*"`)
)

// page asks for the page or for a file it needs: a file comes back as it is,
// rendering may leave comments out of the page but none of its elements.
func page(f string) *shot {
	b, err := os.ReadFile(filepath.Join(hx.RepoDir(), "cmd/grpc/client/web", f))
	if err != nil {
		return nil
	}
	p := "/" + strings.TrimPrefix(f, "index.html")
	sh := &shot{desc: "GET " + p, do: with("GET", p, "", "", nil), free: true, count: -1, page: []string{string(b)}, whole: true}
	if f == "index.html" {
		sh.whole, sh.page = false, ids.FindAllString(comment.ReplaceAllString(string(b), ""), -1)
		if bytes.Contains(b, []byte("{{")) {
			sh.page = []string{"<html"}
		}
	}
	return sh
}

func clip(x string) string {
	if len(x) > 60 {
		return x[:60] + "..."
	}
	return x
}

// judge compares what came back with what may.
func (sh *shot) judge(status int, body string) error {
	var num int64
	k, _ := fmt.Sscanf(body[strings.Index(body, "count:")+1:], "ount: %d", &num)
	has := strings.Contains(body, "count:") && k == 1
	if sh.refuse && (status < 400 || has || strings.Contains(body, "BEGIN PGP")) {
		return fmt.Errorf("%s: status %d instead of an error:\n%s", sh.desc, status, clip(body))
	}
	for _, x := range sh.page {
		if status != 200 || !strings.Contains(body, x) || sh.whole && len(body) != len(x) {
			return fmt.Errorf("%s: status %d and %d bytes, without %s:\n%s", sh.desc, status, len(body), clip(x), clip(body))
		}
	}
	if sh.free {
		return nil
	}
	if status >= 400 && has {
		return fmt.Errorf("%s: a number with the error %d:\n%s", sh.desc, status, body)
	}
	if status < 400 && sh.count >= 0 && (!has || num != sh.count) {
		return fmt.Errorf("%s: %q instead of %d", sh.desc, clip(body), sh.count)
	}
	return nil
}

func malformed(i int, c *hx.C) error {
	s := hx.NewStream(hx.Seed()*11000027 + uint64(i))
	bin := deploy.Configurable("cmd/grpc/client/web", "-race")
	if bin == "" {
		c.Case("the front end does not build with configurable addresses")
		c.Class("skipped")
		return nil
	}
	es := deploy.NewEntries(s, 3+s.Intn(30))
	server := e2e.Build("cmd/grpc/server", "-race")
	scheme := []string{"pointVPIR", "pointPIR"}[i%2]
	c.Case("%s, %d keys", scheme, len(es))
	pc, err := e2e.Start(server, scheme, deploy.Directories(s, es, 2))
	if err != nil {
		return err
	}
	defer pc.Stop()
	cc, err := e2e.Start(server, "complexVPIR", deploy.Directories(s, es, 2))
	if err != nil {
		return err
	}
	defer cc.Stop()
	w, err := deploy.StartWeb(bin, pc.Conf, cc.Conf)
	if err != nil {
		return err
	}
	defer w.Stop()
	fire := func(sh *shot) error {
		status, body, err := sh.do(w)
		if e := w.Check(); e != nil {
			return fmt.Errorf("after %s: %v", sh.desc, e)
		}
		if err != nil {
			if sh.free {
				return nil
			}
			return fmt.Errorf("%s: %v", sh.desc, err)
		}
		return sh.judge(status, body)
	}
	honest := func() error {
		r := deploy.KeyRequest(s, es, scheme)
		for s.Intn(2) == 0 || r.Path == "" {
			r = deploy.StatRequest(s, es, "complexVPIR")
			if r.Path != "" {
				break
			}
		}
		return w.Ask(r)
	}
	for k := 0; k < 45; k++ {
		sh := shots(s, es)
		if p := page([]string{"index.html", "static/style.css", "static/Inter.ttf"}[k%3]); k < 3 && p != nil {
			sh = p
		}
		c.More("| %s", sh.desc)
		c.NonTrivialIf(sh.refuse)
		if err := fire(sh); err != nil {
			return err
		}
		if k%9 == 0 {
			if err := honest(); err != nil {
				return err
			}
		}
	}
	// concurrently
	var mu sync.Mutex
	var first error
	var wg sync.WaitGroup
	for k := 0; k < 40; k++ {
		var f func() error
		if k%4 == 0 {
			r := deploy.KeyRequest(s, es, scheme)
			f = func() error { return w.Ask(r) }
		} else {
			sh := shots(s, es)
			f = func() error { return fire(sh) }
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := f()
			mu.Lock()
			defer mu.Unlock()
			if first == nil && err != nil {
				first = err
			}
		}()
	}
	wg.Wait()
	for _, f := range []func() error{w.Check, pc.Check, cc.Check} {
		if err := f(); err != nil {
			return err
		}
	}
	if first != nil {
		return first
	}
	return honest()
}

// disagreeing has servers that hold different keys, so that the front end must
// not answer anything.
func disagreeing(i int, c *hx.C) error {
	s := hx.NewStream(hx.Seed()*13000027 + uint64(i))
	bin := deploy.Configurable("cmd/grpc/client/web", "-race")
	if bin == "" {
		c.Case("the front end does not build with configurable addresses")
		c.Class("skipped")
		return nil
	}
	es := deploy.NewEntries(s, 3+s.Intn(30))
	server := e2e.Build("cmd/grpc/server", "-race")
	c.Case("%d keys", len(es))
	dirs := func(differ bool) []string {
		d := deploy.Directories(s, es, 2)
		if differ {
			o := es[:len(es)-1]
			if s.Intn(2) == 0 {
				o = append(append([]*deploy.Entry{}, es...), deploy.NewEntries(s, 1)...)
			}
			d[s.Intn(2)] = deploy.Directories(s, o, 1)[0]
		}
		return d
	}
	points := i%2 == 0
	pc, err := e2e.Start(server, "pointVPIR", dirs(points))
	if err != nil {
		return err
	}
	defer pc.Stop()
	cc, err := e2e.Start(server, "complexVPIR", dirs(!points))
	if err != nil {
		return err
	}
	defer cc.Stop()
	w, err := deploy.StartWeb(bin, pc.Conf, cc.Conf)
	if err != nil {
		return err
	}
	defer w.Stop()
	for k := 0; k < 12; k++ {
		r := deploy.KeyRequest(s, es, "pointVPIR")
		stat := k%2 == 1
		for stat && r.Path != []string{"/count/email", "/count/algo", "/count/timestamp"}[k%6/2] {
			r = deploy.StatRequest(s, es, "complexVPIR")
		}
		c.More("| %s", r.Desc)
		if stat == points {
			if err := w.Ask(r); err != nil {
				return err
			}
			continue
		}
		c.NonTrivialIf(true)
		sh := &shot{desc: r.Desc + " with servers that disagree", do: post(r.Path, r.Form.Encode(), form), refuse: true, count: -1}
		status, body, err := sh.do(w)
		if err != nil {
			return fmt.Errorf("%s: %v", sh.desc, err)
		}
		if err := sh.judge(status, body); err != nil {
			return err
		}
	}
	return w.Check()
}
