package c24

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"testing"

	"aaverif/deploy"
	"aaverif/e2e"
	"aaverif/hx"
)

func TestMain(m *testing.M) {
	e2e.HelperMain()
	hx.Main(m, hx.Meta{ID: "C24",
		Rule: "deployments of 2 to 5 server processes (2 for statistics) of every scheme, built with the race detector, over random key directories that each server has split into other files; requests for stored and absent emails and for statistics, one after the other through the client program and concurrently by several client programs and several processes using the client library with many routines each, mixed with aborted queries and with garbage, which the servers must refuse; a directory whose answers exceed 4 MB; the web front end likewise; non-trivial when requests are answered",
		Assumptions: []string{"the loopback network is available", "the built-in certificates are valid",
			"servers built with the race detector behave like those built without it"}})
}

func TestProps(t *testing.T) {
	hx.NoHang()
	e2e.CheckCertificates()
	hx.Each(t, "deployment", hx.N(12, 120), deployment)
	hx.Each(t, "web", hx.N(2, 10), web)
	hx.Each(t, "interactive", hx.N(2, 10), interactive)
}

func deployment(i int, c *hx.C) error {
	s := hx.NewStream(hx.Seed()*1000003 + uint64(i))
	scheme := []string{"pointVPIR", "complexVPIR", "pointPIR", "complexPIR"}[i%4]
	point := strings.HasPrefix(scheme, "point")
	servers := 2
	if point && i%8 >= 4 {
		servers = 2 + s.Intn(e2e.MaxServers-1)
	}
	n := []int{1, 2, 5, 12, 40, 80}[s.Intn(6)]
	if i < 4 {
		n = 25 + s.Intn(20)
	}
	es := deploy.NewEntries(s, n)
	large := i%8 == 4
	if large {
		servers = 2 + s.Intn(2)
		es = deploy.LargeEntries(s)
	}
	c.Case("%s with %d servers and %d keys", scheme, servers, len(es))
	c.Class(scheme, fmt.Sprintf("servers%d", servers))
	dirs := deploy.Directories(s, es, servers)
	defer func() {
		for _, d := range dirs {
			os.RemoveAll(d)
		}
	}()
	server := e2e.Build("cmd/grpc/server", "-race")
	bin := e2e.Build("cmd/grpc/client")
	experiment := s.Intn(3) == 0
	cores := s.Intn(8)
	cl, err := e2e.Start(server, scheme, dirs, func(k int) []string {
		if !experiment {
			return nil
		}
		return []string{"-experiment", "-cores", fmt.Sprint(1 + (cores+3*k)%9)}
	})
	if err != nil {
		return err
	}
	defer cl.Stop()
	req := func() *deploy.Request {
		if point {
			return deploy.KeyRequest(s, es, scheme)
		}
		return deploy.StatRequest(s, es, scheme)
	}
	// one after the other
	for k := 0; k < 3; k++ {
		r := req()
		c.More("| %s", r.Desc)
		if err := deploy.ByProgram(bin, cl.Conf, r); err != nil {
			return err
		}
		c.NonTrivialIf(!r.IsErr && (r.Print != "" || r.Num > 0))
	}
	if large {
		c.Class("large")
		r := deploy.KeyOf(s, es[0].Email, es, scheme)
		if err := deploy.ByProgram(bin, cl.Conf, r); err != nil {
			return err
		}
	}
	// concurrently
	var mu sync.Mutex
	var first error
	var wg sync.WaitGroup
	note := func(err error) {
		mu.Lock()
		defer mu.Unlock()
		if first == nil && err != nil {
			first = err
		}
	}
	for k := 0; k < 3; k++ {
		r := req()
		wg.Add(1)
		go func() {
			defer wg.Done()
			note(deploy.ByProgram(bin, cl.Conf, r))
		}()
	}
	for k := 0; k < 2; k++ {
		job := &e2e.Job{Conf: cl.Conf, Gzip: s.Intn(3) > 0, Parallel: 1 + s.Intn(24)}
		var rs []*deploy.Request
		for m := 0; m < 20; m++ {
			if s.Intn(6) == 0 {
				op := e2e.Op{Kind: []string{"garbage", "abort"}[s.Intn(2)], Seed: s.U64()}
				for v := 0; v < servers; v++ {
					op.Queries = append(op.Queries, s.Bytes(s.Intn(200)))
				}
				job.Ops = append(job.Ops, op)
				rs = append(rs, nil)
				continue
			}
			r := req()
			job.Ops = append(job.Ops, r.Op)
			rs = append(rs, r)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			res := job.Do()
			if res.Hung || res.Exit != 0 {
				note(fmt.Errorf("the client library ended (exit %d, hung %v):\n%s", res.Exit, res.Hung, res.Log))
				return
			}
			for m, o := range res.Ops {
				if rs[m] != nil {
					armored := o.Out
					note(rs[m].Check(armored, uint64(o.Number), true, o.Err != "", "library: "+o.Err))
				} else if op := job.Ops[m]; !point && op.Kind == "garbage" && int(o.Number) != servers {
					note(fmt.Errorf("only %d of %d servers refuse queries that do not decode (%x)", o.Number, servers, op.Queries))
				}
			}
		}()
	}
	wg.Wait()
	if err := cl.Check(); err != nil {
		return err
	}
	if first != nil {
		return first
	}
	// and again afterwards
	r := req()
	if err := deploy.ByProgram(bin, cl.Conf, r); err != nil {
		return err
	}
	return cl.Check()
}

// fronts starts servers of both kinds for a front end.
func fronts(s *hx.Stream, c *hx.C, es []*deploy.Entry) (scheme string, pc, cc *e2e.Cluster, err error) {
	server := e2e.Build("cmd/grpc/server", "-race")
	servers := 2 + s.Intn(2)
	c.Case("%d keys, %d point servers", len(es), servers)
	scheme = []string{"pointVPIR", "pointPIR"}[s.Intn(2)]
	if pc, err = e2e.Start(server, scheme, deploy.Directories(s, es, servers)); err != nil {
		return
	}
	if cc, err = e2e.Start(server, "complexVPIR", deploy.Directories(s, es, 2)); err != nil {
		pc.Stop()
	}
	return
}

// either is a request for a key or a statistic that front ends offer.
func either(s *hx.Stream, es []*deploy.Entry, scheme string, ok func(*deploy.Request) bool) *deploy.Request {
	for {
		r := deploy.KeyRequest(s, es, scheme)
		if s.Intn(2) == 0 {
			r = deploy.StatRequest(s, es, "complexVPIR")
		}
		if ok(r) {
			return r
		}
	}
}

// kinds are parts of the menus of all the kinds of requests in random order,
// those that the web front end does not offer at the end.
func kinds(s *hx.Stream) []string {
	out := []string{"Download", "email|Select the kind of query|begin", "email|Select the kind of query|end", "algo|", "creation|",
		"average|Select the kind of query|begin", "average|Select the kind of query|end"}
	for _, r := range [][2]int{{0, 5}, {5, 7}} {
		for i := r[1] - 1; i > r[0]; i-- {
			j := r[0] + s.Intn(i-r[0]+1)
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

// web checks the web front end with its addresses taken from configurations.
func web(i int, c *hx.C) error {
	s := hx.NewStream(hx.Seed()*7000003 + uint64(i))
	bin := deploy.Configurable("cmd/grpc/client/web", "-race")
	if bin == "" {
		c.Case("the front end does not build with configurable addresses")
		c.Class("skipped")
		return nil
	}
	es := deploy.NewEntries(s, 3+s.Intn(30))
	if i%4 == 1 {
		es = deploy.LargeEntries(s)
	}
	scheme, pc, cc, err := fronts(s, c, es)
	if err != nil {
		return err
	}
	defer pc.Stop()
	defer cc.Stop()
	w, err := deploy.StartWeb(bin, pc.Conf, cc.Conf)
	if err != nil {
		return err
	}
	defer w.Stop()
	var mu sync.Mutex
	var first error
	var wg sync.WaitGroup
	wanted := kinds(s)[:5]
	for k := 0; k < 24; k++ {
		r := either(s, es, scheme, func(r *deploy.Request) bool {
			return r.Path != "" && (k >= len(wanted) || strings.Contains(strings.Join(r.Menu, "|"), wanted[k]))
		})
		c.More("| %s", r.Desc)
		c.NonTrivialIf(!r.IsErr)
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := w.Ask(r)
			mu.Lock()
			defer mu.Unlock()
			if first == nil && err != nil {
				first = err
			}
		}()
	}
	wg.Wait()
	for _, f := range []func() error{w.Check, pc.Check, cc.Check} {
		if err := f(); err != nil {
			return err
		}
	}
	return first
}

// interactive checks the interactive program on a terminal.
func interactive(i int, c *hx.C) error {
	s := hx.NewStream(hx.Seed()*9000011 + uint64(i))
	bin := deploy.Configurable("cmd/grpc/client/interactive", "-race")
	if bin == "" {
		c.Case("the interactive program does not build with configurable addresses")
		c.Class("skipped")
		return nil
	}
	es := deploy.NewEntries(s, 3+s.Intn(30))
	scheme, pc, cc, err := fronts(s, c, es)
	if err != nil {
		return err
	}
	defer pc.Stop()
	defer cc.Stop()
	var m *deploy.Menu
	defer func() {
		if m != nil {
			m.Stop()
		}
	}()
	wanted := kinds(s)
	var session []*deploy.Request // what the running program was asked
	for k := 0; k < len(wanted)+2; k++ {
		if m != nil && m.Exited() {
			m.Stop()
			m = nil
		}
		if m == nil {
			session = nil
			if m, err = deploy.StartMenu(bin, pc.Conf, cc.Conf); err != nil {
				return err
			}
			if m == nil {
				c.Class("skipped")
				return nil
			}
		}
		r := either(s, es, scheme, func(r *deploy.Request) bool {
			return len(r.Menu) > 0 && (k >= len(wanted) || strings.Contains(strings.Join(r.Menu, "|"), wanted[k]))
		})
		c.More("| %s", r.Desc)
		c.NonTrivialIf(!r.IsErr)
		session = append(session, r)
		err := m.Ask(r)
		if err == nil || strings.Contains(err.Error(), "DATA RACE") {
			if err != nil {
				return err
			}
			continue
		}
		// a key that was typed too early may have been lost: the same session
		// must fail again
		m.Stop()
		if m, err = deploy.StartMenu(bin, pc.Conf, cc.Conf); err != nil {
			return err
		}
		c.Class("repeated")
		for _, r := range session {
			if err = m.Ask(r); err != nil {
				return err
			}
		}
	}
	for _, f := range []func() error{pc.Check, cc.Check} {
		if err := f(); err != nil {
			return err
		}
	}
	return nil
}
