package c30

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"aaverif/deploy"
	"aaverif/e2e"
	"aaverif/hx"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/utils"
	"google.golang.org/grpc"
	"google.golang.org/grpc/encoding/gzip"
)

func TestMain(m *testing.M) {
	hx.Main(m, hx.Meta{ID: "C30",
		Rule: "server processes of every scheme, built with the race detector, over random key directories, that are told to stop (by either signal, or by the request of the experiments) while queries are pending that they have accepted, while clients keep sending more, and while clients give up; non-trivial when more queries are pending than the server keeps in its queue",
		Assumptions: []string{"the loopback network is available", "the built-in certificates are valid",
			"a server has accepted a query when it has answered a later request on the same connection",
			"a server that was told to stop ends within two minutes"}})
}

func TestProps(t *testing.T) {
	hx.NoHang()
	e2e.CheckCertificates()
	hx.Each(t, "stop", hx.N(16, 200), stop)
}

// question is a query with the answer that the server gives to it.
type question struct {
	q, a []byte
	err  bool
}

func dial(addr string, zip bool) (*grpc.ClientConn, error) {
	creds, err := utils.LoadServersCertificates()
	if err != nil {
		hx.Broken("%v", err)
	}
	o := []grpc.CallOption{grpc.MaxCallRecvMsgSize(1 << 30), grpc.MaxCallSendMsgSize(1 << 30)}
	if zip {
		o = append(o, grpc.UseCompressor(gzip.Name))
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	return grpc.DialContext(ctx, addr, grpc.WithTransportCredentials(creds), grpc.WithBlock(), grpc.WithDefaultCallOptions(o...))
}

// questions are valid and invalid queries for all servers of the cluster.
func questions(s *hx.Stream, cl *e2e.Cluster, es []*deploy.Entry, scheme string, conns []*grpc.ClientConn) ([][]question, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	r, err := proto.NewVPIRClient(conns[0]).DatabaseInfo(ctx, &proto.DatabaseInfoRequest{})
	if err != nil {
		return nil, fmt.Errorf("asking for the database: %v", err)
	}
	info := &database.Info{NumRows: int(r.GetNumRows()), NumColumns: int(r.GetNumColumns()), BlockSize: int(r.GetBlockLength()),
		PIRType: r.GetPirType(), Merkle: &database.Merkle{Root: r.GetRoot(), ProofLen: int(r.GetProofLen())}}
	out := make([][]question, len(conns))
	for k := 0; k < 5; k++ {
		var qs [][]byte
		rnd := hx.NewStream(s.U64())
		switch {
		case k == 4: // garbage
			for range conns {
				qs = append(qs, s.Bytes(s.Intn(9)))
			}
		case strings.HasPrefix(scheme, "point"):
			in := make([]byte, 4)
			binary.BigEndian.PutUint32(in, uint32(s.Intn(info.NumRows*info.NumColumns)))
			qs, err = client.NewPIR(rnd, info).QueryBytes(in, len(conns))
		case scheme == "complexPIR":
			qs, err = client.NewPredicatePIR(rnd, info).QueryBytes(deploy.StatRequest(s, es, scheme).Op.Input, len(conns))
		default:
			qs, err = client.NewPredicateAPIR(rnd, info).QueryBytes(deploy.StatRequest(s, es, scheme).Op.Input, len(conns))
		}
		if err != nil {
			return nil, fmt.Errorf("query: %v", err)
		}
		for i, c := range conns {
			a, err := proto.NewVPIRClient(c).Query(ctx, &proto.QueryRequest{Query: qs[i]})
			if ctx.Err() != nil {
				return nil, fmt.Errorf("server %d does not answer", i)
			}
			out[i] = append(out[i], question{qs[i], a.GetAnswer(), err != nil})
			if err != nil && k < 4 {
				return nil, fmt.Errorf("server %d: %v", i, err)
			}
		}
	}
	return out, nil
}

func (q question) judge(a []byte, err error) error {
	if q.err != (err != nil) || err == nil && !bytes.Equal(a, q.a) {
		return fmt.Errorf("a query got the answer %.40x (%v) while the server stopped, and %.40x (error %v) before", a, err, q.a, q.err)
	}
	return nil
}

// pending is a query that was sent.
type pending struct {
	st grpc.ClientStream
	q  question
}

func stop(i int, c *hx.C) error {
	s := hx.NewStream(hx.Seed()*13000027 + uint64(i))
	scheme := []string{"pointVPIR", "complexVPIR", "pointPIR", "complexPIR"}[i%4]
	servers := 2
	if strings.HasPrefix(scheme, "point") && s.Intn(3) == 0 {
		servers = 2 + s.Intn(e2e.MaxServers-1)
	}
	es := deploy.NewEntries(s, 1+s.Intn(60))
	if i%8 == 5 {
		es = deploy.LargeEntries(s)
	}
	dirs := deploy.Directories(s, es, servers)
	defer func() {
		for _, d := range dirs {
			os.RemoveAll(d)
		}
	}()
	// how the servers are started and stopped
	how := make([]string, servers)
	logs := make([]bool, servers)
	profs := make([]bool, servers)
	experiment := s.Intn(3) == 0
	for k := range how {
		how[k] = []string{"TERM", "INT"}[s.Intn(2)]
		logs[k] = s.Intn(3) == 0
		if profs[k] = s.Intn(4) == 0; profs[k] { // ends at once when interrupted
			how[k] = "TERM"
		}
	}
	if experiment { // there can be one for each address
		how[s.Intn(servers)] = "HTTP"
	}
	hosts := func(k int) string {
		if how[k] == "HTTP" {
			return fmt.Sprintf("127.%d.%d.%d", 1+os.Getpid()%200, os.Getpid()/200%250, 1+i%250)
		}
		return "127.0.0.1"
	}
	cl, err := e2e.StartAt(e2e.Build("cmd/grpc/server", "-race"), scheme, dirs, hosts, func(k int) (a []string) {
		if logs[k] {
			a = append(a, "-log", fmt.Sprintf("log%d", k))
		}
		if profs[k] {
			a = append(a, "-prof", "-mprof")
		}
		if how[k] == "HTTP" || experiment && s.Intn(2) == 0 {
			a = append(a, "-experiment")
		}
		return a
	})
	if err != nil {
		return err
	}
	defer cl.Stop()
	var conns []*grpc.ClientConn
	connect := func(k int) *grpc.ClientConn {
		conn, err := dial(cl.Addrs[k], s.Intn(2) == 0)
		if err != nil {
			hx.Broken("connecting: %v", err)
		}
		return conn
	}
	for k := range cl.Addrs {
		conns = append(conns, connect(k))
		defer conns[k].Close()
	}
	all, err := questions(s, cl, es, scheme, conns)
	if err != nil {
		return err
	}
	c.Case("%d servers with the scheme %s and %d keys, stopped by %v", servers, scheme, len(es), how)
	c.Class(scheme)
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	var mu sync.Mutex
	var first error
	note := func(err error) {
		mu.Lock()
		defer mu.Unlock()
		if first == nil {
			first = err
		}
	}
	var wg sync.WaitGroup
	for k := range conns {
		k := k
		c.Class(how[k])
		var sent []pending
		var stopped int32
		var bg sync.WaitGroup
		for n := 1 + s.Intn(3); n > 0; n-- {
			conn := conns[k]
			if s.Intn(2) == 0 {
				conn = connect(k)
				defer conn.Close()
			}
			many := []int{0, 1, 3, 12, 40, 90}[s.Intn(6)]
			for j := 0; j < many; j++ {
				q := all[k][s.Intn(len(all[k]))]
				st, err := conn.NewStream(ctx, &grpc.StreamDesc{}, "/proto.VPIR/Query")
				if err == nil {
					err = st.SendMsg(&proto.QueryRequest{Query: q.q})
				}
				if err == nil {
					err = st.CloseSend()
				}
				if err != nil {
					return fmt.Errorf("sending a query: %v", err)
				}
				sent = append(sent, pending{st, q})
			}
			// the server has them all when this is answered
			if _, err := proto.NewVPIRClient(conn).DatabaseInfo(ctx, &proto.DatabaseInfoRequest{}); err != nil {
				return fmt.Errorf("server %d: %v", k, err)
			}
		}
		// others go on as long as they can
		for n := s.Intn(6); n > 0; n-- {
			seed := s.U64()
			bg.Add(1)
			go func() {
				defer bg.Done()
				r := hx.NewStream(seed)
				for atomic.LoadInt32(&stopped) == 0 {
					q := all[k][r.Intn(len(all[k]))]
					cx, cancel := ctx, context.CancelFunc(func() {})
					if r.Intn(3) == 0 {
						cx, cancel = context.WithTimeout(ctx, time.Duration(r.Intn(3000))*time.Microsecond)
					}
					a, err := proto.NewVPIRClient(conns[k]).Query(cx, &proto.QueryRequest{Query: q.q})
					cancel()
					if err == nil {
						if e := q.judge(a.GetAnswer(), nil); e != nil {
							note(e)
						}
					}
				}
			}()
		}
		c.More("| %d pending", len(sent))
		c.NonTrivialIf(len(sent) > 12)
		pause := time.Duration(s.Intn(4)*s.Intn(20)) * time.Millisecond
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(pause)
			switch how[k] {
			case "TERM":
				cl.Signal(k, syscall.SIGTERM)
			case "INT":
				cl.Signal(k, syscall.SIGINT)
			default:
				h, _, _ := net.SplitHostPort(cl.Addrs[k])
				r, err := (&http.Client{Timeout: 60 * time.Second}).Get("http://" + h + ":8080/")
				if err == nil {
					io.Copy(io.Discard, r.Body)
					r.Body.Close()
				}
			}
			for _, p := range sent {
				r := new(proto.QueryResponse)
				err := p.st.RecvMsg(r)
				if e := p.q.judge(r.GetAnswer(), err); e != nil {
					note(fmt.Errorf("server %d, of %d pending queries: %v", k, len(sent), e))
					break
				}
			}
			code, ended := cl.Wait(k, 120*time.Second)
			atomic.StoreInt32(&stopped, 1)
			bg.Wait()
			l := cl.Procs[k].Log.String()
			dir := cl.Dir
			if logs[k] {
				b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("log%d", k)))
				if err != nil || len(b) == 0 {
					note(fmt.Errorf("server %d wrote no log: %v", k, err))
				}
			}
			if len(l) > 1500 {
				l = l[len(l)-1500:]
			}
			switch {
			case !ended:
				note(fmt.Errorf("server %d, stopped by %s, goes on for two minutes\n%s", k, how[k], l))
			case code != 0:
				note(fmt.Errorf("server %d, stopped by %s, ended with the code %d\n%s", k, how[k], code, l))
			case strings.Contains(l, "DATA RACE"):
				note(fmt.Errorf("server %d has a data race\n%s", k, l))
			}
			if profs[k] && ended && code == 0 {
				for _, f := range []string{fmt.Sprintf("server-%d.prof", k), fmt.Sprintf("server-%d-mem.mprof", k)} {
					if st, err := os.Stat(filepath.Join(dir, f)); err != nil || st.Size() == 0 {
						note(fmt.Errorf("server %d left no profile %s: %v", k, f, err))
					}
				}
			}
		}()
	}
	wg.Wait()
	return first
}
