package e2e

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"aaverif/hx"

	"github.com/si-co/vpir-code/cmd/grpc/client/manager"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/utils"
	"google.golang.org/grpc"
	"google.golang.org/grpc/encoding/gzip"
)

const helperEnv = "E2E_HELPER"

// Op is a request made through the client library.
type Op struct {
	// Kind is key, stat, infos, run, garbage or abort
	Kind    string
	ID      string   `json:",omitempty"`
	Seed    uint64   `json:",omitempty"`
	Scheme  string   `json:",omitempty"`
	Input   []byte   `json:",omitempty"` // encoded predicate query
	Queries [][]byte `json:",omitempty"`
}

// OpResult is what the client library returned.
type OpResult struct {
	Err     string
	Out     string
	Number  uint32
	Answers [][]byte
	Infos   int
	Done    bool
}

// Job is what a helper process does.
type Job struct {
	Conf     string
	Gzip     bool
	Parallel int
	Once     bool // only one attempt to connect
	Ops      []Op
	Out      string
}

// JobResult is the outcome of a helper process.
type JobResult struct {
	Ops  []OpResult
	Exit int
	Log  string
	Hung bool
}

// HelperMain runs a helper process if this is one. Call it first in TestMain.
func HelperMain() {
	f := os.Getenv(helperEnv)
	if f == "" {
		return
	}
	b, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	job := &Job{}
	if err := json.Unmarshal(b, job); err != nil {
		panic(err)
	}
	job.run()
	os.Exit(0)
}

func (j *Job) run() {
	conf, err := utils.LoadConfig(j.Conf)
	if err != nil {
		panic(err)
	}
	opts := []grpc.CallOption{grpc.MaxCallRecvMsgSize(1024 * 1024 * 1024), grpc.MaxCallSendMsgSize(1024 * 1024 * 1024)}
	if j.Gzip {
		opts = append(opts, grpc.UseCompressor(gzip.Name))
	}
	m := manager.NewManager(*conf, opts)
	actor, err := m.Connect()
	for try := 0; err != nil && try < 3 && !j.Once; try++ { // connecting has a short time limit
		actor, err = m.Connect()
	}
	if err != nil {
		panic(err)
	}
	creds, err := utils.LoadServersCertificates()
	if err != nil {
		panic(err)
	}
	var raw []proto.VPIRClient
	for _, a := range conf.Addresses {
		conn, err := grpc.Dial(a, grpc.WithTransportCredentials(creds))
		if err != nil {
			panic(err)
		}
		raw = append(raw, proto.NewVPIRClient(conn))
	}
	res := make([]OpResult, len(j.Ops))
	next := int64(-1)
	var wg sync.WaitGroup
	for w := 0; w < j.Parallel; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= len(j.Ops) {
					return
				}
				res[i] = j.Ops[i].do(&actor, raw)
				res[i].Done = true
			}
		}()
	}
	wg.Wait()
	b, err := json.Marshal(res)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(j.Out, b, 0o644); err != nil {
		panic(err)
	}
}

func (o Op) do(actor *manager.Actor, raw []proto.VPIRClient) (r OpResult) {
	fail := func(err error) OpResult {
		r.Err = err.Error()
		if r.Err == "" {
			r.Err = "?"
		}
		return r
	}
	switch o.Kind {
	case "run":
		r.Answers = actor.RunQueries(o.Queries)
		return r
	case "garbage", "abort":
		ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
		defer cancel()
		if o.Kind == "abort" {
			time.AfterFunc(time.Duration(o.Seed%3000)*time.Microsecond, cancel)
		}
		var wg sync.WaitGroup
		var refused int32
		for i, c := range raw {
			wg.Add(1)
			go func(c proto.VPIRClient, q []byte) {
				defer wg.Done()
				if _, err := c.Query(ctx, &proto.QueryRequest{Query: q}); err != nil {
					atomic.AddInt32(&refused, 1)
				}
			}(c, o.Queries[i%len(o.Queries)])
		}
		wg.Wait()
		r.Number = uint32(refused)
		return r
	}
	infos, err := actor.GetDBInfos()
	if err != nil {
		return fail(err)
	}
	r.Infos = len(infos)
	rnd := hx.NewStream(o.Seed)
	switch o.Kind {
	case "key":
		r.Out, err = actor.GetKey(o.ID, infos[0], client.NewPIR(rnd, &infos[0]))
		if err != nil {
			return fail(err)
		}
	case "stat":
		var cl client.Client
		if o.Scheme == "complexPIR" {
			cl = client.NewPredicatePIR(rnd, &infos[0])
		} else {
			cl = client.NewPredicateAPIR(rnd, &infos[0])
		}
		qs, err := cl.QueryBytes(o.Input, len(infos))
		if err != nil {
			return fail(err)
		}
		v, err := cl.ReconstructBytes(actor.RunQueries(qs))
		if err != nil {
			return fail(err)
		}
		n, ok := v.(uint32)
		if !ok {
			return fail(fmt.Errorf("the result is a %T", v))
		}
		r.Number = n
	}
	return r
}

// Stat is a statistics request.
func Stat(q *query.ClientFSS, scheme string, seed uint64) Op {
	in, err := q.Encode()
	if err != nil {
		hx.Broken("encoding a query: %v", err)
	}
	return Op{Kind: "stat", Scheme: scheme, Input: in, Seed: seed}
}

var (
	jobNo int64
	// hung is set once a job did not end in time. Those that follow are
	// attempts to simplify it, for which there is less time.
	hung int32
)

// Do runs the job in a process of its own.
func (j *Job) Do() JobResult {
	n := atomic.AddInt64(&jobNo, 1)
	f := filepath.Join(hx.WorkDir(), fmt.Sprintf("job%d", n))
	j.Out = f + ".out"
	b, err := json.Marshal(j)
	if err != nil {
		hx.Broken("%v", err)
	}
	os.WriteFile(f, b, 0o644)
	defer os.Remove(f)
	defer os.Remove(j.Out)
	limit := 180 * time.Second
	if atomic.LoadInt32(&hung) != 0 {
		limit = 20 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	self, _ := os.Executable()
	cmd := exec.CommandContext(ctx, self)
	cmd.Dir = hx.WorkDir()
	cmd.Env = append(os.Environ(), helperEnv+"="+f, "HX_CHILD=")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var log bytes.Buffer
	cmd.Stdout, cmd.Stderr = &log, &log
	err = cmd.Run()
	r := JobResult{Log: tail(log.String()), Hung: ctx.Err() != nil}
	if r.Hung {
		atomic.StoreInt32(&hung, 1)
	}
	if err != nil {
		r.Exit = -1
		if e, ok := err.(*exec.ExitError); ok {
			r.Exit = e.ExitCode()
		}
		return r
	}
	out, err := os.ReadFile(j.Out)
	if err == nil {
		err = json.Unmarshal(out, &r.Ops)
	}
	if err != nil {
		hx.Broken("helper: %v\n%s", err, r.Log)
	}
	return r
}
