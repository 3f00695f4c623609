// Package e2e runs the programs of the repository: it builds them from the tree
// under test, starts servers and clients as processes, and offers stand-ins for
// servers and a helper process that uses the client library.
package e2e

import (
	"bytes"
	"context"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"aaverif/hx"

	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/utils"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	_ "google.golang.org/grpc/encoding/gzip" // servers accept compressed queries
)

// MaxServers is the number of servers that there are certificates for.
var MaxServers = len(utils.ServerCertificates)

// CheckCertificates ends an inconclusive run if the built-in certificates are
// not valid at present.
func CheckCertificates() {
	for i, c := range utils.ServerCertificates {
		x, err := x509.ParseCertificate(c.Certificate[0])
		if err != nil {
			return // the programs will tell
		}
		if now := time.Now(); now.Before(x.NotBefore) || now.After(x.NotAfter) {
			hx.Broken("certificate %d of the servers is valid from %v to %v only", i, x.NotBefore, x.NotAfter)
		}
	}
}

var (
	buildMu sync.Mutex
	built   = map[string]string{}
)

// Build compiles a program of the repository. With an overlay, files are added
// to the build without touching the repository.
func Build(pkg string, flags ...string) string {
	buildMu.Lock()
	defer buildMu.Unlock()
	key := pkg + strings.Join(flags, " ")
	if p := built[key]; p != "" {
		return p
	}
	dir := filepath.Join(hx.WorkDir(), "bin")
	os.MkdirAll(dir, 0o755)
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(hx.RepoDir(), f))
		if err != nil {
			hx.Broken("%v", err)
		}
		os.WriteFile(filepath.Join(dir, f), b, 0o644)
	}
	out := filepath.Join(dir, fmt.Sprintf("p%d-%s", len(built), filepath.Base(pkg)))
	args := append([]string{"build", "-modfile=" + filepath.Join(dir, "go.mod"), "-o", out}, flags...)
	cmd := exec.Command("go", append(args, "./"+pkg)...)
	cmd.Dir = hx.RepoDir()
	if b, err := cmd.CombinedOutput(); err != nil {
		hx.Broken("building %s: %v\n%s", pkg, err, b)
	}
	built[key] = out
	return out
}

// Log is the output of a process.
type Log struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *Log) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() > 1<<20 {
		return len(p), nil
	}
	return l.b.Write(p)
}

func (l *Log) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

// Proc is a server process.
type Proc struct {
	cmd  *exec.Cmd
	Log  *Log
	done chan struct{}
	err  error
}

func (p *Proc) exited() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// Cluster is a running deployment.
type Cluster struct {
	Dir   string
	Conf  string
	Addrs []string
	Procs []*Proc
	dead  bool
}

// Ports finds free ports.
func Ports(n int) []int {
	var ls []net.Listener
	var out []int
	for i := 0; i < n; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			hx.Broken("no free port: %v", err)
		}
		ls = append(ls, l)
		out = append(out, l.Addr().(*net.TCPAddr).Port)
	}
	for _, l := range ls {
		l.Close()
	}
	return out
}

// WriteConfig writes a configuration that lists the addresses in the order of perm.
func WriteConfig(path string, addrs []string, perm []int) {
	var b bytes.Buffer
	b.WriteString("[servers]\n")
	for _, i := range perm {
		h, p, _ := net.SplitHostPort(addrs[i])
		fmt.Fprintf(&b, "  [servers.%d]\n  ip = %q\n  port = %s\n", i, h, p)
	}
	if err := os.WriteFile(path, b.Bytes(), 0o644); err != nil {
		hx.Broken("%v", err)
	}
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

var clusterNo int

// Start runs a server per key directory. All files of the directories are used.
// The extra arguments of server i are those that args yields.
func Start(server, scheme string, dirs []string, args ...func(i int) []string) (*Cluster, error) {
	return StartAt(server, scheme, dirs, func(int) string { return "127.0.0.1" }, args...)
}

// StartAt is Start with a host for each server.
func StartAt(server, scheme string, dirs []string, host func(i int) string, args ...func(i int) []string) (*Cluster, error) {
	for try := 0; ; try++ {
		c, retry, err := start(server, scheme, dirs, host, args)
		if err == nil {
			return c, nil
		}
		c.Stop()
		if !retry || try == 5 {
			return nil, err
		}
	}
}

func start(server, scheme string, dirs []string, host func(int) string, args []func(int) []string) (c *Cluster, retry bool, err error) {
	clusterNo++
	c = &Cluster{Dir: filepath.Join(hx.WorkDir(), fmt.Sprintf("cluster%d", clusterNo))}
	os.MkdirAll(c.Dir, 0o755)
	for i, p := range Ports(len(dirs)) {
		c.Addrs = append(c.Addrs, fmt.Sprintf("%s:%d", host(i), p))
	}
	c.Conf = filepath.Join(c.Dir, "config.toml")
	WriteConfig(c.Conf, c.Addrs, seq(len(dirs)))
	for i, d := range dirs {
		files, _ := os.ReadDir(d)
		p := &Proc{Log: &Log{}, done: make(chan struct{})}
		a := []string{"-id", strconv.Itoa(i), "-files", strconv.Itoa(len(files)), "-scheme", scheme}
		for _, f := range args {
			a = append(a, f(i)...)
		}
		p.cmd = exec.Command(server, a...)
		p.cmd.Dir = c.Dir
		p.cmd.Env = append(os.Environ(), "VPIR_CONFIG="+c.Conf, "VPIR_SKS_ROOT="+d, "NOTIFY_SOCKET=", "GORACE=halt_on_error=0", "HX_CHILD=",
			// servers are in different places of the world
			"TZ="+[]string{"UTC", "Asia/Tokyo", "America/New_York"}[i%3])
		p.cmd.Stdout, p.cmd.Stderr = p.Log, p.Log
		p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := p.cmd.Start(); err != nil {
			hx.Broken("starting a server: %v", err)
		}
		go func() {
			p.err = p.cmd.Wait()
			close(p.done)
		}()
		c.Procs = append(c.Procs, p)
	}
	deadline := time.Now().Add(120 * time.Second)
	for i, p := range c.Procs {
		for {
			if p.exited() {
				l := p.Log.String()
				return c, strings.Contains(l, "failed to listen"), fmt.Errorf("server %d with the scheme %s ended before it was ready: %v\n%s", i, scheme, p.err, tail(l))
			}
			if conn, err := net.DialTimeout("tcp", c.Addrs[i], time.Second); err == nil {
				conn.Close()
				break
			}
			if time.Now().After(deadline) {
				return c, false, fmt.Errorf("server %d with the scheme %s is not ready after 120 s\n%s", i, scheme, tail(p.Log.String()))
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
	return c, false, nil
}

func tail(s string) string {
	if len(s) > 3000 {
		s = "..." + s[len(s)-3000:]
	}
	return s
}

// Check reports servers that ended or whose race detector found something.
func (c *Cluster) Check() error {
	for i, p := range c.Procs {
		l := p.Log.String()
		if k := strings.Index(l, "DATA RACE"); k >= 0 {
			return fmt.Errorf("server %d has a data race:\n%s", i, tail(l[k:]))
		}
		if p.exited() {
			return fmt.Errorf("server %d ended: %v\n%s", i, p.err, tail(l))
		}
	}
	return nil
}

// Signal sends a signal to a server.
func (c *Cluster) Signal(i int, sig os.Signal) { c.Procs[i].cmd.Process.Signal(sig) }

// Wait waits for the end of a server and tells its exit code, -1 if a signal
// ended it.
func (c *Cluster) Wait(i int, limit time.Duration) (code int, ended bool) {
	p := c.Procs[i]
	select {
	case <-p.done:
		return p.cmd.ProcessState.ExitCode(), true
	case <-time.After(limit):
		return 0, false
	}
}

// Stop ends the servers.
func (c *Cluster) Stop() {
	if c == nil || c.dead {
		return
	}
	c.dead = true
	for _, p := range c.Procs {
		p.cmd.Process.Signal(syscall.SIGTERM)
	}
	for _, p := range c.Procs {
		select {
		case <-p.done:
		case <-time.After(3 * time.Second):
			p.cmd.Process.Kill()
			<-p.done
		}
	}
	os.RemoveAll(c.Dir)
}

// Result is what a program did.
type Result struct {
	Out  string
	Exit int
	Hung bool
}

// Run runs a program of the repository with the configuration.
func Run(bin, conf string, args ...string) Result {
	return RunIn(bin, conf, "", args...)
}

// RunIn is Run for a program that reads the input.
func RunIn(bin, conf, input string, args ...string) Result {
	for try := 0; ; try++ {
		r := run(bin, conf, input, args...)
		// connecting has a short time limit, which a loaded machine may exceed
		if r.Exit == 0 || r.Hung || try == 3 || !strings.Contains(r.Out, "failed to connect") {
			return r
		}
	}
}

// Once is RunIn without another attempt if the program cannot connect.
func Once(bin, conf, input string, args ...string) Result { return run(bin, conf, input, args...) }

func run(bin, conf, input string, args ...string) Result {
	limit := 120 * time.Second
	if atomic.LoadInt32(&hung) != 0 {
		limit = 20 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = hx.WorkDir()
	cmd.Env = append(os.Environ(), "VPIR_CONFIG="+conf, "HX_CHILD=")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Stdin = strings.NewReader(input)
	out, err := cmd.CombinedOutput()
	r := Result{Out: string(out)}
	if err != nil {
		r.Exit = -1
		if e, ok := err.(*exec.ExitError); ok {
			r.Exit = e.ExitCode()
		} else if ctx.Err() == nil {
			hx.Broken("running %s: %v", bin, err)
		}
	}
	if r.Hung = ctx.Err() != nil; r.Hung {
		atomic.StoreInt32(&hung, 1)
	}
	return r
}

// Armored is the armored key that a client printed.
func (r Result) Armored() string {
	const b, e = "-----BEGIN PGP PUBLIC KEY BLOCK-----", "-----END PGP PUBLIC KEY BLOCK-----"
	i := strings.Index(r.Out, b)
	j := strings.Index(r.Out, e)
	if i < 0 || j < i {
		return ""
	}
	return r.Out[i : j+len(e)]
}

// Number is the number that a client printed on a line of its own.
func (r Result) Number() (uint64, bool) {
	for _, l := range strings.Split(r.Out, "\n") {
		if n, err := strconv.ParseUint(strings.TrimSpace(l), 10, 64); err == nil {
			return n, true
		}
	}
	return 0, false
}

// Fake is a stand-in for a server.
type Fake struct {
	proto.UnimplementedVPIRServer
	Addr string
	Info *proto.DatabaseInfoResponse
	// Answer computes the answer to a query
	Answer    func([]byte) ([]byte, error)
	InfoDelay time.Duration
	Delay     time.Duration

	mu      sync.Mutex
	queries [][]byte
	infos   int
	srv     *grpc.Server
}

// Queries are the queries that the server got.
func (f *Fake) Queries() [][]byte {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([][]byte{}, f.queries...)
}

// Infos is how often the server was asked for its description.
func (f *Fake) Infos() int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.infos
}

// Reset forgets what was recorded and sets what the server tells from now on.
func (f *Fake) Reset(info *proto.DatabaseInfoResponse, infoDelay, delay time.Duration, answer func([]byte) ([]byte, error)) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.queries, f.infos = nil, 0
	f.Info, f.InfoDelay, f.Delay, f.Answer = info, infoDelay, delay, answer
}

func (f *Fake) DatabaseInfo(ctx context.Context, r *proto.DatabaseInfoRequest) (*proto.DatabaseInfoResponse, error) {
	f.mu.Lock()
	f.infos++
	d, i := f.InfoDelay, f.Info
	f.mu.Unlock()
	time.Sleep(d)
	return i, nil
}

func (f *Fake) Query(ctx context.Context, r *proto.QueryRequest) (*proto.QueryResponse, error) {
	f.mu.Lock()
	f.queries = append(f.queries, append([]byte{}, r.GetQuery()...))
	d, a := f.Delay, f.Answer
	f.mu.Unlock()
	time.Sleep(d)
	b, err := a(r.GetQuery())
	if err != nil {
		return nil, err
	}
	return &proto.QueryResponse{Answer: b}, nil
}

// Fakes are stand-ins that listen.
func Fakes(n int) []*Fake {
	var out []*Fake
	for i := 0; i < n; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			hx.Broken("no free port: %v", err)
		}
		out = append(out, NewFake(l, &tls.Config{Certificates: []tls.Certificate{utils.ServerCertificates[i%MaxServers]}, ClientAuth: tls.NoClientCert}))
	}
	return out
}

// NewFake is a stand-in with a TLS configuration of its own, without TLS if it is nil.
func NewFake(l net.Listener, cfg *tls.Config) *Fake {
	f := &Fake{Addr: l.Addr().String()}
	o := []grpc.ServerOption{grpc.MaxRecvMsgSize(1024 * 1024 * 1024), grpc.MaxSendMsgSize(1024 * 1024 * 1024)}
	if cfg != nil {
		o = append(o, grpc.Creds(credentials.NewTLS(cfg)))
	}
	f.srv = grpc.NewServer(o...)
	proto.RegisterVPIRServer(f.srv, f)
	go f.srv.Serve(l)
	return f
}

// StopFakes ends the stand-ins.
func StopFakes(fs []*Fake) {
	for _, f := range fs {
		f.srv.Stop()
	}
}

// DrainFakes waits until the requests that reached the stand-ins are done. The
// clients have ended before.
func DrainFakes(fs []*Fake) {
	var wg sync.WaitGroup
	for _, f := range fs {
		wg.Add(1)
		go func(f *Fake) {
			defer wg.Done()
			done := make(chan struct{})
			go func() { f.srv.GracefulStop(); close(done) }()
			select {
			case <-done:
			case <-time.After(5 * time.Second):
			}
		}(f)
	}
	wg.Wait()
}
