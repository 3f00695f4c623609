package deploy

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"aaverif/e2e"
	"aaverif/hx"
)

// Configurable builds a front end so that it takes its addresses from
// configurations. It is "" if that is impossible.
func Configurable(pkg string, flags ...string) string {
	configurableMu.Lock()
	defer configurableMu.Unlock()
	key := pkg + strings.Join(flags, " ")
	bin, ok := configurables[key]
	if !ok {
		bin = configurable(pkg, flags)
		configurables[key] = bin
	}
	return bin
}

var (
	configurableMu sync.Mutex
	configurables  = map[string]string{}
)

func configurable(pkg string, flags []string) string {
	dir := filepath.Join(hx.RepoDir(), pkg)
	if bin := overlaid(pkg, filepath.Join(dir, "zz_verif_config.go"), []byte("package main\n\nfunc init() { staticConfig = false }\n"), flags); bin != "" {
		return bin
	}
	// the switch has another name, or is a constant
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil || strings.HasSuffix(f, "_test.go") {
			continue
		}
		set := token.NewFileSet()
		file, err := parser.ParseFile(set, f, src, 0)
		if err != nil {
			continue
		}
		for _, d := range file.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, sp := range g.Specs {
				v, ok := sp.(*ast.ValueSpec)
				if !ok {
					continue
				}
				for _, x := range v.Values {
					if id, ok := x.(*ast.Ident); !ok || id.Name != "true" {
						continue
					}
					at := set.Position(x.Pos()).Offset
					changed := append(append(append([]byte{}, src[:at]...), "false"...), src[at+4:]...)
					if bin := overlaid(pkg, f, changed, flags); bin != "" && reads(bin) {
						return bin
					}
				}
			}
		}
	}
	return ""
}

var overlays int64

// overlaid builds a program with another content of a file.
func overlaid(pkg, file string, content []byte, flags []string) string {
	dir := filepath.Join(hx.WorkDir(), fmt.Sprintf("overlay%d", atomic.AddInt64(&overlays, 1)))
	os.MkdirAll(dir, 0o755)
	src := filepath.Join(dir, "file.go")
	os.WriteFile(src, content, 0o644)
	ov := filepath.Join(dir, "overlay.json")
	os.WriteFile(ov, []byte(fmt.Sprintf(`{"Replace": {%q: %q}}`, file, src)), 0o644)
	cmd := exec.Command("go", "list", "-overlay="+ov, "-export", "./"+pkg)
	cmd.Dir = hx.RepoDir()
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
	if cmd.Run() != nil {
		return ""
	}
	return e2e.Build(pkg, append([]string{"-overlay=" + ov}, flags...)...)
}

// reads tells whether a program opens the configuration that it is given.
func reads(bin string) bool {
	fifo := filepath.Join(hx.WorkDir(), fmt.Sprintf("fifo%d", atomic.AddInt64(&overlays, 1)))
	if err := syscall.Mkfifo(fifo, 0o600); err != nil {
		return false
	}
	cmd := exec.Command(bin, "-listen-addr", "127.0.0.1:0")
	if strings.Contains(filepath.Base(bin), "interactive") {
		cmd = exec.Command(bin)
	}
	cmd.Dir = hx.WorkDir()
	cmd.Env = append(os.Environ(), "VPIR_CONFIG_POINT="+fifo, "VPIR_CONFIG_COMPLEX="+fifo, "HX_CHILD=")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if cmd.Start() != nil {
		return false
	}
	defer cmd.Wait()
	defer cmd.Process.Kill()
	for k := 0; k < 200; k++ {
		if fd, err := syscall.Open(fifo, syscall.O_WRONLY|syscall.O_NONBLOCK, 0); err == nil {
			syscall.Close(fd)
			return true
		}
		time.Sleep(50 * time.Millisecond)
	}
	return false
}

// Web is a running web front end.
type Web struct {
	Base string
	cmd  *exec.Cmd
	log  *e2e.Log
	done chan struct{}
	cli  *http.Client
}

// StartWeb runs the front end.
func StartWeb(bin, pointConf, complexConf string) (*Web, error) {
	for try := 0; ; try++ {
		w, err := startWeb(bin, pointConf, complexConf)
		if err == nil {
			return w, nil
		}
		l := w.Log()
		w.Stop()
		// connecting has a short time limit, and somebody may take the port
		if try == 4 || !strings.Contains(l, "failed to connect") && !strings.Contains(l, "failed to create conn") {
			return nil, err
		}
	}
}

func startWeb(bin, pointConf, complexConf string) (*Web, error) {
	addr := fmt.Sprintf("127.0.0.1:%d", e2e.Ports(1)[0])
	w := &Web{Base: "http://" + addr, log: &e2e.Log{}, done: make(chan struct{}), cli: &http.Client{Timeout: 120 * time.Second}}
	w.cmd = exec.Command(bin, "-listen-addr", addr)
	w.cmd.Dir = hx.WorkDir()
	w.cmd.Env = append(os.Environ(), "VPIR_CONFIG_POINT="+pointConf, "VPIR_CONFIG_COMPLEX="+complexConf, "HX_CHILD=", "GORACE=halt_on_error=0")
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	w.cmd.Stdout, w.cmd.Stderr = w.log, w.log
	if err := w.cmd.Start(); err != nil {
		hx.Broken("starting the front end: %v", err)
	}
	go func() {
		w.cmd.Wait()
		close(w.done)
	}()
	for k := 0; ; k++ {
		resp, err := w.cli.Get(w.Base + "/absent")
		if err == nil {
			resp.Body.Close()
			return w, nil
		}
		if w.Exited() || k > 1200 {
			return w, fmt.Errorf("the front end does not answer: %v\n%s", err, Clip(w.Log()))
		}
		time.Sleep(50 * time.Millisecond)
	}
}

// Log is what the front end wrote.
func (w *Web) Log() string { return w.log.String() }

// Exited tells whether the front end has ended.
func (w *Web) Exited() bool {
	select {
	case <-w.done:
		return true
	default:
		return false
	}
}

// Stop ends the front end.
func (w *Web) Stop() {
	w.cmd.Process.Kill()
	<-w.done
}

// Check reports a front end that ended or has a data race.
func (w *Web) Check() error {
	l := w.Log()
	if k := strings.Index(l, "DATA RACE"); k >= 0 {
		return fmt.Errorf("the front end has a data race:\n%s", Clip(l[k:]))
	}
	if w.Exited() {
		return fmt.Errorf("the front end ended:\n%s", Clip(l))
	}
	return nil
}

// Send makes a request and yields the status and the body.
func (w *Web) Send(req *http.Request) (int, string, error) {
	resp, err := w.cli.Do(req)
	if err != nil {
		return 0, "", fmt.Errorf("%v\n%s", err, Clip(w.Log()))
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, string(b), err
}

// Ask makes a request that has an expected result.
func (w *Web) Ask(r *Request) error {
	req, err := http.NewRequest("POST", w.Base+r.Path, strings.NewReader(r.Form.Encode()))
	if err != nil {
		hx.Broken("%v", err)
	}
	req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	status, out, err := w.Send(req)
	if err != nil {
		return fmt.Errorf("%s: %v", r.Desc, err)
	}
	var num uint64
	k, _ := fmt.Sscanf(out, "count: %d", &num)
	failed := status != 200 || strings.Contains(out, "not found")
	armored := ""
	if strings.Contains(out, "BEGIN PGP") {
		armored = out
	}
	return r.Check(armored, num, k == 1, failed, out)
}
