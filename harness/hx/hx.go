// Package hx is the shared runner of the property checks.
//
// Every check is a Go test binary. Its TestMain (hx.Main) runs as a supervisor
// that starts itself again as a child, collects what the child measured, turns
// failures into VIOLATION lines with a replay file, turns a child killed from
// outside, a timeout or a harness problem into an error exit, and rewrites the
// evidence file.
package hx

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Meta describes one check.
type Meta struct {
	ID          string
	Rule        string
	Assumptions []string
	// MaxSeconds bounds the child (default 840 quick, 3400 thorough); reaching
	// it is an inconclusive run, never a violation.
	MaxSeconds int
}

type checkStat struct {
	Name       string         `json:"name"`
	Cases      int            `json:"cases"`
	NonTrivial int            `json:"nontrivial"`
	Distinct   int            `json:"distinct_nontrivial"`
	Classes    map[string]int `json:"classes,omitempty"`
	Samples    []string       `json:"samples,omitempty"`
	Seconds    float64        `json:"seconds"`
	seen       map[uint64]struct{}
}

type failure struct {
	Check    string `json:"check"`
	Case     string `json:"case"`
	FailFile string `json:"failfile"`
}

type result struct {
	Checks   []*checkStat `json:"checks"`
	Failures []failure    `json:"failures"`
	Broken   []string     `json:"broken"`
	Known    []string     `json:"known"`
	Done     bool         `json:"done"`
}

var (
	mu       sync.Mutex
	res      result
	meta     Meta
	lastFile *os.File
	known    map[string]string
	workDir  string
)

// Thorough tells whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// N picks a bound by tier.
func N(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Seed is VERIF_SEED (default 1).
func Seed() uint64 {
	v := os.Getenv("VERIF_SEED")
	if n, err := strconv.ParseUint(strings.TrimSpace(v), 10, 64); err == nil {
		return n
	}
	if v == "" {
		return 1
	}
	h := fnv.New64a()
	h.Write([]byte(v))
	return h.Sum64()
}

// WorkDir is a scratch directory of this run, removed by the supervisor.
func WorkDir() string { return workDir }

// VerifDir is /verif, wherever it lies.
func VerifDir() string { return envOr("HX_VERIF", "/verif") }

// RepoDir is the tree under test.
func RepoDir() string { return envOr("HX_REPO", "/repo") }

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func subSeed(name string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d", meta.ID, name, Seed())
	s := h.Sum64() >> 1
	if s == 0 {
		s = 1
	}
	return s
}

// Main is called from TestMain.
func Main(m *testing.M, md Meta) {
	meta = md
	flag.Parse()
	if os.Getenv("HX_CHILD") == "1" {
		os.Exit(child(m))
	}
	os.Exit(supervise())
}

func child(m *testing.M) int {
	workDir = os.Getenv("HX_WORK")
	os.Chdir(workDir)
	loadKnown()
	var err error
	lastFile, err = os.Create(filepath.Join(workDir, "last"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	go watchdog()
	rc := m.Run()
	mu.Lock()
	res.Done = true
	writeResult()
	mu.Unlock()
	return rc
}

// A case that uses hangCPU seconds of processor time, or that is blocked for
// hangIdle seconds without using any, hangs: cases take a small fraction of
// that. Processor time is used because it does not depend on the load.
const (
	hangCPU  = 300.0
	hangIdle = 150
)

var (
	caseNo int64
	noHang int32
)

// NoHang switches hang detection off (for checks that wait for subprocesses).
func NoHang() { atomic.StoreInt32(&noHang, 1) }

func cpuSeconds() float64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

func watchdog() {
	var seen int64
	base := cpuSeconds()
	idle, prev := 0, base
	for {
		time.Sleep(time.Second)
		now := cpuSeconds()
		n := atomic.LoadInt64(&caseNo)
		if n != seen || atomic.LoadInt32(&noHang) == 1 {
			seen, base, idle = n, now, 0
		}
		if now-prev < 0.02 {
			idle++
		} else {
			idle = 0
		}
		prev = now
		if n > 0 && (now-base > hangCPU || idle > hangIdle) {
			fmt.Printf("HANG: the case did not finish (%.0f s of processor time, idle for %d s)\n", now-base, idle)
			buf := make([]byte, 1<<20)
			os.Stdout.Write(buf[:runtime.Stack(buf, true)])
			os.Exit(9)
		}
	}
}

func writeResult() {
	for _, c := range res.Checks {
		c.Distinct = len(c.seen)
	}
	b, _ := json.Marshal(&res)
	os.WriteFile(filepath.Join(workDir, "result.json.tmp"), b, 0o644)
	os.Rename(filepath.Join(workDir, "result.json.tmp"), filepath.Join(workDir, "result.json"))
}

// C is the record of one generated case.
type C struct {
	st   *checkStat
	desc string
	non  bool
}

// Case describes the input of the case; it must identify it.
func (c *C) Case(format string, a ...interface{}) {
	c.desc = fmt.Sprintf(format, a...)
	note(c.st.Name, c.desc)
}

// More appends to the description.
func (c *C) More(format string, a ...interface{}) {
	c.desc += " " + fmt.Sprintf(format, a...)
	note(c.st.Name, c.desc)
}

func note(name, d string) {
	atomic.AddInt64(&caseNo, 1)
	if len(d) > 8000 {
		d = d[:8000]
	}
	b := []byte(name + "\n" + d + "\n")
	lastFile.WriteAt(b, 0)
	lastFile.Truncate(int64(len(b)))
}

// Class counts the case under labels.
func (c *C) Class(ls ...string) {
	mu.Lock()
	for _, l := range ls {
		c.st.Classes[l]++
	}
	mu.Unlock()
}

// NonTrivial marks the case non-trivial by the rule of the check.
func (c *C) NonTrivial() { c.non = true }

// NonTrivialIf marks it when cond holds.
func (c *C) NonTrivialIf(cond bool) {
	if cond {
		c.non = true
	}
}

func (c *C) finish() {
	mu.Lock()
	defer mu.Unlock()
	c.st.Cases++
	if c.non {
		c.st.NonTrivial++
		h := fnv.New64a()
		h.Write([]byte(c.desc))
		c.st.seen[h.Sum64()] = struct{}{}
		// spread samples: 1st, 2nd, 4th, 8th, ... non-trivial case
		if n := c.st.NonTrivial; n&(n-1) == 0 && len(c.st.Samples) < 12 {
			d := c.desc
			if len(d) > 400 {
				d = d[:400] + "..."
			}
			c.st.Samples = append(c.st.Samples, d)
		}
	}
}

func newStat(name string) *checkStat {
	st := &checkStat{Name: name, Classes: map[string]int{}, seen: map[uint64]struct{}{}}
	mu.Lock()
	res.Checks = append(res.Checks, st)
	mu.Unlock()
	return st
}

func scale(n int) int {
	if v := os.Getenv("HX_SCALE"); v != "" {
		if f, err := strconv.ParseFloat(v, 64); err == nil {
			n = int(float64(n) * f)
		}
	}
	if n < 1 {
		n = 1
	}
	return n
}

// Run runs one property over n generated cases (quick/thorough).
func Run(t *testing.T, name string, quickN, thoroughN int, prop func(t *rapid.T, c *C)) {
	t.Helper()
	if os.Getenv("HX_ONLY") != "" && os.Getenv("HX_ONLY") != name {
		return
	}
	n := scale(N(quickN, thoroughN))
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(subSeed(name), 10))
	flag.Set("rapid.shrinktime", envOr("HX_SHRINK", "10s"))
	if ff := os.Getenv("HX_FAILFILE"); ff != "" {
		flag.Set("rapid.failfile", ff)
	}
	st := newStat(name)
	start := time.Now()
	note(name, "(a case that was still being made)")
	var last *C
	failed := false
	ok := t.Run(name, func(t *testing.T) {
		rapid.Check(t, func(rt *rapid.T) {
			c := &C{st: st}
			defer func() {
				if !failed {
					last = c
				}
				if r := recover(); r != nil {
					// rapid's own control flow panics with its types; anything
					// else came from the code under test or the property
					if isForeign(r) {
						fmt.Printf("PANIC in %s [%s]: %v\n%s\n", name, c.desc, r, debug.Stack())
					}
					last = c
					panic(r)
				}
				if rt.Failed() {
					last = c
				}
				c.finish()
			}()
			prop(rt, c)
		})
	})
	_ = failed
	mu.Lock()
	st.Seconds = time.Since(start).Seconds()
	if !ok {
		ff := ""
		if g, _ := filepath.Glob(filepath.Join(workDir, "testdata", "rapid", "*", "*.fail")); len(g) > 0 {
			sort.Slice(g, func(i, j int) bool {
				a, _ := os.Stat(g[i])
				b, _ := os.Stat(g[j])
				return a.ModTime().After(b.ModTime())
			})
			ff = g[0]
		}
		d := ""
		if last != nil {
			d = last.desc
		}
		res.Failures = append(res.Failures, failure{Check: name, Case: d, FailFile: ff})
	}
	writeResult()
	mu.Unlock()
}

func isForeign(r interface{}) bool {
	s := fmt.Sprintf("%T", r)
	return !strings.HasPrefix(s, "rapid.")
}

// Each enumerates n cases deterministically.
func Each(t *testing.T, name string, n int, f func(i int, c *C) error) {
	t.Helper()
	if os.Getenv("HX_ONLY") != "" && os.Getenv("HX_ONLY") != name {
		return
	}
	st := newStat(name)
	start := time.Now()
	note(name, "(a case that was still being made)")
	var fail *failure
	for i := 0; i < n; i++ {
		c := &C{st: st}
		err := func() (err error) {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
				}
			}()
			return f(i, c)
		}()
		c.finish()
		if err != nil {
			t.Errorf("%s: case %d [%s]: %v", name, i, c.desc, err)
			fmt.Printf("FAIL %s: case %d [%s]: %v\n", name, i, c.desc, err)
			fail = &failure{Check: name, Case: fmt.Sprintf("#%d %s: %v", i, c.desc, err)}
			break
		}
	}
	mu.Lock()
	st.Seconds = time.Since(start).Seconds()
	if fail != nil {
		res.Failures = append(res.Failures, *fail)
	}
	writeResult()
	mu.Unlock()
}

// Broken reports that the check could not decide (error exit, no violation).
func Broken(format string, a ...interface{}) {
	mu.Lock()
	res.Broken = append(res.Broken, fmt.Sprintf(format, a...))
	writeResult()
	mu.Unlock()
	fmt.Printf("BROKEN: "+format+"\n", a...)
	os.Exit(7)
}

// Known reports whether the finding with this key is listed for this property;
// if so it is noted (and printed by the supervisor) and the case passes.
func Known(key string) bool {
	what, ok := known[key]
	if !ok {
		return false
	}
	mu.Lock()
	line := fmt.Sprintf("KNOWN-FINDING: property=%s %s (key=%s)", meta.ID, what, key)
	dup := false
	for _, k := range res.Known {
		dup = dup || k == line
	}
	if !dup {
		res.Known = append(res.Known, line)
	}
	mu.Unlock()
	return true
}

// known findings: lines "known: property=<id> key=<key> <what>"
func loadKnown() {
	known = map[string]string{}
	b, err := os.ReadFile(filepath.Join(VerifDir(), "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "known:" || f[1] != "property="+meta.ID || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		known[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
	}
}

func supervise() int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "hx-"+meta.ID+"-")
	if err != nil {
		fmt.Println("cannot make scratch dir:", err)
		return 2
	}
	defer os.RemoveAll(dir)
	max := meta.MaxSeconds
	if max == 0 {
		max = 840
		if Thorough() {
			max = 3400
		}
	}
	outPath := filepath.Join(dir, "out")
	out, _ := os.Create(outPath)
	self, _ := os.Executable()
	args := append([]string{}, os.Args[1:]...)
	args = append(args, "-test.timeout=0")
	cmd := exec.Command(self, args...)
	cmd.Env = append(os.Environ(), "HX_CHILD=1", "HX_WORK="+dir, "GOTRACEBACK=all")
	cmd.Stdout, cmd.Stderr = out, out
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		fmt.Println("cannot start:", err)
		return 2
	}
	timedOut := false
	tm := time.AfterFunc(time.Duration(max)*time.Second, func() {
		timedOut = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	werr := cmd.Wait()
	tm.Stop()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // stragglers
	out.Close()

	var r result
	if b, err := os.ReadFile(filepath.Join(dir, "result.json")); err == nil {
		json.Unmarshal(b, &r)
	}
	output, _ := os.ReadFile(outPath)
	for _, k := range r.Known {
		fmt.Println(k)
	}
	broken := ""
	switch {
	case timedOut:
		broken = fmt.Sprintf("time limit of %d s reached: inconclusive", max)
	case len(r.Broken) > 0:
		broken = strings.Join(r.Broken, "; ")
	}
	if broken == "" && !r.Done {
		// the child died: decide why
		ws, _ := cmd.ProcessState.Sys().(syscall.WaitStatus)
		tail := string(output)
		switch {
		case ws.Signaled() && (ws.Signal() == syscall.SIGKILL || ws.Signal() == syscall.SIGTERM || ws.Signal() == syscall.SIGINT):
			broken = "check process was killed: " + ws.Signal().String()
		case strings.Contains(tail, "out of memory") && !absurd(cmd.ProcessState), strings.Contains(tail, "fork/exec") && strings.Contains(tail, "cannot allocate memory"),
			strings.Contains(tail, "failed to create new OS thread"), strings.Contains(tail, "too many open files"),
			strings.Contains(tail, "no space left on device"):
			broken = "out of resources"
		default:
			last, _ := os.ReadFile(filepath.Join(dir, "last"))
			ls := strings.SplitN(string(last), "\n", 2)
			if len(ls) == 2 && ls[0] != "" {
				r.Failures = append(r.Failures, failure{Check: ls[0], Case: "process died (" + fmt.Sprint(werr) + ") while running: " + strings.TrimSpace(ls[1])})
			} else {
				broken = "check process died before the first case: " + fmt.Sprint(werr)
			}
		}
	}
	if broken == "" && r.Done && werr != nil && len(r.Failures) == 0 {
		broken = "test binary failed without a recorded failure: " + werr.Error()
	}
	if broken == "" && len(r.Failures) == 0 {
		n := 0
		for _, c := range r.Checks {
			n += c.Distinct + c.Classes["skipped"]
		}
		if n == 0 && os.Getenv("HX_ONLY") == "" {
			broken = "no non-trivial case was generated"
		}
	}
	genProblem := len(r.Failures) > 0 && strings.Contains(string(output), "[rapid] only generated")
	if genProblem {
		broken = "generator rejected too many cases"
	}

	writeEvidence(&r, time.Since(start).Seconds())
	if broken == "" || len(r.Failures) > 0 {
		for _, c := range r.Checks {
			fmt.Printf("%s/%s: %d cases, %d non-trivial (%d distinct), %.1fs %v\n", meta.ID, c.Name, c.Cases, c.NonTrivial, c.Distinct, c.Seconds, fmtClasses(c.Classes))
		}
	}
	if broken != "" && (len(r.Failures) == 0 || genProblem) {
		fmt.Println("ERROR:", broken)
		for _, l := range strings.Split(string(output), "\n") {
			if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.Contains(l, "out of memory") {
				fmt.Println(clip(l, 300))
			}
		}
		fmt.Println(tailOf(output, 4000))
		return 2
	}
	if len(r.Failures) > 0 {
		for _, f := range r.Failures {
			path := saveReplay(&f, output)
			fmt.Printf("case: %s\n", clip(f.Case, 2000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", meta.ID, path)
		}
		fmt.Println(tailOf(output, 6000))
		return 1
	}
	fmt.Printf("%s: held on everything explored (%.1fs)\n", meta.ID, time.Since(start).Seconds())
	return 0
}

// absurd tells whether a process that failed to get memory asked for more
// than any case of a check can need, rather than met a shortage.
func absurd(st *os.ProcessState) bool {
	u, ok := st.SysUsage().(*syscall.Rusage)
	if !ok || u.Maxrss > 6<<20 { // kB
		return false
	}
	b, _ := os.ReadFile("/proc/meminfo")
	for _, l := range strings.Split(string(b), "\n") {
		var kb int64
		if n, _ := fmt.Sscanf(l, "MemAvailable: %d kB", &kb); n == 1 {
			return kb > 8<<20
		}
	}
	return false
}

func fmtClasses(m map[string]int) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, " %s=%d", k, m[k])
	}
	return b.String()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func tailOf(b []byte, n int) string {
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

func saveReplay(f *failure, output []byte) string {
	dir := filepath.Join(VerifDir(), "replays")
	os.MkdirAll(dir, 0o755)
	base := fmt.Sprintf("%s-%s-seed%d", meta.ID, strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, f.Check), Seed())
	rp := map[string]interface{}{
		"property": meta.ID, "check": f.Check, "seed": Seed(), "tier": envOr("VERIF_TIER", "quick"),
		"case": f.Case, "output": tailOf(output, 8000),
		"how": "bash /verif/check.sh " + meta.ID + " --replay <this file>",
	}
	if f.FailFile != "" {
		if b, err := os.ReadFile(f.FailFile); err == nil {
			os.WriteFile(filepath.Join(dir, base+".fail"), b, 0o644)
			rp["failfile"] = filepath.Join(dir, base+".fail")
		}
	}
	b, _ := json.MarshalIndent(rp, "", " ")
	p := filepath.Join(dir, base+".json")
	os.WriteFile(p, b, 0o644)
	return p
}

func writeEvidence(r *result, wall float64) {
	if os.Getenv("HX_ONLY") != "" {
		return
	}
	ev, dn := 0, 0
	samples := []string{}
	per := []interface{}{}
	for _, c := range r.Checks {
		ev += c.Cases
		dn += c.Distinct
		for i, s := range c.Samples {
			if i < 4 {
				samples = append(samples, c.Name+": "+s)
			}
		}
		per = append(per, map[string]interface{}{"check": c.Name, "cases": c.Cases, "nontrivial": c.NonTrivial,
			"distinct_nontrivial": c.Distinct, "classes": c.Classes, "seconds": round1(c.Seconds)})
	}
	as := meta.Assumptions
	if as == nil {
		as = []string{}
	}
	e := map[string]interface{}{
		"property": meta.ID, "tier": envOr("VERIF_TIER", "quick"), "seed": Seed(), "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": ev, "distinct_nontrivial": dn, "rule": meta.Rule, "samples": samples, "checks": per,
			"known_findings_seen": len(r.Known),
		},
		"assumptions": as, "wall_s": round1(wall), "violations": len(r.Failures),
	}
	b, _ := json.MarshalIndent(e, "", " ")
	dir := filepath.Join(VerifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, meta.ID+".json"), append(b, '\n'), 0o644)
}

func round1(f float64) float64 { return float64(int(f*10+0.5)) / 10 }
