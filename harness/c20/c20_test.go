package c20

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"strings"
	"testing"
	"time"

	"aaverif/gen"
	"aaverif/hx"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/utils"
	"pgregory.net/rapid"
)

const helperEnv = "C20_HELPER"

func TestMain(m *testing.M) {
	if os.Getenv(helperEnv) != "" {
		helper()
		os.Exit(0)
	}
	hx.Main(m, hx.Meta{ID: "C20",
		Rule:        "database shapes from empty to 2^31 records, indices at and beyond the borders of the database (negative, one past the end, wrapped to 32 bits, extreme), numbers of servers from negative to hundreds, through the typed and the byte interfaces of all clients, each unusable combination in its own process; non-trivial when the combination is unusable, or usable at a border",
		Assumptions: []string{"a refusal is an error, a panic or the end of the process, without any query bytes"}})
}

func TestProps(t *testing.T) {
	hx.NoHang()
	hx.Run(t, "point-refused", 800, 8000, pointRefused)
	hx.Run(t, "single-refused", 300, 4000, singleRefused)
	hx.Run(t, "predicate-refused", 300, 4000, predicateRefused)
	hx.Run(t, "point-served", 20000, 50000, pointServed)
	hx.Run(t, "single-served", 600, 2000, singleServed)
	hx.Run(t, "predicate-served", 3000, 5000, predicateServed)
}

// Spec is one query attempt.
type Spec struct {
	Client     string
	Bytes      bool
	Rows, Cols int
	BlockSize  int
	Type       string
	Index      int
	In         []byte
	Servers    int
	Seed       uint64
	Target     int
	And, Avg   bool
	Input      []bool
	// Before asks for a good query of the same client first
	Before bool
}

// attempt runs the query and returns all the query bytes it yields.
func attempt(sp *Spec) (out [][]byte, err error) {
	s := hx.NewStream(sp.Seed)
	switch sp.Client {
	case "PIR":
		info := &database.Info{NumRows: sp.Rows, NumColumns: sp.Cols, BlockSize: sp.BlockSize, PIRType: sp.Type}
		if sp.Type == "merkle" {
			info.Merkle = &database.Merkle{Root: make([]byte, 32), ProofLen: 40}
		}
		cl := client.NewPIR(s, info)
		if sp.Before {
			cl.Query(0, 2+s.Intn(2))
		}
		if sp.Bytes {
			return cl.QueryBytes(sp.In, sp.Servers)
		}
		return cl.Query(sp.Index, sp.Servers), nil
	case "PredicateAPIR", "PredicatePIR":
		q := &query.ClientFSS{Info: &query.Info{Target: query.Target(sp.Target), And: sp.And, Avg: sp.Avg}, Input: sp.Input}
		info := &database.Info{NumRows: sp.Rows, NumColumns: sp.Cols}
		var fss []*query.FSS
		if sp.Client == "PredicateAPIR" {
			cl := client.NewPredicateAPIR(s, info)
			if sp.Before {
				cl.Query(q, 2)
			}
			if sp.Bytes {
				return cl.QueryBytes(encode(q), sp.Servers)
			}
			fss = cl.Query(q, sp.Servers)
		} else {
			cl := client.NewPredicatePIR(s, info)
			if sp.Before {
				cl.Query(q, 2)
			}
			if sp.Bytes {
				return cl.QueryBytes(encode(q), sp.Servers)
			}
			fss = cl.Query(q, sp.Servers)
		}
		for _, f := range fss {
			if f != nil {
				b, _ := json.Marshal(f)
				out = append(out, b)
			}
		}
		return out, nil
	}
	// single-server schemes
	var q []byte
	ask := func(cl interface {
		QueryBytes(int) ([]byte, error)
	}) {
		if sp.Before {
			cl.QueryBytes(0)
		}
		q, err = cl.QueryBytes(sp.Index)
	}
	switch sp.Client {
	case "DH":
		db := database.CreateRandomEllipticWithDigest(s, sp.Rows*sp.Cols, gen.Groups[0], sp.Rows > 1)
		ask(client.NewDH(s, &db.Info))
	case "LWE":
		db := database.CreateRandomBinaryLWE(s, sp.Rows, sp.Cols)
		ask(client.NewLWE(s, &db.Info, utils.ParamsWithDatabaseSize(sp.Rows, sp.Cols)))
	case "Amplify":
		db := database.CreateRandomBinaryLWE(s, sp.Rows, sp.Cols)
		ask(client.NewAmplify(s, &db.Info, utils.ParamsWithDatabaseSize(sp.Rows, sp.Cols), 1))
	case "LWE128":
		db := database.CreateRandomBinaryLWE128(s, sp.Rows, sp.Cols)
		ask(client.NewLWE128(s, &db.Info, utils.ParamsWithDatabaseSize128(sp.Rows, sp.Cols)))
	}
	return [][]byte{q}, err
}

func encode(q *query.ClientFSS) []byte {
	b, err := q.Encode()
	if err != nil {
		hx.Broken("encoding of a client query: %v", err)
	}
	return b
}

const began, yielded = "C20-BEGIN", "C20-YIELDED"

func helper() {
	sp := &Spec{}
	if err := json.Unmarshal([]byte(os.Getenv(helperEnv)), sp); err != nil {
		fmt.Println("C20-SPEC", err)
		return
	}
	fmt.Println(began)
	out, err := attempt(sp)
	n := 0
	for _, q := range out {
		n += len(q)
	}
	fmt.Println(yielded, n, "C20-ERR", err != nil)
}

// refused runs the attempt in its own process.
func refused(t *rapid.T, c *hx.C, sp *Spec) {
	j, _ := json.Marshal(sp)
	c.Case("%s", j)
	c.NonTrivial()
	c.Class(sp.Client)
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), helperEnv+"="+string(j))
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Start(); err != nil {
		hx.Broken("cannot start the helper: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var werr error
	select {
	case werr = <-done:
	case <-time.After(120 * time.Second):
		cmd.Process.Kill()
		<-done
		hx.Broken("helper did not end for %s", j)
	}
	o := buf.String()
	if !strings.Contains(o, began) {
		hx.Broken("helper did not begin: %v\n%s", werr, o)
	}
	if werr != nil && strings.Contains(werr.Error(), "signal") {
		hx.Broken("helper was killed: %v", werr)
	}
	i := strings.Index(o, yielded)
	if i < 0 {
		c.Class("ended without query")
		return
	}
	var n int
	var isErr string
	fmt.Sscanf(o[i:], yielded+" %d C20-ERR %s", &n, &isErr)
	if n > 0 {
		t.Fatalf("%d query bytes for %s", n, j)
	}
	if isErr == "true" {
		c.Class("error")
		return
	}
	c.Class("nothing")
}

func served(t *rapid.T, c *hx.C, sp *Spec, want int) {
	j, _ := json.Marshal(sp)
	c.Case("%s", j)
	c.Class(sp.Client)
	out, err := attempt(sp)
	if err != nil {
		t.Fatalf("refused %s: %v", j, err)
	}
	if len(out) != want {
		t.Fatalf("%d queries instead of %d for %s", len(out), want, j)
	}
	for k, q := range out {
		if len(q) == 0 {
			t.Fatalf("query %d is empty for %s", k, j)
		}
		if sp.Client == "PIR" && len(q) != len(out[0]) {
			t.Fatalf("queries have %d and %d bytes for %s", len(q), len(out[0]), j)
		}
	}
}

func shape(t *rapid.T, sp *Spec, big bool) {
	switch rapid.IntRange(0, 3).Draw(t, "layout") {
	case 0:
		sp.Rows, sp.Cols = 1, rapid.IntRange(1, 70).Draw(t, "cols")
	case 1:
		n := rapid.IntRange(1, 20).Draw(t, "side")
		sp.Rows, sp.Cols = n, n
	case 2:
		sp.Rows, sp.Cols = rapid.IntRange(1, 20).Draw(t, "rows"), rapid.IntRange(1, 40).Draw(t, "cols")
	case 3:
		if big {
			sp.Rows = 1 << rapid.IntRange(0, 15).Draw(t, "log-rows")
			sp.Cols = 1<<rapid.IntRange(0, 15).Draw(t, "log-cols") - rapid.IntRange(0, 1).Draw(t, "less")
			if sp.Cols == 0 {
				sp.Cols = 1
			}
		} else {
			sp.Rows, sp.Cols = 3, 5
		}
	}
}

// outside draws an index that is not in the database.
func outside(t *rapid.T, total int) int {
	switch rapid.IntRange(0, 6).Draw(t, "outside") {
	case 0:
		return total
	case 1:
		return -1
	case 2:
		return total + rapid.IntRange(1, 100).Draw(t, "beyond")
	case 3:
		return -rapid.IntRange(1, total+2).Draw(t, "negative")
	case 4:
		return rapid.SampledFrom([]int{math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, math.MaxUint32, math.MaxInt64 - 1, math.MinInt64 + 1}).Draw(t, "extreme")
	case 5: // valid after truncation to 32 bits
		return rapid.SampledFrom([]int{1, -1, 7}).Draw(t, "wraps")<<32 + rapid.IntRange(0, total-1).Draw(t, "index")
	default:
		return total * rapid.IntRange(1, 4).Draw(t, "times")
	}
}

func point(t *rapid.T) *Spec {
	sp := &Spec{Client: "PIR", Seed: rapid.Uint64().Draw(t, "seed"), BlockSize: rapid.IntRange(1, 40).Draw(t, "block")}
	sp.Type = rapid.SampledFrom([]string{"classical", "merkle", ""}).Draw(t, "type")
	sp.Bytes = rapid.Bool().Draw(t, "bytes")
	sp.Before = rapid.IntRange(0, 3).Draw(t, "before") == 0
	shape(t, sp, true)
	return sp
}

func pointRefused(t *rapid.T, c *hx.C) {
	sp := point(t)
	total := sp.Rows * sp.Cols
	sp.Servers = rapid.IntRange(2, 9).Draw(t, "servers")
	badServers := false
	kind := rapid.IntRange(0, 5).Draw(t, "unusable")
	switch kind {
	case 0, 1:
		badServers = true
		sp.Index = rapid.IntRange(0, total-1).Draw(t, "index")
	case 2:
		badServers = true
		sp.Index = outside(t, total)
	default:
		sp.Index = outside(t, total)
	}
	if badServers {
		sp.Servers = rapid.SampledFrom([]int{1, 1, 1, 0, -1, -2, math.MinInt64}).Draw(t, "few")
	}
	if kind == 5 && rapid.IntRange(0, 2).Draw(t, "empty") == 0 {
		if rapid.Bool().Draw(t, "no-rows") {
			sp.Rows = 0
		} else {
			sp.Cols = 0
		}
		sp.Before = false
		if rapid.Bool().Draw(t, "first") {
			sp.Index = 0
		}
	}
	if sp.Bytes {
		sp.In = gen.Index(int(uint32(sp.Index)))
		if int(uint32(sp.Index)) < total && !badServers {
			sp.In = gen.Index(total)
		}
		if rapid.IntRange(0, 7).Draw(t, "short") == 0 {
			sp.In = sp.In[:rapid.IntRange(0, 3).Draw(t, "len")]
		}
	}
	c.Class(fmt.Sprintf("few servers: %v", badServers))
	refused(t, c, sp)
}

func pointServed(t *rapid.T, c *hx.C) {
	sp := point(t)
	if sp.Rows*sp.Cols > 1<<22 {
		sp.Rows = 1
	}
	total := sp.Rows * sp.Cols
	sp.Index = rapid.SampledFrom([]int{0, total - 1, rapid.IntRange(0, total-1).Draw(t, "index")}).Draw(t, "which")
	sp.In = gen.Index(sp.Index)
	sp.Servers = rapid.SampledFrom([]int{2, 3, 4, 5, 9, 64, 200}).Draw(t, "servers")
	c.NonTrivialIf(sp.Index == 0 || sp.Index == total-1 || sp.Servers == 2)
	served(t, c, sp, sp.Servers)
}

func single(t *rapid.T) *Spec {
	sp := &Spec{Client: rapid.SampledFrom([]string{"DH", "LWE", "LWE128", "Amplify"}).Draw(t, "client"), Seed: rapid.Uint64().Draw(t, "seed")}
	sp.Before = rapid.IntRange(0, 3).Draw(t, "before") == 0
	sp.Rows, sp.Cols = rapid.IntRange(1, 6).Draw(t, "rows"), rapid.IntRange(1, 6).Draw(t, "cols")
	if sp.Client == "DH" && sp.Rows > 1 {
		sp.Cols = sp.Rows
	}
	return sp
}

func singleRefused(t *rapid.T, c *hx.C) {
	sp := single(t)
	sp.Index = outside(t, sp.Rows*sp.Cols)
	refused(t, c, sp)
}

func singleServed(t *rapid.T, c *hx.C) {
	sp := single(t)
	total := sp.Rows * sp.Cols
	sp.Index = rapid.SampledFrom([]int{0, total - 1, rapid.IntRange(0, total-1).Draw(t, "index")}).Draw(t, "which")
	c.NonTrivialIf(sp.Index == 0 || sp.Index == total-1)
	served(t, c, sp, 1)
}

func predicate(t *rapid.T) *Spec {
	sp := &Spec{Client: rapid.SampledFrom([]string{"PredicateAPIR", "PredicatePIR"}).Draw(t, "client"), Seed: rapid.Uint64().Draw(t, "seed")}
	sp.Before = rapid.IntRange(0, 3).Draw(t, "before") == 0
	sp.Bytes = rapid.Bool().Draw(t, "bytes")
	sp.Rows, sp.Cols = 1, rapid.IntRange(1, 100).Draw(t, "cols")
	sp.Target = rapid.IntRange(0, 3).Draw(t, "target")
	sp.And, sp.Avg = rapid.Bool().Draw(t, "and"), rapid.Bool().Draw(t, "avg")
	sp.Input = rapid.SliceOfN(rapid.Bool(), 1, 40).Draw(t, "input")
	return sp
}

func predicateRefused(t *rapid.T, c *hx.C) {
	sp := predicate(t)
	sp.Servers = rapid.SampledFrom([]int{1, 1, 3, 3, 0, -1, 4, 5, 100, -2, math.MinInt64, math.MaxInt64, 2 + 1<<32}).Draw(t, "servers")
	refused(t, c, sp)
}

func predicateServed(t *rapid.T, c *hx.C) {
	sp := predicate(t)
	sp.Servers = 2
	c.NonTrivial()
	served(t, c, sp, 2)
}
