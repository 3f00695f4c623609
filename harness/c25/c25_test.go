package c25

import (
	"bytes"
	"errors"
	"fmt"
	"path/filepath"
	"testing"
	"time"

	"aaverif/e2e"
	"aaverif/hx"

	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/query"
	"google.golang.org/protobuf/encoding/prototext"
	googleproto "google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	e2e.HelperMain()
	hx.Main(m, hx.Meta{ID: "C25",
		Rule:        "2 to 5 stand-in servers that report descriptions of a database, all alike or with one or more servers that differ in one or more properties, by little or much (one bit or byte of the root, rows and columns exchanged, a value and its neighbour), the reports arriving in random order; the client program with every scheme and the client library; besides, 20000 pairs of descriptions compared directly; non-trivial when the descriptions differ",
		Assumptions: []string{"the loopback network is available", "the built-in certificates are valid"}})
}

func TestProps(t *testing.T) {
	hx.NoHang()
	e2e.CheckCertificates()
	hx.Run(t, "program", 220, 3000, func(t *rapid.T, c *hx.C) { compare(t, c, true) })
	hx.Run(t, "descriptions", 20000, 400000, descriptions)
	hx.Run(t, "library", 220, 3000, func(t *rapid.T, c *hx.C) { compare(t, c, false) })
}

func base(t *rapid.T, complex bool) *proto.DatabaseInfoResponse {
	i := &proto.DatabaseInfoResponse{
		NumRows:     uint32(rapid.IntRange(1, 12).Draw(t, "rows")),
		NumColumns:  uint32(rapid.IntRange(1, 12).Draw(t, "cols")),
		BlockLength: uint32(rapid.IntRange(60, 200).Draw(t, "block")),
	}
	switch {
	case complex:
		i.NumRows, i.BlockLength = 0, 0
		i.Root = []byte{0}
	case rapid.Bool().Draw(t, "merkle"):
		i.PirType = "merkle"
		i.Root = rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "root")
		i.ProofLen = uint32(rapid.IntRange(20, 50).Draw(t, "proof"))
	}
	return i
}

func near(t *rapid.T, v uint32) uint32 {
	w := v
	switch rapid.IntRange(0, 7).Draw(t, "by") {
	case 0:
		w++
	case 1:
		w--
	case 2, 5, 6, 7:
		w ^= 1 << rapid.IntRange(0, 31).Draw(t, "bit")
	case 3:
		w = 0
	case 4:
		w *= 2
	}
	if w == v {
		w = v + 1
	}
	return w
}

// differ changes one property.
func differ(t *rapid.T, i *proto.DatabaseInfoResponse) (*proto.DatabaseInfoResponse, string) {
	o := googleproto.Clone(i).(*proto.DatabaseInfoResponse)
	what := rapid.SampledFrom([]string{"rows", "columns", "exchanged", "block", "type", "root", "proof"}).Draw(t, "property")
	switch what {
	case "rows":
		o.NumRows = near(t, o.NumRows)
	case "columns":
		o.NumColumns = near(t, o.NumColumns)
	case "exchanged":
		if o.NumRows == o.NumColumns {
			o.NumRows = near(t, o.NumRows)
		} else {
			o.NumRows, o.NumColumns = o.NumColumns, o.NumRows
		}
	case "block":
		o.BlockLength = near(t, o.BlockLength)
	case "type":
		o.PirType = rapid.SampledFrom([]string{"", "merkle", "Merkle", "merkle ", "classical"}).Filter(func(s string) bool { return s != i.PirType }).Draw(t, "type")
	case "root":
		r := append([]byte{}, o.Root...)
		switch k := rapid.IntRange(0, 3).Draw(t, "change"); {
		case k == 0 && len(r) > 0:
			r = r[:len(r)-1]
		case k == 1 && len(r) > 0:
			r = nil
		case k == 2 && len(r) > 0:
			r[rapid.IntRange(0, len(r)-1).Draw(t, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "rbit")
		default:
			r = append(r, byte(rapid.IntRange(0, 1).Draw(t, "more")))
		}
		o.Root = r
	case "proof":
		o.ProofLen = near(t, o.ProofLen)
	}
	return o, what
}

func info(i *proto.DatabaseInfoResponse) *database.Info {
	return &database.Info{NumRows: int(i.NumRows), NumColumns: int(i.NumColumns), BlockSize: int(i.BlockLength), PIRType: i.PirType,
		Merkle: &database.Merkle{Root: i.Root, ProofLen: int(i.ProofLen)}}
}

// descriptions compares the comparison itself with the definition.
func descriptions(t *rapid.T, c *hx.C) {
	b := base(t, rapid.IntRange(0, 3).Draw(t, "complex") == 0)
	o, what := googleproto.Clone(b).(*proto.DatabaseInfoResponse), "alike"
	for k := rapid.IntRange(0, 3).Draw(t, "changes"); k > 0; k-- {
		o, what = differ(t, o)
	}
	same := googleproto.Equal(b, o) || b.NumRows == o.NumRows && b.NumColumns == o.NumColumns && b.BlockLength == o.BlockLength &&
		b.PirType == o.PirType && bytes.Equal(b.Root, o.Root) && b.ProofLen == o.ProofLen
	c.Case("{%s} and {%s} (%s)", prototext.MarshalOptions{}.Format(b), prototext.MarshalOptions{}.Format(o), what)
	c.NonTrivialIf(!same)
	if x, y := info(b), info(o); x.Equal(y) != same || y.Equal(x) != same {
		t.Fatalf("{%v} and {%v} compare as equal=%v/%v", b, o, x.Equal(y), y.Equal(x))
	}
}

func compare(t *rapid.T, c *hx.C, program bool) {
	scheme := rapid.SampledFrom([]string{"pointVPIR", "pointPIR", "complexVPIR", "complexPIR"}).Draw(t, "scheme")
	complex := scheme[0] == 'c'
	n := 2
	// statistics take two servers, more are refused on their own
	if !complex {
		n = rapid.IntRange(2, e2e.MaxServers).Draw(t, "servers")
	}
	b := base(t, complex)
	infos := make([]*proto.DatabaseInfoResponse, n)
	for i := range infos {
		infos[i] = b
	}
	desc := "alike"
	differing := rapid.IntRange(0, 3).Draw(t, "alike") > 0
	if differing {
		o, what := differ(t, b)
		desc = what
		if rapid.IntRange(0, 4).Draw(t, "more") == 0 {
			// another change; it may undo the first one
			var w2 string
			o, w2 = differ(t, o)
			desc += "+" + w2
		}
		if k := rapid.IntRange(0, n-1).Draw(t, "which"); rapid.Bool().Draw(t, "one") {
			infos[k] = o
		} else {
			for i := range infos {
				if i != k && rapid.Bool().Draw(t, "too") {
					infos[i] = o
				}
			}
		}
	}
	differing = false
	for _, i := range infos[1:] {
		differing = differing || !googleproto.Equal(infos[0], i)
	}
	// new ones for every case: a client that gives up may leave queries behind
	// that reach a server late
	fakes := e2e.Fakes(n)
	defer e2e.StopFakes(fakes)
	delays := make([]int, n)
	var addrs []string
	for i := 0; i < n; i++ {
		delays[i] = rapid.SampledFrom([]int{0, 0, 1, 4, 9}).Draw(t, "delay")
		fakes[i].Reset(infos[i], time.Duration(delays[i])*time.Millisecond, 0, func([]byte) ([]byte, error) { return nil, errors.New("no answer") })
		addrs = append(addrs, fakes[i].Addr)
	}
	all := ""
	for i := range infos {
		all += fmt.Sprintf("%d:{%s} ", i, prototext.MarshalOptions{}.Format(infos[i]))
	}
	c.Case("%s, differ=%v (%s), delays %v: %s", scheme, differing, desc, delays, all)
	c.NonTrivialIf(differing)
	c.Class(desc, fmt.Sprintf("servers%d", n))
	conf := filepath.Join(hx.WorkDir(), "config.toml")
	e2e.WriteConfig(conf, addrs, rapid.Permutation(seq(n)).Draw(t, "listed"))

	var failed bool
	var out string
	if program {
		args := []string{"-scheme", scheme, "-id", "somebody@x.org"}
		if complex {
			args = append(args, "-target", "email")
		}
		r := e2e.Run(e2e.Build("cmd/grpc/client"), conf, args...)
		if r.Hung {
			t.Fatalf("the client does not end:\n%s", r.Out)
		}
		failed, out = r.Exit != 0, r.Out
	} else {
		op := e2e.Op{Kind: "key", ID: "somebody@x.org", Seed: 1}
		if complex {
			q := &query.Info{Target: query.UserId}
			op = e2e.Stat(q.ToEmailClientFSS("somebody@x.org"), scheme, 1)
		}
		if rapid.IntRange(0, 3).Draw(t, "only") == 0 {
			op = e2e.Op{Kind: "infos"}
		}
		job := &e2e.Job{Conf: conf, Gzip: true, Parallel: 1, Ops: []e2e.Op{op}}
		r := job.Do()
		if r.Hung {
			t.Fatalf("the client does not end:\n%s", r.Log)
		}
		out = r.Log
		failed = r.Exit != 0
		if r.Exit == 0 {
			out = r.Ops[0].Err
			failed = out != ""
		}
		if op.Kind == "infos" && !differing {
			if failed || r.Ops[0].Infos != n {
				t.Fatalf("servers that agree are refused: %s", out)
			}
			return
		}
	}
	e2e.DrainFakes(fakes)
	sent := 0
	for i := 0; i < n; i++ {
		if fakes[i].Infos() == 0 {
			t.Fatalf("server %d was not asked for its description: %s", i, out)
		}
		sent += len(fakes[i].Queries())
	}
	switch {
	case differing && sent > 0:
		t.Fatalf("%d servers got a query although they disagree", sent)
	case differing && !failed:
		t.Fatalf("the client reports no error although the servers disagree: %s", out)
	case !differing && sent == 0:
		t.Fatalf("no server got a query although they agree: %s", out)
	}
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}
