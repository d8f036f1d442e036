package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	gl "github.com/fogleman/fauxgl"
	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
	dpb "github.com/gmlewis/stldice/v4/stldice"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/protoadapt"
)

// ---- server processes ----------------------------------------------------------

type proc struct {
	cmd  *exec.Cmd
	addr string
	out  *syncBuf
	done chan struct{}
	err  error
}

type syncBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *syncBuf) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.b.Len() > 1<<20 {
		s.b.Reset()
	}
	return s.b.Write(p)
}

func (s *syncBuf) tail() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	t := s.b.String()
	if i := strings.Index(t, "panic:"); i >= 0 {
		t = t[i:]
		if len(t) > 2500 {
			t = t[:2500]
		}
	}
	if len(t) > 2500 {
		t = t[len(t)-2500:]
	}
	return t
}

// startProc starts a server process on a local port of its own. args gets the address.
func startProc(dir, bin string, args func(addr string) []string) (*proc, error) {
	for try := 0; ; try++ {
		addr := freeAddress()
		p := &proc{addr: addr, out: &syncBuf{}, done: make(chan struct{})}
		p.cmd = exec.Command(bin, args(addr)...)
		p.cmd.Dir = dir
		p.cmd.Stdout, p.cmd.Stderr = p.out, p.out
		p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		p.cmd.WaitDelay = time.Second
		if err := p.cmd.Start(); err != nil {
			panic("harness: " + err.Error())
		}
		go func() {
			p.err = p.cmd.Wait()
			close(p.done)
		}()
		end := time.Now().Add(30 * time.Second)
		for p.alive() && time.Now().Before(end) {
			if conn, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
				conn.Close()
				return p, nil
			}
			time.Sleep(10 * time.Millisecond)
		}
		p.kill()
		if try == 2 {
			return nil, fmt.Errorf("%s does not listen on %s: %v\n%s", filepath.Base(bin), addr, p.err, p.out.tail())
		}
	}
}

// startProcNoWait starts a process whose address is not known.
func startProcNoWait(dir, bin string, args ...string) (*proc, error) {
	p := &proc{out: &syncBuf{}, done: make(chan struct{})}
	p.cmd = exec.Command(bin, args...)
	p.cmd.Dir = dir
	p.cmd.Stdout, p.cmd.Stderr = p.out, p.out
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	p.cmd.WaitDelay = time.Second
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		p.err = p.cmd.Wait()
		close(p.done)
	}()
	return p, nil
}

func (p *proc) alive() bool {
	select {
	case <-p.done:
		return false
	default:
		return true
	}
}

func (p *proc) kill() {
	syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
	<-p.done
}

// svxCluster is a master with agents, as processes.
type svxCluster struct {
	dir    string
	bin    string
	master *proc
	agents []*proc
	conn   *grpc.ClientConn
}

func startCluster(dir string, agents int) (*svxCluster, error) {
	s := &svxCluster{dir: dir, bin: cli("stl2svx/stl2svx-server", false)}
	var err error
	if s.master, err = startProc(dir, s.bin, func(a string) []string { return []string{"-port", a} }); err != nil {
		return nil, err
	}
	s.conn = dial(s.master.addr)
	for i := 0; i < agents; i++ {
		if err := s.addAgent(); err != nil {
			s.stop()
			return nil, err
		}
	}
	return s, nil
}

func (s *svxCluster) addAgent() error {
	a, err := startProc(s.dir, s.bin, func(a string) []string {
		_, port, _ := net.SplitHostPort(a)
		switch len(s.agents) % 3 {
		case 1: // the agent has to find out at which address it can be reached
			a = "0.0.0.0:" + port
		case 2:
			a = ":" + port
		}
		return []string{"-port", a, "-master", s.master.addr}
	})
	if err == nil {
		s.agents = append(s.agents, a)
	}
	return err
}

func (s *svxCluster) stop() {
	s.conn.Close()
	s.master.kill()
	for _, a := range s.agents {
		a.kill()
	}
}

// dead describes the processes that ended ("" when all of them run).
func (s *svxCluster) dead() string {
	time.Sleep(time.Millisecond)
	for i, p := range append([]*proc{s.master}, s.agents...) {
		if !p.alive() {
			return fmt.Sprintf("%s ended: %v\n%s", map[bool]string{true: "the master", false: "an agent"}[i == 0], p.err, p.out.tail())
		}
	}
	return ""
}

// ---- C27 -------------------------------------------------------------------------

func validVertices(fs []*pb.STLFile) bool {
	for _, f := range fs {
		for _, t := range f.GetTriangles() {
			for _, v := range []*pb.Vertex{t.GetV1(), t.GetV2(), t.GetV3()} {
				if v == nil || math.IsNaN(v.X+v.Y+v.Z) || math.IsInf(v.X+v.Y+v.Z, 0) {
					return false
				}
			}
		}
	}
	return true
}

// jobVerdict tells whether a request is a valid job. It returns "huge" for
// requests that would need a lot of resources, and "either" for borderline ones.
func jobVerdict(req *pb.NewJobRequest) string {
	if req.GetDim() > 64 || req.GetNX() > 1000 || req.GetNY() > 1000 || req.GetNZ() > 1000 {
		return "huge"
	}
	if len(req.GetStlFiles()) == 0 || len(req.GetStlFiles()[0].GetTriangles()) == 0 || !validVertices(req.GetStlFiles()) ||
		req.Dim < 1 || req.NX < 1 || req.NY < 1 || req.NZ < 1 {
		return "invalid"
	}
	var lo, hi []gl.Vector
	for _, f := range req.StlFiles {
		for _, t := range f.Triangles {
			for i, v := range []*pb.Vertex{t.V1, t.V2, t.V3} {
				p := gl.V(v.X, v.Y, v.Z)
				if len(lo) == 0 {
					lo, hi = append(lo, p), append(hi, p)
				}
				_ = i
				if f == req.StlFiles[0] {
					lo[0], hi[0] = lo[0].Min(p), hi[0].Max(p)
				}
				if math.Max(math.Abs(p.X), math.Max(math.Abs(p.Y), math.Abs(p.Z))) > 1e6 {
					return "huge"
				}
			}
		}
	}
	e := hi[0].Sub(lo[0])
	big := math.Max(e.X, math.Max(e.Y, e.Z))
	if big == 0 {
		return "invalid"
	}
	for _, f := range req.StlFiles[1:] {
		for _, t := range f.Triangles {
			for _, v := range []*pb.Vertex{t.V1, t.V2, t.V3} {
				if gl.V(v.X, v.Y, v.Z).Sub(lo[0]).Length() > 1e4*big {
					return "huge"
				}
			}
		}
	}
	if big < 1e-6 {
		return "either"
	}
	for i, x := range []float64{e.X, e.Y, e.Z} {
		n := x / big * float64(req.Dim)
		div := float64([]int64{req.NX, req.NY, req.NZ}[i])
		switch {
		case div > math.Ceil(n+1e-3):
			return "invalid"
		case div > math.Ceil(n-1e-3):
			return "either"
		}
	}
	return "valid"
}

type malformer struct {
	name string
	f    func(r *rand.Rand, q *pb.NewJobRequest)
}

func anyFile(r *rand.Rand, q *pb.NewJobRequest) *pb.STLFile {
	return q.StlFiles[r.Intn(len(q.StlFiles))]
}

var badFloats = []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64}
var badDims = []int64{0, -1, -7, math.MinInt64, -1 << 40}

func anyTri(r *rand.Rand, q *pb.NewJobRequest) *pb.Triangle {
	f := anyFile(r, q)
	if len(f.Triangles) == 0 {
		f = q.StlFiles[0]
	}
	return f.Triangles[r.Intn(len(f.Triangles))]
}

var malformers = []malformer{
	{"no files", func(r *rand.Rand, q *pb.NewJobRequest) { q.StlFiles = nil }},
	{"empty base", func(r *rand.Rand, q *pb.NewJobRequest) { q.StlFiles[0] = &pb.STLFile{} }},
	{"missing vertex", func(r *rand.Rand, q *pb.NewJobRequest) {
		t := anyTri(r, q)
		switch r.Intn(4) {
		case 0:
			t.V1 = nil
		case 1:
			t.V2 = nil
		case 2:
			t.V3 = nil
		default:
			*t = pb.Triangle{}
		}
	}},
	{"odd coordinate", func(r *rand.Rand, q *pb.NewJobRequest) {
		t := anyTri(r, q)
		v := []*pb.Vertex{t.V1, t.V2, t.V3}[r.Intn(3)]
		*[]*float64{&v.X, &v.Y, &v.Z}[r.Intn(3)] = badFloats[r.Intn(3)]
	}},
	{"huge base coordinate", func(r *rand.Rand, q *pb.NewJobRequest) {
		v := q.StlFiles[0].Triangles[0].V1
		*[]*float64{&v.X, &v.Y, &v.Z}[r.Intn(3)] = badFloats[3+r.Intn(2)]
		q.StlFiles = q.StlFiles[:1]
	}},
	{"dim", func(r *rand.Rand, q *pb.NewJobRequest) { q.Dim = badDims[r.Intn(len(badDims))] }},
	{"division", func(r *rand.Rand, q *pb.NewJobRequest) {
		*[]*int64{&q.NX, &q.NY, &q.NZ}[r.Intn(3)] = badDims[r.Intn(len(badDims))]
	}},
	{"too many divisions", func(r *rand.Rand, q *pb.NewJobRequest) {
		*[]*int64{&q.NX, &q.NY, &q.NZ}[r.Intn(3)] = q.Dim + 1 + int64(r.Intn(900))
	}},
	{"a point", func(r *rand.Rand, q *pb.NewJobRequest) {
		v := &pb.Vertex{X: 1, Y: 2, Z: 3}
		q.StlFiles[0] = &pb.STLFile{Triangles: []*pb.Triangle{{V1: v, V2: v, V3: v}}}
	}},
	{"flat base", func(r *rand.Rand, q *pb.NewJobRequest) {
		ax := r.Intn(3)
		for _, t := range q.StlFiles[0].Triangles {
			for _, v := range []*pb.Vertex{t.V1, t.V2, t.V3} {
				*[]*float64{&v.X, &v.Y, &v.Z}[ax] = .5
			}
		}
	}},
	{"everything zero", func(r *rand.Rand, q *pb.NewJobRequest) { *q = pb.NewJobRequest{} }},
}

var harmless = []malformer{
	{"degenerate triangle", func(r *rand.Rand, q *pb.NewJobRequest) {
		f := anyFile(r, q)
		if len(f.Triangles) > 0 {
			t := f.Triangles[r.Intn(len(f.Triangles))]
			f.Triangles = append(f.Triangles, &pb.Triangle{V1: t.V1, V2: t.V1, V3: t.V1}, &pb.Triangle{V1: t.V1, V2: t.V2, V3: t.V2})
		}
	}},
	{"hole in the mesh", func(r *rand.Rand, q *pb.NewJobRequest) {
		f := anyFile(r, q)
		if len(f.Triangles) > 4 {
			f.Triangles = f.Triangles[2:]
		}
	}},
	{"flipped triangles", func(r *rand.Rand, q *pb.NewJobRequest) {
		for _, t := range anyFile(r, q).Triangles {
			if r.Intn(2) == 0 {
				t.V1, t.V2 = t.V2, t.V1
			}
		}
	}},
	{"doubled file", func(r *rand.Rand, q *pb.NewJobRequest) { q.StlFiles = append(q.StlFiles, anyFile(r, q)) }},
	{"odd prefix", func(r *rand.Rand, q *pb.NewJobRequest) {
		q.OutPrefix = []string{"", "../../x", "/", "%d%s", strings.Repeat("a", 5000)}[r.Intn(5)]
	}},
	{"nothing", func(r *rand.Rand, q *pb.NewJobRequest) {}},
}

// cloneJob makes a request that shares nothing with the original.
func cloneJob(q *pb.NewJobRequest) *pb.NewJobRequest {
	b := marshal(q)
	out := &pb.NewJobRequest{}
	if err := proto.Unmarshal(b, protoadapt.MessageV2Of(out)); err != nil {
		panic("harness: " + err.Error())
	}
	return out
}

func marshal(m protoadapt.MessageV1) []byte {
	b, err := proto.Marshal(protoadapt.MessageV2Of(m))
	if err != nil {
		panic("harness: " + err.Error())
	}
	return b
}

// rawCodec sends bytes as they are.
type rawCodec struct{}

func (rawCodec) Marshal(v any) ([]byte, error)      { return v.([]byte), nil }
func (rawCodec) Unmarshal(data []byte, v any) error { *(v.(*[]byte)) = data; return nil }
func (rawCodec) Name() string                       { return "proto" }

var callLimit = 60 * time.Second

func c27svx(c *Ctx) {
	var s *svxCluster
	var aconn *grpc.ClientConn
	restart := func() bool {
		if s != nil {
			s.stop()
			aconn.Close()
		}
		var err error
		if s, err = startCluster(c.Dir, 4); err != nil {
			c.Case("start", func(k *K) { k.Failf("start", "%v", err) })
			return false
		}
		aconn = dial(s.agents[0].addr)
		return true
	}
	if !restart() {
		return
	}
	defer func() { s.stop(); aconn.Close() }()
	checkWorks := func(k *K, after string) bool {
		j := genJob(k.R, 8)
		ctx, cancel := context.WithTimeout(context.Background(), callLimit)
		defer cancel()
		resp, err := pb.NewMasterClient(s.conn).NewJob(ctx, j.req)
		if err == nil {
			_, files, e := readSVX(resp.GetSvxFile())
			if n, _ := j.dims(); e == nil && len(files) != n.Z+3 {
				e = fmt.Errorf("%d files", len(files))
			}
			err = e
		}
		if err != nil {
			k.Failf("valid-job", "a valid job failed after %s: %v\n%s", after, err, s.dead())
			return false
		}
		k.Count("valid_jobs", 1)
		return true
	}
	c.Cases("request", c.N(1000, 12000), 1, func(k *K, i int) {
		r := k.R
		j := genJob(r, 10)
		q := cloneJob(j.req)
		what := ""
		apply := func(m malformer) {
			defer func() { recover() }() // it is already too malformed for that
			m.f(r, q)
			what += m.name + ", "
		}
		if r.Intn(4) > 0 {
			apply(malformers[i%len(malformers)])
		}
		for r.Intn(3) == 0 {
			apply(append(harmless, malformers...)[r.Intn(len(harmless)+len(malformers))])
		}
		ctx, cancel := context.WithTimeout(context.Background(), callLimit)
		defer cancel()
		slice := r.Intn(2) == 0
		var err error
		verdict := jobVerdict(q)
		if verdict == "huge" && !strings.Contains(what, "huge base") {
			return
		}
		z := int64(0)
		if slice {
			n, _ := j.dims()
			z = int64(r.Intn(n.Z))
			if r.Intn(3) == 0 {
				z = []int64{-1, int64(n.Z), math.MaxInt64, math.MinInt64, 1000}[r.Intn(5)]
				if verdict == "valid" {
					verdict = "either"
				}
				what += fmt.Sprintf("slice %d", z)
			} else if verdict == "valid" && what != "" {
				verdict = "either" // the dimensions can be others now
			}
		}
		raw := r.Intn(4) == 0
		switch {
		case raw:
			what += " as mutated bytes"
			m := mutateBytes(r, marshal(q))
			if r.Intn(8) == 0 {
				m = make([]byte, r.Intn(200))
				r.Read(m)
			}
			p := &pb.NewJobRequest{}
			verdict = "either"
			if proto.Unmarshal(m, protoadapt.MessageV2Of(p)) != nil {
				verdict = "invalid"
			} else if jobVerdict(p) == "huge" {
				return
			}
			method := "/stl2svx.Master/NewJob"
			if slice {
				sm := append([]byte{10}, varint(uint64(len(m)))...)
				m = append(append(sm, m...), append([]byte{16}, varint(uint64(z))...)...)
				method = "/stl2svx.Agent/SliceJob"
				err = aconn.Invoke(ctx, method, m, new([]byte), grpc.ForceCodec(rawCodec{}))
			} else {
				err = s.conn.Invoke(ctx, method, m, new([]byte), grpc.ForceCodec(rawCodec{}))
			}
		case slice:
			req := &pb.SliceJobRequest{NewJobRequest: q, Z: z}
			if r.Intn(12) == 0 {
				req.NewJobRequest = nil
				verdict, what = "invalid", "a slice of no job"
			}
			var resp *pb.SliceJobResponse
			if resp, err = pb.NewAgentClient(aconn).SliceJob(ctx, req); err == nil && resp.GetError() != "" {
				err = errors.New(resp.GetError())
			}
		default:
			var resp *pb.NewJobResponse
			if resp, err = pb.NewMasterClient(s.conn).NewJob(ctx, q); err == nil && resp.GetError() != "" {
				err = errors.New(resp.GetError())
			}
		}
		where := map[bool]string{true: "the agent", false: "the master"}[slice]
		if status.Code(err) == codes.Unavailable {
			time.Sleep(50 * time.Millisecond)
		}
		if d := s.dead(); d != "" {
			k.Failf("died", "after a request to %s with %s: %v\n%s\n%v", where, what, err, d, j)
			restart()
			return
		}
		switch {
		case ctx.Err() != nil:
			k.Failf("hang", "no answer to a request to %s with %s within %v\n%v", where, what, callLimit, j)
			restart()
			return
		case verdict == "invalid" && err == nil:
			k.Failf("accepted", "%s accepted a request with %s\n%v", where, what, j)
		case verdict == "valid" && err != nil:
			k.Failf("rejected", "%s rejected a request with %s: %v\n%v", where, what, err, j)
		}
		k.Count(verdict, 1)
		k.Distinct("%s, %s (%s): %v", where, what, verdict, err)
		if i%10 == 9 && !checkWorks(k, what) {
			restart()
		}
	})
	// registrations of addresses at which there is no agent
	c.Cases("register", c.N(30, 250), 1, func(k *K, i int) {
		r := k.R
		var closers []io.Closer
		defer func() {
			for _, c := range closers {
				c.Close()
			}
		}()
		listen := func(f func(net.Conn)) string {
			lis, err := net.Listen("tcp", freeAddress())
			if err != nil {
				panic("harness: " + err.Error())
			}
			closers = append(closers, lis)
			go func() {
				for {
					conn, err := lis.Accept()
					if err != nil {
						return
					}
					go f(conn)
				}
			}()
			return lis.Addr().String()
		}
		kinds := []struct {
			name string
			f    func() string
		}{
			{"no address", func() string { return "" }},
			{"a closed port", freeAddress},
			{"a port without a host", func() string { return ":1" }},
			{"port 0", func() string { return "127.0.0.1:0" }},
			{"a false port", func() string { return "127.0.0.1:99999" }},
			{"no port", func() string { return "127.0.0.1" }},
			{"a URL", func() string { return "http://127.0.0.1:1/x" }},
			{"a false URL", func() string { return "://%zz" }},
			{"another scheme", func() string { return "unix:///nonexistent/socket" }},
			{"a long string", func() string { return strings.Repeat("x", 1+r.Intn(100000)) }},
			{"control characters", func() string { return "127.0.0.1\x00\n:1" }},
			{"random bytes", func() string { b := make([]byte, 1+r.Intn(30)); r.Read(b); return string(b) }},
			{"a file's path", func() string { return "/etc/passwd" }},
			{"the master itself", func() string { return s.master.addr }},
			{"an HTTP server", func() string {
				return listen(func(conn net.Conn) {
					conn.Read(make([]byte, 1000))
					io.WriteString(conn, "HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
					conn.Close()
				})
			}},
			{"a server that hangs up", func() string { return listen(func(conn net.Conn) { conn.Close() }) }},
			{"a server that sends random bytes", func() string {
				b := make([]byte, 1000)
				r.Read(b)
				return listen(func(conn net.Conn) { conn.Write(b); conn.Close() })
			}},
			{"an agent that is registered", func() string { return s.agents[r.Intn(len(s.agents))].addr }},
		}
		var what []string
		for n := 1 + r.Intn(5); n > 0; n-- {
			kind := kinds[r.Intn(len(kinds))]
			if len(what) == 0 {
				kind = kinds[i%len(kinds)]
			}
			what = append(what, kind.name)
			addr := kind.f()
			m := append(append([]byte{10}, varint(uint64(len(addr)))...), addr...)
			ctx, cancel := context.WithTimeout(context.Background(), callLimit)
			err := s.conn.Invoke(ctx, "/stl2svx.Master/RegisterAgent", m, new([]byte), grpc.ForceCodec(rawCodec{}))
			late := ctx.Err() != nil
			cancel()
			if late {
				k.Failf("hang", "no answer to the registration of %s: %v", kind.name, err)
				restart()
				return
			}
		}
		// each of them is used some time
		for j := 0; j < 3; j++ {
			if !checkWorks(k, "the registration of "+strings.Join(what, ", ")) {
				restart()
				return
			}
		}
		if d := s.dead(); d != "" {
			k.Failf("died", "after the registration of %s: %s", strings.Join(what, ", "), d)
			restart()
			return
		}
		k.Distinct("registered %s", strings.Join(what, ", "))
	})
	c.Case("end", func(k *K) { checkWorks(k, "all requests") })
}

func varint(x uint64) []byte {
	var b []byte
	for x >= 0x80 {
		b = append(b, byte(x)|0x80)
		x >>= 7
	}
	return append(b, byte(x))
}

func regionFile(v *dpb.VoxelRegion) string {
	return fmt.Sprintf("model-%v-%v-%v-%v-%v-%v-%v-%v-%v.binvox", v.Llx, v.Lly, v.Llz, v.Urx, v.Ury, v.Urz, v.Nx, v.Ny, v.Nz)
}

func c27slave(c *Ctx) {
	bin := cli("server/stldice-slave", false)
	dir := filepath.Join(c.Dir, "slave")
	os.MkdirAll(dir, 0755)
	var p *proc
	var conn *grpc.ClientConn
	start := func() bool {
		if p != nil {
			p.kill()
			conn.Close()
		}
		var err error
		// With so little memory that no request may take gigabytes.
		if p, err = startProc(dir, "/bin/sh", func(a string) []string {
			return []string{"-c", `ulimit -v 6000000; exec "$0" "$@"`, bin, "-port", a}
		}); err != nil {
			c.Case("slave-start", func(k *K) { k.Failf("start", "%v", err) })
			return false
		}
		conn = dial(p.addr)
		return true
	}
	if !start() {
		return
	}
	defer func() { p.kill(); conn.Close() }()
	c.Cases("slave", c.N(600, 6000), 1, func(k *K, i int) {
		r := k.R
		cl := dpb.NewSTLDiceClient(conn)
		ctx, cancel := context.WithTimeout(context.Background(), callLimit)
		defer cancel()
		f := func() float64 {
			if r.Intn(8) == 0 {
				return badFloats[r.Intn(len(badFloats))]
			}
			return float64(r.Intn(5))
		}
		reg := &dpb.VoxelRegion{Llx: f(), Lly: f(), Llz: f(), Urx: f(), Ury: f(), Urz: f(), Nx: int64(r.Intn(12) - 2), Ny: int64(r.Intn(12) - 2), Nz: int64(r.Intn(12) - 2)}
		if r.Intn(8) == 0 {
			reg = nil
		}
		name := ""
		if reg != nil {
			name = filepath.Join(dir, regionFile(reg))
		}
		haveModel := false
		ts := genSolid(r, r.Intn(solidKinds), 4).tris
		stl := encodeSTL(ts)
		what := "binary STL"
		switch r.Intn(10) {
		case 0:
			stl, what = encodeASCII(ts), "ASCII STL"
		case 1:
			stl, what = stl[:r.Intn(len(stl))], "truncated STL"
		case 2:
			b := encodeASCII(ts)
			stl, what = b[:r.Intn(len(b))], "truncated ASCII STL"
		case 3:
			stl, what = mutateBytes(r, stl), "mutated STL"
		case 4:
			stl, what = mutateBytes(r, encodeASCII(ts)), "mutated ASCII STL"
		case 5:
			stl, what = nil, "no STL"
		case 6:
			stl, what = make([]byte, r.Intn(300)), "zeros"
		case 7: // a number of triangles whose size is the data's up to overflow
			n := 4294967296 - uint64(r.Intn(40)) - 1
			bits := []uint64{1 << 32, 1 << 31, 1 << 30}[r.Intn(3)]
			n &= bits - 1
			for n*50%(1<<32)+84 > 4000 {
				n--
			}
			stl, what = make([]byte, n*50%(1<<32)+84), "overflowing STL"
			binary.LittleEndian.PutUint32(stl[80:], uint32(n))
		}
		if name != "" && r.Intn(2) == 0 {
			m := genModel(r, 6, true)
			bv := m.bv()
			file := filepath.Join(dir, "tmp.binvox")
			if err := bv.Write(file, 0, 0, 0, 0, 0, 0); err != nil {
				panic("harness: " + err.Error())
			}
			b, _ := os.ReadFile(file)
			haveModel = true
			if r.Intn(2) == 0 {
				at := bytes.Index(b, []byte("data\n")) + 5
				b = append(b[:at:at], mutateBytes(r, b[at:])...)
				haveModel = false
			}
			writeFile(name, b)
			defer os.Remove(name)
		}
		var err error
		op := r.Intn(3)
		switch op {
		case 0:
			_, err = cl.AddSTLMesh(ctx, &dpb.AddSTLMeshRequest{VoxelRegion: reg, StlFile: stl})
		case 1:
			_, err = cl.SubSTLMesh(ctx, &dpb.SubSTLMeshRequest{VoxelRegion: reg, StlFile: stl})
		default:
			var rep *dpb.GetSTLMeshReply
			rep, err = cl.GetSTLMesh(ctx, &dpb.GetSTLMeshRequest{VoxelRegion: reg})
			if haveModel && err != nil {
				k.Failf("rejected", "GetSTLMesh: %v", err)
			}
			if err == nil {
				if _, e := decodeSTL(rep.GetStlFile()); e != nil {
					k.Failf("mesh", "GetSTLMesh returns no complete STL file: %v", e)
				}
				if name == "" || !exists(name) {
					k.Failf("accepted", "GetSTLMesh succeeds without a model for %v", reg)
				}
			}
		}
		if name != "" {
			os.Remove(name) // no state for the next case
		}
		opName := []string{"AddSTLMesh", "SubSTLMesh", "GetSTLMesh"}[op]
		if status.Code(err) == codes.Unavailable {
			time.Sleep(50 * time.Millisecond)
		}
		if !p.alive() {
			k.Failf("died", "stldice-slave ended after %s with %s, model %v, region %v: %v\n%s", opName, what, haveModel, reg, err, p.out.tail())
			start()
			return
		}
		if ctx.Err() != nil {
			k.Failf("hang", "%s did not end", opName)
			start()
			return
		}
		k.Count(opName, 1)
		k.Distinct("%s %s, model %v: %v", opName, what, haveModel, err)
	})
}

func init() {
	register(&checkDef{id: "C27", rule: "distinct kinds of requests and answers, each followed by a check that the servers still work", run: func(c *Ctx) {
		c27svx(c)
		c27slave(c)
	}})
}
