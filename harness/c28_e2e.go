package main

import (
	"context"
	"fmt"
	"math"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/stl2svx/master"
	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
	dpb "github.com/gmlewis/stldice/v4/stldice"
	"google.golang.org/grpc"
)

// judgeSVX compares a complete archive with its job. all are the voxels in the grid of the archive.
func judgeSVX(j *svxJob, svx []byte) (key, what string, all vset, m *svxManifest) {
	m, files, err := readSVX(svx)
	if err != nil {
		return "archive", err.Error(), nil, nil
	}
	slices, err := sliceImages(m, files)
	if err != nil {
		return "manifest", err.Error(), nil, m
	}
	n := P{m.GX - 2, m.GZ - 2, m.GY - 2}
	if !j.dimOK(n.X, j.ext.X) || !j.dimOK(n.Y, j.ext.Y) || !j.dimOK(n.Z, j.ext.Z) {
		return "size", fmt.Sprintf("the grid has %v voxels (without its border), but the model has %v mm at %v mm per voxel", n, j.ext, j.mmpv), nil, m
	}
	if math.Abs(m.VoxelSize*1000-j.mmpv) > 1e-9*j.mmpv {
		return "voxel-size", fmt.Sprintf("voxelSize is %v m instead of %v mm", m.VoxelSize, j.mmpv), nil, m
	}
	tol := 1e-9 * (1 + math.Abs(j.min.X) + math.Abs(j.min.Y) + math.Abs(j.min.Z))
	if math.Abs(m.OX-j.min.X) > tol || math.Abs(m.OY-j.min.Z) > tol || math.Abs(m.OZ-j.min.Y) > tol {
		return "origin", fmt.Sprintf("the origin is (%v,%v,%v), but the model begins at %v", m.OX, m.OY, m.OZ, j.min), nil, m
	}
	for _, c := range m.Channels.Channel {
		if c.Bits != 8 || !strings.EqualFold(c.Type, "density") {
			return "channel", fmt.Sprintf("channel %+v", c), nil, m
		}
	}
	sj, err := newSliceJudge(j, n)
	if err != nil {
		return "error", err.Error(), nil, m
	}
	all = vset{}
	for y, px := range slices {
		got := vset{}
		for p := range px {
			all[P{p.X, y, p.Y}] = struct{}{}
			q := P{p.X - 1, n.Y - p.Y, 0}
			if q.X < 0 || q.Y < 0 || q.X >= n.X || q.Y >= n.Y {
				return "border", fmt.Sprintf("slice %d has a white pixel on its border: %v", y, p), nil, m
			}
			got[q] = struct{}{}
		}
		if y == 0 || y == len(slices)-1 {
			if len(got) > 0 {
				return "border", fmt.Sprintf("slice %d of %d has white pixels", y, len(slices)), nil, m
			}
			continue
		}
		if key, what, _ := sj.check(y-1, got, n); key != "" {
			return key, what, nil, m
		}
	}
	return "", "", all, m
}

// localCluster is a master with agents in this process.
func localCluster(agents int) (m pb.MasterServer, stop func()) {
	mm := master.New()
	addr, ms := serve(func(s *grpc.Server) { pb.RegisterMasterServer(s, mm) })
	stops := []func(){ms.Stop}
	for i := 0; i < agents; i++ {
		h := &agentHolder{}
		a, s := serve(func(s *grpc.Server) { pb.RegisterAgentServer(s, h) })
		h.set(realAgent(a, addr))
		stops = append(stops, s.Stop)
	}
	return mm, func() {
		for _, f := range stops {
			f()
		}
	}
}

// agentHolder is an agent that is made after its server, because its address has to be known.
type agentHolder struct {
	mu sync.Mutex
	a  pb.AgentServer
}

func (h *agentHolder) set(a pb.AgentServer) {
	h.mu.Lock()
	h.a = a
	h.mu.Unlock()
}

func (h *agentHolder) SliceJob(ctx context.Context, in *pb.SliceJobRequest) (*pb.SliceJobResponse, error) {
	for {
		h.mu.Lock()
		a := h.a
		h.mu.Unlock()
		if a != nil {
			return a.SliceJob(ctx, in)
		}
		time.Sleep(time.Millisecond)
	}
}

func init() {
	register(&checkDef{id: "C28", rule: "distinct jobs whose archive was compared with its manifest and with the model", run: func(c *Ctx) {
		m, stop := localCluster(16)
		defer stop()
		one := func(k *K, j *svxJob) {
			ctx, cancel := context.WithTimeout(context.Background(), 2*time.Minute)
			defer cancel()
			resp, err := m.NewJob(ctx, j.req)
			if err != nil || resp.GetError() != "" {
				k.Failf("error", "%v %v\n%v", err, resp.GetError(), j)
				return
			}
			key, what, all, man := judgeSVX(j, resp.GetSvxFile())
			if key != "" {
				k.Failf(key, "%s\n%v", what, j)
				return
			}
			k.Count("slices", man.GY)
			if len(all) > 0 {
				k.Distinct("%v, dim %d, divided %d,%d,%d: grid %d,%d,%d, voxelSize %v, %d white, hash %x", j.names, j.req.Dim, j.req.NX, j.req.NY, j.req.NZ,
					man.GX, man.GY, man.GZ, man.VoxelSize, len(all), all.hash())
			}
		}
		c.Cases("job", c.N(1500, 20000), 6, func(k *K, i int) {
			r := k.R
			j := genJob(r, 20)
			if i%150 == 7 {
				j = genLongJob(r, 250, 1500, i/150%3)
				if i == 157 {
					j = genLongJob(r, 10001, 10010, 2)
				}
			}
			if i%12 == 5 { // an edited model, again and again
				for _, e := range genJob(r, 20).edited(r, 2) {
					one(k, e)
					k.Count("edited_jobs", 1)
				}
				return
			}
			j.req.OutPrefix = []string{"", "out", "a b", "x/y", "<&\">"}[r.Intn(5)]
			one(k, j)
		})
	}})

	register(&checkDef{id: "C29", rule: "distinct models whose mesh was fetched from stldice-slave and checked", run: c29})
	register(&checkDef{id: "C30", rule: "distinct runs of the pipeline client - master - agents - svx2stl whose files were judged, also with killed processes", run: c30})
}

func c29(c *Ctx) {
	bin := cli("server/stldice-slave", false)
	dir := filepath.Join(c.Dir, "slave")
	os.MkdirAll(dir, 0755)
	p, err := startProc(dir, bin, func(a string) []string { return []string{"-port", a} })
	if err != nil {
		c.Case("start", func(k *K) { k.Failf("start", "%v", err) })
		return
	}
	defer p.kill()
	conn := dial(p.addr)
	defer conn.Close()
	cl := dpb.NewSTLDiceClient(conn)
	c.Cases("model", c.N(6000, 40000), 8, func(k *K, i int) {
		r := k.R
		m := genModel(r, c.N(8, 12), true)
		m.Tol = 1e-6 * (1 + (math.Abs(m.T.X)+math.Abs(m.T.Y)+math.Abs(m.T.Z))/m.MMPV)
		f := func(x float64) float64 {
			if r.Intn(4) == 0 {
				return x + r.Float64()
			}
			return x
		}
		reg := &dpb.VoxelRegion{Llx: f(float64(i)), Lly: f(m.T.Y), Llz: f(m.T.Z), Urx: f(float64(r.Intn(50))), Ury: f(float64(r.Intn(50))), Urz: f(float64(r.Intn(50))),
			Nx: int64(m.N.X), Ny: int64(m.N.Y), Nz: int64(m.N.Z)}
		if i%300 == 150 { // more than 65535 triangles, and a message of more than 4 MB
			n := 18 + r.Intn(3)
			m.N = P{n, n, n}
			m.V = genVoxels(r, "checker", n, n, n)
			m.MMPV, m.T = 0.5, gl.V(0, 0, 0)
			reg.Nx, reg.Ny, reg.Nz = int64(n), int64(n), int64(n)
		}
		name := filepath.Join(dir, regionFile(reg))
		ctx, cancel := context.WithTimeout(context.Background(), callLimit)
		defer cancel()
		get := func() (*gl.Mesh, error) {
			rep, err := cl.GetSTLMesh(ctx, &dpb.GetSTLMeshRequest{VoxelRegion: reg})
			if err != nil {
				return nil, err
			}
			ts, err := decodeSTL(rep.GetStlFile())
			if err != nil {
				return nil, fmt.Errorf("no complete STL file: %v", err)
			}
			if err := checkNormals(rep.GetStlFile(), ts); err != nil {
				return nil, err
			}
			return gl.NewTriangleMesh(ts), nil
		}
		if i%10 == 0 {
			if _, err := get(); err == nil {
				k.Failf("no-model", "a mesh is returned without a model for %v", reg)
			}
			writeFile(name, []byte("#binvox 1\nnonsense"))
			if _, err := get(); err == nil {
				k.Failf("no-model", "a mesh is returned for a model that is no binvox file")
			}
		}
		if r.Intn(40) == 0 {
			m.V = vset{}
		}
		b := encodeBinvox(r, m)
		writeFile(name, b)
		defer os.Remove(name)
		mesh, err := get()
		if err != nil {
			k.Failf("error", "GetSTLMesh: %v\n%v\n%v", err, reg, m)
			return
		}
		if len(m.V) == 0 && len(mesh.Triangles) > 0 {
			k.Failf("empty", "%d triangles for a model without voxels\n%v", len(mesh.Triangles), reg)
			return
		}
		key, what, pts := checkSolid(r, mesh, m, 1+100000/(len(mesh.Triangles)+1))
		if key != "" {
			k.Failf(key, "%s\n%v\n%v", what, reg, m)
			return
		}
		k.Count("points_classified", pts)
		k.Count("triangles", len(mesh.Triangles))
		k.Distinct("%v: %d voxels, hash %x, %d triangles", m.N, len(m.V), m.V.hash(), len(mesh.Triangles))
		for again := 0; i%5 == 1 && again < 2; again++ { // another model with the same region takes its place
			m2 := &model{N: m.N, T: m.T, MMPV: m.MMPV, Tol: m.Tol, V: vset{}}
			switch by := (P{r.Intn(m.N.X), r.Intn(m.N.Y), r.Intn(m.N.Z)}); r.Intn(4) {
			case 0: // as many voxels at other places
				for p := range m.V {
					m2.V[P{(p.X + by.X) % m.N.X, (p.Y + by.Y) % m.N.Y, (p.Z + by.Z) % m.N.Z}] = struct{}{}
				}
			case 1:
				for p := range m.V {
					m2.V[P{m.N.X - 1 - p.X, m.N.Y - 1 - p.Y, p.Z}] = struct{}{}
				}
			case 2: // the same voxels, elsewhere
				m2.T, m2.V = m.T.Add(gl.V(1, 0, -2).MulScalar(m.MMPV)), m.V
			case 3:
				m2.V = genVoxels(r, voxelKinds[r.Intn(len(voxelKinds))], m.N.X, m.N.Y, m.N.Z)
			}
			m = m2
			st, _ := os.Stat(name)
			b = encodeBinvox(r, m)
			if r.Intn(2) == 0 {
				os.Remove(name)
			}
			writeFile(name, b)
			if r.Intn(2) == 0 && st != nil {
				os.Chtimes(name, st.ModTime(), st.ModTime())
			}
			mesh, err := get()
			if err != nil {
				k.Failf("error", "GetSTLMesh: %v\n%v\n%v", err, reg, m)
				return
			}
			if key, what, _ := checkSolid(r, mesh, m, 1+20000/(len(mesh.Triangles)+1)); key != "" {
				k.Failf(key, "a model that took the place of another one: %s\n%v\n%v", what, reg, m)
				return
			}
			k.Count("replaced", 1)
		}
		if got, _ := os.ReadFile(name); string(got) != string(b) {
			k.Failf("stored", "the stored model is not what it was\n%v\n%v", reg, m)
		}
		if !p.alive() {
			k.Failf("died", "stldice-slave ended: %v\n%s", p.err, p.out.tail())
		}
	})
}

func c30(c *Ctx) {
	client := cli("stl2svx/stl2svx-client", false)
	conv := cli("cmd/svx2stl", false)
	cl, err := startCluster(c.Dir, 12)
	if err != nil {
		c.Case("start", func(k *K) { k.Failf("start", "%v", err) })
		return
	}
	defer cl.stop()
	// prepare writes the STL files of a job.
	prepare := func(k *K, maxDim int) (j *svxJob, args []string, out string) {
		r := k.R
		far := r.Intn(6) == 0
		if far {
			k.Count("far_jobs", 1)
		}
		for {
			j = genJob(r, maxDim)
			j.exact = false
			if far { // coordinates that need their double precision, which ASCII files have
				j = genJobAt(r, maxDim, math.Pow(10, 5+2*r.Float64()))
			} else { // binary files have float32 coordinates
				j.base = roundTris(j.base)
				for i := range j.cuts {
					j.cuts[i] = roundTris(j.cuts[i])
				}
			}
			j.measure()
			n, sure := j.dims()
			if sure && int(j.req.NX) <= n.X && int(j.req.NY) <= n.Y && int(j.req.NZ) <= n.Z {
				break
			}
		}
		var names []string
		for i, ts := range append([][]*gl.Triangle{j.base}, j.cuts...) {
			if o := j.repeated(i); o >= 0 && r.Intn(3) > 0 { // the same file
				names = append(names, names[o])
				continue
			}
			name := stlName(k, i)
			b := encodeSTL(ts)
			if len(ts) > 0 && (far || r.Intn(4) == 0) {
				b = encodeASCII(ts)
			}
			writeFile(k.Path(name), b)
			names = append(names, name)
		}
		prefix := []string{"out", "model", "a b"}[r.Intn(3)]
		if r.Intn(4) == 0 {
			prefix = oddName(r, "model")
		}
		out = k.Path(fmt.Sprintf("%s-%d-%d-%d-%d.svx", prefix, j.req.Dim, j.req.NX, j.req.NY, j.req.NZ))
		args = []string{"-dim", fmt.Sprint(j.req.Dim), "-nx", fmt.Sprint(j.req.NX), "-ny", fmt.Sprint(j.req.NY), "-nz", fmt.Sprint(j.req.NZ),
			"-stl", strings.Join(names, ","), "-prefix", prefix}
		return
	}
	// judge checks the result of the client and converts it back.
	judge := func(k *K, j *svxJob, res cliRes, out string, mustWork bool) bool {
		if res.code != 0 {
			if mustWork {
				k.Failf("failed", "stl2svx-client fails: %v\n%s\n%v", res, cl.dead(), j)
			}
			if exists(out) {
				k.Failf("partial", "stl2svx-client fails, but there is an SVX file: %v", res)
			}
			return false
		}
		b, err := os.ReadFile(out)
		if err != nil {
			k.Failf("no-file", "stl2svx-client succeeds without a file: %v", res)
			return false
		}
		key, what, all, m := judgeSVX(j, b)
		if key != "" {
			k.Failf(key, "%s\n%v", what, j)
			return false
		}
		if res := runCLI(k.TempDir(), conv, filepath.Base(out)); res.code != 0 {
			k.Failf("svx2stl", "svx2stl fails: %v", res)
			return false
		}
		mesh, err := readSTL(strings.TrimSuffix(out, ".svx") + ".stl")
		if err != nil {
			k.Failf("stl", "%v", err)
			return false
		}
		vm := &model{N: P{m.GX, m.GY, m.GZ}, MMPV: j.mmpv, V: all}
		vm.Tol = 1e-6 * float64(1+max(m.GX, m.GY, m.GZ))
		key, what, pts := checkSolid(k.R, mesh, vm, 1+60000/(len(mesh.Triangles)+1))
		if key != "" {
			k.Failf("stl-"+key, "%s\n%v", what, j)
			return false
		}
		k.Count("points_classified", pts)
		k.Count("slices", m.GY)
		return true
	}
	c.Cases("pipeline", c.N(240, 1200), 4, func(k *K, i int) {
		j, args, out := prepare(k, 16)
		res := runCLI(k.TempDir(), client, append(args, "-master", cl.master.addr)...)
		if judge(k, j, res, out, true) {
			k.Distinct("%v, dim %d, divided %d,%d,%d", j.names, j.req.Dim, j.req.NX, j.req.NY, j.req.NZ)
		}
	})
	// more triangles than fit into a message of the default size of gRPC, and more than 65535
	c.Cases("large", c.N(2, 8), 2, func(k *K, i int) {
		r := k.R
		j, args, out := prepare(k, 8)
		lo := randVec(r, 20)
		n := 70 + r.Intn(20)
		if i%2 == 1 {
			n = 172 + r.Intn(12) // more than 16 MB
		}
		j.base = roundTris(shuffleTris(r, fineBox(lo, lo.Add(gl.V(3+r.Float64()*5, 3+r.Float64()*5, 3+r.Float64()*5)), n)))
		j.cuts, j.solid, j.names = nil, true, []string{"fine box"}
		args[9] = "m0.stl"
		j.measure()
		if m, sure := j.dims(); !sure || int64(m.X) < j.req.NX || int64(m.Y) < j.req.NY || int64(m.Z) < j.req.NZ {
			k.Distinct("rounding decides")
			return
		}
		writeFile(k.Path("m0.stl"), encodeSTL(j.base))
		res := runCLI(k.TempDir(), client, append(args, "-master", cl.master.addr)...)
		if judge(k, j, res, out, true) {
			k.Count("triangles_of_large_jobs", len(j.base))
			k.Distinct("%d triangles, dim %d, divided %d,%d,%d", len(j.base), j.req.Dim, j.req.NX, j.req.NY, j.req.NZ)
		}
	})
	c.Cases("bad", c.N(16, 80), 4, func(k *K, i int) {
		r := k.R
		j, args, out := prepare(k, 8)
		what, addr := "", cl.master.addr
		env := ""
		switch i % 8 {
		case 6:
			what, args[11] = "an output directory that does not exist", "nodir/out"
			out = k.Path("nodir")
		case 7:
			what, env = "a device that is full", "full"
		case 0:
			what, args[9] = "a missing STL file", "m0.stl,none.stl"
		case 1:
			what, addr = "no master", freeAddress()
		case 2:
			what, args[1] = "dim 0", "0"
			out = k.Path(filepath.Base(strings.Replace(out, fmt.Sprintf("-%d-", j.req.Dim), "-0-", 1)))
		case 3:
			what, args[3] = "too many divisions", "100"
			out = k.Path(fmt.Sprintf("%s-%d-100-%d-%d.svx", args[11], j.req.Dim, j.req.NY, j.req.NZ))
		case 4:
			what, args[9] = "an empty base", "m0.stl"
			writeFile(k.Path("m0.stl"), encodeSTL(nil))
		case 5:
			what, args[9] = "no STL files", ""
		}
		res := cliRes{}
		if env == "" {
			res = runCLI(k.TempDir(), client, append(args, "-master", addr)...)
		} else {
			limit := r.Intn(400) // an SVX file is longer
			res = runCLI(k.TempDir(), filepath.Join(verifDir, ".build", "harness"), append([]string{"helper", "fsize", fmt.Sprint(limit), client}, append(args, "-master", addr)...)...)
			os.Remove(out)
		}
		if res.code == 0 || res.hung {
			k.Failf("unreported", "stl2svx-client with %s: %v", what, res)
		} else if res.crashed() {
			k.Failf("crash", "stl2svx-client with %s: %v", what, res)
		}
		if exists(out) {
			k.Failf("partial", "stl2svx-client with %s wrote a file: %v", what, res)
		}
		k.Distinct("%s: exit %d", what, res.code)
	})
	// agents that start before their master
	c.Cases("early-agents", c.N(8, 60), 4, func(k *K, i int) {
		r := k.R
		j, args, out := prepare(k, 10)
		addr := freeAddress()
		own := &svxCluster{dir: k.TempDir(), bin: cli("stl2svx/stl2svx-server", false)}
		var agents []*proc
		defer func() {
			for _, p := range append(agents, own.master) {
				if p != nil {
					p.kill()
				}
			}
		}()
		start := func(args ...string) *proc {
			p, err := startProcNoWait(own.dir, own.bin, args...)
			if err != nil {
				panic("harness: " + err.Error())
			}
			return p
		}
		n := 1 + r.Intn(3)
		for len(agents) < n {
			agents = append(agents, start("-port", []string{"127.0.0.1:0", "0.0.0.0:0", ":0"}[r.Intn(3)], "-master", addr))
		}
		wait := time.Duration(r.Intn(2500)) * time.Millisecond
		time.Sleep(wait)
		own.master = start("-port", addr)
		for end := time.Now().Add(30 * time.Second); own.master.alive() && time.Now().Before(end); time.Sleep(10 * time.Millisecond) {
			if conn, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
				conn.Close()
				break
			}
		}
		if !own.master.alive() {
			if strings.Contains(own.master.out.tail(), "address already in use") {
				return // somebody else got it meanwhile
			}
			k.Failf("start", "the master ended: %v\n%s", own.master.err, own.master.out.tail())
			return
		}
		res := runCLI(k.TempDir(), client, append(args, "-master", addr)...)
		if judge(k, j, res, out, true) {
			for _, p := range agents {
				if !p.alive() {
					k.Failf("early-agent", "an agent that was started %v before its master ended: %v\n%s", wait, p.err, p.out.tail())
					return
				}
			}
			k.Distinct("%d agents, started %v before the master", n, wait.Round(100*time.Millisecond))
		}
	})
	// processes that end during a job
	c.Cases("killed", c.N(32, 300), 4, func(k *K, i int) {
		r := k.R
		j, args, out := prepare(k, 14)
		own, err := startCluster(k.TempDir(), 1+r.Intn(3))
		if err != nil {
			k.Failf("start", "%v", err)
			return
		}
		defer own.stop()
		what := ""
		var wg sync.WaitGroup
		var mu sync.Mutex
		wait := time.Duration(r.Intn(700)) * time.Millisecond
		wg.Add(1)
		mustWork := true
		switch i % 4 {
		case 0:
			what = "agents are killed and replaced"
			go func() {
				defer wg.Done()
				time.Sleep(wait)
				for _, a := range own.agents {
					a.kill()
				}
				mu.Lock()
				defer mu.Unlock()
				if err := own.addAgent(); err != nil {
					k.Failf("start", "%v", err)
				}
			}()
		case 1:
			what = "all agents but one are killed"
			go func() {
				defer wg.Done()
				for _, a := range own.agents[1:] {
					time.Sleep(wait / 2)
					a.kill()
				}
			}()
		case 2:
			what, mustWork = "the master is killed", false
			go func() {
				defer wg.Done()
				time.Sleep(wait / 4)
				own.master.kill()
			}()
		case 3:
			what = "agents come late and at any address"
			for _, a := range own.agents {
				a.kill()
			}
			go func() {
				defer wg.Done()
				time.Sleep(wait)
				mu.Lock()
				defer mu.Unlock()
				// the default address is all addresses, on a free port
				a, err := startProcNoWait(own.dir, own.bin, "-master", own.master.addr)
				if err != nil {
					k.Failf("start", "%v", err)
					return
				}
				own.agents = append(own.agents, a)
			}()
		}
		res := runCLI(k.TempDir(), client, append(args, "-master", own.master.addr)...)
		wg.Wait()
		mu.Lock()
		defer mu.Unlock()
		if res.hung {
			k.Failf("hang", "%s: %v\n%v", what, res, j)
			return
		}
		ok := judge(k, j, res, out, mustWork)
		k.Distinct("%s after %v: complete %v, dim %d", what, wait, ok, j.req.Dim)
	})
}
