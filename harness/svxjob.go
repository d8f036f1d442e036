package main

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"net"
	"os"
	"sync"
	"sync/atomic"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/stl2svx/agent"
	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
)

// ---- stl2svx jobs ------------------------------------------------------------

const grpcMax = 1 << 30

var addrCount atomic.Uint32

// freeAddress returns a local address that was not used before and will not be used
// again: whoever still has the address of a server that is gone never reaches another
// one. The ports are below those that the system gives to others.
func freeAddress() string {
	for try := 0; try < 1000; try++ {
		n := addrCount.Add(1)
		addr := fmt.Sprintf("127.%d.%d.%d:%d", 1+os.Getpid()%250, 1+n>>8%250, 1+n%250, 10000+n%20000)
		if lis, err := net.Listen("tcp", addr); err == nil {
			lis.Close()
			return addr
		}
	}
	panic("harness: no free local address")
}

// serve starts a gRPC server on a local address of its own.
func serve(reg func(s *grpc.Server)) (addr string, s *grpc.Server) {
	lis, err := net.Listen("tcp", freeAddress())
	if err != nil {
		panic("harness: " + err.Error())
	}
	s = grpc.NewServer(grpc.MaxRecvMsgSize(grpcMax), grpc.MaxSendMsgSize(grpcMax))
	reg(s)
	go s.Serve(lis)
	return lis.Addr().String(), s
}

func dial(addr string) *grpc.ClientConn {
	conn, err := grpc.NewClient("passthrough:///"+addr, grpc.WithTransportCredentials(insecure.NewCredentials()),
		grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(grpcMax), grpc.MaxCallSendMsgSize(grpcMax)))
	if err != nil {
		panic("harness: " + err.Error())
	}
	return conn
}

// fakeMaster records the addresses that register.
type fakeMaster struct {
	mu    sync.Mutex
	addrs []string
	err   error
}

func (f *fakeMaster) NewJob(ctx context.Context, in *pb.NewJobRequest) (*pb.NewJobResponse, error) {
	return nil, fmt.Errorf("no jobs here")
}

func (f *fakeMaster) RegisterAgent(ctx context.Context, in *pb.RegisterAgentRequest) (*pb.RegisterAgentResponse, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.addrs = append(f.addrs, in.GetAddress())
	return &pb.RegisterAgentResponse{}, f.err
}

// realAgent makes an agent of the code under test.
func realAgent(address, master string) pb.AgentServer {
	a, err := agent.New(context.Background(), address, master)
	if err != nil {
		panic("harness: agent.New: " + err.Error())
	}
	return a
}

func pbSTL(ts []*gl.Triangle) *pb.STLFile {
	f := &pb.STLFile{}
	v := func(p gl.Vector) *pb.Vertex { return &pb.Vertex{X: p.X, Y: p.Y, Z: p.Z} }
	for _, t := range ts {
		f.Triangles = append(f.Triangles, &pb.Triangle{V1: v(t.V1.Position), V2: v(t.V2.Position), V3: v(t.V3.Position)})
	}
	return f
}

// svxJob is a job with what its result has to be.
type svxJob struct {
	req   *pb.NewJobRequest
	base  []*gl.Triangle
	cuts  [][]*gl.Triangle
	names []string
	files []string // paths of the STL files of base and cuts
	same  []int    // for the last cuts: which of base and cuts they repeat
	min   gl.Vector
	ext   gl.Vector
	mmpv  float64
	exact bool // all coordinates of tiles and voxels are exact
	solid bool // base and cuts are proper solids
}

func bounds(ts []*gl.Triangle) (lo, hi gl.Vector) {
	lo, hi = ts[0].V1.Position, ts[0].V1.Position
	for _, t := range ts {
		for _, v := range []gl.Vector{t.V1.Position, t.V2.Position, t.V3.Position} {
			lo, hi = lo.Min(v), hi.Max(v)
		}
	}
	return
}

func (j *svxJob) measure() {
	lo, hi := bounds(j.base)
	j.min, j.ext = lo, hi.Sub(lo)
	j.mmpv = math.Max(j.ext.X, math.Max(j.ext.Y, j.ext.Z)) / float64(j.req.Dim)
}

// dimOK tells whether n voxels is the size of an extent.
func (j *svxJob) dimOK(n int, ext float64) bool {
	v := ext / j.mmpv
	return n == int(math.Ceil(v-1e-3)) || n == int(math.Ceil(v+1e-7)) || n == int(math.Ceil(v))
}

// dims returns the dimensions of the model in voxels; sure is false when rounding decides.
func (j *svxJob) dims() (n P, sure bool) {
	sure = true
	f := func(ext float64) int {
		v := ext / j.mmpv
		if d := v - math.Round(v); d > 1e-8 && d < 1e-5 {
			sure = false
		}
		return int(math.Ceil(v - 1e-6))
	}
	n = P{f(j.ext.X), f(j.ext.Y), f(j.ext.Z)}
	return
}

func (j *svxJob) String() string {
	s := fmt.Sprintf("dim=%d divisions=%d,%d,%d mm/voxel=%v bases and cuts: %v\nbase:%s", j.req.Dim, j.req.NX, j.req.NY, j.req.NZ, j.mmpv, j.names, trisText(j.base))
	for i, c := range j.cuts {
		s += fmt.Sprintf("\ncut %d:%s", i, trisText(c))
	}
	return s
}

// jitter moves all corners towards the middle, but those that decide the largest extent.
func jitter(r *rand.Rand, ts []*gl.Triangle) []*gl.Triangle {
	lo, hi := bounds(ts)
	e := hi.Sub(lo)
	get := func(v gl.Vector) float64 { return v.X }
	if e.Y > e.X {
		get = func(v gl.Vector) float64 { return v.Y }
	}
	if e.Z > math.Max(e.X, e.Y) {
		get = func(v gl.Vector) float64 { return v.Z }
	}
	mid := lo.Add(hi).MulScalar(.5)
	to := map[gl.Vector]gl.Vector{}
	return transformTris(ts, func(v gl.Vector) gl.Vector {
		if get(v) == get(lo) || get(v) == get(hi) {
			return v
		}
		w, ok := to[v]
		if !ok {
			f := func(x, m float64) float64 { return math.Round((x+(m-x)*r.Float64()*.3)*4096) / 4096 }
			w = gl.V(f(v.X, mid.X), f(v.Y, mid.Y), f(v.Z, mid.Z))
			to[v] = w
		}
		return w
	})
}

// genJob makes a valid job.
func genJob(r *rand.Rand, maxDim int) *svxJob { return genJobAt(r, maxDim, 0) }

// genJobAt generates a job. far is the distance of the model from the origin in multiples of its size (0: near).
func genJobAt(r *rand.Rand, maxDim int, far float64) *svxJob {
	for {
		j := &svxJob{req: &pb.NewJobRequest{OutPrefix: "out"}, exact: r.Intn(2) == 0 && far == 0, solid: true}
		kind := r.Intn(solidKinds)
		if kind == 9 { // overlapping bodies are fine
			kind = r.Intn(solidKinds)
		}
		size := 4 + r.Float64()*6
		base := genSolid(r, kind, size)
		j.base = base.tris
		j.names = append(j.names, base.name)
		u := math.Ldexp(1, r.Intn(7)-4)
		off := gl.V(0, 0, 0)
		if r.Intn(2) == 0 {
			off = gl.V(float64(r.Intn(200)-100)*.25, float64(r.Intn(200)-100)*.25, float64(r.Intn(200)-100)*.25)
		}
		if j.exact {
			if kind > 3 {
				j.solid = false
			}
			if kind != 2 && kind != 3 {
				j.solid = false
			}
			snap := math.Round
			if kind == 2 {
				snap = func(x float64) float64 { return x * 2 }
			}
			j.base = transformTris(j.base, func(v gl.Vector) gl.Vector { return gl.V(snap(v.X), snap(v.Y), snap(v.Z)) })
			if r.Intn(4) > 0 { // away from the borders of voxels
				j.solid = false
				j.base = jitter(r, j.base)
			}
		} else {
			u *= 1 + r.Float64()
			off = off.Add(randVec(r, 3))
		}
		if far > 0 {
			off = randVec(r, far*size*u)
		}
		j.base = transformTris(j.base, func(v gl.Vector) gl.Vector { return v.MulScalar(u).Add(off) })
		lo, hi := bounds(j.base)
		e := hi.Sub(lo)
		big := math.Max(e.X, math.Max(e.Y, e.Z))
		if math.Min(e.X, math.Min(e.Y, e.Z)) <= 0 {
			continue
		}
		if j.exact {
			n := int64(big / u)
			switch {
			case r.Intn(3) == 0 && n%2 == 0:
				n /= 2
			case r.Intn(3) == 0 && int(n)*2 <= maxDim:
				n *= 2
			}
			j.req.Dim = n
		} else {
			j.req.Dim = int64(1 + r.Intn(maxDim))
		}
		if j.req.Dim < 1 || j.req.Dim > int64(maxDim) {
			continue
		}
		j.measure()
		n, sure := j.dims()
		if !sure {
			continue
		}
		div := func(n int) int64 {
			if r.Intn(4) == 0 {
				return int64(1 + r.Intn(n))
			}
			return int64(1 + r.Intn(min(n, 4)))
		}
		j.req.NX, j.req.NY, j.req.NZ = div(n.X), div(n.Y), div(n.Z)
		files := []*pb.STLFile{pbSTL(j.base)}
		for r.Intn(5) > 1 && len(j.cuts) < 4 {
			cs := genSolid(r, r.Intn(solidKinds), 1)
			sc := big * math.Exp(r.Float64()*2.5-2.5)
			if r.Intn(6) == 0 {
				sc = j.mmpv * (.05 + r.Float64()) // about a voxel or less
			}
			at := lo.Add(gl.V(e.X*(r.Float64()*1.4-.2), e.Y*(r.Float64()*1.4-.2), e.Z*(r.Float64()*1.4-.2)))
			cut := transformTris(cs.tris, func(v gl.Vector) gl.Vector {
				v = v.MulScalar(sc).Add(at)
				g := func(x float64) float64 { return math.Round(x/j.mmpv*(1<<16)) / (1 << 16) * j.mmpv }
				if j.exact {
					return gl.V(g(v.X), g(v.Y), g(v.Z))
				}
				return v
			})
			name := cs.name
			if r.Intn(12) == 0 {
				cut, name = nil, "nothing"
			}
			j.cuts = append(j.cuts, cut)
			j.names = append(j.names, name)
			files = append(files, pbSTL(cut))
		}
		j.req.StlFiles = files
		j.repeat(r)
		return j
	}
}

// edited makes jobs that only differ in the place of one body of one file, whose triangles
// are neither the first nor the last of the file.
func (j *svxJob) edited(r *rand.Rand, n int) (out []*svxJob) {
	which := r.Intn(len(j.cuts) + 1 - len(j.same))
	body := genSolid(r, r.Intn(2), 1).tris
	big := j.mmpv * float64(j.req.Dim)
	sc := big * (.15 + .3*r.Float64())
	for tries := 0; len(out) < n && tries < 50; tries++ {
		at := j.min.Add(gl.V(j.ext.X*(r.Float64()*1.6-.3), j.ext.Y*(r.Float64()*1.6-.3), j.ext.Z*(r.Float64()*1.6-.3)))
		b := transformTris(body, func(v gl.Vector) gl.Vector { return v.MulScalar(sc).Add(at) })
		e := &svxJob{solid: j.solid, base: j.base, cuts: append([][]*gl.Triangle(nil), j.cuts[:len(j.cuts)-len(j.same)]...)}
		for i, name := range j.names[:len(e.cuts)+1] {
			if i == which {
				name += fmt.Sprintf(" with a body at %v", at)
			}
			e.names = append(e.names, name)
		}
		put := func(ts []*gl.Triangle) []*gl.Triangle {
			h := len(ts) / 2
			return append(append(append([]*gl.Triangle(nil), ts[:h]...), b...), ts[h:]...)
		}
		if which == 0 {
			e.base = put(e.base)
		} else {
			e.cuts[which-1] = put(e.cuts[which-1])
		}
		e.req = &pb.NewJobRequest{OutPrefix: j.req.OutPrefix, Dim: j.req.Dim, NX: j.req.NX, NY: j.req.NY, NZ: j.req.NZ, StlFiles: []*pb.STLFile{pbSTL(e.base)}}
		for _, c := range e.cuts {
			e.req.StlFiles = append(e.req.StlFiles, pbSTL(c))
		}
		e.measure()
		if m, sure := e.dims(); sure && int64(m.X) >= e.req.NX && int64(m.Y) >= e.req.NY && int64(m.Z) >= e.req.NZ {
			out = append(out, e)
		}
	}
	return out
}

// repeat makes some jobs whose base or one of whose cuts is (once more) a cut.
func (j *svxJob) repeat(r *rand.Rand) {
	if r.Intn(6) > 0 {
		return
	}
	i := r.Intn(len(j.cuts) + 1)
	ts := j.base
	if i > 0 {
		ts = j.cuts[i-1]
	}
	j.same = append(j.same, i)
	j.cuts = append(j.cuts, ts)
	j.names = append(j.names, j.names[i]+" again")
	j.req.StlFiles = append(j.req.StlFiles, j.req.StlFiles[i])
}

// repeated tells which earlier file (base and cuts) file i repeats; -1 if none.
func (j *svxJob) repeated(i int) int {
	if i -= len(j.cuts) + 1 - len(j.same); i >= 0 {
		return j.same[i]
	}
	return -1
}

// genLongJob makes a valid job whose model is long in one direction.
func genLongJob(r *rand.Rand, minLen, maxLen int, axis int) *svxJob {
	for {
		j := &svxJob{req: &pb.NewJobRequest{OutPrefix: "long"}, exact: true, solid: true}
		n := [3]int{1 + r.Intn(4), 1 + r.Intn(4), 1 + r.Intn(4)}
		l := minLen + r.Intn(maxLen-minLen+1)
		n[axis] = l
		u := math.Ldexp(1, r.Intn(7)-4)
		at := gl.V(float64(r.Intn(200)-100)*.25, float64(r.Intn(200)-100)*.25, float64(r.Intn(200)-100)*.25)
		box := func(lo, hi [3]float64) []*gl.Triangle {
			f := func(p [3]float64) gl.Vector { return gl.V(p[0], p[1], p[2]).MulScalar(u).Add(at) }
			return shuffleTris(r, boxTris(f(lo), f(hi)))
		}
		j.base = box([3]float64{}, [3]float64{float64(n[0]), float64(n[1]), float64(n[2])})
		j.names = []string{"long box"}
		files := []*pb.STLFile{pbSTL(j.base)}
		for c := r.Intn(4); c > 0; c-- {
			lo, hi := [3]float64{-1, -1, -1}, [3]float64{9, 9, 9}
			lo[axis] = float64(r.Intn(l)) + .25
			hi[axis] = lo[axis] + 1 + float64(r.Intn(l))
			if a := r.Intn(3); a != axis && n[a] > 1 {
				lo[a] = .25 + float64(r.Intn(n[a]))
			}
			cut := box(lo, hi)
			j.cuts = append(j.cuts, cut)
			j.names = append(j.names, "box")
			files = append(files, pbSTL(cut))
		}
		j.req.StlFiles = files
		j.req.Dim = int64(l)
		j.measure()
		d, sure := j.dims()
		if !sure {
			continue
		}
		div := func(n int) int64 { return int64(1 + r.Intn(min(n, 3))) }
		j.req.NX, j.req.NY, j.req.NZ = div(d.X), div(d.Y), div(d.Z)
		j.repeat(r)
		return j
	}
}

// decodeSlice checks the layout of a slice image and returns its white voxels (x, y, 0) in the model's grid.
func decodeSlice(png []byte) (v vset, n P, err error) {
	px, size, err := decodePNG(png)
	if err != nil {
		return nil, n, err
	}
	n = P{size.X - 2, size.Y - 2, 0}
	if n.X < 1 || n.Y < 1 {
		return nil, n, fmt.Errorf("an image of %v pixels has no room for voxels", size)
	}
	v = vset{}
	for p := range px {
		q := P{p.X - 1, n.Y - p.Y, 0}
		if q.X < 0 || q.Y < 0 || q.X >= n.X || q.Y >= n.Y {
			return nil, n, fmt.Errorf("white pixel %v on the border of the image (%v pixels)", p, size)
		}
		v[q] = struct{}{}
	}
	return v, n, nil
}

// judge is the geometric reference for the slices of a job.
type sliceJudge struct {
	j     *svxJob
	sl    []*slicer // base, cuts
	ref   []vset    // exact reference voxels of base and cuts
	fuzzy int
}

func newSliceJudge(j *svxJob, n P) (*sliceJudge, error) {
	s := &sliceJudge{j: j}
	all := append([][]*gl.Triangle{j.base}, j.cuts...)
	for _, ts := range all {
		s.sl = append(s.sl, &slicer{lm: toLattice(gl.NewTriangleMesh(ts), j.min.X, j.min.Y, j.min.Z, j.mmpv)})
		if j.exact {
			b := newRegion(n, j.min, j.mmpv)
			if len(ts) > 0 {
				if err := b.Voxelize(gl.NewTriangleMesh(ts)); err != nil {
					return nil, err
				}
			}
			s.ref = append(s.ref, whiteSet(b.WhiteVoxels))
		}
	}
	return s, nil
}

// check compares the voxels of slice z. It returns how many voxels were decided geometrically.
func (s *sliceJudge) check(z int, got vset, n P) (key, what string, decided int) {
	zc := float64(z) + .5
	fuzzy, flat := false, false
	for _, sl := range s.sl {
		sl.at(zc)
		fuzzy = fuzzy || sl.fuzzy
		flat = flat || sl.flat
	}
	if s.j.exact && !fuzzy {
		want := vset{}
		for p := range s.ref[0] {
			if p.Z != z {
				continue
			}
			in := true
			for _, c := range s.ref[1:] {
				in = in && !c.has(p)
			}
			if in {
				want[P{p.X, p.Y, 0}] = struct{}{}
			}
		}
		if d := want.diff(got); d != "" {
			return "voxels", fmt.Sprintf("slice %d: %s", z, d), 0
		}
	}
	if s.j.exact && fuzzy {
		s.fuzzy++
	}
	if !s.j.solid || flat {
		return "", "", 0
	}
	for x := 0; x < n.X; x++ {
		for y := 0; y < n.Y; y++ {
			p := gl.V(float64(x)+.5, float64(y)+.5, zc)
			want, sure := true, true
			for i, sl := range s.sl {
				if len(sl.segs) > 0 && sl.dist(p) <= voxelTol {
					sure = false
					continue
				}
				in := len(sl.segs) > 0 && sl.lm.winding(p) > .5
				if in == (i > 0) { // outside of the base or inside of a cut
					if i > 0 || !in {
						want = false
					}
				}
			}
			// a cut decides even close to the base's outline
			if !sure {
				cut := false
				for _, sl := range s.sl[1:] {
					if len(sl.segs) > 0 && sl.dist(p) > voxelTol && sl.lm.winding(p) > .5 {
						cut = true
					}
				}
				if !cut {
					continue
				}
				want = false
			}
			decided++
			if got.has(P{x, y, 0}) != want {
				return map[bool]string{true: "missing", false: "extra"}[want], fmt.Sprintf("slice %d: voxel (%d,%d) is white: %v", z, x, y, !want), decided
			}
		}
	}
	return "", "", decided
}
