package main

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"sync"
	"time"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/stl2svx/master"
	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/protoadapt"
)

// ---- a master under test, with agents that record what happens -------------------

const jobLimit = 60 * time.Second // longer than any of these jobs can take

type farm struct {
	k      *K
	m      pb.MasterServer
	mu     sync.Mutex
	r      *rand.Rand
	jobs   map[string]*farmJob
	agents []*fakeAgent
	stray  []string
}

type farmJob struct {
	req    *pb.NewJobRequest
	nz     int
	n      P
	sent   proto.Message // copy of the request
	calls  []int         // per slice
	ok     []int
	bad    []int
	during int // calls of this job that are under way
}

type reply struct {
	delay time.Duration
	code  codes.Code // answer with this status
	text  string     // answer with this error text
	die   bool       // the agent's process ends during the call
	hang  bool       // never answer
}

type fakeAgent struct {
	f      *farm
	name   string
	addr   string
	srv    *grpc.Server
	script func(r *rand.Rand, job string, z int) reply // called with f.mu
	active int
	most   int
	n      int
}

func newFarm(k *K) *farm {
	return &farm{k: k, m: master.New(), r: rand.New(rand.NewSource(k.R.Int63())), jobs: map[string]*farmJob{}}
}

func (f *farm) close() {
	for _, a := range f.agents {
		a.srv.Stop()
	}
}

func okScript(r *rand.Rand, job string, z int) reply {
	if r.Intn(3) == 0 {
		return reply{delay: time.Duration(r.Intn(15)) * time.Millisecond}
	}
	return reply{}
}

func (f *farm) agent(script func(r *rand.Rand, job string, z int) reply) *fakeAgent {
	a := &fakeAgent{f: f, script: script, name: fmt.Sprintf("agent%d", len(f.agents))}
	a.addr, a.srv = serve(func(s *grpc.Server) { pb.RegisterAgentServer(s, a) })
	f.agents = append(f.agents, a)
	return a
}

func (f *farm) register(addr string) {
	if _, err := f.m.RegisterAgent(context.Background(), &pb.RegisterAgentRequest{Address: addr}); err != nil {
		f.k.Failf("register", "RegisterAgent: %v", err)
	}
}

// job makes a request whose base is a box, so that its dimensions in voxels are exact.
func (f *farm) job(maxZ int) *farmJob {
	r := f.k.R
	for {
		n := P{1 + r.Intn(8), 1 + r.Intn(8), 1 + r.Intn(maxZ)}
		if r.Intn(25) == 0 { // many slices
			n.Z = 10 * maxZ * (1 + r.Intn(3))
		}
		u := math.Ldexp(1, r.Intn(5)-2)
		at := gl.V(float64(r.Intn(40)-20), float64(r.Intn(40)-20), float64(r.Intn(40)-20))
		ts := shuffleTris(r, boxTris(at, at.Add(gl.V(float64(n.X)*u, float64(n.Y)*u, float64(n.Z)*u))))
		div := func(n int) int64 { return int64(1 + r.Intn(n)) }
		req := &pb.NewJobRequest{StlFiles: []*pb.STLFile{pbSTL(ts)}, Dim: int64(max(n.X, n.Y, n.Z)), NX: div(n.X), NY: div(n.Y), NZ: div(n.Z),
			OutPrefix: fmt.Sprintf("job%d", len(f.jobs))}
		for r.Intn(3) == 0 {
			req.StlFiles = append(req.StlFiles, pbSTL(boxTris(at, at.Add(gl.V(u*r.Float64()*3+.1, u, u)))))
		}
		j := &farmJob{req: req, nz: n.Z, n: n, sent: proto.Clone(protoadapt.MessageV2Of(req)), calls: make([]int, n.Z), ok: make([]int, n.Z), bad: make([]int, n.Z)}
		f.mu.Lock()
		f.jobs[req.OutPrefix] = j
		f.mu.Unlock()
		return j
	}
}

// image is what the agents answer: it tells the job and the slice.
func image4(job string, z int) []byte {
	r := rand.New(rand.NewSource(int64(hash64(fmt.Sprintf("%s/%d", job, z)) >> 1)))
	b := make([]byte, 50+r.Intn(4000))
	r.Read(b)
	return append([]byte(fmt.Sprintf("%s/%d:", job, z)), b...)
}

func (a *fakeAgent) SliceJob(ctx context.Context, in *pb.SliceJobRequest) (*pb.SliceJobResponse, error) {
	f := a.f
	id, z := in.GetNewJobRequest().GetOutPrefix(), int(in.GetZ())
	f.mu.Lock()
	a.active++
	a.n++
	a.most = max(a.most, a.active)
	j := f.jobs[id]
	if j == nil || z < 0 || z >= j.nz {
		f.stray = append(f.stray, fmt.Sprintf("slice %d of job %q", z, id))
		f.mu.Unlock()
		return nil, status.Error(codes.InvalidArgument, "no such slice")
	}
	if !proto.Equal(j.sent, protoadapt.MessageV2Of(in.GetNewJobRequest())) {
		f.stray = append(f.stray, fmt.Sprintf("slice %d of job %q does not have the data of the job", z, id))
	}
	j.calls[z]++
	j.during++
	rep := a.script(f.r, id, z)
	f.mu.Unlock()
	if rep.delay > 0 {
		select {
		case <-time.After(rep.delay):
		case <-ctx.Done():
		}
	}
	if rep.hang {
		<-ctx.Done()
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	a.active--
	j.during--
	switch {
	case rep.die:
		go a.srv.Stop()
		f.mu.Unlock()
		<-ctx.Done()
		f.mu.Lock()
		return nil, ctx.Err()
	case rep.hang:
		return nil, ctx.Err()
	case rep.code != codes.OK:
		j.bad[z]++
		return nil, status.Error(rep.code, "injected")
	case rep.text != "":
		j.bad[z]++
		return &pb.SliceJobResponse{Error: rep.text, PngFile: []byte("partial")}, nil
	}
	j.ok[z]++
	return &pb.SliceJobResponse{PngFile: image4(id, z)}, nil
}

type jobResult struct {
	resp *pb.NewJobResponse
	err  error
	hung bool
	took time.Duration
}

// run runs a job to its end.
func (f *farm) run(ctx context.Context, j *farmJob) jobResult {
	ch := make(chan jobResult, 1)
	start := time.Now()
	go func() {
		resp, err := f.m.NewJob(ctx, j.req)
		ch <- jobResult{resp: resp, err: err, took: time.Since(start)}
	}()
	select {
	case r := <-ch:
		return r
	case <-time.After(jobLimit):
		return jobResult{hung: true, took: jobLimit}
	}
}

func (f *farm) desc(j *farmJob) string {
	f.mu.Lock()
	defer f.mu.Unlock()
	return fmt.Sprintf("%s, dim %d, divisions %d,%d,%d, %v voxels: calls per slice %v, good replies %v, bad replies %v, %d agents",
		j.req.OutPrefix, j.req.Dim, j.req.NX, j.req.NY, j.req.NZ, j.n, j.calls, j.ok, j.bad, len(f.agents))
}

// judge tells whether the result is a complete archive or an error.
func (f *farm) judge(j *farmJob, res jobResult, mustWork bool) (complete bool) {
	k := f.k
	switch {
	case res.hung:
		k.Failf("hang", "the job did not end within %v\n%s", jobLimit, f.desc(j))
		return false
	case res.err == nil && res.resp.GetError() != "", res.err != nil:
		if res.err != nil && len(res.resp.GetSvxFile()) > 0 {
			k.Failf("both", "the job returned a file and the error %v\n%s", res.err, f.desc(j))
		}
		if mustWork {
			k.Failf("failed", "the job failed, but no agent reported an error for its slices: %v %v\n%s", res.err, res.resp.GetError(), f.desc(j))
		}
		return false
	}
	if what := f.incomplete(j, res.resp.GetSvxFile()); what != "" {
		k.Failf("archive", "%s\n%s", what, f.desc(j))
		return false
	}
	if !proto.Equal(j.sent, protoadapt.MessageV2Of(j.req)) {
		k.Failf("request-changed", "the job changed its request\n%s", f.desc(j))
	}
	return true
}

func (f *farm) incomplete(j *farmJob, svx []byte) string {
	m, files, err := readSVX(svx)
	if err != nil {
		return err.Error()
	}
	if len(files) != j.nz+3 {
		return fmt.Sprintf("%d files in the archive of %d slices", len(files), j.nz)
	}
	for i := 0; i < j.nz+2; i++ {
		name := fmt.Sprintf(m.density(), i)
		b, ok := files[name]
		if !ok {
			return fmt.Sprintf("%s is missing", name)
		}
		if i == 0 || i == j.nz+1 {
			if px, size, err := decodePNG(b); err != nil || len(px) > 0 || size.X != m.GX || size.Y != m.GZ {
				return fmt.Sprintf("%s is no blank image: %d white of %v pixels, %v", name, len(px), size, err)
			}
			continue
		}
		if want := image4(j.req.OutPrefix, i-1); string(want) != string(b) {
			if len(b) > 30 {
				b = b[:30]
			}
			return fmt.Sprintf("%s does not have the image of slice %d: %q", name, i-1, b)
		}
	}
	return ""
}

func (f *farm) finish() {
	f.mu.Lock()
	defer f.mu.Unlock()
	for _, s := range f.stray {
		f.k.Failf("stray", "an agent was asked for %s", s)
	}
	for _, j := range f.jobs {
		for z := range j.calls {
			f.k.Count("slice_calls", j.calls[z])
			f.k.Count("bad_replies", j.bad[z])
		}
	}
}

var errCodes = []codes.Code{codes.Canceled, codes.Unknown, codes.InvalidArgument, codes.DeadlineExceeded, codes.NotFound, codes.AlreadyExists,
	codes.PermissionDenied, codes.ResourceExhausted, codes.FailedPrecondition, codes.Aborted, codes.OutOfRange, codes.Internal, codes.DataLoss, codes.Unauthenticated}

func c24(c *Ctx) {
	par := 6
	bg := context.Background()
	c.Cases("lost-agents", c.N(60, 700), par, func(k *K, i int) {
		r := k.R
		f := newFarm(k)
		defer f.close()
		dead, lost := 0, 0
		n := r.Intn(4)
		if r.Intn(3) == 0 { // most of them are gone
			n = 5 + r.Intn(40)
		}
		for ; n > 0; n-- {
			f.register(freeAddress())
			dead++
		}
		for n := r.Intn(5); n > 0; n-- {
			p := 1 + r.Intn(5)
			dies := r.Intn(2) == 0
			gone := false
			f.register(f.agent(func(r *rand.Rand, job string, z int) reply {
				rep := okScript(r, job, z)
				if gone || r.Intn(p) == 0 {
					gone = true
					if dies {
						rep.die = true
					} else if r.Intn(2) == 0 {
						rep.code = codes.Unavailable
					} else { // a server without agents
						rep.code = codes.Unimplemented
					}
				}
				return rep
			}).addr)
			lost++
		}
		late := r.Intn(3) == 0
		good := f.agent(okScript).addr
		if late {
			go func() {
				time.Sleep(time.Duration(50+100*(i%6)) * time.Millisecond)
				f.register(good)
			}()
		} else {
			f.register(good)
		}
		for n := 1 + r.Intn(2); n > 0; n-- {
			j := f.job(10)
			if f.judge(j, f.run(bg, j), true) {
				k.Count("complete", 1)
				k.Distinct("%d dead and %d failing agents, late %v: %s", dead, lost, late, f.desc(j))
			}
		}
		f.finish()
	})
	c.Cases("errors", c.N(90, 900), par, func(k *K, i int) {
		r := k.R
		f := newFarm(k)
		defer f.close()
		j := f.job(10)
		bad := map[int]bool{}
		for len(bad) == 0 || r.Intn(3) == 0 && len(bad) < j.nz {
			bad[r.Intn(j.nz)] = true
		}
		var rep reply
		text := i%3 == 0
		if text {
			rep.text = []string{"out of memory", "x", " "}[r.Intn(3)]
		} else {
			rep.code = errCodes[r.Intn(len(errCodes))]
		}
		rep.delay = time.Duration(r.Intn(30)) * time.Millisecond
		once := r.Intn(3) == 0
		for n := 1 + r.Intn(4); n > 0; n-- {
			f.register(f.agent(func(r *rand.Rand, job string, z int) reply {
				if job == j.req.OutPrefix && bad[z] && !(once && j.bad[z] > 0) {
					return rep
				}
				return okScript(r, job, z)
			}).addr)
		}
		res := f.run(bg, j)
		complete := f.judge(j, res, false)
		if complete && !once {
			k.Failf("incomplete", "the job succeeded, but no agent ever made the slices %v\n%s", bad, f.desc(j))
		}
		if !complete {
			k.Count("failed_jobs", 1)
		}
		// the agents are still there for the next job
		j2 := f.job(8)
		if f.judge(j2, f.run(bg, j2), true) {
			k.Distinct("errors (%v %q, once %v) for slices %v: complete %v, %s; then %s", rep.code, rep.text, once, bad, complete, f.desc(j), f.desc(j2))
		}
		f.finish()
	})
	c.Cases("canceled", c.N(40, 300), par, func(k *K, i int) {
		r := k.R
		f := newFarm(k)
		defer f.close()
		j := f.job(10)
		hang := 1 + r.Intn(3)
		n := r.Intn(4)
		for x := 0; x < n; x++ {
			f.register(f.agent(func(r *rand.Rand, job string, z int) reply {
				rep := okScript(r, job, z)
				rep.hang = job == j.req.OutPrefix && r.Intn(hang) == 0
				return rep
			}).addr)
		}
		ctx, cancel := context.WithTimeout(bg, time.Duration(r.Intn(400))*time.Millisecond)
		if r.Intn(2) == 0 {
			cancel()
			ctx, cancel = context.WithCancel(bg)
			time.AfterFunc(time.Duration(r.Intn(400))*time.Millisecond, cancel)
		}
		defer cancel()
		res := f.run(ctx, j)
		complete := f.judge(j, res, false)
		if n == 0 && complete {
			k.Failf("incomplete", "the job succeeded without agents\n%s", f.desc(j))
		}
		if res.took > 20*time.Second && !res.hung {
			k.Failf("cancel", "the canceled job ended after %v\n%s", res.took, f.desc(j))
		}
		if n == 0 {
			f.register(f.agent(okScript).addr)
		}
		j2 := f.job(8)
		if f.judge(j2, f.run(bg, j2), true) {
			k.Distinct("canceled with %d agents: complete %v, %s; then %s", n, complete, f.desc(j), f.desc(j2))
		}
		f.finish()
	})
}

// wakeLane has agents that all wait for each other, so that a job with as many slices
// only ends when none of them stays idle.
type wakeLane struct {
	agents []*wakeAgent
	mu     sync.Mutex
	left   int           // agents that are not busy yet
	all    chan struct{} // closed when all are busy
}

type wakeAgent struct {
	l    *wakeLane
	addr string
	srv  *grpc.Server
}

func newWakeLane(n int) *wakeLane {
	l := &wakeLane{}
	for len(l.agents) < n {
		a := &wakeAgent{l: l}
		a.addr, a.srv = serve(func(s *grpc.Server) { pb.RegisterAgentServer(s, a) })
		l.agents = append(l.agents, a)
	}
	return l
}

func (l *wakeLane) close() {
	for _, a := range l.agents {
		a.srv.Stop()
	}
}

func (a *wakeAgent) SliceJob(ctx context.Context, in *pb.SliceJobRequest) (*pb.SliceJobResponse, error) {
	l := a.l
	l.mu.Lock()
	all := l.all
	if l.left--; l.left == 0 {
		close(all)
	}
	l.mu.Unlock()
	select {
	case <-all:
	case <-ctx.Done():
	}
	return &pb.SliceJobResponse{PngFile: []byte("image")}, nil
}

func (l *wakeLane) round(k *K, r *rand.Rand) {
	n := 1 + r.Intn(len(l.agents))
	l.mu.Lock()
	l.left, l.all = n, make(chan struct{})
	l.mu.Unlock()
	m := master.New()
	req := &pb.NewJobRequest{StlFiles: []*pb.STLFile{pbSTL(boxTris(gl.V(0, 0, 0), gl.V(1, 1, float64(n))))}, Dim: int64(n), NX: 1, NY: 1, NZ: 1}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	var wg sync.WaitGroup
	for _, a := range l.agents[:n] {
		wg.Add(1)
		wait := time.Duration(r.Intn(2000)) * time.Microsecond
		go func() {
			defer wg.Done()
			time.Sleep(wait)
			m.RegisterAgent(context.Background(), &pb.RegisterAgentRequest{Address: a.addr})
		}()
	}
	_, err := m.NewJob(ctx, req)
	wg.Wait()
	l.mu.Lock()
	defer l.mu.Unlock()
	if err != nil && l.left > 0 {
		k.Failf("idle", "%d of %d agents stay idle although slices wait for them: %v", l.left, n, err)
	} else if err != nil {
		k.Failf("failed", "the job of %d slices failed: %v", n, err)
	}
}

func init() {
	register(&checkDef{id: "C24", race: true, rule: "distinct histories of jobs, agents and faults whose results were judged", run: c24})
	register(&checkDef{id: "C25", race: true, rule: "distinct groups of concurrent jobs whose results were judged", run: func(c *Ctx) {
		c.Cases("jobs", c.N(80, 900), 4, func(k *K, i int) {
			r := k.R
			f := newFarm(k)
			defer f.close()
			n := 2 + r.Intn(5)
			var js []*farmJob
			for x := 0; x < n; x++ {
				j := f.job(8)
				if x > 0 && r.Intn(3) == 0 { // the same files, another job
					p := f.jobs[js[0].req.OutPrefix]
					req := &pb.NewJobRequest{StlFiles: p.req.StlFiles, Dim: p.req.Dim, NX: p.req.NX, NY: p.req.NY, NZ: p.req.NZ, OutPrefix: j.req.OutPrefix}
					*j = farmJob{req: req, nz: p.nz, n: p.n, sent: proto.Clone(protoadapt.MessageV2Of(req)), calls: make([]int, p.nz), ok: make([]int, p.nz), bad: make([]int, p.nz)}
				}
				js = append(js, j)
			}
			fails, cancels := map[string]bool{}, map[string]bool{}
			for _, j := range js {
				switch r.Intn(6) {
				case 0:
					fails[j.req.OutPrefix] = true
				case 1:
					cancels[j.req.OutPrefix] = true
				}
			}
			rep := reply{code: errCodes[1+r.Intn(len(errCodes)-1)], delay: time.Duration(r.Intn(20)) * time.Millisecond}
			if r.Intn(2) == 0 {
				rep = reply{text: "injected"}
			}
			script := func(r *rand.Rand, job string, z int) reply {
				if fails[job] && r.Intn(2) == 0 {
					return rep
				}
				return okScript(r, job, z)
			}
			ags := 1 + r.Intn(6)
			for x := 0; x < ags; x++ {
				f.register(f.agent(script).addr)
			}
			var wg sync.WaitGroup
			for _, j := range js {
				wg.Add(1)
				wait := time.Duration(r.Intn(3)*r.Intn(40)) * time.Millisecond
				stop := time.Duration(r.Intn(300)) * time.Millisecond
				go func() {
					defer wg.Done()
					time.Sleep(wait)
					ctx, cancel := context.WithCancel(context.Background())
					defer cancel()
					id := j.req.OutPrefix
					if cancels[id] {
						time.AfterFunc(stop, cancel)
					}
					if f.judge(j, f.run(ctx, j), !fails[id] && !cancels[id]) {
						k.Count("complete", 1)
					} else {
						k.Count("failed", 1)
					}
				}()
			}
			wg.Wait()
			f.finish()
			d := ""
			for _, j := range js {
				d += fmt.Sprintf(" %v/%d", j.n, j.req.Dim)
			}
			k.Distinct("%d jobs on %d agents, %d failing, %d canceled:%s", n, ags, len(fails), len(cancels), d)
		})
		// many jobs fail in the life of a master
		c.Cases("failures", c.N(3, 24), 3, func(k *K, i int) {
			r := k.R
			f := newFarm(k)
			defer f.close()
			what := map[string]int{} // 0: fine, 1: a slice fails, 2: canceled
			var js []*farmJob
			n := []int{40, 150, 300}[i%3]
			for x := 0; x < n; x++ {
				j := f.job(3)
				what[j.req.OutPrefix] = 1 + r.Intn(2)
				js = append(js, j)
			}
			rep := reply{code: errCodes[1+r.Intn(len(errCodes)-1)]}
			if r.Intn(2) == 0 {
				rep = reply{text: "injected"}
			}
			for x := 0; x < 12; x++ {
				f.register(f.agent(func(r *rand.Rand, job string, z int) reply {
					if what[job] == 1 {
						return rep
					}
					return okScript(r, job, z)
				}).addr)
			}
			lanes := make(chan struct{}, 4+r.Intn(40))
			var wg sync.WaitGroup
			start := func(j *farmJob) {
				lanes <- struct{}{}
				k.c.mu.Lock()
				failed := k.nfail > 0
				k.c.mu.Unlock()
				if failed {
					<-lanes
					return
				}
				wg.Add(1)
				stop := time.Duration(r.Intn(60)) * time.Millisecond
				go func() {
					defer wg.Done()
					defer func() { <-lanes }()
					ctx, cancel := context.WithCancel(context.Background())
					defer cancel()
					kind := what[j.req.OutPrefix]
					if kind == 2 {
						time.AfterFunc(stop, cancel)
					}
					if f.judge(j, f.run(ctx, j), kind == 0) {
						k.Count("complete", 1)
					} else {
						k.Count("failed", 1)
					}
				}()
			}
			for _, j := range js {
				start(j)
			}
			wg.Wait()
			for x := 0; x < 3; x++ {
				start(f.job(8))
			}
			wg.Wait()
			f.finish()
			k.Distinct("%d jobs that fail or are canceled, then 3 jobs", n)
		})
	}})
	register(&checkDef{id: "C26", race: true, rule: "distinct sets of jobs and agents whose every assignment was recorded and checked", run: func(c *Ctx) {
		c.Cases("assign", c.N(80, 900), 4, func(k *K, i int) {
			r := k.R
			f := newFarm(k)
			defer f.close()
			n := 1 + r.Intn(4)
			ags := 1 + r.Intn(6)
			slow := r.Intn(3)
			flaky := r.Intn(3) == 0
			for x := 0; x < ags; x++ {
				left := 1 + r.Intn(6)
				a := f.agent(func(r *rand.Rand, job string, z int) reply {
					rep := reply{delay: time.Duration(slow*r.Intn(25)) * time.Millisecond}
					if left--; x > 0 && flaky && left == 0 {
						rep.code = codes.Unavailable
					}
					return rep
				})
				if x > 0 && r.Intn(3) == 0 {
					time.AfterFunc(time.Duration(r.Intn(300))*time.Millisecond, func() { f.register(a.addr) })
				} else {
					f.register(a.addr)
				}
			}
			var wg sync.WaitGroup
			var js []*farmJob
			for x := 0; x < n; x++ {
				js = append(js, f.job(10))
			}
			for _, j := range js {
				wg.Add(1)
				go func() {
					defer wg.Done()
					f.judge(j, f.run(context.Background(), j), true)
				}()
			}
			wg.Wait()
			f.finish()
			f.mu.Lock()
			defer f.mu.Unlock()
			total := 0
			for _, j := range js {
				for z := range j.calls {
					total++
					if j.ok[z] != 1 || j.calls[z] != 1+j.bad[z] {
						k.Failf("once", "slice %d of %s was assigned %d times: %d failures and %d images", z, j.req.OutPrefix, j.calls[z], j.bad[z], j.ok[z])
					}
				}
			}
			used := 0
			for _, a := range f.agents {
				if a.most > 1 {
					k.Failf("busy", "%s worked on %d slices at the same time (%d jobs, %d agents)", a.name, a.most, n, ags)
				}
				if a.n > 0 {
					used++
				}
			}
			k.Count("slices", total)
			k.Count("agents_used", used)
			d := ""
			for _, j := range js {
				d += fmt.Sprintf(" %v/%d", j.n, j.req.Dim)
			}
			k.Distinct("%d agents (%d used), flaky %v:%s", ags, used, flaky, d)
		})
		// agents become idle just when slices start to wait
		c.Cases("wakeup", c.N(32, 400), 8, func(k *K, i int) {
			const lanes, batches, most = 12, 6, 8
			var pool [lanes]*wakeLane
			for x := range pool {
				pool[x] = newWakeLane(most)
				defer pool[x].close()
			}
			for b := 0; b < batches; b++ {
				var wg sync.WaitGroup
				for _, l := range pool {
					wg.Add(1)
					r := rand.New(rand.NewSource(k.R.Int63()))
					go func() {
						defer wg.Done()
						l.round(k, r)
					}()
				}
				wg.Wait()
			}
			k.Count("wakeup_rounds", lanes*batches)
			k.Distinct("%d rounds of up to %d agents and slices", lanes*batches, most)
		})
		// no agent stays idle while slices wait
		c.Cases("parallel", c.N(16, 120), 8, func(k *K, i int) {
			r := k.R
			f := newFarm(k)
			defer f.close()
			ags := 2 + r.Intn(5)
			var j *farmJob
			for j == nil || j.nz < ags {
				j = f.job(12)
			}
			var mu sync.Mutex
			in := map[string]bool{}
			all := make(chan struct{})
			late := false
			var as []*fakeAgent
			for x := 0; x < ags; x++ {
				as = append(as, f.agent(nil))
			}
			for _, a := range as {
				a.script = func(r *rand.Rand, job string, z int) reply {
					mu.Lock()
					if in[a.name] = true; len(in) == ags {
						select {
						case <-all:
						default:
							close(all)
						}
					}
					mu.Unlock()
					f.mu.Unlock()
					select {
					case <-all:
					case <-time.After(20 * time.Second):
						mu.Lock()
						late = true
						mu.Unlock()
					}
					f.mu.Lock()
					return reply{}
				}
				f.register(a.addr)
			}
			f.judge(j, f.run(context.Background(), j), !late)
			f.finish()
			mu.Lock()
			defer mu.Unlock()
			if late {
				k.Failf("idle", "only %d of %d agents worked, although slices were waiting: %s", len(in), ags, f.desc(j))
			}
			k.Distinct("%d agents at the same time: %s", ags, f.desc(j))
		})
	}})
}
