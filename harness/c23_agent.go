package main

import (
	"context"
	"math"
	"sync"

	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
	"google.golang.org/grpc"
)

func init() {
	register(&checkDef{id: "C23", race: true, rule: "distinct (job, slice) whose image was compared with base minus cuts, under the race detector", run: func(c *Ctx) {
		fm := &fakeMaster{}
		master, ms := serve(func(s *grpc.Server) { pb.RegisterMasterServer(s, fm) })
		defer ms.Stop()
		a := realAgent("127.0.0.1:9", master)
		if len(fm.addrs) != 1 || fm.addrs[0] != "127.0.0.1:9" {
			c.Errorf("the agent registered %v", fm.addrs)
			return
		}
		one := func(k *K, j *svxJob) {
			r := k.R
			n, _ := j.dims()
			judge, err := newSliceJudge(j, n)
			if err != nil {
				k.Failf("error", "Voxelize: %v\n%v", err, j)
				return
			}
			out := make([]vset, n.Z)
			var wg sync.WaitGroup
			sem := make(chan bool, 4)
			for _, z := range r.Perm(n.Z) {
				wg.Add(1)
				sem <- true
				go func() {
					defer func() { <-sem; wg.Done() }()
					resp, err := a.SliceJob(context.Background(), &pb.SliceJobRequest{NewJobRequest: j.req, Z: int64(z)})
					if err != nil || resp.GetError() != "" {
						k.Failf("error", "slice %d of %d: %v %v\n%v", z, n.Z, err, resp.GetError(), j)
						return
					}
					v, m, err := decodeSlice(resp.GetPngFile())
					if err != nil {
						k.Failf("image", "slice %d: %v\n%v", z, err, j)
						return
					}
					if m.X != n.X || m.Y != n.Y {
						k.Failf("size", "slice %d has %d x %d voxels instead of %d x %d\n%v", z, m.X, m.Y, n.X, n.Y, j)
						return
					}
					out[z] = v
				}()
			}
			wg.Wait()
			white, decided := 0, 0
			all := vset{}
			for z, v := range out {
				if v == nil {
					return
				}
				key, what, d := judge.check(z, v, n)
				if key != "" {
					k.Failf(key, "%s\n%v", what, j)
					return
				}
				decided += d
				white += len(v)
				for p := range v {
					all[P{p.X, p.Y, z}] = struct{}{}
				}
			}
			k.Count("slices", n.Z)
			k.Count("slices_decided_by_rounding", judge.fuzzy)
			k.Count("voxels_decided_geometrically", decided)
			if j.exact {
				k.Count("voxels_compared_exactly", n.X*n.Y*(n.Z-judge.fuzzy))
			}
			k.Count("cuts", len(j.cuts))
			if white > 0 {
				k.Distinct("%v in %v voxels, divided %d,%d,%d, exact %v: %d white, hash %x", j.names, n, j.req.NX, j.req.NY, j.req.NZ, j.exact, white, all.hash())
			}
		}
		c.Cases("job", c.N(450, 6000), 4, func(k *K, i int) {
			r := k.R
			if i%10 == 4 { // an edited model, again and again
				for _, e := range genJob(r, 20).edited(r, 2) {
					one(k, e)
					k.Count("edited_jobs", 1)
				}
				return
			}
			j := genJob(r, 20)
			if i%9 == 5 { // coordinates that need their double precision
				j = genJobAt(r, 20, math.Pow(10, 5+2*r.Float64()))
				k.Count("far_jobs", 1)
			}
			if i%45 == 7 {
				j = genLongJob(r, 250, 700, i/45%3)
			}
			one(k, j)
		})
	}})
}
