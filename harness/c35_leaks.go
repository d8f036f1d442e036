package main

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/binvox"
	"github.com/gmlewis/stldice/v4/stl"
	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
	dpb "github.com/gmlewis/stldice/v4/stldice"
	"github.com/gmlewis/stldice/v4/vshell"
)

// C35: whatever is opened is closed again, and whatever is started ends.

func init() {
	register(&checkDef{id: "C35", rule: "distinct histories of calls, command runs and jobs after which open files, connections and goroutines were counted", run: c35})
}

func c35(c *Ctx) {
	c35library(c)
	c35commands(c)
	c35servers(c)
}

// openFiles counts the open files of a process of the harness.
func openFiles(pid int) int {
	l, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", pid))
	if err != nil {
		return -1
	}
	return len(l)
}

// settled waits until the number is at most the limit and returns the last number.
func settled(f func() int, limit int, d time.Duration) int {
	for end := time.Now().Add(d); ; time.Sleep(5 * time.Millisecond) {
		if n := f(); n <= limit || time.Now().After(end) {
			return n
		}
	}
}

// broken makes a damaged version of a file.
func broken(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	switch r.Intn(4) {
	case 0:
		return b[:r.Intn(len(b))]
	case 1:
		b[r.Intn(len(b))] ^= byte(1 + r.Intn(255))
	case 2:
		return append(b, 1, 255, 1, 255, 1)
	case 3:
		if i := strings.Index(string(b), "data\n"); i > 0 {
			b = append(b[:r.Intn(i)], b[i:]...)
		}
	}
	return b
}

func c35library(c *Ctx) {
	c.Cases("library", c.N(400, 5000), 1, func(k *K, i int) {
		r := k.R
		m := genModel(r, 8, true)
		if len(m.V) == 0 {
			m.V[P{}] = struct{}{}
		}
		if r.Intn(2) == 0 { // many runs
			m.N = P{8 + r.Intn(8), 8 + r.Intn(8), 8 + r.Intn(8)}
			m.V = genVoxels(r, "random", m.N.X, m.N.Y, m.N.Z)
			for x := 0; x < m.N.X; x++ {
				m.V[P{x, x % 2, x % m.N.Z}] = struct{}{}
			}
		}
		bad := r.Intn(2) == 0
		data := encodeBinvox(r, m)
		vsh := func() []byte {
			vs, err := vshell.New(m.bv())
			if err != nil {
				panic("harness: " + err.Error())
			}
			if err := vs.Write(k.Path("good.vsh"), 0, 0, 0, 0, 0, 0); err != nil {
				panic("harness: " + err.Error())
			}
			b, _ := os.ReadFile(k.Path("good.vsh"))
			return b
		}
		target := func(ext string) string {
			if !bad {
				return k.Path("out" + ext)
			}
			return []string{"/dev/full", k.TempDir(), k.Path("no/out" + ext)}[r.Intn(3)]
		}
		var names []string
		many := func(ext string, n int, f func(i int) []byte) {
			worst := r.Intn(n)
			for i := 0; i < n; i++ {
				b := f(i)
				name := k.Path(fmt.Sprintf("part%d%s", i, ext))
				names = append(names, name)
				if bad && i == worst {
					if r.Intn(3) == 0 {
						continue // missing
					}
					b = broken(r, b)
				}
				writeFile(name, b)
			}
		}
		what, op := "", func() error { return nil }
		switch i % 9 {
		case 0:
			what = "binvox.Read"
			if bad {
				data = broken(r, data)
			}
			writeFile(k.Path("in.binvox"), data)
			op = func() error { _, err := binvox.Read(k.Path("in.binvox"), 0, 0, 0, 0, 0, 0); return err }
		case 1:
			what = "binvox.Write"
			b, out := m.bv(), target(".binvox")
			op = func() error { return b.Write(out, 0, 0, 0, 0, 0, 0) }
		case 2:
			what = "vshell.Read"
			b := vsh()
			if bad {
				b = broken(r, b)
			}
			writeFile(k.Path("in.vsh"), b)
			op = func() error { _, err := vshell.Read(k.Path("in.vsh"), 0, 0, 0, 0, 0, 0); return err }
		case 3:
			what = "vshell.Write"
			vs, err := vshell.New(m.bv())
			if err != nil {
				panic("harness: " + err.Error())
			}
			out := target(".vsh")
			op = func() error { return vs.Write(out, 0, 0, 0, 0, 0, 0) }
		case 4:
			what = "vshell.Merge"
			many(".binvox", 1+r.Intn(6), func(i int) []byte {
				q := *m
				q.T.X += float64(i*m.N.X) * m.MMPV
				return encodeBinvox(r, &q)
			})
			op = func() error { _, err := vshell.Merge(names); return err }
		case 5:
			what = "stl.Merge"
			many(".stl", 1+r.Intn(12), func(i int) []byte { return encodeSTL(randTris(r, 1+r.Intn(50))) })
			workers := r.Intn(6)
			op = func() error { _, err := stl.Merge(names, workers); return err }
		case 6:
			what = "Voxelize"
			lo := gl.V(r.Float64(), r.Float64(), r.Float64())
			mesh := gl.NewTriangleMesh(boxTris(lo, lo.Add(gl.V(3, 4, 5))))
			n := 1 + r.Intn(12)
			if bad {
				n = 0
			}
			op = func() error {
				b := binvox.New(n, 8, 8, 0, 0, 0, 8, false)
				if err := b.Voxelize(mesh); err != nil {
					return err
				}
				return b.VoxelizeZ(mesh, r.Intn(8))
			}
		case 7:
			what = "meshes"
			b := m.bv()
			op = func() error { b.ToMesh(); b.ManifoldMesh(); b.MarchingCubes(); return nil }
		case 8:
			what = "vshell.New"
			b := m.bv()
			op = func() error { _, err := vshell.New(b); return err }
		}
		op()         // whatever is only set up once
		runtime.GC() // files of the harness that nobody closed
		defer debug.SetGCPercent(debug.SetGCPercent(-1))
		files, routines := openFiles(os.Getpid()), runtime.NumGoroutine()
		const times = 5
		var err error
		for j := 0; j < times; j++ {
			err = op()
		}
		if n := settled(func() int { return openFiles(os.Getpid()) }, files, 3*time.Second); n > files {
			k.Failf("files", "%d files are open after %d calls of %s (%v), %d before", n, times, what, err, files)
		}
		if n := settled(runtime.NumGoroutine, routines, 3*time.Second); n > routines {
			k.Failf("goroutines", "%d goroutines run after %d calls of %s (%v), %d before", n, times, what, err, routines)
		}
		if err != nil {
			k.Count("failing_calls", times)
		} else {
			k.Count("calls", times)
		}
		k.Distinct("%s: %v; %v", what, err, m)
	})
}

// limited runs a command that may not have more than 64 open files, and that
// doesn't get files closed by the garbage collector.
func limited(dir string, env []string, bin string, args ...string) cliRes {
	return runCLIEnv(dir, append(env, "GOGC=off"), "/bin/sh", append([]string{"-c", `ulimit -n 64; exec "$0" "$@"`, bin}, args...)...)
}

func c35commands(c *Ctx) {
	bins := map[string]string{}
	for _, name := range []string{"merge-stl", "merge-binvox", "voxcut", "voxcut-dice", "svx2stl", "stldice", "stldice-mr", "stl2svx"} {
		bins[name] = cli("cmd/"+name, false)
	}
	c.Cases("commands", c.N(16, 120), 8, func(k *K, i int) {
		r := k.R
		dir := k.TempDir()
		n := 120 + r.Intn(60)
		what, want := "", ""
		var args []string
		box := func(name string, x, y, z float64) {
			writeFile(k.Path(name), encodeSTL(boxTris(gl.V(0, 0, 0), gl.V(x, y, z))))
		}
		voxel := func(i int) *model {
			return &model{N: P{2, 2, 2}, MMPV: 1, T: gl.V(float64(2*i), 0, 0), V: vset{P{}: {}, P{1, i % 2, 1}: {}}}
		}
		switch i % 8 {
		case 0:
			what, want = "merge-stl", "out.stl"
			for j := 0; j < n; j++ {
				writeFile(k.Path(fmt.Sprintf("out-%03d.stl", j)), encodeSTL(randTris(r, 1+r.Intn(5))))
			}
			args = []string{"-num", fmt.Sprint(1 + r.Intn(20))}
		case 1:
			what, want = "merge-binvox", "out.vsh"
			for j := 0; j < n; j++ {
				writeFile(k.Path(fmt.Sprintf("out-%03d.binvox", j)), encodeBinvox(r, voxel(j)))
			}
		case 2:
			what, want = "voxcut", "out.binvox"
			m := &model{N: P{2 * n, 2, 2}, MMPV: 1, V: genVoxels(r, "full", 2*n, 2, 2)}
			writeFile(k.Path("base.binvox"), encodeBinvox(r, m))
			args = []string{"-obinvox", "out.binvox", "base.binvox"}
			for j := 0; j < n; j++ {
				writeFile(k.Path(fmt.Sprintf("cut-%03d.binvox", j)), encodeBinvox(r, voxel(j)))
				args = append(args, fmt.Sprintf("cut-%03d.binvox", j))
			}
		case 3:
			what, want = "voxcut-dice", "out-0000-0000-0000-0001-0001-0001.binvox"
			m := &model{N: P{n, 1, 1}, MMPV: 1, V: genVoxels(r, "full", n, 1, 1)}
			writeFile(k.Path("base.binvox"), encodeBinvox(r, m))
			args = []string{"-size", "1", "-obinvox", "out", "base.binvox"}
		case 4:
			what, want = "svx2stl", "in-000.stl"
			for j := 0; j < n; j++ {
				name := fmt.Sprintf("in-%03d.svx", j)
				writeFile(k.Path(name), encodeZip(r, svxEntries(r, voxel(0), svxOpt{orientation: "Y", voxelSize: .001, format: svxFormats[0]})))
				args = append(args, name)
			}
		case 5:
			what, want = "stldice", fmt.Sprintf("a-%d-%d-1-1-0-0-0.binvox", n, n)
			box("a.stl", float64(n), 2, 2)
			args = []string{"-dim", fmt.Sprint(n), "-nx", fmt.Sprint(n), "-ny", "1", "-nz", "1", "a.stl"}
			want = ""
		case 6:
			what = "stldice-mr"
			box("a.stl", 2, 2, float64(n))
			args = []string{"-dim", fmt.Sprint(n), "-nx", "1", "-ny", "1", "-nz", "2", "-stl", "a.stl"}
		case 7:
			what = "stl2svx"
			box("a.stl", 2, 2, float64(n))
			args = []string{"-dim", fmt.Sprint(n), "-nx", "1", "-ny", "1", "-nz", fmt.Sprint(1 + r.Intn(n)), "-stl", "a.stl"}
		}
		res := limited(dir, pathEnv(), bins[what], args...)
		if res.code != 0 || res.hung {
			k.Failf("command", "%s fails with %d files if at most 64 files may be open: %v", what, n, res)
			return
		}
		if want != "" && len(dirSnap(dir)[want]) == 0 {
			k.Failf("command", "%s with %d files writes no %s if at most 64 files may be open: %v", what, n, want, res)
			return
		}
		if l := len(dirSnap(dir)); (what == "stldice" || what == "stldice-mr" || what == "voxcut-dice") && l < n || what == "svx2stl" && l != 2*n {
			k.Failf("command", "%s leaves only %d files for %d if at most 64 files may be open: %v", what, l, n, res)
			return
		}
		k.Count("files_of_commands", n)
		k.Distinct("%s with %d files", what, n)
	})
}

func c35servers(c *Ctx) {
	// a master in this process, with agents that fail
	c.Cases("master", c.N(6, 60), 1, func(k *K, i int) {
		r := k.R
		routines := runtime.NumGoroutine()
		f := newFarm(k)
		closed := false
		defer func() {
			if !closed {
				f.close()
			}
		}()
		for n := 3 + r.Intn(6); n > 0; n-- {
			f.register(f.agent(func(r *rand.Rand, job string, z int) reply {
				rep := okScript(r, job, z)
				if r.Intn(40) == 0 {
					rep.text = "injected"
				}
				return rep
			}).addr)
		}
		addrs := len(f.agents)
		for n := r.Intn(5); n > 0; n-- {
			f.register(freeAddress())
			addrs++
		}
		limit := routines + 10 + 6*addrs // connections may be kept
		jobs := 40 + r.Intn(40)
		failed, slices := 0, 0
		for n := 0; n < jobs; n++ {
			j := f.job(8)
			ctx, cancel := context.WithCancel(context.Background())
			if r.Intn(4) == 0 {
				time.AfterFunc(time.Duration(r.Intn(20))*time.Millisecond, cancel)
			}
			if !f.judge(j, f.run(ctx, j), false) {
				failed++
			}
			slices += j.nz
			cancel()
		}
		f.close() // which ends all connections and calls of the agents
		closed = true
		if n := settled(runtime.NumGoroutine, limit, 10*time.Second); n > limit {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			k.Failf("goroutines", "%d goroutines run after %d jobs of a master (%d failed or were canceled) and before it %d, for example\n%s", n, jobs, failed, routines, commonStack(string(buf)))
			return
		}
		k.Count("jobs", jobs)
		k.Count("failed_jobs", failed)
		k.Distinct("%d jobs with %d slices, %d failed", jobs, slices, failed)
	})
	// processes
	c.Cases("processes", c.N(3, 20), 3, func(k *K, i int) {
		r := k.R
		bin := cli("stl2svx/stl2svx-server", false)
		var procs []*proc
		defer func() {
			for _, p := range procs {
				p.kill()
			}
		}()
		start := func(bin string, args ...string) *proc {
			p, err := startProc(k.TempDir(), "/bin/sh", func(a string) []string {
				return append([]string{"-c", `ulimit -n 64; GOGC=400 exec "$0" "$@"`, bin, "-port", a}, args...)
			})
			if err != nil {
				k.Failf("start", "%v", err)
				return nil
			}
			procs = append(procs, p)
			return p
		}
		m := start(bin)
		if m == nil {
			return
		}
		for n := 1 + r.Intn(3); n > 0; n-- {
			if start(bin, "-master", m.addr) == nil {
				return
			}
		}
		slave := start(cli("server/stldice-slave", false))
		if slave == nil {
			return
		}
		v := genModel(r, 4, true)
		region := &dpb.VoxelRegion{Urx: 1, Ury: 1, Urz: 1, Nx: int64(v.N.X), Ny: int64(v.N.Y), Nz: int64(v.N.Z)}
		writeFile(k.Path(regionFile(region)), encodeBinvox(r, v))
		conn, sconn := dial(m.addr), dial(slave.addr)
		defer conn.Close()
		defer sconn.Close()
		base := make([]int, 4)
		calls, errs := 0, 0
		for round := 0; round < 2; round++ {
			n := []int{5, 30}[round]
			var wg sync.WaitGroup
			lanes := make(chan struct{}, 1+r.Intn(3))
			for x := 0; x < n; x++ {
				j := genJob(r, 10)
				if r.Intn(5) == 0 {
					func() {
						defer func() { recover() }()
						malformers[r.Intn(len(malformers))].f(r, j.req)
					}()
				}
				stop := -1
				if r.Intn(5) == 0 {
					stop = r.Intn(40)
				}
				if jobVerdict(j.req) == "huge" {
					continue
				}
				wg.Add(1)
				lanes <- struct{}{}
				go func() {
					defer wg.Done()
					defer func() { <-lanes }()
					ctx, cancel := context.WithTimeout(context.Background(), callLimit)
					defer cancel()
					if stop >= 0 {
						time.AfterFunc(time.Duration(stop)*time.Millisecond, cancel)
					}
					_, err := pb.NewMasterClient(conn).NewJob(ctx, j.req)
					k.c.mu.Lock()
					defer k.c.mu.Unlock()
					if calls++; err != nil {
						errs++
					}
				}()
			}
			wg.Wait()
			for x := 0; x < 10*n; x++ {
				q := *region
				if x%3 == 0 {
					q.Nx += int64(1 + x%7) // there is no such model
				}
				ctx, cancel := context.WithTimeout(context.Background(), callLimit)
				_, err := dpb.NewSTLDiceClient(sconn).GetSTLMesh(ctx, &dpb.GetSTLMeshRequest{VoxelRegion: &q})
				cancel()
				if (err == nil) != (x%3 != 0) {
					k.Failf("slave", "call %d of GetSTLMesh with at most 64 open files: %v\n%s", x, err, slave.out.tail())
					return
				}
			}
			// the last work ends, and with it its connections
			for x, p := range procs {
				if x > 3 {
					break
				}
				if round == 0 {
					time.Sleep(200 * time.Millisecond)
					base[x] = openFiles(p.cmd.Process.Pid)
					continue
				}
				if n := settled(func() int { return openFiles(p.cmd.Process.Pid) }, base[x]+6, 10*time.Second); n > base[x]+6 {
					k.Failf("files", "a process (%v) has %d open files after %d jobs and requests, after the first ones %d\n%s", p.cmd.Args[4:], n, calls, base[x], p.out.tail())
				}
			}
		}
		j := genJob(r, 8)
		ctx, cancel := context.WithTimeout(context.Background(), callLimit)
		defer cancel()
		if _, err := pb.NewMasterClient(conn).NewJob(ctx, j.req); err != nil {
			k.Failf("last", "the last job fails: %v", err)
		}
		for _, p := range procs {
			if !p.alive() {
				k.Failf("died", "a process ended: %v\n%s", p.err, p.out.tail())
			}
		}
		k.Count("process_jobs", calls)
		k.Distinct("%d processes, %d jobs, %d without success", len(procs), calls, errs)
	})
}

// commonStack returns the most frequent stack of goroutines.
func commonStack(s string) string {
	n := map[string]int{}
	best := ""
	for _, g := range strings.Split(s, "\n\n") {
		l := strings.Split(g, "\n")
		var fs []string
		for x := 1; x < len(l); x += 2 {
			if i := strings.LastIndex(l[x], "("); i > 0 {
				fs = append(fs, l[x][:i])
			}
		}
		key := strings.Join(fs, "\n")
		if n[key]++; n[key] > n[best] {
			best = key
		}
	}
	return fmt.Sprintf("%d times:\n%s", n[best], best)
}
