package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/binvox"
	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
	"github.com/gmlewis/stldice/v4/vshell"
	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc"
)

// ---- faults while a file is read ------------------------------------------------
//
// A reader runs under strace, which makes the n-th read of one input file fail
// with EIO. Whoever reads the file either reports this or has a complete result.

// tracedReads runs a command, of whose reads of path the n-th fails (n > 0).
// It returns the number of reads of that file and whether the fault was injected.
func tracedReads(k *K, env []string, path string, n int, bin string, args ...string) (res cliRes, reads int, hit bool) {
	log := filepath.Join(k.c.Dir, "reads-"+strings.ReplaceAll(k.Label, "/", "-"))
	defer os.Remove(log)
	a := []string{"-f", "-o", log, "-P", path, "-e", "trace=read,pread64,readv,preadv"}
	if n > 0 {
		a = append(a, "-e", fmt.Sprintf("inject=read,pread64,readv,preadv:error=EIO:when=%d", n))
	}
	res = runCLIEnv(k.TempDir(), env, "strace", append(append(a, bin), args...)...)
	b, _ := os.ReadFile(log)
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "read") && strings.Contains(l, "(") && !strings.Contains(l, "resumed") {
			reads++
		}
		hit = hit || strings.Contains(l, "INJECTED")
	}
	return res, reads, hit
}

// sameOutputs compares the results of two runs; the order of an STL file's
// triangles is free.
func sameOutputs(want, got map[string]string) string {
	for f, b := range want {
		g, ok := got[f]
		if !ok {
			return "no " + f
		}
		if b == g {
			continue
		}
		if strings.HasSuffix(f, ".stl") {
			t1, e1 := decodeSTL([]byte(b))
			t2, e2 := decodeSTL([]byte(g))
			if e1 == nil && e2 == nil && bagOf(t1).diff(bagOf(t2)) == "" {
				continue
			}
		}
		return f + " differs"
	}
	for f := range got {
		if _, ok := want[f]; !ok {
			return "an additional " + f
		}
	}
	return ""
}

// recMaster records the jobs it is given.
type recMaster struct {
	mu   sync.Mutex
	jobs []string
}

func (m *recMaster) NewJob(ctx context.Context, in *pb.NewJobRequest) (*pb.NewJobResponse, error) {
	b, err := proto.Marshal(in)
	m.mu.Lock()
	defer m.mu.Unlock()
	m.jobs = append(m.jobs, string(b))
	return &pb.NewJobResponse{SvxFile: []byte(fmt.Sprintf("job %x", hash64(string(b))))}, err
}

func (m *recMaster) RegisterAgent(ctx context.Context, in *pb.RegisterAgentRequest) (*pb.RegisterAgentResponse, error) {
	return &pb.RegisterAgentResponse{}, nil
}

func init() {
	// readmodel FORMAT FILE prints the voxels of a model.
	helpers["readmodel"] = func(args []string) int {
		var l []string
		switch args[0] {
		case "binvox":
			bv, err := binvox.Read(args[1], 0, 0, 0, 0, 0, 0)
			if err != nil {
				return 1
			}
			for _, p := range whiteSet(bv.WhiteVoxels).sorted() {
				l = append(l, fmt.Sprint(p))
			}
		default:
			vs, err := vshell.Read(args[1], 0, 0, 0, 0, 0, 0)
			if err != nil {
				return 1
			}
			for _, v := range vs.Voxels {
				l = append(l, fmt.Sprint(v.X, v.Y, v.Z, uint32(v.N)))
			}
			sort.Strings(l)
		}
		fmt.Println(strings.Join(l, "\n"))
		return 0
	}

	register(&checkDef{id: "C31", rule: "distinct (reader, input, failing read) with the fault injected, judged against the undisturbed run", run: func(c *Ctx) {
		if !haveStrace() {
			c.Errorf("strace cannot inject faults here")
			return
		}
		self := filepath.Join(verifDir, ".build", "harness")
		bins := map[string]string{}
		for _, b := range []string{"manifold-mesh", "marching-cubes", "voxcut", "voxcut-dice", "merge-binvox", "merge-stl", "svx2stl", "stldice", "binvox-dice", "stl2svx", "stldice-mr"} {
			bins[b] = cli("cmd/"+b, false)
		}
		client := cli("stl2svx/stl2svx-client", false)
		rec := &recMaster{}
		addr, srv := serve(func(s *grpc.Server) { pb.RegisterMasterServer(s, rec) })
		defer srv.Stop()
		env := pathEnv()
		kinds := []string{"read-binvox", "read-vshell", "manifold-mesh", "marching-cubes", "voxcut", "voxcut-dice", "merge-binvox", "merge-stl", "svx2stl", "stldice", "stl2svx-client", "stl2svx", "stldice-mr"}
		c.Cases("eio", c.N(780, 2600), 8, func(k *K, i int) {
			r := k.R
			kind := kinds[i%len(kinds)]
			var bin string
			var args, inputs []string
			file := func(name string, b []byte) {
				writeFile(k.Path(name), b)
				inputs = append(inputs, name)
			}
			binvoxFile := func(name string) *model {
				m := genModel(r, 10, true)
				if r.Intn(3) == 0 { // several buffers of the reader
					n := 16 + r.Intn(10)
					m.N = P{n, n, n}
					m.V = genVoxels(r, []string{"checker", "dense"}[r.Intn(2)], n, n, n)
					if len(m.V) == 0 {
						m.V[P{}] = struct{}{}
					}
				}
				file(name, encodeBinvox(r, m))
				return m
			}
			stlFile := func(name string, lo, hi gl.Vector) {
				ts := fineBox(lo, hi, []int{1, 2, 5, 14}[r.Intn(4)])
				if r.Intn(3) == 0 {
					file(name, encodeASCII(ts))
				} else {
					file(name, encodeSTL(ts))
				}
			}
			switch kind {
			case "read-binvox":
				bin = self
				binvoxFile("m.binvox")
				args = []string{"helper", "readmodel", "binvox", "m.binvox"}
			case "read-vshell":
				bin = self
				m := exactModel(r, 12)
				if r.Intn(2) == 0 {
					n := 12 + r.Intn(10)
					m.N = P{n, n, n}
					m.V = genVoxels(r, "checker", n, n, n)
				}
				file("m.vsh", encodeVsh(r, m, shellOf(m.V)))
				args = []string{"helper", "readmodel", "vshell", "m.vsh"}
			case "manifold-mesh", "marching-cubes":
				bin = bins[kind]
				binvoxFile("m.binvox")
				args = []string{"m.binvox", "out.stl"}
			case "voxcut":
				bin = bins[kind]
				binvoxFile("m.binvox")
				args = []string{[]string{"-obinvox", "-ostl"}[r.Intn(2)], "out", "m.binvox"}
			case "voxcut-dice":
				bin = bins[kind]
				m := binvoxFile("m.binvox")
				args = []string{"-size", fmt.Sprint((max(m.N.X, m.N.Y, m.N.Z) + 1) / 2), "-obinvox", "b", "m.binvox"}
			case "merge-binvox":
				bin = bins[kind]
				m := exactModel(r, 12)
				for j, p := range splitModel(r, m, 1+r.Intn(3), 0) {
					file(fmt.Sprintf("out-%02d.binvox", j), encodeBinvox(r, p.model))
				}
				args = []string{"-prefix", "out"}
			case "merge-stl":
				bin = bins[kind]
				for j := 0; j < 1+r.Intn(4); j++ {
					stlFile(fmt.Sprintf("out-%02d.stl", j), gl.V(float64(j), 0, 0), gl.V(float64(j)+1, 1, 1))
				}
				args = []string{"-prefix", "out"}
			case "svx2stl":
				bin = bins[kind]
				m := exactModel(r, 8)
				file("in.svx", encodeZip(r, svxEntries(r, m, svxOpt{orientation: "Y", format: svxFormats[r.Intn(len(svxFormats))], voxelSize: .001})))
				args = []string{"in.svx"}
			case "stldice":
				bin = bins[kind]
				stlFile("base.stl", gl.V(0, 0, 0), gl.V(4, 4, 4))
				args = []string{"-dim", "16", "-nx", "2", "-ny", "2", "-nz", "1", "base.stl"}
				if r.Intn(2) == 0 {
					stlFile("cut.stl", gl.V(1, 1, 1), gl.V(2, 3, 3))
					args = append(args, "cut.stl")
				}
				if r.Intn(2) == 0 {
					args = append([]string{"-mbb", "(0,0,0)-(4,4,4)"}, args...)
				}
			case "stl2svx-client", "stl2svx", "stldice-mr":
				bin = client
				stlFile("base.stl", gl.V(0, 0, 0), gl.V(4, 4, 4))
				names := "base.stl"
				if r.Intn(2) == 0 {
					stlFile("cut.stl", gl.V(1, 1, 1), gl.V(2, 3, 3))
					names += ",cut.stl"
				}
				args = []string{"-dim", "16", "-nx", "1", "-ny", "1", "-nz", "1", "-stl", names, "-prefix", "out", "-master", addr}
				if kind != "stl2svx-client" {
					bin = bins[kind]
					args = append([]string{"-dim", fmt.Sprint(1 + r.Intn(5))}, args[2:10]...)
				}
			}
			if len(inputs) == 0 {
				return
			}
			in := map[string]string{}
			for _, f := range inputs {
				b, _ := os.ReadFile(k.Path(f))
				in[f] = string(b)
			}
			clean := func() map[string]string {
				out := dirSnap(k.TempDir())
				for f := range out {
					if _, ok := in[f]; !ok {
						os.Remove(k.Path(f))
						continue
					}
					delete(out, f)
				}
				return out
			}
			victim := inputs[r.Intn(len(inputs))]
			ref, reads, _ := tracedReads(k, env, k.Path(victim), 0, bin, args...)
			want := clean()
			desc := fmt.Sprintf("%s %v, reading %s (%d bytes, %d reads)", kind, args, victim, len(in[victim]), reads)
			if ref.code != 0 || ref.hung {
				k.Failf("undisturbed", "%s fails without a fault: %v", desc, ref)
				return
			}
			if reads == 0 {
				k.Failf("unread", "%s: the file was never read", desc)
				return
			}
			ns := []int{1, reads, 1 + r.Intn(reads), 1 + r.Intn(reads)}
			for _, n := range ns[:c.N(3, 4)] {
				res, _, hit := tracedReads(k, env, k.Path(victim), n, bin, args...)
				got := clean()
				if !hit {
					k.Count("not_reached", 1)
					continue
				}
				k.Count("faults_injected", 1)
				switch {
				case res.hung:
					k.Failf("hang", "%s: read %d fails: %v", desc, n, res)
				case res.crashed() && strings.HasSuffix(victim, ".stl") && strings.HasPrefix(in[victim], "solid"):
					// fauxgl's ASCII loader panics on a partial triangle: not silent
					k.Count("reported", 1)
				case res.crashed():
					k.Failf("crash", "%s: read %d fails: %v", desc, n, res)
				case res.code != 0:
					k.Count("reported", 1)
				default:
					k.Count("unharmed", 1)
					if d := sameOutputs(want, got); d != "" {
						k.Failf("silent", "%s: read %d fails, but success is reported and the result is another one: %s\n%v", desc, n, d, res)
					} else if (strings.HasPrefix(kind, "read-") || kind == "stldice") && res.out != ref.out {
						k.Failf("silent", "%s: read %d fails, but success is reported and the result is another one:\n%.300s\ninstead of\n%.300s", desc, n, res.out, ref.out)
					}
				}
				k.Distinct("%s: read %d: exit %d", desc, n, res.code)
			}
		})
	}})
}
