package main

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"

	gl "github.com/fogleman/fauxgl"
)

// localJob makes a job for the commands that slice without a server, and writes its STL files.
func localJob(k *K, maxDim int, gen func() *svxJob) (j *svxJob, args []string) {
	r := k.R
	for {
		j = gen()
		j.exact = false
		j.base = roundTris(j.base)
		for i := range j.cuts {
			j.cuts[i] = roundTris(j.cuts[i])
		}
		j.measure()
		n, sure := j.dims()
		if sure && int(j.req.NX) <= n.X && int(j.req.NY) <= n.Y && int(j.req.NZ) <= n.Z {
			break
		}
	}
	var names []string
	for i, ts := range append([][]*gl.Triangle{j.base}, j.cuts...) {
		if o := j.repeated(i); o >= 0 && r.Intn(3) > 0 { // the same file
			names = append(names, names[o])
			continue
		}
		name := stlName(k, i)
		b := encodeSTL(ts)
		// fauxgl's bounding box of a binary file with few triangles includes the origin
		if len(ts) > 0 && (len(ts) < 300 || r.Intn(4) == 0) {
			b = encodeASCII(ts)
		}
		writeFile(k.Path(name), b)
		j.files = append(j.files, k.Path(name))
		if r.Intn(8) == 0 {
			name = k.Path(name)
		}
		names = append(names, name)
	}
	return j, []string{"-dim", fmt.Sprint(j.req.Dim), "-nx", fmt.Sprint(j.req.NX), "-ny", fmt.Sprint(j.req.NY), "-nz", fmt.Sprint(j.req.NZ), "-stl", strings.Join(names, ",")}
}

// stlName makes the name of an STL file in a list, below the directory of the case.
func stlName(k *K, i int) string {
	r := k.R
	name := fmt.Sprintf("m%d.stl", i)
	if r.Intn(4) == 0 {
		name = strings.ReplaceAll(oddName(r, fmt.Sprintf("m%d", i)), ",", "") + ".stl"
	}
	if r.Intn(4) == 0 { // the base names of files in directories need not differ
		os.Mkdir(k.Path(fmt.Sprintf("d%d", i)), 0755)
		name = fmt.Sprintf("d%d/%s", i, []string{"m.stl", "m0.stl", name}[r.Intn(3)])
	}
	return name
}

// raced finds a report of the race detector in the output of a command.
func raced(res cliRes) bool { return strings.Contains(res.err, "WARNING: DATA RACE") }

func init() {
	register(&checkDef{id: "C33", level: "fault_enumeration", rule: "distinct runs of stl2svx whose archive was judged, or that had to fail", run: c33})
	register(&checkDef{id: "C34", level: "fault_enumeration", rule: "distinct runs of stldice-mr whose stack of images was judged, or that had to fail", run: c34})
}

// c33 runs the stand-alone stl2svx command.
func c33(c *Ctx) {
	bin := cli("cmd/stl2svx", false)
	race := cli("cmd/stl2svx", true)
	conv := cli("cmd/svx2stl", false)
	cred := filepath.Join(c.Dir, "cred.json")
	writeFile(cred, []byte(`{"type":"authorized_user","client_id":"x","client_secret":"y","refresh_token":"z"}`))
	env := func(k *K) []string {
		return []string{"GORACE=halt_on_error=0 exitcode=0", "GOOGLE_APPLICATION_CREDENTIALS=" + cred, "STUB_STORAGE=" + k.TempDir()}
	}
	// run slices a job, locally or into a bucket, and returns where the archive should be.
	run := func(k *K, j *svxJob, args []string) (res cliRes, out string) {
		dir := k.TempDir()
		name := fmt.Sprintf("out%d.svx", j.req.Dim)
		out = k.Path(name)
		b := bin
		if k.R.Intn(3) == 0 {
			b = race
		}
		if k.R.Intn(4) == 0 {
			os.Mkdir(k.Path("bucket"), 0755)
			out = filepath.Join(k.Path("bucket"), name)
			args = append([]string{"-bucket", "bucket"}, args...)
			k.Count("buckets", 1)
		}
		if k.R.Intn(3) == 0 { // an older, longer file
			old := make([]byte, 200000)
			k.R.Read(old)
			writeFile(out, old)
		}
		res = runCLIEnv(dir, env(k), b, args...)
		if raced(res) {
			k.Failf("race", "%v\n%v", res, j)
		}
		return
	}
	judge := func(k *K, j *svxJob, res cliRes, out string) bool {
		if res.code != 0 {
			k.Failf("failed", "stl2svx fails: %v\n%v", res, j)
			return false
		}
		b, err := os.ReadFile(out)
		if err != nil {
			k.Failf("no-file", "stl2svx succeeds without a file: %v\n%v", res, j)
			return false
		}
		key, what, all, m := judgeSVX(j, b)
		if key != "" {
			k.Failf(key, "%s\n%v", what, j)
			return false
		}
		k.Count("slices", m.GY)
		k.Count("white_voxels", len(all))
		if k.R.Intn(3) > 0 {
			return true
		}
		if res := runCLI(k.TempDir(), conv, out); res.code != 0 {
			k.Failf("svx2stl", "svx2stl fails: %v", res)
			return false
		}
		mesh, err := readSTL(strings.TrimSuffix(out, ".svx") + ".stl")
		if err != nil {
			k.Failf("stl", "%v", err)
			return false
		}
		vm := &model{N: P{m.GX, m.GY, m.GZ}, MMPV: j.mmpv, V: all}
		vm.Tol = 1e-6 * float64(1+max(m.GX, m.GY, m.GZ))
		key, what, pts := checkSolid(k.R, mesh, vm, 1+60000/(len(mesh.Triangles)+1))
		if key != "" {
			k.Failf("stl-"+key, "%s\n%v", what, j)
			return false
		}
		k.Count("points_classified", pts)
		return true
	}
	c.Cases("job", c.N(160, 2000), 6, func(k *K, i int) {
		r := k.R
		j, args := localJob(k, 18, func() *svxJob {
			if i%20 == 5 {
				return genLongJob(r, 60, 150, i/20%3)
			}
			return genJob(r, 18)
		})
		res, out := run(k, j, args)
		if judge(k, j, res, out) {
			k.Distinct("%v, dim %d, divided %d,%d,%d", j.names, j.req.Dim, j.req.NX, j.req.NY, j.req.NZ)
		}
	})
	c.Cases("slices", c.N(0, 1), 1, func(k *K, i int) {
		j, args := localJob(k, 18, func() *svxJob { return genLongJob(k.R, 10001, 10010, 2) })
		res, out := run(k, j, args)
		if judge(k, j, res, out) {
			k.Distinct("%v, dim %d, divided %d,%d,%d", j.names, j.req.Dim, j.req.NX, j.req.NY, j.req.NZ)
		}
	})
	c.Cases("bad", c.N(36, 200), 6, func(k *K, i int) {
		r := k.R
		j, args := localJob(k, 10, func() *svxJob { return genJob(r, 10) })
		out := k.Path(fmt.Sprintf("out%d.svx", j.req.Dim))
		what := ""
		pre := []string{bin}
		switch i % 9 {
		case 0:
			what = "a missing base"
			os.Remove(j.files[0])
		case 1:
			what = "a missing cut"
			args[9] += ",none.stl"
		case 2:
			what = "no STL file"
			args = args[:8]
		case 3:
			what, args[3+2*r.Intn(3)] = "too many divisions", "100"
		case 4:
			what = "an empty base"
			writeFile(j.files[0], []byte("solid x\nendsolid x\n"))
		case 5:
			what = "an output that cannot be created"
			os.Mkdir(out, 0755)
		case 6:
			what = "a bucket that does not exist"
			args = append([]string{"-bucket", "nobucket"}, args...)
		case 7:
			what = "a device that is full"
			pre = []string{filepath.Join(verifDir, ".build", "harness"), "helper", "fsize", fmt.Sprint(r.Intn(300)), bin} // an archive is longer
		case 8:
			what = "a client that cannot be made"
			args = append([]string{"-bucket", "bucket"}, args...)
		}
		e := env(k)
		if i%9 == 8 {
			e[2] = "STUB_STORAGE="
		}
		res := runCLIEnv(k.TempDir(), e, pre[0], append(pre[1:], args...)...)
		if res.code == 0 || res.hung {
			k.Failf("unreported", "stl2svx with %s: %v\n%v", what, res, j)
		} else if res.crashed() {
			k.Failf("crash", "stl2svx with %s: %v\n%v", what, res, j)
		}
		k.Distinct("%s: exit %d", what, res.code)
	})
	// single system calls that create, write or close the archive fail
	c.Cases("fault", c.N(40, 400), 6, func(k *K, i int) {
		r := k.R
		if !haveStrace() {
			return
		}
		j, args := localJob(k, 12, func() *svxJob { return genJob(r, 12) })
		out := fmt.Sprintf("out%d.svx", j.req.Dim)
		log := filepath.Join(k.TempDir(), ".trace")
		inj := []string{"write:error=ENOSPC:when=1", "write:error=EIO:when=1", "write:error=EIO:when=2+", "close:error=EIO:when=1", "openat:error=EACCES:when=1"}[i%5]
		a := []string{"-f", "-o", log, "-P", out, "-P", k.Path(out), "-e", "trace=write,close,openat", "-e", "inject=" + inj, bin}
		res := runCLIEnv(k.TempDir(), env(k), "strace", append(a, args...)...)
		b, _ := os.ReadFile(log)
		os.Remove(log)
		n := len(injected(strings.Split(string(b), "\n")))
		if n == 0 { // e.g. a single write
			k.Distinct("%s did not happen", inj)
			return
		}
		k.Count("injected_faults", n)
		if res.code == 0 {
			k.Failf("unreported", "%s of %s: stl2svx succeeds: %v\n%s", inj, out, res, b)
		} else if res.crashed() {
			k.Failf("crash", "%s of %s: %v", inj, out, res)
		}
		k.Distinct("%s: exit %d, dim %d", inj, res.code, j.req.Dim)
	})
}

// c34 runs the MapReduce stldice-mr in standalone mode.
func c34(c *Ctx) {
	bin := cli("cmd/stldice-mr", false)
	judge := func(k *K, j *svxJob, res cliRes) bool {
		if res.code != 0 {
			k.Failf("failed", "stldice-mr fails: %v\n%v", res, j)
			return false
		}
		n, _ := j.dims()
		sj, err := newSliceJudge(j, n)
		if err != nil {
			k.c.Errorf("%v", err)
			return false
		}
		files := map[string]bool{}
		for name := range dirSnap(k.TempDir()) {
			if strings.HasSuffix(name, ".png") {
				files[name] = true
			}
		}
		prefix := fmt.Sprintf("out-%d-%d-%d-%d-", j.req.Dim, j.req.NX, j.req.NY, j.req.NZ)
		white := 0
		for z := 0; z < n.Z; z++ {
			name := fmt.Sprintf("%s%d.png", prefix, z)
			got := vset{}
			if files[name] {
				delete(files, name)
				b, _ := os.ReadFile(k.Path(name))
				px, size, err := decodePNG(b)
				if err != nil {
					k.Failf("image", "%s: %v\n%v", name, err, j)
					return false
				}
				if size.X != int(j.req.Dim) || size.Y != int(j.req.Dim) {
					k.Failf("size", "%s has %v pixels, dim is %d\n%v", name, size, j.req.Dim, j)
					return false
				}
				for p := range px {
					if p.X >= n.X || p.Y >= n.Y {
						k.Failf("outside", "%s: pixel (%d,%d) is white, but the model has %v voxels\n%v", name, p.X, p.Y, n, j)
						return false
					}
					got[P{p.X, p.Y, 0}] = struct{}{}
				}
				k.Count("images", 1)
			}
			white += len(got)
			key, what, d := sj.check(z, got, n)
			if key != "" {
				k.Failf(key, "%s\n%v\n%v", what, j, res)
				return false
			}
			k.Count("voxels_decided_geometrically", d)
		}
		for f := range files {
			k.Failf("extra-file", "%s\n%v", f, j)
			return false
		}
		k.Count("white_pixels", white)
		return true
	}
	c.Cases("job", c.N(400, 1500), 6, func(k *K, i int) {
		r := k.R
		j, args := localJob(k, 24, func() *svxJob {
			if i%20 == 5 {
				return genLongJob(r, 60, 150, i/20%3)
			}
			return genJob(r, 24)
		})
		res := runCLI(k.TempDir(), bin, args...)
		if judge(k, j, res) {
			k.Distinct("%v, dim %d, divided %d,%d,%d", j.names, j.req.Dim, j.req.NX, j.req.NY, j.req.NZ)
		}
	})
	c.Cases("large", c.N(1, 8), 1, func(k *K, i int) {
		r := k.R
		j, args := localJob(k, 8, func() *svxJob {
			j := genJob(r, 8)
			lo := randVec(r, 20)
			j.base = roundTris(shuffleTris(r, fineBox(lo, lo.Add(gl.V(3+r.Float64()*5, 3+r.Float64()*5, 3+r.Float64()*5)), 40+r.Intn(20))))
			j.solid, j.names = true, append([]string{"fine box"}, j.names[1:]...)
			return j
		})
		res := runCLI(k.TempDir(), bin, args...)
		if judge(k, j, res) {
			k.Count("triangles_of_large_jobs", len(j.base))
			k.Distinct("%d triangles, dim %d, divided %d,%d,%d", len(j.base), j.req.Dim, j.req.NX, j.req.NY, j.req.NZ)
		}
	})
	// one image that cannot be written
	c.Cases("unwritable", c.N(24, 200), 4, func(k *K, i int) {
		r := k.R
		if !haveStrace() {
			return
		}
		j, args := localJob(k, 12, func() *svxJob { return genJob(r, 12) })
		before := dirSnap(k.TempDir())
		if res := runCLI(k.TempDir(), bin, args...); !judge(k, j, res) {
			return
		}
		var images []string
		for f := range dirSnap(k.TempDir()) {
			if _, ok := before[f]; !ok {
				images = append(images, f)
			}
		}
		if len(images) == 0 {
			k.Distinct("no images")
			return
		}
		slices.Sort(images)
		f := images[r.Intn(len(images))]
		for _, g := range images {
			os.Remove(k.Path(g))
		}
		what := ""
		var res cliRes
		switch i % 6 {
		case 0:
			what = "an image whose name is that of a directory"
			os.Mkdir(k.Path(f), 0755)
			res = runCLI(k.TempDir(), bin, args...)
		case 1:
			what = "an image that is on a full device"
			os.Symlink("/dev/full", k.Path(f))
			res = runCLI(k.TempDir(), bin, args...)
		default:
			inj := []string{"write:error=ENOSPC:when=1", "write:error=EIO:when=2+", "close:error=EIO:when=1", "openat:error=EACCES:when=1"}[i%6-2]
			what = inj + " of an image"
			log := filepath.Join(k.TempDir(), ".trace")
			a := []string{"-f", "-o", log, "-P", f, "-P", k.Path(f), "-e", "trace=write,close,openat", "-e", "inject=" + inj, bin}
			res = runCLI(k.TempDir(), "strace", append(a, args...)...)
			b, _ := os.ReadFile(log)
			os.Remove(log)
			n := len(injected(strings.Split(string(b), "\n")))
			if n == 0 {
				k.Distinct("%s did not happen", inj)
				return
			}
			k.Count("injected_faults", n)
		}
		if res.code == 0 || res.hung {
			k.Failf("unreported", "%s (%s): stldice-mr: %v\n%v", what, f, res, j)
		} else if res.crashed() {
			k.Failf("crash", "%s (%s): stldice-mr: %v\n%v", what, f, res, j)
		}
		k.Distinct("%s: exit %d, %d images, divided %d,%d,%d", what, res.code, len(images), j.req.NX, j.req.NY, j.req.NZ)
	})
	c.Cases("bad", c.N(10, 60), 4, func(k *K, i int) {
		r := k.R
		j, args := localJob(k, 10, func() *svxJob { return genJob(r, 10) })
		what := ""
		switch i % 5 {
		case 0:
			what = "a missing base"
			os.Remove(j.files[0])
		case 1:
			what = "a missing cut"
			args[9] += ",none.stl"
		case 2:
			what = "no STL file"
			args = args[:8]
		case 3:
			what, args[3+2*r.Intn(3)] = "too many divisions", "100"
		case 4:
			what = "an empty base"
			writeFile(j.files[0], []byte("solid x\nendsolid x\n"))
		}
		res := runCLI(k.TempDir(), bin, args...)
		if res.code == 0 || res.hung {
			k.Failf("unreported", "stldice-mr with %s: %v\n%v", what, res, j)
		} else if res.crashed() {
			k.Failf("crash", "stldice-mr with %s: %v\n%v", what, res, j)
		}
		k.Distinct("%s: exit %d", what, res.code)
	})
}
