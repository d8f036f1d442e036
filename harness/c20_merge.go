package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/stl"
)

// randTris makes triangles that differ from those of other calls.
func randTris(r *rand.Rand, n int) []*gl.Triangle {
	var ts []*gl.Triangle
	for i := 0; i < n; i++ {
		a := randVec(r, 100)
		ts = append(ts, tri(a, a.Add(randVec(r, 3)), a.Add(randVec(r, 3))))
	}
	return roundTris(ts)
}

func writeSTLs(k *K, n int, name func(i int) string, maxTris int) (files []string, all []*gl.Triangle) {
	r := k.R
	for i := 0; i < n; i++ {
		m := r.Intn(maxTris + 1)
		if r.Intn(6) == 0 {
			m = 0
		}
		ts := randTris(r, m)
		if m > 0 && r.Intn(6) == 0 && len(all) > 0 { // the same triangle in several files counts for each
			ts = append(ts, all[r.Intn(len(all))])
		}
		f := name(i)
		if r.Intn(4) == 0 && m > 0 {
			writeFile(k.Path(f), encodeASCII(ts))
		} else {
			writeFile(k.Path(f), encodeSTL(ts))
		}
		files = append(files, k.Path(f))
		all = append(all, ts...)
	}
	return files, all
}

func stlMergeCheck(c *Ctx) {
	c.Cases("merge", c.N(500, 5000), 4, func(k *K, i int) {
		r := k.R
		n := 1 + r.Intn(12)
		if r.Intn(6) == 0 {
			n = 20 + r.Intn(40)
		}
		files, all := writeSTLs(k, n, func(i int) string { return fmt.Sprintf("f%03d.stl", i) }, []int{3, 40, 400, 400, 40, 3, 0}[r.Intn(7)])
		if r.Intn(4) == 0 { // files that are in the list several times, also by other names
			for j := 1 + r.Intn(3); j > 0; j-- {
				q := r.Intn(len(files))
				f := files[q]
				m, err := gl.LoadSTL(f)
				if err != nil {
					panic(err)
				}
				all = append(all, m.Triangles...)
				if r.Intn(3) == 0 {
					f = filepath.Dir(f) + "/./" + filepath.Base(f)
				}
				p := r.Intn(len(files) + 1)
				files = append(files[:p:p], append([]string{f}, files[p:]...)...)
			}
			n = len(files)
		}
		before := dirSnap(k.TempDir())
		w := []int{1, 2, 3, 5, 8, 10, 20, 100, 0, -1}[r.Intn(10)]
		mesh, err := stl.Merge(files, w)
		if err != nil {
			k.Failf("error", "Merge of %d files with %d workers: %v", n, w, err)
			return
		}
		if mesh == nil {
			k.Failf("nothing", "Merge of %d files with %d workers gives neither a mesh nor an error (%d triangles in the files)", n, w, len(all))
			return
		}
		got := mesh.Triangles
		if d := bagOf(all).diff(bagOf(got)); d != "" {
			k.Failf("triangles", "%d files, %d workers: %v (%d instead of %d triangles)", n, w, d, len(got), len(all))
			return
		}
		// usable: saving it gives all triangles
		if r.Intn(4) == 0 {
			out := k.Path("saved")
			if err := mesh.SaveSTL(out); err != nil {
				k.Failf("error", "SaveSTL: %v", err)
				return
			}
			m, err := readSTL(out)
			if err != nil || bagOf(all).diff(bagOf(m.Triangles)) != "" {
				k.Failf("triangles", "the saved mesh is not what was merged (%v)", err)
			}
			os.Remove(out)
			if len(all) > 0 { // and so is its bounding box
				lo, hi := boundsOf(all)
				if b := mesh.BoundingBox(); len(all) >= 512 && n == 1 && (b.Min != lo || b.Max != hi) {
					k.Failf("bounds", "bounding box %v instead of %v-%v", b, lo, hi)
				}
			}
		}
		after := dirSnap(k.TempDir())
		for f, b := range before {
			if after[f] != b {
				k.Failf("input", "Merge changed %v", f)
			}
		}
		k.Count("triangles", len(all))
		k.Count("files", n)
		k.Distinct("%d files, %d workers, %d triangles", n, w, len(all))
	})
	c.Cases("error", c.N(120, 1000), 4, func(k *K, i int) {
		r := k.R
		n := 1 + r.Intn(10)
		files, _ := writeSTLs(k, n, func(i int) string { return fmt.Sprintf("f%03d.stl", i) }, 50)
		bad := 1 + r.Intn(2)
		what := ""
		for j := 0; j < bad; j++ {
			q := r.Intn(n)
			switch r.Intn(3) {
			case 0:
				what += " missing"
				os.Remove(files[q])
			case 1:
				what += " short"
				os.Remove(files[q])
				writeFile(files[q], make([]byte, r.Intn(84)))
			case 2:
				what += " directory"
				os.RemoveAll(files[q])
				os.Mkdir(files[q], 0755)
			}
		}
		w := []int{1, 2, 3, 10, 0}[r.Intn(5)]
		mesh, err := stl.Merge(files, w)
		if err == nil {
			k.Failf("unreported", "Merge of %d files, of which some are%s, with %d workers: no error", n, what, w)
			return
		}
		if mesh != nil {
			k.Failf("unreported", "Merge of %d files, of which some are%s, with %d workers: a mesh and error %v", n, what, w, err)
		}
		k.Distinct("%d files, %d workers:%s", n, w, what)
	})
	// FIFOs show which files are being loaded: a writer can only open one that has a reader
	c.Cases("workers", c.N(24, 200), 4, func(k *K, i int) {
		r := k.R
		n := 4 + r.Intn(16)
		w := 1 + r.Intn(6)
		var files []string
		for j := 0; j < n; j++ {
			f := k.Path(fmt.Sprintf("fifo%d", j))
			if err := syscall.Mkfifo(f, 0600); err != nil {
				panic(fmt.Sprint("harness: mkfifo: ", err))
			}
			files = append(files, f)
		}
		var ended int32
		paths := append([]string(nil), files...)
		go func() {
			stl.Merge(paths, w)
			atomic.StoreInt32(&ended, 1)
		}()
		open := map[int]int{}
		done := 0
		most := 0
		idle := time.Now()
		for atomic.LoadInt32(&ended) == 0 {
			for j, f := range files {
				if _, ok := open[j]; ok || f == "" {
					continue
				}
				fd, err := syscall.Open(f, syscall.O_WRONLY|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0)
				if err != nil {
					continue
				}
				open[j] = fd
				idle = time.Now()
			}
			// files whose readers wait for their header
			most = max(most, len(open))
			if len(open) > w {
				k.Failf("workers", "%d of %d files are being loaded at once by %d workers", len(open), n, w)
				break
			}
			if time.Since(idle) > 10*time.Millisecond && len(open) > 0 { // let one of them end
				var l []int
				for j := range open {
					l = append(l, j)
				}
				sort.Ints(l)
				j := l[r.Intn(len(l))]
				syscall.Close(open[j])
				delete(open, j)
				files[j] = ""
				done++
				idle = time.Now()
			}
			if time.Since(idle) > 20*time.Second {
				k.Failf("hang", "Merge neither loads the remaining of %d files nor ends (%d workers)", n, w)
				break
			}
			time.Sleep(200 * time.Microsecond)
		}
		for _, fd := range open {
			syscall.Close(fd)
		}
		k.Count("loads_observed", done)
		k.Distinct("%d files, %d workers: at most %d at once, %d loads", n, w, most, done)
	})
}

// ---- merge-stl and merge-binvox ------------------------------------------------

func mergeCLICheck(c *Ctx) {
	mstl, mbin := cli("cmd/merge-stl", false), cli("cmd/merge-binvox", false)
	prefixes := []string{"out", "./out", "dir/out", "out-32-2-2-1", "a.b", "dir/../out"}
	genPrefix := func(r *rand.Rand) string {
		switch r.Intn(8) {
		case 0:
			return oddName(r, "out")
		case 1:
			return "dir/" + oddName(r, "out")
		case 2:
			return []string{"out[1]", "out[^2]", "o?t", "o*t", "out\\1", "out[", "out[1-3]", "*"}[r.Intn(8)]
		}
		return prefixes[r.Intn(len(prefixes))]
	}
	// files that the prefix would match if it were a pattern
	decoys := []string{"out1", "oxt", "o.t", "out", "other", "outx"}
	c.Cases("stl", c.N(2000, 8000), 8, func(k *K, i int) {
		r := k.R
		prefix := genPrefix(r)
		os.Mkdir(k.Path("dir"), 0755)
		n := r.Intn(8)
		tris := 60
		if i%150 == 75 {
			tris = 70000
		}
		if r.Intn(20) == 0 {
			tris = 0
		}
		files, all := writeSTLs(k, n, func(i int) string { return filepath.Clean(fmt.Sprintf("%s-%02d.stl", prefix, i)) }, tris)
		// files that do not match
		writeFile(k.Path("other.stl"), encodeSTL(randTris(r, 5)))
		for _, d := range decoys {
			if !strings.HasPrefix(d, strings.TrimPrefix(strings.TrimPrefix(prefix, "./"), "dir/../")) {
				writeFile(k.Path(d+"-zz.stl"), encodeSTL(randTris(r, 5)))
			}
		}
		writeFile(k.Path(prefix+"-x.binvox"), []byte("junk"))
		writeFile(k.Path(filepath.Join(filepath.Dir(prefix), "x"+filepath.Base(prefix)+".stl")), encodeSTL(randTris(r, 5)))
		out := k.Path(prefix + ".stl")
		old := r.Intn(2) == 0
		oldData := encodeSTL(randTris(r, 20))
		if old {
			writeFile(out, oldData)
		}
		force := r.Intn(2) == 0
		bad := n > 0 && r.Intn(5) == 0
		if bad {
			writeFile(files[r.Intn(n)], make([]byte, r.Intn(84)))
		}
		args := []string{"-prefix", prefix}
		if force {
			args = append(args, "-f")
		}
		if r.Intn(2) == 0 {
			args = append(args, "-num", fmt.Sprint(1+r.Intn(12)))
		}
		res := runCLI(k.TempDir(), mstl, args...)
		ctx := fmt.Sprintf("%q, %d files (bad: %v), output exists: %v\n%v", args, n, bad, old, res)
		fail := n == 0 || bad || (old && !force)
		if res.crashed() || res.hung {
			k.Failf("crash", "merge-stl crashes: %v", ctx)
			return
		}
		b, err := os.ReadFile(out)
		if fail {
			if res.code == 0 {
				k.Failf("unreported", "merge-stl reports no error: %v", ctx)
			}
			if old && string(b) != string(oldData) {
				k.Failf("overwritten", "merge-stl failed, but replaced the existing output: %v", ctx)
			}
			if !old && err == nil {
				k.Failf("created", "merge-stl failed, but created the output: %v", ctx)
			}
			k.Distinct("%q, %d files, bad %v, old %v: exit %d", args, n, bad, old, res.code)
			return
		}
		if res.code != 0 {
			k.Failf("exit", "merge-stl fails: %v", ctx)
			return
		}
		m, err := readSTL(out)
		if err != nil {
			k.Failf("output", "%v: %v", err, ctx)
			return
		}
		if d := bagOf(all).diff(bagOf(m.Triangles)); d != "" {
			k.Failf("triangles", "%v: %v", d, ctx)
			return
		}
		// again: the first result is not merged into the second
		if r.Intn(2) == 0 {
			res := runCLI(k.TempDir(), mstl, "-f", "-prefix", prefix)
			m, err := readSTL(out)
			if res.code != 0 || err != nil || bagOf(all).diff(bagOf(m.Triangles)) != "" {
				k.Failf("again", "merging again gives another result (%v) %v\n%v", err, res, ctx)
			}
		}
		k.Count("triangles", len(all))
		k.Distinct("%q, %d files, old %v: %d triangles", args, n, old, len(all))
	})

	c.Cases("binvox", c.N(2400, 10000), 8, func(k *K, i int) {
		r := k.R
		prefix := genPrefix(r)
		os.Mkdir(k.Path("dir"), 0755)
		m := genModel(r, c.N(9, 14), r.Intn(2) == 0)
		if i%30 == 11 {
			m = genLong(r, 2000, r.Intn(2) == 0)
		}
		if i%400 == 77 {
			m = genBig(r, 60)
		}
		var parts []*part
		if r.Intn(8) > 0 {
			parts = splitModel(r, m, 1+r.Intn(6), []float64{0, 0, .12}[r.Intn(3)])
		}
		var files []string
		for j, p := range parts {
			f := filepath.Clean(fmt.Sprintf("%s-%02d.binvox", prefix, j))
			if j == 0 && r.Intn(4) == 0 {
				f = prefix + ".binvox"
			}
			files = append(files, f)
			writeFile(k.Path(f), encodeBinvox(r, p.model))
		}
		for _, d := range decoys {
			if !strings.HasPrefix(d, strings.TrimPrefix(strings.TrimPrefix(prefix, "./"), "dir/../")) {
				writeFile(k.Path(d+"-zz.binvox"), encodeBinvox(r, &model{N: P{1, 1, 1}, V: vset{{}: {}}, MMPV: m.MMPV}))
			}
		}
		writeFile(k.Path("other.binvox"), encodeBinvox(r, &model{N: P{1, 1, 1}, V: vset{{}: {}}, MMPV: m.MMPV}))
		out := k.Path(prefix + ".vsh")
		old, force := r.Intn(2) == 0, r.Intn(2) == 0
		if old {
			writeFile(out, []byte(strings.Repeat("old output ", 5000)))
		}
		bad := ""
		if len(parts) > 0 && r.Intn(4) == 0 {
			q := r.Intn(len(parts))
			b, _ := os.ReadFile(k.Path(files[q]))
			switch r.Intn(3) {
			case 0:
				bad, b = "truncated header", b[:r.Intn(9)]
			case 1:
				bad, b = "truncated run", b[:len(b)-1]
			case 2:
				if len(parts) > 1 {
					bad = "resolution"
					p := *parts[q].model
					p.MMPV *= []float64{2, .5, 1.1}[r.Intn(3)]
					b = encodeBinvox(r, &p)
				}
			}
			writeFile(k.Path(files[q]), b)
		}
		args := []string{"-prefix", prefix}
		if force {
			args = append(args, "-f")
		}
		fail := len(parts) == 0 || bad != "" || (old && !force)
		var res cliRes
		fault := ""
		if !fail && haveStrace() && r.Intn(3) == 0 {
			_, trace := underStrace(k, k.TempDir(), nil, nil, mbin, "-prefix", prefix, "-f")
			os.Remove(out)
			if old {
				writeFile(out, []byte(strings.Repeat("old output ", 5000)))
			}
			call := []string{"write", "write", "openat"}[r.Intn(3)]
			fault = fmt.Sprintf("%s:error=ENOSPC:when=%d+", call, 1+r.Intn(max(1, calls(trace)[call])))
			res, trace = underStrace(k, k.TempDir(), nil, []string{fault}, mbin, args...)
			k.Count("faults", len(injected(trace)))
		} else {
			res = runCLI(k.TempDir(), mbin, args...)
		}
		ctx := fmt.Sprintf("%q, %d files (bad: %v), output exists: %v, fault %s\n%v", args, len(parts), bad, old, fault, res)
		if fault == "" && (res.crashed() || res.hung) {
			k.Failf("crash", "merge-binvox crashes: %v", ctx)
			return
		}
		b, err := os.ReadFile(out)
		if fail {
			if res.code == 0 {
				k.Failf("unreported", "merge-binvox reports no error: %v", ctx)
			}
			if old && !strings.HasPrefix(string(b), "old output") {
				k.Failf("overwritten", "merge-binvox failed, but replaced the existing output: %v", ctx)
			}
			if !old && err == nil {
				k.Failf("created", "merge-binvox failed, but created the output: %v", ctx)
			}
			k.Distinct("%q, %d files, bad %v, old %v: exit %d", args, len(parts), bad, old, res.code)
			return
		}
		if res.code != 0 {
			if fault == "" {
				k.Failf("exit", "merge-binvox fails: %v", ctx)
			}
			k.Distinct("%s: exit %d", fault, res.code)
			return
		}
		h, got, _, err := decodeVsh(b)
		if err != nil {
			k.Failf("output", "%v: %v", err, ctx)
			return
		}
		mm := h.scale / float64(max(h.nx, h.ny, h.nz))
		if !nearRel(mm, m.MMPV, 0, 1e-6) {
			k.Failf("output", "%v mm/voxel instead of %v: %v", mm, m.MMPV, ctx)
			return
		}
		var o [3]int
		for a, d := range []float64{h.tx - m.T.X, h.ty - m.T.Y, h.tz - m.T.Z} {
			q := d / m.MMPV
			o[a] = int(q+1000000.5) - 1000000
			if q-float64(o[a]) > .35 || q-float64(o[a]) < -.35 {
				k.Failf("output", "the shell is %v voxels off along axis %d: %v", q, a, ctx)
				return
			}
		}
		abs := nmap{}
		for p, n := range got {
			abs[p.add(P{o[0], o[1], o[2]})] = n
		}
		if d := shellOf(m.V).diff(abs); d != "" {
			k.Failf("voxels", "%v\n%v\n%v", d, ctx, m)
			return
		}
		k.Count("voxels", len(got))
		k.Distinct("%q, %d files, old %v: %d shell voxels", args, len(parts), old, len(got))
	})
}

func init() {
	register(&checkDef{id: "C20", race: true, rule: "distinct (files, workers) merged and compared triangle by triangle, with errors, and with observed concurrency, under the race detector", run: stlMergeCheck})
	register(&checkDef{id: "C21", rule: "distinct (prefix, inputs, existing output, flags, fault) run and judged", run: mergeCLICheck})
}
