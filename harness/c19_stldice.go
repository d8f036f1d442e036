package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	gl "github.com/fogleman/fauxgl"
)

// ---- stldice ---------------------------------------------------------------------

type stldiceCase struct {
	names  []string         // files without suffix
	solids [][]*gl.Triangle // as read from the STL files
	nx     P                // divisions
	dim    int
	mbb    string
	lo, hi gl.Vector
	args   []string
}

func (sc *stldiceCase) mmpv() float64 {
	s := sc.hi.Sub(sc.lo)
	return math.Max(s.X, math.Max(s.Y, s.Z)) / float64(sc.dim)
}

func (sc *stldiceCase) common() string {
	return fmt.Sprintf("%d-%d-%d-%d", sc.dim, sc.nx.X, sc.nx.Y, sc.nx.Z)
}

func (sc *stldiceCase) String() string {
	s := fmt.Sprintf("stldice %q", sc.args)
	for i, t := range sc.solids {
		s += fmt.Sprintf("\n%v.stl:%v", sc.names[i], trisText(t))
	}
	return s
}

func boundsOf(ts []*gl.Triangle) (lo, hi gl.Vector) {
	lo, hi = ts[0].V1.Position, ts[0].V1.Position
	for _, t := range ts {
		for _, v := range []gl.Vector{t.V1.Position, t.V2.Position, t.V3.Position} {
			lo, hi = lo.Min(v), hi.Max(v)
		}
	}
	return
}

func lcm(a, b int) int { return a / int(gcd64(int64(a), int64(b))) * b }

// genStldice writes the STL files of a case.
func genStldice(k *K, kind int, maxDim int, nCuts int) *stldiceCase {
	r := k.R
	sc := &stldiceCase{}
	sc.nx = P{1 + r.Intn(4), 1 + r.Intn(4), 1 + r.Intn(3)}
	if r.Intn(10) == 0 { // many slabs along an axis
		sc.nx = P{1, 1, 1}
		*[]*int{&sc.nx.X, &sc.nx.Y, &sc.nx.Z}[r.Intn(3)] = 10 + r.Intn(maxDim-10)
	}
	l := lcm(lcm(sc.nx.X, sc.nx.Y), sc.nx.Z)
	sc.dim = l * max(1, (8+r.Intn(maxDim-7))/l)
	for sc.dim < 8 {
		sc.dim += l
	}
	world := gl.V(0, 0, 0)
	if r.Intn(2) == 0 {
		world = randVec(r, 100)
	}
	size := math.Exp(r.Float64()*4 - 1)
	useMBB := r.Intn(3) > 0
	for i := 0; i <= nCuts; i++ {
		s := genSolid(r, kind, size)
		if i > 0 {
			s = genSolid(r, r.Intn(5), size*.7)
		}
		ts := transformTris(s.tris, func(v gl.Vector) gl.Vector { return v.Add(world) })
		for i == 0 && !useMBB && len(ts) < 256 { // the bounding box of fauxgl is wrong for few triangles
			ts = subdivide(ts)
		}
		ts = roundTris(ts)
		name := "base"
		if i > 0 {
			name = fmt.Sprintf("cut%d", i)
		}
		if r.Intn(4) == 0 {
			name = oddName(r, name)
		}
		if r.Intn(4) == 0 { // the base names of files in directories need not differ
			os.Mkdir(k.Path(fmt.Sprintf("d%d", i)), 0755)
			name = fmt.Sprintf("d%d/%s", i, []string{"part", "base", name}[r.Intn(3)])
			if r.Intn(3) == 0 {
				name = k.Path(name)
			}
		}
		sc.names = append(sc.names, name)
		data := encodeSTL(ts)
		if r.Intn(4) == 0 {
			data = encodeASCII(ts)
		}
		writeFile(sc.path(k.TempDir(), name+".stl"), data)
		sc.solids = append(sc.solids, ts)
	}
	if nCuts > 0 && r.Intn(8) == 0 { // the base or a cut once more
		i := r.Intn(len(sc.names))
		sc.names, sc.solids = append(sc.names, sc.names[i]), append(sc.solids, sc.solids[i])
	}
	sc.lo, sc.hi = boundsOf(sc.solids[0])
	sc.args = []string{"-dim", fmt.Sprint(sc.dim), "-nx", fmt.Sprint(sc.nx.X), "-ny", fmt.Sprint(sc.nx.Y), "-nz", fmt.Sprint(sc.nx.Z)}
	if useMBB {
		if r.Intn(2) == 0 { // a part of the model, or more than it
			d := sc.hi.Sub(sc.lo)
			sc.lo = sc.lo.Add(d.Mul(randVec(r, .3)))
			sc.hi = sc.hi.Add(d.Mul(randVec(r, .3)))
		}
		sc.mbb = spellMBB(r, [3]float64{sc.lo.X, sc.lo.Y, sc.lo.Z}, [3]float64{sc.hi.X, sc.hi.Y, sc.hi.Z})
		sc.args = append(sc.args, "-mbb", sc.mbb)
	}
	if r.Intn(8) == 0 {
		sc.args = append(sc.args, "-smooth", "30")
	}
	for _, n := range sc.names {
		sc.args = append(sc.args, n+".stl")
	}
	return sc
}

// feasible tells whether each axis has enough voxels for its divisions.
func (sc *stldiceCase) feasible() (min, max bool) {
	s := sc.hi.Sub(sc.lo).DivScalar(sc.mmpv())
	min, max = true, true
	for i, d := range []float64{s.X, s.Y, s.Z} {
		n := float64([]int{sc.nx.X, sc.nx.Y, sc.nx.Z}[i])
		if math.Ceil(d-1e-6) < n {
			min = false
		}
		if math.Ceil(d+1e-3) < n {
			max = false
		}
	}
	return
}

// path is the path of a file relative to dir.
func (sc *stldiceCase) path(dir, f string) string {
	if filepath.IsAbs(f) {
		return f
	}
	return filepath.Join(dir, f)
}

// snap returns the files of all directories of a case, by the names the command has for them.
func (sc *stldiceCase) snap(dir string) map[string]string {
	out := dirSnap(dir)
	for _, n := range sc.names {
		if d := filepath.Dir(n); d != "." {
			for f, b := range dirSnap(sc.path(dir, d)) {
				out[d+"/"+f] = b
			}
		}
	}
	return out
}

var tileRE = regexp.MustCompile(`^(.*)-(\d\d+)-(\d\d+)-(\d\d+)\.binvox$`)

// readTiles reads and checks the tiles of one STL file. tile is the size of a tile.
func (sc *stldiceCase) readTiles(files map[string]string, name string) (voxels vset, tile P, n int, err error) {
	voxels = vset{}
	mm := sc.mmpv()
	for f, data := range files {
		m := tileRE.FindStringSubmatch(f)
		if m == nil || m[1] != name+"-"+sc.common() {
			continue
		}
		var idx [3]int
		for i := range idx {
			idx[i], _ = strconv.Atoi(m[2+i])
		}
		h, s, _, err := decodeBinvox([]byte(data))
		if err != nil {
			return nil, tile, n, fmt.Errorf("%v: %v", f, err)
		}
		d := P{h.nx, h.ny, h.nz}
		if n == 0 {
			tile = d
		}
		n++
		if d != tile {
			return nil, tile, n, fmt.Errorf("%v has %v voxels, another tile has %v", f, d, tile)
		}
		if idx[0] >= sc.nx.X || idx[1] >= sc.nx.Y || idx[2] >= sc.nx.Z {
			return nil, tile, n, fmt.Errorf("%v: there are only %v tiles", f, sc.nx)
		}
		if got := h.scale / float64(max(h.nx, h.ny, h.nz)); math.Abs(got-mm) > 1e-9*mm {
			return nil, tile, n, fmt.Errorf("%v has %v mm/voxel instead of %v", f, got, mm)
		}
		for i, t := range []float64{h.tx, h.ty, h.tz} {
			lo := []float64{sc.lo.X, sc.lo.Y, sc.lo.Z}[i]
			dd := []int{h.nx, h.ny, h.nz}[i]
			want := lo + float64(idx[i]*dd)*mm
			if math.Abs(t-want) > 1e-6*mm+1e-12*math.Abs(lo) {
				return nil, tile, n, fmt.Errorf("%v starts at %v on axis %d instead of %v", f, t, i, want)
			}
			ext := []float64{sc.hi.X - sc.lo.X, sc.hi.Y - sc.lo.Y, sc.hi.Z - sc.lo.Z}[i]
			nd := []int{sc.nx.X, sc.nx.Y, sc.nx.Z}[i]
			if float64(nd*dd)*mm < ext-1e-4*mm {
				return nil, tile, n, fmt.Errorf("%d tiles of %d voxels do not cover axis %d of %v voxels", nd, dd, i, ext/mm)
			}
		}
		for p := range s {
			voxels[p.add(P{idx[0] * h.nx, idx[1] * h.ny, idx[2] * h.nz})] = struct{}{}
		}
	}
	return voxels, tile, n, nil
}

func (sc *stldiceCase) tilesOf(dir string) map[string]string {
	files := sc.snap(dir)
	out := map[string]string{}
	for f, b := range files {
		// An unfinished tile may have another name.
		for _, name := range sc.names {
			if m := tileRE.FindStringSubmatch(f); m != nil && m[1] == name+"-"+sc.common() {
				out[f] = b
			}
		}
	}
	return out
}

// sameTile compares decoded tiles.
func sameTile(a, b string) bool {
	if a == b {
		return true
	}
	h1, s1, _, e1 := decodeBinvox([]byte(a))
	h2, s2, _, e2 := decodeBinvox([]byte(b))
	return e1 == nil && e2 == nil && h1 == h2 && s1.diff(s2) == ""
}

func sortedLines(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func stldiceCheck(c *Ctx) {
	bin := cli("cmd/stldice", false)
	cli("cmd/voxcut", false)
	cli("cmd/merge-stl", false)
	env := pathEnv()

	c.Cases("dice", c.N(400, 2000), 8, func(k *K, i int) {
		r := k.R
		sc := genStldice(k, i%solidKinds, c.N(28, 40), r.Intn(3))
		dir := k.TempDir()
		res := runCLI(dir, bin, sc.args...)
		ctx := func() string { return fmt.Sprintf("%v\n%v", sc, res) }
		must, may := sc.feasible()
		if !may {
			if res.code == 0 {
				k.Failf("divisions", "more divisions than voxels were accepted\n%v", ctx())
			}
			k.Distinct("%v: too many divisions: exit %d", sc.args, res.code)
			return
		}
		if !must {
			return
		}
		if res.code != 0 {
			k.Failf("exit", "stldice fails\n%v", ctx())
			return
		}
		tiles := sc.tilesOf(dir)
		// the tiles, joined, are the voxelized files
		mm := sc.mmpv()
		var all []vset
		var tile P
		seen := 0
		for j, name := range sc.names {
			v, d, n, err := sc.readTiles(tiles, name)
			if err != nil {
				k.Failf("tile", "%v\n%v", err, ctx())
				return
			}
			if !slices.Contains(sc.names[:j], name) { // unless the file is in the list again
				seen += n
			}
			if n > 0 {
				if tile != (P{}) && tile != d {
					k.Failf("tile", "tiles of %v and %v voxels\n%v", tile, d, ctx())
					return
				}
				tile = d
			}
			all = append(all, v)
			k.Count("tiles", n)
		}
		if seen != len(tiles) {
			k.Failf("tile", "%d files end in .binvox, but %d are tiles\n%v", len(tiles), seen, ctx())
			return
		}
		if tile == (P{}) { // nothing in the region
			s := sc.hi.Sub(sc.lo).DivScalar(mm)
			tile = P{int(math.Ceil(s.X-1e-6)+float64(sc.nx.X)-1) / sc.nx.X, int(math.Ceil(s.Y-1e-6)+float64(sc.nx.Y)-1) / sc.nx.Y, int(math.Ceil(s.Z-1e-6)+float64(sc.nx.Z)-1) / sc.nx.Z}
		}
		n := P{tile.X * sc.nx.X, tile.Y * sc.nx.Y, tile.Z * sc.nx.Z}
		for j := range sc.names {
			lm := toLattice(gl.NewTriangleMesh(sc.solids[j]), sc.lo.X, sc.lo.Y, sc.lo.Z, mm)
			if len(lm.tris) > 400 && n.X*n.Y*n.Z > 4000 {
				continue // too expensive to judge; there are enough others
			}
			before := k.nfail
			in, corners := judgeVoxels(k, all[j], n, lm, ctx)
			if k.nfail > before {
				return
			}
			k.Count("voxels_inside", in)
			k.Count("outline_corners", corners)
		}
		// the script completes the operation
		if !strings.HasPrefix(res.out, "#!/bin/bash") {
			k.Failf("script", "no script\n%v", ctx())
			return
		}
		writeFile(k.Path("script.sh"), []byte(res.out))
		sres := runCLIEnv(dir, env, "/bin/bash", "script.sh")
		want := vset{}
		for p := range all[0] {
			want[p] = struct{}{}
		}
		for _, v := range all[1:] {
			for p := range v {
				delete(want, p)
			}
		}
		after := sc.snap(dir)
		var parts []*gl.Triangle
		nparts := 0
		out := "out"
		if len(sc.names) == 1 {
			out = sc.names[0]
		}
		merged := out + "-" + sc.common() + ".stl"
		for f := range after {
			if f != merged && strings.HasPrefix(f, out+"-"+sc.common()+"-") && strings.HasSuffix(f, ".stl") {
				ts, err := decodeSTL([]byte(after[f]))
				if err != nil {
					k.Failf("script", "%v: %v\n%v\n%v", f, err, ctx(), sres)
					return
				}
				parts = append(parts, ts...)
				nparts++
			}
		}
		tilesUsed := map[P]bool{}
		for p := range want {
			tilesUsed[P{p.X / tile.X, p.Y / tile.Y, p.Z / tile.Z}] = true
		}
		if nparts < len(tilesUsed) {
			k.Failf("script", "the script made %d parts of %d\n%v\n%v", nparts, len(tilesUsed), ctx(), sres)
			return
		}
		final := parts
		if b, ok := after[merged]; ok {
			ts, err := decodeSTL([]byte(b))
			if err != nil {
				k.Failf("script", "%v: %v\n%v\n%v", merged, err, ctx(), sres)
				return
			}
			if d := bagOf(parts).diff(bagOf(ts)); d != "" {
				k.Failf("script", "the merged file is not what its parts are: %v\n%v\n%v", d, ctx(), sres)
				return
			}
			final = ts
			k.Count("merged", 1)
		} else if len(tilesUsed) > 1 {
			k.Failf("script", "the script made %d parts, but did not merge them\n%v\n%v", nparts, ctx(), sres)
			return
		}
		lm := toLattice(gl.NewTriangleMesh(final), sc.lo.X, sc.lo.Y, sc.lo.Z, mm)
		var pts []P
		for x := -1; x <= n.X; x++ {
			for y := -1; y <= n.Y; y++ {
				for z := -1; z <= n.Z; z++ {
					pts = append(pts, P{x, y, z})
				}
			}
		}
		r.Shuffle(len(pts), func(i, j int) { pts[i], pts[j] = pts[j], pts[i] })
		pts = pts[:min(len(pts), 1+2000000/(len(final)+1))]
		for _, p := range pts {
			w := lm.winding(gl.V(float64(p.X)+.5, float64(p.Y)+.5, float64(p.Z)+.5))
			exp := 0.0
			if want.has(p) {
				exp = 1
			}
			if math.Abs(w-exp) > .05 {
				k.Failf("script", "the result of the script winds %.3f times around voxel %v, which is in the base and no cut: %v\n%v\n%v", w, p, exp == 1, ctx(), sres)
				return
			}
		}
		k.Count("points_classified", len(pts))
		k.Distinct("%v: %d tiles, %d voxels, hash %x; script: %d parts, %d triangles", sc.args, len(tiles), len(want), want.hash(), nparts, len(final))

		// resume: existing tiles are used, missing ones are made again
		if len(tiles) == 0 {
			return
		}
		var names []string
		for f := range tiles {
			names = append(names, f)
		}
		sort.Strings(names)
		gone := map[string]bool{}
		old := time.Unix(1e9, 0)
		for _, f := range names {
			if r.Intn(2) == 0 {
				gone[f] = true
				os.Remove(sc.path(dir, f))
			} else {
				os.Chtimes(sc.path(dir, f), old, old)
			}
		}
		res2 := runCLI(dir, bin, sc.args...)
		if res2.code != 0 {
			k.Failf("resume", "stldice fails when some tiles exist: %v\n%v", res2, ctx())
			return
		}
		again := sc.tilesOf(dir)
		for _, f := range names {
			if !sameTile(tiles[f], again[f]) {
				k.Failf("resume", "%v (removed: %v) differs after resuming\n%v", f, gone[f], ctx())
				return
			}
			if st, err := os.Stat(sc.path(dir, f)); err == nil && !gone[f] && !st.ModTime().Equal(old) {
				k.Failf("resume", "the existing tile %v was written again\n%v", f, ctx())
				return
			}
		}
		if len(again) != len(tiles) {
			k.Failf("resume", "%d tiles instead of %d after resuming\n%v", len(again), len(tiles), ctx())
			return
		}
		if sortedLines(res2.out) != sortedLines(res.out) {
			k.Failf("resume", "the script of the resumed run is incomplete:\n%v\n%v", res2.out, ctx())
			return
		}
		k.Count("resumed_tiles", len(names)-len(gone))
	})

	// interruptions: whatever exists under the name of a tile is that tile
	crash := func(k *K, i int, mode int) {
		r := k.R
		var sc *stldiceCase
		for {
			sc = genStldice(k, r.Intn(5), c.N(48, 80), 1)
			if must, _ := sc.feasible(); must {
				break
			}
		}
		dir := k.TempDir()
		start := time.Now()
		ref, trace := cliRes{}, []string(nil)
		if mode == 0 {
			ref = runCLI(dir, bin, sc.args...)
		} else {
			ref, trace = underStrace(k, dir, nil, nil, bin, sc.args...)
		}
		took := time.Since(start)
		if ref.code != 0 {
			k.Failf("exit", "stldice fails: %v\n%v", ref, sc)
			return
		}
		want := sc.tilesOf(dir)
		what := ""
		for round := 0; round < 4; round++ {
			for f := range sc.snap(dir) {
				if !strings.HasSuffix(f, ".stl") {
					os.Remove(sc.path(dir, f))
				}
			}
			var res cliRes
			switch mode {
			case 0: // killed at some time
				d := time.Duration(r.Float64() * float64(took))
				what = fmt.Sprintf("killed after %v", d)
				cmd := exec.Command(bin, sc.args...)
				cmd.Dir = dir
				if err := cmd.Start(); err != nil {
					panic("harness: " + err.Error())
				}
				time.Sleep(d)
				cmd.Process.Kill()
				if cmd.Wait() != nil {
					res.code = -1
					k.Count("killed", 1)
				}
			case 1: // killed at a system call
				call := []string{"write", "write", "write", "renameat", "openat", "close"}[r.Intn(6)]
				n := calls(trace)[call]
				if n == 0 {
					call, n = "write", calls(trace)["write"]
				}
				inj := fmt.Sprintf("%s:signal=KILL:when=%d", call, 1+r.Intn(n))
				what = inj
				res, _ = underStrace(k, dir, nil, []string{inj}, bin, sc.args...)
				k.Count("killed_at_"+call, 1)
			case 2: // a system call fails, once or from then on
				call := []string{"write", "write", "write", "renameat", "openat"}[r.Intn(5)]
				n := calls(trace)[call]
				if n == 0 {
					call, n = "write", calls(trace)["write"]
				}
				e := []string{"ENOSPC", "EIO", "EDQUOT"}[r.Intn(3)]
				inj := fmt.Sprintf("%s:error=%s:when=%d%s", call, e, 1+r.Intn(n), []string{"", "+"}[r.Intn(2)])
				what = inj
				var tr []string
				res, tr = underStrace(k, dir, nil, []string{inj}, bin, sc.args...)
				if len(injected(tr)) > 0 {
					k.Count("failed_"+call, 1)
				}
			case 3: // the process ends at some byte of a file
				mx := 0
				for _, b := range want {
					mx = max(mx, len(b))
				}
				lim := r.Intn(mx + 10)
				what = fmt.Sprintf("file size limit %d", lim)
				res = runCLI(dir, filepath.Join(verifDir, ".build", "harness"), append([]string{"helper", "fsize", fmt.Sprint(lim), bin}, sc.args...)...)
				k.Count("size_limits", 1)
				if lim < mx && res.code == 0 {
					k.Failf("unreported", "stldice succeeds, but a tile of %d bytes was limited to %d\n%v", mx, lim, sc)
					return
				}
			}
			got := sc.tilesOf(dir)
			for f, b := range got {
				if !sameTile(want[f], b) {
					k.Failf("partial", "%s: afterwards, %v is not complete (%d of %d bytes); exit %d\n%v", what, f, len(b), len(want[f]), res.code, sc)
					return
				}
			}
			if res.code == 0 && len(got) != len(want) {
				k.Failf("unreported", "%s: exit 0, but only %d of %d tiles exist\n%v\n%v", what, len(got), len(want), res, sc)
				return
			}
			fin := runCLI(dir, bin, sc.args...)
			if fin.code != 0 {
				k.Failf("resume", "%s: resuming fails: %v\n%v", what, fin, sc)
				return
			}
			end := sc.tilesOf(dir)
			for f, b := range want {
				if !sameTile(b, end[f]) {
					k.Failf("resume", "%s: after resuming, %v differs\n%v", what, f, sc)
					return
				}
			}
			if len(end) != len(want) || sortedLines(fin.out) != sortedLines(ref.out) {
				k.Failf("resume", "%s: after resuming, %d tiles instead of %d, or another script\n%v\n%v", what, len(end), len(want), fin.out, sc)
				return
			}
			if mode == 0 {
				what = "killed"
			}
			k.Distinct("%s: %d of %d tiles exist, exit %d; resumed", what, len(got), len(want), res.code)
		}
	}
	c.Cases("killed", c.N(24, 200), 4, func(k *K, i int) { crash(k, i, 0) })
	if haveStrace() {
		c.Cases("syscall-kill", c.N(32, 300), 8, func(k *K, i int) { crash(k, i, 1) })
		c.Cases("syscall-error", c.N(40, 300), 8, func(k *K, i int) { crash(k, i, 2) })
	}
	c.Cases("limit", c.N(32, 300), 8, func(k *K, i int) { crash(k, i, 3) })

	c.Cases("bad", 40, 8, func(k *K, i int) {
		r := k.R
		ts := boxTris(gl.V(0, 0, 0), gl.V(4, 4, 4))
		data := encodeSTL(ts)
		args := []string{"-mbb", "(0,0,0)-(4,4,4)", "-dim", "8", "-nx", "2", "-ny", "2", "-nz", "1"}
		files := []string{"base.stl"}
		what := ""
		mbbs := []string{"1,2,3", "(1,2)-(3,4)", "(a,0,0)-(1,1,1)", "(0,b,0)-(1,1,1)", "(0,0,c)-(1,1,1)", "(0,0,0)-(d,1,1)", "(0,0,0)-(1,e,1)", "(0,0,0)-(1,1,f)", "(0,0,0)-(1,1,1)-(2,2,2)"}
		switch i % 8 {
		case 0:
			what, args[3] = "dim not a multiple of nx, ny or nz", fmt.Sprint(7+2*r.Intn(3))
		case 1:
			what, data = "missing file", nil
		case 2:
			what, args[1] = "bad mbb", mbbs[r.Intn(len(mbbs))]
		case 3:
			what, files = "no files", nil
		case 4:
			what, args[1] = "more divisions than voxels", []string{"(0,0,0)-(4,.4,4)", "(0,0,0)-(.4,4,4)"}[r.Intn(2)]
		case 5:
			what, files = "missing second file", append(files, "cut.stl")
		case 6:
			what, args[1] = "empty or inverted mbb", []string{"(0,0,0)-(0,0,0)", "(0,4,0)-(4,0,4)"}[r.Intn(2)]
		case 7:
			what, args[3] = "dim 0 or negative", fmt.Sprint(-8*r.Intn(2))
		}
		if data != nil {
			writeFile(k.Path("base.stl"), data)
		}
		res := runCLI(k.TempDir(), bin, append(args, files...)...)
		if res.code == 0 || res.hung {
			k.Failf("unreported", "stldice with %s: %q %v", what, args, res)
		} else if res.crashed() {
			k.Failf("crash", "stldice with %s: %q %v", what, args, res)
		}
		k.Distinct("%s: %v: exit %d", what, args, res.code)
	})
}

var _ = rand.Int

func init() {
	register(&checkDef{id: "C19", rule: "distinct dicings whose tiles were judged against the solids, whose script was run and whose resumption was compared, and distinct interruptions", run: stldiceCheck})
}
