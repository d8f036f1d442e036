package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	gl "github.com/fogleman/fauxgl"
)

// exactModel is a model whose vertices are exact in an STL file.
func exactModel(r *rand.Rand, maxDim int) *model {
	if r.Intn(500) == 0 {
		return genBig(r, 40)
	}
	switch r.Intn(60) {
	case 0:
		return exactLong(r, 3000)
	case 1:
		return genModel(r, 3*maxDim, true)
	}
	return genModel(r, maxDim, true)
}

// exactLong is a long model whose vertices are exact in an STL file.
func exactLong(r *rand.Rand, maxLen int) *model {
	m := genLong(r, maxLen, true)
	m.MMPV = math.Ldexp(1, r.Intn(7)-4)
	m.T = gl.V(float64(r.Intn(401)-200), float64(r.Intn(401)-200), float64(r.Intn(401)-200)).MulScalar(.25)
	return m
}

func meshCLICheck(c *Ctx) {
	for _, cmd := range []string{"manifold-mesh", "marching-cubes"} {
		bin := cli("cmd/"+cmd, false)
		c.Cases(cmd, c.N(2000, 10000), 8, func(k *K, i int) {
			m := exactModel(k.R, c.N(10, 16))
			empty := k.R.Intn(40) == 0
			if empty {
				m.V = vset{}
			}
			in, out := k.Path("in put.binvox"), k.Path("out.stl")
			data := encodeBinvox(k.R, m)
			if empty && k.R.Intn(2) == 0 { // as the package writes it
				data = []byte(fmt.Sprintf("#binvox 1\ndim 0 0 0\ntranslate %g %g %g\nscale %g\ndata\n", m.T.X, m.T.Y, m.T.Z, m.MMPV))
			}
			writeFile(in, data)
			if i%3 == 0 { // an old output is replaced
				writeFile(out, make([]byte, 200000))
			}
			res := runCLI(k.TempDir(), bin, filepath.Base(in), "out.stl")
			if res.code != 0 {
				k.Failf("exit", "%v of a valid model: %v\n%v", cmd, res, m)
				return
			}
			mesh, err := readSTL(out)
			if err != nil {
				k.Failf("file", "%v\n%v", err, m)
				return
			}
			if empty {
				if len(mesh.Triangles) > 0 {
					k.Failf("empty", "%s: %d triangles for a model without voxels\n%v", cmd, len(mesh.Triangles), m)
				}
				k.Count("empty_models", 1)
				return
			}
			key, what, pts := checkSolid(k.R, mesh, m, 1+200000/(len(mesh.Triangles)+1))
			if key != "" {
				k.Failf(key, "%s: %s\n%v", cmd, what, m)
				return
			}
			if b, _ := os.ReadFile(in); string(b) != string(data) {
				k.Failf("input", "%s changed its input", cmd)
			}
			k.Count("triangles", len(mesh.Triangles))
			k.Count("points_classified", pts)
			k.Distinct("%s: dim %v, %d voxels, hash %x, %d triangles", cmd, m.N, len(m.V), m.V.hash(), len(mesh.Triangles))
		})
		c.Cases(cmd+"/bad", c.N(120, 600), 8, func(k *K, i int) {
			r := k.R
			m := exactModel(r, 8)
			data := encodeBinvox(r, m)
			args := []string{"in.binvox", "out.stl"}
			what := ""
			switch i % 6 {
			case 0:
				what = "missing input"
				data = nil
			case 1:
				what = "missing output directory"
				args[1] = "nodir/out.stl"
			case 2:
				what = "bad magic"
				data[1] = 'x'
			case 3:
				what = "truncated run"
				data = data[:len(data)-1]
			case 4:
				what = "too many voxels"
				data = append(data, 1, 1)
			case 5:
				what = "wrong number of arguments"
				args = args[:1]
				if r.Intn(2) == 0 {
					args = append(args, "out.stl", "third")
				}
			}
			if data != nil {
				writeFile(k.Path("in.binvox"), data)
			}
			res := runCLI(k.TempDir(), bin, args...)
			if res.code == 0 || res.hung {
				k.Failf("unreported", "%s with %s: %v", cmd, what, res)
			} else if res.crashed() {
				k.Failf("crash", "%s with %s: %v", cmd, what, res)
			}
			k.Distinct("%s: %s: exit %d", cmd, what, res.code)
		})
	}
}

// ---- voxcut --------------------------------------------------------------------

// cutCase is a base model, its cuts and a window.
type cutCase struct {
	base  *model
	cuts  []*model
	start P
	count P
	args  []string // the window
	files []string
	want  vset // in the base's indices
}

func (cc *cutCase) String() string {
	s := fmt.Sprintf("args %v %v\nbase %v", cc.args, cc.files, cc.base)
	for _, m := range cc.cuts {
		s += fmt.Sprintf("\ncut %v", m)
	}
	return s
}

const blocks = -1 // makes the base of genCutCase a large block

func genCutCase(k *K, maxDim int, dyadic bool) *cutCase {
	r := k.R
	cc := &cutCase{}
	long := r.Intn(25) == 0
	switch {
	case maxDim == blocks:
		maxDim, long = 24, true
		cc.base = genBlock(r)
	case long:
		cc.base = exactLong(r, 2000)
	default:
		cc.base = genModel(r, maxDim, dyadic)
	}
	if r.Intn(700) == 0 {
		cc.base, long = genBig(r, 54), true
	}
	b := cc.base
	if r.Intn(3) == 0 && !long { // dense, so that cuts matter
		b.V = genVoxels(r, []string{"full", "dense"}[r.Intn(2)], b.N.X, b.N.Y, b.N.Z)
		if len(b.V) == 0 {
			b.V[P{}] = struct{}{}
		}
	}
	if r.Intn(60) == 0 {
		b.V = vset{}
	}
	name := "base.binvox"
	if r.Intn(6) == 0 {
		name = oddName(r, "base") + ".binvox"
	}
	writeFile(k.Path(name), encodeBinvox(r, b))
	cc.files = []string{name}
	// the window
	win := func(n int) (int, int) {
		switch r.Intn(4) {
		case 0:
			return 0, 0
		case 1:
			return r.Intn(n), 0
		case 2:
			return 0, 1 + r.Intn(n+3)
		}
		s := r.Intn(n)
		return s, 1 + r.Intn(n-s)
	}
	if r.Intn(3) > 0 {
		cc.start.X, cc.count.X = win(b.N.X)
		cc.start.Y, cc.count.Y = win(b.N.Y)
		cc.start.Z, cc.count.Z = win(b.N.Z)
	}
	for i, v := range []int{cc.start.X, cc.start.Y, cc.start.Z, cc.count.X, cc.count.Y, cc.count.Z} {
		if v != 0 || r.Intn(4) == 0 {
			cc.args = append(cc.args, []string{"-sx", "-sy", "-sz", "-cx", "-cy", "-cz"}[i], fmt.Sprint(v))
		}
	}
	in := func(p, s, n int) bool { return p >= s && (n == 0 || p < s+n) }
	cc.want = vset{}
	for p := range b.V {
		if in(p.X, cc.start.X, cc.count.X) && in(p.Y, cc.start.Y, cc.count.Y) && in(p.Z, cc.start.Z, cc.count.Z) {
			cc.want[p] = struct{}{}
		}
	}
	// the cuts
	for i := r.Intn(4); i > 0; i-- {
		name := fmt.Sprintf("cut%d.binvox", i)
		if r.Intn(8) == 0 { // missing files are skipped
			cc.files = append(cc.files, "no-"+name)
			continue
		}
		nx, ny, nz := genDims(r, maxDim)
		m := &model{N: P{nx, ny, nz}, MMPV: b.MMPV}
		m.V = genVoxels(r, voxelKinds[r.Intn(len(voxelKinds))], nx, ny, nz) // may be empty
		var off P
		switch r.Intn(3) {
		case 0: // aligned
		case 1:
			off = P{r.Intn(b.N.X+nx) - nx, r.Intn(b.N.Y+ny) - ny, r.Intn(b.N.Z+nz) - nz}
		case 2: // mostly overlapping
			off = P{r.Intn(5) - 2, r.Intn(5) - 2, r.Intn(5) - 2}
		}
		noise := gl.V(0, 0, 0)
		if r.Intn(2) == 0 {
			noise = randVec(r, .3)
		}
		m.T = b.T.Add(gl.V(float64(off.X), float64(off.Y), float64(off.Z)).Add(noise).MulScalar(b.MMPV))
		switch r.Intn(8) {
		case 0:
			name = oddName(r, fmt.Sprintf("cut%d", i)) + ".binvox"
		case 1: // the base names of files in directories need not differ
			os.Mkdir(k.Path(fmt.Sprintf("d%d", i)), 0755)
			name = fmt.Sprintf("d%d/part.binvox", i)
		}
		writeFile(k.Path(name), encodeBinvox(r, m))
		cc.files = append(cc.files, name)
		if r.Intn(12) == 0 { // once more
			cc.files = append(cc.files, name)
		}
		cc.cuts = append(cc.cuts, m)
		for p := range m.V {
			delete(cc.want, p.add(off))
		}
	}
	if r.Intn(40) == 0 { // nothing is left
		cc.files = append(cc.files, cc.files[0])
		cc.want = vset{}
	}
	return cc
}

// worldVoxels decodes a binvox file into the indices of the model ref.
func worldVoxels(data []byte, ref *model) (vset, header, error) {
	h, s, _, err := decodeBinvox(data)
	if err != nil {
		return nil, h, err
	}
	if h.nx <= 0 || h.ny <= 0 || h.nz <= 0 {
		if len(s) == 0 {
			return vset{}, h, nil
		}
		return nil, h, fmt.Errorf("dimensions %d %d %d", h.nx, h.ny, h.nz)
	}
	mm := h.scale / float64(max(h.nx, h.ny, h.nz))
	if math.Abs(mm-ref.MMPV) > 1e-9*ref.MMPV {
		return nil, h, fmt.Errorf("%v mm/voxel instead of %v", mm, ref.MMPV)
	}
	var off [3]int
	for i, d := range []float64{h.tx - ref.T.X, h.ty - ref.T.Y, h.tz - ref.T.Z} {
		o := d / ref.MMPV
		off[i] = int(math.Round(o))
		mag := []float64{ref.T.X, ref.T.Y, ref.T.Z}[i] / ref.MMPV
		if math.Abs(o-math.Round(o)) > 1e-7+math.Abs(mag)*1e-12 {
			return nil, h, fmt.Errorf("the voxels are moved by %v voxels along axis %d", o, i)
		}
	}
	out := vset{}
	for p := range s {
		out[p.add(P{off[0], off[1], off[2]})] = struct{}{}
	}
	return out, h, nil
}

// checkWindow checks that a file describes just the window of ref.
func checkWindow(h header, ref *model, start, count P) error {
	if h.nx <= 0 {
		return nil
	}
	t := [3]float64{h.tx - ref.T.X, h.ty - ref.T.Y, h.tz - ref.T.Z}
	s, n, c := [3]int{start.X, start.Y, start.Z}, [3]int{h.nx, h.ny, h.nz}, [3]int{count.X, count.Y, count.Z}
	all := [3]int{ref.N.X, ref.N.Y, ref.N.Z}
	for i := range t {
		if o := int(math.Round(t[i] / ref.MMPV)); o != s[i] {
			return fmt.Errorf("the output begins at %d on axis %d instead of %d", o, i, s[i])
		}
		switch {
		case c[i] > 0 && s[i]+c[i] <= all[i] && n[i] != c[i]:
			return fmt.Errorf("the output has %d voxels on axis %d instead of %d", n[i], i, c[i])
		case c[i] > 0 && n[i] > c[i], c[i] == 0 && n[i] > all[i], n[i] < min(all[i]-s[i], max(c[i], 1)):
			return fmt.Errorf("the output has %d voxels on axis %d for count %d", n[i], i, c[i])
		}
	}
	return nil
}

func voxcutCheck(c *Ctx) {
	bin := cli("cmd/voxcut", false)
	cut := func(k *K, cc *cutCase) {
		before := dirSnap(k.TempDir())
		staleOut := ""
		if r := k.R; r.Intn(3) == 0 && len(cc.want) > 0 { // an old, maybe longer, output is replaced
			staleOut = "stale"
			writeFile(k.Path("out.binvox"), append(encodeBinvox(r, cc.base), make([]byte, r.Intn(2)*50000)...))
		}
		args := append(append(append([]string{}, cc.args...), "-obinvox", "out.binvox"), cc.files...)
		res := runCLI(k.TempDir(), bin, args...)
		if res.code != 0 {
			k.Failf("exit", "voxcut: %v\n%v", res, cc)
			return
		}
		after := dirSnap(k.TempDir())
		for f, b := range before {
			if after[f] != b {
				k.Failf("input", "voxcut changed %v\n%v", f, cc)
			}
		}
		out, ok := after["out.binvox"]
		if !ok {
			if len(cc.want) > 0 {
				k.Failf("missing", "voxcut wrote nothing; %d voxels remain: %v\n%v\n%v", len(cc.want), cc.want, cc, res)
			}
			k.Count("empty_results", 1)
			return
		}
		got, h, err := worldVoxels([]byte(out), cc.base)
		if err == nil {
			err = checkWindow(h, cc.base, cc.start, cc.count)
		}
		if err != nil {
			k.Failf("output", "%v\n%v", err, cc)
			return
		}
		if d := cc.want.diff(got); d != "" {
			k.Failf("voxels", "%s\n%v", d, cc)
			return
		}
		k.Count("voxels", len(got))
		k.Count("cuts", len(cc.cuts))
		k.Distinct("%v %s %d files: %d of %d voxels remain, hash %x", cc.args, staleOut, len(cc.files), len(got), len(cc.base.V), got.hash())
	}
	c.Cases("cut", c.N(10000, 40000), 8, func(k *K, i int) { cut(k, genCutCase(k, c.N(10, 16), k.R.Intn(2) == 0)) })
	c.Cases("blocks", c.N(4, 40), 4, func(k *K, i int) { cut(k, genCutCase(k, blocks, true)) })
	c.Cases("bad", c.N(320, 1000), 8, func(k *K, i int) {
		r := k.R
		m := exactModel(r, 8)
		data := encodeBinvox(r, m)
		args := []string{"-obinvox", "out.binvox", "base.binvox"}
		what := ""
		switch i % 8 {
		case 0:
			what, data = "missing base", nil
		case 1:
			what, data[1] = "bad magic", 'x'
		case 2:
			what, data = "truncated run", data[:len(data)-1]
		case 3:
			what, args = "no files", args[:2]
		case 4:
			what, args = "no outputs", args[2:]
		case 5:
			what, args = "start beyond the model", append([]string{"-s" + string("xyz"[r.Intn(3)]), fmt.Sprint(max(m.N.X, m.N.Y, m.N.Z) + 1 + r.Intn(3))}, args...)
		case 6:
			what, args = "negative window", append([]string{"-" + string("sc"[r.Intn(2)]) + string("xyz"[r.Intn(3)]), "-1"}, args...)
		case 7:
			what, args[1] = "missing directory", "nodir/out.binvox"
		}
		if data != nil {
			writeFile(k.Path("base.binvox"), data)
		}
		res := runCLI(k.TempDir(), bin, args...)
		if res.code == 0 || res.hung {
			k.Failf("unreported", "voxcut with %s: %v", what, res)
		} else if res.crashed() {
			k.Failf("crash", "voxcut with %s: %v", what, res)
		}
		k.Distinct("%s: exit %d", what, res.code)
	})
}

// decodeVOX decodes a MagicaVoxel file with one model.
func decodeVOX(b []byte) (size P, s vset, err error) {
	u32 := func(i int) int {
		return int(int32(uint32(b[i]) | uint32(b[i+1])<<8 | uint32(b[i+2])<<16 | uint32(b[i+3])<<24))
	}
	if len(b) < 20 || string(b[:4]) != "VOX " || u32(4) != 150 {
		return size, nil, fmt.Errorf("bad header of %d bytes", len(b))
	}
	if string(b[8:12]) != "MAIN" || u32(12) != 0 || u32(16) != len(b)-20 {
		return size, nil, fmt.Errorf("bad MAIN chunk %q %d %d for %d bytes", b[8:12], u32(12), u32(16), len(b)-20)
	}
	s = vset{}
	haveSize, haveV := false, false
	for i := 20; i < len(b); {
		if len(b)-i < 12 {
			return size, nil, fmt.Errorf("truncated chunk")
		}
		id, n, ch := string(b[i:i+4]), u32(i+4), u32(i+8)
		i += 12
		if n < 0 || ch != 0 || n > len(b)-i {
			return size, nil, fmt.Errorf("chunk %q of %d+%d bytes, %d left", id, n, ch, len(b)-i)
		}
		switch id {
		case "SIZE":
			if n != 12 || haveSize {
				return size, nil, fmt.Errorf("bad SIZE chunk")
			}
			haveSize = true
			size = P{u32(i), u32(i + 4), u32(i + 8)}
		case "XYZI":
			if !haveSize || haveV || n < 4 || n != 4+4*u32(i) {
				return size, nil, fmt.Errorf("bad XYZI chunk of %d bytes", n)
			}
			haveV = true
			for j := i + 4; j < i+n; j += 4 {
				p := P{int(b[j]), int(b[j+1]), int(b[j+2])}
				if s.has(p) {
					return size, nil, fmt.Errorf("voxel %v twice", p)
				}
				if b[j+3] == 0 {
					return size, nil, fmt.Errorf("voxel %v has color 0 (empty)", p)
				}
				if p.X >= size.X || p.Y >= size.Y || p.Z >= size.Z {
					return size, nil, fmt.Errorf("voxel %v outside of the size %v", p, size)
				}
				s[p] = struct{}{}
			}
		}
		i += n
	}
	if !haveSize || !haveV {
		return size, nil, fmt.Errorf("chunks missing")
	}
	if size.X > 256 || size.Y > 256 || size.Z > 256 {
		return size, nil, fmt.Errorf("size %v", size)
	}
	return size, s, nil
}

func formatsCheck(c *Ctx) {
	bin := cli("cmd/voxcut", false)
	run := func(k *K, cc *cutCase) {
		r := k.R
		var args []string
		args = append(args, cc.args...)
		which := 1 + r.Intn(7)
		man := r.Intn(2) == 0
		args = append(args, "-ovox", "out.vox")
		if which&1 != 0 {
			args = append(args, "-obinvox", "out.binvox")
		}
		if which&6 != 0 {
			args = append(args, "-ostl", "out.stl")
			if man {
				args = append(args, "-manifold")
			}
			if r.Intn(3) == 0 {
				args = append(args, "-smooth", fmt.Sprint(1+r.Intn(80)))
			}
		}
		args = append(args, cc.files...)
		ctx := func() string { return fmt.Sprintf("%v\n%v", args, cc) }
		if r.Intn(3) == 0 { // old, maybe longer, outputs are replaced
			for _, f := range []string{"out.vox", "out.binvox", "out.stl"} {
				if r.Intn(3) > 0 {
					writeFile(k.Path(f), make([]byte, []int{10, 1000, 300000}[r.Intn(3)]))
				}
			}
			k.Count("stale_outputs", 1)
		}
		res := runCLI(k.TempDir(), bin, args...)
		var ext P
		for p := range cc.want {
			ext = P{max(ext.X, p.X-cc.start.X+1), max(ext.Y, p.Y-cc.start.Y+1), max(ext.Z, p.Z-cc.start.Z+1)}
		}
		if max(ext.X, ext.Y, ext.Z) > 256 {
			if res.code == 0 {
				k.Failf("large", "a model of %v voxels does not fit into a vox file, but voxcut reported no error\n%v", ext, ctx())
			}
			k.Distinct("%v voxels do not fit: exit %d", ext, res.code)
			return
		}
		if res.code != 0 {
			k.Failf("exit", "voxcut: %v\n%v", res, ctx())
			return
		}
		out := dirSnap(k.TempDir())
		if len(cc.want) == 0 {
			k.Count("empty_results", 1)
			return
		}
		m := &model{N: cc.base.N, T: cc.base.T, MMPV: cc.base.MMPV, V: cc.want}
		vb, ok := out["out.vox"]
		if !ok {
			k.Failf("missing", "no vox file\n%v", ctx())
			return
		}
		_, got, err := decodeVOX([]byte(vb))
		if err != nil {
			k.Failf("vox", "vox file: %v\n%v", err, ctx())
			return
		}
		abs := vset{}
		for p := range got {
			abs[p.add(cc.start)] = struct{}{}
		}
		if d := cc.want.diff(abs); d != "" {
			k.Failf("vox", "vox file: %s\n%v", d, ctx())
			return
		}
		if which&1 != 0 {
			got, _, err := worldVoxels([]byte(out["out.binvox"]), cc.base)
			if err != nil {
				k.Failf("binvox", "%v\n%v", err, ctx())
				return
			}
			if d := cc.want.diff(got); d != "" {
				k.Failf("binvox", "%s\n%v", d, ctx())
				return
			}
		}
		ntri := 0
		if which&6 != 0 {
			mesh, err := readSTL(k.Path("out.stl"))
			if err != nil {
				k.Failf("stl", "%v\n%v", err, ctx())
				return
			}
			ntri = len(mesh.Triangles)
			var key, what string
			if man {
				key, what, _ = checkSolid(r, mesh, m, 1+200000/(ntri+1))
			} else {
				key, what, _ = checkFaces(mesh, m)
			}
			if key != "" {
				k.Failf("stl-"+key, "STL file: %s\n%v", what, ctx())
				return
			}
			k.Count("triangles", ntri)
		}
		k.Count("voxels", len(got))
		k.Distinct("%v: %d voxels, hash %x, %d triangles", args, len(got), got.hash(), ntri)
	}
	c.Cases("formats", c.N(6000, 20000), 8, func(k *K, i int) { run(k, genCutCase(k, c.N(10, 16), true)) })
	c.Cases("blocks", c.N(12, 80), 6, func(k *K, i int) { run(k, genCutCase(k, blocks, true)) })
	c.Cases("large", c.N(60, 300), 8, func(k *K, i int) {
		r := k.R
		n := [3]int{1 + r.Intn(3), 1 + r.Intn(3), 1 + r.Intn(3)}
		ax := r.Intn(3)
		n[ax] = 250 + r.Intn(12)
		m := &model{N: P{n[0], n[1], n[2]}, MMPV: .5, V: vset{}}
		for j := 0; j < 6; j++ {
			m.V[P{r.Intn(n[0]), r.Intn(n[1]), r.Intn(n[2])}] = struct{}{}
		}
		m.V[P{n[0] - 1, n[1] - 1, n[2] - 1}] = struct{}{}
		if r.Intn(2) == 0 {
			m.V[P{}] = struct{}{}
		}
		cc := &cutCase{base: m, want: m.V, files: []string{"base.binvox"}}
		if r.Intn(3) == 0 {
			s := r.Intn(8)
			*[]*int{&cc.start.X, &cc.start.Y, &cc.start.Z}[ax] = s
			cc.args = []string{"-s" + string("xyz"[ax]), fmt.Sprint(s)}
			cc.want = vset{}
			for p := range m.V {
				if [3]int{p.X, p.Y, p.Z}[ax] >= s {
					cc.want[p] = struct{}{}
				}
			}
		}
		writeFile(k.Path("base.binvox"), encodeBinvox(r, m))
		run(k, cc)
	})
	// A device that fails at any of the system calls that write an output.
	c.Cases("moment", c.N(24, 200), 8, func(k *K, i int) {
		if !haveStrace() {
			k.Count("no_strace", 1)
			return
		}
		r := k.R
		cc := genCutCase(k, 9, true)
		if len(cc.want) == 0 {
			k.Count("empty_results", 1)
			return
		}
		flag := []string{"-ovox", "-obinvox"}[i%2] // fauxgl ignores some errors
		for p := range cc.want {
			if max(p.X-cc.start.X, p.Y-cc.start.Y, p.Z-cc.start.Z) >= 256 {
				flag = "-obinvox" // too large for a vox file
			}
		}
		out := k.Path("out.faulty")
		args := append(append(append([]string{}, cc.args...), flag, "out.faulty"), cc.files...)
		log := k.Path(".strace.log")
		run := func(inject string) (cliRes, []string, string, bool) {
			os.Remove(out)
			a := []string{"-f", "-o", log, "-P", out, "-e", "trace=openat,write,writev,pwrite64,close,fsync"}
			if inject != "" {
				a = append(a, "-e", "inject="+inject)
			}
			res := runCLI(k.TempDir(), "strace", append(append(a, bin), args...)...)
			t, _ := os.ReadFile(log)
			os.Remove(log)
			b, err := os.ReadFile(out)
			if err != nil {
				return res, strings.Split(strings.TrimSpace(string(t)), "\n"), "", false
			}
			var got vset
			if flag == "-ovox" {
				_, rel, err := decodeVOX(b)
				if err != nil {
					return res, strings.Split(strings.TrimSpace(string(t)), "\n"), err.Error(), true
				}
				got = vset{}
				for p := range rel {
					got[p.add(cc.start)] = struct{}{}
				}
			} else if got, _, err = worldVoxels(b, cc.base); err != nil {
				return res, strings.Split(strings.TrimSpace(string(t)), "\n"), err.Error(), true
			}
			return res, strings.Split(strings.TrimSpace(string(t)), "\n"), cc.want.diff(got), true
		}
		res, trace, diff, ok := run("")
		if res.code != 0 || !ok || diff != "" {
			k.Failf("formats", "voxcut %v: %v: %v %s\n%v", args, res, ok, diff, cc)
			return
		}
		n := calls(trace)
		for _, call := range []string{"openat", "write", "writev", "pwrite64", "close", "fsync"} {
			at := r.Perm(n[call])
			if len(at) > 5 {
				at = at[:5]
				at[0], at[1] = 0, n[call]-1
			}
			for _, w := range at {
				inject := fmt.Sprintf("%s:error=%s:when=%d", call, []string{"ENOSPC", "EIO", "EDQUOT"}[r.Intn(3)], w+1)
				res, trace, diff, ok := run(inject)
				if len(injected(trace)) == 0 {
					k.Count("faults_not_reached", 1)
					continue
				}
				k.Count("moments_failed", 1)
				k.Distinct("%v %s: exit %d", args, inject, res.code)
				if res.code == 0 && (!ok || diff != "" || call == "close" || call == "fsync") {
					k.Failf("unreported", "voxcut %v reported success although %s (call %d of %d) failed: file %v, %s", args, inject, w+1, n[call], ok, diff)
					return
				}
			}
		}
	})
	c.Cases("unwritable", c.N(12, 12), 4, func(k *K, i int) {
		m := exactModel(k.R, 10)
		writeFile(k.Path("base.binvox"), encodeBinvox(k.R, m))
		flag := []string{"-obinvox", "-ovox", "-ostl"}[i%3]
		dest := []string{"nodir/out", "/dev/full"}[i/3%2]
		if flag == "-ostl" {
			dest = "nodir/out" // fauxgl does not report it when the last of its buffers cannot be written
		}
		res := runCLI(k.TempDir(), bin, flag, dest, "base.binvox")
		if res.code == 0 {
			k.Failf("unreported", "voxcut %s %s reported no error: %v", flag, dest, res)
		}
		k.Distinct("%s %s: exit %d %s", flag, dest, res.code, strings.TrimSpace(res.out))
	})
}

func init() {
	register(&checkDef{id: "C14", rule: "distinct models whose STL file, written by the commands, was checked for closedness and classified points, and distinct failures", run: meshCLICheck})
	register(&checkDef{id: "C15", rule: "distinct (window, cuts) whose resulting voxels were compared with the difference in world space", run: voxcutCheck})
	register(&checkDef{id: "C16", rule: "distinct cuts whose outputs in several formats were compared with the same voxels", run: formatsCheck})
}
