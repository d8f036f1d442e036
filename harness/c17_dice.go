package main

import (
	"cmp"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
)

// ---- voxcut-dice -----------------------------------------------------------------

func diceCheck(c *Ctx) {
	cli("cmd/voxcut", false)
	bin := cli("cmd/voxcut-dice", false)
	env := pathEnv()
	c.Cases("dice", c.N(800, 4000), 8, func(k *K, i int) {
		r := k.R
		cc := genCutCase(k, c.N(8, 12), true)
		if r.Intn(6) == 0 {
			cc.files = cc.files[:1]
			cc.cuts = nil
		}
		// the window of genCutCase does not apply here
		want := vset{}
		for p := range cc.base.V {
			want[p] = struct{}{}
		}
		named := map[string]bool{}
		for _, f := range cc.files {
			named[f] = true
		}
		for _, m := range cc.cuts {
			d := m.T.Sub(cc.base.T).DivScalar(cc.base.MMPV)
			for p := range m.V {
				delete(want, p.add(P{int(math.Round(d.X)), int(math.Round(d.Y)), int(math.Round(d.Z))}))
			}
		}
		if slices.Contains(cc.files[1:], cc.files[0]) {
			want = vset{}
		}
		n := cc.base.N
		mx := max(n.X, n.Y, n.Z)
		size := 1 + r.Intn(mx+1)
		if r.Intn(4) == 0 {
			size = mx
		}
		if size > 300 { // a tile is written whole: the time is cubic in its size
			size = 100 + r.Intn(200)
		}
		// bound the number of processes
		for ((n.X+size-1)/size)*((n.Y+size-1)/size)*((n.Z+size-1)/size) > 80 {
			size++
		}
		pfx := map[string]string{}
		for _, p := range []string{"b", "v", "s"} {
			pfx[p] = p
			if r.Intn(4) == 0 {
				pfx[p] = oddName(r, p+"part")
			}
		}
		args := []string{"-size", fmt.Sprint(size)}
		which := 1 + r.Intn(7)
		if size > 256 && which&2 != 0 { // does not fit into a .vox file
			if which &^= 2; which == 0 {
				which = 1
			}
		}
		if which&1 != 0 {
			args = append(args, "-obinvox", pfx["b"])
		}
		if which&2 != 0 {
			args = append(args, "-ovox", pfx["v"])
		}
		if which&4 != 0 {
			args = append(args, "-ostl", pfx["s"])
		}
		ctx := func() string { return fmt.Sprintf("%v %v\n%v", args, cc.files, cc) }
		inputs := dirSnap(k.TempDir())
		if r.Intn(4) == 0 { // tiles of an earlier run are replaced
			old := encodeBinvox(r, cc.base)
			own := rand.New(rand.NewSource(r.Int63())) // used in the random order of a map
			for p := range want {
				if own.Intn(2) > 0 {
					continue
				}
				name := fmt.Sprintf("-%04d-%04d-%04d-%04d-%04d-%04d", p.X/size*size, p.Y/size*size, p.Z/size*size, size, size, size)
				for i, f := range []string{pfx["b"] + name + ".binvox", pfx["v"] + name + ".vox", pfx["s"] + name + ".stl"} {
					if which>>uint(i)&1 > 0 && inputs[f] == "" {
						writeFile(k.Path(f), old)
					}
				}
				if own.Intn(20) == 0 {
					break
				}
			}
			k.Count("stale_tiles", 1)
		}
		res := runCLIEnv(k.TempDir(), env, bin, append(append([]string{}, args...), cc.files...)...)
		if size > mx {
			if res.code == 0 {
				k.Failf("size", "a size larger than all dimensions was accepted: %v\n%v", res, ctx())
			}
			k.Distinct("size %d > %v: exit %d", size, n, res.code)
			return
		}
		if res.code != 0 {
			k.Failf("exit", "voxcut-dice: %v\n%v", res, ctx())
			return
		}
		out := dirSnap(k.TempDir())
		for f, b := range inputs {
			if out[f] != b {
				k.Failf("input", "voxcut-dice changed %v\n%v", f, ctx())
			}
			delete(out, f)
		}
		// every output belongs to a tile, and the tiles of each format make up the result
		union := map[string]vset{"b": {}, "v": {}, "s": {}}
		for x := 0; x < n.X; x += size {
			for y := 0; y < n.Y; y += size {
				for z := 0; z < n.Z; z += size {
					tile := vset{}
					for p := range want {
						if p.X >= x && p.X < x+size && p.Y >= y && p.Y < y+size && p.Z >= z && p.Z < z+size {
							tile[p] = struct{}{}
						}
					}
					name := fmt.Sprintf("-%04d-%04d-%04d-%04d-%04d-%04d", x, y, z, size, size, size)
					for i, f := range []string{pfx["b"] + name + ".binvox", pfx["v"] + name + ".vox", pfx["s"] + name + ".stl"} {
						b, ok := out[f]
						delete(out, f)
						if which>>uint(i)&1 == 0 {
							if ok {
								k.Failf("unasked", "%v was written, but not asked for\n%v", f, ctx())
							}
							continue
						}
						if !ok {
							if len(tile) > 0 {
								k.Failf("missing", "no %v, but the tile has %d voxels\n%v", f, len(tile), ctx())
								return
							}
							continue
						}
						got := vset{}
						var err error
						switch i {
						case 0:
							var h header
							got, h, err = worldVoxels([]byte(b), cc.base)
							if err == nil {
								err = checkWindow(h, cc.base, P{x, y, z}, P{size, size, size})
							}
						case 1:
							var g vset
							_, g, err = decodeVOX([]byte(b))
							for p := range g {
								got[p.add(P{x, y, z})] = struct{}{}
							}
						case 2:
							m, e := readSTL(k.Path(f))
							err = e
							if e == nil {
								tm := &model{N: n, T: cc.base.T, MMPV: cc.base.MMPV, V: tile}
								if key, what, _ := checkFaces(m, tm); key != "" {
									err = fmt.Errorf("%s: %s", key, what)
								}
							}
							got = tile
						}
						if err != nil {
							k.Failf("tile", "%v: %v\n%v", f, err, ctx())
							return
						}
						if d := tile.diff(got); d != "" {
							k.Failf("tile", "%v: %s\n%v", f, d, ctx())
							return
						}
						for p := range got {
							union[f[:1]][p] = struct{}{}
						}
						k.Count("tiles", 1)
					}
				}
			}
		}
		for f := range out {
			k.Failf("extra", "unexpected output %v\n%v", f, ctx())
			return
		}
		// the script of a dry run does the same
		dry := filepath.Join(k.TempDir(), "dry")
		os.Mkdir(dry, 0755)
		for f, b := range inputs {
			writeFile(filepath.Join(dry, f), []byte(b))
		}
		for _, f := range cc.files {
			if b, err := os.ReadFile(k.Path(f)); err == nil && filepath.Dir(f) != "." {
				os.MkdirAll(filepath.Join(dry, filepath.Dir(f)), 0755)
				writeFile(filepath.Join(dry, f), b)
			}
		}
		res = runCLIEnv(dry, env, bin, append(append([]string{"-n"}, args...), cc.files...)...)
		if res.code != 0 || !strings.HasPrefix(res.out, "#!") {
			k.Failf("dry-run", "voxcut-dice -n: %v\n%v", res, ctx())
			return
		}
		if s := dirSnap(dry); len(s) != len(inputs) {
			k.Failf("dry-run", "a dry run wrote files\n%v", ctx())
			return
		}
		writeFile(filepath.Join(dry, "script.sh"), []byte(res.out))
		if sres := runCLIEnv(dry, env, "/bin/bash", "script.sh"); sres.code != 0 {
			k.Failf("dry-run", "the script fails: %v\n%v\n%v", sres, res.out, ctx())
			return
		}
		real, script := dirSnap(k.TempDir()), dirSnap(dry)
		delete(script, "script.sh")
		if len(real) != len(script) {
			k.Failf("dry-run", "the script wrote %d files instead of %d\n%v\n%v", len(script), len(real), res.out, ctx())
			return
		}
		for f, b := range real {
			s, ok := script[f]
			same := ok && s == b
			if ok && strings.HasSuffix(f, ".vox") { // in any order
				s1, v1, e1 := decodeVOX([]byte(b))
				s2, v2, e2 := decodeVOX([]byte(s))
				same = e1 == nil && e2 == nil && s1 == s2 && v1.diff(v2) == ""
			}
			if ok && strings.HasSuffix(f, ".stl") {
				t1, e1 := decodeSTL([]byte(b))
				t2, e2 := decodeSTL([]byte(s))
				same = e1 == nil && e2 == nil && bagOf(t1).diff(bagOf(t2)) == ""
			}
			if !same {
				k.Failf("dry-run", "the script's %v differs from that of the run\n%v\n%v", f, res.out, ctx())
				return
			}
		}
		k.Distinct("%v of %v, %d files: %d voxels, hash %x", args, n, len(cc.files), len(want), want.hash())
	})
	// one of the tiles can not be written
	c.Cases("tile", c.N(60, 300), 8, func(k *K, i int) {
		r := k.R
		m := exactModel(r, 8)
		for len(m.V) == 0 {
			m = exactModel(r, 8)
		}
		writeFile(k.Path("base.binvox"), encodeBinvox(r, m))
		mx := max(m.N.X, m.N.Y, m.N.Z)
		size := (mx + 1) / 2
		tiles := map[P]bool{}
		for p := range m.V {
			tiles[P{p.X / size, p.Y / size, p.Z / size}] = true
		}
		var list []P
		for p := range tiles {
			list = append(list, p)
		}
		slices.SortFunc(list, func(a, b P) int { return cmp.Or(a.X-b.X, a.Y-b.Y, a.Z-b.Z) })
		t := list[r.Intn(len(list))]
		flag, ext := "-obinvox", ".binvox"
		switch r.Intn(3) {
		case 0:
			flag, ext = "-ovox", ".vox"
		case 1:
			flag, ext = "-ostl", ".stl"
		}
		name := fmt.Sprintf("t-%04d-%04d-%04d-%04d-%04d-%04d%s", t.X*size, t.Y*size, t.Z*size, size, size, size, ext)
		if err := os.Mkdir(k.Path(name), 0755); err != nil {
			k.Failf("setup", "%v", err)
			return
		}
		res := runCLIEnv(k.TempDir(), env, bin, "-size", fmt.Sprint(size), flag, "t", "base.binvox")
		if res.code == 0 || res.hung {
			k.Failf("unreported", "%s can not be written: %v", name, res)
		} else if res.crashed() {
			k.Failf("crash", "%s can not be written: %v", name, res)
		}
		k.Distinct("tile %v of %d, size %d, %s: exit %d", t, len(list), size, flag, res.code)
	})
	c.Cases("bad", 24, 8, func(k *K, i int) {
		m := exactModel(k.R, 8)
		data := encodeBinvox(k.R, m)
		args := []string{"-obinvox", "b", "base.binvox"}
		what := ""
		switch i % 7 {
		case 0:
			what, args = "size 0", append([]string{"-size", "0"}, args...)
		case 1:
			what, args = "negative size", append([]string{"-size", "-4"}, args...)
		case 2:
			what, args = "no files", append([]string{"-size", "1"}, args[:2]...)
		case 3:
			what, args = "no outputs", append([]string{"-size", "1"}, args[2:]...)
		case 4:
			what, data, args = "missing base", nil, append([]string{"-size", "1"}, args...)
		case 5:
			what, data[1], args = "bad magic", 'x', append([]string{"-size", "1"}, args...)
		case 6:
			what, args = "unwritable output", []string{"-size", "1", "-obinvox", "nodir/b", "base.binvox"}
		}
		if i%14 >= 7 && i%7 != 6 {
			args = append([]string{"-n"}, args...)
		}
		if data != nil {
			writeFile(k.Path("base.binvox"), data)
		}
		res := runCLIEnv(k.TempDir(), env, bin, args...)
		if res.code == 0 || res.hung {
			k.Failf("unreported", "voxcut-dice with %s: %v", what, res)
		} else if res.crashed() {
			k.Failf("crash", "voxcut-dice with %s: %v", what, res)
		}
		k.Distinct("%s: exit %d", what, res.code)
	})
}

// ---- binvox-dice -----------------------------------------------------------------

func genNum(r *rand.Rand) float64 {
	switch r.Intn(6) {
	case 0:
		return float64(r.Intn(401) - 200)
	case 1:
		return math.Round(r.NormFloat64()*1000) / 10
	case 2:
		return r.NormFloat64() * 1e-3
	case 3:
		return r.NormFloat64() * 1e6
	case 4:
		return 0
	}
	return r.NormFloat64() * 50
}

// genMBB makes a bounding box and one of its accepted spellings.
func genMBB(r *rand.Rand) (lo, hi [3]float64, s string) {
	for a := 0; a < 3; a++ {
		for lo[a] == hi[a] {
			lo[a], hi[a] = genNum(r), genNum(r)
		}
		if lo[a] > hi[a] {
			lo[a], hi[a] = hi[a], lo[a]
		}
	}
	return lo, hi, spellMBB(r, lo, hi)
}

func spellMBB(r *rand.Rand, lo, hi [3]float64) string {
	sp := func() string { return strings.Repeat(" ", r.Intn(3)) }
	num := func(x float64) string {
		if r.Intn(3) == 0 {
			return strconv.FormatFloat(x, 'f', -1, 64)
		}
		return fmt.Sprint(x)
	}
	vec := func(v [3]float64, o, c string) string {
		return o + sp() + num(v[0]) + sp() + "," + sp() + num(v[1]) + sp() + "," + sp() + num(v[2]) + sp() + c
	}
	switch r.Intn(4) {
	case 0:
		return sp() + vec(lo, "[", "]") + sp() + "-" + sp() + vec(hi, "[", "]") + sp()
	case 1: // no brackets
		return vec(lo, "", " ") + "- " + vec(hi, "", "")
	}
	return sp() + vec(lo, "(", ")") + sp() + "-" + sp() + vec(hi, "(", ")") + sp()
}

func binvoxDiceCheck(c *Ctx) {
	bin := cli("cmd/binvox-dice", false)
	c.Cases("dice", c.N(4000, 20000), 8, func(k *K, i int) {
		r := k.R
		lo, hi, s := genMBB(r)
		f := 1 + r.Intn(5)
		if r.Intn(3) == 0 {
			f = 1 << r.Intn(4)
		}
		sub := [3]bool{true, true, false}
		args := []string{"-factor", fmt.Sprint(f), "-mbb", s}
		if i%20 == 0 {
			f, args = 8, args[2:]
		}
		for a := 0; a < 3; a++ {
			if r.Intn(2) == 0 {
				sub[a] = r.Intn(2) == 0
				args = append(args, fmt.Sprintf("-sub%c=%v", "xyz"[a], sub[a]))
			}
		}
		var files []string
		for j := 0; j < 1+r.Intn(3); j++ {
			files = append(files, []string{"base%d.stl", "dir/a%d.stl", "cut.%d.stl"}[r.Intn(3)])
			files[j] = fmt.Sprintf(files[j], j)
			if r.Intn(3) == 0 {
				files[j] = oddName(r, fmt.Sprintf("m%d", j)) + ".stl"
			}
		}
		if r.Intn(8) == 0 {
			files = append(files, filepath.Join(k.TempDir(), "abs.stl"))
		}
		res := runCLI(k.TempDir(), bin, append(args, files...)...)
		ctx := func() string { return fmt.Sprintf("%q %q\n%v", args, files, res) }
		if res.code != 0 {
			k.Failf("exit", "binvox-dice fails\n%v", ctx())
			return
		}
		if !strings.HasPrefix(res.out, "#!") {
			k.Failf("script", "the output is not a script\n%v", ctx())
			return
		}
		cmds, err := shellCommands(k, res.out, "binvox", "voxcut")
		if err != nil {
			k.Failf("script", "%v\n%v", err, ctx())
			return
		}
		div := [3]int{1, 1, 1}
		total := 1
		for a := range sub {
			if sub[a] {
				div[a] = f
				total *= f
			}
		}
		// an interpreter of the script: binvox writes a.binvox, a_1.binvox, ...
		type box [6]float64
		outputs := map[string]box{}
		runs := map[string]int{}
		dests := map[string]bool{}
		cells := map[[3]int]bool{}
		for _, w := range cmds {
			l := fmt.Sprintf("%q", w)
			switch w[0] {
			case "binvox":
				var b box
				file, bb := "", false
				dim := 0
				for j := 1; j < len(w); j++ {
					switch {
					case w[j] == "-bb" && j+6 < len(w):
						bb = true
						for q := 0; q < 6; q++ {
							v, err := strconv.ParseFloat(w[j+1+q], 64)
							if err != nil {
								k.Failf("script", "bad number in %v\n%v", l, ctx())
								return
							}
							b[q] = v
						}
						j += 6
					case w[j] == "-d" && j+1 < len(w):
						dim, _ = strconv.Atoi(w[j+1])
						j++
					case w[j][0] == '-':
					default:
						file = w[j]
					}
				}
				if !bb || file == "" || dim < 1 || dim > 1024 {
					k.Failf("script", "no box, no file or a bad resolution in %v\n%v", l, ctx())
					return
				}
				out := strings.TrimSuffix(file, ".stl")
				if n := runs[file]; n > 0 {
					out += fmt.Sprintf("_%d", n)
				}
				runs[file]++
				outputs[out+".binvox"] = b
			case "voxcut":
				var ins []string
				for j := 1; j < len(w); j++ {
					if w[j] == "-ostl" && j+1 < len(w) {
						if dests[w[j+1]] {
							k.Failf("overwritten", "two commands write %v\n%v", w[j+1], ctx())
							return
						}
						dests[w[j+1]] = true
						j++
						continue
					}
					ins = append(ins, w[j])
				}
				if len(ins) != len(files) {
					k.Failf("script", "%v has %d inputs for %d files\n%v", l, len(ins), len(files), ctx())
					return
				}
				var b box
				for j, in := range ins {
					ob, ok := outputs[in]
					if !ok {
						k.Failf("script", "%v reads %v, which binvox has not written\n%v", l, in, ctx())
						return
					}
					if j == 0 {
						b = ob
					} else if b != ob {
						k.Failf("script", "%v cuts different boxes\n%v", l, ctx())
						return
					}
					if s := strings.TrimSuffix(files[j], ".stl"); !strings.HasPrefix(in, s) {
						k.Failf("script", "%v: input %d is of another file than %v\n%v", l, j, files[j], ctx())
						return
					}
				}
				var cell [3]int
				for a := 0; a < 3; a++ {
					w := (hi[a] - lo[a]) / float64(div[a])
					cell[a] = int(math.Round((b[a] - lo[a]) / w))
					tol := 1e-9*(math.Abs(lo[a])+math.Abs(hi[a])) + 1e-300
					if math.Abs(b[a]-(lo[a]+float64(cell[a])*w)) > tol || math.Abs(b[a+3]-(lo[a]+float64(cell[a]+1)*w)) > tol || cell[a] < 0 || cell[a] >= div[a] {
						k.Failf("box", "box %v is not one of the %v parts of %v-%v\n%v", b, div, lo, hi, ctx())
						return
					}
				}
				if cells[cell] {
					k.Failf("twice", "box %v is processed twice\n%v", b, ctx())
					return
				}
				cells[cell] = true
			default:
				k.Failf("script", "unexpected command %v\n%v", l, ctx())
				return
			}
		}
		if len(cells) != total || len(dests) != total {
			k.Failf("missing", "%d boxes and %d outputs instead of %d\n%v", len(cells), len(dests), total, ctx())
			return
		}
		k.Count("boxes", total)
		k.Distinct("%q %q: %d boxes", args, files, total)
	})
	bad := []string{"", "1,2,3", "(1,2)-(3,4)", "(a,0,0)-(1,1,1)", "(0,b,0)-(1,1,1)", "(0,0,c)-(1,1,1)", "(0,0,0)-(d,1,1)", "(0,0,0)-(1,e,1)", "(0,0,0)-(1,1,f)", "(0,0,0)(1,1,1)", "(0,0,0)-(1,1,1)-(2,2,2)", "(0,0,0)-(1,1,1) x"}
	c.Cases("bad", len(bad)+1, 8, func(k *K, i int) {
		args := []string{"-mbb", "(0,0,0)-(1,1,1)"}
		if i < len(bad) {
			args = []string{"-mbb", bad[i], "a.stl"}
		}
		res := runCLI(k.TempDir(), bin, args...)
		if res.code == 0 || res.crashed() || res.hung {
			k.Failf("unreported", "binvox-dice %q: %v", args, res)
		}
		for _, l := range strings.Split(res.out, "\n") {
			if l = strings.TrimSpace(l); l != "" && l[0] != '#' {
				k.Failf("script", "binvox-dice %q prints commands: %v", args, res)
				break
			}
		}
		k.Distinct("%q: exit %d", args, res.code)
	})
}

func init() {
	register(&checkDef{id: "C17", rule: "distinct (model, cuts, tile size, formats) whose tiles were compared with the difference and with the dry run's script", run: diceCheck})
	register(&checkDef{id: "C18", rule: "distinct (bounding box, factor, axes, files) whose script was interpreted", run: binvoxDiceCheck})
}
