package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/binvox"
	"github.com/gmlewis/stldice/v4/vshell"
)

// part is one of several disjoint models. Off is the lattice location of its
// voxel (0,0,0).
type part struct {
	*model
	Off   P
	color bool
}

// splitModel cuts a model into disjoint parts that are placed where they belong.
func splitModel(r *rand.Rand, m *model, n int, noise float64) []*part {
	owner := func(p P) int { return 0 }
	switch r.Intn(5) {
	case 0: // at random
		salt := r.Int63()
		owner = func(p P) int { return int(hash64(fmt.Sprint(p, salt)) % uint64(n)) }
	case 1: // checkerboard
		owner = func(p P) int { return ((p.X+p.Y+p.Z)%n + n) % n }
	default: // slabs across a random direction: touching, in any order
		ax := r.Intn(4)
		cuts := make([]int, n-1)
		hi := []int{m.N.X, m.N.Y, m.N.Z, m.N.X + m.N.Y + m.N.Z}[ax]
		for i := range cuts {
			cuts[i] = r.Intn(hi + 1)
		}
		owner = func(p P) int {
			c := []int{p.X, p.Y, p.Z, p.X + p.Y + p.Z}[ax]
			o := 0
			for _, k := range cuts {
				if c >= k {
					o++
				}
			}
			return o
		}
	}
	parts := make([]*part, n)
	for i := range parts {
		parts[i] = &part{model: &model{V: vset{}, MMPV: m.MMPV}}
	}
	for p := range m.V {
		q := parts[owner(p)]
		q.V[p] = struct{}{}
	}
	var out []*part
	for _, q := range parts {
		if len(q.V) == 0 {
			continue
		}
		lo, hi := q.V.bbox()
		// a margin below moves the origin, also to negative locations
		var mg, mh [3]int
		for a := range mg {
			if r.Intn(2) == 0 {
				mg[a] = r.Intn(4)
				mh[a] = r.Intn(4)
			}
		}
		q.Off = P{lo.X - mg[0], lo.Y - mg[1], lo.Z - mg[2]}
		q.N = P{hi.X - q.Off.X + 1 + mh[0], hi.Y - q.Off.Y + 1 + mh[1], hi.Z - q.Off.Z + 1 + mh[2]}
		nz := func() float64 { return (r.Float64()*2 - 1) * noise }
		q.T = gl.V(m.T.X+(float64(q.Off.X)+nz())*m.MMPV, m.T.Y+(float64(q.Off.Y)+nz())*m.MMPV, m.T.Z+(float64(q.Off.Z)+nz())*m.MMPV)
		v := vset{}
		for p := range q.V {
			v[P{p.X - q.Off.X, p.Y - q.Off.Y, p.Z - q.Off.Z}] = struct{}{}
		}
		q.V = v
		q.color = r.Intn(3) == 0
		out = append(out, q)
	}
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// onLattice maps the voxels of a merged shell to lattice locations of m.
func onLattice(vs *vshell.VShell, m *model) (nmap, string) {
	mm := 1 / vs.VoxelsPerMM()
	if !nearRel(mm, m.MMPV, 0, 1e-6) {
		return nil, fmt.Sprintf("%v millimeters per voxel instead of %v", mm, m.MMPV)
	}
	off := [3]float64{(vs.TX - m.T.X) / m.MMPV, (vs.TY - m.T.Y) / m.MMPV, (vs.TZ - m.T.Z) / m.MMPV}
	var o [3]int
	for a := range off {
		o[a] = int(math.Round(off[a]))
		if math.Abs(off[a]-float64(o[a])) > 0.35 {
			return nil, fmt.Sprintf("the shell is %v voxels off along axis %d", off[a], a)
		}
	}
	out := nmap{}
	for _, v := range vs.Voxels {
		if v.X < 0 || v.Y < 0 || v.Z < 0 || v.X >= vs.NX || v.Y >= vs.NY || v.Z >= vs.NZ {
			return nil, fmt.Sprintf("voxel (%d,%d,%d) outside of the shell's own dimensions (%d,%d,%d)", v.X, v.Y, v.Z, vs.NX, vs.NY, vs.NZ)
		}
		p := P{v.X + o[0], v.Y + o[1], v.Z + o[2]}
		if _, ok := out[p]; ok {
			return nil, fmt.Sprintf("voxel %v is listed twice", p)
		}
		out[p] = uint32(v.N)
	}
	return out, ""
}

func permutations(n int) [][]int {
	if n == 1 {
		return [][]int{{0}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

func init() {
	register(&checkDef{id: "C08", rule: "distinct (partition of a model, order of merging) whose merged shell was compared with the shell of the union", run: func(c *Ctx) {
		c.Cases("merge", c.N(8000, 30000), 8, func(k *K, i int) {
			r := k.R
			var m *model
			for {
				m = genModel(r, 14, r.Intn(2) == 0)
				if i%10 == 4 {
					m = genLong(r, []int{2000, 5000}[r.Intn(2)], r.Intn(2) == 0)
				}
				if i%800 == 33 {
					m = genBig(r, 60)
				}
				if r.Intn(3) == 0 {
					// far from the origin, but still exact to a small part of a voxel
					m.T = gl.V(m.T.X*3, m.T.Y*3, m.T.Z*3)
				}
				if math.Max(math.Abs(m.T.X), math.Max(math.Abs(m.T.Y), math.Abs(m.T.Z)))/m.MMPV < 1e9 {
					break
				}
			}
			noise := 0.0
			if i%3 == 0 {
				noise = 0.15
			}
			parts := splitModel(r, m, 2+r.Intn(4), noise)
			want := shellOf(m.V)
			orders := permutations(len(parts))
			r.Shuffle(len(orders), func(i, j int) { orders[i], orders[j] = orders[j], orders[i] })
			if len(orders) > 6 {
				orders = orders[:6]
			}
			empty := r.Intn(4)
			desc := func(o []int) string {
				s := fmt.Sprintf("%v\nmerged as", m)
				for _, j := range o {
					s += fmt.Sprintf("\n  color=%v %v", parts[j].color, parts[j].model)
				}
				return s
			}
			for oi, o := range orders {
				var vs *vshell.VShell
				var err error
				if oi%2 == 0 { // through files
					var files []string
					for n, j := range o {
						if empty == 1 && n == oi%len(o) {
							fn := k.Path(fmt.Sprintf("empty%d.binvox", n))
							os.WriteFile(fn, []byte(headerText("#binvox 1", P{}, r.NormFloat64()*10, 0, 5, 3.5)), 0644)
							files = append(files, fn)
						}
						fn := k.Path(fmt.Sprintf("p%d.binvox", j))
						os.WriteFile(fn, encodeBinvox(r, parts[j].model), 0644)
						files = append(files, fn)
					}
					if empty == 1 {
						fn := k.Path("empty.binvox")
						os.WriteFile(fn, []byte(headerText("#binvox 1", P{}, 1, 2, 3, 17)), 0644)
						files = append(files, fn)
					}
					vs, err = vshell.Merge(files)
				} else {
					vs, err = vshell.New(&binvox.BinVOX{})
					if r.Intn(2) == 0 {
						vs, err = &vshell.VShell{}, nil
					}
					for _, j := range o {
						if err != nil {
							break
						}
						b := parts[j].bv()
						if parts[j].color {
							setVoxels(r, b, parts[j].V)
						}
						err = vs.Add(b)
						if err == nil && empty == 2 {
							err = vs.Add(&binvox.BinVOX{TX: r.NormFloat64() * 10, Scale: 7})
						}
					}
				}
				if err != nil {
					k.Failf("error", "merging disjoint models of the same resolution: %v\n%s", err, desc(o))
					return
				}
				got, bad := onLattice(vs, m)
				if bad != "" {
					k.Failf("placement", "%s\n%s", bad, desc(o))
					return
				}
				if d := want.keys().diff(got.keys()); d != "" {
					k.Failf("voxels", "merged shell: %s\n%s", d, desc(o))
				} else if d := want.diff(got); d != "" {
					k.Failf("neighbors", "merged shell: %s\n%s", d, desc(o))
				}
				k.Count("merges", 1)
				k.Count("shell_voxels", len(got))
				k.Distinct("%d parts in order %v, dim %v, %d voxels, shell %d, hash %x, noise %v", len(parts), o, m.N, len(m.V), len(want), m.V.hash(), noise)
			}
		})
		c.Cases("mismatch", c.N(1200, 6000), 8, func(k *K, i int) {
			r := k.R
			m := genModel(r, 8, false)
			n := genModel(r, 8, false)
			f := 1.05 + r.Float64()*3
			if r.Intn(2) == 0 {
				f = 1 / f
			}
			n.MMPV = m.MMPV * f
			n.T = gl.V(m.T.X+float64(m.N.X+2)*m.MMPV, m.T.Y, m.T.Z)
			vs, err := vshell.New(m.bv())
			if err != nil {
				k.Failf("error", "New: %v\n%v", err, m)
				return
			}
			before, _ := vshMap(vs)
			hb := fmt.Sprint(vs.NX, vs.NY, vs.NZ, vs.TX, vs.TY, vs.TZ, vs.Scale)
			if err := vs.Add(n.bv()); err == nil {
				k.Failf("mismatch", "a model of %v millimeters per voxel was merged into one of %v\n%v\n%v", n.MMPV, m.MMPV, m, n)
				return
			}
			after, _ := vshMap(vs)
			if d := before.diff(after); d != "" || hb != fmt.Sprint(vs.NX, vs.NY, vs.NZ, vs.TX, vs.TY, vs.TZ, vs.Scale) {
				k.Failf("mismatch-changed", "a rejected model changed the shell: %s\n%v\n%v", d, m, n)
			}
			f1, f2 := k.Path("a"), k.Path("b")
			os.WriteFile(f1, encodeBinvox(r, m), 0644)
			os.WriteFile(f2, encodeBinvox(r, n), 0644)
			if _, err := vshell.Merge([]string{f1, f2}); err == nil {
				k.Failf("mismatch", "Merge accepted models of %v and %v millimeters per voxel", m.MMPV, n.MMPV)
			}
			if _, err := vshell.Merge([]string{f1, k.Path("missing")}); err == nil {
				k.Failf("missing", "Merge accepted a file that does not exist")
			}
			k.Distinct("resolutions %v and %v, hash %x %x", m.MMPV, n.MMPV, m.V.hash(), n.V.hash())
		})
	}})
}
