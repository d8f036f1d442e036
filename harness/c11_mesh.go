package main

import (
	"fmt"
	"math"
	"math/rand"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/binvox"
)

// meshOf gives the method under test a model with white or with color voxels.
func meshOf(r *rand.Rand, m *model, f func(b *binvox.BinVOX) *gl.Mesh) *gl.Mesh {
	b := m.bv()
	setVoxels(r, b, m.V)
	return f(b)
}

// checkSolid decides whether a surface is closed and encloses the centers of
// exactly the given voxels. It returns "" or what is wrong.
func checkSolid(r *rand.Rand, mesh *gl.Mesh, m *model, maxPoints int) (key, what string, points int) {
	lm := toLattice(mesh, m.T.X, m.T.Y, m.T.Z, m.MMPV)
	size := math.Max(math.Abs(m.T.X), math.Max(math.Abs(m.T.Y), math.Abs(m.T.Z)))/m.MMPV + float64(max(m.N.X, m.N.Y, m.N.Z))
	if lm.offGrid > 1e-9+size*1e-12+m.Tol {
		return "placement", fmt.Sprintf("vertices are %g voxels off the places where a vertex can be", lm.offGrid), 0
	}
	for _, t := range lm.ftri {
		for _, v := range t {
			if math.IsNaN(v.X+v.Y+v.Z) || math.IsInf(v.X+v.Y+v.Z, 0) {
				return "placement", fmt.Sprintf("vertex %v", v), 0
			}
		}
	}
	if s := lm.boundary(); s != "" {
		return "open", "the surface is not closed: " + s, 0
	}
	if len(m.V) == 0 {
		if len(lm.tris) > 0 {
			return "enclosed", "an empty model has a surface", 0
		}
		return "", "", 1
	}
	lo, hi := m.V.bbox()
	var pts []P
	for x := lo.X - 1; x <= hi.X+1; x++ {
		for y := lo.Y - 1; y <= hi.Y+1; y++ {
			for z := lo.Z - 1; z <= hi.Z+1; z++ {
				pts = append(pts, P{x, y, z})
			}
		}
	}
	r.Shuffle(len(pts), func(i, j int) { pts[i], pts[j] = pts[j], pts[i] })
	if len(pts) > maxPoints {
		// prefer the surroundings of voxels
		n := 0
		for i, p := range pts {
			near := false
			for j := 0; j < 27 && !near; j++ {
				near = m.V.has(P{p.X + j/9 - 1, p.Y + j/3%3 - 1, p.Z + j%3 - 1})
			}
			if near {
				pts[n], pts[i] = pts[i], pts[n]
				n++
			}
		}
		// with some of the others
		for i := 1; i <= maxPoints/10; i++ {
			j := r.Intn(len(pts))
			pts[maxPoints-i], pts[j] = pts[j], pts[maxPoints-i]
		}
		pts = pts[:maxPoints]
	}
	for _, p := range pts {
		w := lm.winding(gl.V(float64(p.X)+.5, float64(p.Y)+.5, float64(p.Z)+.5))
		want := 0.0
		if m.V.has(p) {
			want = 1
		}
		if math.Abs(w-want) > 1e-3 {
			return "enclosed", fmt.Sprintf("the surface winds %.3f times around the center of voxel %v, which is occupied: %v", w, p, want == 1), 0
		}
	}
	// nothing of the surface is further than one voxel from the model
	for _, t := range lm.ftri {
		for _, v := range t {
			if e := 1e-6 + m.Tol; v.X < float64(lo.X)-e || v.Y < float64(lo.Y)-e || v.Z < float64(lo.Z)-e ||
				v.X > float64(hi.X)+1+e || v.Y > float64(hi.Y)+1+e || v.Z > float64(hi.Z)+1+e {
				return "extent", fmt.Sprintf("vertex %v (in voxels) is outside of the voxels %v-%v", v, lo, hi), 0
			}
		}
	}
	return "", "", len(pts)
}

// cubeModel is subset number i of the 2x2x2 grid.
func cubeModel(i int) *model {
	m := &model{N: P{2, 2, 2}, V: vset{}, MMPV: 0.5, T: gl.V(1, -2, 3)}
	for b := 0; b < 8; b++ {
		if i>>uint(b)&1 == 1 {
			m.V[P{b & 1, b >> 1 & 1, b >> 2}] = struct{}{}
		}
	}
	return m
}

func solidCheck(f func(b *binvox.BinVOX) *gl.Mesh) func(c *Ctx) {
	return func(c *Ctx) {
		one := func(k *K, m *model) {
			before := m.V.hash()
			mesh := meshOf(k.R, m, f)
			key, what, pts := checkSolid(k.R, mesh, m, 1+400000/(len(mesh.Triangles)+1))
			if key != "" {
				k.Failf(key, "%s\n%v", what, m)
				return
			}
			k.Count("triangles", len(mesh.Triangles))
			k.Count("points_classified", pts)
			k.Distinct("dim %v, %d voxels, hash %x, %d triangles, %d points", m.N, len(m.V), before, len(mesh.Triangles), pts)
		}
		c.Cases("cube", 256, 8, func(k *K, i int) { one(k, cubeModel(i)) })
		// a 3x3x2 neighborhood has pairs of ambiguous cells next to each other
		c.Cases("pair", c.N(4096, 4096), 8, func(k *K, i int) {
			m := &model{N: P{3, 2, 2}, V: vset{}, MMPV: 1}
			bits := i
			if !c.Thorough() {
				bits = k.R.Intn(4096)
			}
			perm := k.R.Intn(3)
			for b := 0; b < 12; b++ {
				if bits>>uint(b)&1 == 1 {
					p := P{b % 3, b / 3 % 2, b / 6}
					switch perm {
					case 1:
						p = P{p.Y, p.Z, p.X}
					case 2:
						p = P{p.Z, p.X, p.Y}
					}
					m.V[p] = struct{}{}
				}
			}
			m.N = []P{{3, 2, 2}, {2, 2, 3}, {2, 3, 2}}[perm]
			one(k, m)
		})
		c.Cases("model", c.N(1500, 20000), 8, func(k *K, i int) {
			one(k, genModel(k.R, c.N(9, 12), k.R.Intn(2) == 0))
		})
		c.Cases("long", c.N(100, 1000), 8, func(k *K, i int) { one(k, genLong(k.R, []int{1500, 5000, 70000}[i%3], k.R.Intn(2) == 0)) })
		c.Cases("big", c.N(8, 60), 4, func(k *K, i int) {
			r := k.R
			n := 20 + r.Intn(20)
			m := &model{N: P{n, n - r.Intn(10), n - r.Intn(15)}, MMPV: 0.25, T: gl.V(-7.5, 100, 0.25)}
			m.V = genVoxels(r, []string{"random", "ellipsoid", "dense", "plane", "hollow", "bars"}[r.Intn(6)], m.N.X, m.N.Y, m.N.Z)
			one(k, m)
		})
	}
}

type faceKey struct {
	ax, plane, u, v int
	up              bool
}

// checkFaces compares a surface with the exposed faces of the voxels.
func checkFaces(mesh *gl.Mesh, m *model) (key, what string, exposed int) {
	lm := toLattice(mesh, m.T.X, m.T.Y, m.T.Z, m.MMPV)
	size := math.Max(math.Abs(m.T.X), math.Max(math.Abs(m.T.Y), math.Abs(m.T.Z)))/m.MMPV + float64(max(m.N.X, m.N.Y, m.N.Z))
	if lm.offGrid > 1e-9+size*1e-12 {
		return "placement", fmt.Sprintf("vertices are %g voxels off the corners of voxels", lm.offGrid), 0
	}
	samples := [][2]float64{{.31372197, .17715333}, {.83118743, .29331917}, {.23117731, .71931137}, {.61733911, .93377119}} // on no diagonal
	cover := map[faceKey]*[4]int{}
	var area float64
	for i, t := range lm.tris {
		ax := -1
		for a := 0; a < 3; a++ {
			if t[0][a] == t[1][a] && t[1][a] == t[2][a] {
				ax = a
			}
		}
		if ax < 0 {
			return "faces", fmt.Sprintf("triangle %v is not parallel to the faces of a voxel", lm.ftri[i]), 0
		}
		for _, v := range t {
			for a := 0; a < 3; a++ {
				if v[a]%quant != 0 {
					return "faces", fmt.Sprintf("vertex %v (in voxels) is no corner of a voxel", lm.ftri[i]), 0
				}
			}
		}
		u, v := (ax+1)%3, (ax+2)%3
		p := [3][2]float64{}
		lo, hi := [2]int{math.MaxInt32, math.MaxInt32}, [2]int{math.MinInt32, math.MinInt32}
		for j := 0; j < 3; j++ {
			for q, a := range []int{u, v} {
				x := int(t[j][a] / quant)
				p[j][q] = float64(x)
				lo[q], hi[q] = min(lo[q], x), max(hi[q], x)
			}
		}
		cr := func(a, b, c [2]float64) float64 {
			return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0])
		}
		ar := cr(p[0], p[1], p[2])
		area += math.Abs(ar) / 2
		up := ar > 0
		for x := lo[0]; x < hi[0]; x++ {
			for y := lo[1]; y < hi[1]; y++ {
				for si, s := range samples {
					q := [2]float64{float64(x) + s[0], float64(y) + s[1]}
					a, b, d := cr(p[0], p[1], q), cr(p[1], p[2], q), cr(p[2], p[0], q)
					if (a > 0 && b > 0 && d > 0) || (a < 0 && b < 0 && d < 0) {
						key := faceKey{ax, int(t[0][ax] / quant), x, y, up}
						if cover[key] == nil {
							cover[key] = &[4]int{}
						}
						cover[key][si]++
					}
				}
			}
		}
	}
	exposed = 0
	for p := range m.V {
		for ax := 0; ax < 3; ax++ {
			for _, up := range []bool{false, true} {
				q := [3]int{p.X, p.Y, p.Z}
				d := -1
				if up {
					d = 1
				}
				n := q
				n[ax] += d
				if m.V.has(P{n[0], n[1], n[2]}) {
					continue
				}
				exposed++
				plane := q[ax]
				if up {
					plane++
				}
				key := faceKey{ax, plane, q[(ax+1)%3], q[(ax+2)%3], up}
				if cv := cover[key]; cv == nil || *cv != [4]int{1, 1, 1, 1} {
					return "missing", fmt.Sprintf("the exposed face of voxel %v (axis %d, up %v) is covered %v times", p, ax, up, cv), 0
				}
				delete(cover, key)
			}
		}
	}
	for key := range cover {
		return "extra", fmt.Sprintf("the mesh covers %+v, which is no exposed face", key), 0
	}
	if math.Abs(area-float64(exposed)) > 1e-6*float64(exposed+1) {
		return "area", fmt.Sprintf("area %v, but %d exposed faces", area, exposed), 0
	}
	return "", "", exposed
}

func init() {
	register(&checkDef{id: "C11", rule: "distinct voxel models whose surface was checked for closedness and classified points (all 256 cells included)",
		run: solidCheck(func(b *binvox.BinVOX) *gl.Mesh { return b.ManifoldMesh() })})
	register(&checkDef{id: "C12", rule: "distinct voxel models whose surface was checked for closedness and classified points (all 256 cells included)",
		run: solidCheck(func(b *binvox.BinVOX) *gl.Mesh { return b.MarchingCubes() })})

	register(&checkDef{id: "C13", rule: "distinct voxel models whose boxes' faces were compared with the exposed faces", run: func(c *Ctx) {
		one := func(k *K, m *model) {
			mesh := meshOf(k.R, m, func(b *binvox.BinVOX) *gl.Mesh { return b.ToMesh() })
			key, what, exposed := checkFaces(mesh, m)
			if key != "" {
				k.Failf(key, "%s\n%v", what, m)
				return
			}
			k.Count("faces", exposed)
			k.Distinct("dim %v, %d voxels, hash %x, %d exposed faces, %d triangles", m.N, len(m.V), m.V.hash(), exposed, len(mesh.Triangles))
		}
		c.Cases("cube", 256, 8, func(k *K, i int) {
			if i > 0 {
				one(k, cubeModel(i))
			}
		})
		c.Cases("model", c.N(3000, 40000), 8, func(k *K, i int) {
			one(k, genModel(k.R, c.N(12, 16), k.R.Intn(2) == 0))
		})
		c.Cases("long", c.N(200, 1000), 8, func(k *K, i int) { one(k, genLong(k.R, []int{1500, 5000, 70000}[i%3], true)) })
		// tens and hundreds of thousands of voxels
		c.Cases("big", c.N(6, 30), 3, func(k *K, i int) {
			r := k.R
			n := 34 + r.Intn(12)
			if i%3 == 2 {
				n = 56 + r.Intn(8)
			}
			m := &model{N: P{n, n - r.Intn(4), n - r.Intn(6)}, MMPV: 0.25, T: gl.V(-7.5, 100, 0.25)}
			m.V = genVoxels(r, []string{"dense", "ellipsoid", "dense", "random"}[i%4], m.N.X, m.N.Y, m.N.Z)
			one(k, m)
			k.Count("voxels_of_big_models", len(m.V))
		})
	}})
}
