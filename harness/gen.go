package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/binvox"
)

// ---- voxel models ----------------------------------------------------------

type P struct{ X, Y, Z int }

func (p P) add(q P) P { return P{p.X + q.X, p.Y + q.Y, p.Z + q.Z} }

type vset map[P]struct{}

func (s vset) has(p P) bool { _, ok := s[p]; return ok }

func (s vset) sorted() []P {
	out := make([]P, 0, len(s))
	for p := range s {
		out = append(out, p)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.X != b.X {
			return a.X < b.X
		}
		if a.Y != b.Y {
			return a.Y < b.Y
		}
		return a.Z < b.Z
	})
	return out
}

func (s vset) hash() uint64 {
	var h uint64
	for p := range s {
		x := uint64(uint32(p.X))*0x9E3779B97F4A7C15 ^ uint64(uint32(p.Y))*0xC2B2AE3D27D4EB4F ^ uint64(uint32(p.Z))*0x165667B19E3779F9
		x ^= x >> 29
		x *= 0xBF58476D1CE4E5B9
		x ^= x >> 32
		h += x
	}
	return h
}

// diff describes the first differences between got and want ("" when equal).
func (want vset) diff(got vset) string {
	var miss, extra []P
	for p := range want {
		if !got.has(p) {
			miss = append(miss, p)
		}
	}
	for p := range got {
		if !want.has(p) {
			extra = append(extra, p)
		}
	}
	if len(miss)+len(extra) == 0 {
		return ""
	}
	show := func(l []P) string {
		s := vset{}
		for _, p := range l {
			s[p] = struct{}{}
		}
		l = s.sorted()
		if len(l) > 5 {
			return fmt.Sprintf("%v...", l[:5])
		}
		return fmt.Sprint(l)
	}
	return fmt.Sprintf("%d of %d voxels missing %s, %d unexpected %s", len(miss), len(want), show(miss), len(extra), show(extra))
}

func (s vset) String() string {
	l := s.sorted()
	if len(l) > 30 {
		return fmt.Sprintf("%v... (%d)", l[:30], len(l))
	}
	return fmt.Sprint(l)
}

// bbox returns the inclusive bounds of a non-empty set.
func (s vset) bbox() (lo, hi P) {
	first := true
	for p := range s {
		if first {
			lo, hi, first = p, p, false
			continue
		}
		lo = P{min(lo.X, p.X), min(lo.Y, p.Y), min(lo.Z, p.Z)}
		hi = P{max(hi.X, p.X), max(hi.Y, p.Y), max(hi.Z, p.Z)}
	}
	return
}

func whiteSet(m binvox.WhiteVoxelMap) vset {
	s := vset{}
	for k := range m {
		s[P{k.X, k.Y, k.Z}] = struct{}{}
	}
	return s
}

func toWhite(s vset) binvox.WhiteVoxelMap {
	m := binvox.WhiteVoxelMap{}
	for p := range s {
		m[binvox.Key{X: p.X, Y: p.Y, Z: p.Z}] = struct{}{}
	}
	return m
}

func toColor(r *rand.Rand, s vset) binvox.ColorVoxelMap {
	m := binvox.ColorVoxelMap{}
	for _, p := range s.sorted() {
		m[binvox.Key{X: p.X, Y: p.Y, Z: p.Z}] = binvox.Color{R: r.Float64(), G: r.Float64(), B: r.Float64(), A: 1}
	}
	return m
}

// setVoxels gives a model its voxels: white ones, color ones or some of both.
func setVoxels(r *rand.Rand, b *binvox.BinVOX, v vset) (how string) {
	switch r.Intn(6) {
	case 0:
		b.WhiteVoxels, b.ColorVoxels = nil, toColor(r, v)
		return "color"
	case 1:
		w, c := vset{}, vset{}
		f := r.Float64()
		for _, p := range v.sorted() {
			if r.Float64() < f {
				w[p] = struct{}{}
			} else {
				c[p] = struct{}{}
			}
		}
		b.WhiteVoxels, b.ColorVoxels = toWhite(w), toColor(r, c)
		return fmt.Sprintf("white %v and color %v", w, c)
	}
	b.WhiteVoxels = toWhite(v)
	return "white"
}

var voxelKinds = []string{"random", "dense", "sparse", "full", "box", "hollow", "checker", "slabs", "single", "ellipsoid", "bars", "corners", "diagonal", "plane"}

// genVoxels fills a subset of the nx*ny*nz grid.
func genVoxels(r *rand.Rand, kind string, nx, ny, nz int) vset {
	s := vset{}
	set := func(x, y, z int) {
		if x >= 0 && y >= 0 && z >= 0 && x < nx && y < ny && z < nz {
			s[P{x, y, z}] = struct{}{}
		}
	}
	each := func(f func(x, y, z int) bool) {
		for x := 0; x < nx; x++ {
			for z := 0; z < nz; z++ {
				for y := 0; y < ny; y++ {
					if f(x, y, z) {
						set(x, y, z)
					}
				}
			}
		}
	}
	rg := func(n int) (int, int) {
		a, b := r.Intn(n), r.Intn(n)
		if a > b {
			a, b = b, a
		}
		return a, b
	}
	switch kind {
	case "random":
		d := r.Float64()
		each(func(x, y, z int) bool { return r.Float64() < d })
	case "dense":
		each(func(x, y, z int) bool { return r.Float64() < 0.93 })
	case "sparse":
		each(func(x, y, z int) bool { return r.Float64() < 0.03 })
	case "full":
		each(func(x, y, z int) bool { return true })
	case "box", "hollow":
		x0, x1 := rg(nx)
		y0, y1 := rg(ny)
		z0, z1 := rg(nz)
		each(func(x, y, z int) bool {
			in := x >= x0 && x <= x1 && y >= y0 && y <= y1 && z >= z0 && z <= z1
			if kind == "hollow" && x > x0 && x < x1 && y > y0 && y < y1 && z > z0 && z < z1 {
				in = false
			}
			return in
		})
	case "checker":
		o := r.Intn(2)
		each(func(x, y, z int) bool { return (x+y+z+o)%2 == 0 })
	case "slabs":
		m := 2 + r.Intn(3)
		ax := r.Intn(3)
		each(func(x, y, z int) bool { return [3]int{x, y, z}[ax]%m == 0 })
	case "single":
		set(r.Intn(nx), r.Intn(ny), r.Intn(nz))
	case "ellipsoid":
		each(func(x, y, z int) bool {
			fx, fy, fz := (float64(x)+.5)/float64(nx)*2-1, (float64(y)+.5)/float64(ny)*2-1, (float64(z)+.5)/float64(nz)*2-1
			return fx*fx+fy*fy+fz*fz <= 1
		})
	case "bars":
		for i := 0; i < 4; i++ {
			x, y, z := r.Intn(nx), r.Intn(ny), r.Intn(nz)
			switch r.Intn(3) {
			case 0:
				for x = 0; x < nx; x++ {
					set(x, y, z)
				}
			case 1:
				for y = 0; y < ny; y++ {
					set(x, y, z)
				}
			default:
				for z = 0; z < nz; z++ {
					set(x, y, z)
				}
			}
		}
	case "corners":
		for i := 0; i < 8; i++ {
			if r.Intn(4) > 0 {
				set((nx-1)*(i&1), (ny-1)*(i>>1&1), (nz-1)*(i>>2&1))
			}
		}
	case "diagonal":
		n := max(nx, ny, nz)
		for i := 0; i < n; i++ {
			set(i*nx/n, i*ny/n, i*nz/n)
		}
	case "plane":
		a, b, c := r.NormFloat64(), r.NormFloat64(), r.NormFloat64()
		each(func(x, y, z int) bool {
			return a*(float64(x)-float64(nx)/2)+b*(float64(y)-float64(ny)/2)+c*(float64(z)-float64(nz)/2) > 0
		})
	}
	return s
}

func genDims(r *rand.Rand, maxDim int) (int, int, int) {
	switch r.Intn(5) {
	case 0:
		n := 1 + r.Intn(maxDim)
		return n, n, n
	case 1: // long
		d := []int{1 + r.Intn(3), 1 + r.Intn(3), 1 + r.Intn(3)}
		d[r.Intn(3)] = 1 + r.Intn(maxDim*3)
		return d[0], d[1], d[2]
	default:
		return 1 + r.Intn(maxDim), 1 + r.Intn(maxDim), 1 + r.Intn(maxDim)
	}
}

// genPlacement returns a translation and a number of millimetres per voxel.
// Dyadic values make the world coordinates exact.
func genPlacement(r *rand.Rand, dyadic bool) (tx, ty, tz, mmpv float64) {
	if r.Intn(4) == 0 { // extremely fine and coarse models
		mmpv = math.Exp(r.Float64()*18 - 12)
		if dyadic {
			mmpv = math.Ldexp(1, r.Intn(26)-18)
		}
		f := func() float64 { return float64(r.Intn(4001)-2000) * mmpv }
		if !dyadic {
			f = func() float64 { return r.NormFloat64() * 1e4 * mmpv }
		}
		return f(), f(), f(), mmpv
	}
	if dyadic {
		mmpv = math.Ldexp(1, r.Intn(7)-4)
		f := func() float64 { return float64(r.Intn(401)-200) * 0.25 }
		return f(), f(), f(), mmpv
	}
	mmpv = math.Exp(r.Float64()*6 - 4)
	f := func() float64 {
		switch r.Intn(4) {
		case 0:
			return 0
		case 1:
			return -r.Float64() * 100
		case 2:
			return r.NormFloat64() * 1e4
		}
		return r.Float64() * 10
	}
	return f(), f(), f(), mmpv
}

type model struct {
	N    P
	T    gl.Vector
	MMPV float64
	V    vset
	Tol  float64 // tolerance of vertices, in voxels
}

func (m *model) scale() float64 { return float64(max(m.N.X, m.N.Y, m.N.Z)) * m.MMPV }

func (m *model) bv() *binvox.BinVOX {
	return &binvox.BinVOX{NX: m.N.X, NY: m.N.Y, NZ: m.N.Z, TX: m.T.X, TY: m.T.Y, TZ: m.T.Z, Scale: m.scale(), WhiteVoxels: toWhite(m.V)}
}

func (m *model) String() string {
	return fmt.Sprintf("model n=%v t=%v mm/voxel=%v %d voxels %v", m.N, m.T, m.MMPV, len(m.V), m.V)
}

// genModel makes a non-empty model.
func genModel(r *rand.Rand, maxDim int, dyadic bool) *model {
	for {
		nx, ny, nz := genDims(r, maxDim)
		kind := voxelKinds[r.Intn(len(voxelKinds))]
		m := &model{N: P{nx, ny, nz}, V: genVoxels(r, kind, nx, ny, nz)}
		m.T.X, m.T.Y, m.T.Z, m.MMPV = genPlacement(r, dyadic)
		if len(m.V) > 0 {
			return m
		}
	}
}

// ---- meshes ------------------------------------------------------------------

func tri(a, b, c gl.Vector) *gl.Triangle { return gl.NewTriangleForPoints(a, b, c) }

func quad(a, b, c, d gl.Vector) []*gl.Triangle {
	return []*gl.Triangle{tri(a, b, c), tri(a, c, d)}
}

// boxTris returns the outward oriented surface of a box.
func boxTris(lo, hi gl.Vector) []*gl.Triangle {
	p := func(i int) gl.Vector {
		v := lo
		if i&1 != 0 {
			v.X = hi.X
		}
		if i&2 != 0 {
			v.Y = hi.Y
		}
		if i&4 != 0 {
			v.Z = hi.Z
		}
		return v
	}
	var t []*gl.Triangle
	t = append(t, quad(p(0), p(2), p(3), p(1))...) // -z
	t = append(t, quad(p(4), p(5), p(7), p(6))...) // +z
	t = append(t, quad(p(0), p(1), p(5), p(4))...) // -y
	t = append(t, quad(p(2), p(6), p(7), p(3))...) // +y
	t = append(t, quad(p(0), p(4), p(6), p(2))...) // -x
	t = append(t, quad(p(1), p(3), p(7), p(5))...) // +x
	return t
}

// fineBox is a box whose faces have 2*n*n triangles each.
func fineBox(lo, hi gl.Vector, n int) []*gl.Triangle {
	var ts []*gl.Triangle
	d := hi.Sub(lo)
	at := func(p [3]int) gl.Vector {
		f := func(l, d float64, i int) float64 {
			if i == n {
				return l + d
			}
			return l + d*float64(i)/float64(n)
		}
		return gl.V(f(lo.X, d.X, p[0]), f(lo.Y, d.Y, p[1]), f(lo.Z, d.Z, p[2]))
	}
	for ax := 0; ax < 3; ax++ {
		u, v := (ax+1)%3, (ax+2)%3
		for side := 0; side <= n; side += n {
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					var c [4]gl.Vector
					for q, o := range [4][2]int{{0, 0}, {1, 0}, {1, 1}, {0, 1}} {
						var p [3]int
						p[ax], p[u], p[v] = side, i+o[0], j+o[1]
						c[q] = at(p)
					}
					if side == 0 {
						c[1], c[3] = c[3], c[1]
					}
					ts = append(ts, quad(c[0], c[1], c[2], c[3])...)
				}
			}
		}
	}
	return ts
}

func flip(ts []*gl.Triangle) []*gl.Triangle {
	var out []*gl.Triangle
	for _, t := range ts {
		out = append(out, tri(t.V1.Position, t.V3.Position, t.V2.Position))
	}
	return out
}

// hull returns the convex hull of a few points, nil when it is degenerate or
// has faces of more than three points.
func hull(pts []gl.Vector) []*gl.Triangle {
	var ts []*gl.Triangle
	n := len(pts)
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			for k := j + 1; k < n; k++ {
				a, b, c := pts[i], pts[j], pts[k]
				nn := b.Sub(a).Cross(c.Sub(a))
				if nn.Length() < 1e-9 {
					return nil
				}
				pos, neg := 0, 0
				for l := 0; l < n; l++ {
					if l == i || l == j || l == k {
						continue
					}
					d := nn.Dot(pts[l].Sub(a))
					if math.Abs(d) < 1e-7 {
						pos++
						neg++
					} else if d > 0 {
						pos++
					} else {
						neg++
					}
				}
				if pos > 0 && neg > 0 {
					continue
				}
				if pos > 0 {
					b, c = c, b
				}
				ts = append(ts, tri(a, b, c))
			}
		}
	}
	lm := toLattice(gl.NewTriangleMesh(ts), 0, 0, 0, 1)
	if len(ts) < 4 || lm.boundary() != "" {
		return nil
	}
	return ts
}

func transformTris(ts []*gl.Triangle, f func(gl.Vector) gl.Vector) []*gl.Triangle {
	var out []*gl.Triangle
	for _, t := range ts {
		out = append(out, tri(f(t.V1.Position), f(t.V2.Position), f(t.V3.Position)))
	}
	return out
}

func shuffleTris(r *rand.Rand, ts []*gl.Triangle) []*gl.Triangle {
	out := append([]*gl.Triangle(nil), ts...)
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	for i, t := range out {
		a, b, c := t.V1.Position, t.V2.Position, t.V3.Position
		switch r.Intn(3) {
		case 1:
			out[i] = tri(b, c, a)
		case 2:
			out[i] = tri(c, a, b)
		}
	}
	return out
}

func indent(s string) string { return strings.ReplaceAll(s, "\n", "\n  ") }

// genLong makes a sparse model in a grid that is very long along one axis. It
// has clusters of voxels whose distances are powers of two or of ten, so that
// coordinates that lose a part of their bits are confused.
func genLong(r *rand.Rand, maxLen int, dyadic bool) *model {
	ax := r.Intn(3)
	n := 300 + r.Intn(maxLen-299)
	d := [3]int{1 + r.Intn(4), 1 + r.Intn(4), 1 + r.Intn(4)}
	d[ax] = n
	m := &model{N: P{d[0], d[1], d[2]}, V: vset{}}
	m.T.X, m.T.Y, m.T.Z, m.MMPV = genPlacement(r, dyadic)
	steps := []int{100, 128, 255, 256, 257, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65535, 65536}
	cluster := func(at int) {
		for i := 0; i < 1+r.Intn(14); i++ {
			q := [3]int{r.Intn(d[0]), r.Intn(d[1]), r.Intn(d[2])}
			if q[ax] = at + r.Intn(4); q[ax] >= 0 && q[ax] < n {
				m.V[P{q[0], q[1], q[2]}] = struct{}{}
			}
		}
	}
	for i := 0; i < 3; i++ {
		at := r.Intn(n)
		cluster(at)
		for j := 0; j < 3; j++ {
			cluster(at + steps[r.Intn(len(steps))])
		}
	}
	cluster(n - 1)
	if len(m.V) == 0 {
		m.V[P{d[0] - 1, d[1] - 1, d[2] - 1}] = struct{}{}
	}
	return m
}

// genBig makes a model of up to a hundred thousand voxels that is exact in an STL file.
func genBig(r *rand.Rand, maxDim int) *model {
	n := maxDim*2/3 + r.Intn(maxDim/3+1)
	m := &model{N: P{n - r.Intn(5), n - r.Intn(5), n - r.Intn(5)}, MMPV: math.Ldexp(1, r.Intn(7)-4)}
	m.T = gl.V(float64(r.Intn(401)-200), float64(r.Intn(401)-200), float64(r.Intn(401)-200)).MulScalar(.25)
	m.V = genVoxels(r, []string{"dense", "ellipsoid", "random", "hollow"}[r.Intn(4)], m.N.X, m.N.Y, m.N.Z)
	m.V[P{r.Intn(m.N.X), r.Intn(m.N.Y), r.Intn(m.N.Z)}] = struct{}{}
	return m
}

// genBlock makes a block of more than 2^16 voxels in a row, with a few holes.
func genBlock(r *rand.Rand) *model {
	m := &model{N: P{30 + r.Intn(40), 30 + r.Intn(40), 0}, MMPV: math.Ldexp(1, r.Intn(7)-4), V: vset{}}
	m.N.Z = (70000+r.Intn(130000))/(m.N.X*m.N.Y) + 1
	if r.Intn(2) == 0 {
		m.N.X, m.N.Z = m.N.Z, m.N.X
	}
	m.T = gl.V(float64(r.Intn(401)-200), float64(r.Intn(401)-200), float64(r.Intn(401)-200)).MulScalar(.25)
	for x := 0; x < m.N.X; x++ {
		for y := 0; y < m.N.Y; y++ {
			for z := 0; z < m.N.Z; z++ {
				m.V[P{x, y, z}] = struct{}{}
			}
		}
	}
	for n := r.Intn(3); n > 0; n-- {
		delete(m.V, P{r.Intn(m.N.X), r.Intn(m.N.Y), r.Intn(m.N.Z)})
	}
	return m
}

// oddName makes a file name that a shell, a pattern or a format may take apart.
func oddName(r *rand.Rand, name string) string {
	odd := []string{" ", "  ", "%d", "%v", "100%", "'", "\"", "[1]", "(2)", "&", ";", "$HOME", "`x`", "*", "?", "#", "!", "{a,b}", "\\", "<", ">", "|", "~", "é", "=", "\\n", ".."}
	for n := 1 + r.Intn(3); n > 0; n-- {
		i := 1 + r.Intn(len(name))
		name = name[:i] + odd[r.Intn(len(odd))] + name[i:]
	}
	return strings.ToValidUTF8(name, "u")
}
