package main

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"sync"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/binvox"
)

// ---- solids -------------------------------------------------------------------

type solid struct {
	name string
	tris []*gl.Triangle
}

func randVec(r *rand.Rand, s float64) gl.Vector {
	return gl.V((r.Float64()*2-1)*s, (r.Float64()*2-1)*s, (r.Float64()*2-1)*s)
}

func randRot(r *rand.Rand) func(gl.Vector) gl.Vector {
	m := gl.Rotate(randVec(r, 1).Add(gl.V(.01, .02, .03)).Normalize(), r.Float64()*2*math.Pi)
	return func(v gl.Vector) gl.Vector { return m.MulPosition(v) }
}

func genHull(r *rand.Rand, size float64, snap float64) []*gl.Triangle {
	for {
		n := 4 + r.Intn(6)
		var pts []gl.Vector
		sc := gl.V(.3+r.Float64(), .3+r.Float64(), .3+r.Float64())
		if r.Intn(3) == 0 {
			sc.Z *= .25 // flat: shallow slopes
		}
		for i := 0; i < n; i++ {
			p := randVec(r, size).Mul(sc)
			if snap > 0 {
				f := func(x float64) float64 { return math.Round(x/snap) * snap }
				p = gl.V(f(p.X), f(p.Y), f(p.Z))
			}
			pts = append(pts, p)
		}
		if h := hull(pts); h != nil {
			return h
		}
	}
}

// prism extrudes a simple (also concave) star-shaped polygon.
func prism(r *rand.Rand, size float64) []*gl.Triangle {
	n := 5 + r.Intn(6)
	z0, z1 := -size*r.Float64(), size*(.2+r.Float64())
	var p []gl.Vector
	for i := 0; i < n; i++ {
		a := (float64(i) + .6*r.Float64()) / float64(n) * 2 * math.Pi
		d := size * (.25 + .75*r.Float64())
		p = append(p, gl.V(d*math.Cos(a), d*math.Sin(a), 0))
	}
	var ts []*gl.Triangle
	for i := range p {
		a, b := p[i], p[(i+1)%n]
		a0, a1 := gl.V(a.X, a.Y, z0), gl.V(a.X, a.Y, z1)
		b0, b1 := gl.V(b.X, b.Y, z0), gl.V(b.X, b.Y, z1)
		ts = append(ts, quad(a0, b0, b1, a1)...)
		ts = append(ts, tri(gl.V(0, 0, z1), a1, b1), tri(gl.V(0, 0, z0), b0, a0))
	}
	return ts
}

func torus(r *rand.Rand, size float64) []*gl.Triangle {
	nu, nv := 8+r.Intn(8), 6+r.Intn(5)
	R, q := size*.65, size*(.12+.2*r.Float64())
	p := func(i, j int) gl.Vector {
		u, v := float64(i%nu)/float64(nu)*2*math.Pi, float64(j%nv)/float64(nv)*2*math.Pi
		return gl.V((R+q*math.Cos(v))*math.Cos(u), (R+q*math.Cos(v))*math.Sin(u), q*math.Sin(v))
	}
	var ts []*gl.Triangle
	for i := 0; i < nu; i++ {
		for j := 0; j < nv; j++ {
			ts = append(ts, quad(p(i, j), p(i+1, j), p(i+1, j+1), p(i, j+1))...)
		}
	}
	return ts
}

func subdivide(ts []*gl.Triangle) []*gl.Triangle {
	var out []*gl.Triangle
	for _, t := range ts {
		a, b, c := t.V1.Position, t.V2.Position, t.V3.Position
		ab, bc, ca := a.Lerp(b, .5), b.Lerp(c, .5), c.Lerp(a, .5)
		out = append(out, tri(a, ab, ca), tri(ab, b, bc), tri(ca, bc, c), tri(ab, bc, ca))
	}
	return out
}

func genSolid(r *rand.Rand, kind int, size float64) solid {
	s := solid{}
	switch kind {
	case 0, 1:
		s = solid{"polytope", genHull(r, size, 0)}
	case 2:
		s = solid{"polytope on half voxels", genHull(r, size, .5)}
	case 3:
		s = solid{"box", boxTris(randVec(r, size).Sub(gl.V(1, 1, 1)), gl.V(0, 0, 0).Add(randVec(r, size).Mul(gl.V(.5, .5, .5))))}
		lo, hi := randVec(r, size), randVec(r, size)
		s.tris = boxTris(lo.Min(hi), lo.Max(hi).Add(gl.V(.7, .7, .7)))
	case 4:
		s = solid{"rotated box", transformTris(boxTris(gl.V(-size*.6, -size*.3, -size*.4), gl.V(size*.6, size*.3, size*.4)), randRot(r))}
	case 5:
		s = solid{"concave prism", prism(r, size)}
		if r.Intn(2) == 0 {
			s.tris = transformTris(s.tris, randRot(r))
			s.name = "rotated concave prism"
		}
	case 6:
		s = solid{"torus", transformTris(torus(r, size), randRot(r))}
	case 7:
		outer := transformTris(boxTris(gl.V(-size*.8, -size*.8, -size*.8), gl.V(size*.8, size*.8, size*.8)), randRot(r))
		inner := genHull(r, size*.4, 0)
		s = solid{"solid with a cavity", append(outer, flip(inner)...)}
	case 8:
		s = solid{"two bodies", append(transformTris(genHull(r, size*.5, 0), func(v gl.Vector) gl.Vector { return v.Add(gl.V(size*.5, 0, 0)) }),
			transformTris(genHull(r, size*.5, 0), func(v gl.Vector) gl.Vector { return v.Sub(gl.V(size*.6, size*.2, 0)) })...)}
	case 9:
		a, b := genHull(r, size*.8, 0), genHull(r, size*.8, 0)
		s = solid{"overlapping bodies", append(a, b...)}
	default:
		s = solid{"subdivided polytope", subdivide(genHull(r, size, 0))}
	}
	s.tris = shuffleTris(r, s.tris)
	return s
}

const solidKinds = 11

// ---- reference --------------------------------------------------------------

// slicer classifies points of horizontal planes against the surface, in voxel units.
type slicer struct {
	lm   *latticeMesh
	segs [][2]gl.Vector
	thru []bool // the triangle of the segment goes through the plane
	flat bool   // part of the surface lies in the plane
	// fuzzy: rounding decides in which voxel a corner of the outline is, or
	// whether a center is inside, so that it can depend on the origin
	fuzzy bool
}

func tie(x float64) bool { return math.Abs(2*x-math.Round(2*x)) < 1e-8 }

func (s *slicer) at(z float64) {
	s.segs, s.thru, s.flat, s.fuzzy = nil, nil, false, false
	for _, t := range s.lm.ftri {
		lo := math.Min(t[0].Z, math.Min(t[1].Z, t[2].Z))
		hi := math.Max(t[0].Z, math.Max(t[1].Z, t[2].Z))
		if z < lo-1e-9 || z > hi+1e-9 {
			continue
		}
		if hi-lo < 1e-6 {
			s.flat = true
			continue
		}
		var pts []gl.Vector
		var exact []bool // the coordinates of the point are not subject to rounding
		for i := 0; i < 3; i++ {
			a, b := t[i], t[(i+1)%3]
			if math.Abs(a.Z-z) < 1e-9 {
				pts = append(pts, a)
				exact = append(exact, a.Z == z)
			}
			if (a.Z < z) != (b.Z < z) {
				f := (z - a.Z) / (b.Z - a.Z)
				p := a.Lerp(b, f)
				e := f*(1<<20) == math.Round(f*(1<<20))
				if !e && (a.X != b.X && tie(p.X) || a.Y != b.Y && tie(p.Y)) {
					s.fuzzy = true
				}
				pts = append(pts, p)
				exact = append(exact, e)
			}
		}
		for i := range pts {
			for j := i; j < len(pts); j++ {
				if a, b := pts[i], pts[j]; a.X != b.X && !(exact[i] && exact[j]) && a.Y != b.Y && !s.fuzzy {
					for y := math.Floor(math.Min(a.Y, b.Y)) - .5; y <= math.Max(a.Y, b.Y)+1 && y < math.Min(a.Y, b.Y)+1000; y++ {
						if tie(a.X + (b.X-a.X)*(y-a.Y)/(b.Y-a.Y)) {
							s.fuzzy = true
						}
					}
				}
				s.segs = append(s.segs, [2]gl.Vector{pts[i], pts[j]})
				s.thru = append(s.thru, lo < z-1e-6 && hi > z+1e-6)
			}
		}
	}
}

func segDist(p, a, b gl.Vector) float64 {
	dx, dy := b.X-a.X, b.Y-a.Y
	t := 0.0
	if l := dx*dx + dy*dy; l > 0 {
		t = math.Max(0, math.Min(1, ((p.X-a.X)*dx+(p.Y-a.Y)*dy)/l))
	}
	return math.Hypot(p.X-a.X-t*dx, p.Y-a.Y-t*dy)
}

func (s *slicer) dist(p gl.Vector) float64 {
	d := math.Inf(1)
	for _, g := range s.segs {
		d = math.Min(d, segDist(p, g[0], g[1]))
	}
	return d
}

const voxelTol = 1.5

// judgeVoxels compares a voxelization with the solid.
func judgeVoxels(k *K, got vset, n P, lm *latticeMesh, ctx func() string) (inside, corners int) {
	s := &slicer{lm: lm}
	for z := 0; z < n.Z; z++ {
		zc := float64(z) + .5
		s.at(zc)
		if s.flat { // a face in the plane itself: either answer is fine
			continue
		}
		for x := 0; x < n.X; x++ {
			for y := 0; y < n.Y; y++ {
				p := gl.V(float64(x)+.5, float64(y)+.5, zc)
				d := s.dist(p)
				if d <= voxelTol {
					continue
				}
				in := len(s.segs) > 0 && lm.winding(p) > .5
				if in {
					inside++
				}
				if in != got.has(P{x, y, z}) {
					k.Failf(map[bool]string{true: "missing", false: "outside"}[in], "voxel (%d,%d,%d) is occupied: %v, but its center is %.2f voxels %s\n%s",
						x, y, z, !in, d, map[bool]string{true: "inside of the solid", false: "outside of the solid"}[in], ctx())
					return
				}
			}
		}
		// the outline never vanishes: its corners are occupied
		for i, g := range s.segs {
			if !s.thru[i] { // only touches the plane
				continue
			}
			for _, v := range g {
				fx, fy := math.Floor(v.X), math.Floor(v.Y)
				if v.X-fx < 1e-6 || fx+1-v.X < 1e-6 || v.Y-fy < 1e-6 || fy+1-v.Y < 1e-6 {
					continue
				}
				q := P{int(fx), int(fy), z}
				if q.X < 0 || q.Y < 0 || q.X >= n.X || q.Y >= n.Y {
					continue
				}
				corners++
				if !got.has(q) {
					k.Failf("corner", "voxel %v is empty, but the outline of the solid has a corner in it, at (%v,%v)\n%s", q, v.X, v.Y, ctx())
					return
				}
			}
		}
	}
	return
}

func trisText(ts []*gl.Triangle) string {
	s := ""
	for i, t := range ts {
		if i == 40 {
			return s + "..."
		}
		s += fmt.Sprintf("\n  %v %v %v", t.V1.Position, t.V2.Position, t.V3.Position)
	}
	return s
}

// leftovers returns voxels within and outside of a region, from before it is voxelized.
func leftovers(r *rand.Rand, n P) binvox.WhiteVoxelMap {
	m := binvox.WhiteVoxelMap{{X: 0, Y: 0, Z: 0}: {}, {X: 999, Y: -5, Z: 1}: {}, {X: n.X - 1, Y: n.Y - 1, Z: n.Z - 1}: {}}
	for i := r.Intn(40); i > 0; i-- {
		m[binvox.Key{X: r.Intn(n.X+2) - 1, Y: r.Intn(n.Y+2) - 1, Z: r.Intn(n.Z+2) - 1}] = struct{}{}
	}
	return m
}

func newRegion(n P, t gl.Vector, mmpv float64) *binvox.BinVOX {
	return binvox.New(n.X, n.Y, n.Z, t.X, t.Y, t.Z, float64(max(n.X, n.Y, n.Z))*mmpv, false)
}

func init() {
	register(&checkDef{id: "C09", rule: "distinct (solid, region, resolution) voxelized and compared with the solid", run: func(c *Ctx) {
		c.Cases("solid", c.N(12000, 60000), 8, func(k *K, i int) {
			r := k.R
			size := 3 + r.Float64()*9 // in voxels
			s := genSolid(r, i%solidKinds, size)
			_, _, _, mmpv := genPlacement(r, r.Intn(2) == 0)
			// the region's origin in voxels: it contains all or a part of the solid
			o := gl.V(-size-2, -size-2, -size-2)
			n := P{int(2*size) + 5, int(2*size) + 5, int(2*size) + 5}
			if r.Intn(2) == 0 {
				o = o.Add(gl.V(r.Float64()*size, r.Float64()*size, r.Float64()*size))
				n = P{1 + r.Intn(n.X), 1 + r.Intn(n.Y), 1 + r.Intn(n.Z)}
			}
			if r.Intn(2) == 0 { // vertices on planes between and through the middle of voxels
				o = gl.V(math.Round(o.X*2)/2, math.Round(o.Y*2)/2, math.Round(o.Z*2)/2)
			}
			world := gl.V(0, 0, 0)
			if r.Intn(2) == 0 {
				world = gl.V(float64(r.Intn(200)-100), float64(r.Intn(200)-100), float64(r.Intn(200)-100))
			}
			ts := transformTris(s.tris, func(v gl.Vector) gl.Vector { return v.MulScalar(mmpv).Add(world) })
			t := o.MulScalar(mmpv).Add(world)
			mesh := gl.NewTriangleMesh(ts)
			b := newRegion(n, t, mmpv)
			ctx := func() string {
				return fmt.Sprintf("%s, region n=%v t=%v mm/voxel=%v%s", s.name, n, t, mmpv, trisText(ts))
			}
			if err := b.Voxelize(mesh); err != nil {
				k.Failf("error", "Voxelize: %v\n%s", err, ctx())
				return
			}
			got := whiteSet(b.WhiteVoxels)
			lm := toLattice(mesh, t.X, t.Y, t.Z, mmpv)
			inside, corners := judgeVoxels(k, got, n, lm, ctx)
			k.Count("voxels_inside", inside)
			k.Count("outline_corners", corners)
			k.Count("kind_"+s.name, 1)
			if len(got) > 0 {
				k.Distinct("%s, n=%v, %d voxels, hash %x, %d well inside, %d corners", s.name, n, len(got), got.hash(), inside, corners)
			}
		})
		c.Cases("large", c.N(64, 600), 8, func(k *K, i int) {
			r := k.R
			s := genSolid(r, r.Intn(solidKinds), 4+r.Float64()*8)
			_, _, _, mmpv := genPlacement(r, r.Intn(2) == 0)
			st := gl.V(1, 1, 1)
			switch i % 4 {
			case 0:
				st.X = 10 + r.Float64()*60
			case 1:
				st.Y = 10 + r.Float64()*60
			case 2:
				st.Z = 10 + r.Float64()*60
			case 3:
				st = gl.V(1, 1, 1).MulScalar(3 + r.Float64()*3)
			}
			ts := transformTris(s.tris, func(v gl.Vector) gl.Vector { return v.Mul(st).MulScalar(mmpv) })
			lo, hi := bounds(ts)
			e := hi.Sub(lo).DivScalar(mmpv)
			t := lo.Sub(gl.V(1, 1, 1).Add(randVec(r, 1)).MulScalar(mmpv))
			n := P{int(e.X) + 4, int(e.Y) + 4, int(e.Z) + 4}
			if r.Intn(3) == 0 { // a part of it
				f := gl.V(r.Float64(), r.Float64(), r.Float64()).MulScalar(.5)
				t = t.Add(e.Mul(f).MulScalar(mmpv))
				n = P{1 + int(float64(n.X)*(1-f.X)), 1 + int(float64(n.Y)*(1-f.Y)), 1 + int(float64(n.Z)*(1-f.Z))}
			}
			mesh := gl.NewTriangleMesh(ts)
			b := newRegion(n, t, mmpv)
			ctx := func() string {
				return fmt.Sprintf("%s, region n=%v t=%v mm/voxel=%v%s", s.name, n, t, mmpv, trisText(ts))
			}
			if err := b.Voxelize(mesh); err != nil {
				k.Failf("error", "Voxelize: %v\n%s", err, ctx())
				return
			}
			got := whiteSet(b.WhiteVoxels)
			inside, corners := judgeVoxels(k, got, n, toLattice(mesh, t.X, t.Y, t.Z, mmpv), ctx)
			k.Count("voxels_inside", inside)
			k.Count("outline_corners", corners)
			k.Count("large_regions", 1)
			if len(got) > 0 {
				k.Distinct("%s, n=%v, %d voxels, hash %x, %d well inside, %d corners", s.name, n, len(got), got.hash(), inside, corners)
			}
		})
		// an axis-parallel box: exactly the voxels it overlaps at their height
		c.Cases("box", c.N(4500, 20000), 8, func(k *K, i int) {
			r := k.R
			_, _, _, mmpv := genPlacement(r, r.Intn(2) == 0)
			n := P{1 + r.Intn(14), 1 + r.Intn(14), 1 + r.Intn(14)}
			ends := func(n int) (float64, float64) {
				f := func() float64 {
					x := r.Float64()*float64(n+6) - 3
					// no ties: not on a border and not on a center
					fr := x*2 - math.Floor(x*2)
					if fr < .05 || fr > .95 {
						x += .06
					}
					return x
				}
				for {
					a, b := f(), f()
					if a > b {
						a, b = b, a
					}
					if b-a > .02 {
						return a, b
					}
				}
			}
			x0, x1 := ends(n.X)
			y0, y1 := ends(n.Y)
			z0, z1 := ends(n.Z)
			t := randVec(r, 50)
			f := func(v gl.Vector) gl.Vector { return v.MulScalar(mmpv).Add(t) }
			ts := shuffleTris(r, boxTris(f(gl.V(x0, y0, z0)), f(gl.V(x1, y1, z1))))
			b := newRegion(n, t, mmpv)
			if err := b.Voxelize(gl.NewTriangleMesh(ts)); err != nil {
				k.Failf("error", "Voxelize: %v", err)
				return
			}
			want := vset{}
			for x := 0; x < n.X; x++ {
				for y := 0; y < n.Y; y++ {
					for z := 0; z < n.Z; z++ {
						if float64(x)+1 > x0 && float64(x) < x1 && float64(y)+1 > y0 && float64(y) < y1 && float64(z)+.5 > z0 && float64(z)+.5 < z1 {
							want[P{x, y, z}] = struct{}{}
						}
					}
				}
			}
			if d := want.diff(whiteSet(b.WhiteVoxels)); d != "" {
				k.Failf("box", "box (%v,%v,%v)-(%v,%v,%v) voxels in a region of %v: %s\nmm/voxel=%v t=%v", x0, y0, z0, x1, y1, z1, n, d, mmpv, t)
			}
			if len(want) > 0 {
				k.Distinct("box in %v: %d voxels, hash %x", n, len(want), want.hash())
			}
		})
	}})

	register(&checkDef{id: "C10", race: true, rule: "distinct (solid, tiling or schedule) whose voxelizations were compared with each other, under the race detector", run: func(c *Ctx) {
		c.Cases("tiles", c.N(600, 2500), 4, func(k *K, i int) {
			r := k.R
			size := 3 + r.Float64()*5
			s := genSolid(r, i%solidKinds, size)
			mmpv := math.Ldexp(1, r.Intn(7)-4)
			n := P{4 + r.Intn(14), 4 + r.Intn(14), 4 + r.Intn(14)}
			o := gl.V(float64(-r.Intn(n.X)), float64(-r.Intn(n.Y)), float64(-r.Intn(n.Z)))
			st, rare := gl.V(1, 1, 1), 4
			if i%8 == 5 { // long in one direction
				f := 5 + r.Float64()*25
				rare = 30
				switch r.Intn(3) {
				case 0:
					st.X, o.X, n.X = f, math.Round(o.X*f), int(float64(n.X)*f)
				case 1:
					st.Y, o.Y, n.Y = f, math.Round(o.Y*f), int(float64(n.Y)*f)
				case 2:
					st.Z, o.Z, n.Z = f, math.Round(o.Z*f), int(float64(n.Z)*f)
				}
				k.Count("long_models", 1)
			}
			ts := transformTris(s.tris, func(v gl.Vector) gl.Vector {
				g := func(x float64) float64 { return math.Round(x*(1<<20)) / (1 << 20) * mmpv }
				return gl.V(g(v.X*st.X), g(v.Y*st.Y), g(v.Z*st.Z))
			})
			mesh := gl.NewTriangleMesh(ts)
			snap := trisText(ts)
			ctx := fmt.Sprintf("%s, region n=%v origin %v voxels, mm/voxel=%v%s", s.name, n, o, mmpv, snap)
			vox := func(o gl.Vector, n P) (vset, bool) {
				b := newRegion(n, o.MulScalar(mmpv), mmpv)
				if r.Intn(2) == 0 { // what was there is overwritten
					b.WhiteVoxels = leftovers(r, n)
				}
				if err := b.Voxelize(mesh); err != nil {
					k.Failf("error", "Voxelize: %v\n%s", err, ctx)
					return nil, false
				}
				g := whiteSet(b.WhiteVoxels)
				for p := range g {
					if p.X < 0 || p.Y < 0 || p.Z < 0 || p.X >= n.X || p.Y >= n.Y || p.Z >= n.Z {
						k.Failf("outside", "voxel %v is outside of the region of %v voxels at %v\n%s", p, n, o, ctx)
						return nil, false
					}
				}
				if b.NX != n.X || b.NY != n.Y || b.NZ != n.Z || b.TX != o.X*mmpv || b.TY != o.Y*mmpv || b.TZ != o.Z*mmpv {
					k.Failf("region-changed", "Voxelize changed the region to %v\n%s", b, ctx)
				}
				return g, true
			}
			whole, ok := vox(o, n)
			if !ok {
				return
			}
			// the same, from other schedules
			procs := runtime.GOMAXPROCS(0)
			for j := 0; j < 2; j++ {
				if again, ok := vox(o, n); ok {
					if d := whole.diff(again); d != "" {
						k.Failf("schedule", "voxelizing again: %s\n%s", d, ctx)
					}
				}
			}
			// all tiles of a random tiling
			sl := &slicer{lm: toLattice(mesh, o.X*mmpv, o.Y*mmpv, o.Z*mmpv, mmpv)}
			fuzzy := map[int]bool{}
			for z := 0; z < n.Z; z++ {
				if sl.at(float64(z) + .5); sl.fuzzy {
					fuzzy[z] = true
					k.Count("slices_decided_by_rounding", 1)
				}
			}
			cuts := func(n int) []int {
				l := []int{0}
				for x := 1; x < n; x++ {
					if r.Intn(rare) == 0 {
						l = append(l, x)
					}
				}
				return append(l, n)
			}
			cx, cy, cz := cuts(n.X), cuts(n.Y), cuts(n.Z)
			tiles := 0
			for a := 0; a+1 < len(cx); a++ {
				for b := 0; b+1 < len(cy); b++ {
					for d := 0; d+1 < len(cz); d++ {
						if tiles++; tiles > 60 {
							continue
						}
						to := P{cx[a], cy[b], cz[d]}
						g, ok := vox(o.Add(gl.V(float64(to.X), float64(to.Y), float64(to.Z))), P{cx[a+1] - to.X, cy[b+1] - to.Y, cz[d+1] - to.Z})
						if !ok {
							return
						}
						want, got := vset{}, vset{}
						for p := range whole {
							if p.X >= cx[a] && p.X < cx[a+1] && p.Y >= cy[b] && p.Y < cy[b+1] && p.Z >= cz[d] && p.Z < cz[d+1] && !fuzzy[p.Z] {
								want[p] = struct{}{}
							}
						}
						for p := range g {
							if q := p.add(to); !fuzzy[q.Z] {
								got[q] = struct{}{}
							}
						}
						if df := want.diff(got); df != "" {
							k.Failf("tile", "tile %v-%v: %s\n%s", to, P{cx[a+1], cy[b+1], cz[d+1]}, df, ctx)
							return
						}
					}
				}
			}
			// single slices
			slices := newRegion(n, o.MulScalar(mmpv), mmpv)
			mode := r.Intn(3)
			for _, z := range r.Perm(n.Z) {
				b := slices // with what an earlier slice left
				if mode > 0 {
					b = newRegion(n, o.MulScalar(mmpv), mmpv)
				}
				if mode > 1 {
					b.WhiteVoxels = leftovers(r, n)
				}
				if err := b.VoxelizeZ(mesh, z); err != nil {
					k.Failf("error", "VoxelizeZ: %v\n%s", err, ctx)
					return
				}
				want := vset{}
				for p := range whole {
					if p.Z == z {
						want[p] = struct{}{}
					}
				}
				if d := want.diff(whiteSet(b.WhiteVoxels)); d != "" {
					k.Failf("slice", "slice %d: %s\n%s", z, d, ctx)
					return
				}
			}
			if trisText(ts) != snap {
				k.Failf("mesh-changed", "Voxelize changed the mesh\n%s", ctx)
			}
			// the same mesh, moved in place
			to := gl.V(float64(r.Intn(9)-4), float64(r.Intn(9)-4), float64(r.Intn(9)-4))
			mesh.Transform(gl.Translate(to.MulScalar(mmpv)))
			if moved, ok := vox(o.Add(to), n); ok {
				want, got := vset{}, vset{}
				for p := range whole {
					if !fuzzy[p.Z] {
						want[p] = struct{}{}
					}
				}
				for p := range moved {
					if !fuzzy[p.Z] {
						got[p] = struct{}{}
					}
				}
				if d := want.diff(got); d != "" {
					k.Failf("moved", "after moving the mesh and the region by %v voxels: %s\n%s", to, d, ctx)
				}
			}
			k.Count("tiles", tiles)
			k.Count("slices", n.Z)
			if len(whole) > 0 {
				k.Distinct("%s, n=%v, %d voxels, hash %x, %d tiles, %d slices, %d procs", s.name, n, len(whole), whole.hash(), tiles, n.Z, procs)
			}
		})
		// many regions of one mesh at the same time, on few and on many processors
		c.Cases("concurrent", c.N(12, 120), 1, func(k *K, i int) {
			r := k.R
			s := genSolid(r, i%solidKinds, 8)
			mesh := gl.NewTriangleMesh(s.tris)
			n := P{18, 18, 18}
			o := gl.V(-9, -9, -9)
			ref := newRegion(n, o, 1)
			old := runtime.GOMAXPROCS(1)
			err := ref.Voxelize(mesh)
			runtime.GOMAXPROCS([]int{2, 4, 8, 16}[r.Intn(4)])
			defer runtime.GOMAXPROCS(old)
			if err != nil {
				k.Failf("error", "Voxelize: %v", err)
				return
			}
			want := whiteSet(ref.WhiteVoxels)
			var wg sync.WaitGroup
			for j := 0; j < 8; j++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					b := newRegion(n, o, 1)
					if j%2 == 1 { // slices
						for z := 0; z < n.Z; z++ {
							zs := vset{}
							for p := range want {
								if p.Z == z {
									zs[p] = struct{}{}
								}
							}
							if err := b.VoxelizeZ(mesh, z); err != nil {
								k.Failf("error", "concurrent VoxelizeZ: %v", err)
							} else if d := zs.diff(whiteSet(b.WhiteVoxels)); d != "" {
								k.Failf("schedule", "concurrent VoxelizeZ(%d): %s\n%s%s", z, d, s.name, trisText(s.tris))
							}
						}
						return
					}
					if err := b.Voxelize(mesh); err != nil {
						k.Failf("error", "concurrent Voxelize: %v", err)
						return
					}
					if d := want.diff(whiteSet(b.WhiteVoxels)); d != "" {
						k.Failf("schedule", "concurrent Voxelize: %s\n%s%s", d, s.name, trisText(s.tris))
					}
				}()
			}
			wg.Wait()
			k.Distinct("8 concurrent voxelizations of %s, %d voxels, hash %x", s.name, len(want), want.hash())
		})
		c.Case("degenerate", func(k *K) {
			mesh := gl.NewTriangleMesh(boxTris(gl.V(0, 0, 0), gl.V(3, 3, 3)))
			for i := 0; i < 3; i++ {
				n := [3]int{4, 4, 4}
				n[i] = 0
				b := binvox.New(n[0], n[1], n[2], 0, 0, 0, 4, false)
				if b.Voxelize(mesh) == nil || b.VoxelizeZ(mesh, 1) == nil {
					k.Failf("zero", "a region of %v voxels was voxelized without an error", n)
				}
			}
			b := binvox.New(4, 4, 4, 0, 0, 0, 4, false)
			if err := b.Voxelize(gl.NewTriangleMesh(nil)); err != nil || len(b.WhiteVoxels) != 0 {
				k.Failf("empty", "an empty mesh gave %d voxels, error %v", len(b.WhiteVoxels), err)
			}
			k.Distinct("regions without voxels, a mesh without triangles")
		})
	}})
}
