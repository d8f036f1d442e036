package main

import (
	"fmt"
	"math"

	gl "github.com/fogleman/fauxgl"
)

// ---- mesh oracles -------------------------------------------------------
//
// All of them work in *lattice* coordinates: (world - origin) / millimetres
// per voxel, quantised to 1/quant of a voxel, so that the comparisons are
// exact integer arithmetic and do not depend on triangle order, on how a
// face was triangulated, or on T-junctions.

const quant = 64

type ipt [3]int64

type latticeMesh struct {
	tris [][3]ipt
	ftri [][3]gl.Vector // lattice coordinates, unquantised
	// offGrid is the largest distance of a vertex to the 1/quant grid.
	offGrid float64
}

func toLattice(m *gl.Mesh, tx, ty, tz, mmpv float64) *latticeMesh {
	lm := &latticeMesh{}
	cv := func(v gl.Vector) (ipt, gl.Vector) {
		f := gl.V((v.X-tx)/mmpv, (v.Y-ty)/mmpv, (v.Z-tz)/mmpv)
		q := func(x float64) int64 {
			r := math.Round(x * quant)
			if d := math.Abs(x*quant-r) / quant; d > lm.offGrid {
				lm.offGrid = d
			}
			return int64(r)
		}
		return ipt{q(f.X), q(f.Y), q(f.Z)}, f
	}
	for _, t := range m.Triangles {
		a, fa := cv(t.V1.Position)
		b, fb := cv(t.V2.Position)
		c, fc := cv(t.V3.Position)
		lm.tris = append(lm.tris, [3]ipt{a, b, c})
		lm.ftri = append(lm.ftri, [3]gl.Vector{fa, fb, fc})
	}
	return lm
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

type lineKey struct{ d, o ipt }

// boundary returns a description of the first place where the oriented
// surface has a boundary ("" when it is closed): every directed edge must be
// cancelled by opposite edges covering the same segment.  Edges on the same
// line are split at each other's end points, so a T-junction is no boundary,
// while a hole, an overlap counted once, or a flipped triangle is one.
func (lm *latticeMesh) boundary() string {
	type seg struct{ a, b ipt }
	cnt := map[seg]int{}
	for _, t := range lm.tris {
		for i := 0; i < 3; i++ {
			a, b := t[i], t[(i+1)%3]
			if a == b {
				continue
			}
			if lessPt(a, b) {
				cnt[seg{a, b}]++
			} else {
				cnt[seg{b, a}]--
			}
		}
	}
	type ev struct {
		at  int64
		inc int
	}
	lines := map[lineKey][]ev{}
	for s, n := range cnt {
		if n == 0 {
			continue
		}
		d := ipt{s.b[0] - s.a[0], s.b[1] - s.a[1], s.b[2] - s.a[2]}
		g := gcd64(gcd64(d[0], d[1]), d[2])
		d = ipt{d[0] / g, d[1] / g, d[2] / g}
		ax := 0
		for d[ax] == 0 {
			ax++
		}
		// parameter along the line = floor(coordinate/d) on the first non-zero axis
		k := floorDiv(s.a[ax], d[ax])
		o := ipt{s.a[0] - k*d[0], s.a[1] - k*d[1], s.a[2] - k*d[2]}
		key := lineKey{d, o}
		lines[key] = append(lines[key], ev{k, n}, ev{k + g, -n})
	}
	for key, evs := range lines {
		m := map[int64]int{}
		for _, e := range evs {
			m[e.at] += e.inc
		}
		for at, n := range m {
			if n != 0 {
				return fmt.Sprintf("open edge at lattice point (%.3f,%.3f,%.3f) along (%d,%d,%d), imbalance %d",
					float64(key.o[0]+at*key.d[0])/quant, float64(key.o[1]+at*key.d[1])/quant, float64(key.o[2]+at*key.d[2])/quant,
					key.d[0], key.d[1], key.d[2], n)
			}
		}
	}
	return ""
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if (a%b != 0) && ((a < 0) != (b < 0)) {
		q--
	}
	return q
}

func lessPt(a, b ipt) bool {
	for i := 0; i < 3; i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// winding returns the generalised winding number of the surface around p
// (lattice coordinates), by summing signed solid angles.
func (lm *latticeMesh) winding(p gl.Vector) float64 {
	var sum float64
	for _, t := range lm.ftri {
		a, b, c := t[0].Sub(p), t[1].Sub(p), t[2].Sub(p)
		la, lb, lc := a.Length(), b.Length(), c.Length()
		num := a.Dot(b.Cross(c))
		den := la*lb*lc + a.Dot(b)*lc + b.Dot(c)*la + c.Dot(a)*lb
		sum += 2 * math.Atan2(num, den)
	}
	return sum / (4 * math.Pi)
}

// volume is the signed volume enclosed, in voxels.
func (lm *latticeMesh) volume() float64 {
	var v float64
	for _, t := range lm.ftri {
		v += t[0].Dot(t[1].Cross(t[2])) / 6
	}
	return v
}
