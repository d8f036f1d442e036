package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/binvox"
	"github.com/gmlewis/stldice/v4/vshell"
)

// ---- the model in memory ------------------------------------------------------------

var bitNames = func() map[string]uint32 {
	m := map[string]uint32{}
	c := []string{"_1", "0", "1"}
	for x := -1; x <= 1; x++ {
		for y := -1; y <= 1; y++ {
			for z := -1; z <= 1; z++ {
				if x == 0 && y == 0 && z == 0 {
					m["x0y0z0"] = center
					continue
				}
				m["X"+c[x+1]+"Y"+c[y+1]+"Z"+c[z+1]] = neighborBit(P{x, y, z})
			}
		}
	}
	return m
}()

var bitsRE = regexp.MustCompile(`^0x([0-9A-F]+) = (.*)$`)

// evalBits evaluates the printed form of a neighbor map.
func evalBits(s string) (num, expr uint32, err error) {
	p := bitsRE.FindStringSubmatch(s)
	if p == nil {
		return 0, 0, fmt.Errorf("not a number and an expression")
	}
	n, err := strconv.ParseUint(p[1], 16, 32)
	if err != nil {
		return 0, 0, err
	}
	num = uint32(n)
	if p[2] == "" {
		return num, 0, nil
	}
	all := strings.HasPrefix(p[2], "allNeighbors & ")
	if all {
		expr = allNeighbors
		for _, t := range strings.Split(strings.TrimPrefix(p[2], "allNeighbors & "), " & ") {
			if t == "" && num == allNeighbors {
				continue // nothing is missing
			}
			b, ok := bitNames[strings.TrimPrefix(t, "^")]
			if !ok || t[0] != '^' {
				return 0, 0, fmt.Errorf("term %q", t)
			}
			expr &^= b
		}
		return num, expr, nil
	}
	for _, t := range strings.Split(p[2], " | ") {
		b, ok := bitNames[t]
		if !ok {
			return 0, 0, fmt.Errorf("term %q", t)
		}
		expr |= b
	}
	return num, expr, nil
}

func init() {
	register(&checkDef{id: "C32", rule: "distinct histories of additions and queries of a model, compared with a reference model after every step, and distinct neighbor maps printed and evaluated", run: func(c *Ctx) {
		c.Cases("history", c.N(8000, 30000), 8, func(k *K, i int) {
			r := k.R
			m := genModel(r, 14, r.Intn(2) == 0)
			if r.Intn(4) == 0 {
				*[]*int{&m.N.X, &m.N.Y, &m.N.Z}[r.Intn(3)] = 1 + r.Intn(100000)
			}
			full := r.Intn(2) == 0
			b := binvox.New(m.N.X, m.N.Y, m.N.Z, m.T.X, m.T.Y, m.T.Z, m.scale(), full)
			desc := fmt.Sprintf("New(%v, %v, %v, fullColor %v)", m.N, m.T, m.scale(), full)
			ref := map[P]binvox.Color{}
			head := func(when string) bool {
				if (P{b.NX, b.NY, b.NZ}) != m.N || b.TX != m.T.X || b.TY != m.T.Y || b.TZ != m.T.Z || b.Scale != m.scale() {
					k.Failf("header", "%s: %s, the model is %v", desc, when, b)
					return false
				}
				if n := len(b.WhiteVoxels) + len(b.ColorVoxels); n != len(ref) {
					k.Failf("count", "%s: %s, the model has %d voxels instead of %d", desc, when, n, len(ref))
					return false
				}
				if full && len(b.WhiteVoxels) != 0 || !full && len(b.ColorVoxels) != 0 {
					k.Failf("kind", "%s: %s, a voxel is of the other kind", desc, when)
					return false
				}
				return true
			}
			if !head("at first") {
				return
			}
			near := func(p P) P { return P{p.X + r.Intn(3) - 1, p.Y + r.Intn(3) - 1, p.Z + r.Intn(3) - 1} }
			last := P{r.Intn(m.N.X), r.Intn(m.N.Y), r.Intn(m.N.Z)}
			get := func(p P) {
				want, wantOK := ref[p]
				got, ok := b.Get(p.X, p.Y, p.Z)
				if ok != wantOK || (ok && got != want) {
					k.Failf("get", "%s: after %d additions Get%v is %v, %v instead of %v, %v", desc, len(ref), p, got, ok, want, wantOK)
				}
				k.Count("gets", 1)
			}
			anywhere := r.Intn(4) == 0 // also outside of the grid, where nothing forbids voxels
			for j := 0; j < 60; j++ {
				p := P{r.Intn(m.N.X), r.Intn(m.N.Y), r.Intn(m.N.Z)}
				switch r.Intn(3) {
				case 0:
					p = near(last)
				case 1: // the coordinates are not interchangeable
					p = P{last.Y, last.Z, last.X}
				}
				if anywhere && r.Intn(4) == 0 {
					far := []int{1, 3, 300, 70000, 1 << 33}[r.Intn(5)]
					p = p.add(P{far * (r.Intn(5) - 2), far * (r.Intn(5) - 2), far * (r.Intn(5) - 2)})
				}
				switch r.Intn(3) {
				case 0:
					if !anywhere && (p.X < 0 || p.Y < 0 || p.Z < 0 || p.X >= m.N.X || p.Y >= m.N.Y || p.Z >= m.N.Z) {
						continue
					}
					if full {
						col := binvox.Color{R: r.Float64(), G: r.Float64(), B: r.Float64(), A: float64(r.Intn(2))}
						if r.Intn(4) == 0 {
							col = []binvox.Color{binvox.Black, binvox.White, {}}[r.Intn(3)]
						}
						b.AddColor(p.X, p.Y, p.Z, col)
						ref[p] = col
					} else {
						b.Add(p.X, p.Y, p.Z)
						ref[p] = binvox.Color{R: 1, G: 1, B: 1, A: 1}
					}
					last = p
					k.Count("additions", 1)
				case 1:
					get(p)
				case 2:
					get(last)
				}
				if !head(fmt.Sprintf("after step %d", j)) {
					return
				}
			}
			for p := range ref {
				get(p)
			}
			if b.Dim() != max(m.N.X, m.N.Y, m.N.Z) {
				k.Failf("dim", "%s: Dim is %d", desc, b.Dim())
			}
			box := func(what string, vpmm float64, mbb *gl.Box) {
				if !nearRel(vpmm*m.MMPV, 1, 1, 1e-9) {
					k.Failf("resolution", "%s: %s.VoxelsPerMM is %v, a voxel has %v millimeters", desc, what, vpmm, m.MMPV)
				}
				hi := gl.V(m.T.X+float64(m.N.X)*m.MMPV, m.T.Y+float64(m.N.Y)*m.MMPV, m.T.Z+float64(m.N.Z)*m.MMPV)
				for a := 0; a < 3; a++ {
					v := func(g gl.Vector) float64 { return []float64{g.X, g.Y, g.Z}[a] }
					if v(mbb.Min) != v(m.T) || !nearRel(v(mbb.Max), v(hi), m.scale(), 1e-9) {
						k.Failf("mbb", "%s: %s.MBB is %v, but the model is within %v-%v", desc, what, mbb, m.T, hi)
						return
					}
				}
			}
			box("BinVOX", b.VoxelsPerMM(), b.MBB())
			if anywhere {
				return
			}
			// its shell
			vs, err := vshell.New(b)
			if err != nil {
				k.Failf("shell", "%s: vshell.New: %v", desc, err)
				return
			}
			if (P{vs.NX, vs.NY, vs.NZ}) != m.N || vs.TX != m.T.X || vs.TY != m.T.Y || vs.TZ != m.T.Z || vs.Scale != m.scale() || vs.Dim() != b.Dim() {
				k.Failf("shell", "%s: its shell is %v, dim %d", desc, vs, vs.Dim())
			}
			box("VShell", vs.VoxelsPerMM(), vs.MBB())
			head("after the queries")
			for p := range ref {
				get(p)
			}
			k.Distinct("%s: %d voxels, last %v", desc, len(ref), last)
		})
		// the printed form of a neighbor map
		c.Cases("bits", c.N(1600, 8000), 8, func(k *K, i int) {
			r := k.R
			for j := 0; j < 100; j++ {
				n := uint32(r.Intn(1 << 27))
				switch r.Intn(4) {
				case 0: // few
					n &= uint32(r.Intn(1<<27)) & uint32(r.Intn(1<<27))
				case 1: // many
					n |= uint32(r.Intn(1<<27)) | uint32(r.Intn(1<<27))
				}
				if i == 0 && j < 27 {
					n = 1 << j
				} else if i == 1 && j < 27 {
					n = allNeighbors &^ (1 << j)
				}
				n &^= center // the center occurs in files only
				s := vshell.NeighborBitMap(n).String()
				num, expr, err := evalBits(s)
				if err != nil || num != n || expr != n {
					k.Failf("bits", "0x%X is printed as %q: %v, 0x%X = 0x%X", n, s, err, num, expr)
				}
				k.Distinct("0x%X", n)
			}
		})
	}})
}
