package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/binvox"
	"github.com/gmlewis/stldice/v4/vshell"
)

// near compares header numbers: printing and parsing loses nothing.
func near(a, b float64) bool {
	if a == b {
		return true
	}
	return math.Abs(a-b) <= 1e-12*math.Max(math.Abs(a), math.Abs(b))
}

func nearRel(a, b, size, tol float64) bool {
	return math.Abs(a-b) <= tol*math.Max(size, math.Max(math.Abs(a), math.Abs(b)))
}

func headerDiff(n P, tx, ty, tz, scale float64, m *model) string {
	if n != m.N {
		return fmt.Sprintf("dimensions %v instead of %v", n, m.N)
	}
	if !near(tx, m.T.X) || !near(ty, m.T.Y) || !near(tz, m.T.Z) {
		return fmt.Sprintf("translation (%v,%v,%v) instead of %v", tx, ty, tz, m.T)
	}
	if !near(scale, m.scale()) {
		return fmt.Sprintf("scale %v instead of %v", scale, m.scale())
	}
	return ""
}

// runModel makes a model with runs of chosen lengths, around the limits of the
// run-length encodings.
func runModel(r *rand.Rand, lens []int) *model {
	m := &model{V: vset{}}
	m.T.X, m.T.Y, m.T.Z, m.MMPV = genPlacement(r, r.Intn(2) == 0)
	var bits []bool
	on := r.Intn(2) == 0
	for i := 0; i < 1+r.Intn(6); i++ {
		n := lens[r.Intn(len(lens))]
		for j := 0; j < n; j++ {
			bits = append(bits, on)
		}
		on = !on
	}
	// choose a grid that holds them
	n := len(bits)
	switch r.Intn(4) {
	case 0:
		m.N = P{1, n, 1}
	case 1:
		m.N = P{n, 1, 1}
	case 2:
		m.N = P{1, 1, n}
	default:
		y := 1 + r.Intn(300)
		z := 1 + r.Intn(20)
		m.N = P{(n + y*z - 1) / (y * z), y, z}
	}
	h := header{nx: m.N.X, ny: m.N.Y, nz: m.N.Z}
	for i, b := range bits {
		if b {
			m.V[h.at(i)] = struct{}{}
		}
	}
	if len(m.V) == 0 {
		m.V[h.at(n-1)] = struct{}{}
	}
	return m
}

var runLens = []int{1, 2, 127, 128, 253, 254, 255, 256, 257, 509, 510, 511, 765, 1020, 3000}
var bigRunLens = []int{1, 254, 255, 256, 65534, 65535, 65536, 65537, 65790, 131070, 131071, 70000}

func extremePlacement(r *rand.Rand, m *model) {
	vals := []float64{0, math.Copysign(0, -1), 1e-300, -1e-300, 1e300, -1e300, 1.0 / 3, -123456.789012345678, 5e-324, math.MaxFloat64, 1e21, 1e-7, 100000, 1234567, 123456789.123}
	m.T.X, m.T.Y, m.T.Z = vals[r.Intn(len(vals))], vals[r.Intn(len(vals))], vals[r.Intn(len(vals))]
	m.MMPV = []float64{1e-12, 1.0 / 3, 1e12, 0.1, 7e-5, 1234567.1}[r.Intn(6)]
}

// genBulk makes a model whose runs are so many that its file has more than a megabyte.
func genBulk(r *rand.Rand) *model {
	m := &model{N: P{90 + r.Intn(40), 90 + r.Intn(40), 130 + r.Intn(10)}, MMPV: .5, V: vset{}}
	for x := 0; x < m.N.X; x++ {
		for y := 0; y < m.N.Y; y++ {
			for z := 0; z < m.N.Z; z++ {
				if (x+y+z)%2 == 0 != (r.Intn(50) == 0) {
					m.V[P{x, y, z}] = struct{}{}
				}
			}
		}
	}
	return m
}

// genHuge makes a model with an empty run of more than 2^24 voxels in the middle.
func genHuge(r *rand.Rand) *model {
	n := []int{180 + r.Intn(100), 180 + r.Intn(100), 0}
	n[2] = (17500000+r.Intn(1000000))/(n[0]*n[1]) + 1
	r.Shuffle(3, func(i, j int) { n[i], n[j] = n[j], n[i] })
	m := &model{N: P{n[0], n[1], n[2]}, MMPV: .25, V: vset{}}
	for i := 0; i < 5; i++ {
		m.V[P{0, r.Intn(n[1]), 0}] = struct{}{}
		m.V[P{n[0] - 1, r.Intn(n[1]), n[2] - 1}] = struct{}{}
	}
	return m
}

func genAny(r *rand.Rand, i int) *model {
	switch {
	case i%800 == 301:
		return genBulk(r)
	case i%800 == 401:
		return genHuge(r)
	case i%50 == 8:
		return genLong(r, 70000, r.Intn(2) == 0)
	case i%25 == 7:
		return runModel(r, bigRunLens)
	case i%5 == 1:
		return runModel(r, runLens)
	case i%5 == 2:
		m := genModel(r, 12, false)
		extremePlacement(r, m)
		return m
	case i%5 == 3:
		return genModel(r, 24, true)
	}
	return genModel(r, 14, false)
}

func init() {
	register(&checkDef{id: "C01", rule: "distinct (dimensions, voxel set, run structure) of non-empty models written and read back", run: func(c *Ctx) {
		c.Cases("rt", c.N(2500, 30000), 8, func(k *K, i int) {
			m := genAny(k.R, i)
			b := m.bv()
			before := whiteSet(b.WhiteVoxels)
			fn := k.Path("m.binvox")
			if k.R.Intn(4) == 0 { // overwrite a longer file
				os.WriteFile(fn, make([]byte, 300000), 0644)
			}
			n := [3]int{}
			if k.R.Intn(3) == 0 {
				n = [3]int{m.N.X, m.N.Y, m.N.Z}
			}
			if err := b.Write(fn, 0, 0, 0, n[0], n[1], n[2]); err != nil {
				k.Failf("write-error", "Write: %v\n%v", err, m)
				return
			}
			if d := before.diff(whiteSet(b.WhiteVoxels)); d != "" {
				k.Failf("write-changes-model", "Write changed the model: %v\n%v", d, m)
			}
			raw, err := os.ReadFile(fn)
			if err != nil {
				k.Failf("no-file", "%v", err)
				return
			}
			h, s, runs, err := decodeBinvox(raw)
			if err != nil {
				k.Failf("format", "the file is not a valid binvox file: %v\n%v", err, m)
				return
			}
			if d := headerDiff(P{h.nx, h.ny, h.nz}, h.tx, h.ty, h.tz, h.scale, m); d != "" {
				k.Failf("file-header", "header of the file: %s\n%v", d, m)
			}
			if d := m.V.diff(s); d != "" {
				k.Failf("file-voxels", "voxels of the file: %s\n%v", d, m)
			}
			readBack := func(how string) {
				got, err := binvox.Read(fn, 0, 0, 0, 0, 0, 0)
				if err != nil {
					k.Failf("read-error", "Read of %s: %v\n%v", how, err, m)
					return
				}
				if d := headerDiff(P{got.NX, got.NY, got.NZ}, got.TX, got.TY, got.TZ, got.Scale, m); d != "" {
					k.Failf("read-header", "Read of %s: %s\n%v", how, d, m)
				}
				if d := m.V.diff(whiteSet(got.WhiteVoxels)); d != "" {
					k.Failf("read-voxels", "Read of %s: %s\n%v", how, d, m)
				}
				if len(got.ColorVoxels) != 0 {
					k.Failf("read-colors", "Read of %s returned color voxels", how)
				}
			}
			readBack("a written file")
			// files of other tools split their runs differently
			os.WriteFile(fn, encodeBinvox(k.R, m), 0644)
			readBack("a foreign file")
			k.Count("bytes_decoded", len(raw))
			k.Count("runs_decoded", runs)
			k.Distinct("dim %v, %d voxels, hash %x, %d runs", m.N, len(m.V), m.V.hash(), runs)
		})
		// a model without voxels is a file, too
		c.Cases("empty", c.N(200, 2000), 8, func(k *K, i int) {
			r := k.R
			m := genModel(r, 12, false)
			if r.Intn(2) == 0 {
				extremePlacement(r, m)
			}
			m.V = vset{}
			b := m.bv()
			if r.Intn(2) == 0 {
				b.WhiteVoxels = nil
			}
			fn := k.Path("m.binvox")
			if r.Intn(2) == 0 {
				os.WriteFile(fn, encodeBinvox(r, genModel(r, 12, false)), 0644)
			}
			if err := b.Write(fn, 0, 0, 0, 0, 0, 0); err != nil {
				k.Failf("write-error", "Write of an empty model: %v\n%v", err, m)
				return
			}
			got, err := binvox.Read(fn, 0, 0, 0, 0, 0, 0)
			if err != nil {
				k.Failf("read-error", "Read of an empty model: %v\n%v", err, m)
				return
			}
			if len(got.WhiteVoxels)+len(got.ColorVoxels) != 0 || !near(got.TX, m.T.X) || !near(got.TY, m.T.Y) || !near(got.TZ, m.T.Z) || !near(got.Scale, m.scale()) {
				k.Failf("empty", "an empty model, scale %v, is read back as %v\n%v", m.scale(), got, m)
			}
			k.Distinct("empty: dim %v, at %v, scale %v", m.N, m.T, m.scale())
		})
	}})

	register(&checkDef{id: "C02", rule: "distinct (format, model, window) read and compared with the filter over the whole model, plus rejected windows", run: func(c *Ctx) {
		c.Cases("win", c.N(12000, 40000), 8, func(k *K, i int) {
			r := k.R
			m := genModel(r, 12, r.Intn(2) == 0)
			fb, fv := k.Path("m.binvox"), k.Path("m.vshell")
			os.WriteFile(fb, encodeBinvox(r, m), 0644)
			shell := shellOf(m.V)
			os.WriteFile(fv, encodeVsh(r, m, shell), 0644)
			for j := 0; j < 14; j++ {
				dim := [3]int{m.N.X, m.N.Y, m.N.Z}
				var s, n [3]int
				for a := 0; a < 3; a++ {
					switch r.Intn(4) {
					case 0: // whole axis
					default:
						s[a] = r.Intn(dim[a])
						n[a] = r.Intn(dim[a] + 2)
						if r.Intn(5) == 0 {
							n[a] = dim[a] + r.Intn(1000000)
						}
					}
				}
				in := func(p P) bool {
					q := [3]int{p.X, p.Y, p.Z}
					for a := 0; a < 3; a++ {
						if q[a] < s[a] || (n[a] != 0 && q[a] >= s[a]+n[a]) {
							return false
						}
					}
					return true
				}
				want, wantN := vset{}, nmap{}
				for p := range m.V {
					if in(p) {
						want[p] = struct{}{}
					}
				}
				for p, nb := range shell {
					if in(p) {
						wantN[p] = nb
					}
				}
				ctx := fmt.Sprintf("window start=%v count=%v of %v", s, n, m)
				got, err := binvox.Read(fb, s[0], s[1], s[2], n[0], n[1], n[2])
				if err != nil {
					k.Failf("binvox-error", "binvox Read: %v\n%s", err, ctx)
				} else {
					if d := want.diff(whiteSet(got.WhiteVoxels)); d != "" {
						k.Failf("binvox-window", "binvox Read: %s\n%s", d, ctx)
					}
					if d := headerDiff(P{got.NX, got.NY, got.NZ}, got.TX, got.TY, got.TZ, got.Scale, m); d != "" {
						k.Failf("binvox-header", "binvox Read: %s\n%s", d, ctx)
					}
				}
				gv, err := vshell.Read(fv, s[0], s[1], s[2], n[0], n[1], n[2])
				if err != nil {
					k.Failf("vshell-error", "vshell Read: %v\n%s", err, ctx)
				} else {
					gn, dup := vshMap(gv)
					if dup != "" {
						k.Failf("vshell-dup", "vshell Read: %s\n%s", dup, ctx)
					}
					if d := wantN.diff(gn); d != "" {
						k.Failf("vshell-window", "vshell Read: %s\n%s", d, ctx)
					}
					if d := headerDiff(P{gv.NX, gv.NY, gv.NZ}, gv.TX, gv.TY, gv.TZ, gv.Scale, m); d != "" {
						k.Failf("vshell-header", "vshell Read: %s\n%s", d, ctx)
					}
				}
				k.Count("voxels_in_windows", len(want))
				k.Distinct("window %v+%v of dim %v, %d of %d voxels, %d of %d shell voxels, hash %x", s, n, m.N, len(want), len(m.V), len(wantN), len(shell), want.hash())
			}
			// windows that do not exist
			for a := 0; a < 3; a++ {
				dim := [3]int{m.N.X, m.N.Y, m.N.Z}
				for _, bad := range [][2]int{{-1 - r.Intn(5), 0}, {-1, 3}, {0, -1 - r.Intn(5)}, {dim[a] + 1 + r.Intn(10), 1}, {dim[a] + 1, 0}} {
					var s, n [3]int
					s[a], n[a] = bad[0], bad[1]
					if _, err := binvox.Read(fb, s[0], s[1], s[2], n[0], n[1], n[2]); err == nil {
						k.Failf("binvox-badwindow", "binvox Read accepted start=%v count=%v of dim %v", s, n, m.N)
					}
					if _, err := vshell.Read(fv, s[0], s[1], s[2], n[0], n[1], n[2]); err == nil {
						k.Failf("vshell-badwindow", "vshell Read accepted start=%v count=%v of dim %v", s, n, m.N)
					}
					k.Count("bad_windows", 2)
				}
			}
		})
	}})

	register(&checkDef{id: "C03", rule: "distinct (format, model, window) written, decoded independently and compared in world space", run: func(c *Ctx) {
		c.Cases("sub", c.N(12000, 40000), 8, func(k *K, i int) {
			r := k.R
			var m *model
			if r.Intn(6) == 0 {
				m = runModel(r, runLens)
			} else {
				m = genModel(r, 12, r.Intn(2) == 0)
			}
			size := math.Max(math.Max(math.Abs(m.T.X), math.Abs(m.T.Y)), math.Max(math.Abs(m.T.Z), m.scale()))
			shell := shellOf(m.V)
			for j := 0; j < 8; j++ {
				dim := [3]int{m.N.X, m.N.Y, m.N.Z}
				var s, n, cnt [3]int
				for a := 0; a < 3; a++ {
					if r.Intn(3) > 0 {
						s[a] = r.Intn(dim[a])
					}
					n[a] = 1 + r.Intn(dim[a]-s[a])
					cnt[a] = n[a]
					if s[a] == 0 && r.Intn(3) == 0 {
						n[a], cnt[a] = 0, dim[a]
					} else if r.Intn(8) == 0 { // a window may extend beyond the model
						n[a] += r.Intn(4)
						cnt[a] = n[a]
					}
				}
				want, wantN := vset{}, nmap{}
				move := func(p P) (P, bool) {
					p = P{p.X - s[0], p.Y - s[1], p.Z - s[2]}
					return p, p.X >= 0 && p.Y >= 0 && p.Z >= 0 && p.X < cnt[0] && p.Y < cnt[1] && p.Z < cnt[2]
				}
				for p := range m.V {
					if q, ok := move(p); ok {
						want[q] = struct{}{}
					}
				}
				for p, nb := range shell {
					if q, ok := move(p); ok {
						wantN[q] = nb
					}
				}
				ctx := fmt.Sprintf("window start=%v count=%v of %v", s, n, m)
				place := func(key string, h header) {
					if (P{h.nx, h.ny, h.nz}) != (P{cnt[0], cnt[1], cnt[2]}) {
						k.Failf(key+"-dim", "%s: dimensions (%d,%d,%d) instead of %v\n%s", key, h.nx, h.ny, h.nz, cnt, ctx)
						return
					}
					for a, t := range [3][2]float64{{h.tx, m.T.X}, {h.ty, m.T.Y}, {h.tz, m.T.Z}} {
						if want := t[1] + float64(s[a])*m.MMPV; !nearRel(t[0], want, size, 1e-9) {
							k.Failf(key+"-translate", "%s: translation %d is %v instead of %v\n%s", key, a, t[0], want, ctx)
						}
					}
					if mm := h.scale / float64(max(cnt[0], cnt[1], cnt[2])); !nearRel(mm, m.MMPV, 0, 1e-9) {
						k.Failf(key+"-resolution", "%s: %v millimeters per voxel instead of %v\n%s", key, mm, m.MMPV, ctx)
					}
				}
				fn := k.Path("w")
				if err := m.bv().Write(fn, s[0], s[1], s[2], n[0], n[1], n[2]); err != nil {
					k.Failf("binvox-error", "binvox Write: %v\n%s", err, ctx)
				} else if raw, err := os.ReadFile(fn); err != nil {
					k.Failf("binvox-error", "%v", err)
				} else if h, got, _, err := decodeBinvox(raw); err != nil {
					k.Failf("binvox-format", "binvox Write: %v\n%s", err, ctx)
				} else {
					if d := want.diff(got); d != "" {
						k.Failf("binvox-voxels", "binvox Write: %s\n%s", d, ctx)
					}
					place("binvox", h)
				}
				vs := vshFromMap(m, shell)
				if err := vs.Write(fn, s[0], s[1], s[2], n[0], n[1], n[2]); err != nil {
					k.Failf("vshell-error", "vshell Write: %v\n%s", err, ctx)
				} else if raw, err := os.ReadFile(fn); err != nil {
					k.Failf("vshell-error", "%v", err)
				} else if h, got, _, err := decodeVsh(raw); err != nil {
					k.Failf("vshell-format", "vshell Write: %v\n%s", err, ctx)
				} else {
					if d := wantN.diff(got); d != "" {
						k.Failf("vshell-voxels", "vshell Write: %s\n%s", d, ctx)
					}
					place("vshell", h)
				}
				// what the model itself says about its place and its resolution
				bv := m.bv()
				for which, box := range map[string]*gl.Box{"binvox": bv.MBB(), "vshell": vs.MBB()} {
					for a, t := range [3][4]float64{{box.Min.X, box.Max.X, m.T.X, float64(m.N.X)}, {box.Min.Y, box.Max.Y, m.T.Y, float64(m.N.Y)}, {box.Min.Z, box.Max.Z, m.T.Z, float64(m.N.Z)}} {
						if !nearRel(t[0], t[2], size, 1e-9) || !nearRel(t[1], t[2]+t[3]*m.MMPV, size, 1e-9) {
							k.Failf("mbb", "%s MBB axis %d is %v..%v\n%v", which, a, t[0], t[1], m)
						}
					}
				}
				if v := bv.VoxelsPerMM(); !nearRel(v, 1/m.MMPV, 0, 1e-9) || !nearRel(vs.VoxelsPerMM(), v, 0, 1e-9) {
					k.Failf("vpmm", "VoxelsPerMM %v and %v instead of %v\n%v", v, vs.VoxelsPerMM(), 1/m.MMPV, m)
				}
				k.Distinct("window %v+%v of dim %v, %d of %d voxels, hash %x", s, n, m.N, len(want), len(m.V), want.hash())
			}
		})
	}})
}
