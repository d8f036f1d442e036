package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"

	"github.com/gmlewis/stldice/v4/binvox"
	"github.com/gmlewis/stldice/v4/vshell"
)

// genShell makes an arbitrary shell: voxels with arbitrary neighbor maps.
func genShell(r *rand.Rand, i int) (*model, nmap) {
	switch {
	case i%700 == 302:
		m := genBulk(r)
		s := nmap{}
		for _, p := range m.V.sorted() {
			s[p] = uint32(r.Intn(1<<27)) &^ center
		}
		return m, s
	case i%700 == 402:
		m := genHuge(r)
		return m, shellOf(m.V)
	case i%30 == 5:
		m := genLong(r, 70000, r.Intn(2) == 0)
		return m, shellOf(m.V)
	case i%3 == 0: // of a real model
		m := genModel(r, 14, r.Intn(2) == 0)
		return m, shellOf(m.V)
	case i%20 == 1: // very long runs
		m := runModel(r, bigRunLens)
		s := nmap{}
		n := uint32(r.Intn(1<<27)) &^ center
		for p := range m.V {
			s[p] = n
		}
		return m, s
	case i%3 == 1: // runs of equal neighbor maps
		m := runModel(r, runLens)
		vals := []uint32{0, 1, 1 << 26, allNeighbors &^ 1, uint32(r.Intn(1<<27)) &^ center}
		s := nmap{}
		n := vals[r.Intn(len(vals))]
		h := header{nx: m.N.X, ny: m.N.Y, nz: m.N.Z}
		for j := 0; j < m.N.X*m.N.Y*m.N.Z; j++ {
			if r.Intn(300) == 0 {
				n = vals[r.Intn(len(vals))]
			}
			if p := h.at(j); m.V.has(p) {
				s[p] = n
			}
		}
		return m, s
	}
	m := genModel(r, 12, false)
	extremePlacement(r, m)
	s := nmap{}
	for _, p := range m.V.sorted() {
		s[p] = uint32(r.Intn(1<<27)) &^ center
		if r.Intn(4) == 0 {
			s[p] = 0
		}
	}
	return m, s
}

func shuffleVsh(r *rand.Rand, vs *vshell.VShell) {
	sort.Slice(vs.Voxels, func(i, j int) bool {
		a, b := vs.Voxels[i], vs.Voxels[j]
		if a.X != b.X {
			return a.X < b.X
		}
		if a.Y != b.Y {
			return a.Y < b.Y
		}
		return a.Z < b.Z
	})
	r.Shuffle(len(vs.Voxels), func(i, j int) { vs.Voxels[i], vs.Voxels[j] = vs.Voxels[j], vs.Voxels[i] })
}

func init() {
	register(&checkDef{id: "C06", rule: "distinct (dimensions, shell voxels, neighbor maps, run structure) written and read back", run: func(c *Ctx) {
		c.Cases("empty", c.N(200, 2000), 8, func(k *K, i int) {
			r := k.R
			m := genModel(r, 12, false)
			if r.Intn(2) == 0 {
				extremePlacement(r, m)
			}
			vs := vshFromMap(m, nmap{})
			fn := k.Path("m.vshell")
			if r.Intn(2) == 0 {
				os.WriteFile(fn, encodeVsh(r, m, shellOf(m.V)), 0644)
			}
			if err := vs.Write(fn, 0, 0, 0, 0, 0, 0); err != nil {
				k.Failf("write-error", "Write of an empty shell: %v\n%v", err, m)
				return
			}
			got, err := vshell.Read(fn, 0, 0, 0, 0, 0, 0)
			if err != nil {
				k.Failf("read-error", "Read of an empty shell: %v\n%v", err, m)
				return
			}
			if len(got.Voxels) != 0 || !near(got.TX, m.T.X) || !near(got.TY, m.T.Y) || !near(got.TZ, m.T.Z) || !near(got.Scale, m.scale()) {
				k.Failf("empty", "an empty shell, scale %v, is read back as %v\n%v", m.scale(), got, m)
			}
			k.Distinct("empty: dim %v, at %v, scale %v", m.N, m.T, m.scale())
		})
		c.Cases("rt", c.N(1500, 12000), 8, func(k *K, i int) {
			r := k.R
			m, shell := genShell(r, i)
			vs := vshFromMap(m, shell)
			shuffleVsh(r, vs)
			fn := k.Path("m.vshell")
			if r.Intn(4) == 0 {
				os.WriteFile(fn, make([]byte, 300000), 0644)
			}
			ctx := fmt.Sprintf("shell %v", m)
			if err := vs.Write(fn, 0, 0, 0, 0, 0, 0); err != nil {
				k.Failf("write-error", "Write: %v\n%s", err, ctx)
				return
			}
			raw, err := os.ReadFile(fn)
			if err != nil {
				k.Failf("no-file", "%v", err)
				return
			}
			h, got, runs, err := decodeVsh(raw)
			if err != nil {
				k.Failf("format", "the file is not a valid vshell file: %v\n%s", err, ctx)
				return
			}
			if d := headerDiff(P{h.nx, h.ny, h.nz}, h.tx, h.ty, h.tz, h.scale, m); d != "" {
				k.Failf("file-header", "header of the file: %s\n%s", d, ctx)
			}
			if d := shell.diff(got); d != "" {
				k.Failf("file-voxels", "voxels of the file: %s\n%s", d, ctx)
			}
			readBack := func(how string) {
				g, err := vshell.Read(fn, 0, 0, 0, 0, 0, 0)
				if err != nil {
					k.Failf("read-error", "Read of %s: %v\n%s", how, err, ctx)
					return
				}
				if d := headerDiff(P{g.NX, g.NY, g.NZ}, g.TX, g.TY, g.TZ, g.Scale, m); d != "" {
					k.Failf("read-header", "Read of %s: %s\n%s", how, d, ctx)
				}
				gn, dup := vshMap(g)
				if dup != "" {
					k.Failf("read-dup", "Read of %s: %s\n%s", how, dup, ctx)
				}
				if d := shell.diff(gn); d != "" {
					k.Failf("read-voxels", "Read of %s: %s\n%s", how, d, ctx)
				}
			}
			readBack("a written file")
			os.WriteFile(fn, encodeVsh(r, m, shell), 0644)
			readBack("a foreign file")
			k.Count("bytes_decoded", len(raw))
			k.Count("runs_decoded", runs)
			k.Distinct("dim %v, %d shell voxels, hash %x, %d runs", m.N, len(shell), hash64(string(raw)), runs)
		})
	}})

	register(&checkDef{id: "C07", rule: "distinct voxel models whose shell was compared voxel by voxel with the definition", run: func(c *Ctx) {
		one := func(k *K, m *model) {
			b := m.bv()
			r := k.R
			how := setVoxels(r, b, m.V)
			before := fmt.Sprint(len(b.WhiteVoxels), len(b.ColorVoxels), b.NX, b.NY, b.NZ, b.TX, b.TY, b.TZ, b.Scale)
			var vs *vshell.VShell
			var err error
			if r.Intn(4) == 0 {
				fn := k.Path("in.binvox")
				os.WriteFile(fn, encodeBinvox(r, m), 0644)
				how = "file "
				vs, err = vshell.Merge([]string{fn})
			} else {
				vs, err = vshell.New(b)
			}
			if err != nil {
				k.Failf("error", "%s model: %v\n%v", how, err, m)
				return
			}
			got, dup := vshMap(vs)
			if dup != "" {
				k.Failf("dup", "%s model: %s\n%v", how, dup, m)
			}
			want := shellOf(m.V)
			if d := want.diff(got); d != "" {
				k.Failf("shell", "%s model: %s\n%v", how, d, m)
			}
			if d := headerDiff(P{vs.NX, vs.NY, vs.NZ}, vs.TX, vs.TY, vs.TZ, vs.Scale, m); d != "" {
				k.Failf("header", "%s model: %s\n%v", how, d, m)
			}
			if after := fmt.Sprint(len(b.WhiteVoxels), len(b.ColorVoxels), b.NX, b.NY, b.NZ, b.TX, b.TY, b.TZ, b.Scale); after != before {
				k.Failf("input-changed", "New changed its input: %s -> %s\n%v", before, after, m)
			}
			k.Count("shell_voxels", len(got))
			k.Count("inner_voxels", len(m.V)-len(got))
			k.Distinct("%s dim %v, %d voxels, %d in shell, hash %x", how[:5], m.N, len(m.V), len(got), m.V.hash())
		}
		// every subset of the 2x2x2 grid, and of the neighborhood of one voxel one missing
		c.Cases("cube", 255, 8, func(k *K, i int) {
			m := &model{N: P{2, 2, 2}, V: vset{}, MMPV: 0.5}
			for b := 0; b < 8; b++ {
				if (i+1)>>uint(b)&1 == 1 {
					m.V[P{b & 1, b >> 1 & 1, b >> 2}] = struct{}{}
				}
			}
			one(k, m)
		})
		c.Cases("hole", 27, 8, func(k *K, i int) {
			m := &model{N: P{3, 3, 3}, V: genVoxels(k.R, "full", 3, 3, 3), MMPV: 2}
			if p := (P{i / 9, i / 3 % 3, i % 3}); p != (P{1, 1, 1}) {
				delete(m.V, p)
			}
			one(k, m)
		})
		c.Cases("model", c.N(12000, 60000), 8, func(k *K, i int) {
			m := genModel(k.R, c.N(16, 24), k.R.Intn(2) == 0)
			one(k, m)
		})
		c.Cases("long", c.N(300, 3000), 8, func(k *K, i int) { one(k, genLong(k.R, []int{2000, 5000, 70000}[i%3], k.R.Intn(2) == 0)) })
		c.Cases("big", c.N(12, 100), 4, func(k *K, i int) { one(k, genBig(k.R, 66)) })
		c.Cases("empty", 4, 1, func(k *K, i int) {
			b := binvox.New(3, 4, 5, 1, 2, 3, 10, i%2 == 0)
			if i >= 2 {
				b.NX, b.NY, b.NZ = 0, 0, 0
			}
			vs, err := vshell.New(b)
			if err != nil || len(vs.Voxels) != 0 {
				k.Failf("empty", "New of an empty model: %v %v", vs, err)
			}
			k.Distinct("empty model %d", i)
		})
	}})
}
