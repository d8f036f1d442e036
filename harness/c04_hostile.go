package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"strings"

	"github.com/gmlewis/stldice/v4/binvox"
	"github.com/gmlewis/stldice/v4/vshell"
)

// refData decodes run-length data the way a reader has to: ok is false when the
// data must be rejected. A file that ends between two runs is accepted.
func refBinvoxData(h header, data []byte) (s vset, ok bool) {
	s = vset{}
	n, total := 0, h.nx*h.ny*h.nz
	for i := 0; i < len(data); i += 2 {
		if data[i] > 1 || i+1 == len(data) || data[i+1] == 0 {
			return nil, false
		}
		for j := 0; j < int(data[i+1]); j++ {
			if n >= total {
				return nil, false
			}
			if data[i] == 1 {
				s[h.at(n)] = struct{}{}
			}
			n++
		}
	}
	return s, true
}

func refVshData(h header, data []byte) (m nmap, ok bool) {
	m = nmap{}
	n, total := 0, h.nx*h.ny*h.nz
	for len(data) > 0 {
		if len(data) < 5 {
			return nil, false
		}
		v := binary.LittleEndian.Uint32(data)
		data = data[4:]
		c := 0
		if v == 0 || v == 0xffffffff {
			if len(data) < 2 {
				return nil, false
			}
			c = int(binary.LittleEndian.Uint16(data))
			data = data[2:]
		} else {
			c = int(data[0])
			data = data[1:]
			if c == 0 {
				return nil, false
			}
		}
		for j := 0; j < c; j++ {
			if n >= total {
				return nil, false
			}
			if v != 0 && v != 0xffffffff {
				m[h.at(n)] = v &^ center
			}
			n++
		}
	}
	return m, true
}

type hdrLines [5]string

func (h hdrLines) text() string { return strings.Join(h[:], "\n") + "\n" }

// badHeader breaks one line of a header so that no reader can accept it.
func badHeader(r *rand.Rand, h hdrLines) (text, what string) {
	i := r.Intn(5)
	pick := func(l ...string) string { return l[r.Intn(len(l))] }
	switch i {
	case 0:
		h[0] = pick("", "#binvox 2", "#vshell 2", "binvox 1", "#binvo", "P6", "\x00\x01\x02", "solid x", strings.Repeat("#", 100000))
	case 1:
		h[1] = pick("", "dim", "dim 1", "dim 1 2", "dim a b c", "dim -1 2 3", "dim 1.5 2 3", "size 1 2 3", "dim 99999999999999999999 1 1", "dim 1 2 x", "dim 1 99999999999999999999 1", "dim 1 1 99999999999999999999")
	case 2:
		h[2] = pick("", "translate", "translate 1 2", "translate x 2 3", "translate 1 y 3", "translate 1 2 z", "translat 1 2 3", "translate 1 2 0x", "translate 1,2,3")
	case 3:
		h[3] = pick("", "scale", "scale x", "scale 1e", "scal 1", "scale --1", "scale 1..2")
	case 4:
		h[4] = pick("", "dat", "date", "DATA", "datadata")
	}
	switch r.Intn(6) {
	case 0: // a line is missing
		l := append([]string{}, h[:]...)
		l = append(l[:i], l[i+1:]...)
		return strings.Join(l, "\n") + "\n", fmt.Sprintf("header without line %d", i)
	case 1: // the file ends inside of the header
		t := h.text()
		return t[:r.Intn(len(t)-1)], "truncated header"
	}
	return h.text(), fmt.Sprintf("header line %d = %.40q", i, h[i])
}

func hostileBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(4) {
	case 0:
		r.Read(b)
	case 1: // mostly valid binvox pairs
		for i := range b {
			if i%2 == 0 {
				b[i] = byte(r.Intn(2))
			} else {
				b[i] = byte(r.Intn(6))
			}
			if r.Intn(200) == 0 {
				b[i] = byte(r.Intn(256))
			}
		}
	case 2:
		for i := range b {
			b[i] = []byte{0, 1, 255, 2}[r.Intn(4)]
		}
	default: // mostly valid vshell runs
		var o bytes.Buffer
		for o.Len() < n {
			v := []uint32{0, 0xffffffff, center, allNeighbors, 1, 5, center | 7, 0xfffffffe, 1 << 31, r.Uint32()}[r.Intn(10)]
			binary.Write(&o, binary.LittleEndian, v)
			if v == 0 || v == 0xffffffff {
				binary.Write(&o, binary.LittleEndian, uint16(r.Intn(9)))
			} else {
				o.WriteByte(byte(r.Intn(6)))
			}
		}
		b = o.Bytes()[:n]
		if r.Intn(2) == 0 {
			b = o.Bytes()
		}
	}
	return b
}

func mutateBytes(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for i := 0; i <= r.Intn(4); i++ {
		if len(b) == 0 {
			return b
		}
		p := r.Intn(len(b))
		switch r.Intn(6) {
		case 0:
			b[p] ^= 1 << uint(r.Intn(8))
		case 1:
			b[p] = byte(r.Intn(256))
		case 2:
			b = append(b[:p], b[p+1:]...)
		case 3:
			b = append(b[:p], append([]byte{byte(r.Intn(256))}, b[p:]...)...)
		case 4:
			b = b[:p]
		case 5:
			q := p + r.Intn(len(b)-p)
			b = append(b, b[p:q]...)
		}
	}
	return b
}

func init() {
	register(&checkDef{id: "C04", rule: "distinct hostile files (hash) given to a reader and judged by the reference decoder; both verdicts are counted", run: func(c *Ctx) {
		inBounds := func(k *K, what string, nx, ny, nz int, each func(f func(p P))) {
			each(func(p P) {
				if p.X < 0 || p.Y < 0 || p.Z < 0 || p.X >= nx || p.Y >= ny || p.Z >= nz {
					k.Failf("out-of-bounds", "%s returned voxel %v of a model of %d x %d x %d", what, p, nx, ny, nz)
				}
			})
		}
		// a window of a malformed file is no better than the file
		window := func(k *K, what, fn string, fullErr error, nx, ny, nz int, read func(sx, sy, sz, cx, cy, cz int) (bool, error)) {
			r := k.R
			s := P{r.Intn(4), r.Intn(4), r.Intn(4)}
			if r.Intn(3) > 0 {
				s = P{}
			}
			n := P{r.Intn(4), r.Intn(4), r.Intn(4)}
			if r.Intn(3) == 0 {
				n = P{1, 1, 1} // reads the header
			}
			model, err := read(s.X, s.Y, s.Z, n.X, n.Y, n.Z)
			switch {
			case err != nil && model:
				k.Failf("partial", "%s Read returned a model and the error %v", what, err)
			case err == nil && fullErr != nil:
				k.Failf("window", "%s Read accepts the window %v+%v of a file which it rejects as a whole: %v", what, s, n, fullErr)
			case err != nil && fullErr == nil && s.X <= nx && s.Y <= ny && s.Z <= nz:
				k.Failf("window", "%s Read rejects the window %v+%v of a sound file: %v", what, s, n, err)
			}
			k.Count("windows", 1)
		}
		readB := func(k *K, fn string) (*binvox.BinVOX, error) {
			bv, err := binvox.Read(fn, 0, 0, 0, 0, 0, 0)
			wx, wy, wz := 0, 0, 0
			if bv != nil {
				wx, wy, wz = bv.NX, bv.NY, bv.NZ
			}
			window(k, "binvox", fn, err, wx, wy, wz, func(sx, sy, sz, cx, cy, cz int) (bool, error) {
				w, err := binvox.Read(fn, sx, sy, sz, cx, cy, cz)
				return w != nil, err
			})
			if err != nil {
				k.Count("rejected", 1)
				if bv != nil {
					k.Failf("partial", "binvox Read returned a model and the error %v", err)
				}
				return nil, err
			}
			k.Count("accepted", 1)
			inBounds(k, "binvox Read", bv.NX, bv.NY, bv.NZ, func(f func(P)) {
				for v := range bv.WhiteVoxels {
					f(P{v.X, v.Y, v.Z})
				}
			})
			return bv, nil
		}
		readV := func(k *K, fn string) (*vshell.VShell, error) {
			vs, err := vshell.Read(fn, 0, 0, 0, 0, 0, 0)
			wx, wy, wz := 0, 0, 0
			if vs != nil {
				wx, wy, wz = vs.NX, vs.NY, vs.NZ
			}
			window(k, "vshell", fn, err, wx, wy, wz, func(sx, sy, sz, cx, cy, cz int) (bool, error) {
				w, err := vshell.Read(fn, sx, sy, sz, cx, cy, cz)
				return w != nil, err
			})
			if err != nil {
				k.Count("rejected", 1)
				if vs != nil {
					k.Failf("partial", "vshell Read returned a model and the error %v", err)
				}
				return nil, err
			}
			k.Count("accepted", 1)
			inBounds(k, "vshell Read", vs.NX, vs.NY, vs.NZ, func(f func(P)) {
				for _, v := range vs.Voxels {
					f(P{v.X, v.Y, v.Z})
				}
			})
			return vs, nil
		}
		hdr := func(magic string, m *model) hdrLines {
			return hdrLines(strings.Split(headerText(magic, m.N, m.T.X, m.T.Y, m.T.Z, m.scale()), "\n")[:5])
		}
		// a sound header in front of hostile data
		c.Cases("data", c.N(18000, 150000), 8, func(k *K, i int) {
			r := k.R
			m := genModel(r, 7, false)
			if r.Intn(10) == 0 {
				*[]*int{&m.N.X, &m.N.Y, &m.N.Z}[r.Intn(3)] = 0
			}
			h := header{nx: m.N.X, ny: m.N.Y, nz: m.N.Z}
			var db, dv []byte
			if r.Intn(3) == 0 || h.nx*h.ny*h.nz == 0 {
				db = hostileBytes(r, r.Intn(200))
				dv = db
			} else {
				db = encodeBinvox(r, m)
				db = mutateBytes(r, db[len(hdr("#binvox 1", m).text()):])
				dv = encodeVsh(r, m, shellOf(m.V))
				dv = mutateBytes(r, dv[len(hdr("#vshell 1", m).text()):])
			}
			fn := k.Path("f")
			if r.Intn(2) == 0 {
				os.WriteFile(fn, append([]byte(hdr("#binvox 1", m).text()), db...), 0644)
				want, ok := refBinvoxData(h, db)
				bv, err := readB(k, fn)
				ctx := fmt.Sprintf("dim %v data %x", m.N, db)
				if ok != (err == nil) {
					k.Failf("binvox-verdict", "binvox Read: error %v, but the data is well-formed: %v\n%s", err, ok, ctx)
				} else if ok {
					if d := want.diff(whiteSet(bv.WhiteVoxels)); d != "" {
						k.Failf("binvox-voxels", "binvox Read: %s\n%s", d, ctx)
					}
				}
				k.Distinct("binvox dim %v, %d data bytes %x, accepted %v", m.N, len(db), hash64(string(db)), err == nil)
			} else {
				os.WriteFile(fn, append([]byte(hdr("#vshell 1", m).text()), dv...), 0644)
				want, ok := refVshData(h, dv)
				vs, err := readV(k, fn)
				ctx := fmt.Sprintf("dim %v data %x", m.N, dv)
				if ok != (err == nil) {
					k.Failf("vshell-verdict", "vshell Read: error %v, but the data is well-formed: %v\n%s", err, ok, ctx)
				} else if ok {
					got, dup := vshMap(vs)
					if dup != "" {
						k.Failf("vshell-dup", "vshell Read: %s\n%s", dup, ctx)
					}
					if d := want.diff(got); d != "" {
						k.Failf("vshell-voxels", "vshell Read: %s\n%s", d, ctx)
					}
				}
				k.Distinct("vshell dim %v, %d data bytes %x, accepted %v", m.N, len(dv), hash64(string(dv)), err == nil)
			}
		})
		// hostile headers in front of sound data
		c.Cases("header", c.N(9000, 40000), 8, func(k *K, i int) {
			r := k.R
			m := genModel(r, 5, false)
			fn := k.Path("f")
			b := encodeBinvox(r, m)
			hb := hdr("#binvox 1", m)
			t, what := badHeader(r, hb)
			os.WriteFile(fn, append([]byte(t), b[len(hb.text()):]...), 0644)
			if _, err := readB(k, fn); err == nil {
				k.Failf("binvox-header", "binvox Read accepted a file with %s", what)
			}
			v := encodeVsh(r, m, shellOf(m.V))
			hv := hdr("#vshell 1", m)
			t, what = badHeader(r, hv)
			os.WriteFile(fn, append([]byte(t), v[len(hv.text()):]...), 0644)
			if _, err := readV(k, fn); err == nil {
				k.Failf("vshell-header", "vshell Read accepted a file with %s", what)
			}
			// each format rejects the other one
			os.WriteFile(fn, v, 0644)
			if _, err := readB(k, fn); err == nil {
				k.Failf("binvox-header", "binvox Read accepted a vshell file")
			}
			os.WriteFile(fn, b, 0644)
			if _, err := readV(k, fn); err == nil {
				k.Failf("vshell-header", "vshell Read accepted a binvox file")
			}
			k.Distinct("%s", what)
		})
		// anything
		c.Cases("any", c.N(18000, 150000), 8, func(k *K, i int) {
			r := k.R
			m := genModel(r, 5, false)
			var b []byte
			switch r.Intn(5) {
			case 0:
				b = hostileBytes(r, r.Intn(300))
			case 1, 2:
				b = mutateBytes(r, encodeBinvox(r, m))
			default:
				b = mutateBytes(r, encodeVsh(r, m, shellOf(m.V)))
			}
			fn := k.Path("f")
			os.WriteFile(fn, b, 0644)
			_, e1 := readB(k, fn)
			_, e2 := readV(k, fn)
			k.Distinct("%d bytes %x, accepted %v %v", len(b), hash64(string(b)), e1 == nil, e2 == nil)
		})
		// every truncation of a file
		c.Cases("cut", c.N(180, 600), 8, func(k *K, i int) {
			r := k.R
			m := genModel(r, 6, false)
			b := encodeBinvox(r, m)
			v := encodeVsh(r, m, shellOf(m.V))
			fn := k.Path("f")
			for n := 0; n < len(b); n++ {
				os.WriteFile(fn, b[:n], 0644)
				bv, err := readB(k, fn)
				h, data, herr := parseHeader(b[:n])
				want, ok := vset(nil), false
				if herr == nil {
					want, ok = refBinvoxData(h, data)
				}
				if ok != (err == nil) {
					k.Failf("binvox-cut", "binvox Read of the first %d of %d bytes: %v", n, len(b), err)
				} else if ok {
					if d := want.diff(whiteSet(bv.WhiteVoxels)); d != "" {
						k.Failf("binvox-cut", "binvox Read of the first %d of %d bytes: %s", n, len(b), d)
					}
				}
			}
			for n := 0; n < len(v); n++ {
				os.WriteFile(fn, v[:n], 0644)
				vs, err := readV(k, fn)
				h, data, herr := parseHeader(v[:n])
				want, ok := nmap(nil), false
				if herr == nil {
					want, ok = refVshData(h, data)
				}
				if ok != (err == nil) {
					k.Failf("vshell-cut", "vshell Read of the first %d of %d bytes: %v", n, len(v), err)
				} else if ok {
					got, _ := vshMap(vs)
					if d := want.diff(got); d != "" {
						k.Failf("vshell-cut", "vshell Read of the first %d of %d bytes: %s", n, len(v), d)
					}
				}
			}
			k.Distinct("all truncations of %d and %d bytes, dim %v hash %x", len(b), len(v), m.N, m.V.hash())
		})
		// files that are no files
		c.Case("nofile", func(k *K) {
			for _, fn := range []string{k.Path("missing"), k.TempDir(), "/dev/null"} {
				if _, err := readB(k, fn); err == nil {
					k.Failf("binvox-nofile", "binvox Read accepted %s", fn)
				}
				if _, err := readV(k, fn); err == nil {
					k.Failf("vshell-nofile", "vshell Read accepted %s", fn)
				}
			}
			k.Distinct("missing file, directory, empty file")
		})
	}})
}
