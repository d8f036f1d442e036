package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

// ---- independent codecs for the two file formats ------------------------------

type header struct {
	magic      string
	nx, ny, nz int
	tx, ty, tz float64
	scale      float64
}

// parseHeader splits a file into its header and its data.
func parseHeader(b []byte) (h header, data []byte, err error) {
	var lines []string
	for i := 0; i < 5; i++ {
		j := bytes.IndexByte(b, '\n')
		if j < 0 {
			return h, nil, fmt.Errorf("header line %d is not terminated", i)
		}
		lines = append(lines, string(b[:j]))
		b = b[j+1:]
	}
	h.magic = lines[0]
	f := func(line, key string, n int) ([]string, error) {
		p := strings.Fields(line)
		if len(p) != n+1 || p[0] != key {
			return nil, fmt.Errorf("bad header line %q", line)
		}
		return p[1:], nil
	}
	p, err := f(lines[1], "dim", 3)
	if err != nil {
		return h, nil, err
	}
	for i, q := range []*int{&h.nx, &h.ny, &h.nz} {
		if *q, err = strconv.Atoi(p[i]); err != nil {
			return h, nil, err
		}
	}
	if p, err = f(lines[2], "translate", 3); err != nil {
		return h, nil, err
	}
	for i, q := range []*float64{&h.tx, &h.ty, &h.tz} {
		if *q, err = strconv.ParseFloat(p[i], 64); err != nil {
			return h, nil, err
		}
	}
	if p, err = f(lines[3], "scale", 1); err != nil {
		return h, nil, err
	}
	if h.scale, err = strconv.ParseFloat(p[0], 64); err != nil {
		return h, nil, err
	}
	if lines[4] != "data" {
		return h, nil, fmt.Errorf("no data line: %q", lines[4])
	}
	return h, b, nil
}

// at maps a linear index to a location: y runs fastest, then z, then x.
func (h header) at(i int) P {
	y := i % h.ny
	i /= h.ny
	return P{i / h.nz, y, i % h.nz}
}

// decodeBinvox decodes a complete, well-formed binvox file.
func decodeBinvox(b []byte) (h header, s vset, runs int, err error) {
	h, data, err := parseHeader(b)
	if err != nil {
		return h, nil, 0, err
	}
	if h.magic != "#binvox 1" {
		return h, nil, 0, fmt.Errorf("bad magic %q", h.magic)
	}
	s = vset{}
	n := 0
	if len(data)%2 != 0 {
		return h, nil, 0, fmt.Errorf("odd number of data bytes")
	}
	for i := 0; i < len(data); i += 2 {
		v, c := data[i], int(data[i+1])
		if v > 1 || c == 0 {
			return h, nil, 0, fmt.Errorf("bad run (%d,%d)", v, c)
		}
		if n+c > h.nx*h.ny*h.nz {
			return h, nil, 0, fmt.Errorf("more voxels than %d*%d*%d", h.nx, h.ny, h.nz)
		}
		if v == 1 {
			for j := 0; j < c; j++ {
				s[h.at(n+j)] = struct{}{}
			}
		}
		n += c
		runs++
	}
	if n != h.nx*h.ny*h.nz {
		return h, nil, 0, fmt.Errorf("%d voxels instead of %d*%d*%d", n, h.nx, h.ny, h.nz)
	}
	return h, s, runs, nil
}

func headerText(magic string, n P, tx, ty, tz, scale float64) string {
	return fmt.Sprintf("%s\ndim %d %d %d\ntranslate %g %g %g\nscale %g\ndata\n", magic, n.X, n.Y, n.Z, tx, ty, tz, scale)
}

// encodeBinvox writes a model with run lengths split at random.
func encodeBinvox(r *rand.Rand, m *model) []byte {
	var b bytes.Buffer
	b.WriteString(headerText("#binvox 1", m.N, m.T.X, m.T.Y, m.T.Z, m.scale()))
	h := header{nx: m.N.X, ny: m.N.Y, nz: m.N.Z}
	total := h.nx * h.ny * h.nz
	mx := 255
	if r != nil && r.Intn(2) == 0 {
		mx = 1 + r.Intn(255)
	}
	for i := 0; i < total; {
		v := byte(0)
		if m.V.has(h.at(i)) {
			v = 1
		}
		j := i + 1
		for j < total && j-i < mx && m.V.has(h.at(j)) == (v == 1) {
			j++
		}
		b.Write([]byte{v, byte(j - i)})
		i = j
	}
	return b.Bytes()
}

// nmap maps the location of a voxel to its neighbor bit map.
type nmap map[P]uint32

func (m nmap) keys() vset {
	s := vset{}
	for p := range m {
		s[p] = struct{}{}
	}
	return s
}

func (want nmap) diff(got nmap) string {
	if d := want.keys().diff(got.keys()); d != "" {
		return d
	}
	var bad []string
	for _, p := range want.keys().sorted() {
		if want[p] != got[p] {
			bad = append(bad, fmt.Sprintf("%v neighbors %#x instead of %#x", p, got[p], want[p]))
		}
	}
	if len(bad) == 0 {
		return ""
	}
	n := len(bad)
	if n > 4 {
		bad = bad[:4]
	}
	return fmt.Sprintf("%d voxels differ: %s", n, strings.Join(bad, "; "))
}

const center = uint32(1 << 13)
const allNeighbors = uint32(1<<27-1) &^ center

// neighborBit is the bit of the neighbor at offset d, each in -1..1.
func neighborBit(d P) uint32 { return 1 << uint((d.X+1)*9+(d.Y+1)*3+(d.Z+1)) }

// shellOf is the reference: the voxels that do not have all 26 neighbors, with
// the neighbors they have.
func shellOf(s vset) nmap {
	out := nmap{}
	for p := range s {
		var n uint32
		for x := -1; x <= 1; x++ {
			for y := -1; y <= 1; y++ {
				for z := -1; z <= 1; z++ {
					d := P{x, y, z}
					if d != (P{}) && s.has(p.add(d)) {
						n |= neighborBit(d)
					}
				}
			}
		}
		if n != allNeighbors {
			out[p] = n
		}
	}
	return out
}

// decodeVsh decodes a complete, well-formed vshell file.
func decodeVsh(b []byte) (h header, m nmap, runs int, err error) {
	h, data, err := parseHeader(b)
	if err != nil {
		return h, nil, 0, err
	}
	if h.magic != "#vshell 1" {
		return h, nil, 0, fmt.Errorf("bad magic %q", h.magic)
	}
	m = nmap{}
	n := 0
	total := h.nx * h.ny * h.nz
	for len(data) > 0 {
		if len(data) < 5 {
			return h, nil, 0, fmt.Errorf("truncated run")
		}
		v := binary.LittleEndian.Uint32(data)
		data = data[4:]
		var c int
		if v == 0 || v == 0xffffffff {
			if len(data) < 2 {
				return h, nil, 0, fmt.Errorf("truncated run")
			}
			c = int(binary.LittleEndian.Uint16(data))
			data = data[2:]
		} else {
			c = int(data[0])
			data = data[1:]
		}
		if n+c > total {
			return h, nil, 0, fmt.Errorf("more voxels than %d*%d*%d", h.nx, h.ny, h.nz)
		}
		if v != 0 && v != 0xffffffff {
			for j := 0; j < c; j++ {
				m[h.at(n+j)] = v &^ center
			}
		}
		n += c
		runs++
	}
	if n != total {
		return h, nil, 0, fmt.Errorf("%d voxels instead of %d*%d*%d", n, h.nx, h.ny, h.nz)
	}
	return h, m, runs, nil
}
