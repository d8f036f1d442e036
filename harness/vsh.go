package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"

	"github.com/gmlewis/stldice/v4/vshell"
)

// vshMap turns the voxels of a shell into a map; dup names a voxel listed twice.
func vshMap(vs *vshell.VShell) (m nmap, dup string) {
	m = nmap{}
	for _, v := range vs.Voxels {
		p := P{v.X, v.Y, v.Z}
		if _, ok := m[p]; ok && dup == "" {
			dup = fmt.Sprintf("voxel %v is listed twice", p)
		}
		m[p] = uint32(v.N)
	}
	return m, dup
}

func vshFromMap(m *model, shell nmap) *vshell.VShell {
	vs := &vshell.VShell{NX: m.N.X, NY: m.N.Y, NZ: m.N.Z, TX: m.T.X, TY: m.T.Y, TZ: m.T.Z, Scale: m.scale()}
	for p := range shell {
		vs.Voxels = append(vs.Voxels, vshell.VShVoxel{X: p.X, Y: p.Y, Z: p.Z, N: vshell.NeighborBitMap(shell[p])})
	}
	return vs
}

// encodeVsh writes a shell with run lengths split at random. Voxels without
// neighbors are marked by the center bit.
func encodeVsh(r *rand.Rand, m *model, shell nmap) []byte {
	var b bytes.Buffer
	b.WriteString(headerText("#vshell 1", m.N, m.T.X, m.T.Y, m.T.Z, m.scale()))
	h := header{nx: m.N.X, ny: m.N.Y, nz: m.N.Z}
	total := h.nx * h.ny * h.nz
	val := func(i int) uint32 {
		n, ok := shell[h.at(i)]
		if ok && n == 0 {
			return center
		}
		return n
	}
	mx, mx0 := 255, 65535
	if r != nil && r.Intn(2) == 0 {
		mx, mx0 = 1+r.Intn(255), 1+r.Intn(300)
	}
	for i := 0; i < total; {
		v := val(i)
		lim := mx
		if v == 0 {
			lim = mx0
		}
		j := i + 1
		for j < total && j-i < lim && val(j) == v {
			j++
		}
		binary.Write(&b, binary.LittleEndian, v)
		if v == 0 {
			binary.Write(&b, binary.LittleEndian, uint16(j-i))
		} else {
			b.WriteByte(byte(j - i))
		}
		i = j
	}
	return b.Bytes()
}
