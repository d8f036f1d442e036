package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	gl "github.com/fogleman/fauxgl"
)

// ---- running the built commands -------------------------------------------------

type cliRes struct {
	code     int // -1: signal or timeout
	out, err string
	hung     bool
}

func (r cliRes) String() string {
	t := func(s string) string {
		if len(s) > 1500 {
			s = s[:700] + "\n...\n" + s[len(s)-700:]
		}
		return s
	}
	return fmt.Sprintf("exit %d, hung %v\nstdout: %s\nstderr: %s", r.code, r.hung, t(r.out), t(r.err))
}

// crashed tells whether the command ended by a panic or fatal runtime error instead of an exit it chose.
func (r cliRes) crashed() bool {
	return r.code == 2 && (strings.Contains(r.err, "goroutine ") && (strings.Contains(r.err, "panic:") || strings.Contains(r.err, "fatal error:")))
}

const cliTimeout = 120 * time.Second

// runCLI runs a command in dir and waits for it.
func runCLI(dir, bin string, args ...string) cliRes { return runCLIEnv(dir, nil, bin, args...) }

func runCLIEnv(dir string, env []string, bin string, args ...string) cliRes {
	ctx, cancel := context.WithTimeout(context.Background(), cliTimeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 5 * time.Second
	cmd.Env = append(os.Environ(), env...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	r := cliRes{out: o.String(), err: e.String(), hung: ctx.Err() != nil}
	var ee *exec.ExitError
	switch {
	case err == nil:
	case errors.As(err, &ee):
		r.code = ee.ExitCode()
	default:
		panic(fmt.Sprintf("harness: %v: %v", bin, err))
	}
	return r
}

// pathEnv puts the built commands on PATH.
func pathEnv() []string {
	return []string{"PATH=" + filepath.Join(verifDir, ".build", "bin") + ":" + os.Getenv("PATH")}
}

func writeFile(path string, b []byte) {
	if err := os.WriteFile(path, b, 0644); err != nil {
		panic("harness: " + err.Error())
	}
}

// dirSnap maps the files of a directory to their content.
func dirSnap(dir string) map[string]string {
	out := map[string]string{}
	ents, err := os.ReadDir(dir)
	if err != nil {
		panic("harness: " + err.Error())
	}
	for _, e := range ents {
		if e.Type().IsRegular() {
			b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
			out[e.Name()] = string(b)
		}
	}
	return out
}

func exists(path string) bool { _, err := os.Stat(path); return err == nil }

// ---- binary STL -------------------------------------------------------------------

func encodeSTL(ts []*gl.Triangle) []byte {
	var b bytes.Buffer
	b.Write(make([]byte, 80))
	binary.Write(&b, binary.LittleEndian, uint32(len(ts)))
	for _, t := range ts {
		n := t.Normal()
		for _, v := range []gl.Vector{n, t.V1.Position, t.V2.Position, t.V3.Position} {
			binary.Write(&b, binary.LittleEndian, [3]float32{float32(v.X), float32(v.Y), float32(v.Z)})
		}
		b.Write([]byte{0, 0})
	}
	return b.Bytes()
}

func encodeASCII(ts []*gl.Triangle) []byte {
	var b bytes.Buffer
	b.WriteString("solid x\n")
	for _, t := range ts {
		n := t.Normal()
		fmt.Fprintf(&b, " facet normal %g %g %g\n  outer loop\n", n.X, n.Y, n.Z)
		for _, v := range []gl.Vector{t.V1.Position, t.V2.Position, t.V3.Position} {
			fmt.Fprintf(&b, "   vertex %g %g %g\n", v.X, v.Y, v.Z)
		}
		b.WriteString("  endloop\n endfacet\n")
	}
	b.WriteString("endsolid x\n")
	return b.Bytes()
}

// decodeSTL decodes a complete, well-formed binary STL file.
func decodeSTL(b []byte) ([]*gl.Triangle, error) {
	if len(b) < 84 {
		return nil, fmt.Errorf("only %d bytes", len(b))
	}
	n := int(binary.LittleEndian.Uint32(b[80:]))
	if len(b) != 84+50*n {
		return nil, fmt.Errorf("%d bytes instead of %d for %d triangles", len(b), 84+50*n, n)
	}
	out := make([]*gl.Triangle, 0, n)
	for i := 0; i < n; i++ {
		var f [12]float32
		binary.Read(bytes.NewReader(b[84+50*i:]), binary.LittleEndian, &f)
		for _, x := range f[3:] {
			if math.IsNaN(float64(x)) || math.IsInf(float64(x), 0) {
				return nil, fmt.Errorf("triangle %d has vertex coordinate %v", i, x)
			}
		}
		v := func(j int) gl.Vector { return gl.V(float64(f[j]), float64(f[j+1]), float64(f[j+2])) }
		t := &gl.Triangle{}
		t.V1.Position, t.V2.Position, t.V3.Position = v(3), v(6), v(9)
		out = append(out, t)
	}
	return out, nil
}

// checkNormals checks that the facet normals of an STL file have the direction of its triangles.
func checkNormals(b []byte, ts []*gl.Triangle) error {
	for i, t := range ts {
		u, v := t.V2.Position.Sub(t.V1.Position), t.V3.Position.Sub(t.V1.Position)
		c := u.Cross(v)
		big := math.Max(u.Length(), math.Max(v.Length(), t.V1.Position.Length()*1e-4))
		if c.Length() < 1e-2*big*big { // flat, or rounded too much
			continue
		}
		var f [3]float32
		binary.Read(bytes.NewReader(b[84+50*i:]), binary.LittleEndian, &f)
		n := gl.V(float64(f[0]), float64(f[1]), float64(f[2]))
		if n == (gl.Vector{}) { // left to the reader
			continue
		}
		if d := n.Dot(c.Normalize()); !(d > .99*n.Length()) {
			return fmt.Errorf("triangle %d %v %v %v has normal %v", i, t.V1.Position, t.V2.Position, t.V3.Position, n)
		}
	}
	return nil
}

func readSTL(path string) (*gl.Mesh, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	ts, err := decodeSTL(b)
	if err != nil {
		return nil, fmt.Errorf("%s is no complete STL file: %v", filepath.Base(path), err)
	}
	if err := checkNormals(b, ts); err != nil {
		return nil, fmt.Errorf("%s: %v", filepath.Base(path), err)
	}
	return gl.NewTriangleMesh(ts), nil
}

// roundTris rounds to the precision of STL files.
func roundTris(ts []*gl.Triangle) []*gl.Triangle {
	f := func(x float64) float64 { return float64(float32(x)) }
	return transformTris(ts, func(v gl.Vector) gl.Vector { return gl.V(f(v.X), f(v.Y), f(v.Z)) })
}

// triKey identifies a triangle by its corners, up to rotation.
func triKey(t *gl.Triangle) [9]float32 {
	p := [3]gl.Vector{t.V1.Position, t.V2.Position, t.V3.Position}
	best := 0
	less := func(a, b gl.Vector) bool {
		if a.X != b.X {
			return a.X < b.X
		}
		if a.Y != b.Y {
			return a.Y < b.Y
		}
		return a.Z < b.Z
	}
	for i := 1; i < 3; i++ {
		if less(p[i], p[best]) {
			best = i
		}
	}
	var k [9]float32
	for i := 0; i < 3; i++ {
		v := p[(best+i)%3]
		k[3*i], k[3*i+1], k[3*i+2] = float32(v.X), float32(v.Y), float32(v.Z)
	}
	return k
}

type triBag map[[9]float32]int

func bagOf(ts []*gl.Triangle) triBag {
	b := triBag{}
	for _, t := range ts {
		b[triKey(t)]++
	}
	return b
}

func (want triBag) diff(got triBag) string {
	for k, n := range want {
		if got[k] != n {
			return fmt.Sprintf("triangle %v occurs %d times instead of %d", k, got[k], n)
		}
	}
	for k, n := range got {
		if want[k] == 0 {
			return fmt.Sprintf("triangle %v occurs %d times, but is in no input", k, n)
		}
	}
	return ""
}

// shellCommands lets bash run a script in which the named commands only record their arguments.
func shellCommands(k *K, script string, names ...string) (cmds [][]string, err error) {
	dir := filepath.Join(k.TempDir(), "shell")
	os.Mkdir(dir, 0755)
	defer os.RemoveAll(dir)
	pre := "PATH=/nonexistent\n"
	for _, n := range names {
		pre += n + "() { printf '%s\\0' $(( $# + 1 )) " + n + " \"$@\"; }\n"
	}
	writeFile(filepath.Join(dir, "script.sh"), []byte(pre+script))
	res := runCLI(dir, "/bin/bash", "-e", "script.sh")
	if res.code != 0 || res.hung {
		return nil, fmt.Errorf("the script cannot be run: %v", res)
	}
	w := strings.Split(strings.TrimSuffix(res.out, "\x00"), "\x00")
	if res.out == "" {
		return nil, nil
	}
	for len(w) > 0 {
		n, err := strconv.Atoi(w[0])
		if err != nil || n < 1 || n >= len(w) {
			return nil, fmt.Errorf("the script prints %q", res.out)
		}
		cmds = append(cmds, w[1:n+1])
		w = w[n+1:]
	}
	if d := dirSnap(dir); len(d) != 1 {
		return nil, fmt.Errorf("the script writes files")
	}
	return cmds, nil
}
