package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// faultReport is what a helper process saw while the space of its files was limited.
type faultReport struct {
	Full    int      // size of the complete file
	Limits  int      // limits tried
	Failed  int      // writes that reported an error
	OK      int      // writes that reported success
	Bad     []string // violations
	Leaked  int      // goroutines left behind
	LeakMax int
}

// selfHelper runs a helper of this binary and decodes its JSON answer.
func selfHelper(name string, out any, args ...string) error {
	exe, err := os.Executable()
	if err != nil {
		return err
	}
	cmd := exec.Command(exe, append([]string{"helper", name}, args...)...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all")
	var stderr limitedBuf
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("%v\n%s", err, stderr.b)
	}
	if err := json.Unmarshal(b, out); err != nil {
		return fmt.Errorf("%v: %s", err, b)
	}
	return nil
}

type limitedBuf struct{ b []byte }

func (l *limitedBuf) Write(p []byte) (int, error) {
	if len(l.b) < 8000 {
		l.b = append(l.b, p...)
	}
	return len(p), nil
}

func init() {
	helpers["writefault"] = func(args []string) int {
		dir := args[0]
		seed, _ := strconv.ParseInt(args[1], 10, 64)
		r := rand.New(rand.NewSource(seed))
		signal.Ignore(syscall.SIGXFSZ)
		var rep faultReport
		m := genModel(r, 10, false)
		switch r.Intn(4) {
		case 0: // many more runs than any buffer between encoder and writer holds
			m.N = P{14, 14, 14}
			m.V = genVoxels(r, "checker", 14, 14, 14)
		case 1:
			m = runModel(r, runLens)
		case 2: // an empty model is a file, too
			if r.Intn(2) == 0 {
				m.V = vset{}
			}
		}
		vs := vshFromMap(m, shellOf(m.V))
		bv := m.bv()
		fn := filepath.Join(dir, "f")
		for what, write := range map[string]func(fn string) error{
			"binvox": func(fn string) error { return bv.Write(fn, 0, 0, 0, 0, 0, 0) },
			"vshell": func(fn string) error { return vs.Write(fn, 0, 0, 0, 0, 0, 0) },
		} {
			if err := write(fn); err != nil {
				rep.Bad = append(rep.Bad, fmt.Sprintf("%s Write without a limit: %v", what, err))
				continue
			}
			full, _ := os.ReadFile(fn)
			rep.Full = len(full)
			base := runtime.NumGoroutine()
			var old syscall.Rlimit
			syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
			step := 1
			if len(full) > 400 {
				step = 1 + r.Intn(len(full)/200+1)
			}
			var limits []int
			for l := 0; l < len(full); l += step {
				limits = append(limits, l)
			}
			limits = append(limits, len(full)-1, len(full), len(full)+1)
			for _, l := range limits {
				syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(l), Max: old.Max})
				err := write(fn)
				syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
				rep.Limits++
				b, _ := os.ReadFile(fn)
				complete := string(b) == string(full)
				if err != nil {
					rep.Failed++
				} else {
					rep.OK++
				}
				if err == nil && !complete {
					rep.Bad = append(rep.Bad, fmt.Sprintf("%s Write reported success, but only %d of %d bytes fitted on the device", what, len(b), len(full)))
				}
				if err != nil && l >= len(full) {
					rep.Bad = append(rep.Bad, fmt.Sprintf("%s Write failed although its %d bytes fitted: %v", what, len(full), err))
				}
			}
			if len(full) > 0 {
				if err := write("/dev/full"); err == nil {
					rep.Bad = append(rep.Bad, what+" Write to /dev/full reported success")
				}
			}
			for _, bad := range []string{filepath.Join(dir, "missing", "f"), dir, filepath.Join(fn, "f")} {
				if err := write(bad); err == nil {
					rep.Bad = append(rep.Bad, fmt.Sprintf("%s Write to %s reported success", what, bad))
				}
			}
			deadline := time.Now().Add(3 * time.Second)
			for runtime.NumGoroutine() > base && time.Now().Before(deadline) {
				time.Sleep(5 * time.Millisecond)
			}
			if n := runtime.NumGoroutine() - base; n > 0 {
				rep.Leaked += n
				rep.Bad = append(rep.Bad, fmt.Sprintf("%d failed %s writes left %d goroutines behind", rep.Failed, what, n))
			}
			if n := openFDs(fn); n > 0 {
				rep.Bad = append(rep.Bad, fmt.Sprintf("%s Write left %d files open", what, n))
			}
		}
		json.NewEncoder(os.Stdout).Encode(rep)
		return 0
	}
	// writelarge writes one large file and tells whether the write succeeded.
	helpers["writelarge"] = func(args []string) int {
		fn, what := args[0], args[1]
		seed, _ := strconv.ParseInt(args[2], 10, 64)
		runtime.LockOSThread() // strace counts the calls of each thread
		m := largeModel(rand.New(rand.NewSource(seed)), what)
		var err error
		if what == "binvox" {
			err = m.bv().Write(fn, 0, 0, 0, 0, 0, 0)
		} else {
			err = vshFromMap(m, shellOf(m.V)).Write(fn, 0, 0, 0, 0, 0, 0)
		}
		var rep largeReport
		if err != nil {
			rep.Err = err.Error()
		}
		json.NewEncoder(os.Stdout).Encode(rep)
		return 0
	}
	register(&checkDef{id: "C05", rule: "distinct (model, byte position at which the device is full) at which a write was made to fail or to succeed", run: func(c *Ctx) {
		c.Cases("limit", c.N(80, 400), 8, func(k *K, i int) {
			var rep faultReport
			seed := k.R.Int63()
			if err := selfHelper("writefault", &rep, k.TempDir(), fmt.Sprint(seed)); err != nil {
				k.Failf("died", "the writing process died: %v", err)
				return
			}
			for _, b := range rep.Bad {
				k.Failf("unreported", "%s (model seed %d)", b, seed)
			}
			k.Count("writes_failed", rep.Failed)
			k.Count("writes_completed", rep.OK)
			for l := 0; l < rep.Limits; l++ {
				k.Distinct("model %d (%d bytes), limit number %d of %d", seed, rep.Full, l, rep.Limits)
			}
		})
		// A device that fails once, at any of the system calls that write a large
		// file, and works again afterwards.
		c.Cases("moment", c.N(16, 80), 8, func(k *K, i int) {
			if !haveStrace() {
				k.Count("no_strace", 1)
				return
			}
			what := []string{"binvox", "vshell"}[i%2]
			seed := fmt.Sprint(k.R.Int63())
			exe, err := os.Executable()
			if err != nil {
				panic("harness: " + err.Error())
			}
			dir := k.TempDir()
			run := func(fn string, inject string) (rep largeReport, trace []string, ok bool) {
				log := filepath.Join(dir, "strace.log")
				a := []string{"-f", "-o", log, "-P", fn, "-e", "trace=write,writev,pwrite64,close,fsync"}
				if inject != "" {
					a = append(a, "-e", "inject="+inject)
				}
				cmd := exec.Command("strace", append(a, exe, "helper", "writelarge", fn, what, seed)...)
				var stderr limitedBuf
				cmd.Stderr = &stderr
				b, err := cmd.Output()
				t, _ := os.ReadFile(log)
				trace = strings.Split(strings.TrimSpace(string(t)), "\n")
				if err != nil || json.Unmarshal(b, &rep) != nil {
					k.Failf("died", "%s Write with %q: the writing process died: %v %s", what, inject, err, stderr.b)
					return rep, trace, false
				}
				return rep, trace, true
			}
			fn := filepath.Join(dir, "full")
			rep, trace, ok := run(fn, "")
			if !ok {
				return
			}
			if rep.Err != "" {
				k.Failf("failed", "%s Write without a fault: %v", what, rep.Err)
				return
			}
			full, err := os.ReadFile(fn)
			if err != nil {
				k.Failf("failed", "%s Write reported success, but wrote no file: %v", what, err)
				return
			}
			k.Count("large_bytes", len(full))
			n := calls(trace)
			for _, call := range []string{"write", "writev", "pwrite64", "close", "fsync"} {
				at := k.R.Perm(n[call])
				if len(at) > 6 {
					at = at[:6]
					at[0], at[1] = 0, n[call]-1
				}
				for _, w := range at {
					if w >= 60000 { // strace cannot count that far
						continue
					}
					fn := filepath.Join(dir, "faulty")
					os.Remove(fn)
					inject := fmt.Sprintf("%s:error=%s:when=%d", call, []string{"ENOSPC", "EIO", "EDQUOT"}[k.R.Intn(3)], w+1)
					rep, trace, ok := run(fn, inject)
					if !ok {
						return
					}
					if len(injected(trace)) == 0 {
						k.Count("faults_not_reached", 1)
						continue
					}
					k.Distinct("%s %s %s", what, seed, inject)
					b, _ := os.ReadFile(fn)
					k.Count("moments_failed", 1)
					if rep.Err == "" && (string(b) != string(full) || call == "close" || call == "fsync") {
						k.Failf("unreported", "%s Write of %d bytes reported success although %s (call %d of %d) failed", what, len(full), inject, w+1, n[call])
					}
				}
			}
		})
	}})
}

// largeReport is what a process says that wrote a large file.
type largeReport struct {
	Err string
}

// largeModel returns a model with up to a million runs.
func largeModel(r *rand.Rand, what string) *model {
	n := P{20 + r.Intn(30), 40 + r.Intn(60), 20 + r.Intn(30)}
	if what == "vshell" { // which takes a system call for each run
		n = P{5 + r.Intn(10), 20 + r.Intn(30), 5 + r.Intn(10)}
	} else if r.Intn(4) == 0 {
		n = P{100, 100, 100}
	}
	m := &model{N: n, MMPV: 1, V: vset{}}
	for x := 0; x < n.X; x++ {
		for z := 0; z < n.Z; z++ {
			for y := r.Intn(2); y < n.Y; y += 2 {
				m.V[P{x, y, z}] = struct{}{}
			}
		}
	}
	return m
}

// openFDs counts the descriptors of this process that refer to the file.
func openFDs(fn string) int {
	n := 0
	l, _ := filepath.Glob("/proc/self/fd/*")
	for _, f := range l {
		if t, err := os.Readlink(f); err == nil && t == fn {
			n++
		}
	}
	return n
}
