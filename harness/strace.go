package main

import (
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
)

// ---- faults at system calls ---------------------------------------------------
//
// A command runs under strace (a tracer of our own child), which fails or kills
// it at a chosen system call.

var straceOnce sync.Once
var straceWorks bool

func haveStrace() bool {
	straceOnce.Do(func() {
		d, err := os.MkdirTemp("", "verif-strace-")
		if err != nil {
			return
		}
		defer os.RemoveAll(d)
		log := filepath.Join(d, "log")
		err = exec.Command("strace", "-f", "-o", log, "-e", "trace=write", "-e", "inject=write:error=ENOSPC:when=1", "/bin/echo", "x").Run()
		b, _ := os.ReadFile(log)
		straceWorks = err != nil && strings.Contains(string(b), "INJECTED")
	})
	return straceWorks
}

// underStrace runs the command with the injections, and returns the trace.
func underStrace(k *K, dir string, env []string, inject []string, bin string, args ...string) (cliRes, []string) {
	log := filepath.Join(k.TempDir(), ".strace.log")
	a := []string{"-f", "-o", log, "-e", "trace=write,openat,renameat,renameat2,rename,close,fsync,ftruncate"}
	for _, i := range inject {
		a = append(a, "-e", "inject="+i)
	}
	res := runCLIEnv(dir, env, "strace", append(append(a, bin), args...)...)
	b, _ := os.ReadFile(log)
	os.Remove(log)
	return res, strings.Split(strings.TrimSpace(string(b)), "\n")
}

// calls counts the calls of each system call in a trace.
func calls(trace []string) map[string]int {
	out := map[string]int{}
	for _, l := range trace {
		f := strings.Fields(l)
		if len(f) < 2 {
			continue
		}
		if i := strings.IndexByte(f[1], '('); i > 0 {
			out[f[1][:i]]++
		}
	}
	return out
}

func injected(trace []string) (out []string) {
	for _, l := range trace {
		if strings.Contains(l, "INJECTED") {
			out = append(out, l)
		}
	}
	return out
}
