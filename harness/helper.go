package main

import (
	"fmt"
	"os"
	"strconv"
	"syscall"
)

var helpers = map[string]func(args []string) int{}

// helper runs one step of a check in a process of its own.
func helper(name string, args []string) {
	f := helpers[name]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no such helper:", name)
		os.Exit(2)
	}
	os.Exit(f(args))
}

func init() {
	// fsize LIMIT COMMAND ARGS... runs a command that ends when a file grows beyond the limit.
	helpers["fsize"] = func(args []string) int {
		n, _ := strconv.ParseUint(args[0], 10, 64)
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 99
		}
		err := syscall.Exec(args[1], args[1:], os.Environ())
		fmt.Fprintln(os.Stderr, err)
		return 99
	}
}
