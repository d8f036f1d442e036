// harness runs the real code of stldice under workloads while monitors watch it.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check ID | list | setup")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2], os.Args[3:]))
	case "worker":
		worker(os.Args[2], os.Args[3:])
	case "helper":
		helper(os.Args[2], os.Args[3:])
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	case "setup":
		for _, p := range cliPackages {
			cli(p, false)
		}
		if err := goBuild(filepath.Join(verifDir, "harness"), "-race", "-o", filepath.Join(verifDir, ".build", "harness-race"), "."); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}
}

var cliPackages = []string{
	"cmd/voxcut", "cmd/voxcut-dice", "cmd/binvox-dice", "cmd/stldice", "cmd/merge-stl", "cmd/merge-binvox",
	"cmd/manifold-mesh", "cmd/marching-cubes", "cmd/svx2stl",
	"cmd/stl2svx", "cmd/stldice-mr",
	"stl2svx/stl2svx-server", "stl2svx/stl2svx-client", "server/stldice-slave",
}
