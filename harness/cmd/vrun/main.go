// vrun: driver, worker and replayer of the property checks.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"

	"verif/pbt"
	_ "verif/props"
)

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vrun check ID quick|thorough | replay FILE | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		for _, id := range pbt.IDs() {
			fmt.Println(id)
		}
	case "check":
		seed := uint64(1)
		if v := os.Getenv("VERIF_SEED"); v != "" {
			if n, err := strconv.ParseUint(v, 10, 64); err == nil {
				seed = n
			}
		}
		dir := os.Getenv("VERIF_DIR")
		if dir == "" {
			dir = "/verif"
		}
		os.Exit(pbt.Drive(os.Args[2], os.Args[3], seed, dir))
	case "worker":
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		pbt.Worker(os.Args[2], seed, atoi(os.Args[4]), atoi(os.Args[5]), atoi(os.Args[6]))
	case "workertape":
		pbt.WorkerTape(os.Args[2])
	case "workerpre":
		pbt.WorkerPre(os.Args[2], os.Args[3])
	case "replay":
		p, _ := filepath.Abs(os.Args[2])
		os.Exit(pbt.ReplayPath(p))
	default:
		os.Exit(2)
	}
}
