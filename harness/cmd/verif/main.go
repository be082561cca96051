// Command verif runs the checks.
package main

import (
	"fmt"
	"os"
	"strconv"

	"verif/checks"
	"verif/rt"
)

func main() {
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: verif run|worker ID TIER")
		os.Exit(3)
	}
	if os.Args[1] == "serve" {
		checks.Serve(os.Args[2])
		return
	}
	if os.Args[1] == "limit" {
		checks.LimitFiles(os.Args[2])
		return
	}
	chk := checks.All[os.Args[2]]
	if chk == nil {
		fmt.Fprintln(os.Stderr, "no check", os.Args[2])
		os.Exit(3)
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	bin, repo, verif, only := os.Getenv("VERIF_BIN"), os.Getenv("VERIF_REPO"), os.Getenv("VERIF_DIR"), os.Getenv("VERIF_ONLY")
	switch os.Args[1] {
	case "run":
		os.Exit(rt.Parent(chk, os.Args[3], seed, bin, repo, verif, only))
	case "worker":
		rt.Work(chk, os.Args[3], seed, os.Getenv("VERIF_SCRATCH"), bin, repo, verif, only)
	}
}
