// Command vsa decides the properties of /verif/properties.jsonl for the
// source tree it is pointed at, by static analysis only.
package main

import (
	"flag"
	"os"
	"runtime/pprof"
	"strconv"
	"strings"
)

func main() {
	repo := flag.String("repo", "/repo", "source tree to analyse")
	verif := flag.String("verif", "/verif", "where evidence and known findings live")
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	flag.Parse()
	if p := os.Getenv("VSA_PROF"); p != "" {
		f, _ := os.Create(p)
		_ = pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if s := os.Getenv("VSA_REFS"); s != "" {
		argsNonNil = true
		withHost = strings.HasPrefix(s, "c33")
		eqDebug(*repo, s)
		return
	}
	if s := os.Getenv("VSA_INV"); s != "" {
		invDebug(*repo, s)
		return
	}
	if s := os.Getenv("VSA_EFF"); s != "" {
		if s == "table" {
			effTable(*repo)
			return
		}
		effDebug(*repo, s)
		return
	}
	if s := os.Getenv("VSA_SYM"); s != "" {
		if s == "all" {
			symAll(*repo)
			return
		}
		symDebug(*repo, s)
		return
	}
	withHost = *prop == "C33"
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rc := runCheck(*prop, *repo, *verif, *tier, seed)
	pprof.StopCPUProfile()
	os.Exit(rc)
}
