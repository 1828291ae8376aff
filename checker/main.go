package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
)

func main() {
	prop := flag.String("prop", "", "property id (or all)")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "/verif", "where evidence and known findings live")
	prof := flag.String("prof", "", "cpu profile")
	dump := flag.Bool("dump", false, "print every obligation")
	flag.Parse()
	debug.SetGCPercent(300)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	dumpAll = *dump
	ids := []string{*prop}
	if *prop == "all" {
		ids = nil
		for k := range registry {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	}
	rc := 0
	for _, id := range ids {
		if r := runCheck(id, *tier, *repo, *out, false); r != 0 {
			rc = r
		}
	}
	if rc != 0 {
		if *prof != "" {
			pprof.StopCPUProfile()
		}
		os.Exit(rc)
	}
	_ = fmt.Sprint
}

var dumpAll bool
