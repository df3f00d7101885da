package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Check decides one property.
type Check struct {
	ID   string
	Pkgs []string // packages to load, default all
	Run  func(c *Ctx)
}

var checks = map[string]*Check{}

func register(id string, run func(c *Ctx)) {
	checks[id] = &Check{ID: id, Run: run}
}

func main() {
	prop := flag.String("property", "", "property to decide, or all, or a comma separated list")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "", "directory holding evidence and known findings")
	list := flag.Bool("list", false, "list the checks")
	flag.Parse()
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *verif == "" {
		*verif, _ = os.Getwd()
	}
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var ids []string
	if *prop == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	for _, id := range ids {
		if checks[id] == nil {
			fmt.Printf("no check for property %q\nVIOLATION property=%s replay=none\n", id, id)
			os.Exit(1)
		}
	}
	start := time.Now()
	p, err := Load(*repo, "./...")
	if err != nil {
		// a tree that cannot be analysed is not a tree the property holds on
		for _, id := range ids {
			rep := filepath.Join(*verif, "evidence", id+".violation.txt")
			os.MkdirAll(filepath.Dir(rep), 0755)
			os.WriteFile(rep, []byte(err.Error()+"\n"), 0644)
			fmt.Printf("%v\nVIOLATION property=%s replay=%s\n", err, id, rep)
		}
		os.Exit(1)
	}
	rc := 0
	for _, id := range ids {
		if runOne(p, checks[id], *tier, *verif, seed, start) != 0 {
			rc = 1
		}
		start = time.Now()
	}
	os.Exit(rc)
}

func runOne(p *Prog, ch *Check, tier, verif string, seed int, start time.Time) (rc int) {
	c := &Ctx{P: p, ID: ch.ID, Tier: tier, Verif: verif,
		Reports: map[string]*Report{}, Counts: map[string]map[string]bool{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.Violation("analysis-panic", 0, "the analysis failed: %v\n%s", r, debug.Stack())
			}
		}()
		ch.Run(c)
	}()
	return c.finish(start, seed)
}
