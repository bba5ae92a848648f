package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func main() {
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir, _ = os.Getwd()
	}
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repoDir = d
	}
	repoDir, _ = filepath.Abs(repoDir)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: checker <property>|all|list")
		os.Exit(1)
	}
	sort.Slice(checks, func(i, j int) bool { return checks[i].ID < checks[j].ID })
	want := os.Args[1]
	if want == "list" {
		for _, c := range checks {
			fmt.Println(c.ID, c.Title)
		}
		return
	}
	if want == "dump" {
		dump(os.Args[2:])
		return
	}
	if f := os.Getenv("VERIF_CPUPROFILE"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	debug.SetGCPercent(400)
	rc := runChecks(want, dir, tier, seed)
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func runChecks(want, dir, tier string, seed int) int {
	rc := 0
	found := false
	cache := map[Variant]*Prog{}
	errs := map[Variant]error{}
	for _, c := range checks {
		if want != "all" && !strings.Contains(","+want+",", ","+c.ID+",") {
			continue
		}
		found = true
		start := time.Now()
		r := newReport(c, tier)
		vs := c.Variants
		if vs == nil {
			vs = []Variant{vDefault, vNoQuic}
		}
		if tier == "thorough" {
			vs = append(append(append([]Variant{}, vs...), vWindows), c.Extra...)
		}
		var fatal error
		var wg sync.WaitGroup
		var mu sync.Mutex
		for _, v := range vs {
			if cache[v] != nil || errs[v] != nil {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				p, err := Load(v)
				mu.Lock()
				cache[v], errs[v] = p, err
				mu.Unlock()
			}()
		}
		wg.Wait()
		for _, v := range vs {
			if errs[v] != nil {
				fatal = errs[v]
				break
			}
			r.P = cache[v]
			r.Variants = append(r.Variants, v.Name)
			if err := safely(func() { c.Run(r, r.P) }); err != nil {
				fatal = err
			}
		}
		if x := r.finish(dir, start, seed, fatal); x != 0 {
			rc = 1
		}
	}
	if !found {
		fmt.Fprintln(os.Stderr, "unknown property", want)
		return 1
	}
	return rc
}

func safely(f func()) (err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("checker panic: %v\n%s", x, debug.Stack())
		}
	}()
	f()
	return nil
}

// dump prints the SSA of functions whose label contains the argument.
func dump(args []string) {
	v := vDefault
	p, err := Load(v)
	if err != nil {
		fmt.Println(err)
		return
	}
	for _, f := range p.Funcs {
		for _, a := range args {
			if strings.Contains(fnLabel(f), a) {
				f.WriteTo(os.Stdout)
			}
		}
	}
}
