package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

type runOpts struct {
	unroll   int
	peel     int
	candMs   int
	noUse    map[*Contract]bool
	maxFail  int
	limit    time.Duration
}

func runContract(L *Loaded, c *Contract, o runOpts) *Result1 {
	if c.Unresolv != "" {
		return &Result1{C: c, Err: "unresolved: " + c.Unresolv}
	}
	x := NewExec(L)
	defer x.closeSolvers()
	x.unroll = o.unroll
	x.peel = o.peel
	x.candMs = candMs
	if o.candMs > 0 {
		x.candMs = o.candMs
	}
	x.maxFail = o.maxFail
	for k := range o.noUse {
		x.noUse[k] = true
	}
	if o.limit > 0 {
		x.deadline = time.Now().Add(o.limit)
	}
	t0 := time.Now()
	err := x.verifyContract(c)
	r := x.result(c, err)
	r.Wall = time.Since(t0)
	return r
}

func runAll(L *Loaded, cs []*Contract, o runOpts, par int, f func(*Result1)) []*Result1 {
	out := make([]*Result1, len(cs))
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i, c := range cs {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int, c *Contract) {
			defer wg.Done()
			defer func() { <-sem }()
			out[i] = runContract(L, c, o)
			if f != nil {
				mu.Lock()
				f(out[i])
				mu.Unlock()
			}
		}(i, c)
	}
	wg.Wait()
	return out
}

func (r *Result1) failed() []*Ob {
	var f []*Ob
	for _, o := range r.Obs {
		if o.status != "proved" {
			f = append(f, o)
		}
	}
	return f
}

func (r *Result1) ok() bool { return r.Err == "" && r.Vacuous == "" && len(r.failed()) == 0 }

func main() {
	if f := os.Getenv("GOCV_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		time.AfterFunc(time.Duration(envInt("GOCV_PROFSEC", 30))*time.Second, pprof.StopCPUProfile)
	}
	if len(os.Args) > 1 && os.Args[1] == "dbg" {
		dbg(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "replay" {
		os.Exit(replayMain(os.Args[2:]))
	}
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(checkMain(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "usage: gocv check PROP quick|thorough | gocv dbg [flags] pattern...")
	os.Exit(2)
}

func dbg(args []string) {
	fs := flag.NewFlagSet("dbg", flag.ExitOnError)
	repo := fs.String("repo", envOr("GOCV_REPO", "/repo"), "")
	verif := fs.String("verif", "/verif", "")
	v := fs.Bool("v", false, "list all obligations")
	un := fs.Int("unroll", 0, "")
	peel := fs.Int("peel", 0, "")
	lim := fs.Int("t", 120, "seconds per contract")
	pan := fs.Bool("panics", false, "")
	inl := fs.Bool("inline", false, "do not use contracts at call sites")
	par := fs.Int("j", runtime.NumCPU(), "")
	model := fs.Bool("m", false, "show counterexample models")
	fs.DurationVar(&slowQ, "slow", 0, "")
	fs.Parse(args)
	debugPanics = *pan
	t0 := time.Now()
	L, err := Load(*repo, *verif)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %v\n", time.Since(t0).Round(time.Millisecond))
	for _, d := range L.dropped {
		fmt.Println("DROPPED", d)
	}
	var cs []*Contract
	for _, c := range L.contracts {
		for _, p := range fs.Args() {
			hit := strings.Contains(c.ID, p)
			for _, q := range c.Props {
				hit = hit || q == p
			}
			if hit {
				cs = append(cs, c)
				break
			}
		}
	}
	o := runOpts{unroll: *un, peel: *peel, limit: time.Duration(*lim) * time.Second}
	if *inl {
		o.noUse = map[*Contract]bool{}
		for _, c := range L.contracts {
			o.noUse[c] = true
		}
	}
	bad := 0
	runAll(L, cs, o, *par, func(r *Result1) {
		st := "ok"
		if !r.ok() {
			st = "FAIL"
			bad++
		}
		fmt.Printf("%-5s %-50s %d obs %d q %v", st, r.C.ID, len(r.Obs), r.Queries, r.Wall.Round(10*time.Millisecond))
		if r.Trunc {
			fmt.Print(" truncated")
		}
		if r.Err != "" {
			fmt.Print("  ERR ", r.Err)
		}
		if r.Vacuous != "" {
			fmt.Print("  VACUOUS ", r.Vacuous)
		}
		fmt.Println()
		sort.SliceStable(r.Obs, func(i, j int) bool { return r.Obs[i].name < r.Obs[j].name })
		for _, ob := range r.Obs {
			if *v || ob.status != "proved" {
				fmt.Printf("      %-7s %s  [%s] %dms %s\n", ob.status, ob.name, ob.by, ob.ms, ob.detail)
			}
			if f := os.Getenv("GOCV_OB"); f != "" && strings.Contains(ob.name, f) {
				fmt.Println(strings.Join(ob.trace, " | "))
				fmt.Println(ob.dump())
			}
			if ob.status != "proved" {
				for _, t := range ob.trace {
					fmt.Println("           |", t)
				}
				if *model {
					fmt.Println(ob.dump())
				}
			}
		}
	})
	fmt.Printf("%d contracts, %d bad, %v\n", len(cs), bad, time.Since(t0).Round(time.Millisecond))
	if bad > 0 {
		os.Exit(1)
	}
}

func envOr(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}
