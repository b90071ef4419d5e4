package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// A check of property P proves every contract and lemma listed under P and, transitively, every
// contract those proofs rely on.
type checkRun struct {
	L       *Loaded
	prop    string
	tier    string
	seed    int64
	verif   string
	repo    string
	t0      time.Time
	budget  time.Duration
	par     int
	results map[*Contract]*Result1 // final verdict per contract
	bounded map[*Contract]string
	log     []string
	early   map[*Contract]*replayRes // failing inputs found before the retries
}

func (k *checkRun) left() time.Duration { return k.budget - time.Since(k.t0) }

func (k *checkRun) logf(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	k.log = append(k.log, s)
	fmt.Println(s)
}

func (k *checkRun) lim(d time.Duration) time.Duration {
	if l := k.left() - 60*time.Second; l < d {
		d = l
	}
	if d < 5*time.Second {
		d = 5 * time.Second
	}
	return d
}

func hasProp(c *Contract, p string) bool {
	for _, q := range c.Props {
		if q == p {
			return true
		}
	}
	return false
}

// verify proves cs, retrying undecided ones with the first loop iterations peeled off.
func (k *checkRun) verify(cs []*Contract, noUse map[*Contract]bool, limit time.Duration) map[*Contract]*Result1 {
	res := map[*Contract]*Result1{}
	todo := cs
	for i, at := range []struct{ peel, candMs int }{{0, 300}, {0, 900}, {1, 300}, {2, 300}} {
		if len(todo) == 0 || i > 0 && (k.left() < 120*time.Second || i > 1 && k.tier != "thorough" && time.Since(k.t0) > 150*time.Second) {
			break
		}
		peel := at.peel
		// a contract with several failed obligations is not worth finishing
		most := 8
		if i > 0 {
			most = 1
			limit = min(limit, 100*time.Second)
		}
		rs := runAll(k.L, todo, runOpts{maxFail: most, peel: peel, candMs: at.candMs, noUse: noUse, limit: k.lim(limit)}, k.par, nil)
		todo = nil
		k.logf("pass %d: %d contracts, %v", i, len(rs), time.Since(k.t0).Round(time.Second))
		for _, r := range rs {
			old := res[r.C]
			if old == nil || r.ok() || (old.Err != "" && r.Err == "") {
				r.Peel = peel
				res[r.C] = r
			}
			if !r.ok() && r.C.Unresolv == "" {
				todo = append(todo, r.C)
			}
		}
		// a failing input against the real code settles the matter without further proof attempts
		if i == 0 && len(todo) > 0 && noUse == nil && k.tryReplay(res, todo) {
			return res
		}
	}
	return res
}

// tryReplay runs the contracts of this property that were not proved against the real code.
func (k *checkRun) tryReplay(res map[*Contract]*Result1, todo []*Contract) bool {
	kn := k.known()
	var cs []*Contract
	for _, c := range todo {
		if !hasProp(c, k.prop) {
			continue
		}
		listed := false
		for _, o := range res[c].failed() {
			for _, f := range kn {
				if f.prop == k.prop && f.ob == o.name {
					listed = true
				}
			}
		}
		if !listed {
			cs = append(cs, c)
		}
	}
	if len(cs) == 0 {
		return false
	}
	rr, err := k.L.replay(cs, k.seed, 8, k.verif)
	if err != nil {
		k.logf("replay: %v", err)
	}
	found := false
	for c, r := range rr {
		if r != nil && r.Fail != "" {
			if k.early == nil {
				k.early = map[*Contract]*replayRes{}
			}
			k.early[c] = r
			found = true
		}
	}
	return found
}

func checkMain(args []string) int {
	if len(args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gocv check PROP quick|thorough")
		return 2
	}
	k := &checkRun{prop: args[0], tier: args[1], verif: "/verif", repo: "/repo", t0: time.Now(), results: map[*Contract]*Result1{}, bounded: map[*Contract]string{}}
	if v := os.Getenv("GOCV_VERIF"); v != "" {
		k.verif = v
	}
	if v := os.Getenv("GOCV_REPO"); v != "" {
		k.repo = v
	}
	k.seed = 1
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		k.seed = s
	}
	k.par = runtime.NumCPU()
	k.budget = 600 * time.Second
	if k.tier == "thorough" {
		k.budget = 3000 * time.Second
	}
	L, err := Load(k.repo, k.verif)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gocv: cannot load the program:", err)
		return 2
	}
	k.L = L
	var mine, open []*Contract
	for _, c := range L.contracts {
		if !hasProp(c, k.prop) {
			continue
		}
		if c.Unresolv != "" {
			k.logf("not decided: %s (%s)", c.ID, c.Unresolv)
			open = append(open, c)
			continue
		}
		if !c.Trusted {
			mine = append(mine, c)
		}
	}
	for _, d := range L.dropped {
		k.logf("not decided: contract does not fit the present code: %s", d)
	}
	first := k.verify(mine, nil, 240*time.Second)
	for c, r := range first {
		k.results[c] = r
	}
	// the contracts these proofs rely on
	deps := map[*Contract]bool{}
	front := append([]*Contract{}, mine...)
	for len(front) > 0 {
		var next []*Contract
		for _, c := range front {
			for _, u := range k.results[c].Used {
				if len(k.early) == 0 && !deps[u] && k.results[u] == nil && !u.Trusted {
					deps[u] = true
					next = append(next, u)
				}
			}
		}
		for c, r := range k.verify(next, nil, 240*time.Second) {
			k.results[c] = r
		}
		front = next
	}
	// a contract that no longer holds may not be used: verify through the body instead
	for round := 0; round < 4; round++ {
		bad := map[*Contract]bool{}
		for c, r := range k.results {
			if !r.ok() && !c.Lemma {
				bad[c] = true
			}
		}
		var again []*Contract
		for c, r := range k.results {
			hit := false
			for _, u := range r.Used {
				if bad[u] {
					hit = true
				}
			}
			if hit {
				again = append(again, c)
			}
		}
		if len(again) == 0 || k.left() < 100*time.Second || len(k.early) > 0 {
			break
		}
		sort.Slice(again, func(i, j int) bool { return again[i].ID < again[j].ID })
		for _, c := range again {
			k.logf("re-proving %s without the contracts that failed", c.ID)
		}
		for c, r := range k.verify(again, bad, 120*time.Second) {
			k.results[c] = r
		}
	}
	var failed []*Contract
	for _, c := range mine {
		if r := k.results[c]; !r.ok() {
			failed = append(failed, c)
		}
	}
	viol := k.judge(failed)
	k.evidence(mine, open, viol)
	if viol != "" {
		fmt.Println(viol)
		return 1
	}
	n := 0
	for _, c := range mine {
		n += len(k.results[c].Obs)
	}
	fmt.Printf("%s: %d contracts and lemmas, %d obligations, %v\n", k.prop, len(mine), n, time.Since(k.t0).Round(time.Second))
	return 0
}

type knownFinding struct{ prop, contract, ob, what string }

func (k *checkRun) known() []knownFinding {
	f, err := os.Open(filepath.Join(k.verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		// known: property=C20 obligation=<contract>/<name> :: <what fails>
		head, what, _ := strings.Cut(strings.TrimPrefix(l, "known:"), "::")
		kf := knownFinding{what: strings.TrimSpace(what)}
		for _, w := range strings.SplitN(strings.TrimSpace(head), " ", 2) {
			if v, ok := strings.CutPrefix(w, "property="); ok {
				kf.prop = v
			}
			if v, ok := strings.CutPrefix(w, "obligation="); ok {
				kf.ob = strings.TrimSpace(v)
			}
		}
		out = append(out, kf)
	}
	return out
}

// judge decides what the failed obligations mean and returns the VIOLATION line, if any.
func (k *checkRun) judge(failed []*Contract) string {
	if len(failed) == 0 {
		return ""
	}
	kn := k.known()
	var real []*Contract
	for _, c := range failed {
		r := k.results[c]
		all := r.Err == "" && r.Vacuous == ""
		for _, o := range r.failed() {
			hit := false
			for _, f := range kn {
				if f.prop == k.prop && f.ob == o.name {
					hit = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.prop, f.what)
				}
			}
			if !hit {
				all = false
			}
		}
		if !all {
			real = append(real, c)
		}
	}
	if len(real) == 0 {
		return ""
	}
	dir := filepath.Join(k.verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, k.prop+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n\n", k.prop)
	report := func(c *Contract) {
		r := k.results[c]
		fmt.Fprintf(&sb, "contract %s (%s, target %s)\n", c.ID, c.File, c.Name)
		if r.Err != "" {
			fmt.Fprintf(&sb, "  verifier: %s\n", r.Err)
		}
		if r.Vacuous != "" {
			fmt.Fprintf(&sb, "  verifier: %s\n", r.Vacuous)
		}
		for _, o := range r.failed() {
			fmt.Fprintf(&sb, "  FAILED obligation %s %s\n", o.name, o.detail)
			for _, t := range o.trace {
				fmt.Fprintf(&sb, "      | %s\n", t)
			}
		}
	}
	logged := map[string]bool{}
	for _, c := range real {
		report(c)
		for _, o := range k.results[c].failed() {
			if l := fmt.Sprintf("failed obligation: %s %s", o.name, o.detail); !logged[l] {
				logged[l] = true
				k.logf("%s", l)
			}
		}
		if e := k.results[c].Err; e != "" {
			k.logf("verifier stopped on %s: %s", c.ID, e)
		}
	}
	// 1. run the contracts against the real code
	secs := 12.0
	if k.tier == "thorough" {
		secs = 60
	}
	rr := k.early
	if len(rr) == 0 {
		var err error
		if rr, err = k.L.replay(real, k.seed, secs, k.verif); err != nil {
			k.logf("replay: %v", err)
		}
	}
	for _, c := range real {
		if r := rr[c]; r != nil && r.Fail != "" {
			fmt.Fprintf(&sb, "\nREPLAYED against the real code: %s fails: %s\n  input seed %d (%d inputs accepted before)\n%s\n%s\n", c.ID, r.Fail, r.Seed, r.Accepted, r.Input, r.Stack)
			fmt.Fprintf(&sb, "  reproduce: cd %s && ./bin/gocv replay -only %d %s\n", k.verif, r.Seed, c.ID)
			os.WriteFile(path, []byte(sb.String()), 0o644)
			return fmt.Sprintf("VIOLATION property=%s replay=%s", k.prop, path)
		}
	}
	// 2. bounded refutation
	decided := map[*Contract]bool{}
	var bad *Contract
	for _, n := range []int{3} {
		lim := k.lim(100 * time.Second)
		noUse := map[*Contract]bool{}
		for c, r := range k.results {
			if !r.ok() && !c.Lemma {
				noUse[c] = true
			}
		}
		rs := runAll(k.L, real, runOpts{maxFail: 1, unroll: n, noUse: noUse, limit: lim}, k.par, nil)
		for _, r := range rs {
			if r.ok() {
				decided[r.C] = true
				k.bounded[r.C] = fmt.Sprintf("all obligations hold for at most %d iterations of every loop; the unbounded proof did not go through", n)
				k.logf("bounded: %s holds for up to %d loop iterations (unbounded proof failed)", r.C.ID, n)
				continue
			}
			if bad == nil {
				bad = r.C
			}
			for _, o := range r.failed() {
				fmt.Fprintf(&sb, "\nbounded check (%d iterations) also fails: %s %s\n", n, o.name, o.detail)
			}
			if r.Err != "" {
				fmt.Fprintf(&sb, "\nbounded check (%d iterations) of %s stopped: %s\n", n, r.C.ID, r.Err)
			}
		}
	}
	if bad == nil {
		return ""
	}
	fmt.Fprintf(&sb, "\nSMT query of the first failed obligation:\n")
	for _, o := range k.results[bad].failed() {
		if len(o.terms) > 0 {
			s := o.dump()
			if len(s) > 60000 {
				s = s[:60000]
			}
			sb.WriteString(s)
			break
		}
	}
	os.WriteFile(path, []byte(sb.String()), 0o644)
	return fmt.Sprintf("VIOLATION property=%s replay=%s no-failing-input-found", k.prop, path)
}

func (k *checkRun) evidence(mine, open []*Contract, viol string) {
	type cev struct {
		Contract    string   `json:"contract"`
		Target      string   `json:"target"`
		Obligations int      `json:"obligations"`
		Discharged  int      `json:"discharged"`
		Queries     int      `json:"queries"`
		WallMs      int64    `json:"wall_ms"`
		Bounded     string   `json:"bounded,omitempty"`
		Peel        int      `json:"peeled_iterations,omitempty"`
		Uses        []string `json:"uses_contracts,omitempty"`
		Error       string   `json:"error,omitempty"`
	}
	var cs []cev
	obs, dis := 0, 0
	by := map[string]int{}
	assumed := map[string]bool{}
	models := map[string]bool{}
	fns := map[string]bool{}
	var solver int64
	vac := 0
	var all []*Contract
	for c := range k.results {
		all = append(all, c)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].ID < all[j].ID })
	trusted := map[string]bool{}
	var names []string
	for _, c := range all {
		r := k.results[c]
		e := cev{Contract: c.ID, Target: c.Name, Obligations: len(r.Obs), Queries: r.Queries, WallMs: r.Wall.Milliseconds(), Bounded: k.bounded[c], Error: r.Err, Peel: r.Peel}
		if r.Vacuous != "" {
			vac++
			e.Error = "vacuous: " + r.Vacuous
		}
		for _, o := range r.Obs {
			obs++
			solver += o.ms
			if o.status == "proved" {
				dis++
				e.Discharged++
				by[o.by]++
			}
			if hasProp(c, k.prop) {
				names = append(names, o.name)
			}
		}
		for _, u := range r.Used {
			e.Uses = append(e.Uses, u.ID)
			if u.Trusted {
				trusted[u.ID] = true
			}
		}
		for _, a := range r.Assumed {
			assumed[a] = true
		}
		for _, a := range r.Models {
			models[a] = true
		}
		for _, a := range r.Fns {
			fns[a] = true
		}
		cs = append(cs, e)
	}
	seen := map[string]bool{}
	var uniq []string
	for _, n := range names {
		if !seen[n] {
			seen[n] = true
			uniq = append(uniq, n)
		}
	}
	names = uniq
	var openIDs []string
	for _, c := range open {
		openIDs = append(openIDs, c.ID+": "+c.Unresolv)
	}
	openIDs = append(openIDs, k.L.dropped...)
	tb := []string{
		"gocv: translation of go/ssa to first-order logic, memory model and loop rule (/verif/gocv)",
		"go/types and golang.org/x/tools/go/ssa front end",
		"z3 5.x (main back end), z3 4.8.12 and cvc5 1.1.2 (portfolio)",
	}
	for _, m := range sortedKeys(models) {
		tb = append(tb, "library model: "+m)
	}
	for _, m := range sortedKeys(trusted) {
		tb = append(tb, "assumed contract: "+m)
	}
	as := append([]string{}, generalAssumptions...)
	as = append(as, sortedKeys(assumed)...)
	cov := map[string]any{
		"obligations":         obs,
		"discharged":          dis,
		"checker_cmd":         fmt.Sprintf("/verif/bin/gocv check %s %s", k.prop, k.tier),
		"trusted_base":        tb,
		"contracts":           cs,
		"backends":            by,
		"solver_ms":           solver,
		"functions_verified":  sortedKeys(fns),
		"obligation_names":    names,
		"vacuous_contracts":   vac,
		"undecided_contracts": openIDs,
		"bounded_contracts":   len(k.bounded),
	}
	nv := 0
	if viol != "" {
		nv = 1
	}
	ev := map[string]any{
		"property": k.prop, "tier": k.tier, "seed": k.seed, "level": "proof",
		"coverage": cov, "wall_s": time.Since(k.t0).Seconds(), "assumptions": as, "violations": nv,
	}
	os.MkdirAll(filepath.Join(k.verif, "evidence"), 0o755)
	j, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(k.verif, "evidence", k.prop+".json"), j, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

var generalAssumptions = []string{
	"floating point is treated as exact real arithmetic with separate NaN and infinity values (no rounding, no signed zero)",
	"lengths and capacities are at most 2^40; memory allocation does not fail",
	"a pointer to a field or element does not alias a pointer to a whole object of the same type unless the program created it so",
	"partial correctness: termination of loops is not proved",
	"goroutines run one at a time: a started goroutine runs when the current one blocks or finishes, not in between",
	"interface values hold one of the concrete types visible to the program, or an unknown implementation without effects on this program's memory",
}
