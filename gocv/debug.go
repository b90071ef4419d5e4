package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

// dump shows the failed query and, when a solver gives one, a model of its scalar parts.
func (o *Ob) dump() string {
	var sb strings.Builder
	b := o.b
	for i, t := range o.terms {
		s := b.showD(t, 9)
		if len(s) > 600 {
			s = s[:600] + "…"
		}
		fmt.Fprintf(&sb, "      %3d: %s\n", i, s)
	}
	seen := map[*Term]bool{}
	var vs []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		if t.bound {
			return
		}
		switch t.sort {
		case SInt, SReal, SBool:
			if t.op == OVar || t.op == OApp || t.op == OSelect {
				vs = append(vs, t)
			}
		}
	}
	for _, t := range o.terms {
		walk(t)
	}
	if len(vs) > 120 {
		vs = vs[:120]
	}
	sol := NewSolver(b)
	defer sol.Close()
	r, vals := sol.Model(o.terms, vs, 5000)
	fmt.Fprintf(&sb, "      model: %v\n", r)
	var ls []string
	for i, v := range vals {
		if i < len(vs) {
			ls = append(ls, fmt.Sprintf("        %s = %s", b.showD(vs[i], 3), v))
		}
	}
	sort.Strings(ls)
	sb.WriteString(strings.Join(ls, "\n"))
	return sb.String()
}

func envInt(n string, d int) int {
	var v int
	if _, err := fmt.Sscanf(os.Getenv(n), "%d", &v); err == nil {
		return v
	}
	return d
}

// coreDump prints a minimal inconsistent subset of ts (debugging aid).
func (x *Exec) coreDump(ts []*Term) {
	cur := append([]*Term{}, ts...)
	if x.sol.Check(cur, 2000) != Unsat {
		fmt.Fprintln(os.Stderr, "core: not unsat")
		return
	}
	for i := 0; i < len(cur); {
		t := append(append([]*Term{}, cur[:i]...), cur[i+1:]...)
		if x.sol.Check(t, 2000) == Unsat {
			cur = t
		} else {
			i++
		}
	}
	fmt.Fprintln(os.Stderr, "CORE")
	for _, t := range cur {
		fmt.Fprintln(os.Stderr, "   ", x.b.showD(t, 9))
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			for _, a := range x.b.axioms[t] {
				fmt.Fprintln(os.Stderr, "        axiom", x.b.showD(a, 9))
				walk(a)
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		walk(t)
	}
}
