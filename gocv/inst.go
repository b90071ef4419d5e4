package main

import (
	"fmt"
	"os"
)

// Ground instantiation of quantified hypotheses: skolemise existentials, then replace universally
// quantified positions by instances over the ground terms that matter (skolem constants, the bounds
// of the ranges quantified over, keys used as map indices).  Every formula added is implied by the
// hypotheses (up to the choice of fresh skolem constants), so an unsatisfiable result is a proof.

type instRun struct {
	x                *Exec
	b                *Bank
	cand             map[*Sort][]*Term
	seenC            map[*Term]bool
	done             map[*Term]bool
	uni              []*Term // formulas containing universals in positive position
	out              []*Term // quantifier-free formulas
	queue            []*Term
	sk               map[*Term][]*Term // skolem constants per ∃ formula
	tried            map[[2]*Term]bool
	n                int
	gsel             map[*Term][]*Term // ground positions read, per array variable
	seenG            map[*Term]bool
	focused, noReads bool
}

// roots: the array variables that t may be a row of.
func (r *instRun) roots(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || len(seen) > 60 {
			return
		}
		seen[t] = true
		switch t.op {
		case OVar:
			out[t] = true
		case OSelect:
			walk(t.args[0])
		case OStore:
			walk(t.args[0])
			if t.args[2].sort != nil && t.args[2].sort.v != nil {
				walk(t.args[2])
			}
		case OIte:
			walk(t.args[1])
			walk(t.args[2])
		case OApp:
			out[t] = true
		}
	}
	walk(t)
	return out
}

// reads collects the positions at which ground arrays are read.
func (r *instRun) reads(t *Term) {
	if r.seenG[t] {
		return
	}
	r.seenG[t] = true
	if t.op == OSelect && !t.bound && t.args[1].sort == SInt {
		i := t.args[1]
		for s := range r.roots(t.args[0]) {
			dup := false
			for _, o := range r.gsel[s] {
				if o == i {
					dup = true
				}
			}
			if !dup && len(r.gsel[s]) < 24 {
				r.gsel[s] = append(r.gsel[s], i)
			}
		}
	}
	for _, a := range t.args {
		r.reads(a)
	}
}

// matches: values of v that make a read in body coincide with a ground read.
func (r *instRun) matches(v, body *Term) []*Term {
	if v.sort != SInt {
		return nil
	}
	b := r.b
	seen := map[*Term]bool{}
	got := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		if t.op == OSelect && t.args[1].sort == SInt && b.occurs(v, t.args[1]) {
			z := b.Subst(t.args[1], map[*Term]*Term{v: b.Int(0)})
			o := b.Sub(b.Subst(t.args[1], map[*Term]*Term{v: b.Int(1)}), z)
			if !z.bound && o.isNum() && o.cst.RatString() == "1" {
				for root := range r.roots(t.args[0]) {
					for _, g := range r.gsel[root] {
						c := b.Sub(g, z)
						if !got[c] && !c.bound {
							got[c] = true
							out = append(out, c)
						}
					}
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	sortTerms(out)
	if len(out) > 20 {
		out = out[:20]
	}
	return out
}

// nnf pushes negations inward, skolemising top-level existentials on the way.
func (r *instRun) nnf(t *Term, pol bool, under bool) *Term {
	b := r.b
	switch t.op {
	case ONot:
		return r.nnf(t.args[0], !pol, under)
	case OAnd, OOr:
		if !r.x.hasQ(t) {
			break
		}
		var a []*Term
		for _, s := range t.args {
			a = append(a, r.nnf(s, pol, under))
		}
		if (t.op == OAnd) == pol {
			return b.And(a...)
		}
		return b.Or(a...)
	case OEq:
		if t.args[0].sort == SBool && r.x.hasQ(t) {
			a, c := t.args[0], t.args[1]
			if pol {
				return b.And(b.Or(r.nnf(a, false, under), r.nnf(c, true, under)), b.Or(r.nnf(a, true, under), r.nnf(c, false, under)))
			}
			return b.And(b.Or(r.nnf(a, true, under), r.nnf(c, true, under)), b.Or(r.nnf(a, false, under), r.nnf(c, false, under)))
		}
	case OIte:
		if t.sort == SBool && r.x.hasQ(t) {
			g := t.args[0]
			return b.And(b.Or(r.nnf(g, false, under), r.nnf(t.args[1], pol, under)), b.Or(r.nnf(g, true, under), r.nnf(t.args[2], pol, under)))
		}
	case OForall:
		if pol {
			return t
		}
		if under {
			return b.Not(t)
		}
		n := len(t.args) - 1
		sk, ok := r.sk[t]
		if !ok {
			for _, v := range t.args[:n] {
				s := b.Fresh("isk", v.sort)
				sk = append(sk, s)
				r.addCand(s)
			}
			r.sk[t] = sk
		}
		m := map[*Term]*Term{}
		for i, v := range t.args[:n] {
			m[v] = sk[i]
		}
		return r.nnf(b.Subst(t.args[n], m), false, under)
	}
	if pol {
		return t
	}
	return b.Not(t)
}

func (r *instRun) addCand(t *Term) {
	if r.seenC[t] || t.bound {
		return
	}
	if len(r.cand[t.sort]) > 14 {
		return
	}
	r.seenC[t] = true
	r.cand[t.sort] = append(r.cand[t.sort], t)
}

// add a hypothesis
func (r *instRun) add(t *Term) {
	t = r.nnf(t, true, false)
	r.push(t)
}

func (r *instRun) push(t *Term) {
	if t.op == OAnd {
		for _, a := range t.args {
			r.push(a)
		}
		return
	}
	if r.done[t] {
		return
	}
	r.done[t] = true
	if r.x.hasQ(t) {
		r.uni = append(r.uni, t)
		r.bounds(t)
		if r.focused && !r.noReads {
			r.reads(t)
		}
	} else {
		r.out = append(r.out, t)
		if !r.noReads {
			r.reads(t)
		}
	}
}

// bounds collects the limits of integer ranges from the atoms of quantified bodies.
func (r *instRun) bounds(t *Term) {
	b := r.b
	var walk func(t *Term, vars map[*Term]bool)
	walk = func(t *Term, vars map[*Term]bool) {
		switch t.op {
		case OForall:
			n := len(t.args) - 1
			nv := map[*Term]bool{}
			for v := range vars {
				nv[v] = true
			}
			for _, v := range t.args[:n] {
				nv[v] = true
			}
			walk(t.args[n], nv)
		case ONot, OAnd, OOr:
			for _, a := range t.args {
				walk(a, vars)
			}
		case OLe0:
			for v := range vars {
				if v.sort != SInt || !b.occurs(v, t) {
					continue
				}
				z := b.Subst(t.args[0], map[*Term]*Term{v: b.Int(0)})
				o := b.Sub(b.Subst(t.args[0], map[*Term]*Term{v: b.Int(1)}), z)
				if !o.isNum() {
					continue
				}
				var c *Term
				switch o.cst.RatString() {
				case "1":
					c = b.Neg(z)
				case "-1":
					c = z
				default:
					continue
				}
				if !c.bound {
					r.addCand(c)
				}
			}
		}
	}
	walk(t, map[*Term]bool{})
}

// own: the limits of v's range.
func (r *instRun) own(v, body *Term) []*Term {
	b := r.b
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		switch t.op {
		case OForall, ONot, OAnd, OOr:
			for _, a := range t.args {
				walk(a)
			}
		case OLe0:
			if !b.occurs(v, t) {
				return
			}
			z := b.Subst(t.args[0], map[*Term]*Term{v: b.Int(0)})
			o := b.Sub(b.Subst(t.args[0], map[*Term]*Term{v: b.Int(1)}), z)
			if z.bound || !o.isNum() {
				return
			}
			switch o.cst.RatString() {
			case "1":
				out = append(out, b.Neg(z))
			case "-1":
				out = append(out, z)
			}
		}
	}
	walk(body)
	return out
}

// indexes: v is used as an array index in body
func (r *instRun) indexes(v, body *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] || !t.bound {
			return false
		}
		seen[t] = true
		if t.op == OSelect && t.args[1].sort == SInt && r.b.occurs(v, t.args[1]) {
			return true
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(body)
}

// instances of the first universal found in t with candidate c
func (r *instRun) first(t *Term) *Term {
	switch t.op {
	case OForall:
		return t
	case OOr, OAnd:
		for _, a := range t.args {
			if r.x.hasQ(a) {
				if f := r.first(a); f != nil {
					return f
				}
			}
		}
	}
	return nil
}

func (x *Exec) instantiate(terms []*Term, nGoal int, focused bool, try func(q []*Term) bool) bool {
	b := x.b
	r := &instRun{x: x, b: b, cand: map[*Sort][]*Term{}, seenC: map[*Term]bool{}, done: map[*Term]bool{}, sk: map[*Term][]*Term{}, tried: map[[2]*Term]bool{}, gsel: map[*Term][]*Term{}, seenG: map[*Term]bool{}, focused: focused}
	// skolem constants of the goal come first
	for i := len(terms) - 1; i >= 0; i-- {
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == OVar && len(t.name) > 2 && t.name[:2] == "sk" {
				r.addCand(t)
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		walk(terms[i])
	}
	for i := len(terms) - 1; i >= 0; i-- {
		r.noReads = focused && i < len(terms)-nGoal
		if !r.noReads && focused {
			r.reads(terms[i])
		}
		r.add(terms[i])
	}
	r.noReads = false
	// string keys used as indices in the goal and in map updates
	seen := map[*Term]bool{}
	var keys func(t *Term)
	keys = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if (t.op == OSelect || t.op == OStore) && t.args[1].sort != SInt && !t.args[1].bound {
			r.addCand(t.args[1])
		}
		for _, a := range t.args {
			keys(a)
		}
	}
	for i := len(terms) - 1; i >= 0; i-- {
		keys(terms[i])
	}
	var extra []*Term
	for _, c := range r.cand[SInt] {
		if c.op == OVar && !focused {
			extra = append(extra, b.Add(c, b.Int(1)), b.Sub(c, b.Int(1)))
		}
	}
	for _, c := range extra {
		r.addCand(c)
	}
	for round := 0; round < 5; round++ {
		us := r.uni
		before := r.n
		for _, u := range us {
			f := r.first(u)
			if f == nil {
				continue
			}
			n := len(f.args) - 1
			v := f.args[0]
			var cs []*Term
			if focused && v.sort == SInt {
				ms := r.matches(v, f.args[n])
				cs = append(cs, ms...)
				if round > 2 {
					cs = append(cs, r.own(v, f.args[n])...)
				}
				if !r.indexes(v, f.args[n]) {
					for _, c := range r.cand[SInt] {
						if c.op == OVar {
							cs = append(cs, c)
						}
					}
				}
			} else {
				cs = append(cs, r.cand[v.sort]...)
			}
			if debugInst && focused {
				fmt.Fprintf(os.Stderr, "R%d %d cands for %s\n", round, len(cs), b.showD(u, 9))
			}
			for _, c := range cs {
				k := [2]*Term{u, c}
				if r.tried[k] {
					continue
				}
				r.tried[k] = true
				body := b.Subst(f.args[n], map[*Term]*Term{v: c})
				if n > 1 {
					body = b.Forall(f.args[1:n], body)
				}
				t := b.Subst(u, map[*Term]*Term{f: body})
				r.n++
				if r.n > 900 {
					return try(r.out)
				}
				r.add(t)
			}
		}
		if r.n == before {
			break
		}
		if focused && try(r.out) {
			return true
		}
	}
	return try(r.out)
}
