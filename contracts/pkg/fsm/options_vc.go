//go:build go1.21

package fsm

import "github.com/BTBurke/monny/internal/vc"

// The declared lists of a machine never share storage with each other.
func specSeparate(m *Machine) bool {
	return m.allowable != nil && vc.ForallKey(func(a State) bool {
		return vc.ForallKey(func(b State) bool {
			return vc.Imp(a != b, vc.NoAlias(m.allowable[a], m.allowable[b]))
		}, m.allowable)
	}, m.allowable)
}

// specEdges: the edges of the machine are those of the (arbitrary) relation "edge" plus extra.
func specEdges(m *Machine, extra func(f, t State) bool) bool {
	return vc.ForallKey(func(f State) bool {
		return vc.ForallKey(func(t State) bool {
			return specAllowed(m, f, t) == (vc.UFBool("edge", f, t) || extra(f, t))
		})
	})
}

//vc:lemma prop=C22 noreplay
func lWithTransition(t Transition, m *Machine) {
	vc.Assume(func() bool { return m != nil && specSeparate(m) })
	vc.Assume(func() bool { return specEdges(m, func(f, to State) bool { return false }) })
	cur := m.current
	err := WithTransition(t)(m)
	vc.Assert("accepted", func() bool { return err == nil && m.current == cur })
	vc.Assert("lists separate", func() bool { return specSeparate(m) })
	vc.Assert("exactly one edge added", func() bool {
		return specEdges(m, func(f, to State) bool { return f == t.From && to == t.To })
	})
}

// specListed: the edge f -> t is one of the first n of r.
func specListed(n int, r []Transition, f, t State) bool {
	return vc.Exists(0, n, func(k int) bool { return r[k].From == f && r[k].To == t })
}

func specNested(n int, ts [][]Transition, f, t State) bool {
	return vc.Exists(0, n, func(a int) bool { return specListed(len(ts[a]), ts[a], f, t) })
}

// The edge f -> t is arbitrary, so what holds of it holds of every edge.
//
//vc:lemma prop=C22
func lFlatten(ts [][]Transition, f, t State) {
	vc.Invariant("only listed so far", func(n int, ts [][]Transition, r []Transition) bool {
		return vc.Imp(specListed(len(r), r, f, t), specNested(n, ts, f, t))
	})
	vc.Invariant("all listed so far", func(n int, ts [][]Transition, r []Transition) bool {
		return vc.Imp(specNested(n, ts, f, t), specListed(len(r), r, f, t))
	})
	r := flatten(ts)
	vc.Assert("exactly the listed edges", func() bool { return specListed(len(r), r, f, t) == specNested(len(ts), ts, f, t) })
}

//vc:lemma prop=C22
func lWithTransitions(ts [][]Transition, m *Machine, f, t State) {
	vc.Assume(func() bool { return m != nil && specSeparate(m) })
	was := specAllowed(m, f, t)
	vc.Invariant("only listed so far", func(n int, ts [][]Transition, r []Transition) bool {
		return vc.Imp(specListed(len(r), r, f, t), specNested(n, ts, f, t))
	})
	vc.Invariant("all listed so far", func(n int, ts [][]Transition, r []Transition) bool {
		return vc.Imp(specNested(n, ts, f, t), specListed(len(r), r, f, t))
	})
	vc.Invariant("separate", func() bool { return specSeparate(m) })
	vc.Invariant("only edges so far", func(i int, all []Transition) bool {
		return vc.Imp(specAllowed(m, f, t), was || specListed(i, all, f, t))
	})
	vc.Invariant("all edges so far", func(i int, all []Transition) bool {
		return vc.Imp(was || specListed(i, all, f, t), specAllowed(m, f, t))
	})
	cur, ini := m.current, m.initial
	err := WithTransitions(ts...)(m)
	vc.Assert("accepted", func() bool { return err == nil && m.current == cur && m.initial == ini })
	vc.Assert("lists separate", func() bool { return specSeparate(m) })
	vc.Assert("only listed edges added", func() bool {
		return vc.Imp(specAllowed(m, f, t), was || specNested(len(ts), ts, f, t))
	})
	vc.Assert("every listed edge added", func() bool {
		return vc.Imp(was || specNested(len(ts), ts, f, t), specAllowed(m, f, t))
	})
}

//vc:lemma prop=C22,C23
func lWithStoppable(m *Machine) {
	vc.Assume(func() bool { return m != nil })
	a, c, i := m.allowable, m.current, m.initial
	err := WithStoppable()(m)
	vc.Assert("stoppable and otherwise unchanged", func() bool {
		return err == nil && m.stoppable.stopOnError && vc.Same(a, m.allowable) && m.current == c && m.initial == i
	})
}
