//go:build go1.21

package fsm

import "github.com/BTBurke/monny/internal/vc"

// specAllowed: the edge from -> to has been declared.
func specIn(s State, all []State) bool {
	return vc.Exists(0, len(all), func(i int) bool { return all[i] == s })
}

func specAllowed(m *Machine, from, to State) bool { return specIn(to, m.allowable[from]) }

func specNotYet(i int, s State, all []State) bool {
	return vc.Forall(0, i, func(j int) bool { return all[j] != s })
}

//vc:contract contains prop=C21
func cContains(s State, all []State) {
	vc.Invariant("not found yet", specNotYet)
	r := contains(s, all)
	vc.Ensures("member", func() bool { return r == specIn(s, all) })
}

//vc:contract (*Machine).Allowable prop=C21
func cAllowable(m *Machine, from, to State) {
	vc.Requires(func() bool { return m != nil })
	vc.Invariant("not found yet", specNotYet)
	r := m.Allowable(from, to)
	vc.Ensures("exactly the declared edges", func() bool { return r == specAllowed(m, from, to) })
}

//vc:contract (*Machine).State prop=C21
func cState(m *Machine) {
	vc.Requires(func() bool { return m != nil })
	r := m.State()
	vc.Ensures("current", func() bool { return r == m.current })
}

//vc:contract (*Machine).Transition prop=C21,C23
func cTransition(m *Machine, to State) {
	vc.Requires(func() bool { return m != nil })
	blocked := m.stoppable.stopOnError && m.stoppable.stopped
	from := m.current
	was := m.stoppable.stopped
	legal := specAllowed(m, from, to)
	vc.Invariant("not found yet", specNotYet)
	vc.Modifies(&m.current, &m.stoppable.stopped)
	err := m.Transition(to)
	vc.Ensures("succeeds exactly along declared edges", func() bool { return (err == nil) == (!blocked && legal) })
	vc.Ensures("state on success", func() bool { return vc.Imp(err == nil, m.current == to) })
	vc.Ensures("state unchanged on failure", func() bool { return vc.Imp(err != nil, m.current == from) })
	vc.Ensures("refusal is remembered", func() bool { return m.stoppable.stopped == (was || err != nil) })
	vc.Ensures("stop error while stopped", func() bool { return vc.Imp(blocked, vc.IsType[StopError](err)) })
	vc.Ensures("refusal error", func() bool { return vc.Imp(!blocked && !legal, vc.IsType[TransitionNotAllowed](err)) })
}

//vc:contract (*Machine).Reset prop=C21,C23
func cReset(m *Machine) {
	vc.Requires(func() bool { return m != nil })
	vc.Modifies(&m.current, &m.stoppable.stopped)
	m.Reset()
	vc.Ensures("initial state", func() bool { return m.current == m.initial })
	vc.Ensures("stop condition cleared", func() bool { return !m.stoppable.stopped })
}

// Once a stoppable machine has refused a transition it refuses all later ones: the refusal is
// remembered by every further attempt, so the step below can be repeated any number of times.
//
//vc:lemma prop=C23
func lStopped(m *Machine, a, b State) {
	vc.Assume(func() bool { return m != nil && m.stoppable.stopOnError })
	e1 := m.Transition(a)
	s := m.current
	st := m.stoppable.stopped
	e2 := m.Transition(b)
	vc.Assert("refused after a refusal", func() bool {
		return vc.Imp(e1 != nil, e2 != nil && vc.IsType[StopError](e2) && m.current == s)
	})
	vc.Assert("still stopped", func() bool { return vc.Imp(st, m.stoppable.stopped && m.stoppable.stopOnError) })
	m.Reset()
	vc.Assert("reset clears", func() bool { return !m.stoppable.stopped && m.current == m.initial })
	ok := specAllowed(m, m.current, b)
	e3 := m.Transition(b)
	vc.Assert("works again after reset", func() bool { return (e3 == nil) == ok })
}

// A machine that is not stoppable follows declared edges whatever happened before.
//
//vc:lemma prop=C23,C21
func lNotStoppable(m *Machine, a, b State) {
	vc.Assume(func() bool { return m != nil && !m.stoppable.stopOnError })
	_ = m.Transition(a)
	ok := specAllowed(m, m.current, b)
	e := m.Transition(b)
	vc.Assert("only the edge matters", func() bool { return (e == nil) == ok })
}

// ---- construction ----

//vc:contract T prop=C22
func cT(from State, tos []State) {
	vc.Invariant("edges so far", func(i int, r []Transition, tos []State) bool {
		return len(r) == i && vc.Forall(0, i, func(j int) bool { return r[j].From == from && r[j].To == tos[j] })
	})
	r := T(from, tos...)
	vc.Ensures("one edge per target, in order", func() bool {
		return len(r) == len(tos) && vc.Forall(0, len(r), func(j int) bool { return r[j].From == from && r[j].To == tos[j] })
	})
}
