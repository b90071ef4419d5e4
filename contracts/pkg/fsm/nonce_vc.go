//go:build go1.21

package fsm

import "github.com/BTBurke/monny/internal/vc"

// ---- NewMachine: options are applied once each, in order, until one fails ----

var optN int      // options run so far
var optOrder bool // they came in the order given
var optM *Machine // the machine they were given
var optStart bool // the first one saw an empty machine in its initial state
var optFail bool  // an option has failed

// optCall stands for any option.
func optCall(id int, m *Machine) error {
	optOrder = optOrder && id == vc.UFInt("option", optN) && m != nil && (optN == 0 || m == optM) && !optFail
	if optN == 0 {
		optStart = m.allowable != nil && len(m.allowable) == 0 && !m.stoppable.stopOnError && !m.stoppable.stopped
	}
	optM = m
	optN++
	if vc.UFBool("fails", id) {
		optFail = true
		return StopError{Msg: "option"}
	}
	return nil
}

//vc:contract NewMachine prop=C22 family=optCall noreplay
func cNewMachine(initial State, opts []MachineOption) {
	vc.Requires(func() bool {
		return optN == 0 && optOrder && optStart && !optFail && vc.Forall(0, len(opts), func(i int) bool {
			return opts[i] != nil && vc.FnID(opts[i]) == vc.UFInt("option", i)
		})
	})
	vc.Invariant("one per option", func(i int, m *Machine) bool {
		return optN == i && optOrder && optStart && !optFail && (optN == 0 || optM == m)
	})
	vc.Invariant("none failed", func(i int) bool {
		return vc.Forall(0, i, func(j int) bool { return !vc.UFBool("fails", vc.UFInt("option", j)) })
	})
	vc.Invariant("machine kept", func(m *Machine) bool { return m.current == initial && m.initial == initial })
	vc.Modifies(&optN, &optOrder, &optM, &optStart, &optFail)
	m, err := NewMachine(initial, opts...)
	vc.Ensures("options in order, each once, on an empty machine", func() bool { return optOrder && optStart })
	vc.Ensures("all options when none fails", func() bool { return vc.Imp(err == nil, !optFail && optN == len(opts)) })
	vc.Ensures("a failing option fails the construction", func() bool { return vc.Imp(optFail, err != nil && m == nil) })
	vc.Ensures("fails only if an option does", func() bool { return (err != nil) == optFail })
	vc.Ensures("the machine the options configured", func() bool { return vc.Imp(err == nil, m != nil && (optN == 0 || m == optM)) })
	vc.Ensures("no edges without options", func() bool {
		return vc.Imp(err == nil && len(opts) == 0, m != nil && len(m.allowable) == 0 && m.allowable != nil)
	})
	vc.Ensures("starts in the initial state", func() bool { return vc.Imp(err == nil, m.current == initial && m.initial == initial) })
}

// ---- nonces ----

func specNonceOk(n *nonce, sent []byte) bool {
	return len(n.current) == len(sent) && vc.Forall(0, len(sent), func(i int) bool { return n.current[i] == sent[i] })
}

// A machine in use: its nonce has 16 random bytes.
func nonceInv(m *MachineNonce) bool {
	return m != nil && m.m != nil && m.nonce != nil && len(m.nonce.current) == 16 && nonceUnused(m.nonce)
}

func nonceUnused(n *nonce) bool { return !vc.OnceDone(&n.once) }

//vc:contract newNonce prop=C24
func cNewNonce() {
	n, err := newNonce()
	vc.Ensures("never fails", func() bool { return err == nil })
	vc.Ensures("16 fresh random bytes", func() bool {
		return vc.Imp(err == nil, n != nil && len(n.current) == 16 && vc.Random(n.current))
	})
	vc.Ensures("not used yet", func() bool { return vc.Imp(err == nil, nonceUnused(n)) })
	vc.Ensures("fresh", func() bool { return vc.Imp(err == nil, vc.Fresh(n) && vc.Fresh(n.current)) })
}

//vc:contract (*nonce).ok prop=C24
func cNonceOk(n *nonce) {
	vc.Requires(func() bool { return n != nil })
	used := !nonceUnused(n)
	match := specNonceOk(n, n.received)
	vc.Modifies(&n.once)
	err := n.ok()
	vc.Ensures("accepts exactly a first presentation of the current nonce", func() bool { return (err == nil) == (!used && match) })
	vc.Ensures("used up", func() bool { return !nonceUnused(n) })
	vc.Ensures("error", func() bool { return vc.Imp(err != nil, vc.IsType[NonceError](err)) })
}

//vc:contract NewMachineNonce prop=C24 family=optCall noreplay
func cNewMachineNonce(initial State, opts []MachineOption) {
	vc.Requires(func() bool {
		return optN == 0 && optOrder && optStart && !optFail && vc.Forall(0, len(opts), func(i int) bool {
			return opts[i] != nil && vc.FnID(opts[i]) == vc.UFInt("option", i)
		})
	})
	vc.Modifies(&optN, &optOrder, &optM, &optStart, &optFail)
	m, err := NewMachineNonce(initial, opts...)
	vc.Ensures("fails only if an option does", func() bool { return (err != nil) == optFail })
	vc.Ensures("options applied", func() bool { return vc.Imp(err == nil, optN == len(opts) && optOrder && optStart) })
	vc.Ensures("fresh random nonce", func() bool {
		return vc.Imp(err == nil, nonceInv(m) && vc.Random(m.nonce.current) && vc.Fresh(m.nonce))
	})
	vc.Ensures("initial state", func() bool { return vc.Imp(err == nil, m.m.current == initial && m.m.initial == initial) })
}

//vc:contract (*MachineNonce).Transition prop=C24,C23
func cNonceTransition(m *MachineNonce, to State, sent []byte) {
	vc.Requires(func() bool { return nonceInv(m) })
	vc.Invariant("not found yet", specNotYet)
	mm := m.m
	blocked := mm.stoppable.stopOnError && mm.stoppable.stopped
	from := mm.current
	legal := specAllowed(mm, from, to)
	good := specNonceOk(m.nonce, sent)
	old := m.nonce
	vc.Modifies(&m.nonce, &m.nonce.received, &m.nonce.once, &m.m.current, &m.m.stoppable.stopped)
	err := m.Transition(to, sent)
	vc.Ensures("succeeds exactly with the current nonce along a declared edge", func() bool { return (err == nil) == (good && legal && !blocked) })
	vc.Ensures("state moves only on success", func() bool { return m.m == mm && mm.current == specPick(err == nil, to, from) })
	vc.Ensures("refusal is remembered", func() bool { return vc.Imp(err != nil, mm.stoppable.stopped) })
	vc.Ensures("a new random nonce after every attempt", func() bool {
		return nonceInv(m) && m.nonce != old && vc.Fresh(m.nonce) && vc.Fresh(m.nonce.current) && vc.Random(m.nonce.current)
	})
}

func specPick(c bool, a, b State) State {
	if c {
		return a
	}
	return b
}

//vc:contract (*MachineNonce).Reset prop=C24
func cNonceReset(m *MachineNonce) {
	vc.Requires(func() bool { return nonceInv(m) })
	mm := m.m
	old := m.nonce
	vc.Modifies(&m.nonce, &m.m.current, &m.m.stoppable.stopped)
	err := m.Reset()
	vc.Ensures("initial state, stop cleared", func() bool {
		return err == nil && m.m == mm && mm.current == mm.initial && !mm.stoppable.stopped
	})
	vc.Ensures("a new random nonce", func() bool {
		return nonceInv(m) && m.nonce != old && vc.Fresh(m.nonce) && vc.Fresh(m.nonce.current) && vc.Random(m.nonce.current)
	})
}

//vc:contract (*MachineNonce).Nonce prop=C24
func cNonceNonce(m *MachineNonce) {
	vc.Requires(func() bool { return nonceInv(m) })
	r := m.Nonce()
	vc.Ensures("current nonce", func() bool { return vc.Same(r, m.nonce.current) })
}

//vc:contract (*MachineNonce).State prop=C24
func cNonceState(m *MachineNonce) {
	vc.Requires(func() bool { return nonceInv(m) })
	r := m.State()
	vc.Ensures("current state", func() bool { return r == m.m.current })
}

//vc:contract (*MachineNonce).Allowable prop=C24
func cNonceAllowable(m *MachineNonce, from, to State) {
	vc.Requires(func() bool { return nonceInv(m) })
	vc.Invariant("not found yet", specNotYet)
	r := m.Allowable(from, to)
	vc.Ensures("exactly the declared edges", func() bool { return r == specAllowed(m.m, from, to) })
}

// A nonce that has been presented, rightly or wrongly, is never accepted again: the machine
// has replaced it by one that is not the same object, filled from the random source.
//
//vc:lemma prop=C24
func lNonceOnce(m *MachineNonce, a, b State, sent []byte) {
	vc.Assume(func() bool { return nonceInv(m) })
	n := m.nonce
	_ = m.Transition(a, sent)
	k := m.nonce
	_ = m.Transition(b, sent)
	vc.Assert("three different nonces", func() bool { return n != k && m.nonce != k && m.nonce != n && nonceInv(m) })
}

// For replay: machines in use, and attempts that often carry the right nonce.
func regGens() {
	vc.RegImpl(func(g *vc.Gen) *MachineNonce {
		n, err := newNonce()
		if err != nil {
			return nil
		}
		return &MachineNonce{m: vc.Make[*Machine](g), nonce: n}
	})
}

func gencNonceTransition(g *vc.Gen) (m *MachineNonce, to State, sent []byte) {
	m = vc.Make[*MachineNonce](g)
	to = vc.Make[State](g)
	if g.Bool() && m != nil {
		sent = append(sent, m.nonce.current...)
		if g.Int(3) == 0 {
			sent[g.Int(16)]++
		}
		if g.Int(4) == 0 {
			sent = sent[:g.Int(16)]
		}
	}
	return
}
