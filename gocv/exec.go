package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type OKind int

const (
	oRet OKind = iota
	oPanic
	oBack
	oExit
)

type Outcome struct {
	kind   OKind
	st     *State
	ret    []Val
	pan    *panicInfo
	fr     *Frame
	header *ssa.BasicBlock
	from   *ssa.BasicBlock
}

type deferred struct {
	run  func(st *State) []Outcome
	desc string
}

type activeLoop struct {
	li  *loopInfo
	dry bool
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []deferred
	loops  []activeLoop
	visits map[*ssa.BasicBlock]int
	iters  map[ssa.Value]*iterInfo
	cm     *cmode // contract mode if this is the frame of a contract function
	ct     *ctState
	depth  int
	site   string
}

type iterInfo struct {
	ref *Term
	typ types.Type
	vis string // region key for visited set
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = make(map[ssa.Value]Val, len(f.env)+8)
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = append([]deferred{}, f.defers...)
	g.loops = append([]activeLoop{}, f.loops...)
	g.visits = make(map[*ssa.BasicBlock]int, len(f.visits))
	for k, v := range f.visits {
		g.visits[k] = v
	}
	if f.ct != nil {
		c := *f.ct
		c.mods = append([]modLoc{}, f.ct.mods...)
		g.ct = &c
	}
	return &g
}

type Ob struct {
	name   string
	detail string
	status string // proved, failed, unknown
	by     string
	ms     int64
	terms  []*Term
	trace  []string
	quant  bool
	b      *Bank
}

type Exec struct {
	L           *Loaded
	b           *Bank
	sol         *Solver
	leafCache   map[string][]Leaf
	tags        map[string]int64
	tagTypes    map[int64]types.Type
	regLeaf     map[string]regInfo
	epochBase   map[string]*Term
	fnIDs       map[*ssa.Function]int64
	fnByID      map[int64]*ssa.Function
	globals     map[*ssa.Global]*Term
	writeLogs   []map[string]map[*Term]bool
	guards      []guard
	workers     []*Solver // for candidates checked at the same time
	eager       bool      // goroutines run at once and nobody else acts on channels
	useInTarget bool      // the contract in use stands for a call made by the target
	inTarget    bool
	pure        int
	dry         int
	unroll      int
	peel        int
	candMs      int // time limit for a query about a candidate loop invariant
	truncated   bool
	obs         []*Ob
	invs        []*invTmpl
	varReg      map[*Term]*varReg
	loopCache   map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	root        *Contract
	cms         []*cmode
	useSumm     bool
	noUse       map[*Contract]bool
	used        map[*Contract]bool
	covers      map[string]bool
	assumed     map[string]bool
	family      *ssa.Function
	rootCt      *ctState // modification clauses of the contract being proved
	holdPend    bool
	frozen      bool
	drains      *Term // a channel somebody else keeps receiving from
	loopEntry   *State // where the loop whose invariant is being evaluated was entered
	rely        *Term // what others may do, run when a goroutine starts and before a lock is taken
	deadline    time.Time
	specDepth   int
	steps       int
	inExtern    map[*ssa.Function]bool
	stack       []string
	fnsUsed     map[*ssa.Function]bool
	maxFail     int // give up after so many failed obligations; 0: never
	nFailed     int
	locks       map[string]bool
	nq          int
	nloop       int
	nperm       int
	nestDepth   int
	tickCh      map[*Term]bool
	specBy      map[string]specRef
	specSeen    map[*Term]bool
	specMax     int
	specState   *State
	models      map[string]bool
	guardsSet   map[string]bool
	initMode    bool
	targetDepth int
}

func NewExec(L *Loaded) *Exec {
	b := NewBank()
	x := &Exec{L: L, b: b, sol: NewSolver(b), leafCache: map[string][]Leaf{}, tags: map[string]int64{}, tagTypes: map[int64]types.Type{}, regLeaf: map[string]regInfo{}, epochBase: map[string]*Term{}, fnIDs: map[*ssa.Function]int64{}, fnByID: map[int64]*ssa.Function{}, globals: map[*ssa.Global]*Term{}, loopCache: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, noUse: map[*Contract]bool{}, used: map[*Contract]bool{}, covers: map[string]bool{}, assumed: map[string]bool{}, fnsUsed: map[*ssa.Function]bool{}, tickCh: map[*Term]bool{}, specBy: map[string]specRef{}, specSeen: map[*Term]bool{}, specMax: 3, models: map[string]bool{}, guardsSet: map[string]bool{}, varReg: map[*Term]*varReg{}, inExtern: map[*ssa.Function]bool{}}
	b.selHook = x.selFacts
	b.appHook = x.specHook
	return x
}

func (x *Exec) newState() *State {
	base := x.b.NewBase(nil, 0)
	x.axiom(base, x.b.Le(x.b.Int(1000), base))
	st := &State{reg: map[string]*Term{}, epoch: "H0", base: base}
	x.epochBase["H0"] = base
	st.clock = x.b.Fresh("clock", SInt)
	x.axiom(st.clock, x.leafFacts(Leaf{kind: KTime}, st.clock, nil)...)
	return st
}

type timeoutErr struct{}

func (x *Exec) tick() {
	x.steps++
	if x.steps%64 == 0 && !x.deadline.IsZero() && time.Now().After(x.deadline) {
		panic(timeoutErr{})
	}
}

// ---------- solver access ----------

func qfTerms(p *PC, has func(t *Term) bool) []*Term {
	var out []*Term
	for q := p; q != nil; q = q.prev {
		if !has(q.t) {
			out = append(out, q.t)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (x *Exec) hasQ(t *Term) bool { return x.b.hasQuantT(t) }

func (x *Exec) inPC(st *State, t *Term) bool {
	for q := st.pc; q != nil; q = q.prev {
		if q.t == t {
			return true
		}
	}
	return false
}

func (x *Exec) feasible(st *State, cond *Term) bool {
	if cond == x.b.T {
		return !st.dead
	}
	if cond == x.b.F || st.dead {
		return false
	}
	nc := x.b.Not(cond)
	for q := st.pc; q != nil; q = q.prev {
		if q.t == nc {
			return false
		}
		if q.t == cond {
			return true
		}
	}
	if x.pure > 0 || cond.bound {
		return true
	}
	ts := append(qfTerms(st.pc, x.hasQ), cond)
	x.nq++
	return x.sol.Check(ts, 300) != Unsat
}

// entails: quick proof attempt
func (x *Exec) entailsQF(st *State, goal *Term) bool {
	if goal == x.b.T || st.dead {
		return true
	}
	if goal == x.b.F {
		return false
	}
	if x.inPC(st, goal) {
		return true
	}
	if goal.bound || x.hasQ(goal) {
		return false
	}
	ts := append(qfTerms(st.pc, x.hasQ), x.b.Not(goal))
	return x.sol.Check(ts, 300) == Unsat
}

// splitGoal: goals all of which must be proved, each with extra hypotheses (negated disjuncts)
func (x *Exec) splitGoal(g *Term) [][]*Term {
	b := x.b
	switch g.op {
	case OTrue:
		return nil
	case OAnd:
		var out [][]*Term
		for _, a := range g.args {
			out = append(out, x.splitGoal(a)...)
		}
		return out
	case OEq:
		if g.args[0].sort == SBool && x.hasQ(g) {
			l, r := g.args[0], g.args[1]
			return append(x.splitGoal(b.Or(b.Not(l), r)), x.splitGoal(b.Or(l, b.Not(r)))...)
		}
	case ONot:
		if e := g.args[0]; e.op == OEq && e.args[0].sort == SBool && x.hasQ(e) {
			l, r := e.args[0], e.args[1]
			return append(x.splitGoal(b.Or(l, r)), x.splitGoal(b.Or(b.Not(l), b.Not(r)))...)
		}
	case OForall:
		m := map[*Term]*Term{}
		for _, v := range g.args[:len(g.args)-1] {
			m[v] = b.Fresh("sk", v.sort)
		}
		return x.splitGoal(b.Subst(g.args[len(g.args)-1], m))
	case OOr:
		// distribute: or of (conj / forall) — negate: all disjuncts false
		hyps := [][]*Term{{}}
		for _, a := range g.args {
			var parts [][]*Term
			if a.op == OForall || (a.op == OAnd && x.hasQ(a)) {
				parts = x.splitGoal(a)
			} else {
				parts = [][]*Term{{b.Not(a)}}
			}
			var nh [][]*Term
			for _, h := range hyps {
				for _, p := range parts {
					nh = append(nh, append(append([]*Term{}, h...), p...))
				}
			}
			hyps = nh
			if len(hyps) > 64 {
				return [][]*Term{{b.Not(g)}}
			}
		}
		return hyps
	}
	return [][]*Term{{b.Not(g)}}
}

func (x *Exec) prove(st *State, goal *Term, timeout int) (bool, []*Term) {
	if goal == x.b.T || st.dead || x.inPC(st, goal) {
		return true, nil
	}
	qf := qfTerms(st.pc, x.hasQ)
	all := st.pc.terms()
	for _, h := range x.splitGoal(goal) {
		anyQ := len(qf) != len(all)
		hq := false
		for _, t := range h {
			if x.hasQ(t) {
				hq = true
			}
		}
		x.nq++
		if !hq && anyQ {
			if x.sol.Check(append(append([]*Term{}, qf...), h...), 400) == Unsat {
				continue
			}
		}
		q := append(append([]*Term{}, all...), h...)
		if !hq && !anyQ {
			if x.sol.Check(q, timeout) == Unsat {
				continue
			}
			return false, q
		}
		t1 := timeout
		if t1 > 700 {
			t1 = 700
		}
		r := x.sol.Check(q, t1)
		if r == Unsat {
			continue
		}
		if r != Sat && x.proveInst(q, len(h), timeout) {
			continue
		}
		if t1 < timeout && r != Sat && x.sol.Check(q, timeout) == Unsat {
			continue
		}
		return false, q
	}
	return true, nil
}

// proveInst refutes q from ground instances of its quantified parts.
func (x *Exec) proveInst(q []*Term, nGoal, timeout int) bool {
	if timeout > 3000 {
		timeout = 3000
	}
	return x.proveInst1(q, nGoal, timeout, false) || x.proveInst1(q, nGoal, timeout, true)
}

func (x *Exec) proveInst1(q []*Term, nGoal, timeout int, focused bool) bool {
	last := 0
	return x.instantiate(q, nGoal, focused, func(in []*Term) bool {
		if len(in) == last {
			return false
		}
		last = len(in)
		x.nq++
		r := x.sol.Check(in, timeout)
		if debugInst {
			fmt.Fprintf(os.Stderr, "inst: %d formulas -> %v\n", len(in), r)
			for _, t := range in {
				fmt.Fprintln(os.Stderr, "   ", x.b.showD(t, 9))
			}
			if r == Sat {
				o := &Ob{b: x.b, terms: in}
				fmt.Fprintln(os.Stderr, o.dump())
			}
		}
		return r == Unsat
	})
}

var debugInst = os.Getenv("GOCV_INST") != ""

func (x *Exec) obName(name string) string {
	if x.root != nil {
		return x.root.ID + "/" + name
	}
	return name
}

func (x *Exec) oblige(st *State, name string, goal *Term, detail string) {
	if x.pure > 0 || st.dead {
		return
	}
	if x.dry > 0 {
		x.assume(st, goal)
		return
	}
	t0 := time.Now()
	o := &Ob{b: x.b, name: x.obName(name), detail: detail, trace: append([]string{}, st.trace...)}
	ok, q := x.prove(st, goal, x.obTimeout())
	o.quant = x.hasQ(goal)
	o.ms = time.Since(t0).Milliseconds()
	if ok {
		o.status = "proved"
		o.by = "z3"
		if goal == x.b.T {
			o.by = "simplifier"
		}
	} else if x.unroll == 0 {
		r, by := Portfolio(x.b, q, x.portfolioTimeout())
		if r == Unsat {
			// remaining parts were not tried: prove them one by one
			if x.proveAll(st, goal) {
				o.status, o.by = "proved", by
			}
		}
		o.ms = time.Since(t0).Milliseconds()
	}
	if o.status == "" {
		o.status = "failed"
		o.terms = q
	}
	x.obs = append(x.obs, o)
	if slowOb && (o.ms > 1000 || o.status == "failed") {
		fmt.Fprintln(os.Stderr, "OB", o.name, o.status, o.by, o.ms, "ms", b2s(x.b, goal))
		for _, t := range o.trace {
			fmt.Fprintln(os.Stderr, "     ", t)
		}
	}
	if o.status == "failed" {
		if x.nFailed++; x.nFailed == x.maxFail {
			panic(failFastErr{o})
		}
	}
	x.assume(st, goal)
}

type failFastErr struct{ o *Ob }

func (x *Exec) proveAll(st *State, goal *Term) bool {
	all := st.pc.terms()
	for _, h := range x.splitGoal(goal) {
		q := append(append([]*Term{}, all...), h...)
		if x.sol.Check(q, 1000) == Unsat {
			continue
		}
		if r, _ := Portfolio(x.b, q, x.portfolioTimeout()); r != Unsat {
			return false
		}
	}
	return true
}

var slowOb = os.Getenv("GOCV_SLOWOB") != ""

func b2s(b *Bank, t *Term) string {
	s := b.showD(t, 7)
	if len(s) > 600 {
		s = s[:600]
	}
	return s
}

var obTimeoutMs = 4000
var portfolioMs = 15000

func (x *Exec) obTimeout() int                  { return obTimeoutMs }
func (x *Exec) portfolioTimeout() time.Duration { return time.Duration(portfolioMs) * time.Millisecond }

// ---------- running functions ----------

type infeasible struct{}

func (x *Exec) panicOut(st *State, fr *Frame, why string) Outcome {
	v := Val{x.b.Int(-1), x.b.Int(0)}
	return Outcome{kind: oPanic, st: st, fr: fr, pan: &panicInfo{val: v, runtime: true, why: why}}
}

// check: cond must hold or the program panics. returns ok-state (possibly nil) and panic outcomes
func (x *Exec) check(st *State, fr *Frame, cond *Term, why string) (bool, []Outcome) {
	if x.pure > 0 {
		return true, nil
	}
	if cond == x.b.T {
		return true, nil
	}
	var outs []Outcome
	nc := x.b.Not(cond)
	if x.feasible(st, nc) {
		// maybe quantified facts exclude it
		if ok, _ := x.quickProve(st, cond); !ok {
			ps := st.clone()
			x.assume(ps, nc)
			x.note(ps, "panic: "+why)
			outs = append(outs, x.panicOut(ps, fr.clone(), why))
		}
	}
	if !x.feasible(st, cond) {
		return false, outs
	}
	x.assume(st, cond)
	return true, outs
}

func (x *Exec) quickProve(st *State, goal *Term) (bool, []*Term) {
	all := st.pc.terms()
	anyQ := false
	for _, t := range all {
		if x.hasQ(t) {
			anyQ = true
		}
	}
	if !anyQ {
		return false, nil
	}
	ms := 1500
	if x.dry > 0 || x.root != nil && x.root.Opts["panics"] == "ok" {
		ms = 250
	}
	return x.sol.Check(append(append([]*Term{}, all...), x.b.Not(goal)), ms) == Unsat, nil
}

var maxDepth = 60

// others lets everyone else act (vc.Rely).
func (x *Exec) others(st *State, fr *Frame) *State {
	if x.rely == nil || !x.inTarget || x.pure > 0 {
		return st
	}
	x.inTarget = false
	outs := x.callVal(st, fr, x.rely, types.NewSignatureType(nil, nil, nil, nil, nil, false), nil, nil, "others")
	x.inTarget = true
	if len(outs) != 1 || outs[0].kind != oRet {
		panic(unsup("a rely function with branches"))
	}
	return outs[0].st
}

// callBody runs fn's body
func (x *Exec) callBody(st *State, fn *ssa.Function, args []Val, bind []Val, cm *cmode, site string) []Outcome {
	if len(fn.Blocks) == 0 {
		panic(unsup("no body: " + fn.String()))
	}
	if len(x.stack) > maxDepth {
		panic(unsup("call depth exceeded at " + fn.String()))
	}
	x.fnsUsed[fn] = true
	x.stack = append(x.stack, fn.Name())
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, visits: map[*ssa.BasicBlock]int{}, iters: map[ssa.Value]*iterInfo{}, cm: cm, site: site}
	if cm != nil {
		fr.ct = &ctState{}
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		fr.env[v] = bind[i]
	}
	outs := x.runBlock(st, fr, fn.Blocks[0], nil)
	// panics: run deferred calls
	var res []Outcome
	work := outs
	for len(work) > 0 {
		o := work[0]
		work = work[1:]
		if o.kind == oPanic && o.pan.block {
			o.fr = nil
			res = append(res, o)
			continue
		}
		if o.kind != oPanic || o.fr == nil || o.fr.fn != fn {
			if o.kind == oBack || o.kind == oExit {
				panic("loop outcome escaped " + fn.String())
			}
			res = append(res, o)
			continue
		}
		if len(o.fr.defers) == 0 {
			if o.pan.recovered {
				work = append(work, x.recovered(o, fn)...)
			} else {
				o.fr = nil
				res = append(res, o)
			}
			continue
		}
		d := o.fr.defers[len(o.fr.defers)-1]
		o.fr.defers = o.fr.defers[:len(o.fr.defers)-1]
		o.st.pan = append(o.st.pan, o.pan)
		for _, p := range d.run(o.st) {
			top := p.st.pan[len(p.st.pan)-1]
			p.st.pan = p.st.pan[:len(p.st.pan)-1]
			nf := o.fr.clone()
			switch p.kind {
			case oRet:
				work = append(work, Outcome{kind: oPanic, st: p.st, fr: nf, pan: top})
			case oPanic:
				work = append(work, Outcome{kind: oPanic, st: p.st, fr: nf, pan: p.pan})
			}
		}
	}
	return res
}

func (x *Exec) recovered(o Outcome, fn *ssa.Function) []Outcome {
	if fn.Recover != nil {
		return x.runBlock(o.st, o.fr, fn.Recover, nil)
	}
	var ret []Val
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		ret = append(ret, x.zero(fn.Signature.Results().At(i).Type()))
	}
	return []Outcome{{kind: oRet, st: o.st, ret: ret}}
}

func (x *Exec) jump(st *State, fr *Frame, from, to *ssa.BasicBlock) []Outcome {
	if st.dead {
		return nil
	}
	// active loops
	for len(fr.loops) > 0 {
		top := fr.loops[len(fr.loops)-1]
		if to == top.li.header {
			return []Outcome{{kind: oBack, st: st, fr: fr, header: to, from: from}}
		}
		if top.li.blocks[to] {
			break
		}
		if top.dry {
			return []Outcome{{kind: oExit, st: st, fr: fr}}
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	if li := x.loops(fr.fn)[to]; li != nil {
		return x.execLoop(st, fr, li, from)
	}
	return x.runBlock(st, fr, to, from)
}

func (x *Exec) phiVals(st *State, fr *Frame, blk, prev *ssa.BasicBlock) map[*ssa.Phi]Val {
	m := map[*ssa.Phi]Val{}
	pi := -1
	for i, p := range blk.Preds {
		if p == prev {
			pi = i
		}
	}
	for _, in := range blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		m[ph] = x.val(st, fr, ph.Edges[pi])
	}
	return m
}

func (x *Exec) runBlock(st *State, fr *Frame, blk, prev *ssa.BasicBlock) []Outcome {
	if prev != nil {
		pv := x.phiVals(st, fr, blk, prev)
		for p, v := range pv {
			fr.env[p] = v
		}
	}
	return x.runFrom(st, fr, blk, 0)
}

func (x *Exec) runFrom(st *State, fr *Frame, blk *ssa.BasicBlock, idx int) []Outcome {
	var outs []Outcome
	for i := idx; i < len(blk.Instrs); i++ {
		x.tick()
		if st.dead {
			return outs
		}
		in := blk.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.DebugRef:
			continue
		case *ssa.Jump:
			return append(outs, x.jump(st, fr, blk, blk.Succs[0])...)
		case *ssa.If:
			c := x.val(st, fr, in.Cond)[0]
			ft := x.feasible(st, c)
			ff := x.feasible(st, x.b.Not(c))
			if ft && ff {
				st2 := st.clone()
				fr2 := fr.clone()
				if x.pure > 0 {
					x.pushPC(st, c)
					x.pushPC(st2, x.b.Not(c))
				} else {
					x.assume(st, c)
					x.assume(st2, x.b.Not(c))
				}
				if x.pure == 0 {
					ps := x.L.fset.Position(condPos(in))
					if ps.Line > 0 {
						x.note(st, fmt.Sprintf("%s:%d true", base(ps.Filename), ps.Line))
						x.note(st2, fmt.Sprintf("%s:%d false", base(ps.Filename), ps.Line))
					}
				}
				outs = append(outs, x.jump(st, fr, blk, blk.Succs[0])...)
				outs = append(outs, x.jump(st2, fr2, blk, blk.Succs[1])...)
				return outs
			}
			if ft {
				x.assume(st, c)
				return append(outs, x.jump(st, fr, blk, blk.Succs[0])...)
			}
			if ff {
				x.assume(st, x.b.Not(c))
				return append(outs, x.jump(st, fr, blk, blk.Succs[1])...)
			}
			return outs
		case *ssa.Return:
			var ret []Val
			for _, r := range in.Results {
				ret = append(ret, x.val(st, fr, r))
			}
			if fr.cm != nil && fr.cm.kind == cmUse {
				if !fr.ct.called {
					panic(unsup("contract " + fr.cm.c.ID + " does not call its target on some path"))
				}
				ret = fr.ct.res
			}
			return append(outs, Outcome{kind: oRet, st: st, ret: ret})
		case *ssa.Panic:
			v := x.val(st, fr, in.X)
			x.note(st, "explicit panic")
			return append(outs, Outcome{kind: oPanic, st: st, fr: fr, pan: &panicInfo{val: v, why: "explicit panic"}})
		case *ssa.RunDefers:
			if len(fr.defers) == 0 {
				continue
			}
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			for _, o := range d.run(st) {
				f2 := fr.clone()
				if o.kind == oPanic {
					o.fr = f2
					outs = append(outs, o)
					continue
				}
				outs = append(outs, x.runFrom(o.st, f2, blk, i)...)
			}
			return outs
		case *ssa.Defer:
			d := x.prepCall(st, fr, &in.Call, in)
			fr.defers = append(fr.defers, deferred{run: d, desc: in.String()})
			continue
		case *ssa.Go:
			d := x.prepCall(st, fr, &in.Call, in)
			if !x.eager {
				x.spawn(st, d, in.String())
				continue
			}
			acq, was := st.acq, x.inTarget
			st.acq = 0
			x.inTarget = true
			st = x.others(st, fr)
			held := x.heldLocks(st) // what each goroutine holds is its own affair
			x.setHeld(st, nil)
			cs := d(st)
			x.inTarget = was
			for j, o := range cs {
				o.st.acq = acq
				x.setHeld(o.st, held)
				f2 := fr
				if j < len(cs)-1 {
					f2 = fr.clone()
				}
				if o.kind == oPanic && !o.pan.block {
					o.pan.why = "in goroutine: " + o.pan.why
					o.fr = f2.clone()
					outs = append(outs, o)
					continue
				}
				if len(cs) == 1 {
					st = o.st
					continue
				}
				outs = append(outs, x.runFrom(o.st, f2, blk, i+1)...)
			}
			if len(cs) == 1 && !(cs[0].kind == oPanic && !cs[0].pan.block) {
				continue
			}
			return outs
		case *ssa.Call:
			cs := x.prepCall(st, fr, &in.Call, in)(st)
			for j, o := range cs {
				f2 := fr
				if j < len(cs)-1 {
					f2 = fr.clone()
				}
				switch o.kind {
				case oPanic:
					if o.fr == nil || o.fr.fn != fr.fn {
						o.fr = f2.clone()
					}
					outs = append(outs, o)
				case oRet:
					f2.env[in] = flatRet(o.ret)
					if len(cs) == 1 {
						st = o.st
						continue
					}
					outs = append(outs, x.runFrom(o.st, f2, blk, i+1)...)
				default:
					panic("call outcome kind")
				}
			}
			if len(cs) == 1 && cs[0].kind == oRet {
				continue
			}
			return outs
		case *ssa.Select:
			for _, o := range x.execSelect(st, fr, in) {
				if o.kind == oPanic {
					outs = append(outs, o)
					continue
				}
				f2 := fr.clone()
				f2.env[in] = flatRet(o.ret)
				outs = append(outs, x.runFrom(o.st, f2, blk, i+1)...)
			}
			return outs
		case *ssa.Next:
			for _, o := range x.execNext(st, fr, in) {
				f2 := fr.clone()
				f2.env[in] = flatRet(o.ret)
				outs = append(outs, x.runFrom(o.st, f2, blk, i+1)...)
			}
			return outs
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				rs := x.recvOp(st, fr, x.val(st, fr, in.X)[0], in.X.Type().Underlying().(*types.Chan).Elem(), in.CommaOk)
				for _, o := range rs {
					if o.kind == oPanic {
						outs = append(outs, o)
						continue
					}
					f2 := fr.clone()
					f2.env[in] = flatRet(o.ret)
					outs = append(outs, x.runFrom(o.st, f2, blk, i+1)...)
				}
				return outs
			}
			ok, po := x.instr(st, fr, in)
			outs = append(outs, po...)
			if !ok {
				return outs
			}
		case *ssa.Send:
			rs := x.sendOp(st, fr, x.val(st, fr, in.Chan)[0], in.Chan.Type().Underlying().(*types.Chan).Elem(), x.val(st, fr, in.X))
			for _, o := range rs {
				if o.kind == oPanic {
					outs = append(outs, o)
					continue
				}
				outs = append(outs, x.runFrom(o.st, fr.clone(), blk, i+1)...)
			}
			return outs
		case *ssa.TypeAssert:
			rs := x.typeAssert(st, fr, in)
			for _, o := range rs {
				if o.kind == oPanic {
					outs = append(outs, o)
					continue
				}
				f2 := fr.clone()
				f2.env[in] = flatRet(o.ret)
				outs = append(outs, x.runFrom(o.st, f2, blk, i+1)...)
			}
			return outs
		default:
			ok, po := x.instr(st, fr, in)
			outs = append(outs, po...)
			if !ok {
				return outs
			}
		}
	}
	return outs
}

func base(p string) string {
	if i := strings.LastIndexByte(p, '/'); i >= 0 {
		return p[i+1:]
	}
	return p
}

func condPos(in *ssa.If) token.Pos {
	if in.Cond.Pos().IsValid() {
		return in.Cond.Pos()
	}
	for _, i := range in.Block().Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return token.NoPos
}

func flatRet(r []Val) Val {
	if len(r) == 1 {
		return r[0]
	}
	var v Val
	for _, a := range r {
		v = append(v, a...)
	}
	return v
}

// ---------- values ----------

func (x *Exec) constVal(t types.Type, c constant.Value) Val {
	b := x.b
	if c == nil {
		return x.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Val{b.Bool(constant.BoolVal(c))}
		case u.Info()&types.IsString != 0:
			if c.Kind() == constant.Int {
				n, _ := constant.Int64Val(c)
				return Val{b.Str(string(rune(n)))}
			}
			return Val{b.Str(constant.StringVal(c))}
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c)
			n, ok := new(big.Int).SetString(v.ExactString(), 10)
			if !ok {
				panic(unsup("int const"))
			}
			return Val{b.BigInt(n)}
		case u.Info()&types.IsFloat != 0:
			r, ok := new(big.Rat).SetString(constant.ToFloat(c).ExactString())
			if !ok {
				f, _ := constant.Float64Val(c)
				r = new(big.Rat).SetFloat64(f)
			} else if f, _ := constant.Float64Val(c); true {
				r = new(big.Rat).SetFloat64(f)
			}
			return Val{b.Int(0), b.Real(r)}
		}
	case *types.Interface:
		panic(unsup("interface const"))
	}
	panic(unsup("const of type " + tkey(t)))
}

func (x *Exec) globalRef(g *ssa.Global) *Term {
	if r, ok := x.globals[g]; ok {
		return r
	}
	r := x.b.Int(int64(1 + len(x.globals)))
	x.globals[g] = r
	return r
}

func (x *Exec) val(st *State, fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return x.zero(v.Type())
		}
		return x.constVal(v.Type(), v.Value)
	case *ssa.Function:
		return Val{x.fnVal(v)}
	case *ssa.Global:
		return Val{x.globalRef(v)}
	case *ssa.Builtin:
		return Val{x.b.Int(0)}
	}
	r, ok := fr.env[v]
	if !ok {
		panic(fmt.Sprintf("undefined value %s = %s in %s", v.Name(), v.String(), fr.fn))
	}
	return r
}

func (x *Exec) wrap(st *State, t *Term, ty types.Type) *Term {
	if x.pure > 0 {
		return t
	}
	l := x.leaves(ty)[0]
	lo, hi := intRange(l.bits, l.uns)
	b := x.b
	if t.isNum() {
		n := t.cst.Num()
		if n.Cmp(lo) >= 0 && n.Cmp(hi) <= 0 {
			return t
		}
		m := new(big.Int).Sub(n, lo)
		m.Mod(m, pow2(l.bits))
		return b.BigInt(m.Add(m, lo))
	}
	in := b.And(b.Le(b.BigInt(lo), t), b.Le(t, b.BigInt(hi)))
	if x.entailsQF(st, in) {
		return t
	}
	w := b.Add(b.ModI(b.Sub(t, b.BigInt(lo)), b.BigInt(pow2(l.bits))), b.BigInt(lo))
	// keep the exact value when it is in range (helps the solver)
	return b.Ite(in, t, w)
}

// instr executes a non-branching instruction
func (x *Exec) instr(st *State, fr *Frame, in ssa.Instruction) (bool, []Outcome) {
	b := x.b
	set := func(v ssa.Value, r Val) { fr.env[v] = r }
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		set(in, Val{x.newObj(st, t)})
		return true, nil
	case *ssa.BinOp:
		return x.binop(st, fr, in)
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			p := x.val(st, fr, in.X)[0]
			if g, ok := in.X.(*ssa.Global); ok {
				set(in, x.loadGlobal(st, g))
				return true, nil
			}
			ok, po := x.check(st, fr, b.Not(b.Eq(p, b.Int(0))), "nil dereference "+x.pos(in.Pos()))
			if !ok {
				return false, po
			}
			set(in, x.load(st, p, in.Type()))
			return true, po
		case token.NOT:
			set(in, Val{b.Not(x.val(st, fr, in.X)[0])})
			return true, nil
		case token.SUB:
			v := x.val(st, fr, in.X)
			if len(v) == 2 {
				set(in, x.fneg(v))
			} else {
				set(in, Val{x.wrap(st, b.Neg(v[0]), in.Type())})
			}
			return true, nil
		case token.XOR:
			v := x.val(st, fr, in.X)
			set(in, Val{x.wrap(st, b.Sub(b.Neg(v[0]), b.Int(1)), in.Type())})
			return true, nil
		}
	case *ssa.Store:
		p := x.val(st, fr, in.Addr)[0]
		ok, po := x.check(st, fr, b.Not(b.Eq(p, b.Int(0))), "nil store "+x.pos(in.Pos()))
		if !ok {
			return false, po
		}
		x.store(st, p, in.Addr.Type().Underlying().(*types.Pointer).Elem(), x.val(st, fr, in.Val))
		return true, po
	case *ssa.FieldAddr:
		p := x.val(st, fr, in.X)[0]
		ok, po := x.check(st, fr, b.Not(b.Eq(p, b.Int(0))), "nil dereference "+x.pos(in.Pos()))
		if !ok {
			return false, po
		}
		stt := in.X.Type().Underlying().(*types.Pointer).Elem()
		f := stt.Underlying().(*types.Struct).Field(in.Field)
		set(in, Val{x.fieldAddr(p, stt, f.Name())})
		return true, po
	case *ssa.Field:
		s := in.X.Type().Underlying().(*types.Struct)
		lo, hi := x.fieldRange(s, in.Field)
		set(in, x.val(st, fr, in.X)[lo:hi])
		return true, nil
	case *ssa.IndexAddr:
		xv := x.val(st, fr, in.X)
		i := x.val(st, fr, in.Index)[0]
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			ok, po := x.check(st, fr, b.And(b.Le(b.Int(0), i), b.Lt(i, xv[2])), "index out of range "+x.pos(in.Pos()))
			if !ok {
				return false, po
			}
			set(in, Val{x.elemAddr(u.Elem(), xv[0], b.Add(xv[1], i))})
			return true, po
		case *types.Pointer:
			a := u.Elem().Underlying().(*types.Array)
			ok, po := x.check(st, fr, b.And(b.Le(b.Int(0), i), b.Lt(i, b.Int(a.Len()))), "index out of range "+x.pos(in.Pos()))
			if !ok {
				return false, po
			}
			set(in, Val{x.elemAddr(a.Elem(), xv[0], i)})
			return true, po
		}
	case *ssa.Index:
		xv := x.val(st, fr, in.X)
		i := x.val(st, fr, in.Index)[0]
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			var v Val
			for _, a := range xv {
				v = append(v, b.Select(a, i))
			}
			set(in, v)
			return true, nil
		case *types.Basic:
			_ = u
			ok, po := x.check(st, fr, b.And(b.Le(b.Int(0), i), b.Lt(i, x.strLen(xv[0]))), "string index out of range "+x.pos(in.Pos()))
			if !ok {
				return false, po
			}
			set(in, Val{x.strAt(xv[0], i)})
			return true, po
		}
	case *ssa.Slice:
		return x.sliceOp(st, fr, in)
	case *ssa.MakeSlice:
		l, c := x.val(st, fr, in.Len)[0], x.val(st, fr, in.Cap)[0]
		ok, po := x.check(st, fr, b.And(b.Le(b.Int(0), l), b.Le(l, c)), "makeslice: len out of range "+x.pos(in.Pos()))
		if !ok {
			return false, po
		}
		x.assume(st, b.Le(c, b.Int(maxLen)))
		e := in.Type().Underlying().(*types.Slice).Elem()
		ref := x.alloc(st)
		var arrs []*Term
		for _, lf := range x.leaves(e) {
			arrs = append(arrs, b.ConstArr(SArr(SInt, lf.sort), x.zeroLeaf(lf)))
		}
		x.setInner(st, e, ref, arrs)
		set(in, Val{ref, b.Int(0), l, c})
		return true, po
	case *ssa.MakeMap:
		set(in, Val{x.newMap(st, in.Type())})
		return true, nil
	case *ssa.MakeChan:
		sz := x.val(st, fr, in.Size)[0]
		set(in, Val{x.newChan(st, in.Type().Underlying().(*types.Chan).Elem(), sz, b.F)})
		return true, nil
	case *ssa.MakeInterface:
		t := in.X.Type()
		set(in, Val{x.tag(t), x.box(t, x.val(st, fr, in.X))})
		return true, nil
	case *ssa.ChangeInterface:
		set(in, x.val(st, fr, in.X))
		return true, nil
	case *ssa.ChangeType:
		set(in, x.val(st, fr, in.X))
		return true, nil
	case *ssa.Convert:
		set(in, x.convert(st, in.X.Type(), in.Type(), x.val(st, fr, in.X)))
		return true, nil
	case *ssa.MakeClosure:
		var bind []Val
		for _, a := range in.Bindings {
			bind = append(bind, x.val(st, fr, a))
		}
		set(in, Val{x.newClosure(st, &closure{fn: in.Fn.(*ssa.Function), bind: bind})})
		return true, nil
	case *ssa.Lookup:
		xv := x.val(st, fr, in.X)
		if m, ok := in.X.Type().Underlying().(*types.Map); ok {
			k := x.keyTerm(m.Key(), x.val(st, fr, in.Index))
			v, has := x.mapGet(st, in.X.Type(), xv[0], k)
			if in.CommaOk {
				v = append(append(Val{}, v...), has)
			}
			set(in, v)
			return true, nil
		}
		i := x.val(st, fr, in.Index)[0]
		ok, po := x.check(st, fr, b.And(b.Le(b.Int(0), i), b.Lt(i, x.strLen(xv[0]))), "string index out of range "+x.pos(in.Pos()))
		if !ok {
			return false, po
		}
		set(in, Val{x.strAt(xv[0], i)})
		return true, po
	case *ssa.MapUpdate:
		m := x.val(st, fr, in.Map)[0]
		ok, po := x.check(st, fr, b.Not(b.Eq(m, b.Int(0))), "assignment to entry in nil map "+x.pos(in.Pos()))
		if !ok {
			return false, po
		}
		mt := in.Map.Type().Underlying().(*types.Map)
		x.mapPut(st, in.Map.Type(), m, x.keyTerm(mt.Key(), x.val(st, fr, in.Key)), x.val(st, fr, in.Value))
		return true, po
	case *ssa.Range:
		mt, ok := in.X.Type().Underlying().(*types.Map)
		if !ok {
			panic(unsup("range over " + tkey(in.X.Type())))
		}
		ks := x.keySort(mt.Key())
		it := x.alloc(st)
		key := "iter:" + ks.name + "#"
		x.region(st, key+"vis", Leaf{sort: SBool}, ks)
		x.region(st, key+"dom", Leaf{sort: SBool}, ks)
		x.region(st, key+"n", Leaf{sort: SInt, kind: KLen}, nil)
		x.setReg(st, key+"vis", b.Store(st.reg[key+"vis"], it, b.ConstArr(SArr(ks, SBool), b.F)), it)
		m := x.val(st, fr, in.X)[0]
		r := x.mapRegs(in.X.Type())
		dom := b.Ite(b.Eq(m, b.Int(0)), b.ConstArr(SArr(ks, SBool), b.F), x.mapDom(st, r, m))
		x.setReg(st, key+"dom", b.Store(st.reg[key+"dom"], it, dom), it)
		x.setReg(st, key+"n", b.Store(st.reg[key+"n"], it, b.Int(0)), it)
		set(in, Val{it, m})
		return true, nil
	case *ssa.Extract:
		tup := in.Tuple.Type().(*types.Tuple)
		o := 0
		for i := 0; i < in.Index; i++ {
			o += len(x.leaves(tup.At(i).Type()))
		}
		n := len(x.leaves(tup.At(in.Index).Type()))
		v := x.val(st, fr, in.Tuple)
		set(in, v[o:o+n])
		return true, nil
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		panic(unsup(in.String()))
	}
	panic(unsup(fmt.Sprintf("instruction %T %s", in, in)))
}

func (x *Exec) pos(p token.Pos) string {
	ps := x.L.fset.Position(p)
	return fmt.Sprintf("%s:%d", base(ps.Filename), ps.Line)
}

func (x *Exec) loadGlobal(st *State, g *ssa.Global) Val {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	ref := x.globalRef(g)
	if types.Identical(t, types.Universe.Lookup("error").Type()) && !x.storedOutsideInit(g) {
		d := x.b.App("global.err."+sanitize(g.String()), SInt)
		x.axiom(d, x.b.Eq(d, x.b.Add(x.b.Int(900000000), ref)))
		return Val{x.tagByName("*errors.errorString"), d}
	}
	v := x.load(st, ref, t)
	if isPtrLike(t) && (g.Pkg == nil || g.Pkg.Pkg.Path() == "os") {
		x.axiom(v[0], x.b.Lt(x.b.Int(0), v[0]))
	}
	return v
}

func (x *Exec) tagByName(n string) *Term {
	id, ok := x.tags[n]
	if !ok {
		id = int64(len(x.tags) + 1)
		x.tags[n] = id
	}
	return x.b.Int(id)
}

func (x *Exec) storedOutsideInit(g *ssa.Global) bool {
	if g.Pkg == nil {
		return false
	}
	for _, m := range g.Pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || f.Name() == "init" {
			continue
		}
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					return true
				}
			}
		}
	}
	return false
}

// ---------- operators ----------

func (x *Exec) binop(st *State, fr *Frame, in *ssa.BinOp) (bool, []Outcome) {
	b := x.b
	a, c := x.val(st, fr, in.X), x.val(st, fr, in.Y)
	t := in.X.Type()
	set := func(v Val) (bool, []Outcome) { fr.env[in] = v; return true, nil }
	switch in.Op {
	case token.EQL, token.NEQ:
		var e *Term
		ty := t
		// comparison with nil or between interface and concrete
		if _, ok := t.Underlying().(*types.Interface); ok {
			if _, ok2 := in.Y.Type().Underlying().(*types.Interface); !ok2 {
				c = Val{x.tag(in.Y.Type()), x.box(in.Y.Type(), c)}
			}
		} else if _, ok2 := in.Y.Type().Underlying().(*types.Interface); ok2 {
			a = Val{x.tag(t), x.box(t, a)}
			ty = in.Y.Type()
		}
		e = x.eqVal(ty, a, c)
		if in.Op == token.NEQ {
			e = b.Not(e)
		}
		return set(Val{e})
	}
	u := t.Underlying().(*types.Basic)
	switch {
	case u.Info()&types.IsString != 0:
		switch in.Op {
		case token.ADD:
			return set(Val{b.SApp("str.cat", SStr, a[0], c[0])})
		case token.LSS:
			return set(Val{x.strLt(a[0], c[0])})
		case token.GTR:
			return set(Val{x.strLt(c[0], a[0])})
		case token.LEQ:
			return set(Val{b.Not(x.strLt(c[0], a[0]))})
		case token.GEQ:
			return set(Val{b.Not(x.strLt(a[0], c[0]))})
		}
	case u.Info()&types.IsFloat != 0:
		switch in.Op {
		case token.ADD:
			return set(x.fadd(a, c))
		case token.SUB:
			return set(x.fadd(a, x.fneg(c)))
		case token.MUL:
			return set(x.fmul(a, c))
		case token.QUO:
			return set(x.fdiv(a, c))
		case token.LSS:
			return set(Val{x.flt(a, c)})
		case token.GTR:
			return set(Val{x.flt(c, a)})
		case token.LEQ:
			return set(Val{x.fle(a, c)})
		case token.GEQ:
			return set(Val{x.fle(c, a)})
		}
	case u.Info()&types.IsInteger != 0:
		p, q := a[0], c[0]
		rt := in.Type()
		switch in.Op {
		case token.ADD:
			return set(Val{x.wrap(st, b.Add(p, q), rt)})
		case token.SUB:
			return set(Val{x.wrap(st, b.Sub(p, q), rt)})
		case token.MUL:
			return set(Val{x.wrap(st, b.Mul(p, q), rt)})
		case token.QUO, token.REM:
			ok, po := x.check(st, fr, b.Not(b.Eq(q, b.Int(0))), "integer divide by zero "+x.pos(in.Pos()))
			if !ok {
				return false, po
			}
			if in.Op == token.QUO {
				fr.env[in] = Val{x.wrap(st, x.quo(st, p, q), rt)}
			} else {
				fr.env[in] = Val{x.rem(st, p, q)}
			}
			return true, po
		case token.LSS:
			return set(Val{b.Lt(p, q)})
		case token.GTR:
			return set(Val{b.Lt(q, p)})
		case token.LEQ:
			return set(Val{b.Le(p, q)})
		case token.GEQ:
			return set(Val{b.Le(q, p)})
		case token.SHL:
			if q.isNum() && q.cst.Num().IsInt64() && q.cst.Num().Int64() < 64 {
				return set(Val{x.wrap(st, b.Mul(p, b.BigInt(pow2(int(q.cst.Num().Int64())))), rt)})
			}
		case token.SHR:
			if q.isNum() && q.cst.Num().IsInt64() && q.cst.Num().Int64() < 64 {
				return set(Val{b.DivI(p, b.BigInt(pow2(int(q.cst.Num().Int64()))))})
			}
		case token.AND:
			if p.isNum() && q.isNum() {
				return set(Val{b.BigInt(new(big.Int).And(p.cst.Num(), q.cst.Num()))})
			}
		case token.OR:
			if p.isNum() && q.isNum() {
				return set(Val{b.BigInt(new(big.Int).Or(p.cst.Num(), q.cst.Num()))})
			}
		}
		if p.id > q.id && in.Op != token.SHL && in.Op != token.SHR && in.Op != token.AND_NOT {
			p, q = q, p
		}
		r := b.App("bit."+in.Op.String(), SInt, p, q)
		x.axiom(r, x.leafFacts(x.leaves(rt)[0], r, nil)...)
		return set(Val{r})
	}
	panic(unsup("binop " + in.String()))
}

func (x *Exec) quo(st *State, p, q *Term) *Term {
	b := x.b
	z := b.Int(0)
	if q.isNum() && q.cst.Sign() > 0 {
		if x.entailsQF(st, b.Le(z, p)) {
			return b.DivI(p, q)
		}
		return b.Ite(b.Le(z, p), b.DivI(p, q), b.Neg(b.DivI(b.Neg(p), q)))
	}
	return b.Ite(b.Le(z, p), b.Ite(b.Lt(z, q), b.DivI(p, q), b.Neg(b.DivI(p, b.Neg(q)))), b.Ite(b.Lt(z, q), b.Neg(b.DivI(b.Neg(p), q)), b.DivI(b.Neg(p), b.Neg(q))))
}
func (x *Exec) rem(st *State, p, q *Term) *Term {
	b := x.b
	z := b.Int(0)
	if p.isNum() && q.isNum() {
		return b.BigInt(new(big.Int).Rem(p.cst.Num(), q.cst.Num()))
	}
	if x.entailsQF(st, b.And(b.Le(z, p), b.Lt(z, q))) {
		return x.imod(p, q)
	}
	return b.Ite(b.Le(z, p), b.Ite(b.Lt(z, q), x.imod(p, q), b.ModI(p, b.Neg(q))), b.Neg(b.Ite(b.Lt(z, q), b.ModI(b.Neg(p), q), b.ModI(b.Neg(p), b.Neg(q)))))
}

// imod: remainder for p >= 0, q > 0, with the axioms needed for ring buffers
func (x *Exec) imod(p, q *Term) *Term {
	b := x.b
	if q.isNum() {
		return b.ModI(p, q)
	}
	raw := func(p *Term) *Term {
		t := b.App("imod", SInt, p, q)
		pos := b.And(b.Le(b.Int(0), p), b.Lt(b.Int(0), q))
		x.axiom(t, b.Imp(pos, b.And(b.Le(b.Int(0), t), b.Lt(t, q), b.Le(t, p))), b.Imp(b.And(pos, b.Lt(p, q)), b.Eq(t, p)),
			b.Imp(b.And(pos, b.Le(q, p), b.Lt(p, b.Add(q, q))), b.Eq(t, b.Sub(p, q))))
		return t
	}
	t := raw(p)
	if !p.bound && !q.bound {
		pr := b.Sub(p, b.Int(1))
		if !pr.isNum() || pr.cst.Sign() >= 0 {
			tp := raw(pr)
			x.axiom(t, b.Imp(b.And(b.Le(b.Int(1), p), b.Lt(b.Int(0), q)), b.Eq(t, b.Ite(b.Eq(b.Add(tp, b.Int(1)), q), b.Int(0), b.Add(tp, b.Int(1))))))
		}
	}
	return t
}

// floats
func (x *Exec) fc(i int64) *Term { return x.b.Int(i) }
func (x *Exec) fin(cls, v *Term) Val {
	if cls.isNum() && cls.cst.Sign() == 0 {
		return Val{cls, v}
	}
	return Val{cls, x.b.Ite(x.b.Eq(cls, x.fc(0)), v, x.b.Real(new(big.Rat)))}
}
func (x *Exec) fneg(a Val) Val {
	b := x.b
	if a[0].isNum() {
		c := a[0].cst.Num().Int64()
		if c == 1 {
			c = 2
		} else if c == 2 {
			c = 1
		}
		return Val{x.fc(c), b.Neg(a[1])}
	}
	return Val{b.Ite(b.Eq(a[0], x.fc(1)), x.fc(2), b.Ite(b.Eq(a[0], x.fc(2)), x.fc(1), a[0])), b.Neg(a[1])}
}
func (x *Exec) fadd(a, c Val) Val {
	b := x.b
	is := func(t *Term, k int64) *Term { return b.Eq(t, x.fc(k)) }
	cls := b.Ite(b.Or(is(a[0], 3), is(c[0], 3)), x.fc(3),
		b.Ite(is(a[0], 0), c[0], b.Ite(is(c[0], 0), a[0], b.Ite(b.Eq(a[0], c[0]), a[0], x.fc(3)))))
	return x.fin(cls, b.Add(a[1], c[1]))
}
func (x *Exec) fsign(a Val) (pos, neg *Term) {
	b := x.b
	z := b.Real(new(big.Rat))
	f := b.Eq(a[0], x.fc(0))
	return b.Or(b.Eq(a[0], x.fc(1)), b.And(f, b.Lt(z, a[1]))), b.Or(b.Eq(a[0], x.fc(2)), b.And(f, b.Lt(a[1], z)))
}
func (x *Exec) fmul(a, c Val) Val {
	b := x.b
	is := func(t *Term, k int64) *Term { return b.Eq(t, x.fc(k)) }
	if is(a[0], 0) == b.T && is(c[0], 0) == b.T {
		return Val{x.fc(0), b.Mul(a[1], c[1])}
	}
	ap, an := x.fsign(a)
	cp, cn := x.fsign(c)
	pos := b.Or(b.And(ap, cp), b.And(an, cn))
	neg := b.Or(b.And(ap, cn), b.And(an, cp))
	cls := b.Ite(b.Or(is(a[0], 3), is(c[0], 3)), x.fc(3),
		b.Ite(b.And(is(a[0], 0), is(c[0], 0)), x.fc(0), b.Ite(pos, x.fc(1), b.Ite(neg, x.fc(2), x.fc(3)))))
	return x.fin(cls, b.Mul(a[1], c[1]))
}
func (x *Exec) fdiv(a, c Val) Val {
	b := x.b
	z := b.Real(new(big.Rat))
	is := func(t *Term, k int64) *Term { return b.Eq(t, x.fc(k)) }
	if is(a[0], 0) == b.T && c[0].isNum() && c[0].cst.Sign() == 0 && c[1].isNum() && c[1].cst.Sign() != 0 {
		return Val{x.fc(0), b.DivR(a[1], c[1])}
	}
	ap, an := x.fsign(a)
	_, cn := x.fsign(c)
	czero := b.And(is(c[0], 0), b.Eq(c[1], z))
	// division by zero ignores the sign of zero
	q := b.Ite(b.Eq(c[1], z), z, b.DivR(a[1], c[1]))
	cls := b.Ite(b.Or(is(a[0], 3), is(c[0], 3)), x.fc(3),
		b.Ite(b.And(is(a[0], 0), is(c[0], 0)),
			b.Ite(czero, b.Ite(ap, x.fc(1), b.Ite(an, x.fc(2), x.fc(3))), x.fc(0)),
			b.Ite(is(a[0], 0), x.fc(0), // finite / inf
				b.Ite(is(c[0], 0), b.Ite(b.Or(b.And(ap, b.Not(cn)), b.And(an, cn)), x.fc(1), x.fc(2)), x.fc(3)))))
	v := b.Ite(is(c[0], 0), q, z)
	return x.fin(cls, v)
}
func (x *Exec) flt(a, c Val) *Term {
	b := x.b
	is := func(t *Term, k int64) *Term { return b.Eq(t, x.fc(k)) }
	return b.And(b.Not(is(a[0], 3)), b.Not(is(c[0], 3)),
		b.Or(b.And(is(a[0], 0), is(c[0], 0), b.Lt(a[1], c[1])),
			b.And(is(a[0], 2), b.Not(is(c[0], 2))),
			b.And(is(c[0], 1), b.Not(is(a[0], 1)))))
}
func (x *Exec) fle(a, c Val) *Term {
	b := x.b
	is := func(t *Term, k int64) *Term { return b.Eq(t, x.fc(k)) }
	return b.Or(x.flt(a, c), b.And(b.Eq(a[0], c[0]), b.Not(is(a[0], 3)), b.Eq(a[1], c[1])))
}

// strings
func (x *Exec) strLen(s *Term) *Term {
	t := x.b.SApp("str.len", SInt, s)
	x.axiom(t, x.b.Le(t, x.b.Int(maxLen)))
	return t
}
func (x *Exec) strAt(s, i *Term) *Term {
	t := x.b.SApp("str.at", SInt, s, i)
	x.axiom(t, x.b.Le(x.b.Int(0), t), x.b.Le(t, x.b.Int(255)))
	return t
}
func (x *Exec) strLt(a, c *Term) *Term {
	t := x.b.SApp("str.lt", SBool, a, c)
	if t.op == OApp {
		r := x.b.SApp("str.lt", SBool, c, a)
		x.axiom(t, x.b.Not(x.b.And(t, r)), x.b.Or(t, r, x.b.Eq(a, c)))
	}
	return t
}
func (x *Exec) bytesOf(s *Term) *Term {
	if s.op == OApp && s.name == "str.ofbytes" && s.args[1].isNum() && s.args[1].cst.Sign() == 0 {
		return s.args[0]
	}
	return x.b.App("str.bytes", SArr(SInt, SInt), s)
}
func (x *Exec) strOfBytes(arr, off, n *Term) *Term {
	b := x.b
	if arr.op == OApp && arr.name == "str.bytes" {
		return b.SApp("str.sub", SStr, arr.args[0], off, b.Add(off, n))
	}
	return b.SApp("str.ofbytes", SStr, arr, off, n)
}
func (x *Exec) newBytes(st *State, s *Term) Val {
	ref := x.alloc(st)
	n := x.strLen(s)
	x.setInner(st, types.Typ[types.Byte], ref, []*Term{x.bytesOf(s)})
	return Val{ref, x.b.Int(0), n, n}
}
func (x *Exec) bytesStr(st *State, v Val) *Term {
	arr := x.inner(st, types.Typ[types.Byte], v[0])[0]
	return x.strOfBytes(arr, v[1], v[2])
}

func (x *Exec) convert(st *State, from, to types.Type, v Val) Val {
	b := x.b
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			return Val{x.wrap(st, v[0], to)}
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			return Val{b.Int(0), b.ToReal(v[0])}
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			return v
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			z := b.Real(new(big.Rat))
			var tr *Term
			if v[1].op == OToReal {
				tr = v[1].args[0]
			} else if v[1].op == OIte && v[1].args[1].op == OToReal {
				tr = v[1].args[1].args[0]
			} else {
				tr = b.Ite(b.Le(z, v[1]), b.ToInt(v[1]), b.Neg(b.ToInt(b.Neg(v[1]))))
			}
			l := x.leaves(to)[0]
			lo, hi := intRange(l.bits, l.uns)
			ok := b.And(b.Eq(v[0], b.Int(0)), b.Le(b.BigInt(lo), tr), b.Le(tr, b.BigInt(hi)))
			if x.pure > 0 || x.entailsQF(st, ok) {
				return Val{tr}
			}
			u := b.App("f2i", SInt, v[0], v[1])
			x.axiom(u, x.leafFacts(l, u, nil)...)
			return Val{b.Ite(ok, tr, u)}
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return v
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			return Val{b.App("str.ofrune", SStr, v[0])}
		}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if s, ok := tu.(*types.Slice); ok {
			if eb, ok := s.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Byte {
				return x.newBytes(st, v[0])
			}
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if s, ok := fu.(*types.Slice); ok {
			if eb, ok := s.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Byte {
				return Val{x.bytesStr(st, v)}
			}
		}
	}
	if len(x.leaves(from)) == len(x.leaves(to)) {
		return v
	}
	panic(unsup("convert " + tkey(from) + " to " + tkey(to)))
}

func (x *Exec) sliceOp(st *State, fr *Frame, in *ssa.Slice) (bool, []Outcome) {
	b := x.b
	xv := x.val(st, fr, in.X)
	var lo, hi, mx *Term
	if in.Low != nil {
		lo = x.val(st, fr, in.Low)[0]
	} else {
		lo = b.Int(0)
	}
	if in.High != nil {
		hi = x.val(st, fr, in.High)[0]
	}
	if in.Max != nil {
		mx = x.val(st, fr, in.Max)[0]
	}
	why := "slice bounds out of range " + x.pos(in.Pos())
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic: // string
		n := x.strLen(xv[0])
		if hi == nil {
			hi = n
		}
		ok, po := x.check(st, fr, b.And(b.Le(b.Int(0), lo), b.Le(lo, hi), b.Le(hi, n)), why)
		if !ok {
			return false, po
		}
		fr.env[in] = Val{b.SApp("str.sub", SStr, xv[0], lo, hi)}
		return true, po
	case *types.Slice:
		if hi == nil {
			hi = xv[2]
		}
		cond := b.And(b.Le(b.Int(0), lo), b.Le(lo, hi))
		cp := xv[3]
		if mx != nil {
			cond = b.And(cond, b.Le(hi, mx), b.Le(mx, xv[3]))
			cp = mx
		} else if in.High != nil {
			cond = b.And(cond, b.Le(hi, xv[3]))
		}
		ok, po := x.check(st, fr, cond, why)
		if !ok {
			return false, po
		}
		fr.env[in] = Val{xv[0], b.Add(xv[1], lo), b.Sub(hi, lo), b.Sub(cp, lo)}
		return true, po
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		n := b.Int(a.Len())
		if hi == nil {
			hi = n
		}
		cp := n
		cond := b.And(b.Le(b.Int(0), lo), b.Le(lo, hi), b.Le(hi, n))
		if mx != nil {
			cond = b.And(cond, b.Le(hi, mx), b.Le(mx, n))
			cp = mx
		}
		ok, po := x.check(st, fr, cond, why)
		if !ok {
			return false, po
		}
		fr.env[in] = Val{xv[0], lo, b.Sub(hi, lo), b.Sub(cp, lo)}
		return true, po
	}
	panic(unsup("slice of " + tkey(in.X.Type())))
}

// appendSlice models append(dst, src...) where src is a slice value of element type e
func (x *Exec) appendVals(st *State, e types.Type, dst Val, srcArr []*Term, srcOff, n *Term) Val {
	b := x.b
	if n.isNum() && n.cst.Sign() == 0 {
		return dst
	}
	newLen := b.Add(dst[2], n)
	x.assumeFact(st, b.Le(newLen, b.Int(maxLen)))
	fits := b.Le(newLen, dst[3])
	if dst[2] == dst[3] && n.isNum() {
		fits = b.F
	}
	if fits != b.T && fits != b.F && x.pure == 0 {
		if x.entailsQF(st, fits) {
			fits = b.T
		} else if x.entailsQF(st, b.Not(fits)) {
			fits = b.F
		}
	}
	var fresh *Term
	if fits != b.T {
		fresh = x.alloc(st)
	}
	// writing in place is a write to dst's storage
	if fits != b.F {
		ks, _ := x.elemKeys(e)
		for _, k := range ks {
			if len(x.guards) > 0 && x.inTarget && x.pure == 0 {
				x.guardKey(st, k, dst[0], true)
			}
		}
	}
	for _, k := range func() []string { ks, _ := x.elemKeys(e); return ks }() {
		if len(x.guards) > 0 && x.inTarget && x.pure == 0 {
			x.guardKey(st, k, dst[0], false)
		}
	}
	off := dst[1]
	var inner []*Term
	emptyDst := dst[2].isNum() && dst[2].cst.Sign() == 0 && fits == b.F
	if emptyDst {
		off = srcOff
		inner = srcArr
	} else {
		old := x.inner(st, e, dst[0])
		at := b.Add(dst[1], dst[2])
		for i, o := range old {
			if n.isNum() && n.cst.Num().Int64() <= 16 {
				r := o
				for k := int64(0); k < n.cst.Num().Int64(); k++ {
					r = b.Store(r, b.Add(at, b.Int(k)), b.Select(srcArr[i], b.Add(srcOff, b.Int(k))))
				}
				inner = append(inner, r)
			} else {
				inner = append(inner, x.copyArr(st, o, at, srcArr[i], srcOff, n, x.leaves(e)[i]))
			}
		}
	}
	if fits == b.T {
		x.setInner(st, e, dst[0], inner)
		return Val{dst[0], off, newLen, dst[3]}
	}
	if x.root != nil && x.root.Opts["grow"] == "exact" && fits == b.F {
		x.assumed["a slice that grows gets no spare room (only where the state machine of a statistic is built from its literal table; C22 covers its construction without this)"] = true
		x.setInner(st, e, fresh, inner)
		return Val{fresh, off, newLen, newLen}
	}
	ncap := b.Fresh("cap", SInt)
	x.axiom(ncap, b.Le(newLen, ncap), b.Le(ncap, b.Int(4*maxLen)))
	if fits == b.F {
		x.setInner(st, e, fresh, inner)
		return Val{fresh, off, newLen, ncap}
	}
	ref := b.Ite(fits, dst[0], fresh)
	ks, ls := x.elemKeys(e)
	for i, k := range ks {
		r := x.region(st, k, ls[i], SInt)
		st.reg[k] = b.Store(r, ref, inner[i])
		for _, w := range x.writeLogs {
			if w[k] == nil {
				w[k] = map[*Term]bool{}
			}
			w[k][dst[0]] = true
			w[k][fresh] = true
		}
	}
	return Val{ref, off, newLen, b.Ite(fits, dst[3], ncap)}
}

// copyArr: result array equal to o except [at, at+n) := src[off..]
func (x *Exec) copyArr(st *State, o, at, src, off, n *Term, l Leaf) *Term {
	b := x.b
	f := b.Fresh("cp", o.sort)
	b.rkind[f] = rk{Leaf{sort: l.sort, kind: l.kind, bits: l.bits, uns: l.uns, comp: true}, x.top(st)}
	i := b.FreshBound("i", SInt)
	in := b.And(b.Le(at, i), b.Lt(i, b.Add(at, n)))
	x.assumeFact(st, b.Forall([]*Term{i}, b.Imp(in, b.Eq(b.Select(f, i), b.Select(src, b.Add(b.Sub(i, at), off))))))
	x.assumeFact(st, b.Forall([]*Term{i}, b.Imp(b.Not(in), b.Eq(b.Select(f, i), b.Select(o, i)))))
	return f
}

func (x *Exec) copyBuiltin(st *State, e types.Type, dst, src Val) *Term {
	b := x.b
	n := b.Ite(b.Le(dst[2], src[2]), dst[2], src[2])
	if dst[2] == src[2] {
		n = dst[2]
	} else if x.entailsQF(st, b.Eq(dst[2], src[2])) {
		n = dst[2]
	}
	so := x.inner(st, e, src[0])
	do := x.inner(st, e, dst[0])
	ks, ls := x.elemKeys(e)
	for _, k := range ks {
		x.guardKey(st, k, src[0], false)
		x.guardKey(st, k, dst[0], true)
	}
	var inner []*Term
	for i := range so {
		inner = append(inner, x.copyArr(st, do[i], dst[1], so[i], src[1], n, ls[i]))
	}
	x.setInner(st, e, dst[0], inner)
	return n
}

// ---------- map iteration ----------

func (x *Exec) execNext(st *State, fr *Frame, in *ssa.Next) []Outcome {
	if in.IsString {
		panic(unsup("range over string"))
	}
	b := x.b
	rg := in.Iter.(*ssa.Range)
	mt := rg.X.Type().Underlying().(*types.Map)
	v := x.val(st, fr, in.Iter)
	it, m := v[0], v[1]
	ks := x.keySort(mt.Key())
	key := "iter:" + ks.name + "#"
	vis := b.Select(x.region(st, key+"vis", Leaf{sort: SBool}, ks), it)
	dom0 := b.Select(x.region(st, key+"dom", Leaf{sort: SBool}, ks), it)
	n := b.Select(x.region(st, key+"n", Leaf{sort: SInt, kind: KLen}, nil), it)
	r := x.mapRegs(rg.X.Type())
	x.guardKey(st, r.dom, m, false)
	tup := in.Type().(*types.Tuple)
	zk := func(t types.Type) Val {
		if bt, ok := t.(*types.Basic); ok && bt.Kind() == types.Invalid {
			return Val{}
		}
		return x.zero(t)
	}
	var outs []Outcome
	// done
	st2 := st.clone()
	var done *Term
	{
		k := b.FreshBound("k", ks)
		done = b.Forall([]*Term{k}, b.Imp(b.And(b.Select(dom0, k), x.mapHas(st2, r, m, k)), b.Select(vis, k)))
	}
	emptyDom := dom0.op == OConstArr
	if done != b.F {
		x.assume(st2, done)
		outs = append(outs, Outcome{kind: oRet, st: st2, ret: []Val{{b.F}, x.zeroT(mt.Key()), x.zeroT(mt.Elem())}})
	}
	if !emptyDom {
		kv := x.freshVal(mt.Key(), "k", x.top(st))
		k := x.keyTerm(mt.Key(), kv)
		c := b.And(x.mapHas(st, r, m, k), b.Not(b.Select(vis, k)))
		if x.feasible(st, c) {
			x.assume(st, c)
			var ev Val
			for _, a := range x.mapVals(st, r, m) {
				ev = append(ev, b.Select(a, k))
			}
			x.typedRel(mt.Elem(), ev)
			x.setReg(st, key+"vis", b.Store(st.reg[key+"vis"], it, b.Store(vis, k, b.T)), it)
			x.setReg(st, key+"n", b.Store(st.reg[key+"n"], it, b.Add(n, b.Int(1))), it)
			outs = append(outs, Outcome{kind: oRet, st: st, ret: []Val{{b.T}, kv, ev}})
		}
	}
	_ = tup
	_ = zk
	// the tuple type may hold invalid types for unused parts
	for i := range outs {
		outs[i].ret = x.fitNext(tup, outs[i].ret)
	}
	return outs
}

func (x *Exec) zeroT(t types.Type) Val { return x.zero(t) }

func (x *Exec) fitNext(tup *types.Tuple, r []Val) []Val {
	for i := 1; i < 3; i++ {
		if bt, ok := tup.At(i).Type().(*types.Basic); ok && bt.Kind() == types.Invalid {
			r[i] = Val{}
		}
	}
	return r
}

// ---------- loops ----------

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func (x *Exec) loops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if m, ok := x.loopCache[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*loopInfo{}
	for _, blk := range fn.Blocks {
		for _, s := range blk.Succs {
			if s.Dominates(blk) {
				li := m[s]
				if li == nil {
					li = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = li
				}
				var add func(q *ssa.BasicBlock)
				add = func(q *ssa.BasicBlock) {
					if li.blocks[q] {
						return
					}
					li.blocks[q] = true
					for _, p := range q.Preds {
						add(p)
					}
				}
				add(blk)
			}
		}
	}
	x.loopCache[fn] = m
	return m
}

func sortedPhis(blk *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range blk.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			out = append(out, p)
		} else {
			break
		}
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
