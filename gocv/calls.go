package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cmKind int

const (
	cmVerify cmKind = iota
	cmUse
	cmLemma
)

type modLoc struct {
	prefix string // exact region keys = prefix+leaf path (keys) ...
	keys   map[string]bool
	ref    *Term
	lo, hi *Term // index range in the inner array (nil: whole inner value)
	typ    types.Type
	loc    loc
	kind   int // 0 location, 1 slice elements, 2 map, 3 channel
}

// cmode describes the contract whose body is being run
type cmode struct {
	kind cmKind
	c    *Contract
	site string
	// filled while running
	anything bool
}

// ctState: per-path contract state
type ctState struct {
	mods     []modLoc
	anything bool
	chans    bool // any channel may change
	called   bool
	res      []Val
	preTop   *Term
	pre      map[string]*Term
	reqs     int
}

type invTmpl struct {
	name  string
	fn    *Term
	sig   *types.Signature
	frame *Frame
	st    *State
	clos  *closure
}

func ret(st *State, vs ...Val) []Outcome {
	return []Outcome{{kind: oRet, st: st, ret: vs}}
}

func (x *Exec) spawn(st *State, d func(*State) []Outcome, desc string) {
	st.pend = append(st.pend, goroutine{call: d, desc: desc})
}

// runPend runs queued goroutines, oldest first, until none are left
func (x *Exec) runPend(st *State) []Outcome {
	work := []Outcome{{kind: oRet, st: st}}
	var done []Outcome
	n := 0
	for len(work) > 0 {
		o := work[0]
		work = work[1:]
		if o.kind != oRet || len(o.st.pend) == 0 {
			done = append(done, o)
			continue
		}
		if n++; n > 400 {
			panic(unsup("too many goroutine steps"))
		}
		g := o.st.pend[0]
		o.st.pend = append([]goroutine{}, o.st.pend[1:]...)
		acq, was := o.st.acq, x.inTarget
		o.st.acq = 0
		x.inTarget = true
		rs := g.call(o.st)
		x.inTarget = was
		for _, r := range rs {
			r.st.acq = acq
			if r.kind == oPanic && r.pan.block {
				work = append(work, Outcome{kind: oRet, st: r.st})
				continue
			}
			if r.kind == oPanic {
				r.pan.why = "in goroutine: " + r.pan.why
				r.fr = nil
				done = append(done, r)
				continue
			}
			work = append(work, Outcome{kind: oRet, st: r.st})
		}
	}
	return done
}

func (x *Exec) blocked(st *State, fr *Frame, why string) Outcome {
	x.note(st, "blocked: "+why)
	return Outcome{kind: oPanic, st: st, fr: fr, pan: &panicInfo{val: Val{x.b.Int(-1), x.b.Int(0)}, block: true, why: "blocks for ever: " + why}}
}

// afterPend runs pending goroutines and continues with f on each resulting state
func (x *Exec) afterPend(st *State, fr *Frame, f func(st *State) []Outcome) []Outcome {
	var outs []Outcome
	for _, o := range x.runPend(st) {
		if o.kind == oPanic {
			o.fr = fr
			outs = append(outs, o)
			continue
		}
		outs = append(outs, f(o.st)...)
	}
	return outs
}

// fork splits the state on a condition (either side may be nil when infeasible)
func (x *Exec) fork(st *State, c *Term) (*State, *State) {
	ft, ff := x.feasible(st, c), x.feasible(st, x.b.Not(c))
	if ft && ff {
		s2 := st.clone()
		x.assume(st, c)
		x.assume(s2, x.b.Not(c))
		return st, s2
	}
	if ft {
		x.assume(st, c)
		return st, nil
	}
	if ff {
		x.assume(st, x.b.Not(c))
		return nil, st
	}
	return nil, nil
}

// ---------- channel operations ----------

func (x *Exec) isEnv(st *State, ch *Term) bool {
	return !x.eager && x.chGet(st, "chan#env", ch) != x.b.F
}

func (x *Exec) recvOp(st *State, fr *Frame, ch *Term, elem types.Type, commaOk bool) []Outcome {
	return x.recv1(st, fr, ch, elem, commaOk, true)
}

func (x *Exec) recvRet(st *State, v Val, ok *Term, commaOk bool) Outcome {
	r := append(Val{}, v...)
	if commaOk {
		r = append(r, ok)
	}
	return Outcome{kind: oRet, st: st, ret: []Val{r}}
}

func (x *Exec) recv1(st *State, fr *Frame, ch *Term, elem types.Type, commaOk, mayRun bool) []Outcome {
	b := x.b
	var outs []Outcome
	s1, s2 := x.fork(st, b.Eq(ch, b.Int(0)))
	if s1 != nil {
		outs = append(outs, x.blocked(s1, fr.clone(), "receive from nil channel"))
	}
	if s2 == nil {
		return outs
	}
	st = s2
	hd, tl := x.chGet(st, "chan#head", ch), x.chGet(st, "chan#tail", ch)
	has, empty := x.fork(st, b.Lt(hd, tl))
	if has != nil {
		v := x.chPop(has, elem, ch)
		outs = append(outs, x.recvRet(has, v, b.T, commaOk))
	}
	if empty == nil {
		return outs
	}
	cl, open := x.fork(empty, x.chGet(empty, "chan#closed", ch))
	if cl != nil {
		outs = append(outs, x.recvRet(cl, x.zero(elem), b.F, commaOk))
	}
	if open == nil {
		return outs
	}
	if len(open.pend) > 0 && mayRun {
		return append(outs, x.afterPend(open, fr, func(s *State) []Outcome { return x.recv1(s, fr, ch, elem, commaOk, len(s.pend) > 0) })...)
	}
	if x.isEnv(open, ch) {
		s3 := open.clone()
		v := x.freshVal(elem, "recv", x.top(open))
		outs = append(outs, x.recvRet(open, v, b.T, commaOk))
		if x.mayClose(ch) {
			x.chSet(s3, "chan#closed", ch, b.T)
			outs = append(outs, x.recvRet(s3, x.zero(elem), b.F, commaOk))
		}
		return outs
	}
	return append(outs, x.blocked(open, fr.clone(), "receive from an empty channel"))
}

func (x *Exec) mayClose(ch *Term) bool { return !x.tickCh[ch] }

func (x *Exec) sendOp(st *State, fr *Frame, ch *Term, elem types.Type, v Val) []Outcome {
	return x.send1(st, fr, ch, elem, v, true)
}

func (x *Exec) send1(st *State, fr *Frame, ch *Term, elem types.Type, v Val, mayRun bool) []Outcome {
	b := x.b
	var outs []Outcome
	s1, s2 := x.fork(st, b.Eq(ch, b.Int(0)))
	if s1 != nil {
		outs = append(outs, x.blocked(s1, fr.clone(), "send on nil channel"))
	}
	if s2 == nil {
		return outs
	}
	st = s2
	cl, open := x.fork(st, x.chGet(st, "chan#closed", ch))
	if cl != nil {
		x.note(cl, "send on closed channel")
		outs = append(outs, x.panicOut(cl, fr.clone(), "send on closed channel"))
	}
	if open == nil {
		return outs
	}
	st = open
	if x.isEnv(st, ch) {
		x.chPush(st, elem, ch, v)
		return append(outs, Outcome{kind: oRet, st: st})
	}
	cp := x.chGet(st, "chan#cap", ch)
	if cp.isNum() && cp.cst.Sign() == 0 {
		// rendezvous: the value is handed over when a receiver arrives
		x.chPush(st, elem, ch, v)
		return append(outs, Outcome{kind: oRet, st: st})
	}
	room, full := x.fork(st, b.Lt(b.Sub(x.chGet(st, "chan#tail", ch), x.chGet(st, "chan#head", ch)), cp))
	if room != nil {
		x.chPush(room, elem, ch, v)
		outs = append(outs, Outcome{kind: oRet, st: room})
	}
	if full != nil {
		if len(full.pend) > 0 && mayRun {
			return append(outs, x.afterPend(full, fr, func(s *State) []Outcome { return x.send1(s, fr, ch, elem, v, len(s.pend) > 0) })...)
		}
		if x.drains != nil {
			var taken *State
			if taken, full = x.fork(full, b.Eq(ch, x.drains)); taken != nil {
				x.chSet(taken, "chan#head", ch, b.Add(x.chGet(taken, "chan#head", ch), b.Int(1)))
				x.chPush(taken, elem, ch, v)
				outs = append(outs, Outcome{kind: oRet, st: taken})
			}
		}
		if full != nil {
			outs = append(outs, x.blocked(full, fr.clone(), "send on a full channel"))
		}
	}
	return outs
}

func (x *Exec) closeCh(st *State, fr *Frame, ch *Term) []Outcome {
	b := x.b
	ok, po := x.check(st, fr, b.Not(b.Eq(ch, b.Int(0))), "close of nil channel")
	if !ok {
		return po
	}
	ok, po2 := x.check(st, fr, b.Not(x.chGet(st, "chan#closed", ch)), "close of closed channel")
	po = append(po, po2...)
	if !ok {
		return po
	}
	x.chSet(st, "chan#closed", ch, b.T)
	return append(po, Outcome{kind: oRet, st: st})
}

func (x *Exec) execSelect(st *State, fr *Frame, in *ssa.Select) []Outcome {
	type sc struct {
		ch   *Term
		elem types.Type
		v    Val
		send bool
	}
	var cs []sc
	for _, s := range in.States {
		c := sc{ch: x.val(st, fr, s.Chan)[0], elem: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if s.Dir == types.SendOnly {
			c.send = true
			c.v = x.val(st, fr, s.Send)
		}
		cs = append(cs, c)
	}
	b := x.b
	tuple := func(s *State, idx int, ok *Term, rv Val) Outcome {
		r := Val{b.Int(int64(idx)), ok}
		for i, c := range cs {
			if c.send {
				continue
			}
			if i == idx {
				r = append(r, rv...)
			} else {
				r = append(r, x.zero(c.elem)...)
			}
		}
		return Outcome{kind: oRet, st: s, ret: []Val{r}}
	}
	var try func(st *State, mayRun bool) []Outcome
	try = func(st *State, mayRun bool) []Outcome {
		var outs []Outcome
		none := b.T // condition under which nothing is certainly ready
		for i, c := range cs {
			s := st.clone()
			if !x.feasible(s, b.Not(b.Eq(c.ch, b.Int(0)))) {
				continue
			}
			x.assume(s, b.Not(b.Eq(c.ch, b.Int(0))))
			if c.send {
				env := x.isEnv(s, c.ch)
				closed := x.chGet(s, "chan#closed", c.ch)
				if x.feasible(s, closed) {
					p := s.clone()
					x.assume(p, closed)
					outs = append(outs, x.panicOut(p, fr.clone(), "send on closed channel"))
				}
				ready := b.Not(closed)
				cp := x.chGet(s, "chan#cap", c.ch)
				room := b.Lt(b.Sub(x.chGet(s, "chan#tail", c.ch), x.chGet(s, "chan#head", c.ch)), cp)
				if !env && !(cp.isNum() && cp.cst.Sign() == 0) {
					ready = b.And(ready, room)
					none = b.And(none, b.Not(room))
				} else if cp.isNum() && cp.cst.Sign() > 0 || env {
					none = b.And(none, b.Not(room))
				}
				if x.feasible(s, ready) {
					x.assume(s, ready)
					x.chPush(s, c.elem, c.ch, c.v)
					outs = append(outs, tuple(s, i, b.F, nil))
				}
				continue
			}
			hd, tl := x.chGet(s, "chan#head", c.ch), x.chGet(s, "chan#tail", c.ch)
			has := b.Lt(hd, tl)
			cl := x.chGet(s, "chan#closed", c.ch)
			none = b.And(none, b.Or(b.Eq(c.ch, b.Int(0)), b.And(b.Not(has), b.Not(cl))))
			if x.feasible(s, has) {
				p := s.clone()
				x.assume(p, has)
				v := x.chPop(p, c.elem, c.ch)
				outs = append(outs, tuple(p, i, b.T, v))
			}
			if !x.feasible(s, b.Not(has)) {
				continue
			}
			x.assume(s, b.Not(has))
			if x.feasible(s, cl) {
				p := s.clone()
				x.assume(p, cl)
				outs = append(outs, tuple(p, i, b.F, x.zero(c.elem)))
			}
			if x.isEnv(s, c.ch) && x.feasible(s, b.Not(cl)) {
				x.assume(s, b.Not(cl))
				p := s.clone()
				v := x.freshVal(c.elem, "recv", x.top(p))
				outs = append(outs, tuple(p, i, b.T, v))
				if x.mayClose(c.ch) {
					x.chSet(s, "chan#closed", c.ch, b.T)
					outs = append(outs, tuple(s, i, b.F, x.zero(c.elem)))
				}
			}
		}
		// nothing ready
		if x.feasible(st, none) {
			n := st.clone()
			x.assume(n, none)
			if !in.Blocking {
				outs = append(outs, tuple(n, -1, b.F, nil))
			} else if len(n.pend) > 0 && mayRun {
				outs = append(outs, x.afterPend(n, fr, func(s *State) []Outcome { return try(s, len(s.pend) > 0) })...)
			} else {
				env := false
				for _, c := range cs {
					if c.ch != b.Int(0) && x.isEnv(n, c.ch) {
						env = true
					}
				}
				if !env {
					outs = append(outs, x.blocked(n, fr.clone(), "select"))
				}
			}
		}
		return outs
	}
	return try(st, true)
}

// ---------- type assertions ----------

func (x *Exec) implTag(t types.Type, tag *Term) *Term {
	b := x.b
	it := t.Underlying().(*types.Interface)
	if tag.isNum() {
		if tag.cst.Sign() == 0 {
			return b.F
		}
		if ct, ok := x.tagTypes[tag.cst.Num().Int64()]; ok {
			return b.Bool(types.Implements(ct, it))
		}
	}
	if it.NumMethods() == 0 {
		return b.Not(b.Eq(tag, b.Int(0)))
	}
	return b.And(b.Not(b.Eq(tag, b.Int(0))), b.App("impl."+sanitize(tkey(t)), SBool, tag))
}

func (x *Exec) unboxAs(st *State, t types.Type, tag, d *Term) Val {
	v := x.unbox(t, d)
	if isPtrLike(t) && !d.isNum() && !d.bound {
		x.axiom(d, x.b.Imp(x.b.Eq(tag, x.tag(t)), x.b.And(x.b.Le(x.b.Int(0), d), x.b.Lt(d, x.top(st)))))
	}
	return v
}

func (x *Exec) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert) []Outcome {
	b := x.b
	v := x.val(st, fr, in.X)
	var ok *Term
	var r Val
	if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		ok = x.implTag(in.AssertedType, v[0])
		r = v
	} else {
		ok = b.Eq(v[0], x.tag(in.AssertedType))
		if ok != b.F {
			r = x.unboxAs(st, in.AssertedType, v[0], v[1])
		} else {
			r = x.zero(in.AssertedType)
		}
	}
	if in.CommaOk {
		return ret(st, append(append(Val{}, x.iteVal(ok, r, x.zero(in.AssertedType))...), ok))
	}
	okk, po := x.check(st, fr, ok, "failed type assertion "+x.pos(in.Pos()))
	if okk {
		po = append(po, Outcome{kind: oRet, st: st, ret: []Val{r}})
	}
	return po
}

// ---------- calls ----------

func (x *Exec) prepCall(st *State, fr *Frame, cc *ssa.CallCommon, in ssa.Instruction) func(*State) []Outcome {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, x.val(st, fr, a))
	}
	site := ""
	if _, ok := in.(*ssa.Defer); ok {
		site = "defer"
	}
	if _, ok := in.(*ssa.Go); ok {
		site = "go"
	}
	if cc.IsInvoke() {
		recv := x.val(st, fr, cc.Value)
		return func(s *State) []Outcome { return x.invoke(s, fr, cc, recv, args, in) }
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		return func(s *State) []Outcome { return x.builtin(s, fr, f, cc, args, in, site) }
	case *ssa.Function:
		return func(s *State) []Outcome { return x.call(s, fr, f, args, nil, in, site) }
	}
	fv := x.val(st, fr, cc.Value)[0]
	sig := cc.Value.Type().Underlying().(*types.Signature)
	return func(s *State) []Outcome { return x.callVal(s, fr, fv, sig, args, in, site) }
}

// callVal calls a function value
func (x *Exec) callVal(st *State, fr *Frame, f *Term, sig *types.Signature, args []Val, in ssa.Instruction, site string) []Outcome {
	b := x.b
	if f.isNum() {
		id := f.cst.Num().Int64()
		if fn, ok := x.fnByID[id]; ok {
			return x.call(st, fr, fn, args, nil, in, site)
		}
		if id == 0 {
			return []Outcome{x.panicOut(st, cloneFr(fr), "call of nil function")}
		}
	}
	if c := st.closure(f); c != nil {
		if c.native != nil {
			return c.native(st, args)
		}
		return x.call(st, fr, c.fn, args, c.bind, in, site)
	}
	if f.op == OIte {
		s1, s2 := x.fork(st, f.args[0])
		var outs []Outcome
		if s1 != nil {
			outs = append(outs, x.callVal(s1, fr, f.args[1], sig, args, in, site)...)
		}
		if s2 != nil {
			outs = append(outs, x.callVal(s2, fr, f.args[2], sig, args, in, site)...)
		}
		return outs
	}
	if f.op == OSelect && f.args[0].op == OStore {
		// a function stored in memory whose slot is not decided syntactically: split on the slot
		sto := f.args[0]
		eq := b.Eq(sto.args[1], f.args[1])
		s1, s2 := x.fork(st, eq)
		var outs []Outcome
		if s1 != nil {
			outs = append(outs, x.callVal(s1, fr, sto.args[2], sig, args, in, site)...)
		}
		if s2 != nil {
			outs = append(outs, x.callVal(s2, fr, b.Select(sto.args[0], f.args[1]), sig, args, in, site)...)
		}
		return outs
	}
	ok, po := x.check(st, fr, b.Not(b.Eq(f, b.Int(0))), "call of nil function")
	if !ok {
		return po
	}
	if x.family != nil && x.familyFits(sig) {
		a := append([]Val{{f}}, args...)
		return append(po, x.callBody(st, x.family, a, nil, nil, site)...)
	}
	// unknown function value: arbitrary result, no effect on module memory
	x.assumed["function values of unknown origin return arbitrary results and do not change the module's memory: "+sig.String()] = true
	var rs []Val
	x.rebase(st)
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, x.freshVal(sig.Results().At(i).Type(), "fv", x.top(st)))
	}
	return append(po, Outcome{kind: oRet, st: st, ret: rs})
}

func (x *Exec) familyFits(sig *types.Signature) bool {
	fs := x.family.Signature
	if fs.Params().Len() != sig.Params().Len()+1 || fs.Results().Len() != sig.Results().Len() {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if !types.Identical(fs.Params().At(i+1).Type(), sig.Params().At(i).Type()) {
			return false
		}
	}
	return true
}

func cloneFr(fr *Frame) *Frame {
	if fr == nil {
		return nil
	}
	return fr.clone()
}

func fullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (x *Exec) call(st *State, fr *Frame, fn *ssa.Function, args []Val, bind []Val, in ssa.Instruction, site string) []Outcome {
	if len(fn.Blocks) == 0 || fn.Pkg == nil || true {
		// thunks and wrappers have bodies and no package; models apply by name
		o := fn
		if fn.Origin() != nil {
			o = fn.Origin()
		}
		if o.Pkg != nil && o.Pkg.Pkg.Path() == x.L.vcPath {
			if fn.Parent() == nil {
				return x.vcCall(st, fr, fn, args, in)
			}
		}
	}
	if fr != nil && fr.cm != nil && fn == fr.cm.c.Target && !fr.ct.called && fr.cm.kind != cmLemma {
		return x.targetCall(st, fr, fn, args)
	}
	if x.root != nil && x.root.Opts["with"] != "" {
		for _, tag := range strings.Split(x.root.Opts["with"], "+") {
			for _, e := range x.L.externs[tag+" "+fullName(fn)] {
				if x.inExtern[e] {
					continue
				}
				x.assumed["calls of "+fullName(fn)+" are replaced by "+e.Name()+" where "+x.root.Name+" is proved: its effects on the caller's data are those of "+e.Name()] = true
				x.inExtern[e] = true
				outs := x.callBody(st, e, args, nil, nil, site)
				delete(x.inExtern, e)
				return outs
			}
		}
	}
	if x.pure == 0 {
		if c := x.L.byTarget[fn]; c != nil && !x.noUse[c] && x.usable(c) && x.guardedUse(st, c, fn, args) {
			return x.useContract(st, fr, c, fn, args, in)
		}
	}
	if x.L.specFns[fn] {
		return ret(st, x.specCall(fn, args))
	}
	name := fullName(fn)
	for _, e := range x.L.externs[name] {
		if x.pure > 0 || x.inExtern[e] || x.root == nil || x.root.Fn == nil || x.root.Fn.Pkg != e.Pkg {
			continue
		}
		x.assumed["model of "+name] = true
		x.inExtern[e] = true
		outs := x.callBody(st, e, args, nil, nil, site)
		delete(x.inExtern, e)
		return outs
	}
	if m, ok := models[name]; ok {
		x.models[name] = true
		return m(x, st, fr, fn, args)
	}
	if len(fn.Blocks) > 0 {
		return x.callBody(st, fn, args, bind, nil, site)
	}
	return x.opaque(st, fr, fn.Signature, name, args)
}

func (x *Exec) opaque(st *State, fr *Frame, sig *types.Signature, name string, args []Val) []Outcome {
	x.assumed["external "+name+" returns an arbitrary result and does not change the module's memory"] = true
	x.note(st, "external "+name)
	var rs []Val
	if x.pure == 0 {
		x.rebase(st)
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, x.freshVal(sig.Results().At(i).Type(), "ext", x.top(st)))
	}
	return ret(st, rs...)
}

func (x *Exec) implementers(it *types.Interface) []types.Type {
	var out []types.Type
	has := map[string]bool{}
	for _, t := range x.L.boxedTypes() {
		if types.Implements(t, it) {
			out = append(out, t)
			has[tkey(t)] = true
		}
	}
	// types that only the contract speaks of (vc.IsType)
	var tags []int64
	for n := range x.tagTypes {
		tags = append(tags, n)
	}
	sort.Slice(tags, func(i, j int) bool { return tags[i] < tags[j] })
	for _, n := range tags {
		if t := x.tagTypes[n]; !types.IsInterface(t) && !has[tkey(t)] && types.Implements(t, it) {
			out = append(out, t)
			has[tkey(t)] = true
		}
	}
	return out
}

func (L *Loaded) boxedTypes() []types.Type {
	L.boxedMu.Lock()
	defer L.boxedMu.Unlock()
	if L.boxed != nil {
		return L.boxed
	}
	m := map[string]types.Type{}
	var visit func(f *ssa.Function)
	seen := map[*ssa.Function]bool{}
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					if it, ok := mi.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
						m[tkey(mi.X.Type())] = mi.X.Type()
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for _, p := range L.pkgs {
		for _, mem := range p.Members {
			switch mem := mem.(type) {
			case *ssa.Function:
				visit(mem)
			case *ssa.Type:
				for _, t := range []types.Type{mem.Type(), types.NewPointer(mem.Type())} {
					if _, isI := t.Underlying().(*types.Interface); isI {
						continue
					}
					if n, ok := mem.Type().(*types.Named); ok && n.TypeParams().Len() > 0 {
						continue
					}
					ms := L.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						visit(L.prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	for _, k := range sortedKeys(m) {
		L.boxed = append(L.boxed, m[k])
	}
	return L.boxed
}

func (x *Exec) methodOf(t types.Type, m *types.Func) *ssa.Function {
	ms := x.L.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return x.L.prog.MethodValue(sel)
}

func (x *Exec) inModule(t types.Type) bool {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), x.L.modPath)
}

func (x *Exec) invoke(st *State, fr *Frame, cc *ssa.CallCommon, recv Val, args []Val, in ssa.Instruction) []Outcome {
	b := x.b
	it := cc.Value.Type().Underlying().(*types.Interface)
	tag, d := recv[0], recv[1]
	if tag.op == OIte {
		s1, s2 := x.fork(st, tag.args[0])
		var outs []Outcome
		pick := func(t *Term, side int) *Term {
			if t.op == OIte && t.args[0] == tag.args[0] {
				return t.args[side]
			}
			return t
		}
		if s1 != nil {
			outs = append(outs, x.invoke(s1, fr, cc, Val{tag.args[1], pick(d, 1)}, args, in)...)
		}
		if s2 != nil {
			outs = append(outs, x.invoke(s2, fr, cc, Val{tag.args[2], pick(d, 2)}, args, in)...)
		}
		return outs
	}
	ok, outs := x.check(st, fr, b.Not(b.Eq(tag, b.Int(0))), "method call on nil interface "+x.pos(cc.Pos()))
	if !ok {
		return outs
	}
	site := ""
	if _, isD := in.(*ssa.Defer); isD {
		site = "defer"
	}
	direct := func(s *State, t types.Type) []Outcome {
		m := x.methodOf(t, cc.Method)
		if m == nil {
			panic(unsup("method " + cc.Method.Name() + " of " + tkey(t)))
		}
		var fr2 = fr
		a := append([]Val{x.unboxAs(s, t, tag, d)}, args...)
		return x.call(s, fr2, m, a, nil, in, site)
	}
	name := tkey(cc.Value.Type()) + "." + cc.Method.Name()
	if m, ok := ifaceModels[name]; ok && !tag.isNum() {
		return append(outs, m(x, st, fr, recv, args, cc)...)
	}
	if tag.isNum() {
		if t, ok := x.tagTypes[tag.cst.Num().Int64()]; ok && (x.inModule(t)) {
			return append(outs, direct(st, t)...)
		}
		if m, ok := ifaceModels[name]; ok {
			return append(outs, m(x, st, fr, recv, args, cc)...)
		}
		if t, ok := x.tagTypes[tag.cst.Num().Int64()]; ok {
			return append(outs, direct(st, t)...)
		}
		return append(outs, x.opaque(st, fr, cc.Signature(), name, args)...)
	}
	n := 0
	cands := x.implementers(it)
	rest := b.T
	for _, t := range cands {
		if !x.inModule(t) {
			continue
		}
		c := b.Eq(tag, x.tag(t))
		if !x.feasible(st, c) {
			continue
		}
		n++
		s := st.clone()
		x.assume(s, c)
		outs = append(outs, direct(s, t)...)
		rest = b.And(rest, b.Not(c))
	}
	if n == 0 || !x.inModule(cc.Value.Type()) {
		if x.feasible(st, rest) {
			x.assume(st, rest)
			outs = append(outs, x.opaque(st, fr, cc.Signature(), name, args)...)
		}
		return outs
	}
	x.assumed["values of interface "+tkey(cc.Value.Type())+" have one of the dynamic types that this module (or the contract) puts there"] = true
	return outs
}

// ---------- builtins ----------

func (x *Exec) builtin(st *State, fr *Frame, f *ssa.Builtin, cc *ssa.CallCommon, args []Val, in ssa.Instruction, site string) []Outcome {
	b := x.b
	switch f.Name() {
	case "len":
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Basic:
			return ret(st, Val{x.strLen(args[0][0])})
		case *types.Slice:
			return ret(st, Val{args[0][2]})
		case *types.Map:
			r := x.mapRegs(cc.Args[0].Type())
			x.guardKey(st, r.n, args[0][0], false)
			return ret(st, Val{x.mapLen(st, r, args[0][0])})
		case *types.Array:
			return ret(st, Val{b.Int(u.Len())})
		case *types.Pointer:
			return ret(st, Val{b.Int(u.Elem().Underlying().(*types.Array).Len())})
		case *types.Chan:
			return ret(st, Val{b.Ite(b.Eq(args[0][0], b.Int(0)), b.Int(0), b.Sub(x.chGet(st, "chan#tail", args[0][0]), x.chGet(st, "chan#head", args[0][0])))})
		}
	case "cap":
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return ret(st, Val{args[0][3]})
		case *types.Array:
			return ret(st, Val{b.Int(u.Len())})
		case *types.Chan:
			return ret(st, Val{x.chGet(st, "chan#cap", args[0][0])})
		}
	case "append":
		sl := cc.Args[0].Type().Underlying().(*types.Slice)
		if bt, ok := cc.Args[1].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			s := args[1][0]
			return ret(st, x.appendVals(st, sl.Elem(), args[0], []*Term{x.bytesOf(s)}, b.Int(0), x.strLen(s)))
		}
		src := x.inner(st, sl.Elem(), args[1][0])
		ks, _ := x.elemKeys(sl.Elem())
		for _, k := range ks {
			x.guardKey(st, k, args[1][0], false)
		}
		return ret(st, x.appendVals(st, sl.Elem(), args[0], src, args[1][1], args[1][2]))
	case "copy":
		sl := cc.Args[0].Type().Underlying().(*types.Slice)
		if bt, ok := cc.Args[1].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			v := x.newBytes(st, args[1][0])
			return ret(st, Val{x.copyBuiltin(st, sl.Elem(), args[0], v)})
		}
		return ret(st, Val{x.copyBuiltin(st, sl.Elem(), args[0], args[1])})
	case "delete":
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		k := x.keyTerm(mt.Key(), args[1])
		s1, s2 := x.fork(st, b.Eq(args[0][0], b.Int(0)))
		var outs []Outcome
		if s1 != nil {
			outs = append(outs, Outcome{kind: oRet, st: s1})
		}
		if s2 != nil {
			x.mapDel(s2, cc.Args[0].Type(), args[0][0], k)
			outs = append(outs, Outcome{kind: oRet, st: s2})
		}
		return outs
	case "close":
		return x.closeCh(st, fr, args[0][0])
	case "print", "println":
		return ret(st)
	case "recover":
		z := Val{b.Int(0), b.Int(0)}
		if site == "defer" || len(st.pan) == 0 || fr == nil || fr.site != "defer" {
			return ret(st, z)
		}
		top := st.pan[len(st.pan)-1]
		if top.recovered {
			return ret(st, z)
		}
		top.recovered = true
		v := top.val
		if top.runtime {
			v = Val{x.tagByName("runtime.Error"), b.Fresh("rt", SInt)}
		}
		return ret(st, v)
	case "min", "max":
		if bt, ok := cc.Args[0].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			r := args[0][0]
			for _, a := range args[1:] {
				if f.Name() == "min" {
					r = b.Ite(b.Le(r, a[0]), r, a[0])
				} else {
					r = b.Ite(b.Le(a[0], r), r, a[0])
				}
			}
			return ret(st, Val{r})
		}
	case "clear":
		if mt, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			r := x.mapRegs(cc.Args[0].Type())
			_ = mt
			ref := args[0][0]
			x.guardKey(st, r.dom, ref, true)
			x.mapLen(st, r, ref)
			x.mapDom(st, r, ref)
			x.setReg(st, r.n, b.Store(st.reg[r.n], ref, b.Int(0)), ref)
			x.setReg(st, r.dom, b.Store(st.reg[r.dom], ref, b.ConstArr(SArr(r.ks, SBool), b.F)), ref)
			return ret(st)
		}
	case "ssa:wrapnilchk":
		ok, po := x.check(st, fr, b.Not(b.Eq(args[0][0], b.Int(0))), "nil receiver")
		if !ok {
			return po
		}
		return append(po, Outcome{kind: oRet, st: st, ret: []Val{args[0]}})
	}
	panic(unsup("builtin " + f.Name()))
}

// ---------- pure evaluation ----------

type pureOut struct {
	conds []*Term
	v     Val
}

func (x *Exec) mergePure(outs []pureOut) Val {
	if len(outs) == 1 {
		return outs[0].v
	}
	// decision tree on the first condition
	var c *Term
	for _, o := range outs {
		if len(o.conds) > 0 {
			c = o.conds[0]
			break
		}
	}
	if c == nil {
		return outs[0].v
	}
	if c.op == ONot {
		c = c.args[0]
	}
	nc := x.b.Not(c)
	var a, d []pureOut
	good := true
	for _, o := range outs {
		if len(o.conds) == 0 {
			good = false
			break
		}
		switch o.conds[0] {
		case c:
			a = append(a, pureOut{o.conds[1:], o.v})
		case nc:
			d = append(d, pureOut{o.conds[1:], o.v})
		default:
			good = false
		}
	}
	if good && len(a) > 0 && len(d) > 0 {
		return x.iteVal(c, x.mergePure(a), x.mergePure(d))
	}
	if good && len(a) > 0 {
		return x.mergePure(a)
	}
	if good && len(d) > 0 {
		return x.mergePure(d)
	}
	r := outs[len(outs)-1].v
	for i := len(outs) - 2; i >= 0; i-- {
		r = x.iteVal(x.b.And(outs[i].conds...), outs[i].v, r)
	}
	return r
}

// evalPure evaluates a function value as a logical function of the state
func (x *Exec) evalPure(st *State, run func(s *State) []Outcome) Val {
	x.pure++
	defer func() { x.pure-- }()
	wl := x.writeLogs
	x.writeLogs = nil
	defer func() { x.writeLogs = wl }()
	s := st.clone()
	mark := s.pc
	outs := run(s)
	var po []pureOut
	for _, o := range outs {
		if o.kind != oRet {
			continue
		}
		var conds []*Term
		var facts []*Term
		for q := o.st.pc; q != mark; q = q.prev {
			if q == nil {
				break
			}
			if q.fact {
				facts = append(facts, q.t)
			} else {
				conds = append(conds, q.t)
			}
		}
		for i, j := 0, len(conds)-1; i < j; i, j = i+1, j-1 {
			conds[i], conds[j] = conds[j], conds[i]
		}
		for i := len(facts) - 1; i >= 0; i-- {
			if !facts[i].bound && !x.inPC(st, facts[i]) {
				x.assumeFact(st, facts[i])
			}
		}
		if o.st.n > st.n && o.st.base == st.base {
			st.n = o.st.n
		}
		po = append(po, pureOut{conds, flatRet(o.ret)})
	}
	if len(po) == 0 {
		return nil
	}
	return x.mergePure(po)
}

func (x *Exec) evalFnVal(st *State, f *Term, args ...Val) Val {
	return x.evalPure(st, func(s *State) []Outcome {
		if c := s.closure(f); c != nil {
			return x.callBody(s, c.fn, args, c.bind, nil, "")
		}
		if f.isNum() {
			if fn, ok := x.fnByID[f.cst.Num().Int64()]; ok {
				return x.call(s, nil, fn, args, nil, nil, "")
			}
		}
		panic(unsup("specification closure is not a function literal"))
	})
}

func (x *Exec) evalBool(st *State, f *Term, args ...Val) *Term {
	v := x.evalFnVal(st, f, args...)
	if v == nil {
		return x.b.F
	}
	return v[0]
}

// ---------- spec functions (recursive, uninterpreted with unfolding) ----------

func (x *Exec) specCall(fn *ssa.Function, args []Val) Val {
	var flat []*Term
	for _, a := range args {
		flat = append(flat, a...)
	}
	var r Val
	rt := fn.Signature.Results().At(0).Type()
	for i, l := range x.leaves(rt) {
		n := fmt.Sprintf("spec.%s.%d", sanitize(fn.String()), i)
		x.specBy[n] = specRef{fn, i}
		r = append(r, x.b.SApp(n, l.sort, flat...))
	}
	return r
}

type specRef struct {
	fn *ssa.Function
	i  int
}

func (x *Exec) specHook(t *Term) {
	if x.specSeen[t] || x.specDepth >= x.specMax {
		return
	}
	s, ok := x.specBy[t.name]
	if !ok {
		return
	}
	x.specSeen[t] = true
	x.specDepth++
	defer func() { x.specDepth-- }()
	var args []Val
	o := 0
	for _, p := range s.fn.Params {
		n := len(x.leaves(p.Type()))
		args = append(args, Val(t.args[o:o+n]))
		o += n
	}
	st := x.specState
	if st == nil {
		st = x.newState()
		x.specState = st
	}
	st = st.clone()
	v := x.evalPure(st, func(q *State) []Outcome { return x.callBody(q, s.fn, args, nil, nil, "") })
	if v == nil {
		return
	}
	rt := s.fn.Signature.Results().At(0).Type()
	x.axiom(t, x.leafFacts(x.leaves(rt)[s.i], t, nil)...)
	x.axiom(t, x.b.Eq(t, v[s.i]))
}

// uf builds an uninterpreted function value of Go type t
func (x *Exec) uf(name string, t types.Type, args ...*Term) Val {
	var v Val
	for i, l := range x.leaves(t) {
		if l.comp {
			panic(unsup("uf of composite type"))
		}
		v = append(v, x.b.SApp(fmt.Sprintf("uf.%s.%d", sanitize(name), i), l.sort, args...))
	}
	if len(v) > 0 && !v[0].bound {
		x.typed(t, v, nil)
	}
	return v
}

// anyArgs decodes a variadic []any argument
func (x *Exec) anyArgs(st *State, s Val) []Val {
	if !s[2].isNum() {
		panic(unsup("variadic arguments of unknown number"))
	}
	n := s[2].cst.Num().Int64()
	et := types.NewInterfaceType(nil, nil)
	in := x.inner(st, et, s[0])
	var out []Val
	for i := int64(0); i < n; i++ {
		idx := x.b.Add(s[1], x.b.Int(i))
		out = append(out, Val{x.b.Select(in[0], idx), x.b.Select(in[1], idx)})
	}
	return out
}

// dyn: dynamic type and value of an interface value with a literal tag
func (x *Exec) dyn(v Val) (types.Type, Val) {
	if !v[0].isNum() {
		return nil, nil
	}
	t, ok := x.tagTypes[v[0].cst.Num().Int64()]
	if !ok {
		return nil, nil
	}
	return t, x.unbox(t, v[1])
}

var _ = big.NewInt
var _ = sort.Strings
