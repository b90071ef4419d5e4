package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) usable(c *Contract) bool {
	if c.Inline || c.Unresolv != "" || c.Fn == nil {
		return false
	}
	if x.root != nil {
		if x.root.Opts["expand"] == "all" || c.Opts["family"] != "" && x.root.Pkg != c.Pkg {
			return false
		}
	}
	if len(x.stack) > maxDepth-5 {
		panic(unsup("contract recursion"))
	}
	return true
}

// ---------- running the target inside its contract ----------

func (x *Exec) targetCall(st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
	ct := fr.ct
	ct.called = true
	c := fr.cm.c
	if fr.cm.kind == cmUse {
		return x.havocCall(st, fr, fn, args)
	}
	ct.preTop = x.top(st)
	ct.pre = map[string]*Term{}
	for k, v := range st.reg {
		ct.pre[k] = v
	}
	st.preTop = ct.preTop
	st.preReg = ct.pre
	x.cover(st, "preconditions satisfiable")
	was := x.inTarget
	x.inTarget = true
	x.rootCt = ct
	x.targetDepth = len(x.stack)
	outs := x.callBody(st, fn, args, nil, nil, "")
	x.inTarget = was
	var res []Outcome
	for _, o := range outs {
		switch o.kind {
		case oRet:
			o.st.preTop = ct.preTop
			o.st.preReg = ct.pre
			if !ct.anything {
				x.frameCheck(o.st, ct)
			}
			if o.st.dead {
				continue
			}
			x.covers["return"] = true
			res = append(res, o)
		case oPanic:
			if o.pan.block {
				if c.Opts["block"] != "ok" {
					x.oblige(o.st, "terminates", x.b.F, o.pan.why)
				}
				continue
			}
			if c.Opts["panics"] != "ok" {
				x.oblige(o.st, "no-panic", x.b.F, o.pan.why)
			}
		}
	}
	return res
}

// cover records that the current path condition is satisfiable (vacuity check)
func (x *Exec) cover(st *State, what string) {
	if x.covers[what] || x.dry > 0 {
		return
	}
	r := x.sol.Check(st.pc.terms(), 400)
	if r != Unsat {
		x.covers[what] = true
	}
	if r == Sat {
		x.covers[what+" (model found)"] = true
	}
}

// allowed reports the modification conditions for region k
func (x *Exec) modsFor(ct *ctState, k string) (whole []*Term, ranges []modLoc) {
	for _, m := range ct.mods {
		if !m.keys[k] {
			continue
		}
		if m.lo != nil || m.loc.idx != nil {
			ranges = append(ranges, m)
		} else {
			whole = append(whole, m.ref)
		}
	}
	return
}

func (x *Exec) frameCheck(st *State, ct *ctState) {
	b := x.b
	keys := sortedKeys(st.reg)
	for _, k := range keys {
		post := st.reg[k]
		if strings.HasPrefix(k, "iter:") || strings.HasPrefix(k, "ghost:") || ct.chans && strings.HasPrefix(k, "chan") {
			continue
		}
		pre, ok := ct.pre[k]
		if !ok {
			pre = x.regionVar(st.epoch+"."+k, k, x.epochBase[st.epoch])
		}
		if pre == post {
			continue
		}
		whole, ranges := x.modsFor(ct, k)
		okAt := func(r *Term) *Term {
			var alts []*Term
			alts = append(alts, b.Le(ct.preTop, r), b.Eq(b.Select(post, r), b.Select(pre, r)))
			for _, w := range whole {
				alts = append(alts, b.Eq(r, w))
			}
			if len(ranges) > 0 {
				j := b.FreshBound("j", SInt)
				in := []*Term{b.Eq(b.Select(b.Select(post, r), j), b.Select(b.Select(pre, r), j))}
				for _, m := range ranges {
					lo, hi := m.lo, m.hi
					if m.loc.idx != nil {
						lo, hi = m.loc.idx, b.Add(m.loc.idx, b.Int(1))
					}
					in = append(in, b.And(b.Eq(r, m.ref), b.Le(lo, j), b.Lt(j, hi)))
				}
				alts = append(alts, b.Forall([]*Term{j}, b.Or(in...)))
			}
			return b.Or(alts...)
		}
		name := "frame:" + k
		// store chains over the pre-state are checked reference by reference
		if refs, ok := x.chainRefs(post, pre, 0); ok {
			goal := b.T
			for _, r := range refs {
				goal = b.And(goal, okAt(r))
			}
			x.oblige(st, name, goal, "")
			continue
		}
		r := b.FreshBound("r", SInt)
		x.oblige(st, name, b.Forall([]*Term{r}, okAt(r)), "")
	}
}

func (x *Exec) chainRefs(post, pre *Term, d int) ([]*Term, bool) {
	if d > 200 {
		return nil, false
	}
	if post == pre {
		return nil, true
	}
	switch post.op {
	case OStore:
		rs, ok := x.chainRefs(post.args[0], pre, d+1)
		return append(rs, post.args[1]), ok
	case OIte:
		a, ok1 := x.chainRefs(post.args[1], pre, d+1)
		c, ok2 := x.chainRefs(post.args[2], pre, d+1)
		return append(a, c...), ok1 && ok2
	}
	return nil, false
}

// ---------- using a contract at a call site ----------

func (x *Exec) useContract(st *State, fr *Frame, c *Contract, fn *ssa.Function, args []Val, in ssa.Instruction) []Outcome {
	x.used[c] = true
	site := ""
	if in != nil && in.Pos().IsValid() {
		site = x.pos(in.Pos())
	}
	saved, savedR := st.preTop, st.preReg
	was, wasUse := x.inTarget, x.useInTarget
	x.useInTarget = was
	x.inTarget = false
	invs := len(x.invs)
	cm := &cmode{kind: cmUse, c: c, site: site}
	// the target and its contract take the same parameters
	if len(c.Fn.Params) != len(args) {
		panic(unsup("contract " + c.ID + " has different parameters from its target"))
	}
	outs := x.callBody(st, c.Fn, args, nil, cm, "")
	x.inTarget, x.useInTarget = was, wasUse
	x.invs = x.invs[:invs]
	var res []Outcome
	for _, o := range outs {
		o.st.preTop, o.st.preReg = saved, savedR
		if o.kind == oPanic {
			x.oblige(o.st, "contract "+c.ID+" well defined at "+site, x.b.F, o.pan.why)
			continue
		}
		res = append(res, o)
	}
	return res
}

// guardedUse decides whether a contract may stand for a call made while guarded-by conditions are checked: the
// callee may read whatever it is given, so the lock of what it is given must be held, and what it modifies needs the
// lock exclusively (checked in havocCall).  A callee given the lock's owner is followed into its body instead, unless
// its own contract states the guarded-by condition.
func (x *Exec) guardedUse(st *State, c *Contract, fn *ssa.Function, args []Val) bool {
	if len(x.guards) == 0 || x.pure > 0 || !x.inTarget {
		return true
	}
	guarded := c.guarded()
	var refs []*Term
	for i, p := range fn.Params {
		if i >= len(args) {
			break
		}
		var r *Term
		owner := false
		switch u := p.Type().Underlying().(type) {
		case *types.Pointer:
			l := x.decode(args[i][0], u.Elem())
			r, owner = l.ref, true
			for _, g := range x.guards {
				owner = owner && strings.HasPrefix(g.mu.key, l.key)
			}
		case *types.Slice, *types.Map:
			r = args[i][0]
		default:
			continue
		}
		refs = append(refs, r)
		for _, g := range x.guards {
			if !guarded && owner && x.b.Eq(r, g.mu.ref) != x.b.F && x.feasible(st, x.b.Eq(r, g.mu.ref)) {
				return false
			}
			if guarded && owner {
				x.acquired(st, g.mu.key, r)
			}
		}
	}
	for _, g := range x.guards {
		for _, gl := range g.locs {
			for _, r := range refs {
				if r != g.mu.ref {
					x.guardOblige(st, g, gl, r, false, "argument of "+fn.Name())
				}
			}
		}
	}
	return true
}

func (c *Contract) guarded() bool {
	for _, b := range c.Fn.Blocks {
		for _, in := range b.Instrs {
			if cl, ok := in.(*ssa.Call); ok {
				if f := cl.Call.StaticCallee(); f != nil && f.Name() == "Guarded" {
					return true
				}
			}
		}
	}
	return false
}

func (x *Exec) havocCall(st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
	b := x.b
	ct := fr.ct
	if ct.anything || ct.chans {
		panic(unsup("contract " + fr.cm.c.ID + " modifies anything and cannot be used at a call site"))
	}
	st.preTop = x.top(st)
	st.preReg = nil
	x.rebase(st)
	base := x.top(st)
	// time may pass
	x.clockStep(st)
	for _, m := range ct.mods {
		for _, g := range x.guards {
			if !x.useInTarget || fr.cm.c.guarded() || x.pure > 0 {
				break
			}
			for _, gl := range g.locs {
				for k := range m.keys {
					if strings.HasPrefix(k, gl.prefix) || strings.HasPrefix(gl.prefix, k) {
						x.guardOblige(st, g, gl, m.ref, true, "modified by "+fn.Name())
						break
					}
				}
			}
		}
		x.havocLoc(st, m, base)
	}
	var rs []Val
	sig := fn.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, x.freshVal(sig.Results().At(i).Type(), "res", base))
	}
	ct.res = rs
	_ = b
	return ret(st, rs...)
}

func (x *Exec) clockStep(st *State) {
	if x.frozen || x.pure > 0 {
		return
	}
	c := x.b.Fresh("clock", SInt)
	x.axiom(c, x.leafFacts(Leaf{kind: KTime}, c, nil)...)
	x.axiom(c, x.b.Le(st.clock, c))
	st.clock = c
}

func (x *Exec) havocLoc(st *State, m modLoc, base *Term) {
	b := x.b
	inner := func(k string) *Term {
		r := st.reg[k]
		if r == nil {
			r = x.regionVar(st.epoch+"."+k, k, x.epochBase[st.epoch])
			st.reg[k] = r
		}
		return r
	}
	for _, k := range sortedKeys(m.keys) {
		ri := x.regLeaf[k]
		r := inner(k)
		switch {
		case m.kind == 0 && m.loc.elem && m.loc.idx != nil:
			f := b.Fresh("hv", ri.leaf.sort)
			x.hvFacts(f, ri.leaf, base)
			x.setReg(st, k, b.Store(r, m.ref, b.Store(b.Select(r, m.ref), m.loc.idx, f)), m.ref)
		case ri.twoD != nil:
			f := b.Fresh("hv", SArr(ri.twoD, ri.leaf.sort))
			lf := ri.leaf
			b.rkind[f] = rk{Leaf{sort: lf.sort, kind: lf.kind, bits: lf.bits, uns: lf.uns, comp: true}, base}
			if m.lo != nil {
				j := b.FreshBound("j", SInt)
				x.assumeFact(st, b.Forall([]*Term{j}, b.Or(b.And(b.Le(m.lo, j), b.Lt(j, m.hi)), b.Eq(b.Select(f, j), b.Select(b.Select(r, m.ref), j)))))
			}
			x.setReg(st, k, b.Store(r, m.ref, f), m.ref)
		default:
			f := b.Fresh("hv", ri.leaf.sort)
			x.hvFacts(f, ri.leaf, base)
			x.setReg(st, k, b.Store(r, m.ref, f), m.ref)
		}
	}
	if m.kind == 0 {
		// relations between leaves (slice length and capacity, …)
		var v Val
		if m.loc.elem && m.loc.idx == nil {
			return
		}
		pure := x.pure
		x.pure++
		ls := x.leaves(m.typ)
		for _, lf := range ls {
			k := m.loc.key + lf.path
			if m.loc.elem {
				v = append(v, b.Select(b.Select(st.reg[k], m.loc.ref), m.loc.idx))
			} else {
				v = append(v, b.Select(st.reg[k], m.loc.ref))
			}
		}
		x.pure = pure
		x.typedRel(m.typ, v)
	}
	if m.kind == 3 {
		hd, tl := b.Select(st.reg["chan#head"], m.ref), b.Select(st.reg["chan#tail"], m.ref)
		x.assumeFact(st, b.Le(hd, tl))
	}
}

func (x *Exec) hvFacts(f *Term, l Leaf, base *Term) {
	if l.comp {
		x.b.rkind[f] = rk{l, base}
		return
	}
	x.axiom(f, x.leafFacts(l, f, base)...)
	if l.kind == KRef && base != nil && base.gen > 0 {
		x.b.oldRef[f] = base.gen
	}
}

// modOf turns an argument of Modifies/ModifiesElems into a location
func (x *Exec) modOf(st *State, v Val, elems bool) []modLoc {
	t, d := x.dyn(v)
	if t == nil {
		panic(unsup("Modifies argument of unknown type"))
	}
	b := x.b
	regKey := func(k string, l Leaf, two *Sort) string {
		if _, ok := x.regLeaf[k]; !ok {
			x.regLeaf[k] = regInfo{l, two}
		}
		return k
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		l := x.decode(d[0], u.Elem())
		m := modLoc{loc: l, ref: l.ref, typ: u.Elem(), keys: map[string]bool{}}
		whole := l.elem && l.idx == nil
		for _, lf := range x.leaves(u.Elem()) {
			switch {
			case whole:
				el := lf
				el.path = strings.TrimPrefix(lf.path, "[]")
				el.sort = lf.sort.v
				el.comp = false
				m.keys[regKey(l.key+el.path, el, SInt)] = true
			case l.elem:
				m.keys[regKey(l.key+lf.path, lf, SInt)] = true
			default:
				m.keys[regKey(l.key+lf.path, lf, nil)] = true
			}
		}
		return []modLoc{m}
	case *types.Slice:
		m := modLoc{kind: 1, ref: d[0], lo: d[1], hi: b.Add(d[1], d[3]), keys: map[string]bool{}}
		ks, ls := x.elemKeys(u.Elem())
		for i, k := range ks {
			m.keys[regKey(k, ls[i], SInt)] = true
		}
		return []modLoc{m}
	case *types.Map:
		r := x.mapRegs(t)
		m := modLoc{kind: 2, ref: d[0], keys: map[string]bool{}}
		m.keys[regKey(r.dom, Leaf{sort: SBool}, r.ks)] = true
		m.keys[regKey(r.n, Leaf{sort: SInt, kind: KLen}, nil)] = true
		for i, k := range r.val {
			m.keys[regKey(k, r.vl[i], r.ks)] = true
		}
		return []modLoc{m}
	case *types.Chan:
		r := x.chRegs(u.Elem())
		m := modLoc{kind: 3, ref: d[0], keys: map[string]bool{}}
		m.keys[regKey(r.closed, Leaf{sort: SBool}, nil)] = true
		m.keys[regKey(r.head, Leaf{sort: SInt, kind: KLen}, nil)] = true
		m.keys[regKey(r.tail, Leaf{sort: SInt, kind: KLen}, nil)] = true
		for i, k := range r.buf {
			m.keys[regKey(k, r.bl[i], SInt)] = true
		}
		return []modLoc{m}
	case *types.Basic, *types.Signature:
		return nil
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		return nil
	}
	panic(unsup("Modifies argument of type " + tkey(t)))
}

// ---------- semantics of the vc package ----------

func (x *Exec) vcCall(st *State, fr *Frame, fn *ssa.Function, args []Val, in ssa.Instruction) []Outcome {
	b := x.b
	name := fn.Name()
	if o := fn.Origin(); o != nil {
		name = o.Name()
	}
	var targs []types.Type
	for i := range fn.TypeArgs() {
		targs = append(targs, fn.TypeArgs()[i])
	}
	recv := fn.Signature.Recv()
	if recv != nil {
		rt := recv.Type()
		if p, ok := rt.(*types.Pointer); ok {
			rt = p.Elem()
		}
		n := namedOf(rt)
		targs = nil
		for i := 0; i < n.TypeArgs().Len(); i++ {
			targs = append(targs, n.TypeArgs().At(i))
		}
		return x.vcMethod(st, fr, n.Obj().Name()+"."+name, targs, args)
	}
	isUse := fr != nil && fr.cm != nil && fr.cm.kind == cmUse
	strArg := func(t *Term) string {
		if t.op == OStr {
			return t.name
		}
		panic(unsup("name of a clause must be a literal"))
	}
	switch name {
	case "Requires", "Assume":
		c := x.evalBool(st, args[0][0])
		if isUse {
			fr.ct.reqs++
			x.oblige(st, fmt.Sprintf("requires#%d of %s", fr.ct.reqs, fr.cm.c.ID), c, fr.cm.site)
		} else {
			x.assume(st, c)
			if c != b.T && !x.pcFeasible(st) {
				st.dead = true
			}
		}
		return x.alive(st)
	case "Ensures":
		c := x.evalBool(st, args[1][0])
		if isUse {
			x.assume(st, c)
		} else {
			n := strArg(args[0][0])
			x.cover(st, "ensures "+n)
			x.oblige(st, "ensures:"+n, c, "")
		}
		return x.alive(st)
	case "Assert":
		c := x.evalBool(st, args[1][0])
		n := strArg(args[0][0])
		if !isUse {
			x.cover(st, "assert "+n)
			x.oblige(st, "assert:"+n, c, "")
		} else {
			x.assume(st, c)
		}
		return x.alive(st)
	case "Invariant":
		if isUse {
			return ret(st)
		}
		t, d := x.dyn(args[1])
		n := strArg(args[0][0])
		for _, iv := range x.invs {
			if iv.name == n && iv.fn == d[0] {
				return ret(st)
			}
		}
		x.invs = append(x.invs, &invTmpl{name: n, fn: d[0], sig: t.Underlying().(*types.Signature), clos: st.closure(d[0])})
		return ret(st)
	case "Modifies", "ModifiesElems":
		for _, a := range x.anyArgs(st, args[0]) {
			if fr.ct != nil {
				fr.ct.mods = append(fr.ct.mods, x.modOf(st, a, name == "ModifiesElems")...)
			}
		}
		return ret(st)
	case "ModifiesAnything":
		if fr.ct != nil {
			fr.ct.anything = true
		}
		return ret(st)
	case "Fresh":
		t, d := x.dyn(args[0])
		if t == nil {
			return ret(st, Val{b.Or(b.Eq(args[0][0], b.Int(0)), b.Le(x.preTopOf(st), args[0][1]))})
		}
		switch t.Underlying().(type) {
		case *types.Slice:
			return ret(st, Val{b.Or(b.Le(x.preTopOf(st), d[0]), b.Eq(d[3], b.Int(0)))})
		default:
			return ret(st, Val{b.Le(x.preTopOf(st), d[0])})
		}
	case "Guarded":
		if isUse || x.guardsSet[fr.fn.String()+x.pos(in.Pos())] {
			return ret(st)
		}
		x.guardsSet[fr.fn.String()+x.pos(in.Pos())] = true
		t, d := x.dyn(args[0])
		mt := t.Underlying().(*types.Pointer).Elem()
		g := guard{mu: x.decode(d[0], mt), muT: tkey(mt), desc: strings.TrimPrefix(x.decode(d[0], mt).key, x.L.modPath)}
		for _, a := range x.anyArgs(st, args[1]) {
			at, ad := x.dyn(a)
			switch u := at.Underlying().(type) {
			case *types.Pointer:
				l := x.decode(ad[0], u.Elem())
				g.locs = append(g.locs, guardLoc{l.key, l.ref})
			case *types.Slice:
				g.locs = append(g.locs, guardLoc{"elem " + tkey(u.Elem()) + "#", ad[0]})
			case *types.Map:
				p := "map[" + tkey(u.Key()) + "]" + tkey(u.Elem()) + "#"
				g.locs = append(g.locs, guardLoc{p, ad[0]})
			default:
				panic(unsup("Guarded argument"))
			}
		}
		x.guards = append(x.guards, g)
		return ret(st)
	case "Unlocked":
		t, d := x.dyn(args[0])
		return ret(st, Val{b.Eq(x.load(st, d[0], t.Underlying().(*types.Pointer).Elem())[0], b.Int(0))})
	case "Imp":
		return ret(st, Val{b.Imp(args[0][0], args[1][0])})
	case "AtEntry":
		if x.loopEntry == nil {
			panic(unsup("AtEntry outside an invariant"))
		}
		e := x.loopEntry.clone()
		e.clos = st.clos
		v := x.evalFnVal(e, args[0][0])
		if v == nil {
			v = x.zero(targs[0])
		}
		return ret(st, v)
	case "Val":
		v := x.evalFnVal(st, args[0][0])
		if v == nil {
			v = x.zero(targs[0])
		}
		return ret(st, v)
	case "Forall", "Exists":
		lo, hi := args[0][0], args[1][0]
		if lo.isNum() && hi.isNum() {
			l, h := lo.cst.Num().Int64(), hi.cst.Num().Int64()
			if h-l <= 8 {
				r := b.Bool(name == "Forall")
				for i := l; i < h; i++ {
					v := x.evalBool(st, args[2][0], Val{b.Int(i)})
					if name == "Forall" {
						r = b.And(r, v)
					} else {
						r = b.Or(r, v)
					}
				}
				return ret(st, Val{r})
			}
		}
		i := b.FreshBound("q", SInt)
		body := x.evalBool(st, args[2][0], Val{i})
		rng := b.And(b.Le(lo, i), b.Lt(i, hi))
		if name == "Forall" {
			return ret(st, Val{b.Forall([]*Term{i}, b.Imp(rng, body))})
		}
		return ret(st, Val{b.Not(b.Forall([]*Term{i}, b.Imp(rng, b.Not(body))))})
	case "ForallKey":
		ks := x.keySort(targs[0])
		k := b.FreshBound("q", ks)
		body := x.evalBool(st, args[0][0], Val{k})
		return ret(st, Val{b.Forall([]*Term{k}, body)})
	case "Snap":
		s := args[0]
		v := Val{s[0], s[1], s[2]}
		return ret(st, append(v, x.inner(st, targs[0], s[0])...))
	case "SnapMap":
		mt := types.NewMap(targs[0], targs[1])
		r := x.mapRegs(mt)
		m := args[0][0]
		isNil := b.Eq(m, b.Int(0))
		v := Val{x.mapLen(st, r, m), b.Ite(isNil, b.ConstArr(SArr(r.ks, SBool), b.F), x.mapDom(st, r, m))}
		return ret(st, append(v, x.mapVals(st, r, m)...))
	case "Same":
		return ret(st, Val{x.same(args[0], args[1])})
	case "NoAlias":
		_, a := x.dyn(args[0])
		_, c := x.dyn(args[1])
		return ret(st, Val{b.Or(b.Not(b.Eq(a[0], c[0])), b.Eq(a[3], b.Int(0)), b.Eq(c[3], b.Int(0)))})
	case "Closed":
		_, d := x.dyn(args[0])
		return ret(st, Val{b.And(b.Not(b.Eq(d[0], b.Int(0))), x.chGet(st, "chan#closed", d[0]))})
	case "ChanLen":
		_, d := x.dyn(args[0])
		return ret(st, Val{b.Ite(b.Eq(d[0], b.Int(0)), b.Int(0), b.Sub(x.chGet(st, "chan#tail", d[0]), x.chGet(st, "chan#head", d[0])))})
	case "ChanAt":
		ch := args[0][0]
		r := x.chRegs(targs[0])
		idx := b.Add(x.chGet(st, "chan#head", ch), args[1][0])
		var v Val
		for i, k := range r.buf {
			v = append(v, b.Select(b.Select(x.region(st, k, r.bl[i], SInt), ch), idx))
		}
		x.typedRel(targs[0], v)
		return ret(st, v)
	case "RunPending":
		var outs []Outcome
		for _, o := range x.runPend(st) {
			if o.kind == oPanic {
				if !isUse {
					x.oblige(o.st, "no-panic", b.F, o.pan.why)
				}
				continue
			}
			outs = append(outs, o)
		}
		return outs
	case "Pending":
		return ret(st, Val{b.Int(int64(len(st.pend)))})
	case "HoldPending":
		return ret(st)
	case "Alone":
		x.eager = true
		return ret(st)
	case "Drains":
		_, d := x.dyn(args[0])
		x.drains = d[0]
		return ret(st)
	case "Sent":
		_, d := x.dyn(args[0])
		return ret(st, Val{x.chGet(st, "chan#tail", d[0])})
	case "Rely":
		x.rely = args[0][0]
		return ret(st)
	case "ModifiesChannels":
		if fr.ct != nil {
			fr.ct.chans = true
		}
		return ret(st)
	case "WaitCount":
		k, ref := x.lockLeaf(st, args[0][0], "sync.WaitGroup")
		return ret(st, Val{b.Select(st.reg[k], ref)})
	case "FreezeClock":
		x.frozen = true
		return ret(st)
	case "Clock":
		return ret(st, Val{st.clock})
	case "Local":
		_, d := x.dyn(args[0])
		x.assume(st, b.Not(x.chGet(st, "chan#env", d[0])))
		x.chSet(st, "chan#env", d[0], b.F)
		return ret(st)
	case "Nondet":
		return ret(st, x.freshVal(targs[0], "nd", x.top(st)))
	case "FnID":
		t, d := x.dyn(args[0])
		if t == nil {
			return ret(st, Val{args[0][1]})
		}
		return ret(st, Val{d[0]})
	case "UFInt", "UFBool", "UFStr", "UFFloat":
		var flat []*Term
		nm := strArg(args[0][0])
		for _, a := range x.anyArgs(st, args[1]) {
			t, d := x.dyn(a)
			if t == nil {
				d = a
			}
			flat = append(flat, d...)
		}
		return ret(st, x.uf("u."+nm, fn.Signature.Results().At(0).Type(), flat...))
	case "EqFloat":
		return ret(st, Val{x.identVal(args[0], args[1])})
	case "DeepEq":
		return ret(st, Val{x.deepEqAny(st, args[0], args[1])})
	case "ErrText":
		return x.errText(st, fr, args[0])
	case "SameTime":
		return ret(st, Val{b.Eq(args[0][0], args[1][0])})
	case "OnceDone":
		k, ref := bufLoc(x, st, args[0][0], "sync.Once")
		return ret(st, Val{b.Select(st.reg[k], ref)})
	case "Random":
		return ret(st, Val{b.And(b.Le(x.preTopOf(st), args[0][0]), b.Eq(x.ghostGet(st, "rand.len", args[0][0]), args[0][2]))})
	case "IsType":
		// IsType[T](any) bool
		return ret(st, Val{b.Eq(args[0][0], x.tag(targs[0]))})
	}
	if len(fn.Blocks) > 0 {
		return x.callBody(st, fn, args, nil, nil, "")
	}
	panic(unsup("vc." + name))
}

func (x *Exec) alive(st *State) []Outcome {
	if st.dead {
		return nil
	}
	return ret(st)
}

func (x *Exec) pcFeasible(st *State) bool {
	if st.dead {
		return false
	}
	return x.sol.Check(qfTerms(st.pc, x.hasQ), 300) != Unsat
}

func (x *Exec) preTopOf(st *State) *Term {
	if st.preTop == nil {
		return x.top(st)
	}
	return st.preTop
}

func (x *Exec) vcMethod(st *State, fr *Frame, name string, targs []types.Type, args []Val) []Outcome {
	b := x.b
	s := args[0]
	switch name {
	case "Seq.Len":
		return ret(st, Val{s[2]})
	case "Seq.Nil":
		return ret(st, Val{b.Eq(s[0], b.Int(0))})
	case "Seq.At":
		var v Val
		idx := b.Add(s[1], args[1][0])
		for _, a := range s[3:] {
			v = append(v, b.Select(a, idx))
		}
		return ret(st, v)
	case "MapS.Len":
		return ret(st, Val{s[0]})
	case "MapS.Has":
		has := b.Select(s[1], x.keyTerm(targs[0], args[1]))
		x.axiom(s[0], b.Imp(has, b.Le(b.Int(1), s[0])))
		return ret(st, Val{has})
	case "MapS.Get":
		k := x.keyTerm(targs[0], args[1])
		has := b.Select(s[1], k)
		var v Val
		for i, a := range s[2:] {
			v = append(v, b.Ite(has, b.Select(a, k), x.zeroLeaf(x.leaves(targs[1])[i])))
		}
		return ret(st, v)
	case "LineReader.Next":
		return ret(st, x.load(st, x.fieldAddr(s[0], x.lineReaderType(), "pos"), types.Typ[types.Int]))
	case "Set.Has":
		return ret(st, Val{b.Select(s[0], x.keyTerm(targs[0], args[1]))})
	}
	panic(unsup("vc method " + name))
}

func (x *Exec) same(a, c Val) *Term {
	b := x.b
	ta, da := x.dyn(a)
	tc, dc := x.dyn(c)
	if ta == nil || tc == nil {
		return b.And(b.Eq(a[0], c[0]), b.Eq(a[1], c[1]))
	}
	if tkey(ta) != tkey(tc) {
		return b.F
	}
	if _, ok := ta.Underlying().(*types.Slice); ok {
		return b.And(b.Eq(da[0], dc[0]), b.Eq(da[1], dc[1]), b.Eq(da[2], dc[2]))
	}
	return x.identVal(da, dc)
}

// structural equality in the current state
func (x *Exec) deepEqAny(st *State, a, c Val) *Term {
	ta, da := x.dyn(a)
	tc, dc := x.dyn(c)
	if ta == nil || tc == nil {
		return x.b.And(x.b.Eq(a[0], c[0]), x.b.Eq(a[1], c[1]))
	}
	if tkey(ta) != tkey(tc) {
		return x.b.F
	}
	return x.deepEq(st, ta, da, dc, 0)
}

func (x *Exec) deepEq(st *State, t types.Type, a, c Val, d int) *Term {
	b := x.b
	if d > 6 {
		panic(unsup("DeepEq depth"))
	}
	if n := namedOf(t); n != nil {
		if _, ok := special[tkey(t)]; ok {
			return x.identVal(a, c)
		}
		if x.isVC(n) && n.Obj().Name() == "Seq" {
			i := b.FreshBound("q", SInt)
			e := b.T
			for j := 3; j < len(a); j++ {
				e = b.And(e, b.Eq(b.Select(a[j], b.Add(a[1], i)), b.Select(c[j], b.Add(c[1], i))))
			}
			return b.And(b.Eq(a[2], c[2]), b.Forall([]*Term{i}, b.Imp(b.And(b.Le(b.Int(0), i), b.Lt(i, a[2])), e)))
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); !ok && d > 0 {
			return b.Eq(a[0], c[0])
		}
		nz := b.And(b.Not(b.Eq(a[0], b.Int(0))), b.Not(b.Eq(c[0], b.Int(0))))
		return b.Or(b.Eq(a[0], c[0]), b.And(nz, x.deepEq(st, u.Elem(), x.load(st, a[0], u.Elem()), x.load(st, c[0], u.Elem()), d+1)))
	case *types.Slice:
		i := b.FreshBound("q", SInt)
		ia, ic := x.inner(st, u.Elem(), a[0]), x.inner(st, u.Elem(), c[0])
		var va, vc Val
		for j := range ia {
			va = append(va, b.Select(ia[j], b.Add(a[1], i)))
			vc = append(vc, b.Select(ic[j], b.Add(c[1], i)))
		}
		return b.And(b.Eq(a[2], c[2]), b.Eq(b.Eq(a[0], b.Int(0)), b.Eq(c[0], b.Int(0))), b.Forall([]*Term{i}, b.Imp(b.And(b.Le(b.Int(0), i), b.Lt(i, a[2])), x.deepEq(st, u.Elem(), va, vc, d+1))))
	case *types.Map:
		r := x.mapRegs(t)
		k := b.FreshBound("q", r.ks)
		ha, hc := x.mapHas(st, r, a[0], k), x.mapHas(st, r, c[0], k)
		var va, vc Val
		for _, z := range x.mapVals(st, r, a[0]) {
			va = append(va, b.Select(z, k))
		}
		for _, z := range x.mapVals(st, r, c[0]) {
			vc = append(vc, b.Select(z, k))
		}
		return b.And(b.Eq(b.Eq(a[0], b.Int(0)), b.Eq(c[0], b.Int(0))), b.Forall([]*Term{k}, b.And(b.Eq(ha, hc), b.Imp(ha, x.deepEq(st, u.Elem(), va, vc, d+1)))))
	case *types.Struct:
		r := b.T
		o := 0
		for i := 0; i < u.NumFields(); i++ {
			n := len(x.leaves(u.Field(i).Type()))
			r = b.And(r, x.deepEq(st, u.Field(i).Type(), a[o:o+n], c[o:o+n], d+1))
			o += n
		}
		return r
	case *types.Basic:
		return x.eqVal(t, a, c)
	}
	return x.identVal(a, c)
}

// ---------- verifying one contract ----------

type Result1 struct {
	C       *Contract
	Obs     []*Ob
	Err     string
	Vacuous string
	Used    []*Contract
	Assumed []string
	Models  []string
	Fns     []string
	Queries int
	Trunc   bool
	Unroll  int
	Peel    int
	Wall    time.Duration
}

func (x *Exec) verifyContract(c *Contract) (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupErr:
				err = fmt.Errorf("unsupported: %s (in %s)", r.msg, strings.Join(x.stack, " > "))
			case timeoutErr:
				err = fmt.Errorf("time limit reached")
			case failFastErr:
				err = nil
			default:
				if debugPanics {
					panic(r)
				}
				err = fmt.Errorf("internal: %v (in %s)", r, strings.Join(x.stack, " > "))
			}
		}
	}()
	x.root = c
	if f := c.Opts["family"]; f != "" {
		x.family = x.L.pkgs[c.Pkg].Func(f)
	}
	st := x.newState()
	if c.Opts["init"] != "" {
		for _, p := range strings.Split(c.Opts["init"], ",") {
			if p == "1" {
				p = c.Pkg
			}
			st = x.runInit(st, p)
		}
	}
	var args []Val
	for _, p := range c.Fn.Params {
		args = append(args, x.freshVal(p.Type(), p.Name(), st.base))
	}
	k := cmVerify
	if c.Lemma {
		k = cmLemma
	}
	outs := x.callBody(st, c.Fn, args, nil, &cmode{kind: k, c: c}, "")
	for _, o := range outs {
		if o.kind == oPanic {
			if o.pan.block {
				x.oblige(o.st, "terminates", x.b.F, o.pan.why)
				continue
			}
			x.oblige(o.st, "no-panic", x.b.F, o.pan.why)
		} else {
			x.covers["end"] = true
		}
	}
	return nil
}

// runInit executes the initialisers of package variables
func (x *Exec) runInit(st *State, pkg string) *State {
	if !strings.Contains(pkg, "/") || !strings.HasPrefix(pkg, x.L.modPath) {
		pkg = x.L.modPath + "/pkg/" + pkg
	}
	sp := x.L.pkgs[pkg]
	f := sp.Func("init")
	if f == nil {
		return st
	}
	x.initMode = true
	defer func() { x.initMode = false }()
	fr := &Frame{fn: f, env: map[ssa.Value]Val{}, visits: map[*ssa.BasicBlock]int{}, iters: map[ssa.Value]*iterInfo{}}
	// run straight-line initialisation code; stores whose value needs an unsupported call are skipped
	for _, blk := range f.Blocks {
		for _, in := range blk.Instrs {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(timeoutErr); ok {
							panic(r)
						}
					}
				}()
				switch in := in.(type) {
				case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Phi:
				case *ssa.Call:
					if fn := in.Call.StaticCallee(); fn != nil && fn.Name() == "init" {
						return
					}
					os := x.prepCall(st, fr, &in.Call, in)(st)
					if len(os) == 1 && os[0].kind == oRet {
						st = os[0].st
						fr.env[in] = flatRet(os[0].ret)
					}
				default:
					x.instr(st, fr, in)
				}
			}()
		}
	}
	return st
}

var debugPanics = false

func (x *Exec) result(c *Contract, err error) *Result1 {
	r := &Result1{C: c, Obs: x.obs, Queries: x.nq, Trunc: x.truncated, Unroll: x.unroll}
	if err != nil {
		r.Err = err.Error()
	}
	if err == nil {
		if !c.Lemma && !x.covers["preconditions satisfiable"] {
			r.Vacuous = "preconditions are unsatisfiable"
		}
		if !x.covers["end"] {
			r.Vacuous = "no path reaches the end of the contract"
		}
	}
	for u := range x.used {
		r.Used = append(r.Used, u)
	}
	sort.Slice(r.Used, func(i, j int) bool { return r.Used[i].ID < r.Used[j].ID })
	r.Assumed = sortedKeys(x.assumed)
	r.Models = sortedKeys(x.models)
	for f := range x.fnsUsed {
		if f.Pkg != nil && f.Pkg.Pkg.Path() != x.L.vcPath {
			p := x.L.fset.Position(f.Pos()).Filename
			if strings.HasPrefix(p, x.L.repoDir) {
				r.Fns = append(r.Fns, f.String())
			}
		}
	}
	sort.Strings(r.Fns)
	return r
}
