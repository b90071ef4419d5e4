package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var debugLoops = os.Getenv("GOCV_LOOPS") != ""

func (x *Exec) execLoop(st *State, fr *Frame, li *loopInfo, from *ssa.BasicBlock) []Outcome {
	h := li.header
	if !li.blocks[from] {
		fr.visits[h] = 0
	}
	if x.unroll > 0 && x.pure == 0 {
		fr.visits[h]++
		if fr.visits[h] > x.unroll+1 && !x.headerDecided(st, fr, li, from) {
			x.truncated = true
			return nil
		}
		if fr.visits[h] > 60 {
			x.truncated = true
			return nil
		}
		return x.runBlock(st, fr, h, from)
	}
	if fr.visits[h] < 40 && x.headerDecided(st, fr, li, from) {
		fr.visits[h]++
		return x.runBlock(st, fr, h, from)
	}
	if x.pure > 0 {
		panic(unsup("loop of unknown length in a specification (" + fr.fn.String() + ")"))
	}
	if fr.visits[h] < x.peel {
		fr.visits[h]++
		return x.runBlock(st, fr, h, from)
	}
	return x.invLoop(st, fr, li, from)
}

// headerDecided: the loop condition is a constant in the current state
func (x *Exec) headerDecided(st *State, fr *Frame, li *loopInfo, from *ssa.BasicBlock) (ok bool) {
	h := li.header
	iff, isIf := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !isIf {
		return false
	}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupErr); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	x.pure++
	defer func() { x.pure-- }()
	s, f := st.clone(), fr.clone()
	for p, v := range x.phiVals(s, f, h, from) {
		f.env[p] = v
	}
	for _, in := range h.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.If:
			continue
		case *ssa.Call:
			bi, isB := in.Call.Value.(*ssa.Builtin)
			if !isB || (bi.Name() != "len" && bi.Name() != "cap") {
				return false
			}
			os := x.prepCall(s, f, &in.Call, in)(s)
			f.env[in] = flatRet(os[0].ret)
		case *ssa.Next:
			if in.IsString {
				return false
			}
			// an iteration over a map known to be empty
			rg := in.Iter.(*ssa.Range)
			v := x.val(s, f, in.Iter)
			ks := x.keySort(rg.X.Type().Underlying().(*types.Map).Key())
			dom := x.b.Select(x.region(s, "iter:"+ks.name+"#dom", Leaf{sort: SBool}, ks), v[0])
			return dom.op == OConstArr
		case *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Extract, *ssa.Convert, *ssa.ChangeType, *ssa.Lookup:
			if u, isU := in.(*ssa.UnOp); isU && u.Op == token.ARROW {
				return false
			}
			if o, _ := x.instr(s, f, in); !o {
				return false
			}
		default:
			return false
		}
	}
	c := x.val(s, f, iff.Cond)[0]
	if debugLoops && c != x.b.T && c != x.b.F {
		fmt.Fprintf(os.Stderr, "undecided %s: %s\n", fr.fn, x.b.showD(c, 12))
	}
	if c == x.b.T || c == x.b.F {
		return true
	}
	return false
}

type havocSpec struct {
	whole bool
	refs  map[*Term]bool
}

type cand struct {
	id    string
	user  bool
	build func(s *State, f *Frame) *Term
}

type loopRun struct {
	x     *Exec
	li    *loopInfo
	entry *State
	efr   *Frame // frame at entry with phis set to entry values
	top   *Term
	mark  int
	hv    map[string]*havocSpec
	phis  []*ssa.Phi
	ep    map[*ssa.Phi]Val
}

func (x *Exec) preLoop(t *Term, mark int, epoch string, memo map[*Term]bool) bool {
	if v, ok := memo[t]; ok {
		return v
	}
	r := true
	switch t.op {
	case OVar:
		r = t.id < mark || strings.HasPrefix(t.name, epoch+".")
	case OBVar:
		r = true
	default:
		for _, a := range t.args {
			if !x.preLoop(a, mark, epoch, memo) {
				r = false
				break
			}
		}
	}
	memo[t] = r
	return r
}

func (lr *loopRun) head() (*State, *Frame) {
	x := lr.x
	b := x.b
	s := lr.entry.clone()
	x.rebase(s)
	top := x.top(s)
	for _, k := range sortedKeys(lr.hv) {
		h := lr.hv[k]
		ri := x.regLeaf[k]
		old := x.regOf(s, k)
		if h.whole {
			x.nloop++
			s.reg[k] = x.regionVar(fmt.Sprintf("L%d.%s", x.nloop, k), k, top)
			continue
		}
		r := old
		var refs []*Term
		for t := range h.refs {
			refs = append(refs, t)
		}
		sortTerms(refs)
		for _, ref := range refs {
			var f *Term
			if ri.twoD != nil {
				f = b.Fresh("lp", SArr(ri.twoD, ri.leaf.sort))
				lf := ri.leaf
				b.rkind[f] = rk{Leaf{sort: lf.sort, kind: lf.kind, bits: lf.bits, uns: lf.uns, comp: true}, top}
			} else {
				f = b.Fresh("lp", ri.leaf.sort)
				x.hvFacts(f, ri.leaf, top)
			}
			r = b.Store(r, ref, f)
		}
		s.reg[k] = r
	}
	x.clockStep(s)
	f := lr.efr.clone()
	for _, p := range lr.phis {
		f.env[p] = x.freshVal(p.Type(), "phi_"+p.Comment, top)
	}
	return s, f
}

func sortTerms(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].id < ts[j-1].id; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}

func (x *Exec) regOf(s *State, k string) *Term {
	if r, ok := s.reg[k]; ok {
		return r
	}
	r := x.regionVar(s.epoch+"."+k, k, x.epochBase[s.epoch])
	s.reg[k] = r
	return r
}

// body runs the loop body once from the head
func (lr *loopRun) body(s *State, f *Frame, dry bool) []Outcome {
	f.loops = append(f.loops, activeLoop{lr.li, dry})
	return lr.x.runFrom(s, f, lr.li.header, 0)
}

func (x *Exec) invLoop(st *State, fr *Frame, li *loopInfo, from *ssa.BasicBlock) []Outcome {
	b := x.b
	h := li.header
	lr := &loopRun{x: x, li: li, entry: st, hv: map[string]*havocSpec{}, phis: sortedPhis(h)}
	lr.top = x.top(st)
	lr.mark = b.n
	lr.ep = x.phiVals(st, fr, h, from)
	lr.efr = fr.clone()
	for p, v := range lr.ep {
		lr.efr.env[p] = v
	}
	if x.nestDepth > 4 {
		panic(unsup("loops nested too deeply"))
	}
	x.nestDepth++
	defer func() { x.nestDepth-- }()
	// 1. which regions does an iteration change?
	for round := 0; ; round++ {
		if round > 8 {
			panic(unsup("loop effects do not stabilise"))
		}
		s, f := lr.head()
		gen := s.base.gen
		wl := map[string]map[*Term]bool{}
		x.writeLogs = append(x.writeLogs, wl)
		x.dry++
		lr.body(s, f, true)
		x.dry--
		x.writeLogs = x.writeLogs[:len(x.writeLogs)-1]
		changed := false
		memo := map[*Term]bool{}
		for k, refs := range wl {
			for ref := range refs {
				if bs, _, ok := b.baseDecomp(ref); ok && bs != nil && bs.gen >= gen {
					continue // allocated by this iteration
				}
				hs := lr.hv[k]
				if hs == nil {
					hs = &havocSpec{refs: map[*Term]bool{}}
				}
				if hs.whole {
					continue
				}
				if x.preLoop(ref, lr.mark, st.epoch, memo) && len(hs.refs) < 12 {
					if !hs.refs[ref] {
						hs.refs[ref] = true
						changed = true
					}
				} else {
					hs.whole = true
					changed = true
				}
				lr.hv[k] = hs
			}
		}
		if !changed {
			break
		}
	}
	// outer logs see the havoc too
	for _, w := range x.writeLogs {
		for k, hs := range lr.hv {
			if w[k] == nil {
				w[k] = map[*Term]bool{}
			}
			for r := range hs.refs {
				w[k][r] = true
			}
			if hs.whole {
				w[k][b.Fresh("anyref", SInt)] = true
			}
		}
	}
	// 2. candidate invariants that hold on entry
	var cands []*cand
	hid := fmt.Sprintf("%s#%d", fr.fn.String(), h.Index)
	all := lr.candidates(fr)
	for i, r := range lr.proveCands(all, lr.entry, lr.efr) {
		c := all[i]
		if r.res == candNone {
			continue
		}
		if t := r.t; r.res == candYes {
			cands = append(cands, c)
		} else if debugLoops && c.user {
			fmt.Fprintf(os.Stderr, "  %s: %s not true on entry: %s\n", hid, c.id, b.show(t))
		}
	}
	// 3. Houdini
	for round := 0; ; round++ {
		s, f := lr.head()
		for _, c := range cands {
			if t, ok := lr.build(c, s, f); ok {
				x.assume(s, t)
			}
		}
		x.dry++
		outs := lr.body(s, f, true)
		x.dry--
		dropped := false
		for _, o := range outs {
			if o.kind != oBack || o.header != h {
				continue
			}
			if len(o.st.pend) > len(st.pend) {
				panic(unsup("goroutine started in a loop of unknown length"))
			}
			if len(o.fr.defers) > len(fr.defers) {
				panic(unsup("defer in a loop of unknown length"))
			}
			bf := o.fr.clone()
			for p, v := range x.phiVals(o.st, o.fr, h, o.from) {
				bf.env[p] = v
			}
			var keep []*cand
			for i, r := range lr.proveCands(cands, o.st, bf) {
				c, t := cands[i], r.t
				if r.res == candYes {
					keep = append(keep, c)
					continue
				}
				if debugLoops && c.user {
					fmt.Fprintf(os.Stderr, "  %s: %s not preserved (%v): %s\n", hid, c.id, r.res, b.show(t))
					if os.Getenv("GOCV_LOOPS") == "2" {
						oo := &Ob{b: b, terms: append(append([]*Term{}, o.st.pc.terms()...), b.Not(t))}
						fmt.Fprintln(os.Stderr, strings.Join(o.st.trace, " | "))
						fmt.Fprintln(os.Stderr, oo.dump())
					}
				}
				dropped = true
			}
			cands = keep
		}
		if !dropped {
			break
		}
	}
	if debugLoops {
		fmt.Fprintf(os.Stderr, "loop %s:", hid)
		for _, c := range cands {
			fmt.Fprintf(os.Stderr, " [%s]", c.id)
		}
		for k, v := range lr.hv {
			fmt.Fprintf(os.Stderr, " hv:%s whole=%v n=%d", k, v.whole, len(v.refs))
		}
		fmt.Fprintln(os.Stderr)
	}
	// 4. final pass
	s, f := lr.head()
	for _, c := range cands {
		if t, ok := lr.build(c, s, f); ok {
			x.assume(s, t)
		}
	}
	x.note(s, fmt.Sprintf("%s: arbitrary loop iteration", x.pos(headPos(h))))
	var res []Outcome
	for _, o := range lr.body(s, f, false) {
		if o.kind == oBack && o.header == h {
			continue
		}
		res = append(res, o)
	}
	return res
}

type candRes struct {
	t   *Term
	res int
}

const (
	candNone = iota // cannot be stated here
	candYes
	candNo
)

// proveCands decides which candidates hold in a state, several at a time.
func (lr *loopRun) proveCands(cands []*cand, s *State, f *Frame) []candRes {
	x, b := lr.x, lr.x.b
	out := make([]candRes, len(cands))
	var todo []int
	for i, c := range cands {
		t, ok := lr.build(c, s, f)
		out[i].t = t
		switch {
		case !ok:
		case t == b.T:
			out[i].res = candYes
		default:
			out[i].res = candNo
			todo = append(todo, i)
		}
	}
	n := candWorkers
	if n > len(todo)/3 {
		n = len(todo) / 3
	}
	if n < 2 {
		for _, i := range todo {
			if x.proveQ(s, out[i].t) {
				out[i].res = candYes
			}
		}
		return out
	}
	for len(x.workers) < n {
		x.workers = append(x.workers, NewSolver(b))
	}
	s.pc.terms()
	qfTerms(s.pc, x.hasQ)
	var mu sync.Mutex
	var wg sync.WaitGroup
	b.mu = &mu
	next := 0
	var fail any
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			mu.Lock()
			defer mu.Unlock()
			defer func() {
				if r := recover(); r != nil {
					fail = r
				}
			}()
			x2 := *x
			x2.nq = 0
			if w > 0 {
				x2.sol = x.workers[w]
			}
			for next < len(todo) && fail == nil {
				i := todo[next]
				next++
				if x2.proveQ(s, out[i].t) {
					out[i].res = candYes
				}
			}
			x.nq += x2.nq
		}(w)
	}
	wg.Wait()
	b.mu = nil
	if fail != nil {
		panic(fail)
	}
	return out
}

var candWorkers = envInt("GOCV_WORKERS", 4)

func headPos(h *ssa.BasicBlock) token.Pos {
	for _, in := range h.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return token.NoPos
}

func (lr *loopRun) build(c *cand, s *State, f *Frame) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupErr); is {
				t, ok = lr.x.b.T, false
				return
			}
			if _, is := r.(undefErr); is {
				t, ok = lr.x.b.T, false
				return
			}
			panic(r)
		}
	}()
	was := lr.x.loopEntry
	lr.x.loopEntry = lr.entry
	defer func() { lr.x.loopEntry = was }()
	t = c.build(s, f)
	return t, t != nil
}

type undefErr struct{}

func (x *Exec) proveQ(st *State, goal *Term) bool {
	if goal == x.b.T || st.dead {
		return true
	}
	if goal == x.b.F {
		// the state may still be impossible because of a quantified fact
		all := st.pc.terms()
		return len(qfTerms(st.pc, x.hasQ)) != len(all) && x.sol.Check(all, 300) == Unsat
	}
	ok, _ := x.prove(st, goal, x.candMs)
	return ok
}

var candMs = envInt("GOCV_CANDMS", 300)

// evalAt evaluates an SSA value at the loop head
func (lr *loopRun) evalAt(s *State, f *Frame, v ssa.Value, d int) Val {
	x := lr.x
	in, isI := v.(ssa.Instruction)
	if !isI {
		return x.val(s, f, v)
	}
	if !lr.li.blocks[in.Block()] {
		if r, ok := f.env[v]; ok {
			return r
		}
		panic(undefErr{})
	}
	if p, ok := v.(*ssa.Phi); ok && p.Block() == lr.li.header {
		return f.env[p]
	}
	if d > 8 {
		panic(undefErr{})
	}
	g := &Frame{fn: f.fn, env: map[ssa.Value]Val{}, visits: f.visits, iters: f.iters}
	for _, op := range in.Operands(nil) {
		if *op == nil {
			continue
		}
		switch (*op).(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			continue
		}
		g.env[*op] = lr.evalAt(s, f, *op, d+1)
	}
	switch in := in.(type) {
	case *ssa.Call:
		bi, isB := in.Call.Value.(*ssa.Builtin)
		if !isB || (bi.Name() != "len" && bi.Name() != "cap") {
			panic(undefErr{})
		}
		x.pure++
		defer func() { x.pure-- }()
		os := x.prepCall(s, g, &in.Call, in)(s.clone())
		return flatRet(os[0].ret)
	case *ssa.BinOp, *ssa.FieldAddr, *ssa.Field, *ssa.Extract, *ssa.Convert, *ssa.ChangeType, *ssa.IndexAddr:
	case *ssa.UnOp:
		if in.Op == token.ARROW {
			panic(undefErr{})
		}
	default:
		panic(undefErr{})
	}
	x.pure++
	defer func() { x.pure-- }()
	if ok, _ := x.instr(s.clone(), g, in); !ok {
		panic(undefErr{})
	}
	return g.env[v]
}

func isInt(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	return ok && bt.Info()&types.IsInteger != 0
}

func (lr *loopRun) candidates(fr *Frame) []*cand {
	x := lr.x
	b := x.b
	var out []*cand
	add := func(id string, f func(s *State, f *Frame) *Term) {
		out = append(out, &cand{id: id, build: f})
	}
	// phis
	for i, p := range lr.phis {
		p := p
		e := lr.ep[p]
		nm := fmt.Sprintf("phi%d", i)
		add(nm+"==entry", func(s *State, f *Frame) *Term { return x.identVal(f.env[p], e) })
		if isInt(p.Type()) {
			add(nm+">=entry", func(s *State, f *Frame) *Term { return b.Le(e[0], f.env[p][0]) })
			add(nm+"<=entry", func(s *State, f *Frame) *Term { return b.Le(f.env[p][0], e[0]) })
		}
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			add(nm+" fresh or same", func(s *State, f *Frame) *Term {
				v := f.env[p]
				return b.Or(b.Le(lr.top, v[0]), b.Eq(v[3], b.Int(0)), b.And(b.Eq(v[0], e[0]), b.Eq(v[1], e[1]), b.Eq(v[3], e[3])))
			})
			add(nm+" fresh", func(s *State, f *Frame) *Term {
				v := f.env[p]
				return b.Or(b.Le(lr.top, v[0]), b.Eq(v[3], b.Int(0)))
			})
			if lr.entry.preTop != nil {
				pt := lr.entry.preTop
				add(nm+" fresh in call", func(s *State, f *Frame) *Term {
					v := f.env[p]
					return b.Or(b.Le(pt, v[0]), b.Eq(v[3], b.Int(0)))
				})
			}
			add(nm+" same end", func(s *State, f *Frame) *Term {
				v := f.env[p]
				return b.Eq(b.Add(v[1], v[2]), b.Add(e[1], e[2]))
			})
			add(nm+" same start", func(s *State, f *Frame) *Term { return b.Eq(f.env[p][1], e[1]) })
			add(nm+" len<=entry", func(s *State, f *Frame) *Term { return b.Le(f.env[p][2], e[2]) })
			add(nm+" len>=entry", func(s *State, f *Frame) *Term { return b.Le(e[2], f.env[p][2]) })
			add(nm+" ref nonnil", func(s *State, f *Frame) *Term { return b.Not(b.Eq(f.env[p][0], b.Int(0))) })
		}
		for j, q := range lr.phis {
			q := q
			if i == j {
				continue
			}
			qe := lr.ep[q]
			if isInt(p.Type()) && isInt(q.Type()) && i < j {
				add(fmt.Sprintf("phi%d-phi%d const", i, j), func(s *State, f *Frame) *Term {
					return b.Eq(b.Sub(f.env[p][0], f.env[q][0]), b.Sub(e[0], qe[0]))
				})
			}
			if ps, ok := p.Type().Underlying().(*types.Slice); ok && i < j {
				if qs, ok := q.Type().Underlying().(*types.Slice); ok && types.Identical(ps.Elem(), qs.Elem()) {
					add(fmt.Sprintf("phi%d phi%d separate", i, j), func(s *State, f *Frame) *Term {
						v, w := f.env[p], f.env[q]
						return b.Or(b.Not(b.Eq(v[0], w[0])), b.Eq(v[3], b.Int(0)), b.Eq(w[3], b.Int(0)))
					})
				}
			}
			if _, ok := p.Type().Underlying().(*types.Slice); ok && isInt(q.Type()) {
				add(fmt.Sprintf("len phi%d - phi%d const", i, j), func(s *State, f *Frame) *Term {
					return b.Eq(b.Sub(f.env[p][2], f.env[q][0]), b.Sub(e[2], qe[0]))
				})
				add(fmt.Sprintf("len phi%d - phi%d <=", i, j), func(s *State, f *Frame) *Term {
					return b.Le(b.Sub(f.env[p][2], f.env[q][0]), b.Sub(e[2], qe[0]))
				})
			}
		}
	}
	// bounds from comparisons that control the loop
	for blk := range lr.li.blocks {
		iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		exits := false
		for _, s := range blk.Succs {
			if !lr.li.blocks[s] {
				exits = true
			}
		}
		if !exits {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !isInt(bo.X.Type()) {
			continue
		}
		switch bo.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
		default:
			continue
		}
		X, Y := bo.X, bo.Y
		id := fmt.Sprintf("b%d", blk.Index)
		add("X<=Y "+id, func(s *State, f *Frame) *Term { return b.Le(lr.evalAt(s, f, X, 0)[0], lr.evalAt(s, f, Y, 0)[0]) })
		add("Y<=X "+id, func(s *State, f *Frame) *Term { return b.Le(lr.evalAt(s, f, Y, 0)[0], lr.evalAt(s, f, X, 0)[0]) })
		add("X<=Y+1 "+id, func(s *State, f *Frame) *Term {
			return b.Le(lr.evalAt(s, f, X, 0)[0], b.Add(b.Int(1), lr.evalAt(s, f, Y, 0)[0]))
		})
		add("Y<=X+1 "+id, func(s *State, f *Frame) *Term {
			return b.Le(lr.evalAt(s, f, Y, 0)[0], b.Add(b.Int(1), lr.evalAt(s, f, X, 0)[0]))
		})
	}
	// memory
	for _, k := range sortedKeys(lr.hv) {
		k := k
		hs := lr.hv[k]
		old := x.regOf(lr.entry, k)
		ri := x.regLeaf[k]
		if hs.whole {
			add("frame "+k, func(s *State, f *Frame) *Term {
				r := b.FreshBound("r", SInt)
				return b.Forall([]*Term{r}, b.Or(b.Le(lr.top, r), b.Eq(b.Select(x.regOf(s, k), r), b.Select(old, r))))
			})
			if lr.entry.preTop != nil && lr.entry.preReg != nil {
				pre, ok := lr.entry.preReg[k]
				if !ok {
					pre = x.regionVar(lr.entry.epoch+"."+k, k, x.epochBase[lr.entry.epoch])
				}
				pt := lr.entry.preTop
				add("call frame "+k, func(s *State, f *Frame) *Term {
					r := b.FreshBound("r", SInt)
					return b.Forall([]*Term{r}, b.Or(b.Le(pt, r), b.Eq(b.Select(x.regOf(s, k), r), b.Select(pre, r))))
				})
			}
			continue
		}
		var refs []*Term
		for r := range hs.refs {
			refs = append(refs, r)
		}
		sortTerms(refs)
		for _, r := range refs {
			r := r
			ev := b.Select(old, r)
			if ri.twoD == SInt && x.rootCt != nil {
				// positions the contract does not allow to change
				if _, rs := x.modsFor(x.rootCt, k); len(rs) > 0 {
					add(fmt.Sprintf("rest of %s@%d", k, r.id), func(s *State, f *Frame) *Term {
						j := b.FreshBound("j", SInt)
						in := []*Term{b.Eq(b.Select(b.Select(x.regOf(s, k), r), j), b.Select(ev, j))}
						for _, m := range rs {
							lo, hi := m.lo, m.hi
							if m.loc.idx != nil {
								lo, hi = m.loc.idx, b.Add(m.loc.idx, b.Int(1))
							}
							in = append(in, b.And(b.Eq(r, m.ref), b.Le(lo, j), b.Lt(j, hi)))
						}
						return b.Forall([]*Term{j}, b.Or(in...))
					})
				}
			}
			add(fmt.Sprintf("same %s@%d", k, r.id), func(s *State, f *Frame) *Term { return b.Eq(b.Select(x.regOf(s, k), r), ev) })
			if ri.twoD == nil && ri.leaf.sort == SInt && (ri.leaf.kind == KInt || ri.leaf.kind == KLen) {
				add(fmt.Sprintf("le %s@%d", k, r.id), func(s *State, f *Frame) *Term { return b.Le(b.Select(x.regOf(s, k), r), ev) })
				if strings.HasSuffix(k, ".o") {
					lk := strings.TrimSuffix(k, ".o") + ".l"
					if _, is := x.regLeaf[lk]; is {
						lv := b.Select(x.regOf(lr.entry, lk), r)
						add(fmt.Sprintf("same end %s@%d", k, r.id), func(s *State, f *Frame) *Term {
							return b.Eq(b.Add(b.Select(x.regOf(s, k), r), b.Select(x.regOf(s, lk), r)), b.Add(ev, lv))
						})
					}
				}
				add(fmt.Sprintf("ge %s@%d", k, r.id), func(s *State, f *Frame) *Term { return b.Le(ev, b.Select(x.regOf(s, k), r)) })
				for i, p := range lr.phis {
					p := p
					if isInt(p.Type()) {
						e := lr.ep[p]
						add(fmt.Sprintf("%s@%d - phi%d const", k, r.id, i), func(s *State, f *Frame) *Term {
							return b.Eq(b.Sub(b.Select(x.regOf(s, k), r), f.env[p][0]), b.Sub(ev, e[0]))
						})
					}
				}
			}
			if ri.twoD == nil && ri.leaf.kind == KRef && strings.HasSuffix(k, ".r") {
				kk := strings.TrimSuffix(k, ".r") + ".k"
				add(fmt.Sprintf("fresh slice %s@%d", k, r.id), func(s *State, f *Frame) *Term {
					return b.Or(b.Le(lr.top, b.Select(x.regOf(s, k), r)), b.Eq(b.Select(x.regOf(s, kk), r), b.Int(0)))
				})
				add(fmt.Sprintf("fresh or same slice %s@%d", k, r.id), func(s *State, f *Frame) *Term {
					return b.Or(b.Le(lr.top, b.Select(x.regOf(s, k), r)), b.Eq(b.Select(x.regOf(s, kk), r), b.Int(0)), b.Eq(b.Select(x.regOf(s, k), r), ev))
				})
				if pt := lr.entry.preTop; pt != nil {
					add(fmt.Sprintf("call fresh slice %s@%d", k, r.id), func(s *State, f *Frame) *Term {
						return b.Or(b.Le(pt, b.Select(x.regOf(s, k), r)), b.Eq(b.Select(x.regOf(s, kk), r), b.Int(0)))
					})
				}
			}
			if strings.HasPrefix(k, "iter:") && strings.HasSuffix(k, "#vis") {
				add(fmt.Sprintf("visited in domain@%d", r.id), func(s *State, f *Frame) *Term {
					q := b.FreshBound("k", ri.twoD)
					dom := b.Select(x.regOf(s, strings.TrimSuffix(k, "vis")+"dom"), r)
					return b.Forall([]*Term{q}, b.Imp(b.Select(b.Select(x.regOf(s, k), r), q), b.Select(dom, q)))
				})
			}
		}
	}
	// user templates
	for _, iv := range x.invs {
		out = append(out, lr.instantiate(iv)...)
	}
	return out
}

type hole struct {
	label string
	eval  func(s *State, f *Frame) Val
}

// within reports whether this loop is, or lies in, the loop that rg iterates.
func (lr *loopRun) within(rg *ssa.Range) bool {
	for _, r := range *rg.Referrers() {
		nx, ok := r.(*ssa.Next)
		if !ok {
			continue
		}
		if lr.li.blocks[nx.Block()] {
			return true
		}
		for _, li := range lr.x.loopCache[rg.Parent()] {
			if li.blocks[nx.Block()] && li.blocks[lr.li.header] {
				return true
			}
		}
	}
	return false
}

func (lr *loopRun) holes(t types.Type) []hole {
	x := lr.x
	b := x.b
	var out []hole
	if n := namedOf(t); x.isVC(n) && n.Obj().Name() == "Set" {
		ks := x.keySort(n.TypeArgs().At(0))
		for v := range lr.efr.env {
			rg, ok := v.(*ssa.Range)
			if !ok {
				continue
			}
			mt, ok := rg.X.Type().Underlying().(*types.Map)
			if !ok || x.keySort(mt.Key()) != ks || !lr.within(rg) {
				continue
			}
			rg2 := rg
			out = append(out, hole{"visited", func(s *State, f *Frame) Val {
				it := f.env[rg2][0]
				return Val{b.Select(x.region(s, "iter:"+ks.name+"#vis", Leaf{sort: SBool}, ks), it)}
			}})
		}
		return out
	}
	seen := map[string]bool{}
	add := func(label string, ev func(s *State, f *Frame) Val) {
		out = append(out, hole{label, ev})
	}
	for i, p := range lr.phis {
		p := p
		if types.Identical(p.Type(), t) {
			add(fmt.Sprintf("phi%d", i), func(s *State, f *Frame) Val { return f.env[p] })
			if isInt(t) {
				add(fmt.Sprintf("phi%d+1", i), func(s *State, f *Frame) Val { return Val{b.Add(f.env[p][0], b.Int(1))} })
			}
		}
	}
	// memory cells (captured or address-taken variables) and other values in scope
	var cells, vals []ssa.Value
	for v := range lr.efr.env {
		if _, isPhi := v.(*ssa.Phi); isPhi && v.(*ssa.Phi).Block() == lr.li.header {
			continue
		}
		if in, ok := v.(ssa.Instruction); ok && lr.li.blocks[in.Block()] {
			continue
		}
		if pt, ok := v.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), t) {
			switch v.(type) {
			case *ssa.Alloc, *ssa.FreeVar:
				cells = append(cells, v)
			}
		}
		if types.Identical(v.Type(), t) {
			vals = append(vals, v)
		}
	}
	byName := func(vs []ssa.Value) {
		for i := 1; i < len(vs); i++ {
			for j := i; j > 0 && vs[j].Name() < vs[j-1].Name(); j-- {
				vs[j], vs[j-1] = vs[j-1], vs[j]
			}
		}
	}
	byName(cells)
	byName(vals)
	// a slice the loop replaces is offered as the loop's variable, not by its value on entry
	entry := map[ssa.Value]bool{}
	for _, p := range lr.phis {
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			for i, pb := range lr.li.header.Preds {
				if !lr.li.blocks[pb] {
					entry[p.Edges[i]] = true
				}
			}
		}
	}
	for _, c := range cells {
		c := c
		add("*"+c.Name(), func(s *State, f *Frame) Val { return x.load(s, f.env[c][0], t) })
	}
	for _, v := range vals {
		v := v
		k := ""
		for _, tm := range lr.efr.env[v] {
			k += fmt.Sprint(tm.id, ",")
		}
		if seen[k] || entry[v] {
			continue
		}
		seen[k] = true
		add(v.Name(), func(s *State, f *Frame) Val { return f.env[v] })
	}
	// what the functions in scope have captured
	var fvs []ssa.Value
	for v := range lr.efr.env {
		if _, ok := v.Type().Underlying().(*types.Signature); ok && len(lr.efr.env[v]) == 1 {
			fvs = append(fvs, v)
		}
	}
	byName(fvs)
	for _, v := range fvs {
		c := lr.entry.closure(lr.efr.env[v][0])
		if c == nil || c.fn == nil {
			continue
		}
		for i, fv := range c.fn.FreeVars {
			if i >= len(c.bind) {
				break
			}
			bv := c.bind[i]
			if pt, ok := fv.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), t) && len(bv) == 1 {
				add(v.Name()+"."+fv.Name(), func(s *State, f *Frame) Val { return x.load(s, bv[0], t) })
			}
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return out
}

func (lr *loopRun) instantiate(iv *invTmpl) []*cand {
	x := lr.x
	var hs [][]hole
	total := 1
	for i := 0; i < iv.sig.Params().Len(); i++ {
		h := lr.holes(iv.sig.Params().At(i).Type())
		if len(h) == 0 {
			return nil
		}
		hs = append(hs, h)
		total *= len(h)
	}
	var out []*cand
	if total > 100 {
		total = 100
	}
	idx := make([]int, len(hs))
	for n := 0; n < total; n++ {
		sel := make([]hole, len(hs))
		var lab []string
		for i := range hs {
			sel[i] = hs[i][idx[i]]
			lab = append(lab, sel[i].label)
		}
		out = append(out, &cand{id: "user " + iv.name + "(" + strings.Join(lab, ",") + ")", user: true, build: func(s *State, f *Frame) *Term {
			var args []Val
			for _, h := range sel {
				args = append(args, h.eval(s, f))
			}
			return x.evalBool(s, iv.fn, args...)
		}})
		for i := len(idx) - 1; i >= 0; i-- {
			idx[i]++
			if idx[i] < len(hs[i]) {
				break
			}
			idx[i] = 0
		}
	}
	return out
}

func (x *Exec) closeSolvers() {
	x.sol.Close()
	for _, s := range x.workers {
		s.Close()
	}
}
