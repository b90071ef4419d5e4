package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- path condition ----------

type PC struct {
	prev *PC
	t    *Term
	fact bool // not a branch condition
	n    int
}

func (p *PC) terms() []*Term {
	var out []*Term
	for q := p; q != nil; q = q.prev {
		out = append(out, q.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type goroutine struct {
	fn   Val
	call func(st *State) []Outcome
	desc string
}

type State struct {
	reg    map[string]*Term
	sorts  map[string]Leaf
	epoch  string
	pc     *PC
	base   *Term
	n      int64
	dead   bool
	pend   []goroutine
	clock  *Term
	trace  []string
	clos   *closNode
	pan    []*panicInfo // panics being handled by running deferred calls
	acq    uint64       // guards whose lock the running goroutine has taken before
	preTop *Term        // allocation limit and memory when the contract's target was called
	preReg map[string]*Term
}

type panicInfo struct {
	val       Val
	recovered bool
	runtime   bool
	block     bool
	why       string
}

func (s *State) clone() *State {
	c := *s
	c.reg = make(map[string]*Term, len(s.reg)+4)
	for k, v := range s.reg {
		c.reg[k] = v
	}
	c.pend = append([]goroutine{}, s.pend...)
	c.trace = s.trace[:len(s.trace):len(s.trace)]
	if len(s.pan) > 0 {
		np := make([]*panicInfo, len(s.pan))
		for i, p := range s.pan {
			q := *p
			np[i] = &q
		}
		c.pan = np
	}
	return &c
}

func (x *Exec) assume(st *State, t *Term)     { x.assumeK(st, t, false) }
func (x *Exec) assumeFact(st *State, t *Term) { x.assumeK(st, t, true) }
func (x *Exec) assumeK(st *State, t *Term, fact bool) {
	if t == x.b.T {
		return
	}
	if t == x.b.F {
		st.dead = true
	}
	if t.op == OAnd {
		for _, a := range t.args {
			x.assumeK(st, a, fact)
		}
		return
	}
	n := 0
	if st.pc != nil {
		n = st.pc.n
	}
	st.pc = &PC{prev: st.pc, t: t, fact: fact, n: n + 1}
}

func (x *Exec) pushPC(st *State, t *Term) {
	n := 0
	if st.pc != nil {
		n = st.pc.n
	}
	st.pc = &PC{prev: st.pc, t: t, n: n + 1}
}

func (x *Exec) note(st *State, s string) { st.trace = append(st.trace, s) }

// ---------- allocation ----------

func (x *Exec) alloc(st *State) *Term {
	r := x.b.Add(st.base, x.b.Int(st.n))
	st.n++
	return r
}

// top: all allocated refs are < top
func (x *Exec) top(st *State) *Term { return x.b.Add(st.base, x.b.Int(st.n)) }

func (x *Exec) rebase(st *State) {
	nb := x.b.NewBase(st.base, st.n)
	x.axiom(nb, x.b.Le(x.b.Add(st.base, x.b.Int(st.n)), nb))
	st.base, st.n = nb, 0
}

// ---------- regions ----------

func (x *Exec) region(st *State, key string, l Leaf, twoD *Sort) *Term {
	if t, ok := st.reg[key]; ok {
		return t
	}
	if _, ok := x.regLeaf[key]; !ok {
		x.regLeaf[key] = regInfo{l, twoD}
	}
	t := x.regionVar(st.epoch+"."+key, key, x.epochBase[st.epoch])
	st.reg[key] = t
	return t
}

type regInfo struct {
	leaf Leaf
	twoD *Sort // key sort of the inner array, nil for one-dimensional regions
}

func (x *Exec) regionVar(name, key string, base *Term) *Term {
	ri := x.regLeaf[key]
	s := ri.leaf.sort
	if ri.twoD != nil {
		s = SArr(ri.twoD, s)
	}
	t := x.b.Var(sanitize(name), SArr(SInt, s))
	if _, ok := x.b.rkind[t]; !ok {
		x.b.rkind[t] = rk{ri.leaf, base}
	}
	if x.varReg[t] == nil {
		x.varReg[t] = &varReg{strings.TrimSuffix(name, key), key, base}
	}
	return t
}

type varReg struct {
	prefix, key string
	base        *Term
}

// sibling is the value of another leaf of the slice or interface that t is a leaf of.
func (x *Exec) sibling(root, t *Term, from, to string) *Term {
	v := x.varReg[root]
	if v == nil || !strings.HasSuffix(v.key, from) {
		return nil
	}
	k := strings.TrimSuffix(v.key, from) + to
	if _, ok := x.regLeaf[k]; !ok {
		return nil
	}
	m := x.regionVar(v.prefix+k, k, v.base)
	return x.b.Subst(t, map[*Term]*Term{root: m})
}

// sliceRel relates the leaves of a slice held in memory.
func (x *Exec) sliceRel(root, t *Term) []*Term {
	b := x.b
	v := x.varReg[root]
	if v == nil || t.bound || !strings.Contains(v.key, ".") {
		return nil
	}
	suf := v.key[strings.LastIndex(v.key, "."):]
	switch suf {
	case ".l":
		if k := x.sibling(root, t, ".l", ".k"); k != nil {
			return []*Term{b.Le(t, k)}
		}
	case ".k":
		if r := x.sibling(root, t, ".k", ".r"); r != nil {
			return []*Term{b.Imp(b.Eq(r, b.Int(0)), b.Eq(t, b.Int(0)))}
		}
	}
	return nil
}

// location of a pointer
type loc struct {
	key  string // root key + path prefix
	ref  *Term
	idx  *Term // element index or nil
	elem bool
}

const addrSep = "|"

func (x *Exec) decode(p *Term, t types.Type) loc {
	if p.op == OApp {
		if strings.HasPrefix(p.name, "addr|") {
			return loc{key: p.name[5:], ref: p.args[0]}
		}
		if strings.HasPrefix(p.name, "eaddr|") {
			return loc{key: p.name[6:], ref: p.args[0], idx: p.args[1], elem: true}
		}
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return loc{key: "elem " + tkey(a.Elem()) + "#", ref: p, elem: true}
	}
	return loc{key: tkey(t) + "#", ref: p}
}

func (x *Exec) fieldAddr(p *Term, st types.Type, field string) *Term {
	if p.op == OIte {
		return x.b.Ite(p.args[0], x.fieldAddr(p.args[1], st, field), x.fieldAddr(p.args[2], st, field))
	}
	l := x.decode(p, st)
	var r *Term
	if l.elem {
		r = x.b.App("eaddr|"+l.key+"."+field, SInt, l.ref, l.idx)
	} else {
		r = x.b.App("addr|"+l.key+"."+field, SInt, l.ref)
	}
	x.axiom(r, x.b.Lt(x.b.Int(0), r))
	return r
}
func (x *Exec) elemAddr(elem types.Type, ref, idx *Term) *Term {
	r := x.b.App("eaddr|elem "+tkey(elem)+"#", SInt, ref, idx)
	x.axiom(r, x.b.Lt(x.b.Int(0), r))
	return r
}

func (x *Exec) load(st *State, p *Term, t types.Type) Val {
	if p.op == OIte {
		return x.iteVal(p.args[0], x.load(st, p.args[1], t), x.load(st, p.args[2], t))
	}
	l := x.decode(p, t)
	x.guardCheck(st, l, t, false)
	var v Val
	ls := x.leaves(t)
	whole := l.elem && l.idx == nil // array value
	for _, lf := range ls {
		switch {
		case whole:
			el := lf
			el.path = strings.TrimPrefix(lf.path, "[]")
			el.sort = lf.sort.v
			el.comp = false
			r := x.region(st, l.key+el.path, el, SInt)
			v = append(v, x.b.Select(r, l.ref))
		case l.elem:
			r := x.region(st, l.key+lf.path, lf, SInt)
			v = append(v, x.b.Select(x.b.Select(r, l.ref), l.idx))
		default:
			r := x.region(st, l.key+lf.path, lf, nil)
			v = append(v, x.b.Select(r, l.ref))
		}
	}
	x.typedRel(t, v)
	return v
}

func (x *Exec) store(st *State, p *Term, t types.Type, v Val) {
	if p.op == OIte {
		old1 := x.load(st, p.args[1], t)
		x.store(st, p.args[1], t, x.iteVal(p.args[0], v, old1))
		old2 := x.load(st, p.args[2], t)
		x.store(st, p.args[2], t, x.iteVal(p.args[0], old2, v))
		return
	}
	l := x.decode(p, t)
	x.guardCheck(st, l, t, true)
	x.storeLoc(st, l, t, v)
}
func (x *Exec) storeLoc(st *State, l loc, t types.Type, v Val) {
	ls := x.leaves(t)
	whole := l.elem && l.idx == nil
	for i, lf := range ls {
		switch {
		case whole:
			el := lf
			el.path = strings.TrimPrefix(lf.path, "[]")
			el.sort = lf.sort.v
			el.comp = false
			k := l.key + el.path
			r := x.region(st, k, el, SInt)
			x.setReg(st, k, x.b.Store(r, l.ref, v[i]), l.ref)
		case l.elem:
			k := l.key + lf.path
			r := x.region(st, k, lf, SInt)
			x.setReg(st, k, x.b.Store(r, l.ref, x.b.Store(x.b.Select(r, l.ref), l.idx, v[i])), l.ref)
		default:
			k := l.key + lf.path
			r := x.region(st, k, lf, nil)
			x.setReg(st, k, x.b.Store(r, l.ref, v[i]), l.ref)
		}
	}
}

// every write to a region goes through here; ref is the object written
func (x *Exec) setReg(st *State, key string, t *Term, ref *Term) {
	st.reg[key] = t
	for _, w := range x.writeLogs {
		m := w[key]
		if m == nil {
			m = map[*Term]bool{}
			w[key] = m
		}
		m[ref] = true
	}
}

// element regions of a slice element type: keys and leaves
func (x *Exec) elemKeys(e types.Type) ([]string, []Leaf) {
	var ks []string
	ls := x.leaves(e)
	for _, l := range ls {
		ks = append(ks, "elem "+tkey(e)+"#"+l.path)
	}
	return ks, ls
}

// inner arrays of a slice's backing store, one per leaf
func (x *Exec) inner(st *State, e types.Type, ref *Term) []*Term {
	ks, ls := x.elemKeys(e)
	var out []*Term
	for i, k := range ks {
		out = append(out, x.b.Select(x.region(st, k, ls[i], SInt), ref))
	}
	return out
}
func (x *Exec) setInner(st *State, e types.Type, ref *Term, arrs []*Term) {
	ks, ls := x.elemKeys(e)
	for i, k := range ks {
		r := x.region(st, k, ls[i], SInt)
		x.setReg(st, k, x.b.Store(r, ref, arrs[i]), ref)
	}
}

// maps
type mapReg struct {
	dom, n string
	val    []string
	vl     []Leaf
	ks     *Sort
}

func (x *Exec) mapRegs(t types.Type) mapReg {
	m := t.Underlying().(*types.Map)
	p := "map[" + tkey(m.Key()) + "]" + tkey(m.Elem()) + "#"
	r := mapReg{dom: p + "dom", n: p + "n", ks: x.keySort(m.Key())}
	r.vl = x.leaves(m.Elem())
	for _, l := range r.vl {
		r.val = append(r.val, p+"val"+l.path)
	}
	return r
}
func (x *Exec) mapDom(st *State, r mapReg, ref *Term) *Term {
	return x.b.Select(x.region(st, r.dom, Leaf{sort: SBool}, r.ks), ref)
}
func (x *Exec) mapLen(st *State, r mapReg, ref *Term) *Term {
	return x.b.Ite(x.b.Eq(ref, x.b.Int(0)), x.b.Int(0), x.b.Select(x.region(st, r.n, Leaf{sort: SInt, kind: KLen}, nil), ref))
}
func (x *Exec) mapVals(st *State, r mapReg, ref *Term) []*Term {
	var out []*Term
	for i, k := range r.val {
		out = append(out, x.b.Select(x.region(st, k, r.vl[i], r.ks), ref))
	}
	return out
}
func (x *Exec) mapHas(st *State, r mapReg, ref, k *Term) *Term {
	return x.b.And(x.b.Not(x.b.Eq(ref, x.b.Int(0))), x.b.Select(x.mapDom(st, r, ref), k))
}
func (x *Exec) mapGet(st *State, t types.Type, ref, k *Term) (Val, *Term) {
	r := x.mapRegs(t)
	x.guardKey(st, r.dom, ref, false)
	has := x.mapHas(st, r, ref, k)
	n := x.b.Select(x.region(st, r.n, Leaf{sort: SInt, kind: KLen}, nil), ref)
	x.axiom(n, x.b.Imp(has, x.b.Le(x.b.Int(1), n)))
	var v Val
	for i, a := range x.mapVals(st, r, ref) {
		v = append(v, x.b.Ite(has, x.b.Select(a, k), x.zeroLeaf(r.vl[i])))
	}
	et := t.Underlying().(*types.Map).Elem()
	x.typedRel(et, v)
	return v, has
}
func (x *Exec) mapPut(st *State, t types.Type, ref, k *Term, v Val) {
	r := x.mapRegs(t)
	x.guardKey(st, r.dom, ref, true)
	b := x.b
	dom := x.mapDom(st, r, ref)
	n := b.Select(x.region(st, r.n, Leaf{sort: SInt, kind: KLen}, nil), ref)
	had := b.Select(dom, k)
	x.axiom(n, b.Imp(had, b.Le(b.Int(1), n)))
	x.setReg(st, r.n, b.Store(st.reg[r.n], ref, b.Ite(had, n, b.Add(n, b.Int(1)))), ref)
	x.setReg(st, r.dom, b.Store(st.reg[r.dom], ref, b.Store(dom, k, b.T)), ref)
	for i, a := range x.mapVals(st, r, ref) {
		x.setReg(st, r.val[i], b.Store(st.reg[r.val[i]], ref, b.Store(a, k, v[i])), ref)
	}
}
func (x *Exec) mapDel(st *State, t types.Type, ref, k *Term) {
	r := x.mapRegs(t)
	x.guardKey(st, r.dom, ref, true)
	b := x.b
	dom := x.mapDom(st, r, ref)
	n := b.Select(x.region(st, r.n, Leaf{sort: SInt, kind: KLen}, nil), ref)
	had := b.And(b.Not(b.Eq(ref, b.Int(0))), b.Select(dom, k))
	x.axiom(n, b.Imp(had, b.Le(b.Int(1), n)))
	x.setReg(st, r.n, b.Store(st.reg[r.n], ref, b.Ite(had, b.Sub(n, b.Int(1)), n)), ref)
	x.setReg(st, r.dom, b.Store(st.reg[r.dom], ref, b.Store(dom, k, b.F)), ref)
}
func (x *Exec) newMap(st *State, t types.Type) *Term {
	r := x.mapRegs(t)
	b := x.b
	ref := x.alloc(st)
	x.region(st, r.dom, Leaf{sort: SBool}, r.ks)
	x.region(st, r.n, Leaf{sort: SInt, kind: KLen}, nil)
	x.setReg(st, r.n, b.Store(st.reg[r.n], ref, b.Int(0)), ref)
	x.setReg(st, r.dom, b.Store(st.reg[r.dom], ref, b.ConstArr(SArr(r.ks, SBool), b.F)), ref)
	for i, k := range r.val {
		x.region(st, k, r.vl[i], r.ks)
		x.setReg(st, k, b.Store(st.reg[k], ref, b.ConstArr(SArr(r.ks, r.vl[i].sort), x.zeroLeaf(r.vl[i]))), ref)
	}
	return ref
}

// channels
type chReg struct {
	closed, cap, head, tail, env string
	buf                          []string
	bl                           []Leaf
}

func (x *Exec) chRegs(elem types.Type) chReg {
	p := "chan#"
	q := "chan " + tkey(elem) + "#"
	r := chReg{closed: p + "closed", cap: p + "cap", head: p + "head", tail: p + "tail", env: p + "env", bl: x.leaves(elem)}
	for _, l := range r.bl {
		r.buf = append(r.buf, q+"buf"+l.path)
	}
	return r
}
func (x *Exec) chGet(st *State, key string, ref *Term) *Term {
	l := Leaf{sort: SInt, kind: KLen}
	if strings.HasSuffix(key, "closed") || strings.HasSuffix(key, "env") {
		l = Leaf{sort: SBool}
	}
	t := x.b.Select(x.region(st, key, l, nil), ref)
	if strings.HasSuffix(key, "head") && !t.bound {
		tl := x.b.Select(x.region(st, "chan#tail", l, nil), ref)
		cp := x.b.Select(x.region(st, "chan#cap", l, nil), ref)
		// (a channel without a buffer may hold values that are being handed over)
		up := x.b.Or(x.b.Eq(cp, x.b.Int(0)), x.b.Le(tl, x.b.Add(t, cp)))
		if rawTerm(t) && rawTerm(tl) {
			x.axiom(t, x.b.Le(t, tl), up)
		} else if x.pure == 0 && !t.isNum() && !tl.bound && !cp.bound {
			x.assumeFact(st, x.b.And(x.b.Le(t, tl), up))
		}
	}
	return t
}
func (x *Exec) chSet(st *State, key string, ref, v *Term) {
	x.chGet(st, key, ref)
	x.setReg(st, key, x.b.Store(st.reg[key], ref, v), ref)
}
func (x *Exec) chPush(st *State, elem types.Type, ref *Term, v Val) {
	r := x.chRegs(elem)
	tl := x.chGet(st, r.tail, ref)
	for i, k := range r.buf {
		rg := x.region(st, k, r.bl[i], SInt)
		x.setReg(st, k, x.b.Store(rg, ref, x.b.Store(x.b.Select(rg, ref), tl, v[i])), ref)
	}
	x.chSet(st, r.tail, ref, x.b.Add(tl, x.b.Int(1)))
}
func (x *Exec) chPop(st *State, elem types.Type, ref *Term) Val {
	r := x.chRegs(elem)
	hd := x.chGet(st, r.head, ref)
	var v Val
	for i, k := range r.buf {
		rg := x.region(st, k, r.bl[i], SInt)
		v = append(v, x.b.Select(x.b.Select(rg, ref), hd))
	}
	x.typedRel(elem, v)
	x.chSet(st, r.head, ref, x.b.Add(hd, x.b.Int(1)))
	return v
}
func (x *Exec) newChan(st *State, elem types.Type, cap *Term, env *Term) *Term {
	r := x.chRegs(elem)
	ref := x.alloc(st)
	z := x.b.Int(0)
	x.chSet(st, r.closed, ref, x.b.F)
	x.chSet(st, r.cap, ref, cap)
	x.chSet(st, r.head, ref, z)
	x.chSet(st, r.tail, ref, z)
	x.chSet(st, r.env, ref, env)
	return ref
}

// initialise all regions of a freshly allocated object of type t
func (x *Exec) newObj(st *State, t types.Type) *Term {
	ref := x.alloc(st)
	x.storeLoc(st, x.decode(ref, t), t, x.zero(t))
	return ref
}

// ---------- guarded-by ----------

type guard struct {
	mu   loc
	muT  string
	desc string
	locs []guardLoc
}
type guardLoc struct {
	prefix string // region key prefix
	ref    *Term
}

func (x *Exec) guardCheck(st *State, l loc, t types.Type, write bool) {
	if len(x.guards) == 0 || x.pure > 0 || !x.inTarget {
		return
	}
	for _, g := range x.guards {
		for _, gl := range g.locs {
			if !strings.HasPrefix(l.key, gl.prefix) && !strings.HasPrefix(gl.prefix, l.key) {
				continue
			}
			if strings.HasPrefix(gl.prefix, l.key) && len(gl.prefix) > len(l.key) {
				// reading a larger object that contains the guarded field
				if g.mu.key != "" && strings.HasPrefix(g.mu.key, l.key) && l.ref == g.mu.ref {
					// whole-object access includes the lock itself
				}
			}
			x.guardOblige(st, g, gl, l.ref, write, l.key)
		}
	}
}
func (x *Exec) guardKey(st *State, key string, ref *Term, write bool) {
	if len(x.guards) == 0 || x.pure > 0 || !x.inTarget {
		return
	}
	for _, g := range x.guards {
		for _, gl := range g.locs {
			if strings.HasPrefix(key, gl.prefix) {
				x.guardOblige(st, g, gl, ref, write, key)
			}
		}
	}
}
func (x *Exec) guardOblige(st *State, g guard, gl guardLoc, ref *Term, write bool, key string) {
	b := x.b
	same := b.Eq(ref, gl.ref)
	if same == b.F {
		return
	}
	s := b.Select(x.region(st, g.mu.key, Leaf{sort: SInt, kind: KLock}, nil), g.mu.ref)
	var ok *Term
	what := "read"
	if write {
		ok = b.Eq(s, b.Int(1))
		what = "write"
	} else {
		ok = b.Le(b.Int(1), s)
	}
	x.oblige(st, fmt.Sprintf("guarded:%s:%s", what, g.desc), b.Imp(same, ok), key)
}

// acquired notes that the target takes a guard's lock, which one operation does only once: between two critical
// sections others may change what is guarded.
func (x *Exec) acquired(st *State, key string, ref *Term) {
	if len(x.guards) == 0 || x.pure > 0 || !x.inTarget {
		return
	}
	for i, g := range x.guards {
		if g.mu.key != key {
			continue
		}
		same := x.b.Eq(g.mu.ref, ref)
		if same == x.b.F {
			continue
		}
		if st.acq&(1<<uint(i)) != 0 {
			x.oblige(st, "atomic:"+g.desc, x.b.Not(same), "the lock is taken a second time in one operation")
			continue
		}
		if same == x.b.T {
			st.acq |= 1 << uint(i)
		}
	}
}

// closures and function identities

type closure struct {
	fn   *ssa.Function
	bind []Val
	// native: a function implemented by the verifier
	native func(st *State, args []Val) []Outcome
}

func (x *Exec) fnVal(f *ssa.Function) *Term {
	id, ok := x.fnIDs[f]
	if !ok {
		id = int64(200 + len(x.fnIDs))
		x.fnIDs[f] = id
		x.fnByID[id] = f
	}
	return x.b.Int(id)
}
func (x *Exec) newClosure(st *State, c *closure) *Term {
	r := x.alloc(st)
	st.clos = &closNode{st.clos, r, c}
	return r
}

type closNode struct {
	prev *closNode
	ref  *Term
	c    *closure
}

func (st *State) closure(ref *Term) *closure {
	for n := st.clos; n != nil; n = n.prev {
		if n.ref == ref {
			return n.c
		}
	}
	return nil
}

// altBases: the store-free arrays that arr may agree with at some index
func (x *Exec) altBases(arr *Term, out map[*Term]bool, d int) {
	if len(out) > 6 || d > 400 {
		return
	}
	switch arr.op {
	case OStore:
		x.altBases(arr.args[0], out, d+1)
	case OSelect:
		sub := map[*Term]bool{}
		a := arr.args[0]
		for a.op == OStore {
			if a.args[1] == arr.args[1] {
				x.altBases(a.args[2], out, d+1)
				return
			}
			if a.args[2].op != OVar || x.b.rkind[a.args[2]].base != nil {
				x.altBases(a.args[2], out, d+1)
			}
			a = a.args[0]
		}
		x.altBases(a, sub, d+1)
		for s := range sub {
			out[x.b.Select(s, arr.args[1])] = true
		}
	case OIte:
		x.altBases(arr.args[1], out, d+1)
		x.altBases(arr.args[2], out, d+1)
	default:
		out[arr] = true
	}
}

func (x *Exec) selFacts(t *Term) []*Term {
	alts := map[*Term]bool{}
	x.altBases(t.args[0], alts, 0)
	var out []*Term
	var ks []*Term
	for a := range alts {
		ks = append(ks, a)
	}
	sortTerms(ks)
	for _, a := range ks {
		out = append(out, x.selFacts1(t, x.b.Select(a, t.args[1]))...)
	}
	return out
}

// selFacts1: typing facts about t0 = base[...][idx]; t is the term they are wanted for
func (x *Exec) selFacts1(orig, t *Term) []*Term {
	if t.op != OSelect {
		return nil
	}
	cur, idx := t.args[0], t.args[1]
	for cur.op == OSelect {
		idx = cur.args[1]
		cur = cur.args[0]
	}
	if cur.op != OVar {
		return nil
	}
	r, ok := x.b.rkind[cur]
	if !ok {
		return nil
	}
	l := r.leaf
	if l.kind == KRef {
		out := []*Term{x.b.Le(x.b.Int(0), t)}
		if r.base != nil {
			if l.comp {
				out = append(out, x.b.Lt(t, r.base))
			} else if idx.sort == SInt {
				out = append(out, x.b.Imp(x.b.Lt(idx, r.base), x.b.Lt(t, r.base)))
			}
		}
		return out
	}
	return append(x.leafFacts(l, t, nil), x.sliceRel(cur, t)...)
}

func rawTerm(t *Term) bool { return t.op == OVar || t.op == OSelect && rawTerm(t.args[0]) }

// heldLocks and setHeld save and restore the state of the locks that guard something; with nil they are free.
func (x *Exec) heldLocks(st *State) []*Term {
	var r []*Term
	for _, g := range x.guards {
		r = append(r, x.b.Select(x.region(st, g.mu.key, Leaf{sort: SInt, kind: KLock}, nil), g.mu.ref))
	}
	return r
}

func (x *Exec) setHeld(st *State, held []*Term) {
	for i, g := range x.guards {
		v := x.b.Int(0)
		if held != nil {
			v = held[i]
		}
		x.setReg(st, g.mu.key, x.b.Store(x.region(st, g.mu.key, Leaf{sort: SInt, kind: KLock}, nil), g.mu.ref, v), g.mu.ref)
	}
}
