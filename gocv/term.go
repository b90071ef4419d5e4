package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

// ---------- sorts ----------

type Sort struct {
	name string
	k, v *Sort // arrays
}

var (
	SInt  = &Sort{name: "Int"}
	SBool = &Sort{name: "Bool"}
	SReal = &Sort{name: "Real"}
	SStr  = &Sort{name: "Str"}
)
var arrSorts = map[[2]*Sort]*Sort{}
var arrMu = make(chan struct{}, 1)

func SArr(k, v *Sort) *Sort {
	arrMu <- struct{}{}
	defer func() { <-arrMu }()
	key := [2]*Sort{k, v}
	if s, ok := arrSorts[key]; ok {
		return s
	}
	s := &Sort{name: "(Array " + k.name + " " + v.name + ")", k: k, v: v}
	arrSorts[key] = s
	return s
}

// ---------- terms ----------

type Op uint8

const (
	OVar   Op = iota // declared constant
	OBVar            // bound variable
	ONum             // Int or Real constant
	OStr             // string literal
	OTrue            //
	OFalse           //
	OApp             // uninterpreted function
	ONot             //
	OAnd             //
	OOr              //
	OEq              //
	OIte             //
	OLin             // linear sum: coefs*args + cst
	OMul             // non-linear product
	ODivR            // real division
	ODivI            // int div (euclid, SMT div)
	OModI            // SMT mod
	OLe0             // 0 <= arg   (Int or Real)
	OLt0             // 0 < arg (Real only)
	OSelect
	OStore
	OConstArr
	OForall // vars..., body
	OToReal
	OToInt // floor
)

type Term struct {
	id    int
	op    Op
	sort  *Sort
	args  []*Term
	name  string
	cst   *big.Rat
	coefs []*big.Rat
	bound bool // contains bound variables
	gen   int  // for alloc base variables: generation >0 ; 0 otherwise
}

func (t *Term) isNum() bool { return t.op == ONum }

type FnDecl struct {
	name string
	args []*Sort
	res  *Sort
}

// Bank: hash-consing table, one per verification run.
type Bank struct {
	mu     *sync.Mutex // held by whoever uses the bank, when several do
	tab    map[string]*Term
	n      int
	fns    map[string]*FnDecl
	fresh  map[string]int
	oldRef map[*Term]int // term -> generation: 0 <= t < A_gen
	bases  []*Term       // alloc bases by gen (index gen)
	baseLB []struct {
		base *Term
		n    int64
	}
	T, F     *Term
	subCache map[*Term]*Term
	axioms   map[*Term][]*Term // term -> ground axioms that come with it
	axSeen   map[*Term]bool
	onTerm   func(t *Term)
	rkind    map[*Term]rk // region variables
	selHook  func(t *Term) []*Term
	appHook  func(t *Term)
	qmemo    map[*Term]bool
}

// hasQuantT reports whether t contains a quantifier
func (b *Bank) hasQuantT(t *Term) bool {
	if len(t.args) == 0 {
		return false
	}
	if t.op == OForall {
		return true
	}
	if v, ok := b.qmemo[t]; ok {
		return v
	}
	r := false
	for _, a := range t.args {
		if b.hasQuantT(a) {
			r = true
			break
		}
	}
	b.qmemo[t] = r
	return r
}

func NewBank() *Bank {
	b := &Bank{tab: map[string]*Term{}, fns: map[string]*FnDecl{}, fresh: map[string]int{}, oldRef: map[*Term]int{}, axioms: map[*Term][]*Term{}, axSeen: map[*Term]bool{}, rkind: map[*Term]rk{}, qmemo: map[*Term]bool{}}
	b.T = b.mk(&Term{op: OTrue, sort: SBool})
	b.F = b.mk(&Term{op: OFalse, sort: SBool})
	b.bases = []*Term{nil}
	b.baseLB = append(b.baseLB, struct {
		base *Term
		n    int64
	}{})
	return b
}

func (b *Bank) mk(t *Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|%s", t.op, t.sort.name, t.name)
	if t.cst != nil {
		sb.WriteString("|c")
		sb.WriteString(t.cst.RatString())
	}
	for i, a := range t.args {
		fmt.Fprintf(&sb, "|%d", a.id)
		if t.coefs != nil {
			sb.WriteByte('*')
			sb.WriteString(t.coefs[i].RatString())
		}
		if a.bound {
			t.bound = true
		}
	}
	key := sb.String()
	if o, ok := b.tab[key]; ok {
		return o
	}
	if t.op == OBVar {
		t.bound = true
	}
	if t.op == OForall {
		// closed if no other bound vars: compute
		t.bound = b.freeBound(t)
	}
	b.n++
	t.id = b.n
	b.tab[key] = t
	return t
}

func (b *Bank) freeBound(t *Term) bool {
	vars := map[*Term]bool{}
	for _, v := range t.args[:len(t.args)-1] {
		vars[v] = true
	}
	seen := map[*Term]bool{}
	var walk func(x *Term) bool
	walk = func(x *Term) bool {
		if !x.bound || seen[x] {
			return false
		}
		seen[x] = true
		if x.op == OBVar {
			return !vars[x]
		}
		if x.op == OForall {
			// nested: its own vars are distinct names, treat them as bound
			for _, v := range x.args[:len(x.args)-1] {
				vars[v] = true
			}
			return walk(x.args[len(x.args)-1])
		}
		for _, a := range x.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t.args[len(t.args)-1])
}

func (b *Bank) Var(name string, s *Sort) *Term { return b.mk(&Term{op: OVar, name: name, sort: s}) }
func (b *Bank) Fresh(prefix string, s *Sort) *Term {
	prefix = sanitize(prefix)
	b.fresh[prefix]++
	return b.Var(fmt.Sprintf("%s!%d", prefix, b.fresh[prefix]), s)
}
func (b *Bank) FreshBound(prefix string, s *Sort) *Term {
	prefix = sanitize(prefix)
	b.fresh["?"+prefix]++
	return b.mk(&Term{op: OBVar, name: fmt.Sprintf("?%s!%d", prefix, b.fresh["?"+prefix]), sort: s})
}

func sanitize(s string) string {
	r := []byte(s)
	for i, c := range r {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!') {
			r[i] = '_'
		}
	}
	return string(r)
}

// NewBase creates a new allocation base >= prev base + n
func (b *Bank) NewBase(prev *Term, n int64) *Term {
	g := len(b.bases)
	t := b.Fresh("A", SInt)
	t.gen = g
	b.bases = append(b.bases, t)
	b.baseLB = append(b.baseLB, struct {
		base *Term
		n    int64
	}{prev, n})
	return t
}

func (b *Bank) Int(n int64) *Term       { return b.Num(new(big.Rat).SetInt64(n), SInt) }
func (b *Bank) BigInt(n *big.Int) *Term { return b.Num(new(big.Rat).SetInt(n), SInt) }
func (b *Bank) Real(r *big.Rat) *Term   { return b.Num(r, SReal) }
func (b *Bank) Num(r *big.Rat, s *Sort) *Term {
	return b.mk(&Term{op: ONum, sort: s, cst: r})
}
func (b *Bank) Str(s string) *Term { return b.mk(&Term{op: OStr, sort: SStr, name: s}) }
func (b *Bank) Bool(v bool) *Term {
	if v {
		return b.T
	}
	return b.F
}

func (b *Bank) App(name string, res *Sort, args ...*Term) *Term {
	if _, ok := b.fns[name]; !ok {
		d := &FnDecl{name: name, res: res}
		for _, a := range args {
			d.args = append(d.args, a.sort)
		}
		b.fns[name] = d
	}
	t := b.mk(&Term{op: OApp, sort: res, name: name, args: args})
	return t
}

// ---------- booleans ----------

func (b *Bank) Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return b.F
	case OFalse:
		return b.T
	case ONot:
		return a.args[0]
	case OLe0:
		x := a.args[0]
		if x.sort == SInt { // !(0<=x) == 0 <= -x-1
			return b.le0(b.Sub(b.Neg(x), b.Int(1)))
		}
		return b.lt0(b.Neg(x))
	case OLt0:
		return b.le0(b.Neg(a.args[0]))
	}
	return b.mk(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}

func (b *Bank) And(xs ...*Term) *Term { return b.nary(OAnd, xs) }
func (b *Bank) Or(xs ...*Term) *Term  { return b.nary(OOr, xs) }
func (b *Bank) nary(op Op, xs []*Term) *Term {
	unit, zero := b.T, b.F
	if op == OOr {
		unit, zero = b.F, b.T
	}
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[x] {
			return true
		}
		if seen[b.Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return b.mk(&Term{op: op, sort: SBool, args: out})
}
func (b *Bank) Imp(a, c *Term) *Term { return b.Or(b.Not(a), c) }

func (b *Bank) Ite(c, x, y *Term) *Term {
	if c == b.T || x == y {
		return x
	}
	if c == b.F {
		return y
	}
	if c.op == ONot {
		return b.Ite(c.args[0], y, x)
	}
	if x.sort == SBool {
		return b.And(b.Imp(c, x), b.Or(c, y))
	}
	if x.op == OIte && x.args[0] == c {
		x = x.args[1]
	}
	if y.op == OIte && y.args[0] == c {
		y = y.args[2]
	}
	if x == y {
		return x
	}
	return b.mk(&Term{op: OIte, sort: x.sort, args: []*Term{c, x, y}})
}

// ---------- arithmetic ----------

type lin struct {
	m   map[*Term]*big.Rat
	cst *big.Rat
}

func (b *Bank) toLin(t *Term) lin {
	l := lin{m: map[*Term]*big.Rat{}, cst: new(big.Rat)}
	b.addLin(&l, t, big.NewRat(1, 1))
	return l
}
func (b *Bank) addLin(l *lin, t *Term, k *big.Rat) {
	switch t.op {
	case ONum:
		l.cst = new(big.Rat).Add(l.cst, new(big.Rat).Mul(t.cst, k))
	case OLin:
		l.cst = new(big.Rat).Add(l.cst, new(big.Rat).Mul(t.cst, k))
		for i, a := range t.args {
			b.addLin1(l, a, new(big.Rat).Mul(t.coefs[i], k))
		}
	default:
		b.addLin1(l, t, k)
	}
}
func (b *Bank) addLin1(l *lin, a *Term, k *big.Rat) {
	if o, ok := l.m[a]; ok {
		n := new(big.Rat).Add(o, k)
		if n.Sign() == 0 {
			delete(l.m, a)
		} else {
			l.m[a] = n
		}
	} else if k.Sign() != 0 {
		l.m[a] = new(big.Rat).Set(k)
	}
}
func (b *Bank) fromLin(l lin, s *Sort) *Term {
	if len(l.m) == 0 {
		return b.Num(l.cst, s)
	}
	var ks []*Term
	for k := range l.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	if len(ks) == 1 && l.cst.Sign() == 0 && l.m[ks[0]].Cmp(big.NewRat(1, 1)) == 0 {
		return ks[0]
	}
	t := &Term{op: OLin, sort: s, cst: l.cst}
	for _, k := range ks {
		t.args = append(t.args, k)
		t.coefs = append(t.coefs, l.m[k])
	}
	return b.mk(t)
}
func (b *Bank) Add(x, y *Term) *Term {
	l := b.toLin(x)
	b.addLin(&l, y, big.NewRat(1, 1))
	return b.fromLin(l, x.sort)
}
func (b *Bank) Sub(x, y *Term) *Term {
	l := b.toLin(x)
	b.addLin(&l, y, big.NewRat(-1, 1))
	return b.fromLin(l, x.sort)
}
func (b *Bank) Neg(x *Term) *Term {
	l := lin{m: map[*Term]*big.Rat{}, cst: new(big.Rat)}
	b.addLin(&l, x, big.NewRat(-1, 1))
	return b.fromLin(l, x.sort)
}
func (b *Bank) scale(x *Term, k *big.Rat) *Term {
	l := lin{m: map[*Term]*big.Rat{}, cst: new(big.Rat)}
	if k.Sign() != 0 {
		b.addLin(&l, x, k)
	}
	return b.fromLin(l, x.sort)
}
func (b *Bank) Mul(x, y *Term) *Term {
	if x.isNum() {
		return b.scale(y, x.cst)
	}
	if y.isNum() {
		return b.scale(x, y.cst)
	}
	if x.sort == SReal {
		// distribute over linear sums so that polynomials get a normal form
		if x.op == OLin || y.op == OLin {
			lx, ly := b.toLin(x), b.toLin(y)
			if len(lx.m)*len(ly.m) <= 24 {
				r := lin{m: map[*Term]*big.Rat{}, cst: new(big.Rat).Mul(lx.cst, ly.cst)}
				for a, ca := range lx.m {
					if ly.cst.Sign() != 0 {
						b.addLin1(&r, a, new(big.Rat).Mul(ca, ly.cst))
					}
					for c, cc := range ly.m {
						b.addLin(&r, b.mulAtoms(a, c), new(big.Rat).Mul(ca, cc))
					}
				}
				if lx.cst.Sign() != 0 {
					for c, cc := range ly.m {
						b.addLin1(&r, c, new(big.Rat).Mul(cc, lx.cst))
					}
				}
				return b.fromLin(r, SReal)
			}
		}
	}
	return b.mulAtoms(x, y)
}
func (b *Bank) mulAtoms(x, y *Term) *Term {
	var fs []*Term
	add := func(t *Term) {
		if t.op == OMul {
			fs = append(fs, t.args...)
		} else {
			fs = append(fs, t)
		}
	}
	add(x)
	add(y)
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return b.mk(&Term{op: OMul, sort: x.sort, args: fs})
}

func (b *Bank) le0(x *Term) *Term {
	if x.isNum() {
		return b.Bool(x.cst.Sign() >= 0)
	}
	if x.op == OLin && x.sort == SInt {
		// normalise by gcd of coefs
		x = b.gcdNorm(x, true)
		if x.isNum() {
			return b.Bool(x.cst.Sign() >= 0)
		}
		// alloc-base knowledge: 0 <= A - r - 1 etc handled by solver
	}
	return b.mk(&Term{op: OLe0, sort: SBool, args: []*Term{x}})
}
func (b *Bank) gcdNorm(x *Term, floor bool) *Term {
	g := new(big.Int)
	for _, c := range x.coefs {
		if !c.IsInt() {
			return x
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(c.Num()))
	}
	if g.Cmp(big.NewInt(1)) <= 0 || !x.cst.IsInt() {
		return x
	}
	l := lin{m: map[*Term]*big.Rat{}, cst: new(big.Rat)}
	gr := new(big.Rat).SetInt(g)
	for i, a := range x.args {
		l.m[a] = new(big.Rat).Quo(x.coefs[i], gr)
	}
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(x.cst.Num(), g, m) // floor division (Euclid, g>0)
	l.cst = new(big.Rat).SetInt(q)
	return b.fromLin(l, SInt)
}
func (b *Bank) lt0(x *Term) *Term {
	if x.isNum() {
		return b.Bool(x.cst.Sign() > 0)
	}
	return b.mk(&Term{op: OLt0, sort: SBool, args: []*Term{x}})
}
func (b *Bank) Le(x, y *Term) *Term { return b.le0(b.Sub(y, x)) }
func (b *Bank) Lt(x, y *Term) *Term {
	if x.sort == SInt {
		return b.le0(b.Sub(b.Sub(y, x), b.Int(1)))
	}
	return b.lt0(b.Sub(y, x))
}
func (b *Bank) Ge(x, y *Term) *Term { return b.Le(y, x) }
func (b *Bank) Gt(x, y *Term) *Term { return b.Lt(y, x) }

func (b *Bank) DivR(x, y *Term) *Term {
	if y.isNum() && y.cst.Sign() != 0 {
		return b.scale(x, new(big.Rat).Inv(y.cst))
	}
	return b.mk(&Term{op: ODivR, sort: SReal, args: []*Term{x, y}})
}
func (b *Bank) DivI(x, y *Term) *Term { // SMT-LIB div (floor for y>0)
	if x.isNum() && y.isNum() && y.cst.Sign() != 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(x.cst.Num(), y.cst.Num(), m)
		return b.BigInt(q)
	}
	if y.isNum() && y.cst.Cmp(big.NewRat(1, 1)) == 0 {
		return x
	}
	return b.mk(&Term{op: ODivI, sort: SInt, args: []*Term{x, y}})
}
func (b *Bank) ModI(x, y *Term) *Term {
	if x.isNum() && y.isNum() && y.cst.Sign() != 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(x.cst.Num(), y.cst.Num(), m)
		return b.BigInt(m)
	}
	return b.mk(&Term{op: OModI, sort: SInt, args: []*Term{x, y}})
}
func (b *Bank) ToReal(x *Term) *Term {
	if x.isNum() {
		return b.Real(x.cst)
	}
	if x.op == OLin {
		l := lin{m: map[*Term]*big.Rat{}, cst: x.cst}
		for i, a := range x.args {
			l.m[b.mk(&Term{op: OToReal, sort: SReal, args: []*Term{a}})] = x.coefs[i]
		}
		return b.fromLin(l, SReal)
	}
	return b.mk(&Term{op: OToReal, sort: SReal, args: []*Term{x}})
}
func (b *Bank) ToInt(x *Term) *Term { // floor
	if x.isNum() {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(x.cst.Num(), x.cst.Denom(), m)
		return b.BigInt(q)
	}
	if x.op == OToReal {
		return x.args[0]
	}
	return b.mk(&Term{op: OToInt, sort: SInt, args: []*Term{x}})
}

// ---------- equality ----------

// baseDecomp: t = base + c for an alloc base
func (b *Bank) baseDecomp(t *Term) (*Term, int64, bool) {
	if t.gen > 0 {
		return t, 0, true
	}
	if t.op == OLin && len(t.args) == 1 && t.args[0].gen > 0 && t.coefs[0].Cmp(big.NewRat(1, 1)) == 0 && t.cst.IsInt() && t.cst.Num().IsInt64() {
		return t.args[0], t.cst.Num().Int64(), true
	}
	return nil, 0, false
}

// refDistinct reports whether two reference terms are known to differ.
func (b *Bank) refDistinct(x, y *Term) bool {
	bx, cx, okx := b.baseDecomp(x)
	by, cy, oky := b.baseDecomp(y)
	if !okx && !oky {
		return false
	}
	if okx && oky {
		if bx == by {
			return cx != cy
		}
		if bx.gen < by.gen {
			bx, by, cx, cy = by, bx, cy, cx
		}
		if cx < 0 {
			return false
		}
		// bx newer than by. by+cy < bx ?
		cur := bx
		slack := cx
		for cur != nil && cur.gen > 0 {
			lb := b.baseLB[cur.gen]
			if lb.base == by {
				return cy < lb.n+slack
			}
			slack += lb.n
			cur = lb.base
		}
		return false
	}
	if oky {
		bx, cx, y = by, cy, x
	}
	if cx < 0 {
		return false
	}
	if y.op == ONum { // literal small refs are < every base (bases are >= 1000)
		return y.cst.Cmp(big.NewRat(1000, 1)) < 0
	}
	if g, ok := b.age(y, 0); ok && g <= bx.gen {
		return true
	}
	if y.op == OIte {
		return b.refDistinct(addc(b, bx, cx), y.args[1]) && b.refDistinct(addc(b, bx, cx), y.args[2])
	}
	return false
}

// age: t < A_gen is known for the returned generation
func (b *Bank) age(t *Term, d int) (int, bool) {
	if d > 12 {
		return 0, false
	}
	if g, ok := b.oldRef[t]; ok {
		return g, true
	}
	switch t.op {
	case ONum:
		return 1, t.cst.Cmp(big.NewRat(1000, 1)) < 0
	case OIte:
		g1, ok1 := b.age(t.args[1], d+1)
		g2, ok2 := b.age(t.args[2], d+1)
		if g2 > g1 {
			g1 = g2
		}
		return g1, ok1 && ok2
	case OSelect:
		cur, idx := t.args[0], t.args[1]
		for cur.op == OSelect {
			idx = cur.args[1]
			cur = cur.args[0]
		}
		if cur.op != OVar {
			return 0, false
		}
		r, ok := b.rkind[cur]
		if !ok || r.leaf.kind != KRef || r.base == nil || r.base.gen == 0 {
			return 0, false
		}
		if cur.sort.k != SInt {
			return 0, false
		}
		g := r.base.gen
		if bi, ci, ok := b.baseDecomp(idx); ok {
			lb := b.baseLB[g]
			if bi.gen < g && lb.base == bi && ci < lb.n {
				return g, true
			}
			return 0, false
		}
		if gi, ok := b.age(idx, d+1); ok && gi <= g {
			return g, true
		}
	}
	return 0, false
}

func addc(b *Bank, t *Term, c int64) *Term { return b.Add(t, b.Int(c)) }

func (b *Bank) Eq(x, y *Term) *Term {
	if x == y {
		return b.T
	}
	if x.sort != y.sort {
		panic(fmt.Sprintf("eq sort mismatch %s (%s) vs %s (%s)", x.sort.name, b.show(x), y.sort.name, b.show(y)))
	}
	switch x.sort {
	case SInt, SReal:
		if b.refDistinct(x, y) {
			return b.F
		}
		d := b.Sub(x, y)
		if d.isNum() {
			return b.Bool(d.cst.Sign() == 0)
		}
		if x.op == OIte && y.isNum() && (x.args[1].isNum() || x.args[2].isNum()) {
			return b.Ite(x.args[0], b.Eq(x.args[1], y), b.Eq(x.args[2], y))
		}
		if y.op == OIte && x.isNum() && (y.args[1].isNum() || y.args[2].isNum()) {
			return b.Ite(y.args[0], b.Eq(y.args[1], x), b.Eq(y.args[2], x))
		}
	case SBool:
		if x == b.T {
			return y
		}
		if x == b.F {
			return b.Not(y)
		}
		if y == b.T {
			return x
		}
		if y == b.F {
			return b.Not(x)
		}
	case SStr:
		if x.op == OStr && y.op == OStr {
			return b.F
		}
		if x.op == OIte && y.op == OStr && (x.args[1].op == OStr || x.args[2].op == OStr) {
			return b.Ite(x.args[0], b.Eq(x.args[1], y), b.Eq(x.args[2], y))
		}
		if y.op == OIte && x.op == OStr && (y.args[1].op == OStr || y.args[2].op == OStr) {
			return b.Ite(y.args[0], b.Eq(y.args[1], x), b.Eq(y.args[2], x))
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(&Term{op: OEq, sort: SBool, args: []*Term{x, y}})
}

// ---------- arrays ----------

func (b *Bank) idxEq(x, y *Term) int { // 1 equal, -1 distinct, 0 unknown
	if x == y {
		return 1
	}
	e := b.Eq(x, y)
	if e == b.T {
		return 1
	}
	if e == b.F {
		return -1
	}
	return 0
}
func (b *Bank) Select(a, i *Term) *Term {
	switch a.op {
	case OConstArr:
		return a.args[0]
	case OStore:
		switch b.idxEq(a.args[1], i) {
		case 1:
			return a.args[2]
		case -1:
			return b.Select(a.args[0], i)
		}
	case OIte:
		// push select into ite when it simplifies
		x, y := b.Select(a.args[1], i), b.Select(a.args[2], i)
		return b.Ite(a.args[0], x, y)
	}
	return b.mk(&Term{op: OSelect, sort: a.sort.v, args: []*Term{a, i}})
}
func (b *Bank) Store(a, i, v *Term) *Term {
	if a.op == OStore && b.idxEq(a.args[1], i) == 1 {
		return b.Store(a.args[0], i, v)
	}
	if v.op == OSelect && v.args[0] == a && v.args[1] == i {
		return a
	}
	return b.mk(&Term{op: OStore, sort: a.sort, args: []*Term{a, i, v}})
}
func (b *Bank) ConstArr(s *Sort, v *Term) *Term {
	return b.mk(&Term{op: OConstArr, sort: s, args: []*Term{v}})
}

func (b *Bank) Forall(vars []*Term, body *Term) *Term {
	if body == b.T || body == b.F {
		return body
	}
	// split conjunctions
	if body.op == OAnd {
		var out []*Term
		for _, a := range body.args {
			out = append(out, b.Forall(vars, a))
		}
		return b.And(out...)
	}
	// drop unused
	var used []*Term
	for _, v := range vars {
		if b.occurs(v, body) {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	return b.mk(&Term{op: OForall, sort: SBool, args: append(append([]*Term{}, used...), body)})
}
func (b *Bank) occurs(v, t *Term) bool {
	seen := map[*Term]bool{}
	var w func(x *Term) bool
	w = func(x *Term) bool {
		if x == v {
			return true
		}
		if seen[x] || (v.op == OBVar && !x.bound && x.op != OForall) {
			return false
		}
		seen[x] = true
		for _, a := range x.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

// Subst replaces terms by others, rebuilding with simplification.
func (b *Bank) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(x *Term) *Term
	f = func(x *Term) *Term {
		if r, ok := m[x]; ok {
			return r
		}
		if len(x.args) == 0 {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		na := make([]*Term, len(x.args))
		ch := false
		for i, a := range x.args {
			na[i] = f(a)
			if na[i] != a {
				ch = true
			}
		}
		r := x
		if ch {
			r = b.rebuild(x, na)
		}
		memo[x] = r
		return r
	}
	return f(t)
}
func (b *Bank) rebuild(x *Term, a []*Term) *Term {
	switch x.op {
	case ONot:
		return b.Not(a[0])
	case OAnd:
		return b.And(a...)
	case OOr:
		return b.Or(a...)
	case OEq:
		return b.Eq(a[0], a[1])
	case OIte:
		return b.Ite(a[0], a[1], a[2])
	case OLin:
		l := lin{m: map[*Term]*big.Rat{}, cst: new(big.Rat).Set(x.cst)}
		for i := range a {
			b.addLin(&l, a[i], x.coefs[i])
		}
		return b.fromLin(l, x.sort)
	case OMul:
		r := a[0]
		for _, y := range a[1:] {
			r = b.Mul(r, y)
		}
		return r
	case ODivR:
		return b.DivR(a[0], a[1])
	case ODivI:
		return b.DivI(a[0], a[1])
	case OModI:
		return b.ModI(a[0], a[1])
	case OLe0:
		return b.le0(a[0])
	case OLt0:
		return b.lt0(a[0])
	case OSelect:
		return b.Select(a[0], a[1])
	case OStore:
		return b.Store(a[0], a[1], a[2])
	case OConstArr:
		return b.ConstArr(x.sort, a[0])
	case OForall:
		return b.Forall(a[:len(a)-1], a[len(a)-1])
	case OToReal:
		return b.ToReal(a[0])
	case OToInt:
		return b.ToInt(a[0])
	case OApp:
		return b.SApp(x.name, x.sort, a...)
	}
	panic("rebuild")
}

// SApp: application with string/box simplifications
func (b *Bank) SApp(name string, res *Sort, a ...*Term) *Term {
	switch name {
	case "str.len":
		if a[0].op == OStr {
			return b.Int(int64(len(a[0].name)))
		}
		if a[0].op == OApp && a[0].name == "str.cat" {
			return b.Add(b.SApp("str.len", SInt, a[0].args[0]), b.SApp("str.len", SInt, a[0].args[1]))
		}
		if a[0].op == OApp && a[0].name == "str.ofbytes" {
			return a[0].args[2]
		}
		if a[0].op == OIte {
			return b.Ite(a[0].args[0], b.SApp(name, res, a[0].args[1]), b.SApp(name, res, a[0].args[2]))
		}
	case "str.cat":
		if a[0].op == OStr && a[1].op == OStr {
			return b.Str(a[0].name + a[1].name)
		}
		if a[0].op == OStr && a[0].name == "" {
			return a[1]
		}
		if a[1].op == OStr && a[1].name == "" {
			return a[0]
		}
		// right-assoc
		if a[0].op == OApp && a[0].name == "str.cat" {
			return b.SApp("str.cat", res, a[0].args[0], b.SApp("str.cat", res, a[0].args[1], a[1]))
		}
		if a[0].op == OStr && a[1].op == OApp && a[1].name == "str.cat" && a[1].args[0].op == OStr {
			return b.SApp("str.cat", res, b.Str(a[0].name+a[1].args[0].name), a[1].args[1])
		}
	case "str.sub": // s, lo, hi
		if a[0].op == OStr && a[1].isNum() && a[2].isNum() {
			lo, hi := a[1].cst.Num().Int64(), a[2].cst.Num().Int64()
			if lo >= 0 && lo <= hi && hi <= int64(len(a[0].name)) {
				return b.Str(a[0].name[lo:hi])
			}
		}
		if a[1].isNum() && a[1].cst.Sign() == 0 && a[2] == b.SApp("str.len", SInt, a[0]) {
			return a[0]
		}
	case "str.at":
		if a[0].op == OStr && a[1].isNum() {
			i := a[1].cst.Num().Int64()
			if i >= 0 && i < int64(len(a[0].name)) {
				return b.Int(int64(a[0].name[i]))
			}
		}
	case "str.hassuffix":
		if a[0].op == OStr && a[1].op == OStr {
			return b.Bool(strings.HasSuffix(a[0].name, a[1].name))
		}
	case "str.hasprefix":
		if a[0].op == OStr && a[1].op == OStr {
			return b.Bool(strings.HasPrefix(a[0].name, a[1].name))
		}
	case "str.lt":
		if a[0] == a[1] {
			return b.F
		}
		if a[0].op == OStr && a[1].op == OStr {
			return b.Bool(a[0].name < a[1].name)
		}
	case "str.ofbytes": // arr, off, len
		for arr := a[0]; arr.op == OStore && (arr.args[1] == b.Add(a[1], a[2]) || arr.args[1].isNum() && a[1].isNum() && arr.args[1].cst.Cmp(a[1].cst) < 0); {
			// written outside of the part that is used
			arr = arr.args[0]
			return b.SApp("str.ofbytes", SStr, arr, a[1], a[2])
		}
		if a[0].op == OApp && a[0].name == "str.bytes" && a[1].isNum() && a[1].cst.Sign() == 0 && a[2] == b.SApp("str.len", SInt, a[0].args[0]) {
			return a[0].args[0]
		}
		if a[2].isNum() && a[2].cst.Sign() == 0 {
			return b.Str("")
		}
		if a[2].isNum() && a[2].cst.IsInt() && a[2].cst.Num().Int64() <= 64 {
			n := a[2].cst.Num().Int64()
			buf := make([]byte, 0, n)
			ok := true
			for i := int64(0); i < n && ok; i++ {
				e := b.Select(a[0], b.Add(a[1], b.Int(i)))
				if e.isNum() && e.cst.IsInt() {
					buf = append(buf, byte(e.cst.Num().Int64()))
				} else {
					ok = false
				}
			}
			if ok {
				return b.Str(string(buf))
			}
		}
	}
	if strings.HasPrefix(name, "unbox.") {
		// unbox.K.i
		rest := name[len("unbox."):]
		j := strings.LastIndexByte(rest, '.')
		bn := "box." + rest[:j]
		if a[0].op == OApp && a[0].name == bn {
			var i int
			fmt.Sscanf(rest[j+1:], "%d", &i)
			return a[0].args[i]
		}
		if a[0].op == OIte {
			return b.Ite(a[0].args[0], b.SApp(name, res, a[0].args[1]), b.SApp(name, res, a[0].args[2]))
		}
	}
	t := b.App(name, res, a...)
	if b.appHook != nil && !t.bound && strings.HasPrefix(name, "spec.") {
		b.appHook(t)
	}
	return t
}

// ---------- debug show ----------

func (b *Bank) show(t *Term) string { return b.showD(t, 6) }
func (b *Bank) showD(t *Term, d int) string {
	if d == 0 {
		return "…"
	}
	sh := func(ts []*Term) string {
		var s []string
		for _, a := range ts {
			s = append(s, b.showD(a, d-1))
		}
		return strings.Join(s, " ")
	}
	switch t.op {
	case OVar, OBVar:
		return t.name
	case ONum:
		return t.cst.RatString()
	case OStr:
		return fmt.Sprintf("%q", t.name)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OApp:
		return "(" + t.name + " " + sh(t.args) + ")"
	case ONot:
		return "¬" + sh(t.args)
	case OAnd:
		return "(and " + sh(t.args) + ")"
	case OOr:
		return "(or " + sh(t.args) + ")"
	case OEq:
		return "(= " + sh(t.args) + ")"
	case OIte:
		return "(ite " + sh(t.args) + ")"
	case OLin:
		var s []string
		for i, a := range t.args {
			c := t.coefs[i].RatString()
			if c == "1" {
				s = append(s, b.showD(a, d-1))
			} else {
				s = append(s, c+"*"+b.showD(a, d-1))
			}
		}
		if t.cst.Sign() != 0 {
			s = append(s, t.cst.RatString())
		}
		return "(" + strings.Join(s, "+") + ")"
	case OMul:
		return "(* " + sh(t.args) + ")"
	case OLe0:
		return "(0<=" + sh(t.args) + ")"
	case OLt0:
		return "(0<" + sh(t.args) + ")"
	case OSelect:
		return b.showD(t.args[0], d-1) + "[" + b.showD(t.args[1], d-1) + "]"
	case OStore:
		return "(store " + sh(t.args) + ")"
	case OForall:
		return "(∀ " + sh(t.args) + ")"
	}
	return fmt.Sprintf("(op%d %s)", t.op, sh(t.args))
}

// realToIntLin: a linear real term all of whose atoms are to_real of integers with integer coefficients
func (b *Bank) realToIntLin(t *Term) *Term {
	r := b.Int(0)
	for i, a := range t.args {
		if a.op != OToReal || !t.coefs[i].IsInt() {
			return nil
		}
		r = b.Add(r, b.Mul(b.Num(t.coefs[i], SInt), a.args[0]))
	}
	if !t.cst.IsInt() {
		return nil
	}
	return b.Add(r, b.Num(t.cst, SInt))
}
