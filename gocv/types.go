package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
	"sync"
)

type Kind uint8

const (
	KNone Kind = iota
	KLen
	KRef
	KInt
	KTime
	KClass
	KReal
	KTag
	KData
	KLock
)

type Leaf struct {
	path string
	sort *Sort
	kind Kind
	bits int
	uns  bool
	typ  types.Type // type of the leaf's own value (pointers, chans …)
	comp bool       // array-valued composite (snapshot)
}

type Val []*Term

var tkeyCache sync.Map

// byte and rune are names for uint8 and int32
var byteRe = regexp.MustCompile(`(^|[^\w./])byte\b`)
var runeRe = regexp.MustCompile(`(^|[^\w./])rune\b`)

func tkey(t types.Type) string {
	if k, ok := tkeyCache.Load(t); ok {
		return k.(string)
	}
	k := strings.ReplaceAll(types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Path() }), "interface{}", "any")
	k = byteRe.ReplaceAllString(k, "${1}uint8")
	k = runeRe.ReplaceAllString(k, "${1}int32")
	tkeyCache.Store(t, k)
	return k
}

// special struct types that are represented by one opaque leaf
var special = map[string]Leaf{
	"time.Time":       {path: "", sort: SInt, kind: KTime},
	"sync.Mutex":      {path: "", sort: SInt, kind: KLock},
	"sync.RWMutex":    {path: "", sort: SInt, kind: KLock},
	"sync.Once":       {path: "", sort: SBool},
	"sync.WaitGroup":  {path: "", sort: SInt, kind: KLock},
	"bytes.Buffer":    {path: "", sort: SStr},
	"strings.Builder": {path: "", sort: SStr},
	"regexp.Regexp":   {path: "", sort: SStr},
	"reflect.Value":   {path: "", sort: SInt},
}

func namedOf(t types.Type) *types.Named {
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func (x *Exec) isVC(n *types.Named) bool {
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == x.L.vcPath
}

func (x *Exec) leaves(t types.Type) []Leaf {
	k := tkey(t)
	if l, ok := x.leafCache[k]; ok {
		return l
	}
	l := x.leaves0(t)
	x.leafCache[k] = l
	return l
}

func (x *Exec) leaves0(t types.Type) []Leaf {
	if n := namedOf(t); n != nil {
		if x.isVC(n) {
			switch n.Obj().Name() {
			case "Seq":
				e := n.TypeArgs().At(0)
				out := []Leaf{{path: ".r", sort: SInt}, {path: ".o", sort: SInt}, {path: ".l", sort: SInt, kind: KLen}}
				for _, l := range x.leaves(e) {
					out = append(out, Leaf{path: ".e" + l.path, sort: SArr(SInt, l.sort), kind: l.kind, bits: l.bits, uns: l.uns, typ: l.typ, comp: true})
				}
				return out
			case "MapS":
				ks := x.keySort(n.TypeArgs().At(0))
				out := []Leaf{{path: ".n", sort: SInt, kind: KLen}, {path: ".d", sort: SArr(ks, SBool), comp: true}}
				for _, l := range x.leaves(n.TypeArgs().At(1)) {
					out = append(out, Leaf{path: ".v" + l.path, sort: SArr(ks, l.sort), kind: l.kind, bits: l.bits, uns: l.uns, typ: l.typ, comp: true})
				}
				return out
			case "Set":
				ks := x.keySort(n.TypeArgs().At(0))
				return []Leaf{{path: ".d", sort: SArr(ks, SBool), comp: true}}
			case "LineReader":
				return []Leaf{{path: ".Lines.r", sort: SInt, kind: KRef}, {path: ".Lines.o", sort: SInt, kind: KLen}, {path: ".Lines.l", sort: SInt, kind: KLen}, {path: ".Lines.k", sort: SInt, kind: KLen}, {path: ".pos", sort: SInt, kind: KLen}}
			}
		}
		if s, ok := special[tkey(t)]; ok {
			return []Leaf{s}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Invalid { // unused part of a map iteration
			return nil
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{sort: SBool}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{sort: SStr}}
		case u.Info()&types.IsInteger != 0:
			bits, uns := 64, u.Info()&types.IsUnsigned != 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				bits = 8
			case types.Int16, types.Uint16:
				bits = 16
			case types.Int32, types.Uint32:
				bits = 32
			}
			return []Leaf{{sort: SInt, kind: KInt, bits: bits, uns: uns}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{path: ".fc", sort: SInt, kind: KClass}, {path: ".fv", sort: SReal, kind: KReal}}
		case u.Kind() == types.UnsafePointer:
			return []Leaf{{sort: SInt, kind: KRef}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{sort: SInt, kind: KRef}}
		}
	case *types.Pointer, *types.Chan, *types.Map, *types.Signature:
		return []Leaf{{sort: SInt, kind: KRef, typ: t}}
	case *types.Slice:
		return []Leaf{{path: ".r", sort: SInt, kind: KRef, typ: t}, {path: ".o", sort: SInt, kind: KLen}, {path: ".l", sort: SInt, kind: KLen}, {path: ".k", sort: SInt, kind: KLen}}
	case *types.Interface:
		return []Leaf{{path: ".t", sort: SInt, kind: KTag}, {path: ".d", sort: SInt, kind: KData}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range x.leaves(f.Type()) {
				l.path = "." + f.Name() + l.path
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		var out []Leaf
		for _, l := range x.leaves(u.Elem()) {
			out = append(out, Leaf{path: "[]" + l.path, sort: SArr(SInt, l.sort), kind: l.kind, bits: l.bits, uns: l.uns, typ: l.typ, comp: true})
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			out = append(out, x.leaves(u.At(i).Type())...)
		}
		return out
	}
	panic(unsup("leaves of type " + tkey(t)))
}

func (x *Exec) keySort(t types.Type) *Sort {
	l := x.leaves(t)
	if len(l) == 1 {
		return l[0].sort
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return SInt
	}
	panic(unsup("map key type " + tkey(t)))
}
func (x *Exec) keyTerm(t types.Type, v Val) *Term {
	if len(v) == 1 {
		return v[0]
	}
	panic(unsup("map key"))
}

// field offset range of field i in a struct type
func (x *Exec) fieldRange(s *types.Struct, i int) (int, int) {
	o := 0
	for j := 0; j < i; j++ {
		o += len(x.leaves(s.Field(j).Type()))
	}
	return o, o + len(x.leaves(s.Field(i).Type()))
}

type unsupErr struct{ msg string }

func unsup(m string) unsupErr { return unsupErr{m} }

var zeroTimeNs, _ = new(big.Int).SetString("-62135596800000000000", 10)

func (x *Exec) zeroLeaf(l Leaf) *Term {
	if l.comp {
		// array sort: constant array of zero element
		return x.b.ConstArr(l.sort, x.zeroLeaf(Leaf{sort: l.sort.v, kind: l.kind, comp: l.sort.v.k != nil}))
	}
	switch l.sort {
	case SInt:
		if l.kind == KTime {
			return x.b.BigInt(zeroTimeNs)
		}
		return x.b.Int(0)
	case SBool:
		return x.b.F
	case SReal:
		return x.b.Real(new(big.Rat))
	case SStr:
		return x.b.Str("")
	}
	panic("zeroLeaf")
}

func (x *Exec) zero(t types.Type) Val {
	var v Val
	for _, l := range x.leaves(t) {
		v = append(v, x.zeroLeaf(l))
	}
	return v
}

var maxLen = int64(1) << 40

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

func intRange(bits int, uns bool) (*big.Int, *big.Int) {
	if uns {
		return new(big.Int), new(big.Int).Sub(pow2(bits), big.NewInt(1))
	}
	return new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), big.NewInt(1))
}

// leafFacts: facts true of any value of this leaf kind
func (x *Exec) leafFacts(l Leaf, t *Term, base *Term) []*Term {
	b := x.b
	switch l.kind {
	case KLen:
		return []*Term{b.Le(b.Int(0), t), b.Le(t, b.Int(maxLen))}
	case KRef:
		if base == nil {
			return []*Term{b.Le(b.Int(0), t)}
		}
		return []*Term{b.Le(b.Int(0), t), b.Lt(t, base)}
	case KInt:
		lo, hi := intRange(l.bits, l.uns)
		return []*Term{b.Le(b.BigInt(lo), t), b.Le(t, b.BigInt(hi))}
	case KClass:
		return []*Term{b.Le(b.Int(0), t), b.Le(t, b.Int(3))}
	case KTag:
		return []*Term{b.Le(b.Int(0), t)}
	case KTime:
		return []*Term{b.Le(b.BigInt(zeroTimeNs), t), b.Le(t, b.BigInt(new(big.Int).Mul(big.NewInt(16725225600), big.NewInt(1e9))))}
	case KLock:
		return []*Term{b.Le(b.Int(0), t)}
	}
	return nil
}

func (x *Exec) axiom(t *Term, ax ...*Term) {
	if t.bound || t.isNum() {
		return
	}
	for _, a := range ax {
		if a == x.b.T || a.bound {
			continue
		}
		dup := false
		for _, o := range x.b.axioms[t] {
			if o == a {
				dup = true
			}
		}
		if !dup {
			x.b.axioms[t] = append(x.b.axioms[t], a)
		}
	}
}

// attach facts to a value of type t whose references were all allocated before base+n
func (x *Exec) typed(t types.Type, v Val, base *Term) {
	ls := x.leaves(t)
	for i, l := range ls {
		if l.comp {
			continue
		}
		x.axiom(v[i], x.leafFacts(l, v[i], base)...)
		if l.kind == KRef && base != nil && base.gen > 0 && v[i].op == OVar {
			if _, ok := x.b.oldRef[v[i]]; !ok {
				x.b.oldRef[v[i]] = base.gen
			}
		}
	}
	x.typedRel(t, v)
}

// relations between leaves of one value
func (x *Exec) typedRel(t types.Type, v Val) {
	b := x.b
	if n := namedOf(t); n != nil {
		if x.isVC(n) {
			return
		}
		if _, ok := special[tkey(t)]; ok {
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		x.axiom(v[2], b.Le(v[2], v[3]))
		x.axiom(v[0], b.Imp(b.Eq(v[0], b.Int(0)), b.Eq(v[3], b.Int(0))))
		if v[0].bound || v[0].isNum() {
			return
		}
		x.axiom(v[3], b.Imp(b.Eq(v[0], b.Int(0)), b.Eq(v[3], b.Int(0))))
	case *types.Interface:
		x.axiom(v[0], b.Imp(b.Eq(v[0], b.Int(0)), b.Eq(v[1], b.Int(0))))
	case *types.Chan:
		// channels of different types are different channels
		if !v[0].isNum() && !v[0].bound {
			x.axiom(v[0], b.Or(b.Eq(v[0], b.Int(0)), b.Eq(b.App("chan.elem", SInt, v[0]), x.tag(u.Elem()))))
		}
	case *types.Basic:
		if u.Info()&types.IsFloat != 0 {
			x.axiom(v[0], b.Or(b.Eq(v[0], b.Int(0)), b.Eq(v[1], b.Real(new(big.Rat)))))
		}
	case *types.Struct:
		o := 0
		for i := 0; i < u.NumFields(); i++ {
			n := len(x.leaves(u.Field(i).Type()))
			x.typedRel(u.Field(i).Type(), v[o:o+n])
			o += n
		}
	}
}

func (x *Exec) freshVal(t types.Type, prefix string, base *Term) Val {
	var v Val
	for _, l := range x.leaves(t) {
		tm := x.b.Fresh(prefix+l.path, l.sort)
		if l.comp {
			x.b.rkind[tm] = rk{l, base}
		}
		v = append(v, tm)
	}
	x.typed(t, v, base)
	return v
}

// value equality as Go's ==
func (x *Exec) eqVal(t types.Type, a, c Val) *Term {
	b := x.b
	if n := namedOf(t); n != nil {
		if _, ok := special[tkey(t)]; ok {
			return b.Eq(a[0], c[0])
		}
		if x.isVC(n) {
			panic(unsup("== on vc type"))
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsFloat != 0 {
			return b.And(b.Eq(a[0], c[0]), b.Not(b.Eq(a[0], b.Int(3))), b.Eq(a[1], c[1]))
		}
	case *types.Slice:
		return b.Eq(a[0], c[0])
	case *types.Struct:
		o := 0
		r := b.T
		for i := 0; i < u.NumFields(); i++ {
			n := len(x.leaves(u.Field(i).Type()))
			r = b.And(r, x.eqVal(u.Field(i).Type(), a[o:o+n], c[o:o+n]))
			o += n
		}
		return r
	}
	r := b.T
	for i := range a {
		r = b.And(r, b.Eq(a[i], c[i]))
	}
	return r
}

// identical: leaf-wise identity (NaN equals itself)
func (x *Exec) identVal(a, c Val) *Term {
	r := x.b.T
	for i := range a {
		r = x.b.And(r, x.b.Eq(a[i], c[i]))
	}
	return r
}

func (x *Exec) iteVal(c *Term, a, d Val) Val {
	if c == x.b.T {
		return a
	}
	if c == x.b.F {
		return d
	}
	v := make(Val, len(a))
	for i := range a {
		v[i] = x.b.Ite(c, a[i], d[i])
	}
	return v
}

// ---------- type tags ----------

func (x *Exec) tag(t types.Type) *Term {
	k := tkey(t)
	id, ok := x.tags[k]
	if !ok {
		id = int64(len(x.tags) + 1)
		x.tags[k] = id
		x.tagTypes[id] = t
	}
	return x.b.Int(id)
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Chan, *types.Map, *types.Signature:
		return true
	}
	return false
}

func (x *Exec) boxName(t types.Type) string { return sanitize(tkey(t)) }

func (x *Exec) box(t types.Type, v Val) *Term {
	if isPtrLike(t) {
		return v[0]
	}
	if len(v) == 0 {
		return x.b.Int(1)
	}
	return x.b.SApp("box."+x.boxName(t), SInt, v...)
}
func (x *Exec) unbox(t types.Type, d *Term) Val {
	if isPtrLike(t) {
		return Val{d}
	}
	var v Val
	for i, l := range x.leaves(t) {
		v = append(v, x.b.SApp(fmt.Sprintf("unbox.%s.%d", x.boxName(t), i), l.sort, d))
	}
	if !d.bound {
		x.typed(t, v, nil)
	}
	return v
}

func fnFull(n string) string { return strings.TrimSpace(n) }

type rk struct {
	leaf Leaf
	base *Term
}
