package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome
type imodel func(x *Exec, st *State, fr *Frame, recv Val, args []Val, cc *ssa.CallCommon) []Outcome

var models map[string]model
var ifaceModels map[string]imodel

var errT = types.Universe.Lookup("error").Type()

func (x *Exec) nilErr() Val { return Val{x.b.Int(0), x.b.Int(0)} }

// newErr: a fresh non-nil error with the given text
func (x *Exec) newErr(st *State, text *Term) Val {
	d := x.alloc(st)
	tag := x.tagByName("*errors.errorString")
	if text != nil {
		x.assumeFact(st, x.b.Eq(x.b.SApp("err.text", SStr, tag, d), text))
	}
	return Val{tag, d}
}

func (x *Exec) ufErr(name string, args ...*Term) Val {
	d := x.b.SApp("errval."+name, SInt, args...)
	x.axiom(d, x.b.Le(x.b.Int(1), d))
	return Val{x.tagByName("*" + name), d}
}

func (x *Exec) errText(st *State, fr *Frame, e Val) []Outcome {
	if e[0].isNum() {
		if t, ok := x.tagTypes[e[0].cst.Num().Int64()]; ok && x.inModule(t) {
			if sel := x.L.prog.MethodSets.MethodSet(t).Lookup(nil, "Error"); sel != nil {
				return x.call(st, fr, x.L.prog.MethodValue(sel), []Val{x.unboxAs(st, t, e[0], e[1])}, nil, nil, "")
			}
		}
	}
	return ret(st, Val{x.b.SApp("err.text", SStr, e[0], e[1])})
}

func (x *Exec) itoa(t *Term) *Term {
	if t.isNum() {
		return x.b.Str(t.cst.Num().String())
	}
	r := x.b.SApp("str.itoa", SStr, t)
	x.axiom(r, x.b.Eq(x.b.SApp("str.atoi", SInt, r), t), x.b.SApp("str.atoiok", SBool, r))
	return r
}

func (x *Exec) fmtArg(verb string, v Val) *Term {
	b := x.b
	t, d := x.dyn(v)
	if t == nil {
		if v[0].isNum() && v[0].cst.Sign() == 0 {
			return b.Str("%!" + verb + "(<nil>)")
		}
		return b.SApp("fmt."+verb+".any", SStr, v...)
	}
	hasM := func(n string) bool {
		ms := x.L.prog.MethodSets.MethodSet(t)
		return ms.Lookup(nil, n) != nil
	}
	if bt, ok := t.Underlying().(*types.Basic); ok && !hasM("String") && !hasM("Error") {
		switch {
		case bt.Info()&types.IsString != 0 && (verb == "s" || verb == "v"):
			return d[0]
		case bt.Info()&types.IsInteger != 0 && (verb == "d" || verb == "v"):
			return x.itoa(d[0])
		case bt.Info()&types.IsBoolean != 0 && (verb == "t" || verb == "v"):
			return b.Ite(d[0], b.Str("true"), b.Str("false"))
		}
	}
	if tkey(t) == "*errors.errorString" {
		return b.SApp("err.text", SStr, v...)
	}
	return b.SApp("fmt."+verb+"."+sanitize(tkey(t)), SStr, d...)
}

func (x *Exec) sprintf(st *State, f *Term, args Val) *Term {
	b := x.b
	if f.op != OStr || !args[2].isNum() {
		in := x.inner(st, types.NewInterfaceType(nil, nil), args[0])
		return b.SApp("fmt.sprintf", SStr, f, in[0], in[1], args[1], args[2])
	}
	av := x.anyArgs(st, args)
	var parts []*Term
	lit := ""
	i := 0
	s := f.name
	for p := 0; p < len(s); p++ {
		if s[p] != '%' {
			lit += string(s[p])
			continue
		}
		q := p + 1
		for q < len(s) && strings.ContainsRune("+-# 0123456789.", rune(s[q])) {
			q++
		}
		if q >= len(s) {
			lit += "%!(NOVERB)"
			break
		}
		verb := s[p+1 : q+1]
		p = q
		if verb == "%" {
			lit += "%"
			continue
		}
		if i >= len(av) {
			lit += "%!" + verb + "(MISSING)"
			continue
		}
		if lit != "" {
			parts = append(parts, b.Str(lit))
			lit = ""
		}
		if verb == "w" {
			verb = "v"
		}
		parts = append(parts, x.fmtArg(verb, av[i]))
		i++
	}
	if lit != "" {
		parts = append(parts, b.Str(lit))
	}
	if i < len(av) {
		for ; i < len(av); i++ {
			parts = append(parts, b.Str("%!(EXTRA "), x.fmtArg("v", av[i]), b.Str(")"))
		}
	}
	r := b.Str("")
	for j := len(parts) - 1; j >= 0; j-- {
		r = b.SApp("str.cat", SStr, parts[j], r)
	}
	return r
}

func (x *Exec) lockLeaf(st *State, p *Term, t string) (string, *Term) {
	n := special[t]
	var l loc
	if p.op == OApp && strings.HasPrefix(p.name, "addr|") {
		l = loc{key: p.name[5:], ref: p.args[0]}
	} else if p.op == OApp && strings.HasPrefix(p.name, "eaddr|") {
		panic(unsup("lock inside a slice element"))
	} else {
		l = loc{key: t + "#", ref: p}
	}
	x.region(st, l.key, n, nil)
	return l.key, l.ref
}

func lockModel(kind string, typ string) model {
	return func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
		b := x.b
		ok, po := x.check(st, fr, b.Not(b.Eq(args[0][0], b.Int(0))), "nil mutex")
		if !ok {
			return po
		}
		if kind == "Lock" || kind == "RLock" {
			st = x.others(st, fr)
		}
		k, ref := x.lockLeaf(st, args[0][0], typ)
		s := b.Select(st.reg[k], ref)
		desc := strings.TrimPrefix(k, x.L.modPath)
		set := func(v *Term) []Outcome {
			x.setReg(st, k, b.Store(st.reg[k], ref, v), ref)
			return append(po, Outcome{kind: oRet, st: st})
		}
		if x.pure > 0 {
			return append(po, Outcome{kind: oRet, st: st})
		}
		switch kind {
		case "Lock":
			x.oblige(st, "no self-deadlock:"+desc, b.Eq(s, b.Int(0)), "Lock while already held")
			if x.acquired(st, k, ref); st.dead {
				return po
			}
			return set(b.Int(1))
		case "Unlock":
			ok, p2 := x.check(st, fr, b.Eq(s, b.Int(1)), "unlock of unlocked mutex")
			po = append(po, p2...)
			if !ok {
				return po
			}
			return set(b.Int(0))
		case "RLock":
			x.oblige(st, "no self-deadlock:"+desc, b.Not(b.Eq(s, b.Int(1))), "RLock while write-held")
			if x.acquired(st, k, ref); st.dead {
				return po
			}
			return set(b.Ite(b.Eq(s, b.Int(0)), b.Int(2), b.Add(s, b.Int(1))))
		case "RUnlock":
			ok, p2 := x.check(st, fr, b.Le(b.Int(2), s), "RUnlock of unlocked RWMutex")
			po = append(po, p2...)
			if !ok {
				return po
			}
			return set(b.Ite(b.Eq(s, b.Int(2)), b.Int(0), b.Sub(s, b.Int(1))))
		}
		panic("lock kind")
	}
}

func timeClamp(x *Exec, d *Term) *Term {
	b := x.b
	lo, hi := intRange(64, false)
	return b.Ite(b.Lt(d, b.BigInt(lo)), b.BigInt(lo), b.Ite(b.Lt(b.BigInt(hi), d), b.BigInt(hi), d))
}

// fresh read-only slice of strings described by uninterpreted functions of the arguments
func (x *Exec) ufStrSlice(st *State, name string, min int64, args ...*Term) Val {
	b := x.b
	ref := x.alloc(st)
	n := b.SApp(name+".n", SInt, args...)
	x.axiom(n, b.Le(b.Int(min), n), b.Le(n, b.Int(maxLen)))
	arr := b.SApp(name+".a", SArr(SInt, SStr), args...)
	x.setInner(st, types.Typ[types.String], ref, []*Term{arr})
	return Val{ref, b.Int(0), n, n}
}

func (x *Exec) litStrSlice(st *State, ss []string) Val {
	ref := x.alloc(st)
	arr := x.b.ConstArr(SArr(SInt, SStr), x.b.Str(""))
	for i, s := range ss {
		arr = x.b.Store(arr, x.b.Int(int64(i)), x.b.Str(s))
	}
	x.setInner(st, types.Typ[types.String], ref, []*Term{arr})
	n := x.b.Int(int64(len(ss)))
	return Val{ref, x.b.Int(0), n, n}
}

func pureUF(name string) model {
	return func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
		var flat []*Term
		for _, a := range args {
			flat = append(flat, a...)
		}
		var rs []Val
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			rs = append(rs, x.uf(fmt.Sprintf("%s.%d", name, i), fn.Signature.Results().At(i).Type(), flat...))
		}
		return ret(st, rs...)
	}
}

// litStr1: exact on literals, uninterpreted otherwise
func litStr1(name string, f func(string) string) model {
	return func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
		if args[0][0].op == OStr {
			return ret(st, Val{x.b.Str(f(args[0][0].name))})
		}
		return ret(st, Val{x.b.SApp("uf."+name, SStr, args[0][0])})
	}
}

func (x *Exec) realUF(name string, a Val) *Term { return x.b.SApp(name, SReal, a[1]) }

func exit(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
	x.note(st, "program exits in "+fn.String())
	return nil
}
func noEffect(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
	var rs []Val
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		rs = append(rs, x.freshVal(fn.Signature.Results().At(i).Type(), "out", nil))
	}
	return ret(st, rs...)
}

func bufLoc(x *Exec, st *State, p *Term, t string) (string, *Term) {
	if p.op == OApp && strings.HasPrefix(p.name, "addr|") {
		x.region(st, p.name[5:], special[t], nil)
		return p.name[5:], p.args[0]
	}
	x.region(st, t+"#", special[t], nil)
	return t + "#", p
}

func bufWrite(t string, toStr func(x *Exec, st *State, a Val) *Term, results func(x *Exec, n *Term) []Val) model {
	return func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
		k, ref := bufLoc(x, st, args[0][0], t)
		s := toStr(x, st, args[1])
		x.setReg(st, k, x.b.Store(st.reg[k], ref, x.b.SApp("str.cat", SStr, x.b.Select(st.reg[k], ref), s)), ref)
		return ret(st, results(x, x.strLen(s))...)
	}
}

func (x *Exec) timeBase(st *State) *Term {
	x.clockStep(st)
	return st.clock
}

func (x *Exec) envChan(st *State, elem types.Type, cap int64, mayClose bool) *Term {
	ref := x.newChan(st, elem, x.b.Int(cap), x.b.T)
	if !mayClose {
		x.tickCh[ref] = true
	}
	return ref
}

func init() {
	ifaceModels = map[string]imodel{
		"error.Error": func(x *Exec, st *State, fr *Frame, recv Val, args []Val, cc *ssa.CallCommon) []Outcome {
			return ret(st, Val{x.b.SApp("err.text", SStr, recv[0], recv[1])})
		},
		"context.Context.Done": func(x *Exec, st *State, fr *Frame, recv Val, args []Val, cc *ssa.CallCommon) []Outcome {
			ch := x.b.App("ctx.done", SInt, recv[0], recv[1])
			x.axiom(ch, x.b.Le(x.b.Int(0), ch), x.b.Lt(ch, x.epochBase["H0"]))
			x.b.oldRef[ch] = 1
			return ret(st, Val{ch})
		},
		"context.Context.Err": func(x *Exec, st *State, fr *Frame, recv Val, args []Val, cc *ssa.CallCommon) []Outcome {
			return ret(st, x.freshVal(errT, "ctxerr", nil))
		},
	}
	now := func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
		return ret(st, Val{x.timeBase(st)})
	}
	fin := func(x *Exec, v *Term) Val { return Val{x.b.Int(0), v} }
	is := func(x *Exec, t *Term, k int64) *Term { return x.b.Eq(t, x.b.Int(k)) }
	models = map[string]model{
		"(*sync.Mutex).Lock":      lockModel("Lock", "sync.Mutex"),
		"(*sync.Mutex).Unlock":    lockModel("Unlock", "sync.Mutex"),
		"(*sync.RWMutex).Lock":    lockModel("Lock", "sync.RWMutex"),
		"(*sync.RWMutex).Unlock":  lockModel("Unlock", "sync.RWMutex"),
		"(*sync.RWMutex).RLock":   lockModel("RLock", "sync.RWMutex"),
		"(*sync.RWMutex).RUnlock": lockModel("RUnlock", "sync.RWMutex"),
		"(*sync.Once).Do": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			k, ref := bufLoc(x, st, args[0][0], "sync.Once")
			s1, s2 := x.fork(st, x.b.Select(st.reg[k], ref))
			var outs []Outcome
			if s1 != nil {
				outs = append(outs, Outcome{kind: oRet, st: s1})
			}
			if s2 != nil {
				x.setReg(s2, k, x.b.Store(s2.reg[k], ref, x.b.T), ref)
				outs = append(outs, x.callVal(s2, fr, args[1][0], types.NewSignatureType(nil, nil, nil, nil, nil, false), nil, nil, "")...)
			}
			return outs
		},
		"(*sync.WaitGroup).Add": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			return x.wgAdd(st, fr, args[0][0], args[1][0])
		},
		"(*sync.WaitGroup).Done": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			return x.wgAdd(st, fr, args[0][0], x.b.Int(-1))
		},
		"(*sync.WaitGroup).Wait": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			return x.wgWait(st, fr, args[0][0], true)
		},

		"time.Now": now,
		"time.Since": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			n := x.timeBase(st)
			return ret(st, Val{timeClamp(x, x.b.Sub(n, args[0][0]))})
		},
		"time.Until": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			n := x.timeBase(st)
			return ret(st, Val{timeClamp(x, x.b.Sub(args[0][0], n))})
		},
		"(time.Time).Sub": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			return ret(st, Val{timeClamp(x, x.b.Sub(args[0][0], args[1][0]))})
		},
		"(time.Time).Add": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			return ret(st, Val{x.b.Add(args[0][0], args[1][0])})
		},
		"(time.Time).After": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			return ret(st, Val{x.b.Lt(args[1][0], args[0][0])})
		},
		"(time.Time).Before": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			return ret(st, Val{x.b.Lt(args[0][0], args[1][0])})
		},
		"(time.Time).Equal": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			return ret(st, Val{x.b.Eq(args[0][0], args[1][0])})
		},
		"(time.Time).IsZero": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			return ret(st, Val{x.b.Eq(args[0][0], x.b.BigInt(zeroTimeNs))})
		},
		"(time.Time).UTC":   func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome { return ret(st, args[0]) },
		"(time.Time).Local": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome { return ret(st, args[0]) },
		"(time.Time).Unix": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			return ret(st, Val{x.b.DivI(args[0][0], x.b.Int(1e9))})
		},
		"(time.Time).UnixNano": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			return ret(st, Val{x.b.Ite(x.b.And(x.b.Le(x.b.BigInt(new(big.Int).Neg(pow2(63))), args[0][0]), x.b.Lt(args[0][0], x.b.BigInt(pow2(63)))), args[0][0], x.b.SApp("unixnano", SInt, args[0][0]))})
		},
		"(time.Time).String": pureUF("time.String"),
		"(time.Time).Format": pureUF("time.Format"),
		"(time.Duration).Seconds": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			return ret(st, fin(x, x.b.DivR(x.b.ToReal(args[0][0]), x.b.Real(big.NewRat(1e9, 1)))))
		},
		"(time.Duration).String": pureUF("dur.String"),
		"time.ParseDuration":     ufOrErr("time.ParseDuration", "errors.errorString", func(s string) (any, bool) { return nil, false }),
		"time.Sleep": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			x.clockStep(st)
			return ret(st)
		},
		"time.After": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			return ret(st, Val{x.envChan(st, fn.Signature.Results().At(0).Type().Underlying().(*types.Chan).Elem(), 1, false)})
		},
		"time.Tick": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			b := x.b
			ch := x.envChan(st, fn.Signature.Results().At(0).Type().Underlying().(*types.Chan).Elem(), 1, false)
			return ret(st, Val{b.Ite(b.Le(args[0][0], b.Int(0)), b.Int(0), ch)})
		},
		"time.NewTicker": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			b := x.b
			ok, po := x.check(st, fr, b.Lt(b.Int(0), args[0][0]), "non-positive interval for NewTicker")
			if !ok {
				return po
			}
			tt := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			p := x.newObj(st, tt)
			su := tt.Underlying().(*types.Struct)
			for i := 0; i < su.NumFields(); i++ {
				if su.Field(i).Name() == "C" {
					x.store(st, x.fieldAddr(p, tt, "C"), su.Field(i).Type(), Val{x.envChan(st, su.Field(i).Type().Underlying().(*types.Chan).Elem(), 1, false)})
				}
			}
			x.ghostSet(st, "ticker.period", p, args[0][0])
			x.ghostSet(st, "ticker.stopped", p, b.Int(0))
			return append(po, Outcome{kind: oRet, st: st, ret: []Val{{p}}})
		},
		"(*time.Ticker).Stop": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			x.ghostSet(st, "ticker.stopped", args[0][0], x.b.Int(1))
			return ret(st)
		},

		"math.Log":  floatFn("math.Log"),
		"math.Sqrt": floatFn("math.Sqrt"),
		"math.Exp":  floatFn("math.Exp"),
		"math.Pow": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			e := args[1]
			if e[0].isNum() && e[0].cst.Sign() == 0 && e[1].isNum() && e[1].cst.Cmp(big.NewRat(2, 1)) == 0 {
				return ret(st, x.fmul(args[0], args[0]))
			}
			return pureUF("math.Pow")(x, st, fr, fn, args)
		},
		"math.Abs": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			b := x.b
			a := args[0]
			return ret(st, Val{b.Ite(is(x, a[0], 2), b.Int(1), a[0]), b.Ite(b.Le(b.Real(new(big.Rat)), a[1]), a[1], b.Neg(a[1]))})
		},
		"math.Mod": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			b := x.b
			p, q := args[0], args[1]
			intOf := func(v Val) *Term {
				if !(v[0].isNum() && v[0].cst.Sign() == 0) {
					return nil
				}
				if v[1].op == OToReal {
					return v[1].args[0]
				}
				if v[1].isNum() && v[1].cst.IsInt() {
					return b.BigInt(v[1].cst.Num())
				}
				if v[1].op == OLin {
					return b.realToIntLin(v[1])
				}
				return nil
			}
			pi, qi := intOf(p), intOf(q)
			if pi != nil && qi != nil && x.entailsQF(st, b.And(b.Le(b.Int(0), pi), b.Lt(b.Int(0), qi))) {
				return ret(st, fin(x, b.ToReal(x.imod(pi, qi))))
			}
			return pureUF("math.Mod")(x, st, fr, fn, args)
		},
		"math.Min": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			b := x.b
			a, c := args[0], args[1]
			nan := b.Or(is(x, a[0], 3), is(x, c[0], 3))
			neg := b.Or(is(x, a[0], 2), is(x, c[0], 2))
			r := x.iteVal(x.fle(a, c), a, c)
			r = x.iteVal(nan, Val{b.Int(3), b.Real(new(big.Rat))}, r)
			return ret(st, x.iteVal(neg, Val{b.Int(2), b.Real(new(big.Rat))}, r))
		},
		"math.Max": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			b := x.b
			a, c := args[0], args[1]
			nan := b.Or(is(x, a[0], 3), is(x, c[0], 3))
			pos := b.Or(is(x, a[0], 1), is(x, c[0], 1))
			r := x.iteVal(x.fle(a, c), c, a)
			r = x.iteVal(nan, Val{b.Int(3), b.Real(new(big.Rat))}, r)
			return ret(st, x.iteVal(pos, Val{b.Int(1), b.Real(new(big.Rat))}, r))
		},
		"math.IsNaN": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			return ret(st, Val{is(x, args[0][0], 3)})
		},
		"math.IsInf": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			b := x.b
			s := args[1][0]
			return ret(st, Val{b.Or(b.And(b.Le(b.Int(0), s), is(x, args[0][0], 1)), b.And(b.Le(s, b.Int(0)), is(x, args[0][0], 2)))})
		},
		"math.Inf": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			b := x.b
			return ret(st, Val{b.Ite(b.Le(b.Int(0), args[0][0]), b.Int(1), b.Int(2)), b.Real(new(big.Rat))})
		},
		"math.NaN": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			return ret(st, Val{x.b.Int(3), x.b.Real(new(big.Rat))})
		},

		"strings.HasSuffix": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			return ret(st, Val{x.b.SApp("str.hassuffix", SBool, args[0][0], args[1][0])})
		},
		"strings.HasPrefix": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			return ret(st, Val{x.b.SApp("str.hasprefix", SBool, args[0][0], args[1][0])})
		},
		"strings.Contains": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			a, c := args[0][0], args[1][0]
			if a.op == OStr && c.op == OStr {
				return ret(st, Val{x.b.Bool(strings.Contains(a.name, c.name))})
			}
			if c.op == OStr && c.name != "" {
				return ret(st, Val{x.b.Le(x.b.Int(0), x.strIndex(a, c))})
			}
			return ret(st, Val{x.b.SApp("str.contains", SBool, a, c)})
		},
		"strings.Index": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			a, c := args[0][0], args[1][0]
			if a.op == OStr && c.op == OStr {
				return ret(st, Val{x.b.Int(int64(strings.Index(a.name, c.name)))})
			}
			return ret(st, Val{x.strIndex(a, c)})
		},
		"strings.IndexByte": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			a, c := args[0][0], args[1][0]
			if c.isNum() && c.cst.Num().Int64() < 128 {
				s := x.b.Str(string(rune(c.cst.Num().Int64())))
				if a.op == OStr {
					return ret(st, Val{x.b.Int(int64(strings.Index(a.name, s.name)))})
				}
				return ret(st, Val{x.strIndex(a, s)})
			}
			return ret(st, Val{x.b.SApp("str.indexbyte", SInt, a, c)})
		},
		"strings.Cut": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			b := x.b
			a, c := args[0][0], args[1][0]
			i := x.strIndex(a, c)
			has := b.Le(b.Int(0), i)
			return ret(st, Val{b.Ite(has, b.SApp("str.sub", SStr, a, b.Int(0), i), a)},
				Val{b.Ite(has, b.SApp("str.sub", SStr, a, b.Add(i, x.strLen(c)), x.strLen(a)), b.Str(""))}, Val{has})
		},
		"strings.ToUpper":   litStr1("ToUpper", strings.ToUpper),
		"strings.ToLower":   litStr1("ToLower", strings.ToLower),
		"strings.TrimSpace": litStr1("TrimSpace", strings.TrimSpace),
		"strings.Split": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			a, c := args[0][0], args[1][0]
			if a.op == OStr && c.op == OStr {
				return ret(st, x.litStrSlice(st, strings.Split(a.name, c.name)))
			}
			min := int64(0)
			if c.op == OStr && c.name != "" {
				min = 1
			}
			v := x.ufStrSlice(st, "strings.Split", min, a, c)
			if min == 1 {
				b := x.b
				i := x.strIndex(a, c)
				arr := x.inner(st, types.Typ[types.String], v[0])[0]
				n := x.strLen(a)
				rest := b.SApp("str.sub", SStr, a, b.Add(i, b.Int(int64(len(c.name)))), n)
				x.axiom(v[2], b.Eq(b.Le(b.Int(2), v[2]), b.Le(b.Int(0), i)))
				x.axiom(arr, b.Imp(b.Le(b.Int(0), i), b.And(b.Eq(b.Select(arr, b.Int(0)), b.SApp("str.sub", SStr, a, b.Int(0), i)),
						b.Eq(b.SApp("str.join", SStr, arr, b.Int(1), b.Sub(v[2], b.Int(1)), c), rest))),
					b.Imp(b.Not(b.Le(b.Int(0), i)), b.Eq(b.Select(arr, b.Int(0)), a)))
				x.axiom(arr, b.Imp(b.Eq(v[2], b.Int(2)), b.Eq(b.Select(arr, b.Int(1)), rest)))
			}
			return ret(st, v)
		},
		"strings.SplitN":      splitN("strings.SplitN", strings.SplitN),
		"strings.SplitAfterN": splitN("strings.SplitAfterN", strings.SplitAfterN),
		"strings.Join": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			b := x.b
			s := args[0]
			arr := x.inner(st, types.Typ[types.String], s[0])[0]
			if s[2].isNum() && s[2].cst.Num().Int64() <= 8 {
				n := s[2].cst.Num().Int64()
				r := b.Str("")
				for i := n - 1; i >= 0; i-- {
					e := b.Select(arr, b.Add(s[1], b.Int(i)))
					if i < n-1 {
						r = b.SApp("str.cat", SStr, args[1][0], r)
					}
					r = b.SApp("str.cat", SStr, e, r)
				}
				return ret(st, Val{r})
			}
			return ret(st, Val{x.joinUF(arr, s[1], s[2], args[1][0])})
		},
		"strconv.Itoa": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			return ret(st, Val{x.itoa(args[0][0])})
		},
		"strconv.Atoi": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			b := x.b
			s := args[0][0]
			if s.op == OStr {
				n, err := strconv.Atoi(s.name)
				if err == nil {
					return ret(st, Val{b.Int(int64(n))}, x.nilErr())
				}
				return ret(st, Val{b.Int(int64(n))}, x.ufErr("strconv.NumError", s))
			}
			ok := b.SApp("str.atoiok", SBool, s)
			v := b.SApp("str.atoi", SInt, s)
			lo, hi := intRange(64, false)
			x.axiom(v, b.Le(b.BigInt(lo), v), b.Le(v, b.BigInt(hi)))
			e := x.ufErr("strconv.NumError", s)
			return ret(st, Val{v}, x.iteVal(ok, x.nilErr(), e))
		},
		"strconv.ParseBool":  ufOrErr("strconv.ParseBool", "strconv.NumError", func(s string) (any, bool) { v, err := strconv.ParseBool(s); return v, err == nil }),
		"strconv.ParseInt":   ufOrErrN("strconv.ParseInt", "strconv.NumError"),
		"strconv.ParseUint":  ufOrErrN("strconv.ParseUint", "strconv.NumError"),
		"strconv.ParseFloat": ufOrErrN("strconv.ParseFloat", "strconv.NumError"),
		"strconv.FormatInt":  pureUF("strconv.FormatInt"),
		"strconv.FormatBool": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			return ret(st, Val{x.b.Ite(args[0][0], x.b.Str("true"), x.b.Str("false"))})
		},

		"fmt.Sprintf": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			return ret(st, Val{x.sprintf(st, args[0][0], args[1])})
		},
		"fmt.Errorf": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			return ret(st, x.newErr(st, x.sprintf(st, args[0][0], args[1])))
		},
		"errors.New": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			return ret(st, x.newErr(st, args[0][0]))
		},
		"bytes.Equal": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			b := x.b
			i := b.FreshBound("i", SInt)
			a0, a1 := x.inner(st, types.Typ[types.Byte], args[0][0])[0], x.inner(st, types.Typ[types.Byte], args[1][0])[0]
			in := b.And(b.Le(b.Int(0), i), b.Lt(i, args[0][2]))
			return ret(st, Val{b.And(b.Eq(args[0][2], args[1][2]),
				b.Forall([]*Term{i}, b.Imp(in, b.Eq(b.Select(a0, b.Add(args[0][1], i)), b.Select(a1, b.Add(args[1][1], i))))))})
		},
		"crypto/rand.Read": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			x.assumed["crypto/rand.Read never fails (documented since Go 1.24)"] = true
			v := args[0]
			rs := x.b.Fresh("rand", SStr)
			x.assumeFact(st, x.b.Eq(x.strLen(rs), v[2]))
			x.copyBuiltin(st, types.Typ[types.Byte], v, x.newBytes(st, rs))
			x.ghostSet(st, "rand.len", v[0], v[2])
			return ret(st, Val{v[2]}, x.nilErr())
		},
		"fmt.Printf":  noEffect,
		"fmt.Println": noEffect,
		"fmt.Print":   noEffect,
		"log.Printf":  noEffect,
		"log.Println": noEffect,
		"log.Fatalf":  exit,
		"log.Fatal":   exit,
		"os.Exit":     exit,
		"os.Getenv":   pureUF("os.Getenv"),

		"sort.Strings": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			x.sortSlice(st, types.Typ[types.String], args[0], func(s *State, i, j *Term) *Term {
				arr := x.inner(s, types.Typ[types.String], args[0][0])[0]
				return x.strLt(x.b.Select(arr, i), x.b.Select(arr, j))
			})
			return ret(st)
		},
		"sort.Slice": sortSliceModel, "sort.SliceStable": sortSliceModel,

		"(*bytes.Buffer).WriteString":    bufWrite("bytes.Buffer", func(x *Exec, st *State, a Val) *Term { return a[0] }, func(x *Exec, n *Term) []Val { return []Val{{n}, x.nilErr()} }),
		"(*bytes.Buffer).Write":          bufWrite("bytes.Buffer", func(x *Exec, st *State, a Val) *Term { return x.bytesStr(st, a) }, func(x *Exec, n *Term) []Val { return []Val{{n}, x.nilErr()} }),
		"(*bytes.Buffer).WriteByte":      bufWrite("bytes.Buffer", func(x *Exec, st *State, a Val) *Term { return x.chr(a[0]) }, func(x *Exec, n *Term) []Val { return []Val{x.nilErr()} }),
		"(*bytes.Buffer).WriteRune":      bufWrite("bytes.Buffer", func(x *Exec, st *State, a Val) *Term { return x.chr(a[0]) }, func(x *Exec, n *Term) []Val { return []Val{{n}, x.nilErr()} }),
		"(*strings.Builder).WriteString": bufWrite("strings.Builder", func(x *Exec, st *State, a Val) *Term { return a[0] }, func(x *Exec, n *Term) []Val { return []Val{{n}, x.nilErr()} }),
		"(*strings.Builder).WriteByte":   bufWrite("strings.Builder", func(x *Exec, st *State, a Val) *Term { return x.chr(a[0]) }, func(x *Exec, n *Term) []Val { return []Val{x.nilErr()} }),
		"(*strings.Builder).WriteRune":   bufWrite("strings.Builder", func(x *Exec, st *State, a Val) *Term { return x.chr(a[0]) }, func(x *Exec, n *Term) []Val { return []Val{{n}, x.nilErr()} }),
		"(*bytes.Buffer).String": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			k, ref := bufLoc(x, st, args[0][0], "bytes.Buffer")
			return ret(st, Val{x.b.Select(st.reg[k], ref)})
		},
		"(*strings.Builder).String": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			k, ref := bufLoc(x, st, args[0][0], "strings.Builder")
			return ret(st, Val{x.b.Select(st.reg[k], ref)})
		},
		"(*bytes.Buffer).Len": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			k, ref := bufLoc(x, st, args[0][0], "bytes.Buffer")
			return ret(st, Val{x.strLen(x.b.Select(st.reg[k], ref))})
		},
		"(*bytes.Buffer).Bytes": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			k, ref := bufLoc(x, st, args[0][0], "bytes.Buffer")
			return ret(st, x.newBytes(st, x.b.Select(st.reg[k], ref)))
		},

		"bufio.NewScanner": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			p := x.alloc(st)
			x.ghostSet(st, "scan.tag", p, args[0][0])
			x.ghostSet(st, "scan.src", p, args[0][1])
			x.ghostSet(st, "scan.cur", p, x.b.Int(-1))
			return ret(st, Val{p})
		},
		"(*bufio.Scanner).Buffer": noEffect,
		"(*bufio.Scanner).Split":  noEffect,
		"(*bufio.Scanner).Scan":   scanModel,
		"(*bufio.Scanner).Text": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			return ret(st, Val{x.scanText(st, args[0][0])})
		},
		"(*bufio.Scanner).Bytes": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
			return ret(st, x.newBytes(st, x.scanText(st, args[0][0])))
		},
		"(*bufio.Scanner).Err": noEffect,
	}
}

func (x *Exec) chr(t *Term) *Term {
	if t.isNum() {
		return x.b.Str(string(rune(t.cst.Num().Int64())))
	}
	return x.b.SApp("str.chr", SStr, t)
}

// ghost integer state attached to an object
func (x *Exec) ghostGet(st *State, name string, ref *Term) *Term {
	return x.b.Select(x.region(st, "ghost:"+name, Leaf{sort: SInt}, nil), ref)
}
func (x *Exec) ghostSet(st *State, name string, ref, v *Term) {
	r := x.region(st, "ghost:"+name, Leaf{sort: SInt}, nil)
	x.setReg(st, "ghost:"+name, x.b.Store(r, ref, v), ref)
}

func (x *Exec) lineReaderType() types.Type {
	return x.L.pkgs[x.L.vcPath].Type("LineReader").Type()
}

func scanModel(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
	b := x.b
	p := args[0][0]
	tag, src := x.ghostGet(st, "scan.tag", p), x.ghostGet(st, "scan.src", p)
	lt := x.lineReaderType()
	if tag != x.tag(types.NewPointer(lt)) && !x.entailsQF(st, b.Eq(tag, x.tag(types.NewPointer(lt)))) {
		// unknown reader: arbitrary line, arbitrary end
		x.assumed["a reader of unknown kind yields an arbitrary finite sequence of lines"] = true
		more := b.Fresh("more", SBool)
		n := b.Fresh("line", SInt)
		x.ghostSet(st, "scan.cur", p, n)
		return ret(st, Val{more})
	}
	x.assumed["lines are shorter than bufio.Scanner's 64 KiB limit"] = true
	pos := x.load(st, x.fieldAddr(src, lt, "pos"), types.Typ[types.Int])[0]
	lines := x.load(st, x.fieldAddr(src, lt, "Lines"), types.NewSlice(types.Typ[types.String]))
	has := b.Lt(pos, lines[2])
	s1, s2 := x.fork(st, has)
	var outs []Outcome
	if s1 != nil {
		x.ghostSet(s1, "scan.cur", p, pos)
		x.store(s1, x.fieldAddr(src, lt, "pos"), types.Typ[types.Int], Val{b.Add(pos, b.Int(1))})
		outs = append(outs, Outcome{kind: oRet, st: s1, ret: []Val{{b.T}}})
	}
	if s2 != nil {
		outs = append(outs, Outcome{kind: oRet, st: s2, ret: []Val{{b.F}}})
	}
	return outs
}

func (x *Exec) scanText(st *State, p *Term) *Term {
	b := x.b
	tag, src := x.ghostGet(st, "scan.tag", p), x.ghostGet(st, "scan.src", p)
	cur := x.ghostGet(st, "scan.cur", p)
	lt := x.lineReaderType()
	if tag != x.tag(types.NewPointer(lt)) && !x.entailsQF(st, b.Eq(tag, x.tag(types.NewPointer(lt)))) {
		return b.SApp("scan.line", SStr, cur)
	}
	lines := x.load(st, x.fieldAddr(src, lt, "Lines"), types.NewSlice(types.Typ[types.String]))
	arr := x.inner(st, types.Typ[types.String], lines[0])[0]
	return b.Select(arr, b.Add(lines[1], cur))
}

func (x *Exec) wgAdd(st *State, fr *Frame, p, d *Term) []Outcome {
	b := x.b
	k, ref := x.lockLeaf(st, p, "sync.WaitGroup")
	n := b.Add(b.Select(st.reg[k], ref), d)
	ok, po := x.check(st, fr, b.Le(b.Int(0), n), "negative WaitGroup counter")
	if !ok {
		return po
	}
	x.setReg(st, k, b.Store(st.reg[k], ref, n), ref)
	return append(po, Outcome{kind: oRet, st: st})
}

func (x *Exec) wgWait(st *State, fr *Frame, p *Term, mayRun bool) []Outcome {
	b := x.b
	k, ref := x.lockLeaf(st, p, "sync.WaitGroup")
	s1, s2 := x.fork(st, b.Eq(b.Select(st.reg[k], ref), b.Int(0)))
	var outs []Outcome
	if s1 != nil {
		outs = append(outs, Outcome{kind: oRet, st: s1})
	}
	if s2 != nil {
		if len(s2.pend) > 0 && mayRun {
			return append(outs, x.afterPend(s2, fr, func(s *State) []Outcome { return x.wgWait(s, fr, p, len(s.pend) > 0) })...)
		}
		outs = append(outs, x.blocked(s2, cloneFr(fr), "WaitGroup.Wait"))
	}
	return outs
}

// joinUF: strings.Join with its recursive definition (last element)
func (x *Exec) joinUF(arr, off, n, sep *Term) *Term {
	b := x.b
	t := b.SApp("str.join", SStr, arr, off, n, sep)
	x.axiom(t, b.Imp(b.Eq(n, b.Int(0)), b.Eq(t, b.Str(""))))
	return t
}

// strIndex: where the literal c first occurs in a, or -1.
func (x *Exec) strIndex(a, c *Term) *Term {
	b := x.b
	i := b.SApp("str.index", SInt, a, c)
	n := x.strLen(a)
	x.axiom(i, b.Le(b.Int(-1), i), b.Imp(b.Le(b.Int(0), i), b.Le(b.Add(i, b.Int(int64(len(c.name)))), n)))
	return i
}

func splitN(name string, f func(string, string, int) []string) model {
	return func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
		b := x.b
		a, c, n := args[0][0], args[1][0], args[2][0]
		if a.op == OStr && c.op == OStr && n.isNum() {
			return ret(st, x.litStrSlice(st, f(a.name, c.name, int(n.cst.Num().Int64()))))
		}
		if c.op == OStr && c.name != "" && n.isNum() && n.cst.Cmp(big.NewRat(2, 1)) == 0 {
			i, k := x.strIndex(a, c), b.Int(int64(len(c.name)))
			at := b.Add(i, k)
			cut := i
			if name == "strings.SplitAfterN" {
				cut = at
			}
			has := b.Le(b.Int(0), i)
			ref := x.alloc(st)
			arr := b.ConstArr(SArr(SInt, SStr), b.Str(""))
			arr = b.Store(arr, b.Int(0), b.Ite(has, b.SApp("str.sub", SStr, a, b.Int(0), cut), a))
			arr = b.Store(arr, b.Int(1), b.SApp("str.sub", SStr, a, at, x.strLen(a)))
			x.setInner(st, types.Typ[types.String], ref, []*Term{arr})
			num := b.Ite(has, b.Int(2), b.Int(1))
			return ret(st, Val{ref, b.Int(0), num, num})
		}
		v := x.ufStrSlice(st, name, 0, a, c, n)
		if n.isNum() && n.cst.Sign() > 0 && c.op == OStr && c.name != "" {
			x.axiom(v[2], b.Le(b.Int(1), v[2]), b.Le(v[2], n))
			arr := x.inner(st, types.Typ[types.String], v[0])[0]
			x.axiom(v[2], b.Imp(b.Eq(v[2], b.Int(1)), b.Eq(b.Select(arr, b.Int(0)), a)))
		}
		return ret(st, v)
	}
}

// ufOrErr: (T, error)-returning function of one string
func ufOrErr(name, errName string, lit func(string) (any, bool)) model {
	return func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
		b := x.b
		s := args[0][0]
		ok := b.SApp("uf."+name+".ok", SBool, s)
		rt := fn.Signature.Results().At(0).Type()
		if s.op == OStr {
			v, good := lit(s.name)
			if v != nil {
				if bv, isB := v.(bool); isB {
					if good {
						return ret(st, Val{b.Bool(bv)}, x.nilErr())
					}
					return ret(st, Val{b.F}, x.ufErr(errName, s))
				}
			}
		}
		v := x.uf(name, rt, s)
		return ret(st, x.iteVal(ok, v, x.zero(rt)), x.iteVal(ok, x.nilErr(), x.ufErr(errName, s)))
	}
}

func ufOrErrN(name, errName string) model {
	return func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
		var flat []*Term
		for _, a := range args {
			flat = append(flat, a...)
		}
		ok := x.b.SApp("uf."+name+".ok", SBool, flat...)
		rt := fn.Signature.Results().At(0).Type()
		v := x.uf(name, rt, flat...)
		return ret(st, x.iteVal(ok, v, x.zero(rt)), x.iteVal(ok, x.nilErr(), x.ufErr(errName, flat...)))
	}
}

func floatFn(name string) model {
	return func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
		b := x.b
		a := args[0]
		z := b.Real(new(big.Rat))
		one := b.Real(big.NewRat(1, 1))
		v := b.SApp(name, SReal, a[1])
		pos := b.Lt(z, a[1])
		fin := b.Eq(a[0], b.Int(0))
		var cls *Term
		switch name {
		case "math.Log":
			x.axiom(v, b.Imp(b.Eq(a[1], one), b.Eq(v, z)), b.Imp(b.And(b.Lt(z, a[1]), b.Lt(a[1], one)), b.Lt(v, z)), b.Imp(b.Lt(one, a[1]), b.Lt(z, v)))
			cls = b.Ite(fin, b.Ite(pos, b.Int(0), b.Ite(b.Eq(a[1], z), b.Int(2), b.Int(3))), b.Ite(b.Eq(a[0], b.Int(1)), b.Int(1), b.Int(3)))
		case "math.Sqrt":
			x.axiom(v, b.Imp(b.Le(z, a[1]), b.And(b.Le(z, v), b.Eq(b.Mul(v, v), a[1]))))
			cls = b.Ite(fin, b.Ite(b.Le(z, a[1]), b.Int(0), b.Int(3)), b.Ite(b.Eq(a[0], b.Int(1)), b.Int(1), b.Int(3)))
		case "math.Exp":
			x.axiom(v, b.Lt(z, v))
			cls = b.Ite(fin, b.Int(0), b.Ite(b.Eq(a[0], b.Int(2)), b.Int(0), a[0]))
			v = b.Ite(b.Eq(a[0], b.Int(2)), z, v)
		}
		return ret(st, x.fin(cls, v))
	}
}

// sortSlice replaces the elements of a slice by a sorted permutation
func (x *Exec) sortSlice(st *State, e types.Type, s Val, less func(st *State, i, j *Term) *Term) {
	b := x.b
	if s[2].isNum() && s[2].cst.Num().Int64() <= 1 {
		return
	}
	old := x.inner(st, e, s[0])
	ls := x.leaves(e)
	ks, _ := x.elemKeys(e)
	for _, k := range ks {
		x.guardKey(st, k, s[0], true)
	}
	x.nperm++
	pn := fmt.Sprintf("perm%d", x.nperm)
	qn := fmt.Sprintf("iperm%d", x.nperm)
	var fs []*Term
	for i, o := range old {
		f := b.Fresh("sorted", o.sort)
		l := ls[i]
		b.rkind[f] = rk{Leaf{sort: l.sort, kind: l.kind, bits: l.bits, uns: l.uns, comp: true}, x.top(st)}
		fs = append(fs, f)
	}
	lo, hi := s[1], b.Add(s[1], s[2])
	i := b.FreshBound("i", SInt)
	in := func(t *Term) *Term { return b.And(b.Le(lo, t), b.Lt(t, hi)) }
	pi, qi := b.App(pn, SInt, i), b.App(qn, SInt, i)
	x.assumeFact(st, b.Forall([]*Term{i}, b.Imp(in(i), b.And(in(pi), b.Eq(b.App(qn, SInt, pi), i)))))
	x.assumeFact(st, b.Forall([]*Term{i}, b.Imp(in(i), b.And(in(qi), b.Eq(b.App(pn, SInt, qi), i)))))
	for j := range fs {
		x.assumeFact(st, b.Forall([]*Term{i}, b.Imp(in(i), b.Eq(b.Select(fs[j], i), b.Select(old[j], pi)))))
		x.assumeFact(st, b.Forall([]*Term{i}, b.Imp(in(i), b.Eq(b.Select(old[j], i), b.Select(fs[j], qi)))))
		x.assumeFact(st, b.Forall([]*Term{i}, b.Imp(b.Not(in(i)), b.Eq(b.Select(fs[j], i), b.Select(old[j], i)))))
	}
	x.setInner(st, e, s[0], fs)
	j := b.FreshBound("j", SInt)
	l := less(st, j, i)
	x.assumeFact(st, b.Forall([]*Term{i, j}, b.Imp(b.And(in(i), in(j), b.Lt(i, j)), b.Not(l))))
}

func sortSliceModel(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val) []Outcome {
	t, d := x.dyn(args[0])
	if t == nil {
		panic(unsup("sort.Slice of unknown type"))
	}
	sl := t.Underlying().(*types.Slice)
	x.sortSlice(st, sl.Elem(), d, func(s *State, i, j *Term) *Term {
		return x.evalBool(s, args[1][0], Val{x.b.Sub(i, d[1])}, Val{x.b.Sub(j, d[1])})
	})
	return ret(st)
}

var _ = sort.Strings
