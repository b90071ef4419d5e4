package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Unsat
	Sat
)

func (r Result) String() string { return [...]string{"unknown", "unsat", "sat"}[r] }

// ---------- printer ----------

// Printer turns terms into SMT-LIB text. native selects z3/cvc5 Strings for sort Str.
type Printer struct {
	b       *Bank
	native  bool
	out     strings.Builder // pending definitions
	defined map[*Term]string
	declFn  map[string]bool
	lits    map[string]string
	litList []string
	axDone  map[*Term]bool
	hasQ    map[*Term]bool
	pending []*Term // axioms to assert
	z3      bool
}

func NewPrinter(b *Bank, native bool) *Printer {
	p := &Printer{b: b, native: native, defined: map[*Term]string{}, declFn: map[string]bool{}, lits: map[string]string{}, axDone: map[*Term]bool{}, hasQ: map[*Term]bool{}, z3: true}
	if native {
		p.out.WriteString("(define-sort Str () String)\n")
	} else {
		p.out.WriteString("(declare-sort Str 0)\n")
		p.out.WriteString("(declare-fun S_len (Str) Int)\n(declare-fun S_cat (Str Str) Str)\n(declare-fun S_sub (Str Int Int) Str)\n(declare-fun S_at (Str Int) Int)\n(declare-fun S_hassuffix (Str Str) Bool)\n(declare-fun S_hasprefix (Str Str) Bool)\n(declare-fun S_lt (Str Str) Bool)\n(declare-fun S_litid (Str) Int)\n(declare-fun S_contains (Str Str) Bool)\n(declare-fun S_index (Str Str) Int)\n")
	}
	return p
}

func (p *Printer) hasQuant(t *Term) bool {
	if v, ok := p.hasQ[t]; ok {
		return v
	}
	r := t.op == OForall
	if !r {
		for _, a := range t.args {
			if p.hasQuant(a) {
				r = true
				break
			}
		}
	}
	p.hasQ[t] = r
	return r
}

func ratStr(r *big.Rat, s *Sort) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var x string
	if s == SReal {
		if a.IsInt() {
			x = a.Num().String() + ".0"
		} else {
			x = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
		}
	} else {
		x = a.Num().String()
	}
	if neg {
		return "(- " + x + ")"
	}
	return x
}

func smtStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < 32 || c > 126 || c == '\\' {
			fmt.Fprintf(&sb, "\\u{%x}", c)
		} else if c == '"' {
			sb.WriteString("\"\"")
		} else {
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func (p *Printer) sname(n string) string {
	return "|" + strings.NewReplacer("|", "#", "\\", "/").Replace(n) + "|"
}

// ref returns a name/expression for the term, emitting definitions as necessary.
func (p *Printer) ref(t *Term) string {
	if s, ok := p.defined[t]; ok {
		return s
	}
	switch t.op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case ONum:
		return ratStr(t.cst, t.sort)
	case OBVar:
		return p.sname(t.name)
	case OVar:
		n := p.sname(t.name)
		fmt.Fprintf(&p.out, "(declare-fun %s () %s)\n", n, t.sort.name)
		p.defined[t] = n
		p.doAxioms(t)
		return n
	case OStr:
		if p.native {
			return smtStr(t.name)
		}
		if n, ok := p.lits[t.name]; ok {
			return n
		}
		n := fmt.Sprintf("lit%d", len(p.lits))
		p.lits[t.name] = n
		fmt.Fprintf(&p.out, "(declare-fun %s () Str)\n(assert (= (S_len %s) %d))\n(assert (= (S_litid %s) %d))\n", n, n, len(t.name), n, len(p.lits))
		return n
	}
	if t.bound {
		return p.expr(t)
	}
	if p.hasQuant(t) {
		return p.expr(t)
	}
	e := p.expr(t)
	n := fmt.Sprintf("t%d", t.id)
	fmt.Fprintf(&p.out, "(define-fun %s () %s %s)\n", n, t.sort.name, e)
	p.defined[t] = n
	p.doAxioms(t)
	return n
}

func (p *Printer) doAxioms(t *Term) {
	if p.axDone[t] || t.bound {
		return
	}
	p.axDone[t] = true
	for _, ax := range p.b.axioms[t] {
		p.pending = append(p.pending, ax)
	}
	if t.op == OSelect && t.sort.k == nil && p.b.selHook != nil {
		p.pending = append(p.pending, p.b.selHook(t)...)
	}
	if t.op == OApp {
		b := p.b
		switch t.name {
		case "str.len":
			p.pending = append(p.pending, b.Le(b.Int(0), t), b.Imp(b.Eq(t, b.Int(0)), b.Eq(t.args[0], b.Str(""))))
		case "str.cat":
			p.pending = append(p.pending, b.Eq(b.App("str.len", SInt, t), b.Add(b.SApp("str.len", SInt, t.args[0]), b.SApp("str.len", SInt, t.args[1]))))
		case "str.sub":
			s, lo, hi := t.args[0], t.args[1], t.args[2]
			g := b.And(b.Le(b.Int(0), lo), b.Le(lo, hi), b.Le(hi, b.SApp("str.len", SInt, s)))
			p.pending = append(p.pending, b.Imp(g, b.Eq(b.App("str.len", SInt, t), b.Sub(hi, lo))))
			p.pending = append(p.pending, b.Imp(b.And(b.Eq(lo, b.Int(0)), b.Eq(hi, b.SApp("str.len", SInt, s))), b.Eq(t, s)))
			if s.op == OApp && s.name == "str.sub" {
				s1, lo1, hi1 := s.args[0], s.args[1], s.args[2]
				g1 := b.And(g, b.Le(b.Int(0), lo1), b.Le(lo1, hi1), b.Le(hi1, b.SApp("str.len", SInt, s1)))
				p.pending = append(p.pending, b.Imp(g1, b.Eq(t, b.SApp("str.sub", SStr, s1, b.Add(lo1, lo), b.Add(lo1, hi)))))
			}
		case "str.ofbytes":
			p.pending = append(p.pending, b.Imp(b.Le(b.Int(0), t.args[2]), b.Eq(b.mk(&Term{op: OApp, sort: SInt, name: "str.len", args: []*Term{t}}), t.args[2])))
		}
		if strings.HasPrefix(t.name, "box.") {
			for i, a := range t.args {
				un := fmt.Sprintf("unbox.%s.%d", t.name[4:], i)
				ut := b.mk(&Term{op: OApp, sort: a.sort, name: un, args: []*Term{t}})
				p.pending = append(p.pending, b.mk(&Term{op: OEq, sort: SBool, args: []*Term{ut, a}}))
			}
		}
	}
}

var nativeNames = map[string]string{"str.len": "str.len", "str.cat": "str.++", "str.hassuffix": "", "str.hasprefix": "", "str.lt": "str.<", "str.contains": "str.contains", "str.index": "str.indexof"}
var absNames = map[string]string{"str.len": "S_len", "str.cat": "S_cat", "str.sub": "S_sub", "str.at": "S_at", "str.hassuffix": "S_hassuffix", "str.hasprefix": "S_hasprefix", "str.lt": "S_lt", "str.contains": "S_contains", "str.index": "S_index"}

func (p *Printer) expr(t *Term) string {
	rs := func() string {
		var s []string
		for _, a := range t.args {
			s = append(s, p.ref(a))
		}
		return strings.Join(s, " ")
	}
	switch t.op {
	case OApp:
		a := make([]string, len(t.args))
		for i, x := range t.args {
			a[i] = p.ref(x)
		}
		if p.native {
			switch t.name {
			case "str.len", "str.cat", "str.lt", "str.contains":
				return "(" + nativeNames[t.name] + " " + strings.Join(a, " ") + ")"
			case "str.index":
				return fmt.Sprintf("(str.indexof %s %s 0)", a[0], a[1])
			case "str.sub":
				return fmt.Sprintf("(str.substr %s %s (- %s %s))", a[0], a[1], a[2], a[1])
			case "str.at":
				return fmt.Sprintf("(str.to_code (str.at %s %s))", a[0], a[1])
			case "str.hassuffix":
				return fmt.Sprintf("(str.suffixof %s %s)", a[1], a[0])
			case "str.hasprefix":
				return fmt.Sprintf("(str.prefixof %s %s)", a[1], a[0])
			}
		} else if n, ok := absNames[t.name]; ok {
			return "(" + n + " " + strings.Join(a, " ") + ")"
		}
		n := p.sname(t.name)
		if !p.declFn[t.name] {
			p.declFn[t.name] = true
			var as []string
			for _, x := range t.args {
				as = append(as, x.sort.name)
			}
			fmt.Fprintf(&p.out, "(declare-fun %s (%s) %s)\n", n, strings.Join(as, " "), t.sort.name)
		}
		if len(a) == 0 {
			return n
		}
		return "(" + n + " " + strings.Join(a, " ") + ")"
	case ONot:
		return "(not " + rs() + ")"
	case OAnd:
		return "(and " + rs() + ")"
	case OOr:
		return "(or " + rs() + ")"
	case OEq:
		return "(= " + rs() + ")"
	case OIte:
		return "(ite " + rs() + ")"
	case OLin:
		var s []string
		for i, a := range t.args {
			c := t.coefs[i]
			r := p.ref(a)
			if c.Cmp(big.NewRat(1, 1)) == 0 {
				s = append(s, r)
			} else if c.Cmp(big.NewRat(-1, 1)) == 0 {
				s = append(s, "(- "+r+")")
			} else {
				s = append(s, "(* "+ratStr(c, t.sort)+" "+r+")")
			}
		}
		if t.cst.Sign() != 0 {
			s = append(s, ratStr(t.cst, t.sort))
		}
		if len(s) == 1 {
			return s[0]
		}
		return "(+ " + strings.Join(s, " ") + ")"
	case OMul:
		return "(* " + rs() + ")"
	case ODivR:
		return "(/ " + rs() + ")"
	case ODivI:
		return "(div " + rs() + ")"
	case OModI:
		return "(mod " + rs() + ")"
	case OLe0:
		z := "0"
		if t.args[0].sort == SReal {
			z = "0.0"
		}
		return "(<= " + z + " " + rs() + ")"
	case OLt0:
		return "(< 0.0 " + rs() + ")"
	case OSelect:
		return "(select " + rs() + ")"
	case OStore:
		return "(store " + rs() + ")"
	case OConstArr:
		return "((as const " + t.sort.name + ") " + rs() + ")"
	case OToReal:
		return "(to_real " + rs() + ")"
	case OToInt:
		return "(to_int " + rs() + ")"
	case OForall:
		return p.forall(t, 0)
	}
	panic("expr")
}

// forall prints a quantifier. pol>0: may emit equivalent shifted versions with patterns.
func (p *Printer) forall(t *Term, pol int) string {
	vars := t.args[:len(t.args)-1]
	body := t.args[len(t.args)-1]
	one := func(vars []*Term, body *Term) string {
		var vs []string
		for _, v := range vars {
			vs = append(vs, fmt.Sprintf("(%s %s)", p.sname(v.name), v.sort.name))
		}
		bs := p.bexpr(body, pol)
		pats := p.patterns(vars, body)
		if len(pats) > 0 && pol >= 0 {
			return "(forall (" + strings.Join(vs, " ") + ") (! " + bs + " " + strings.Join(pats, " ") + "))"
		}
		return "(forall (" + strings.Join(vs, " ") + ") " + bs + ")"
	}
	if pol < 0 {
		return one(vars, body)
	}
	// compute shifts per int var
	var versions []string
	shifts := make([][]*Term, len(vars))
	for i, v := range vars {
		if v.sort == SInt {
			shifts[i] = p.offsets(v, body)
		}
		if len(shifts[i]) == 0 {
			shifts[i] = []*Term{nil}
		}
		max := 4
		if len(vars) > 1 {
			max = 2
		}
		if len(shifts[i]) > max {
			shifts[i] = shifts[i][:max]
		}
	}
	var rec func(i int, m map[*Term]*Term)
	rec = func(i int, m map[*Term]*Term) {
		if i == len(vars) {
			nb := body
			if len(m) > 0 {
				nb = p.b.Subst(body, m)
			}
			versions = append(versions, one(vars, nb))
			return
		}
		for _, e := range shifts[i] {
			m2 := map[*Term]*Term{}
			for k, v := range m {
				m2[k] = v
			}
			if e != nil && !(e.isNum() && e.cst.Sign() == 0) {
				m2[vars[i]] = p.b.Sub(vars[i], e)
			}
			rec(i+1, m2)
		}
	}
	rec(0, map[*Term]*Term{})
	if pol == 0 {
		versions = versions[:1]
	}
	if len(versions) == 1 {
		return versions[0]
	}
	return "(and " + strings.Join(versions, " ") + ")"
}

// offsets: distinct e such that (v + e) is used as an index
func (p *Printer) offsets(v *Term, body *Term) []*Term {
	seen := map[*Term]bool{}
	var offs []*Term
	got := map[*Term]bool{}
	consider := func(idx *Term) {
		if idx.sort != SInt || !idx.bound {
			return
		}
		d := p.b.Sub(idx, v)
		if p.b.occurs(v, d) {
			return
		}
		if d.bound {
			return
		}
		if !got[d] {
			got[d] = true
			offs = append(offs, d)
		}
	}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		switch t.op {
		case OSelect:
			consider(t.args[1])
		case OApp:
			for _, a := range t.args {
				consider(a)
			}
		}
		for _, a := range t.args {
			w(a)
		}
	}
	w(body)
	return offs
}

func interpretedInside(t *Term, b *Bank) bool {
	// a pattern must not contain boolean connectives / arithmetic over bound variables
	if !t.bound {
		return false
	}
	switch t.op {
	case OBVar:
		return false
	case OSelect, OApp, OStore:
		for _, a := range t.args {
			if interpretedInside(a, b) {
				return true
			}
		}
		return false
	case OToReal:
		return interpretedInside(t.args[0], b)
	}
	return true
}

func (p *Printer) patterns(vars []*Term, body *Term) []string {
	var cands []*Term
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		if t.op == OForall {
			return
		}
		for _, a := range t.args {
			w(a)
		}
		if (t.op == OSelect || t.op == OApp) && !interpretedInside(t, p.b) {
			if p.native && t.op == OApp && strings.HasPrefix(t.name, "str.") && t.name != "str.ofbytes" && t.name != "str.bytes" {
				return
			}
			cands = append(cands, t)
		}
	}
	w(body)
	covers := func(t *Term) map[*Term]bool {
		m := map[*Term]bool{}
		for _, v := range vars {
			if p.b.occurs(v, t) {
				m[v] = true
			}
		}
		return m
	}
	var pats []string
	var full []*Term
	partial := map[*Term][]*Term{}
	for _, c := range cands {
		m := covers(c)
		if len(m) == len(vars) {
			// keep only minimal ones: skip if it contains another full candidate
			contains := false
			for _, f := range full {
				if f != c && p.b.occurs(f, c) {
					contains = true
				}
			}
			if !contains {
				full = append(full, c)
			}
		} else if len(m) == 1 {
			for v := range m {
				partial[v] = append(partial[v], c)
			}
		}
	}
	for _, f := range full {
		if len(pats) < 6 {
			pats = append(pats, ":pattern ("+p.ref(f)+")")
		}
	}
	if len(pats) == 0 && len(vars) == 2 {
		a, c := partial[vars[0]], partial[vars[1]]
		n := 0
		for _, x := range a {
			for _, y := range c {
				if n < 6 {
					pats = append(pats, ":pattern ("+p.ref(x)+" "+p.ref(y)+")")
					n++
				}
			}
		}
	}
	return pats
}

// bexpr prints a boolean term tracking polarity of quantifiers.
func (p *Printer) bexpr(t *Term, pol int) string {
	if !p.hasQuant(t) {
		return p.ref(t)
	}
	switch t.op {
	case ONot:
		return "(not " + p.bexpr(t.args[0], -pol) + ")"
	case OAnd, OOr:
		var s []string
		for _, a := range t.args {
			s = append(s, p.bexpr(a, pol))
		}
		o := "and"
		if t.op == OOr {
			o = "or"
		}
		return "(" + o + " " + strings.Join(s, " ") + ")"
	case OForall:
		return p.forall(t, pol)
	}
	return p.expr(t)
}

func (p *Printer) flush() string {
	s := p.out.String()
	p.out.Reset()
	return s
}

// ---------- solver process ----------

type Proc struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	p     *Printer
	nq    int
	b     *Bank
	dead  bool
	axOut map[*Term]bool
}

func startProc(b *Bank, native bool) *Proc {
	pr := &Proc{b: b, p: NewPrinter(b, native), axOut: map[*Term]bool{}}
	pr.cmd = exec.Command(z3bin, "-in", "-smt2", "memory_max_size=3000")
	in, _ := pr.cmd.StdinPipe()
	out, _ := pr.cmd.StdoutPipe()
	pr.in, pr.out = in, bufio.NewReaderSize(out, 1<<16)
	pr.cmd.Stderr = nil
	if err := pr.cmd.Start(); err != nil {
		pr.dead = true
		return pr
	}
	io.WriteString(in, "(set-option :print-success false)\n(set-option :smt.mbqi.max_iterations 200)\n")
	return pr
}
func (pr *Proc) stop() {
	if pr.cmd.Process != nil {
		pr.in.Close()
		pr.cmd.Process.Kill()
		pr.cmd.Wait()
	}
}

// build the asserts text for a query; definitions are emitted to p.out first.
func (p *Printer) asserts(terms []*Term) string {
	var as strings.Builder
	done := map[*Term]bool{}
	p.pending = nil
	p.axDone = map[*Term]bool{}
	emit := func(t *Term) {
		if done[t] || t.op == OTrue {
			return
		}
		done[t] = true
		s := p.bexpr(t, 1)
		fmt.Fprintf(&as, "(assert %s)\n", s)
	}
	// collect axioms over the cone
	seen := map[*Term]bool{}
	var cone func(t *Term)
	cone = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			cone(a)
		}
		p.doAxioms(t)
	}
	for _, t := range terms {
		cone(t)
	}
	for i := 0; i < len(p.pending); i++ {
		cone(p.pending[i])
	}
	pend := p.pending
	p.pending = nil
	for _, t := range terms {
		emit(t)
	}
	for _, t := range pend {
		emit(t)
	}
	return as.String()
}

func (pr *Proc) check(terms []*Term, timeoutMs int, wantModel []*Term) (Result, []string) {
	if pr.dead {
		return Unknown, nil
	}
	pr.nq++
	as := pr.p.asserts(terms)
	var mv string
	if wantModel != nil {
		var r []string
		for _, t := range wantModel {
			r = append(r, pr.p.ref(t))
		}
		mv = "(get-value (" + strings.Join(r, " ") + "))\n"
	}
	defs := pr.p.flush()
	q := defs + fmt.Sprintf("(push)\n(set-option :timeout %d)\n", timeoutMs) + as + "(check-sat)\n"
	if smtDump != "" {
		n := atomic.AddInt64(&smtDumpN, 1)
		os.WriteFile(fmt.Sprintf("%s/q%05d.smt2", smtDump, n), []byte(q), 0o644)
	}
	atomic.AddInt64(&statQueries, 1)
	if pr.b.mu != nil {
		// others may use the terms while this query is answered
		pr.b.mu.Unlock()
		defer pr.b.mu.Lock()
	}
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		atomic.AddInt64(&statSolverNs, int64(d))
		if slowQ > 0 && d > slowQ {
			n := atomic.AddInt64(&smtDumpN, 1)
			os.WriteFile(fmt.Sprintf("/tmp/slow%05d.smt2", n), []byte(q), 0o644)
			fmt.Fprintf(os.Stderr, "slow query %d: %v\n", n, d)
		}
	}()
	if _, err := io.WriteString(pr.in, q); err != nil {
		pr.dead = true
		return Unknown, nil
	}
	timer := time.AfterFunc(time.Duration(timeoutMs)*time.Millisecond+3*time.Second, func() {
		pr.dead = true
		pr.cmd.Process.Kill()
	})
	defer timer.Stop()
	res := Unknown
	for {
		line, err := pr.out.ReadString('\n')
		if err != nil {
			pr.dead = true
			return Unknown, nil
		}
		line = strings.TrimSpace(line)
		if line == "sat" {
			res = Sat
			break
		}
		if line == "unsat" {
			res = Unsat
			break
		}
		if line == "unknown" || line == "timeout" {
			break
		}
		if strings.HasPrefix(line, "(error") {
			if strings.Contains(line, "canceled") || strings.Contains(line, "max. memory") {
				pr.dead = true
				return Unknown, nil
			}
			fmt.Fprintf(os.Stderr, "gocv: solver error: %s\n", line)
			if smtErrDump != "" {
				os.WriteFile(smtErrDump, []byte(q), 0o644)
			}
			pr.dead = true
			return Unknown, nil
		}
	}
	var vals []string
	if res == Sat && wantModel != nil {
		io.WriteString(pr.in, mv)
		vals = readSexprs(pr.out, len(wantModel))
	}
	io.WriteString(pr.in, "(pop)\n")
	return res, vals
}

// readSexprs reads ((t v) (t v) ...) and returns the v's.
func readSexprs(r *bufio.Reader, n int) []string {
	depth := 0
	var sb strings.Builder
	inStr := false
	for {
		c, err := r.ReadByte()
		if err != nil {
			return nil
		}
		sb.WriteByte(c)
		if c == '"' {
			inStr = !inStr
		}
		if inStr {
			continue
		}
		if c == '|' {
			// quoted symbol
			for {
				c2, err := r.ReadByte()
				if err != nil {
					return nil
				}
				sb.WriteByte(c2)
				if c2 == '|' {
					break
				}
			}
			continue
		}
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	x, _ := parseSexpr(sb.String(), 0)
	var out []string
	for _, e := range x.kids {
		if len(e.kids) == 2 {
			out = append(out, e.kids[1].String())
		}
	}
	return out
}

type sexpr struct {
	atom string
	kids []*sexpr
	list bool
}

func (s *sexpr) String() string {
	if !s.list {
		return s.atom
	}
	var k []string
	for _, x := range s.kids {
		k = append(k, x.String())
	}
	return "(" + strings.Join(k, " ") + ")"
}
func parseSexpr(s string, i int) (*sexpr, int) {
	for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
		i++
	}
	if i >= len(s) {
		return &sexpr{}, i
	}
	if s[i] == '(' {
		r := &sexpr{list: true}
		i++
		for {
			for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
				i++
			}
			if i >= len(s) || s[i] == ')' {
				return r, i + 1
			}
			var k *sexpr
			k, i = parseSexpr(s, i)
			r.kids = append(r.kids, k)
		}
	}
	j := i
	if s[i] == '"' {
		j++
		for j < len(s) {
			if s[j] == '"' {
				if j+1 < len(s) && s[j+1] == '"' {
					j += 2
					continue
				}
				break
			}
			j++
		}
		j++
	} else if s[i] == '|' {
		j++
		for j < len(s) && s[j] != '|' {
			j++
		}
		j++
	} else {
		for j < len(s) && s[j] != ' ' && s[j] != '\n' && s[j] != ')' && s[j] != '(' {
			j++
		}
	}
	return &sexpr{atom: s[i:j]}, j
}

var (
	z3bin        = "z3-new"
	slowQ        time.Duration
	smtDump      string
	smtErrDump   = os.Getenv("GOCV_SMTERR")
	smtDumpN     int64
	statQueries  int64
	statSolverNs int64
)

// at most so many solver processes work at a time: their time limits are wall-clock limits
var solverSem = make(chan struct{}, 8)

// Solver: per-run pool of processes (one abstract-string, one native-string).
type Solver struct {
	b     *Bank
	procs [2]*Proc
	cache map[string]Result
}

func NewSolver(b *Bank) *Solver { return &Solver{b: b, cache: map[string]Result{}} }
func (s *Solver) Close() {
	for _, p := range s.procs {
		if p != nil {
			p.stop()
		}
	}
}
func (s *Solver) proc(native bool) *Proc {
	i := 0
	if native {
		i = 1
	}
	if s.procs[i] != nil && (s.procs[i].dead || s.procs[i].nq > 3000) {
		s.procs[i].stop()
		s.procs[i] = nil
	}
	if s.procs[i] == nil {
		s.procs[i] = startProc(s.b, native)
	}
	return s.procs[i]
}

func needsNative(terms []*Term) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OApp {
			switch t.name {
			case "str.sub", "str.at", "str.hassuffix", "str.hasprefix", "str.lt", "str.cat", "str.contains", "str.index":
				return true
			}
		}
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	for _, t := range terms {
		if w(t) {
			return true
		}
	}
	return false
}

func qkey(terms []*Term) string {
	ids := make([]int, 0, len(terms))
	for _, t := range terms {
		ids = append(ids, t.id)
	}
	sort.Ints(ids)
	var sb strings.Builder
	for _, i := range ids {
		fmt.Fprintf(&sb, "%d,", i)
	}
	return sb.String()
}

var statChecks = os.Getenv("GOCV_CHK") != ""
var lastRes Result

// Check decides satisfiability of the conjunction.
func (s *Solver) Check(terms []*Term, timeoutMs int) Result {
	// conditions on a bound variable cannot be asserted; leaving them out keeps Unsat valid
	for i, t := range terms {
		if t.bound {
			var cl []*Term
			for _, u := range terms[i:] {
				if !u.bound {
					cl = append(cl, u)
				}
			}
			if Result := s.Check(append(append([]*Term{}, terms[:i]...), cl...), timeoutMs); Result == Unsat {
				return Unsat
			}
			return Unknown
		}
	}
	for _, t := range terms {
		if t.op == OFalse {
			return Unsat
		}
	}
	if statChecks {
		t0 := time.Now()
		defer func() {
			fmt.Fprintf(os.Stderr, "CHK %d %v %d %v\n", timeoutMs, time.Since(t0).Milliseconds(), len(terms), lastRes)
		}()
	}
	k := qkey(terms)
	if r, ok := s.cache[k]; ok && r != Unknown {
		return r
	}
	nat := needsNative(terms)
	r, _ := s.proc(false).check(terms, timeoutMs, nil)
	if r == Sat && nat {
		// abstract strings over-approximate: confirm with native strings
		r2, _ := s.proc(true).check(terms, timeoutMs, nil)
		r = r2
	} else if r == Unknown && nat && timeoutMs >= 1000 {
		r, _ = s.proc(true).check(terms, timeoutMs, nil)
	}
	s.cache[k] = r
	lastRes = r
	return r
}

// Model evaluates terms in a model, if the conjunction is satisfiable.
func (s *Solver) Model(terms []*Term, vals []*Term, timeoutMs int) (Result, []string) {
	nat := needsNative(terms)
	return s.proc(nat).check(terms, timeoutMs, vals)
}

// ---------- standalone portfolio for hard obligations ----------

var portfolioSem = make(chan struct{}, 6)

type portfolioRes struct {
	r      Result
	solver string
}

// Portfolio runs several back ends on a standalone script.
func Portfolio(b *Bank, terms []*Term, timeout time.Duration) (Result, string) {
	type job struct {
		name string
		args []string
		nat  bool
		z3   bool
	}
	sec := int(timeout / time.Second)
	nat := needsNative(terms)
	jobs := []job{
		{"z3-5", []string{z3bin, fmt.Sprintf("-T:%d", sec), "-smt2", "-in"}, false, true},
		{"z3-5-nombqi", []string{z3bin, fmt.Sprintf("-T:%d", sec), "smt.mbqi=false", "smt.auto_config=false", "-smt2", "-in"}, false, true},
		{"z3-4.8", []string{"z3", fmt.Sprintf("-T:%d", sec), "-smt2", "-in"}, false, true},
		{"cvc5", []string{"cvc5", fmt.Sprintf("--tlimit=%d", sec*1000), "--lang=smt2"}, false, false},
	}
	if nat {
		jobs = append(jobs, job{"z3-5-native", []string{z3bin, fmt.Sprintf("-T:%d", sec), "-smt2", "-in"}, true, true},
			job{"cvc5-native", []string{"cvc5", fmt.Sprintf("--tlimit=%d", sec*1000), "--lang=smt2", "--strings-exp"}, true, false})
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	final := Unknown
	by := ""
	var cmds []*exec.Cmd
	scripts := map[bool]string{}
	for _, n := range []bool{false, true} {
		if n && !nat {
			continue
		}
		p := NewPrinter(b, n)
		as := p.asserts(terms)
		scripts[n] = p.flush() + as + "(check-sat)\n"
	}
	for _, j := range jobs {
		j := j
		wg.Add(1)
		go func() {
			defer wg.Done()
			portfolioSem <- struct{}{}
			defer func() { <-portfolioSem }()
			mu.Lock()
			if final != Unknown {
				mu.Unlock()
				return
			}
			pre := ""
			if !j.z3 {
				pre = "(set-logic ALL)\n"
			}
			c := exec.Command(j.args[0], j.args[1:]...)
			c.Stdin = strings.NewReader(pre + scripts[j.nat])
			cmds = append(cmds, c)
			mu.Unlock()
			t0 := time.Now()
			out, _ := c.Output()
			atomic.AddInt64(&statSolverNs, int64(time.Since(t0)))
			atomic.AddInt64(&statQueries, 1)
			s := strings.TrimSpace(string(out))
			if i := strings.LastIndexByte(s, '\n'); i >= 0 {
				s = strings.TrimSpace(s[i+1:])
			}
			r := Unknown
			switch s {
			case "unsat":
				r = Unsat
			case "sat":
				if !nat || j.nat {
					r = Sat
				}
			}
			if r != Unknown {
				mu.Lock()
				if final == Unknown {
					final = r
					by = j.name
					for _, o := range cmds {
						if o != c && o.Process != nil {
							o.Process.Kill()
						}
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return final, by
}
