//go:build go1.21

package stat

import (
	"math"
	"time"

	"github.com/BTBurke/monny/internal/vc"
	"github.com/BTBurke/monny/pkg/fsm"
	"github.com/BTBurke/monny/pkg/metric"
)

func isNum(f float64) bool { return !math.IsNaN(f) && !math.IsInf(f, 0) }

// ---- the machine ----

func known(s fsm.State) bool {
	return s == Reset || s == UCLInitial || s == TestingUCL || s == UCLTrip || s == LCLInitial || s == TestingLCL || s == LCLTrip
}

// split looks at each state by itself.
func split(s fsm.State) fsm.State {
	for _, k := range []fsm.State{Reset, UCLInitial, TestingUCL, UCLTrip, LCLInitial, TestingLCL} {
		if s == k {
			return k
		}
	}
	return LCLTrip
}

func edge(from, to fsm.State) bool {
	switch from {
	case Reset:
		return to == UCLInitial || to == LCLInitial
	case UCLInitial:
		return to == TestingUCL || to == Reset
	case TestingUCL:
		return to == UCLTrip || to == Reset
	case UCLTrip:
		return to == LCLInitial || to == Reset
	case LCLInitial:
		return to == TestingLCL || to == Reset
	case TestingLCL:
		return to == LCLTrip || to == Reset
	case LCLTrip:
		return to == Reset
	}
	return false
}

//vc:lemma prop=C32 expand=all grow=exact
func lNewMachine(initial, a, b fsm.State) {
	vc.Assume(func() bool { return known(a) })
	a = split(a)
	m, err := newMachine(initial)
	vc.Assert("created", func() bool { return err == nil && m != nil && m.State() == initial })
	vc.Assert("exactly the documented transitions", func() bool { return m.Allowable(a, b) == edge(a, b) })
}

// ---- any series and any distribution ----

// anySeries counts what is done to it; what it reports may be anything.
type anySeries struct {
	ops, kept, all, resets int
	last                   float64
	values                 []float64
}

func (s *anySeries) Record(o float64) {
	s.ops++
	s.kept++
	s.all++
	s.last = o
}
func (s *anySeries) Reset()            { s.ops++; s.kept = 0; s.resets++ }
func (s *anySeries) Values() []float64 { return s.values }
func (s *anySeries) Count() int        { return vc.UFInt("count", s.ops) }
func (s *anySeries) Capacity() int     { return vc.UFInt("capacity") }
func (s *anySeries) Name() string      { return "" }

// anyPDF: its numbers may be anything.
type anyPDF struct{}

func (anyPDF) Mean(obs []float64) float64                   { return vc.UFFloat("mean") }
func (anyPDF) Variance(obs []float64, mean float64) float64 { return vc.UFFloat("variance", mean) }
func (anyPDF) NewSeries() (metric.SeriesRecorder, error)    { return &anySeries{}, nil }
func (anyPDF) Transform(obs float64) float64                { return vc.UFFloat("transform", obs) }
func (anyPDF) Done()                                        {}
func (anyPDF) String() string                               { return "any" }
func (anyPDF) K() (float64, error) {
	if vc.UFBool("k fails") {
		return vc.UFFloat("k"), errK{}
	}
	return vc.UFFloat("k"), nil
}

type errK struct{}

func (errK) Error() string { return "no k" }

// specLimit: the limit on the given side of the mean; without a K it is some number on that side.
func specLimit(r, mean, variance, lambda, side float64) bool {
	k := vc.UFFloat("k")
	if vc.UFBool("k fails") {
		return isNum(r) && (r-mean)*side >= 0
	}
	return vc.EqFloat(r, mean+side*(k*math.Sqrt(lambda/(2-lambda)*variance)))
}

func same(a, b float64) bool { return a == b || a != a && b != b }

//vc:lemma prop=C32,C33,C34 noreplay expand=all grow=exact
func lRecord(e *TestStatistic, s *anySeries, state fsm.State, o float64) {
	vc.Assume(func() bool {
		return e != nil && s != nil && known(state) && s.ops >= 0 && s.ops < 1<<40 && s.kept >= 0 && s.kept < 1<<40 && s.all >= 0 && s.all < 1<<40 && s.resets >= 0 && s.resets < 1<<40
	})
	state = split(state)
	m, _ := newMachine(state)
	e.fsm, e.series, e.pdf = m, s, anyPDF{}
	v := vc.UFFloat("transform", o)
	current, limit, lambda := e.current, e.limit, e.lambda
	vc.Assume(func() bool { return isNum(current) && isNum(limit) && isNum(lambda) && 0 < lambda && lambda <= 1 })
	mean := vc.UFFloat("mean")
	variance := vc.UFFloat("variance", mean)
	vc.Assume(func() bool { return isNum(mean) && isNum(variance) && (isNum(vc.UFFloat("k")) || vc.UFBool("k fails")) })
	full := vc.UFInt("count", s.ops+1) >= vc.UFInt("capacity")
	some := vc.UFInt("count", s.ops+1) > 0
	ready := full && mean > 0 && variance > 0
	average := lambda*v + (1-lambda)*current
	ops, kept, all, resets := s.ops, s.kept, s.all, s.resets
	err := e.Record(o)
	now := e.State()
	vc.Assert("an undefined value is the only error", func() bool { return (err != nil) == !isNum(v) })
	vc.Assert("an undefined value changes nothing", func() bool {
		return isNum(v) || s.ops == ops && e.current == current && e.limit == limit && now == state
	})
	if err != nil {
		return
	}
	vc.Assert("recorded once", func() bool {
		return s.last == v && (resets == s.resets && s.all == all+1 && s.kept == kept+1 || s.resets == resets+1 && s.kept == 1)
	})
	vc.Assert("collection restarts only when forced to", func() bool { return (s.resets != resets) == (state == Reset && some) })
	switch state {
	case Reset:
		vc.Assert("restarts collecting", func() bool { return now == UCLInitial && e.current == current && e.limit == limit })
	case UCLInitial:
		vc.Assert("tests once a series is full", func() bool { return (now == TestingUCL) == ready && (now == UCLInitial) == !ready })
		vc.Assert("starts from the mean", func() bool { return !ready || e.current == mean })
		vc.Assert("upper limit", func() bool { return !ready || specLimit(e.limit, mean, variance, lambda, 1) })
		vc.Assert("otherwise unchanged", func() bool { return ready || e.current == current && e.limit == limit })
	case LCLInitial:
		vc.Assert("tests once a series is full", func() bool { return (now == TestingLCL) == ready && (now == LCLInitial) == !ready })
		vc.Assert("starts from the mean", func() bool { return !ready || e.current == mean })
		vc.Assert("lower limit", func() bool { return !ready || specLimit(e.limit, mean, variance, lambda, -1) })
		vc.Assert("otherwise unchanged", func() bool { return ready || e.current == current && e.limit == limit })
	case TestingUCL:
		vc.Assert("weighted average", func() bool { return vc.EqFloat(e.current, average) && e.limit == limit })
		vc.Assert("alarm exactly at or above the limit", func() bool { return (now == UCLTrip) == (average >= limit) && (now == TestingUCL) == (average < limit) })
	case TestingLCL:
		vc.Assert("weighted average", func() bool { return vc.EqFloat(e.current, average) && e.limit == limit })
		vc.Assert("alarm exactly at or below the limit", func() bool { return (now == LCLTrip) == (average <= limit) && (now == TestingLCL) == (average > limit) })
	default:
		vc.Assert("an alarm stays on", func() bool { return now == state && e.current == current && e.limit == limit })
	}
	vc.Assert("alarmed", func() bool { return e.HasAlarmed() == (now == UCLTrip || now == LCLTrip) })
	vc.Assert("always a number", func() bool { return isNum(e.limit) && isNum(e.current) })
}

//vc:lemma prop=C32 noreplay expand=all grow=exact
func lTransition(e *TestStatistic, s *anySeries, state, to fsm.State, reset bool) {
	vc.Assume(func() bool { return e != nil && s != nil && known(state) && s.resets >= 0 && s.resets < 1<<40 })
	state = split(state)
	m, _ := newMachine(state)
	e.fsm, e.series, e.pdf = m, s, anyPDF{}
	resets, all := s.resets, s.all
	err := e.Transition(to, reset)
	vc.Assert("along documented transitions", func() bool { return (err == nil) == edge(state, to) })
	vc.Assert("moved or not", func() bool { return (err != nil || e.State() == to) && (err == nil || e.State() == state) })
	vc.Assert("series", func() bool { return (s.resets == resets+1) == reset && (s.resets == resets) == !reset && s.all == all })
}

//vc:contract (*TestStatistic).HasAlarmed prop=C32
func cHasAlarmed(e *TestStatistic) {
	vc.Requires(func() bool { return e != nil && e.fsm != nil })
	r := e.HasAlarmed()
	vc.Ensures("in an alarm state", func() bool { return r == (e.fsm.State() == UCLTrip || e.fsm.State() == LCLTrip) })
}

// ---- distributions ----

//vc:spec
func specSum(obs vc.Seq[float64], n int) float64 {
	if n <= 0 {
		return 0
	}
	return specSum(obs, n-1) + obs.At(n-1)
}

//vc:spec
func specSquares(obs vc.Seq[float64], mean float64, n int) float64 {
	if n <= 0 {
		return 0
	}
	return specSquares(obs, mean, n-1) + (obs.At(n-1)-mean)*(obs.At(n-1)-mean)
}

func specNums(obs []float64) bool {
	return vc.Forall(0, len(obs), func(i int) bool { return isNum(obs[i]) })
}

//vc:contract meanNormal prop=C34
func cMeanNormal(values []float64) {
	vc.Requires(func() bool { return specNums(values) })
	old := vc.Snap(values)
	vc.Invariant("sum so far", func(i int, s float64) bool { return isNum(s) && vc.EqFloat(s, specSum(old, i)) })
	r := meanNormal(values)
	vc.Ensures("zero for none", func() bool { return vc.Imp(len(values) == 0, r == 0) })
	vc.Ensures("sum over number", func() bool {
		return isNum(r) && (len(values) == 0 || vc.EqFloat(r*float64(len(values)), specSum(old, len(values))))
	})
}

//vc:contract varianceNormal prop=C34
func cVarianceNormal(values []float64, mean float64) {
	vc.Requires(func() bool { return specNums(values) && isNum(mean) && len(values) >= 2 })
	old := vc.Snap(values)
	vc.Invariant("sum so far", func(i int, s float64) bool { return isNum(s) && vc.EqFloat(s, specSquares(old, mean, i)) })
	r := varianceNormal(values, mean)
	vc.Ensures("squares over number less one", func() bool {
		return isNum(r) && vc.EqFloat(r*float64(len(values)-1), specSquares(old, mean, len(values)))
	})
}

//vc:contract meanPoisson prop=C34
func cMeanPoisson(values []float64) {
	vc.Requires(func() bool { return specNums(values) })
	old := vc.Snap(values)
	vc.Invariant("sum so far", func(i int, s float64) bool { return isNum(s) && vc.EqFloat(s, specSum(old, i)) })
	r := meanPoisson(values)
	vc.Ensures("zero for none", func() bool { return vc.Imp(len(values) == 0, r == 0) })
	vc.Ensures("sum over number", func() bool {
		return isNum(r) && (len(values) == 0 || vc.EqFloat(r*float64(len(values)), specSum(old, len(values))))
	})
}

//vc:contract variancePoisson prop=C34
func cVariancePoisson(values []float64, mean float64) {
	r := variancePoisson(values, mean)
	vc.Ensures("the mean", func() bool { return same(r, mean) })
}

// What the distributions' methods give is what the functions above give.
//
//vc:lemma prop=C34,C33
func lLogNormal(p *LogNormal, values []float64, mean, o float64) {
	vc.Assume(func() bool { return p != nil && specNums(values) && len(values) >= 2 && isNum(mean) })
	old := vc.Snap(values)
	n := len(values)
	m, v, t := p.Mean(values), p.Variance(values, mean), p.Transform(o)
	vc.Assert("mean", func() bool { return vc.EqFloat(m*float64(n), specSum(old, n)) })
	vc.Assert("variance", func() bool { return vc.EqFloat(v*float64(n-1), specSquares(old, mean, n)) })
	vc.Assert("logarithm", func() bool { return same(t, math.Log(o)) })
	vc.Assert("undefined unless positive", func() bool { return isNum(t) == (isNum(o) && o > 0) })
}

//vc:lemma prop=C34,C33
func lPoisson(p *Poisson, values []float64, mean, o float64) {
	vc.Assume(func() bool { return p != nil && specNums(values) && len(values) >= 1 })
	old := vc.Snap(values)
	n := len(values)
	m, v, t := p.Mean(values), p.Variance(values, mean), p.Transform(o)
	vc.Assert("mean", func() bool { return vc.EqFloat(m*float64(n), specSum(old, n)) })
	vc.Assert("variance", func() bool { return same(v, mean) })
	vc.Assert("as observed", func() bool { return same(t, o) })
}

//vc:contract calculateLimit prop=C34 noreplay
func cCalculateLimit(mean, variance, lambda float64, pdf PDF, direction int) {
	vc.Requires(func() bool {
		return isNum(mean) && isNum(variance) && variance >= 0 && isNum(lambda) && 0 < lambda && lambda <= 1 &&
			vc.IsType[anyPDF](pdf) && (isNum(vc.UFFloat("k")) || vc.UFBool("k fails")) && (direction == 1 || direction == -1)
	})
	r := calculateLimit(mean, variance, lambda, pdf, direction)
	vc.Ensures("mean and deviation", func() bool { return specLimit(r, mean, variance, lambda, float64(direction)) })
	vc.Ensures("a number", func() bool { return isNum(r) })
}

// ---- K ----

//vc:contract (KErrorRate).CalculateLN prop=C35
func cErrorRateLN(k KErrorRate) {
	r, err := k.CalculateLN()
	v := (math.Log(float64(k)) - 17.633792324895346) / -3.9288603662670885
	vc.Ensures("calibrated relation", func() bool { return !isNum(v) || err == nil && vc.EqFloat(r, v) })
	vc.Ensures("otherwise an error and a safe default", func() bool { return isNum(v) || err != nil && isNum(r) && r > 0 })
}

//vc:contract (KErrorRate).CalculateP prop=C35
func cErrorRateP(k KErrorRate) {
	r, err := k.CalculateP()
	v := (math.Log(float64(k)) - 19.19575770635499) / -4.069410457800821
	vc.Ensures("calibrated relation", func() bool { return !isNum(v) || err == nil && vc.EqFloat(r, v) })
	vc.Ensures("otherwise an error and a safe default", func() bool { return isNum(v) || err != nil && isNum(r) && r > 0 })
}

//vc:lemma prop=C35
func lFixed(k KFixed) {
	a, e1 := k.CalculateLN()
	b, e2 := k.CalculateP()
	vc.Assert("unchanged for both", func() bool { return e1 == nil && e2 == nil && same(a, float64(k)) && same(b, float64(k)) })
}

// The distributions ask the K they were made with, each for its own relation.
//
//vc:lemma prop=C35,C34
func lWhichK(rate KErrorRate, fixed KFixed, cap int) {
	ln, p := NewLogNormal(cap, rate), NewPoisson(cap, 0, metric.SampleSum, rate)
	a, e1 := ln.K()
	b, e2 := rate.CalculateLN()
	c, e3 := p.K()
	d, e4 := rate.CalculateP()
	vc.Assert("log-normal", func() bool { return (e1 != nil || vc.EqFloat(a, b)) && (e1 == nil) == (e2 == nil) })
	vc.Assert("poisson", func() bool { return (e3 != nil || vc.EqFloat(c, d)) && (e3 == nil) == (e4 == nil) })
	f, e5 := NewLogNormal(cap, fixed).K()
	vc.Assert("fixed", func() bool { return e5 == nil && same(f, float64(fixed)) })
}

// ---- estimators and composite tests ----

//vc:lemma prop=C32,C36 expand=all grow=exact
func lNewEWMA(name string, lambda float64) {
	e, err := NewEWMAStatistic(name, lambda, anyPDF{})
	vc.Assert("created", func() bool { return err == nil && e != nil })
	vc.Assert("collects first", func() bool { return e.State() == UCLInitial && !e.HasAlarmed() })
	vc.Assert("as asked for", func() bool { return e.Name() == name && same(e.lambda, lambda) && vc.IsType[anyPDF](e.pdf) })
	vc.Assert("with the distribution's series", func() bool { return vc.IsType[*anySeries](e.series) && e.Value() == 0 && e.Limit() == 0 })
}

type failPDF struct{ anyPDF }

func (failPDF) NewSeries() (metric.SeriesRecorder, error) { return nil, errK{} }

//vc:lemma prop=C32,C36 expand=all grow=exact
func lNewEWMAFails(name string, lambda float64) {
	e, err := NewEWMAStatistic(name, lambda, failPDF{})
	vc.Assert("no series, no statistic", func() bool { return err != nil && e == nil })
}

var recN int       // statistics called
var recOK bool     // in order, with the observation
var recFailed bool // one of them failed
var recSub []*TestStatistic
var recObs float64

//vc:extern (*TestStatistic).Record when=record
func stubRecord(e *TestStatistic, o float64) error {
	recOK = recOK && recN < len(recSub) && recSub[recN] == e && same(o, recObs)
	recN++
	if err := vc.Nondet[error]("record"); err != nil {
		recFailed = true
		return err
	}
	return nil
}

//vc:contract (*Test).Record prop=C36 with=record
func cTestRecord(t *Test, obs float64) {
	vc.Requires(func() bool {
		return t != nil && recN == 0 && recOK && !recFailed && vc.Same(recSub, t.sub) && same(recObs, obs)
	})
	vc.Modifies(&recN, &recOK, &recFailed)
	vc.Invariant("so far", func(i int) bool { return recOK && recN == i })
	vc.Invariant("failed", func() bool { return !recFailed })
	err := t.Record(obs)
	vc.Ensures("to each in order, once", func() bool { return recOK && (recFailed || recN == len(t.sub)) })
	vc.Ensures("a failure is reported", func() bool { return (err != nil) == recFailed })
}

var movN int
var movOK, movFailed bool
var movTo fsm.State
var movReset bool

//vc:extern (*TestStatistic).Transition when=move
func stubTransition(e *TestStatistic, to fsm.State, reset bool) error {
	movOK = movOK && movN < len(recSub) && recSub[movN] == e && to == movTo && reset == movReset
	movN++
	if err := vc.Nondet[error]("move"); err != nil {
		movFailed = true
		return err
	}
	return nil
}

//vc:contract (*Test).Transition prop=C36 with=move
func cTestTransition(t *Test, to fsm.State, reset bool) {
	vc.Requires(func() bool {
		return t != nil && movN == 0 && movOK && !movFailed && vc.Same(recSub, t.sub) && movTo == to && movReset == reset
	})
	vc.Modifies(&movN, &movOK, &movFailed)
	vc.Invariant("so far", func(i int) bool { return movOK && movN == i })
	vc.Invariant("failed", func() bool { return !movFailed })
	err := t.Transition(to, reset)
	vc.Ensures("to each in order, once", func() bool { return movOK && (movFailed || movN == len(t.sub)) })
	vc.Ensures("a failure is reported", func() bool { return (err != nil) == movFailed })
}

var doneN int
var doneOK bool

//vc:extern (*TestStatistic).Done when=done
func stubDone(e *TestStatistic) {
	doneOK = doneOK && doneN < len(recSub) && recSub[doneN] == e
	doneN++
}

//vc:contract (*Test).Done prop=C36 with=done
func cTestDone(t *Test) {
	vc.Requires(func() bool { return t != nil && doneN == 0 && doneOK && vc.Same(recSub, t.sub) })
	vc.Modifies(&doneN, &doneOK)
	vc.Invariant("so far", func(i int) bool { return doneOK && doneN == i })
	t.Done()
	vc.Ensures("each in order, once", func() bool { return doneOK && doneN == len(t.sub) })
}

func usable(t *Test) bool {
	return t != nil && vc.Forall(0, len(t.sub), func(i int) bool { return t.sub[i] != nil && t.sub[i].fsm != nil })
}

func alarmed(e *TestStatistic) bool { return e.fsm.State() == UCLTrip || e.fsm.State() == LCLTrip }

//vc:contract (*Test).HasAlarmed prop=C36
func cTestHasAlarmed(t *Test) {
	vc.Requires(func() bool { return usable(t) })
	vc.Invariant("none yet", func(i int) bool { return vc.Forall(0, i, func(j int) bool { return !alarmed(t.sub[j]) }) })
	r := t.HasAlarmed()
	vc.Ensures("exactly when one has", func() bool { return r == vc.Exists(0, len(t.sub), func(i int) bool { return alarmed(t.sub[i]) }) })
}

//vc:contract (*Test).State prop=C36
func cTestState(t *Test) {
	vc.Requires(func() bool { return usable(t) })
	vc.Invariant("one each", func(i int, out []fsm.State) bool {
		return len(out) == i && vc.Forall(0, i, func(j int) bool { return out[j] == t.sub[j].fsm.State() })
	})
	r := t.State()
	vc.Ensures("one each in order", func() bool {
		return len(r) == len(t.sub) && vc.Forall(0, len(r), func(j int) bool { return r[j] == t.sub[j].fsm.State() })
	})
}

//vc:lemma prop=C36
func lWithStatistic(e *TestStatistic, t *Test) {
	vc.Assume(func() bool { return t != nil })
	old := vc.Snap(t.sub)
	err := WithStatistic(e)(t)
	vc.Assert("added last", func() bool {
		n := old.Len()
		return err == nil && len(t.sub) == n+1 && t.sub[n] == e && vc.Forall(0, n, func(i int) bool { return t.sub[i] == old.At(i) })
	})
}

var optN int
var optOK, optFailed bool
var optT *Test
var optAdded int

// anyOption stands for any option; some add a statistic, some fail.
func anyOption(id int, t *Test) error {
	optOK = optOK && id == vc.UFInt("option", optN) && t != nil && (optN == 0 || t == optT) && !optFailed
	optT = t
	optN++
	if vc.UFBool("adds", id) {
		t.sub = append(t.sub, customStat)
		optAdded++
	}
	if vc.UFBool("fails", id) {
		optFailed = true
		return errK{}
	}
	return nil
}

var customStat *TestStatistic

func isDefault(e *TestStatistic, name string, lambda float64) bool {
	return e != nil && e.Name() == name && e.lambda == lambda && e.State() == UCLInitial
}

func isLogNormal(pdf PDF) bool {
	p, ok := pdf.(*LogNormal)
	return ok && p != nil && p.capacity == 50 && p.k == K(KErrorRate(0.05))
}

func isPoisson(pdf PDF) bool {
	p, ok := pdf.(*Poisson)
	return ok && p != nil && p.capacity == 50 && p.window == 15*time.Second && p.k == K(KErrorRate(0.05))
}

func optionsReady(opts []TestOption) bool {
	return optN == 0 && optOK && !optFailed && optAdded == 0 && customStat != nil && vc.Forall(0, len(opts), func(i int) bool {
		return opts[i] != nil && vc.FnID(opts[i]) == vc.UFInt("option", i)
	})
}

//vc:contract NewLogNormalTest prop=C36 family=anyOption noreplay expand=all grow=exact
func cNewLogNormalTest(name metric.Name, opts []TestOption) {
	vc.Requires(func() bool { return optionsReady(opts) })
	vc.Invariant("in order", func(i int, e *Test) bool { return optN == i && optOK && (i == 0 || optT == e) && !optFailed })
	vc.Invariant("added", func(e *Test) bool {
		return optAdded >= 0 && len(e.sub) == optAdded && vc.Forall(0, len(e.sub), func(j int) bool { return e.sub[j] == customStat })
	})
	vc.Modifies(&optN, &optOK, &optFailed, &optT, &optAdded)
	t, err := NewLogNormalTest(name, opts...)
	vc.Ensures("fails exactly with an option", func() bool { return (err != nil) == optFailed && (t == nil) == (err != nil) })
	vc.Ensures("options in order, once", func() bool { return optOK && (err != nil || optN == len(opts) && (optN == 0 || t == optT)) })
	vc.Ensures("named", func() bool { return err != nil || vc.Same(t.name, name) })
	vc.Ensures("only the custom statistics", func() bool {
		return err != nil || optAdded == 0 || len(t.sub) == optAdded && vc.Forall(0, len(t.sub), func(j int) bool { return t.sub[j] == customStat })
	})
	vc.Ensures("or the two defaults", func() bool {
		return err != nil || optAdded > 0 || len(t.sub) == 2 && isDefault(t.sub[0], "ewma", .25) && isDefault(t.sub[1], "shewart", 1) &&
			isLogNormal(t.sub[0].pdf) && isLogNormal(t.sub[1].pdf) && t.sub[0].series != t.sub[1].series
	})
}

//vc:contract NewPoissonTest prop=C36 family=anyOption noreplay expand=all grow=exact
func cNewPoissonTest(name metric.Name, opts []TestOption) {
	vc.Requires(func() bool { return optionsReady(opts) })
	vc.Invariant("in order", func(i int, e *Test) bool { return optN == i && optOK && (i == 0 || optT == e) && !optFailed })
	vc.Invariant("added", func(e *Test) bool {
		return optAdded >= 0 && len(e.sub) == optAdded && vc.Forall(0, len(e.sub), func(j int) bool { return e.sub[j] == customStat })
	})
	vc.Modifies(&optN, &optOK, &optFailed, &optT, &optAdded)
	t, err := NewPoissonTest(name, opts...)
	vc.Ensures("fails exactly with an option", func() bool { return (err != nil) == optFailed && (t == nil) == (err != nil) })
	vc.Ensures("options in order, once", func() bool { return optOK && (err != nil || optN == len(opts) && (optN == 0 || t == optT)) })
	vc.Ensures("named", func() bool { return err != nil || vc.Same(t.name, name) })
	vc.Ensures("only the custom statistics", func() bool {
		return err != nil || optAdded == 0 || len(t.sub) == optAdded && vc.Forall(0, len(t.sub), func(j int) bool { return t.sub[j] == customStat })
	})
	vc.Ensures("or the two defaults", func() bool {
		return err != nil || optAdded > 0 || len(t.sub) == 2 && isDefault(t.sub[0], "ewma", .25) && isDefault(t.sub[1], "shewart", 1) &&
			isPoisson(t.sub[0].pdf) && isPoisson(t.sub[1].pdf) && t.sub[0].series != t.sub[1].series
	})
}

func current(t *Test, i int) string {
	return metric.Rendered(t.name, t.sub[i].name, "estimator", "current")
}
func limit(t *Test, i int) string {
	return metric.Rendered(t.name, t.sub[i].name, "estimator", "limit")
}

//vc:contract (*Test).Metric prop=C36 with=names
func cTestMetric(t *Test, p int) {
	vc.Requires(func() bool {
		return t != nil && vc.Forall(0, len(t.sub), func(i int) bool { return t.sub[i] != nil }) && 0 <= p && p < len(t.sub)
	})
	vc.Requires(func() bool { // the statistics have different names, and different names render differently
		return vc.Forall(0, len(t.sub), func(i int) bool {
			return i == p || current(t, i) != current(t, p) && limit(t, i) != limit(t, p)
		}) && vc.Forall(0, len(t.sub), func(i int) bool { return current(t, i) != limit(t, p) && limit(t, i) != current(t, p) })
	})
	vc.Invariant("its value so far", func(i int, out map[string]float64) bool {
		v, ok := out[current(t, p)]
		return i <= p || ok && same(v, t.sub[p].current)
	})
	vc.Invariant("its limit so far", func(i int, out map[string]float64) bool {
		v, ok := out[limit(t, p)]
		return i <= p || ok && same(v, t.sub[p].limit)
	})
	r := t.Metric()
	vc.Ensures("current value under its own name", func() bool { v, ok := r[current(t, p)]; return ok && same(v, t.sub[p].current) })
	vc.Ensures("limit under its own name", func() bool { v, ok := r[limit(t, p)]; return ok && same(v, t.sub[p].limit) })
	vc.Ensures("a map of their own", func() bool { return vc.Fresh(r) })
}
