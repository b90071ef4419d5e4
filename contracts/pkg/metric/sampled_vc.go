//go:build go1.21

package metric

import (
	"math"
	"time"

	"github.com/BTBurke/monny/internal/vc"
)

func isNum(f float64) bool { return !math.IsNaN(f) && !math.IsInf(f, 0) }

func specNums(obs []float64) bool {
	return vc.Forall(0, len(obs), func(i int) bool { return isNum(obs[i]) })
}

//vc:spec
func specSum(obs vc.Seq[float64], n int) float64 {
	if n <= 0 {
		return 0
	}
	return specSum(obs, n-1) + obs.At(n-1)
}

//vc:contract SampleSum prop=C27
func cSampleSum(obs []float64) {
	vc.Requires(func() bool { return specNums(obs) })
	old := vc.Snap(obs)
	vc.Invariant("sum so far", func(i int, s float64) bool { return isNum(s) && vc.EqFloat(s, specSum(old, i)) })
	r := SampleSum(obs)
	vc.Ensures("sum", func() bool { return isNum(r) && vc.EqFloat(r, specSum(old, len(obs))) })
}

//vc:contract SampleAverage prop=C27
func cSampleAverage(obs []float64) {
	vc.Requires(func() bool { return specNums(obs) })
	old := vc.Snap(obs)
	vc.Invariant("sum so far", func(i int, s float64) bool { return isNum(s) && vc.EqFloat(s, specSum(old, i)) })
	r := SampleAverage(obs)
	vc.Ensures("zero for none", func() bool { return vc.Imp(len(obs) == 0, r == 0) })
	vc.Ensures("sum over number", func() bool {
		return len(obs) == 0 || vc.EqFloat(r*float64(len(obs)), specSum(old, len(obs)))
	})
}

//vc:contract SampleMin prop=C27
func cSampleMin(obs []float64) {
	vc.Requires(func() bool { return specNums(obs) })
	vc.Invariant("no greater", func(i int, m float64) bool {
		return isNum(m) && vc.Forall(0, i, func(k int) bool { return m <= obs[k] })
	})
	vc.Invariant("one of them", func(m float64) bool { return vc.Exists(0, len(obs), func(k int) bool { return m == obs[k] }) })
	r := SampleMin(obs)
	vc.Ensures("zero for none", func() bool { return vc.Imp(len(obs) == 0, r == 0) })
	vc.Ensures("no greater than any", func() bool { return vc.Forall(0, len(obs), func(k int) bool { return r <= obs[k] }) })
	vc.Ensures("one of them", func() bool {
		return vc.Imp(len(obs) > 0, vc.Exists(0, len(obs), func(k int) bool { return r == obs[k] }))
	})
}

//vc:contract SampleMax prop=C27
func cSampleMax(obs []float64) {
	vc.Requires(func() bool { return specNums(obs) })
	vc.Invariant("no less", func(i int, m float64) bool {
		return isNum(m) && vc.Forall(0, i, func(k int) bool { return m >= obs[k] })
	})
	vc.Invariant("one of them", func(m float64) bool { return vc.Exists(0, len(obs), func(k int) bool { return m == obs[k] }) })
	r := SampleMax(obs)
	vc.Ensures("zero for none", func() bool { return vc.Imp(len(obs) == 0, r == 0) })
	vc.Ensures("no less than any", func() bool { return vc.Forall(0, len(obs), func(k int) bool { return r >= obs[k] }) })
	vc.Ensures("one of them", func() bool {
		return vc.Imp(len(obs) > 0, vc.Exists(0, len(obs), func(k int) bool { return r == obs[k] }))
	})
}

// ---- sampling ----

var aggN int
var aggObs []float64

// aggCall stands for any transform.
func aggCall(id int, obs []float64) float64 {
	aggN++
	aggObs = obs
	return vc.UFFloat("aggregate", id)
}

func specNoOptions() bool { return optN == 0 && optOrder && optStart && !optFail }

// sampledInv: a sampled series in use.
func sampledInv(ss *SampledSeries) bool {
	return ss != nil && seriesInv(ss.s) && ss.s.count < 1<<52-2 && vc.NoAlias(ss.obs, ss.s.values)
}

//vc:lemma prop=C26,C30 family=aggCall noreplay
func lSampleWindow(cap int, window time.Duration, agg func([]float64) float64, s *Series, obs []float64, tick bool) {
	vc.Assume(func() bool {
		return cap > 0 && cap < 1<<32 && window > 0 && seriesInv(s) && s.count < 1<<52-2 && vc.NoAlias(obs, s.values) && agg != nil && aggN == 0 && specNoOptions()
	})
	n, c := len(s.values), s.count
	old := vc.Snap(s.values)
	vc.HoldPending()
	ss, stop, err := NewSampledSeries(cap, window, agg)
	vc.Assert("sampling", func() bool { return err == nil && ss != nil && stop != nil && vc.Unlocked(&ss.mu) })
	vc.Assert("nothing recorded before the first window ends", func() bool {
		return ss.s.count == 0 && len(ss.obs) == 0 && len(ss.s.values) == cap && ss.direct == false && vc.Pending() == 1
	})
	ticks := make(chan time.Time, 1)
	vc.Local(ticks)
	ss.t.C = ticks
	ss.s, ss.obs = s, obs
	vc.Guarded(&ss.mu, &ss.obs, ss.s, ss.s.values)
	if tick {
		ticks <- time.Time{}
	}
	fired := func() bool { return tick && vc.ChanLen(ticks) == 0 }
	vc.Invariant("nothing before", func() bool {
		return fired() || aggN == 0 && s.count == c && vc.Same(ss.obs, obs)
	})
	vc.Invariant("nothing recorded before", func() bool {
		return fired() || vc.Forall(0, n, func(i int) bool { return sameF(s.values[i], old.At(i)) })
	})
	vc.Invariant("one record", func() bool { return !fired() || s.count == c+1 && len(ss.obs) == 0 })
	vc.Invariant("the aggregate", func() bool {
		return !fired() || len(obs) == 0 || aggN == 1 && vc.Same(aggObs, obs) && sameF(s.values[c%n], vc.UFFloat("aggregate", vc.FnID(agg)))
	})
	vc.Invariant("or zero", func() bool { return !fired() || len(obs) > 0 || aggN == 0 && s.values[c%n] == 0 })
	vc.Invariant("rest", func() bool {
		return vc.Forall(0, n, func(i int) bool { return i == c%n || sameF(s.values[i], old.At(i)) })
	})
	vc.Invariant("in use", func() bool { return seriesInv(s) && ss.s == s && len(s.values) == n && vc.ChanLen(ticks) <= 1 })
	stop()
	left := vc.ChanLen(ticks) == 1
	vc.Assert("stopped", func() bool { return vc.Pending() == 0 && vc.Unlocked(&ss.mu) })
	vc.Assert("nothing without a window's end", func() bool {
		return vc.Imp(!tick || left, aggN == 0 && s.count == c && vc.Same(ss.obs, obs) && vc.Forall(0, n, func(i int) bool { return sameF(s.values[i], old.At(i)) }))
	})
	vc.Assert("one record per window", func() bool { return vc.Imp(tick && !left, s.count == c+1 && len(ss.obs) == 0 && seriesInv(s)) })
	vc.Assert("the aggregate of the window's observations", func() bool {
		return vc.Imp(tick && !left && len(obs) > 0, aggN == 1 && vc.Same(aggObs, obs) && sameF(s.values[c%n], vc.UFFloat("aggregate", vc.FnID(agg))))
	})
	vc.Assert("zero for an empty window", func() bool {
		return vc.Imp(tick && !left && len(obs) == 0, aggN == 0 && s.values[c%n] == 0)
	})
	vc.Assert("the others kept", func() bool {
		return vc.Forall(0, n, func(i int) bool { return i == c%n || sameF(s.values[i], old.At(i)) })
	})
}

//vc:lemma prop=C26
func lSampleDirect(cap int, window time.Duration, agg func([]float64) float64, p float64) {
	vc.Assume(func() bool { return cap > 0 && cap < 1<<32 && window <= 0 && specNoOptions() })
	ss, stop, err := NewSampledSeries(cap, window, agg)
	vc.Assert("made", func() bool { return err == nil && ss != nil && stop != nil })
	vc.Assert("empty", func() bool { return ss.Count() == 0 && ss.Capacity() == cap })
	ss.Record(p)
	vc.Assert("recorded at once", func() bool { return ss.s.count == 1 && sameF(ss.s.values[0], p) })
	stop()
}

//vc:lemma prop=C26
func lSampleCapacity(cap int, window time.Duration, agg func([]float64) float64) {
	vc.Assume(func() bool { return cap <= 0 && specNoOptions() })
	vc.HoldPending()
	ss, _, err := NewSampledSeries(cap, window, agg)
	vc.Assert("a capacity below one is rejected", func() bool { return err != nil && ss == nil && vc.Pending() == 0 })
}

//vc:contract (*SampledSeries).Record prop=C26,C30
func cSampledRecord(ss *SampledSeries, p float64) {
	vc.Requires(func() bool { return sampledInv(ss) && vc.Unlocked(&ss.mu) })
	vc.Guarded(&ss.mu, ss, ss.s, ss.s.values)
	s, obs, direct := ss.s, ss.obs, ss.direct
	n, c := len(s.values), s.count
	oldObs := vc.Snap(obs)
	old := vc.Snap(s.values)
	vc.Modifies(&ss.obs, &s.count)
	vc.ModifiesElems(s.values, obs)
	ss.Record(p)
	vc.Ensures("released", func() bool { return vc.Unlocked(&ss.mu) })
	vc.Ensures("with a window: joins the window's observations", func() bool {
		return direct || len(ss.obs) == oldObs.Len()+1 && sameF(ss.obs[oldObs.Len()], p) &&
			vc.Forall(0, oldObs.Len(), func(i int) bool { return sameF(ss.obs[i], oldObs.At(i)) })
	})
	vc.Ensures("with a window: not yet recorded", func() bool {
		return direct || s.count == c && vc.Forall(0, n, func(i int) bool { return sameF(s.values[i], old.At(i)) })
	})
	vc.Ensures("without: recorded at once", func() bool {
		return !direct || s.count == c+1 && sameF(s.values[c%n], p) &&
			vc.Forall(0, n, func(i int) bool { return i == c%n || sameF(s.values[i], old.At(i)) })
	})
	vc.Ensures("series in use", func() bool { return seriesInv(s) })
}

//vc:contract (*SampledSeries).Reset prop=C26,C30
func cSampledReset(ss *SampledSeries) {
	vc.Requires(func() bool { return sampledInv(ss) && vc.Unlocked(&ss.mu) })
	vc.Guarded(&ss.mu, ss, ss.s, ss.s.values)
	s := ss.s
	vc.Modifies(&ss.obs, &s.count)
	vc.ModifiesElems(s.values)
	ss.Reset()
	vc.Ensures("released", func() bool { return vc.Unlocked(&ss.mu) })
	vc.Ensures("starts afresh", func() bool { return len(ss.obs) == 0 && s.count == 0 && seriesInv(s) })
}

//vc:contract (*SampledSeries).Capacity prop=C26,C30
func cSampledCapacity(ss *SampledSeries) {
	vc.Requires(func() bool { return sampledInv(ss) && vc.Unlocked(&ss.mu) })
	vc.Guarded(&ss.mu, ss, ss.s, ss.s.values)
	r := ss.Capacity()
	vc.Ensures("released", func() bool { return vc.Unlocked(&ss.mu) })
	vc.Ensures("of the series", func() bool { return r == len(ss.s.values) })
}

//vc:contract (*SampledSeries).Count prop=C26,C30
func cSampledCount(ss *SampledSeries) {
	vc.Requires(func() bool { return sampledInv(ss) && vc.Unlocked(&ss.mu) })
	vc.Guarded(&ss.mu, ss, ss.s, ss.s.values)
	r := ss.Count()
	vc.Ensures("released", func() bool { return vc.Unlocked(&ss.mu) })
	vc.Ensures("of the series", func() bool { return r == ss.s.count })
}

//vc:contract (*SampledSeries).Values prop=C26,C30
func cSampledValues(ss *SampledSeries) {
	vc.Requires(func() bool { return sampledInv(ss) && vc.Unlocked(&ss.mu) })
	vc.Guarded(&ss.mu, ss, ss.s, ss.s.values)
	r := ss.Values()
	vc.Ensures("released", func() bool { return vc.Unlocked(&ss.mu) })
	vc.Ensures("of the series", func() bool {
		return len(r) == len(ss.s.values) && vc.Forall(0, len(r), func(j int) bool { return sameF(r[j], seriesAt(ss.s, j)) }) && vc.Fresh(r)
	})
}
