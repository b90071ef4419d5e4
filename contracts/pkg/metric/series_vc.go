//go:build go1.21

package metric

import (
	"time"

	"github.com/BTBurke/monny/internal/vc"
)

// A series in use: the positions not yet recorded to are zero.
func seriesInv(s *Series) bool {
	return s != nil && s.count >= 0 && s.count < 1<<52 && len(s.values) > 0 &&
		vc.Forall(0, len(s.values), func(i int) bool { return vc.Imp(i >= s.count, s.values[i] == 0) })
}

// seriesAt is what the series reports at position j, oldest first.
func seriesAt(s *Series, j int) float64 {
	n := len(s.values)
	if s.count < n {
		return s.values[j]
	}
	p := s.count%n + j
	if p >= n {
		p -= n
	}
	return s.values[p]
}

//vc:contract (*Series).nextIndex prop=C25
func cNextIndex(s *Series) {
	vc.Requires(func() bool { return s != nil && s.count >= 0 && s.count < 1<<52 })
	r := s.nextIndex()
	vc.Ensures("next position", func() bool { return vc.Imp(len(s.values) > 0, r == s.count%specMax1(len(s.values))) })
	vc.Ensures("in range", func() bool { return r >= 0 && (r < len(s.values) || r == 0) })
}

func specMax1(n int) int {
	if n < 1 {
		return 1
	}
	return n
}

//vc:contract (*Series).Record prop=C25
func cRecord(s *Series, p float64) {
	vc.Requires(func() bool { return seriesInv(s) && s.count < 1<<52-1 })
	n, c := len(s.values), s.count
	old := vc.Snap(s.values)
	vals := s.values
	vc.Modifies(&s.count)
	vc.ModifiesElems(vals)
	s.Record(p)
	vc.Ensures("counted", func() bool { return s.count == c+1 })
	vc.Ensures("same storage", func() bool { return vc.Same(s.values, vals) && len(s.values) == n })
	vc.Ensures("only the next position changes", func() bool {
		return vc.Forall(0, n, func(i int) bool {
			return i == c%n && sameF(s.values[i], p) || i != c%n && sameF(s.values[i], old.At(i))
		})
	})
	vc.Ensures("invariant", func() bool { return seriesInv(s) })
}

// sameF: the same value, NaN included.
func sameF(a, b float64) bool { return a == b || a != a && b != b }

//vc:contract (*Series).Values prop=C25
func cValues(s *Series) {
	vc.Requires(func() bool { return seriesInv(s) })
	r := s.Values()
	vc.Ensures("capacity values", func() bool { return len(r) == len(s.values) })
	vc.Ensures("oldest first", func() bool {
		return vc.Forall(0, len(r), func(j int) bool { return sameF(r[j], seriesAt(s, j)) })
	})
	vc.Ensures("independent copy", func() bool { return vc.Fresh(r) && vc.NoAlias(r, s.values) })
}

// One more observation joins the reported ones as the newest; when the series is full the oldest goes.
//
//vc:lemma prop=C25
func lSeriesStep(s *Series, x float64) {
	vc.Assume(func() bool { return seriesInv(s) && s.count < 1<<52-1 })
	n, c := len(s.values), s.count
	a := s.Values()
	s.Record(x)
	b := s.Values()
	vc.Assert("capacity kept", func() bool { return len(a) == n && len(b) == n })
	vc.Assert("while there is room", func() bool {
		return vc.Imp(c < n, vc.Forall(0, n, func(j int) bool { return j == c && sameF(b[j], x) || j != c && sameF(b[j], a[j]) }))
	})
	vc.Assert("unrecorded positions are zero", func() bool {
		return vc.Forall(0, n, func(j int) bool { return vc.Imp(j > c, b[j] == 0) })
	})
	vc.Assert("when full the oldest goes", func() bool {
		return vc.Imp(c >= n, sameF(b[n-1], x) && vc.Forall(0, n-1, func(j int) bool { return sameF(b[j], a[j+1]) }))
	})
	vc.Assert("invariant", func() bool { return seriesInv(s) && s.Count() == c+1 })
}

//vc:contract (*Series).Reset prop=C25
func cSeriesReset(s *Series) {
	vc.Requires(func() bool { return s != nil && len(s.values) > 0 })
	vals := s.values
	vc.Invariant("zero so far", func(i int) bool {
		return vc.Forall(0, i, func(j int) bool { return s.values[j] == 0 })
	})
	vc.Modifies(&s.count)
	vc.ModifiesElems(vals)
	s.Reset()
	vc.Ensures("empty", func() bool { return s.count == 0 && vc.Same(s.values, vals) })
	vc.Ensures("all zero", func() bool { return vc.Forall(0, len(vals), func(j int) bool { return vals[j] == 0 }) })
	vc.Ensures("invariant", func() bool { return seriesInv(s) })
}

//vc:contract (*Series).Count prop=C25
func cSeriesCount(s *Series) {
	vc.Requires(func() bool { return s != nil })
	r := s.Count()
	vc.Ensures("observations seen", func() bool { return r == s.count })
}

//vc:contract (*Series).Capacity prop=C25
func cSeriesCapacity(s *Series) {
	vc.Requires(func() bool { return s != nil })
	r := s.Capacity()
	vc.Ensures("capacity", func() bool { return r == len(s.values) })
}

// ---- construction ----

var optN int
var optOrder, optFail, optStart bool
var optS *Series

// optCall stands for any option; like the real ones it leaves a valid series.
func optCall(id int, s *Series) error {
	optOrder = optOrder && id == vc.UFInt("option", optN) && s != nil && (optN == 0 || s == optS) && !optFail
	if optN == 0 {
		optStart = seriesInv(s) && s.count == 0
	}
	optS = s
	optN++
	if vc.UFBool("fails", id) {
		optFail = true
		return errOpt{}
	}
	return nil
}

type errOpt struct{}

func (errOpt) Error() string { return "option" }

//vc:contract NewSeries prop=C25 family=optCall noreplay
func cNewSeries(cap int, opts []SeriesOption) {
	vc.Requires(func() bool {
		return cap < 1<<32 && optN == 0 && optOrder && optStart && !optFail && vc.Forall(0, len(opts), func(i int) bool {
			return opts[i] != nil && vc.FnID(opts[i]) == vc.UFInt("option", i)
		})
	})
	vc.Invariant("one per option", func(i int, s *Series) bool {
		return optN == i && optOrder && optStart && !optFail && (optN == 0 || optS == s)
	})
	vc.Invariant("none failed", func(i int) bool {
		return vc.Forall(0, i, func(j int) bool { return !vc.UFBool("fails", vc.UFInt("option", j)) })
	})
	vc.Invariant("empty series", func(s *Series) bool { return seriesInv(s) && s.count == 0 && len(s.values) == cap })
	vc.Modifies(&optN, &optOrder, &optS, &optStart, &optFail)
	s, err := NewSeries(cap, opts...)
	vc.Ensures("a capacity below one is rejected", func() bool { return vc.Imp(cap <= 0, err != nil && s == nil) })
	vc.Ensures("fails only for the capacity or an option", func() bool { return vc.Imp(cap > 0, (err != nil) == optFail) })
	vc.Ensures("no option, no failure", func() bool { return vc.Imp(len(opts) == 0, !optFail) })
	vc.Ensures("no series on failure", func() bool { return vc.Imp(err != nil, s == nil) })
	vc.Ensures("options in order, each once, on an empty series", func() bool {
		return vc.Imp(err == nil, optN == len(opts) && optOrder && optStart && (optN == 0 || optS == s))
	})
	vc.Ensures("empty series of that capacity", func() bool {
		return vc.Imp(err == nil, seriesInv(s) && len(s.values) == cap && s.count == 0 && vc.Fresh(s) && vc.Fresh(s.values))
	})
}

//vc:lemma prop=C25
func lWithName(name string, md map[string]string, s *Series) {
	vc.Assume(func() bool { return seriesInv(s) })
	c, vals := s.count, s.values
	err := WithName(name, md)(s)
	vc.Assert("rejects exactly the empty name", func() bool { return (err != nil) == (name == "") })
	vc.Assert("named", func() bool { return vc.Imp(err == nil, s.name.name == name) })
	vc.Assert("observations kept", func() bool { return s.count == c && vc.Same(s.values, vals) && seriesInv(s) })
}

//vc:lemma prop=C25
func lWithValues(values []float64, s *Series) {
	vc.Assume(func() bool { return seriesInv(s) && s.count < 1<<50 && vc.NoAlias(values, s.values) })
	c := s.count
	vc.Invariant("recorded so far", func(i int) bool {
		return seriesInv(s) && s.count == c+i && i <= len(values) && vc.NoAlias(values, s.values)
	})
	vc.Invariant("newest so far", func(i int) bool {
		n := len(s.values)
		return i <= 0 || i > len(values) || s.count < n || sameF(seriesAt(s, n-1), values[i-1])
	})
	err := WithValues(values)(s)
	vc.Assert("all recorded", func() bool { return err == nil && s.count == c+len(values) && seriesInv(s) })
	vc.Assert("newest is the last value", func() bool {
		n := len(s.values)
		return len(values) == 0 || s.count < n || sameF(seriesAt(s, n-1), values[len(values)-1])
	})
}

var _ time.Duration
