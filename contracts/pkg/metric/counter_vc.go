//go:build go1.21

package metric

import (
	"time"

	"github.com/BTBurke/monny/internal/vc"
)

// ---- plain counter ----

//vc:contract NewCounter prop=C28
func cNewCounter() {
	c := NewCounter()
	vc.Ensures("zero", func() bool { return c != nil && c.value == 0 && vc.Fresh(c) })
}

//vc:contract (*Counter).Value prop=C28
func cCounterValue(c *Counter) {
	vc.Requires(func() bool { return c != nil })
	r := c.Value()
	vc.Ensures("value", func() bool { return r == c.value })
}

// specRoom: the sum stays below the machine's largest int.
func specRoom(v int, i uint) bool { return v >= 0 && v < 1<<60 && i < 1<<60 }

//vc:contract (*Counter).Add prop=C28
func cCounterAdd(c *Counter, i uint) {
	vc.Requires(func() bool { return c != nil && specRoom(c.value, i) })
	old := c.value
	vc.Modifies(&c.value)
	c.Add(i)
	vc.Ensures("sum", func() bool { return c.value == old+int(i) })
}

//vc:contract (*Counter).Reset prop=C28
func cCounterReset(c *Counter) {
	vc.Requires(func() bool { return c != nil })
	vc.Modifies(&c.value)
	c.Reset()
	vc.Ensures("zero", func() bool { return c.value == 0 })
}

//vc:contract (Counter).Start prop=C29
func cCounterStart(c Counter) {
	r := c.Start()
	vc.Ensures("start", func() bool { return r == c.start })
}

//vc:contract (Counter).Duration prop=C29
func cCounterDuration(c Counter) {
	r := c.Duration()
	vc.Ensures("duration", func() bool { return r == c.duration })
}

// ---- windowed counter ----

// A windowed counter in use: windows in the order they began, the current one last, none in the future.
func winInv(c *WindowedCounter) bool {
	return c != nil && c.current != nil && specSorted(c.hist) && c.current.duration >= 0 &&
		!c.current.start.After(time.Now().UTC()) &&
		vc.Forall(0, len(c.hist), func(i int) bool { return !c.hist[i].start.After(c.current.start) })
}

func specSorted(h []Counter) bool {
	return vc.Forall(0, len(h)-1, func(i int) bool { return !h[i].start.After(h[i+1].start) })
}

// specOpen: the current window still takes additions now.
func specOpen(c *WindowedCounter, now time.Time) bool {
	return c.current.duration == 0 || now.Before(c.current.start.Add(c.current.duration))
}

func specPassed(c *WindowedCounter, now time.Time) bool {
	return c.current.duration > 0 && now.After(c.current.start.Add(c.current.duration))
}

//vc:contract NewWindowedCounter prop=C28
func cNewWindowedCounter(duration time.Duration) {
	vc.Requires(func() bool { return duration >= 0 })
	vc.FreezeClock()
	c := NewWindowedCounter(duration)
	vc.Ensures("empty window from now", func() bool {
		return c.current != nil && c.current.value == 0 && c.current.duration == duration && len(c.hist) == 0 && vc.Fresh(c) && vc.Fresh(c.current)
	})
	vc.Ensures("no limits", func() bool { return c.MaxHistory == 0 && c.MaxHistoryDuration == 0 })
	vc.Ensures("invariant", func() bool { return winInv(c) })
}

//vc:contract (*WindowedCounter).Value prop=C28
func cWinValue(c *WindowedCounter) {
	vc.Requires(func() bool { return c != nil })
	vc.FreezeClock()
	now := time.Now().UTC()
	r := c.Value()
	vc.Ensures("what was added in the current window", func() bool {
		return vc.Imp(c.current != nil && !specPassed2(c, now), r == specCur(c).value)
	})
	vc.Ensures("zero once the window has passed", func() bool { return vc.Imp(specPassed2(c, now), r == 0) })
	vc.Ensures("an empty struct has counted nothing", func() bool { return vc.Imp(c.current == nil, r == 0) })
}

func specCur(c *WindowedCounter) Counter {
	if c.current == nil {
		return Counter{}
	}
	return *c.current
}

func specPassed2(c *WindowedCounter, now time.Time) bool {
	return c.current != nil && specPassed(c, now)
}

//vc:contract (*WindowedCounter).Add prop=C28,C29
func cWinAdd(c *WindowedCounter, i uint) {
	vc.Requires(func() bool {
		return c != nil && specRoom(specCur(c).value, i) && (c.current == nil && len(c.hist) == 0 || c.current != nil && winInv(c))
	})
	vc.FreezeClock()
	now := time.Now().UTC()
	cur := c.current
	was := specCur(c)
	h := c.hist
	old := vc.Snap(c.hist)
	open := cur == nil || specOpen(c, now)
	vc.Modifies(&c.current, &c.hist)
	vc.ModifiesElems(c.hist)
	if cur != nil {
		vc.Modifies(&cur.value)
	}
	c.Add(i)
	vc.Ensures("added to the current window", func() bool {
		return vc.Imp(open, c.current != nil && c.current.value == was.value+int(i) && c.current.start == was.start &&
			c.current.duration == was.duration && vc.Same(c.hist, h) && (cur == nil || c.current == cur))
	})
	vc.Ensures("or begins a new window", func() bool {
		return vc.Imp(!open, c.current != nil && c.current != cur && c.current.value == int(i) && vc.SameTime(c.current.start, now) && c.current.duration == was.duration)
	})
	vc.Ensures("closing the one that has passed", func() bool {
		return vc.Imp(!open, specLimited(c.hist, old, true, was, c.MaxHistory, c.MaxHistoryDuration, now))
	})
	vc.Ensures("invariant", func() bool { return winInv(c) })
}

// specNth is the i-th closed window, the one that has just passed being the last.
func specNth(old vc.Seq[Counter], last Counter, i int) Counter {
	if i < old.Len() {
		return old.At(i)
	}
	return last
}

// specLimited: r holds the newest of the windows old (and last, if given): at most max of them, and
// only those that began no longer ago than age; and no window is left out without need.
func specLimited(r []Counter, old vc.Seq[Counter], inc bool, last Counter, max int, age time.Duration, now time.Time) bool {
	n := old.Len()
	if inc {
		n++
	}
	d := n - len(r)
	return d >= 0 && (max <= 0 || len(r) <= max) &&
		vc.Forall(0, len(r), func(i int) bool { return r[i] == specNth(old, last, d+i) }) &&
		vc.Forall(0, len(r), func(i int) bool { return age <= 0 || now.Sub(r[i].start) <= age }) &&
		(d == 0 || max > 0 && len(r) == max || age > 0 && now.Sub(specNth(old, last, d-1).start) > age)
}

//vc:contract newHistory prop=C29
func cNewHistory(hist []Counter, max int, maxduration time.Duration) {
	vc.Requires(func() bool {
		return specSorted(hist) && vc.Forall(0, len(hist), func(i int) bool { return !hist[i].start.After(time.Now().UTC()) })
	})
	vc.FreezeClock()
	now := time.Now().UTC()
	old := vc.Snap(hist)
	over := 0
	if max > 0 && len(hist) > max {
		over = len(hist) - max
	}
	// the young ones among the first i of a sorted history are a suffix of those
	vc.Invariant("kept so far", func(i int, c []Counter) bool {
		n := over + i - len(c)
		return 0 <= len(c) && len(c) <= i && over+i <= old.Len() && vc.Forall(0, len(c), func(j int) bool { return c[j] == old.At(n+j) }) &&
			vc.Forall(0, len(c), func(j int) bool { return now.Sub(c[j].start) <= maxduration }) &&
			(len(c) == i || now.Sub(old.At(n-1).start) > maxduration)
	})
	r := newHistory(hist, max, maxduration)
	vc.Ensures("limited to the newest", func() bool { return specLimited(r, old, false, Counter{}, max, maxduration, now) })
	vc.Ensures("same storage or new", func() bool { return specWithin(r, hist) || vc.Fresh(r) })
}

// specWithin: r is part of h.
func specWithin(r, h []Counter) bool {
	return len(r) <= len(h) && vc.Same(r, h[len(h)-len(r):])
}

//vc:contract (*WindowedCounter).History prop=C29
func cWinHistory(c *WindowedCounter) {
	vc.Requires(func() bool {
		return c != nil && (c.current == nil && len(c.hist) == 0 || c.current != nil && winInv(c))
	})
	vc.FreezeClock()
	now := time.Now().UTC()
	old := vc.Snap(c.hist)
	r := c.History()
	vc.Ensures("closed windows, limited", func() bool {
		return specLimited(r, old, c.current == nil || specPassed(c, now) || c.current.duration == 0, specCur(c), c.MaxHistory, c.MaxHistoryDuration, now)
	})
	vc.Ensures("independent", func() bool { return vc.Fresh(r) })
}

//vc:contract (*WindowedCounter).HistoryInclusive prop=C29
func cWinHistoryInclusive(c *WindowedCounter) {
	vc.Requires(func() bool {
		return c != nil && (c.current == nil && len(c.hist) == 0 || c.current != nil && winInv(c))
	})
	vc.FreezeClock()
	now := time.Now().UTC()
	old := vc.Snap(c.hist)
	r := c.HistoryInclusive()
	vc.Ensures("all windows, limited", func() bool {
		return specLimited(r, old, true, specCur(c), c.MaxHistory, c.MaxHistoryDuration, now)
	})
	vc.Ensures("independent", func() bool { return vc.Fresh(r) })
}

//vc:contract (*WindowedCounter).Reset prop=C28,C29
func cWinReset(c *WindowedCounter) {
	vc.Requires(func() bool { return c != nil })
	vc.FreezeClock()
	now := time.Now().UTC()
	d := specCur(c).duration
	vc.Modifies(&c.current, &c.hist)
	c.Reset()
	vc.Ensures("a new empty window of the same length", func() bool {
		return c.current != nil && c.current.value == 0 && c.current.duration == d && vc.SameTime(c.current.start, now) && vc.Fresh(c.current)
	})
	vc.Ensures("no history", func() bool { return len(c.hist) == 0 })
}
