//go:build go1.21

package metric

import (
	"time"

	"github.com/BTBurke/monny/internal/vc"
)

// Counters for concurrent use: the counter inside is touched only under the lock.

func concInv(c *ConcurrentCounter) bool { return c != nil && c.c != nil && vc.Unlocked(&c.mu) }

//vc:contract NewConcurrentCounter prop=C28,C30
func cNewConcurrentCounter() {
	c := NewConcurrentCounter()
	vc.Ensures("usable", func() bool { return concInv(c) && c.c.value == 0 && vc.Fresh(c) && vc.Fresh(c.c) })
}

//vc:contract (*ConcurrentCounter).Value prop=C28,C30
func cConcValue(c *ConcurrentCounter) {
	vc.Requires(func() bool { return concInv(c) })
	vc.Guarded(&c.mu, c.c)
	r := c.Value()
	vc.Ensures("value", func() bool { return r == c.c.value })
	vc.Ensures("released", func() bool { return vc.Unlocked(&c.mu) })
}

//vc:contract (*ConcurrentCounter).Add prop=C28,C30
func cConcAdd(c *ConcurrentCounter, i uint) {
	vc.Requires(func() bool { return concInv(c) && specRoom(c.c.value, i) })
	vc.Guarded(&c.mu, c.c)
	old := c.c.value
	vc.Modifies(&c.c.value)
	c.Add(i)
	vc.Ensures("sum", func() bool { return c.c.value == old+int(i) })
	vc.Ensures("released", func() bool { return vc.Unlocked(&c.mu) })
}

//vc:contract (*ConcurrentCounter).Reset prop=C28,C30
func cConcReset(c *ConcurrentCounter) {
	vc.Requires(func() bool { return concInv(c) })
	vc.Guarded(&c.mu, c.c)
	vc.Modifies(&c.c.value)
	c.Reset()
	vc.Ensures("zero", func() bool { return c.c.value == 0 })
	vc.Ensures("released", func() bool { return vc.Unlocked(&c.mu) })
}

func concWinInv(c *ConcurrentWindowedCounter) bool {
	return c != nil && c.c != nil && winInv(c.c) && vc.Unlocked(&c.mu)
}

//vc:contract NewConcurrentWindowedCounter prop=C28,C30
func cNewConcurrentWindowedCounter(duration time.Duration) {
	vc.Requires(func() bool { return duration >= 0 })
	vc.FreezeClock()
	c := NewConcurrentWindowedCounter(duration)
	vc.Ensures("usable", func() bool {
		return concWinInv(c) && c.c.current.value == 0 && c.c.current.duration == duration && len(c.c.hist) == 0
	})
}

//vc:contract (*ConcurrentWindowedCounter).Value prop=C28,C30
func cConcWinValue(c *ConcurrentWindowedCounter) {
	vc.Requires(func() bool { return concWinInv(c) })
	vc.Guarded(&c.mu, c.c, c.c.current, c.c.hist)
	vc.FreezeClock()
	now := time.Now().UTC()
	r := c.Value()
	vc.Ensures("value", func() bool {
		return (specPassed(c.c, now) || r == c.c.current.value) && (!specPassed(c.c, now) || r == 0)
	})
	vc.Ensures("released", func() bool { return vc.Unlocked(&c.mu) })
}

//vc:contract (*ConcurrentWindowedCounter).Add prop=C28,C30
func cConcWinAdd(c *ConcurrentWindowedCounter, i uint) {
	vc.Requires(func() bool { return concWinInv(c) && specRoom(c.c.current.value, i) })
	vc.Guarded(&c.mu, c.c, c.c.current, c.c.hist)
	vc.FreezeClock()
	now := time.Now().UTC()
	was := *c.c.current
	open := specOpen(c.c, now)
	vc.Modifies(&c.c.current, &c.c.hist, &c.c.current.value)
	vc.ModifiesElems(c.c.hist)
	c.Add(i)
	vc.Ensures("added", func() bool {
		return c.c.current != nil && c.c.current.duration == was.duration && (!open || c.c.current.value == was.value+int(i)) &&
			(open || c.c.current.value == int(i))
	})
	vc.Ensures("usable", func() bool { return concWinInv(c) })
}

//vc:contract (*ConcurrentWindowedCounter).Reset prop=C28,C30
func cConcWinReset(c *ConcurrentWindowedCounter) {
	vc.Requires(func() bool { return concWinInv(c) })
	vc.Guarded(&c.mu, c.c, c.c.current, c.c.hist)
	vc.FreezeClock()
	d := c.c.current.duration
	vc.Modifies(&c.c.current, &c.c.hist)
	c.Reset()
	vc.Ensures("empty", func() bool { return c.c.current.value == 0 && c.c.current.duration == d && len(c.c.hist) == 0 })
	vc.Ensures("usable", func() bool { return concWinInv(c) })
}

//vc:contract (*ConcurrentWindowedCounter).History prop=C29,C30
func cConcWinHistory(c *ConcurrentWindowedCounter) {
	vc.Requires(func() bool { return concWinInv(c) })
	vc.Guarded(&c.mu, c.c, c.c.current, c.c.hist)
	vc.FreezeClock()
	now := time.Now().UTC()
	old := vc.Snap(c.c.hist)
	r := c.History()
	vc.Ensures("closed windows, limited", func() bool {
		return specLimited(r, old, specPassed(c.c, now) || c.c.current.duration == 0, *c.c.current, c.c.MaxHistory, c.c.MaxHistoryDuration, now)
	})
	vc.Ensures("independent", func() bool { return vc.Fresh(r) })
	vc.Ensures("released", func() bool { return vc.Unlocked(&c.mu) })
}

//vc:contract (*ConcurrentWindowedCounter).HistoryInclusive prop=C29,C30
func cConcWinHistoryInclusive(c *ConcurrentWindowedCounter) {
	vc.Requires(func() bool { return concWinInv(c) })
	vc.Guarded(&c.mu, c.c, c.c.current, c.c.hist)
	vc.FreezeClock()
	now := time.Now().UTC()
	old := vc.Snap(c.c.hist)
	r := c.HistoryInclusive()
	vc.Ensures("all windows, limited", func() bool {
		return specLimited(r, old, true, *c.c.current, c.c.MaxHistory, c.c.MaxHistoryDuration, now)
	})
	vc.Ensures("independent", func() bool { return vc.Fresh(r) })
	vc.Ensures("released", func() bool { return vc.Unlocked(&c.mu) })
}
