//go:build go1.21

package proc

import "github.com/BTBurke/monny/internal/vc"

// The invariant of a queue in use: at most capacity lines.
func queueInv(q *Queue) bool {
	return 0 <= q.capacity && q.capacity < 1<<32 && len(q.q) <= q.capacity && vc.Unlocked(&q.mu)
}

//vc:contract NewQueue prop=C01
func cNewQueue(capacity int) {
	vc.Requires(func() bool { return 0 <= capacity && capacity < 1<<32 })
	q := NewQueue(capacity)
	vc.Ensures("empty", func() bool { return q != nil && len(q.q) == 0 })
	vc.Ensures("capacity", func() bool { return q.capacity == capacity })
	vc.Ensures("invariant", func() bool { return queueInv(q) })
	vc.Ensures("fresh", func() bool { return vc.Fresh(q) && vc.Fresh(q.q) })
}

//vc:contract (*Queue).Add prop=C01,C30
func cQueueAdd(q *Queue, s string) {
	vc.Requires(func() bool { return q != nil && queueInv(q) })
	vc.Guarded(&q.mu, &q.q)
	old := vc.Snap(q.q)
	oldq := q.q
	vc.Modifies(&q.q)
	vc.ModifiesElems(oldq)
	q.Add(s)
	n := old.Len() + 1
	if n > q.capacity {
		n = q.capacity
	}
	vc.Ensures("length", func() bool { return len(q.q) == n })
	vc.Ensures("newest", func() bool { return vc.Imp(n > 0, n == 0 || q.q[n-1] == s) })
	vc.Ensures("older kept in order", func() bool {
		return vc.Forall(0, n-1, func(i int) bool { return q.q[i] == old.At(old.Len()+1-n+i) })
	})
	vc.Ensures("invariant", func() bool { return queueInv(q) })
}

//vc:contract (*Queue).Copy prop=C01,C30
func cQueueCopy(q *Queue) {
	vc.Requires(func() bool { return q != nil && queueInv(q) })
	vc.Guarded(&q.mu, &q.q)
	r := q.Copy()
	vc.Ensures("same lines", func() bool {
		return len(r) == len(q.q) && vc.Forall(0, len(r), func(i int) bool { return r[i] == q.q[i] })
	})
	vc.Ensures("independent", func() bool { return vc.NoAlias(r, q.q) && vc.Fresh(r) })
	vc.Ensures("invariant", func() bool { return queueInv(q) })
}

//vc:contract (*Queue).Clear prop=C01,C30
func cQueueClear(q *Queue) {
	vc.Requires(func() bool { return q != nil && queueInv(q) })
	vc.Guarded(&q.mu, &q.q)
	vc.Modifies(&q.q)
	q.Clear()
	vc.Ensures("empty", func() bool { return len(q.q) == 0 })
	vc.Ensures("fresh", func() bool { return vc.Fresh(q.q) })
	vc.Ensures("invariant", func() bool { return queueInv(q) })
}

// A queue filled to capacity and beyond holds the last lines: two additions to any queue.
//
//vc:lemma prop=C01
func lQueueSnapshot(q *Queue, a, b string) {
	vc.Assume(func() bool { return q != nil && queueInv(q) && q.capacity > 1 })
	q.Add(a)
	r := q.Copy()
	q.Add(b)
	s := q.Copy()
	vc.Assert("snapshot unchanged by later additions", func() bool { return r[len(r)-1] == a })
	vc.Assert("order of additions", func() bool { return s[len(s)-1] == b && s[len(s)-2] == a })
	q.Clear()
	vc.Assert("snapshot unchanged by clear", func() bool { return s[len(s)-1] == b && len(q.Copy()) == 0 })
}
