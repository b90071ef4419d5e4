//go:build go1.21

package eventbus

import (
	"context"
	"sync"

	"github.com/BTBurke/monny/internal/vc"
)

// A bus in use: its lock is free and no two topics' lists share storage with the one of topic k.
func busInv(e *EventBus, k Topic) bool {
	return e != nil && e.subscribers != nil && vc.Unlocked(&e.mutex) &&
		vc.ForallKey(func(t Topic) bool { return t == k || vc.NoAlias(e.subscribers[t], e.subscribers[k]) }, e.subscribers)
}

// specNamed: k is among the first n topics.
func specNamed(topics []Topic, n int, k Topic) bool {
	return vc.Exists(0, n, func(i int) bool { return topics[i] == k })
}

// specOnce: k is named once at most.
func specOnce(topics []Topic, k Topic) bool {
	return vc.Forall(0, len(topics), func(i int) bool {
		return topics[i] != k || vc.Forall(0, i, func(j int) bool { return topics[j] != k })
	})
}

// specAdded: now is what was followed by c, if added, and otherwise what was.
func specAdded(now []chan Event, was vc.Seq[chan Event], added bool, c chan Event) bool {
	n := was.Len()
	return vc.Forall(0, n, func(i int) bool { return i < len(now) && now[i] == was.At(i) }) &&
		(added || len(now) == n) && (!added || len(now) == n+1 && now[n] == c)
}

//vc:contract New prop=C18
func cNew(k Topic) {
	e := New()
	vc.Ensures("no subscribers", func() bool { return len(e.subscribers[k]) == 0 && len(e.done) == 0 && !e.sdStarted })
	vc.Ensures("in use", func() bool { return busInv(e, k) })
}

//vc:contract (*EventBus).Subscribe prop=C18 inline
func cSubscribe(e *EventBus, topics []Topic, k Topic) {
	vc.Requires(func() bool {
		return busInv(e, k) && specOnce(topics, k) && len(e.done) < 1<<30 && len(e.subscribers[k]) < 1<<30
	})
	was := vc.Snap(e.subscribers[k])
	done := vc.Snap(e.done)
	named := specNamed(topics, len(topics), k) || len(topics) == 0 && k == defaultTopic
	vc.ModifiesAnything()
	vc.Invariant("registered so far", func(i int, topics []Topic, c chan Event) bool {
		return specAdded(e.subscribers[k], was, specNamed(topics, i, k), c)
	})
	vc.Invariant("separate", func() bool {
		return vc.ForallKey(func(t Topic) bool { return t == k || vc.NoAlias(e.subscribers[t], e.subscribers[k]) }, e.subscribers)
	})
	c, f := e.Subscribe(topics...)
	vc.Ensures("a new open channel", func() bool {
		return c != nil && vc.Fresh(c) && !vc.Closed(c) && vc.ChanLen(c) == 0 && cap(c) == 1 && f != nil
	})
	vc.Ensures("registered on each topic named and nowhere else", func() bool { return specAdded(e.subscribers[k], was, named, c) })
	vc.Ensures("waited for at shutdown", func() bool {
		n := done.Len()
		return len(e.done) == n+1 && vc.Forall(0, n, func(i int) bool { return e.done[i] == done.At(i) }) &&
			vc.Fresh(e.done[n]) && !vc.Closed(e.done[n])
	})
	vc.Ensures("in use", func() bool { return busInv(e, k) })
}

//vc:lemma prop=C18,C20
func lShutdownFunc(e *EventBus, topics []Topic) {
	vc.Assume(func() bool { return busInv(e, defaultTopic) && len(e.done) < 1<<30 && len(topics) == 0 })
	n := len(e.done)
	c, f := e.Subscribe(topics...)
	f()
	vc.Assert("announces", func() bool { return len(e.done) == n+1 && vc.Closed(e.done[n]) && !vc.Closed(c) })
	f()
	vc.Assert("harmless when called again", func() bool { return vc.Closed(e.done[n]) && !vc.Closed(c) })
}

// specAt: c is in the list exactly at p, or nowhere if p is negative.
func specAt(l vc.Seq[chan Event], c chan Event, p int) bool {
	return p < l.Len() && (p < 0 || l.At(p) == c) && vc.Forall(0, l.Len(), func(i int) bool { return (l.At(i) == c) == (i == p) })
}

// specWithout: now is the first n of what was without the element at p.
func specWithout(now []chan Event, was vc.Seq[chan Event], n, p int) bool {
	gone := p >= 0 && p < n
	return (!gone && len(now) == n || gone && len(now) == n-1) && n <= was.Len() &&
		vc.Forall(0, len(now), func(i int) bool {
			return (p >= 0 && i >= p || now[i] == was.At(i)) && (p < 0 || i < p || i+1 < was.Len() && now[i] == was.At(i+1))
		})
}

//vc:contract (*EventBus).Unsubscribe prop=C18
func cUnsubscribe(e *EventBus, c chan Event, done chan struct{}, k Topic, p int) {
	vc.Requires(func() bool {
		return e != nil && e.subscribers != nil && vc.Unlocked(&e.mutex) && c != nil && done != nil && len(e.subscribers[k]) < 1<<30
	})
	was := vc.Snap(e.subscribers[k])
	_, had := e.subscribers[k]
	vc.Requires(func() bool { return specAt(was, c, p) })
	vc.Alone()
	vc.ModifiesAnything()
	vc.Invariant("topic done", func(seen vc.Set[Topic]) bool {
		return !seen.Has(k) || specWithout(e.subscribers[k], was, was.Len(), p)
	})
	vc.Invariant("topic not done", func(seen vc.Set[Topic]) bool {
		return seen.Has(k) || specWithout(e.subscribers[k], was, was.Len(), -1)
	})
	vc.Invariant("topic done before", func(t Topic, seen vc.Set[Topic]) bool {
		return !seen.Has(k) || t == k || specWithout(e.subscribers[k], was, was.Len(), p)
	})
	vc.Invariant("this topic not done", func(t Topic) bool {
		return t != k || specWithout(e.subscribers[k], was, was.Len(), -1)
	})
	vc.Invariant("kept so far", func(t Topic, keep []chan Event, i int) bool {
		return t != k || specWithout(keep, was, i, p)
	})
	e.Unsubscribe(c, done)
	vc.Ensures("removed from the topic", func() bool { return !had || specWithout(e.subscribers[k], was, was.Len(), p) })
}

//vc:contract (*EventBus).Unsubscribe prop=C18
func cUnsubscribeKeeps(e *EventBus, c chan Event, done chan struct{}, k Topic) {
	vc.Requires(func() bool { return busInv(e, k) && c != nil && done != nil })
	vc.Alone()
	vc.ModifiesAnything()
	vc.Invariant("separate", func() bool {
		return vc.ForallKey(func(t Topic) bool { return t == k || vc.NoAlias(e.subscribers[t], e.subscribers[k]) }, e.subscribers)
	})
	e.Unsubscribe(c, done)
	vc.Ensures("in use", func() bool { return busInv(e, k) })
}

//vc:contract (*EventBus).Unsubscribe prop=C18
func cUnsubscribeCloses(e *EventBus, c chan Event, done chan struct{}, k Topic, p int) {
	vc.Requires(func() bool {
		return e != nil && e.subscribers != nil && vc.Unlocked(&e.mutex) && c != nil && 0 <= p && p < len(e.subscribers[k]) && e.subscribers[k][p] == c
	})
	vc.Alone()
	vc.ModifiesAnything()
	vc.Invariant("topic done", func(seen vc.Set[Topic]) bool { return !seen.Has(k) || vc.Closed(c) })
	vc.Invariant("topic not done", func(seen vc.Set[Topic]) bool {
		return seen.Has(k) || p < len(e.subscribers[k]) && e.subscribers[k][p] == c
	})
	vc.Invariant("topic done before", func(t Topic, seen vc.Set[Topic]) bool { return !seen.Has(k) || t == k || vc.Closed(c) })
	vc.Invariant("this topic", func(t Topic, chs []chan Event) bool { return t != k || p < len(chs) && chs[p] == c || vc.Closed(c) })
	vc.Invariant("closed so far", func(t Topic, i int) bool { return t != k || p >= i || vc.Closed(c) })
	e.Unsubscribe(c, done)
	vc.Ensures("its channel is closed", func() bool { return vc.Closed(c) })
}

//vc:contract (*EventBus).Unsubscribe prop=C18
func cUnsubscribeOthers(e *EventBus, c chan Event, done chan struct{}, other chan Event) {
	vc.Requires(func() bool {
		return e != nil && e.subscribers != nil && vc.Unlocked(&e.mutex) && c != nil && done != nil && other != c
	})
	otherClosed := vc.Closed(other)
	vc.Alone()
	vc.ModifiesAnything()
	vc.Invariant("others", func() bool { return vc.Closed(other) == otherClosed })
	e.Unsubscribe(c, done)
	vc.Ensures("every other channel is as it was", func() bool { return vc.Closed(other) == otherClosed })
	vc.Ensures("in use", func() bool { return vc.Unlocked(&e.mutex) })
}

//vc:contract (*EventBus).Unsubscribe prop=C18
func cUnsubscribeDone(e *EventBus, c chan Event, done chan struct{}, p, w int, other chan struct{}) {
	vc.Requires(func() bool {
		return e != nil && e.subscribers != nil && vc.Unlocked(&e.mutex) && c != nil && done != nil && other != done && 0 <= w && w < len(e.done) && e.done[w] == other
	})
	n := len(e.done)
	vc.Requires(func() bool {
		return p < n && vc.Forall(0, n, func(i int) bool { return (e.done[i] == done) == (i == p) })
	})
	otherClosed := vc.Closed(other)
	vc.Alone()
	vc.ModifiesAnything()
	vc.Invariant("as it was", func() bool {
		return len(e.done) == n && e.done[w] == other && vc.Forall(0, n, func(i int) bool { return (e.done[i] == done) == (i == p) })
	})
	vc.Invariant("others", func() bool { return vc.Closed(other) == otherClosed })
	vc.Invariant("not there", func(i int) bool { return p < 0 || i <= p })
	e.Unsubscribe(c, done)
	vc.Ensures("no longer waited for", func() bool {
		return (p >= 0 || len(e.done) == n) && (p < 0 || len(e.done) == n-1) && vc.Forall(0, len(e.done), func(i int) bool { return e.done[i] != done })
	})
	vc.Ensures("told to be finished", func() bool { return p < 0 || vc.Closed(done) })
	vc.Ensures("every other subscriber is still waited for", func() bool {
		return vc.Closed(other) == otherClosed && (w < len(e.done) && e.done[w] == other || w > 0 && w-1 < len(e.done) && e.done[w-1] == other || vc.Exists(0, len(e.done), func(i int) bool { return e.done[i] == other }))
	})
}

// ---- shutdown ----

//vc:contract shutdownNotify prop=C20 block=ok noreplay
func cShutdownNotify(done chan struct{}, all []chan struct{}, p int) {
	vc.Requires(func() bool {
		return done != nil && !vc.Closed(done) && vc.Forall(0, len(all), func(i int) bool { return all[i] != nil && all[i] != done && vc.ChanLen(all[i]) == 0 }) &&
			0 <= p && p < len(all)
	})
	was := vc.Closed(all[p])
	vc.Alone()
	vc.ModifiesChannels()
	vc.Invariant("waiting", func(wg *sync.WaitGroup, i int) bool {
		return vc.WaitCount(wg) >= 0 && (vc.Closed(all[p]) || p >= i || vc.WaitCount(wg) >= 1)
	})
	vc.Invariant("unchanged", func() bool { return vc.Closed(all[p]) == was && !vc.Closed(done) })
	shutdownNotify(done, all)
	vc.Ensures("only after each has announced", func() bool { return was })
	vc.Ensures("announced", func() bool { return vc.Closed(done) })
}

//vc:contract (*EventBus).Shutdown prop=C20 block=ok noreplay
func cShutdown(e *EventBus, ctx context.Context, k Topic, p int) {
	vc.Requires(func() bool {
		return e != nil && e.subscribers != nil && vc.Unlocked(&e.mutex) && ctx != nil && 0 <= p && p < len(e.subscribers[k])
	})
	c := e.subscribers[k][p]
	vc.Requires(func() bool { return c != nil })
	vc.Alone()
	vc.ModifiesChannels()
	vc.Modifies(&e.sdStarted)
	vc.Invariant("topic closed", func(seen vc.Set[Topic]) bool { return !seen.Has(k) || vc.Closed(c) })
	vc.Invariant("topic closed before", func(seen vc.Set[Topic], chs []chan Event) bool {
		return !seen.Has(k) || vc.Same(chs, e.subscribers[k]) || vc.Closed(c)
	})
	vc.Invariant("closed so far", func(chs []chan Event, i int) bool {
		return !vc.Same(chs, e.subscribers[k]) || p >= i || vc.Closed(c)
	})
	r := e.Shutdown(ctx)
	vc.Ensures("begun", func() bool { return e.sdStarted && vc.Unlocked(&e.mutex) })
	vc.Ensures("every registered channel is closed", func() bool { return vc.Closed(c) })
	vc.Ensures("success or timeout", func() bool { return r == nil || r == ErrShutdownTimeout })
}

//vc:contract (*EventBus).Shutdown prop=C20 block=ok noreplay
func cShutdownResult(e *EventBus, ctx context.Context, q int) {
	vc.Requires(func() bool {
		return e != nil && e.subscribers != nil && vc.Unlocked(&e.mutex) && ctx != nil && 0 <= q && q < len(e.done) &&
			vc.Forall(0, len(e.done), func(i int) bool { return e.done[i] != nil && vc.ChanLen(e.done[i]) == 0 })
	})
	announced := vc.Closed(e.done[q])
	vc.Requires(func() bool { return vc.ChanLen(ctx.Done()) == 0 })
	vc.Alone()
	vc.ModifiesChannels()
	vc.Modifies(&e.sdStarted)
	vc.Invariant("waiting", func(wg *sync.WaitGroup, i int) bool {
		return vc.WaitCount(wg) >= 0 && (announced || q >= i || vc.WaitCount(wg) >= 1)
	})
	vc.Invariant("announced or not", func() bool { return vc.Closed(e.done[q]) == announced })
	vc.Invariant("not notified", func(done chan struct{}) bool { return announced || !vc.Closed(done) })
	r := e.Shutdown(ctx)
	vc.Ensures("success only if everyone announced", func() bool { return r != nil || announced })
	vc.Ensures("timeout only if the context ended", func() bool { return r == nil || vc.Closed(ctx.Done()) })
}

// ---- dispatch ----

// specNotIn: x is none of chs.
func specNotIn(chs []chan Event, x chan Event) bool {
	return vc.Forall(0, len(chs), func(j int) bool { return chs[j] != x })
}

func sameEvent(a, b Event) bool { return a.t == b.t && vc.Same(a.d, b.d) }

//vc:contract (*EventBus).Dispatch prop=C19
func cDispatchTo(e *EventBus, event Event, topics []Topic, x chan Event, k Topic, p, q int) {
	vc.Requires(func() bool {
		return e != nil && e.subscribers != nil && vc.Unlocked(&e.mutex) && !e.sdStarted &&
			0 <= q && (q < len(topics) && topics[q] == k || q == len(topics) && k == defaultTopic) && 0 <= p && p < len(e.subscribers[k]) && e.subscribers[k][p] == x
	})
	vc.Requires(func() bool { return x != nil && !vc.Closed(x) && cap(x) == 1 && vc.ChanLen(x) == 0 })
	vc.Guarded(&e.mutex, e.subscribers, &e.subscribers, &e.done, &e.sdStarted)
	vc.Alone()
	vc.ModifiesChannels()
	vc.Invariant("nothing else", func() bool { return !vc.Closed(x) && vc.ChanLen(x) >= 0 && vc.ChanLen(x) <= 1 })
	vc.Invariant("the event", func() bool { return vc.ChanLen(x) == 0 || sameEvent(vc.ChanAt(x, 0), event) })
	vc.Invariant("stays sent", func() bool { return vc.ChanLen(x) >= vc.AtEntry(func() int { return vc.ChanLen(x) }) })
	vc.Invariant("topic done", func(i int, topics []Topic) bool { return q >= i || topics[q] != k || vc.ChanLen(x) == 1 })
	vc.Invariant("sent so far", func(chs []chan Event, i int) bool { return p >= i || chs[p] != x || vc.ChanLen(x) == 1 })
	e.Dispatch(event, topics...)
	vc.Ensures("it is sent the event", func() bool { return vc.ChanLen(x) == 1 && sameEvent(vc.ChanAt(x, 0), event) && !vc.Closed(x) })
}

//vc:contract (*EventBus).Dispatch prop=C19 noreplay
func cDispatchBusy(e *EventBus, event Event, topics []Topic, x chan Event, k Topic, p, q int) {
	vc.Requires(func() bool {
		return e != nil && e.subscribers != nil && vc.Unlocked(&e.mutex) && !e.sdStarted &&
			0 <= q && (q < len(topics) && topics[q] == k || q == len(topics) && k == defaultTopic) && 0 <= p && p < len(e.subscribers[k]) && e.subscribers[k][p] == x
	})
	vc.Requires(func() bool { return x != nil && !vc.Closed(x) && cap(x) == 1 && vc.ChanLen(x) <= 1 })
	n := vc.Sent(x)
	vc.Guarded(&e.mutex, e.subscribers, &e.subscribers, &e.done, &e.sdStarted)
	vc.Alone()
	vc.Drains(x)
	vc.ModifiesChannels()
	vc.Invariant("open", func() bool { return !vc.Closed(x) && vc.ChanLen(x) >= 0 && vc.ChanLen(x) <= 1 })
	vc.Invariant("stays sent", func() bool { return vc.Sent(x) >= vc.AtEntry(func() int { return vc.Sent(x) }) })
	vc.Invariant("topic done", func(i int, topics []Topic) bool { return q >= i || topics[q] != k || vc.Sent(x) > n })
	vc.Invariant("sent so far", func(chs []chan Event, i int) bool { return p >= i || chs[p] != x || vc.Sent(x) > n })
	e.Dispatch(event, topics...)
	vc.Ensures("it is sent the event even if it is slow", func() bool { return vc.Sent(x) > n })
}

//vc:contract (*EventBus).Dispatch prop=C19 noreplay
func cDispatchOnce(e *EventBus, event Event, topics []Topic, x chan Event, p int) {
	vc.Requires(func() bool {
		return e != nil && e.subscribers != nil && vc.Unlocked(&e.mutex) && !e.sdStarted && len(topics) == 0 &&
			0 <= p && p < len(e.subscribers[defaultTopic]) && e.subscribers[defaultTopic][p] == x &&
			vc.Forall(0, len(e.subscribers[defaultTopic]), func(j int) bool { return j == p || e.subscribers[defaultTopic][j] != x })
	})
	vc.Requires(func() bool { return x != nil && !vc.Closed(x) && cap(x) == 1 && vc.ChanLen(x) <= 1 })
	n := vc.Sent(x)
	vc.Guarded(&e.mutex, e.subscribers, &e.subscribers, &e.done, &e.sdStarted)
	vc.Alone()
	vc.Drains(x)
	vc.ModifiesChannels()
	vc.Invariant("open", func() bool { return !vc.Closed(x) && vc.ChanLen(x) >= 0 && vc.ChanLen(x) <= 1 })
	vc.Invariant("the event", func() bool { return vc.Sent(x) == n || vc.ChanLen(x) == 1 && sameEvent(vc.ChanAt(x, 0), event) })
	vc.Invariant("topic done", func(i int, topics []Topic) bool { return vc.Sent(x) == n+i })
	vc.Invariant("sent so far", func(chs []chan Event, i int) bool { return (p >= i || vc.Sent(x) == n+1) && (p < i || vc.Sent(x) == n) })
	e.Dispatch(event, topics...)
	vc.Ensures("it is sent the event once", func() bool {
		return vc.Sent(x) == n+1 && vc.ChanLen(x) == 1 && sameEvent(vc.ChanAt(x, 0), event)
	})
}

//vc:contract (*EventBus).Dispatch prop=C19
func cDispatchNot(e *EventBus, event Event, topics []Topic, x chan Event) {
	vc.Requires(func() bool {
		return e != nil && e.subscribers != nil && vc.Unlocked(&e.mutex) && x != nil &&
			specNotIn(e.subscribers[defaultTopic], x) && vc.Forall(0, len(topics), func(i int) bool { return specNotIn(e.subscribers[topics[i]], x) })
	})
	n, closed := vc.ChanLen(x), vc.Closed(x)
	vc.Guarded(&e.mutex, e.subscribers, &e.subscribers, &e.done, &e.sdStarted)
	vc.Alone()
	vc.ModifiesChannels()
	vc.Invariant("unchanged", func() bool { return vc.ChanLen(x) == n && vc.Closed(x) == closed })
	vc.Invariant("others", func(chs []chan Event) bool { return specNotIn(chs, x) })
	e.Dispatch(event, topics...)
	vc.Ensures("nobody else is sent anything", func() bool { return vc.ChanLen(x) == n && vc.Closed(x) == closed })
	vc.Ensures("in use", func() bool { return vc.Unlocked(&e.mutex) })
}

type busSpy struct{ waiting int }

//vc:contract (*EventBus).Dispatch prop=C19
func cDispatchShutdown(e *EventBus, event Event, topics []Topic, x chan Event, s *busSpy) {
	vc.Requires(func() bool {
		return e != nil && e.subscribers != nil && vc.Unlocked(&e.mutex) && x != nil && s != nil && s.waiting == vc.ChanLen(x)
	})
	vc.Guarded(&e.mutex, e.subscribers, &e.subscribers, &e.done, &e.sdStarted)
	vc.Alone()
	vc.ModifiesChannels()
	vc.Modifies(&e.sdStarted, &s.waiting)
	vc.Rely(func() {
		begins := vc.Nondet[bool]("begins")
		s.waiting = vc.Val(func() int {
			if begins && !e.sdStarted {
				return vc.ChanLen(x)
			}
			return s.waiting
		})
		e.sdStarted = vc.Val(func() bool { return begins || e.sdStarted })
	})
	vc.Invariant("nothing since", func() bool { return !e.sdStarted || vc.ChanLen(x) == s.waiting })
	e.Dispatch(event, topics...)
	vc.Ensures("nothing is sent once shutdown has begun", func() bool { return !e.sdStarted || vc.ChanLen(x) == s.waiting })
}

// ---- lock discipline ----

func guardBus(e *EventBus) {
	vc.Requires(func() bool { return e != nil && e.subscribers != nil && vc.Unlocked(&e.mutex) })
	vc.Guarded(&e.mutex, e.subscribers, &e.subscribers, &e.done, &e.sdStarted)
	vc.Alone()
}

//vc:contract (*EventBus).Subscribe prop=C30 inline panics=ok
func cSubscribeLocked(e *EventBus, topics []Topic) {
	guardBus(e)
	vc.ModifiesAnything()
	e.Subscribe(topics...)
	vc.Ensures("released", func() bool { return vc.Unlocked(&e.mutex) })
}

//vc:contract (*EventBus).Unsubscribe prop=C30 panics=ok
func cUnsubscribeLocked(e *EventBus, c chan Event, done chan struct{}) {
	guardBus(e)
	vc.ModifiesAnything()
	e.Unsubscribe(c, done)
	vc.Ensures("released", func() bool { return vc.Unlocked(&e.mutex) })
}

//vc:contract (*EventBus).Dispatch prop=C30 panics=ok
func cDispatchLocked(e *EventBus, event Event, topics []Topic) {
	guardBus(e)
	vc.ModifiesAnything()
	e.Dispatch(event, topics...)
	vc.Ensures("released", func() bool { return vc.Unlocked(&e.mutex) })
}

//vc:contract (*EventBus).Shutdown prop=C30 panics=ok block=ok noreplay
func cShutdownLocked(e *EventBus, ctx context.Context) {
	vc.Requires(func() bool { return ctx != nil })
	guardBus(e)
	vc.ModifiesAnything()
	e.Shutdown(ctx)
	vc.Ensures("released", func() bool { return vc.Unlocked(&e.mutex) })
}
