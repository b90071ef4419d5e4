//go:build go1.21

package proc

import (
	"time"

	"github.com/BTBurke/monny/internal/vc"
	"github.com/BTBurke/monny/pkg/eventbus"
)

var tickBus *eventbus.EventBus
var busEvents chan eventbus.Event // what the bus sends to the ticker
var ticks chan time.Time
var tickPeriod time.Duration
var theTicker *time.Ticker
var tickKind eventbus.EventType

var subscribed, tickers int
var emitted int    // events dispatched
var emittedOK bool // each as it should be
var stopped int
var announced int

//vc:extern (*github.com/BTBurke/monny/pkg/eventbus.EventBus).Subscribe when=ticker
func stubSubscribe(e *eventbus.EventBus, topics ...eventbus.Topic) (chan eventbus.Event, eventbus.ShutdownFunc) {
	subscribed++
	vc.Assert("subscribes to its bus", func() bool { return e == tickBus && subscribed == 1 })
	return busEvents, func() {
		announced++
		vc.Assert("announces once, when everything is over", func() bool {
			return announced == 1 && vc.Closed(busEvents) && vc.ChanLen(busEvents) == 0
		})
	}
}

//vc:extern time.NewTicker when=ticker
func stubNewTicker(d time.Duration) *time.Ticker {
	tickers++
	vc.Assert("one ticker of that period", func() bool { return tickers == 1 && d == tickPeriod })
	theTicker = &time.Ticker{C: ticks}
	return theTicker
}

//vc:extern (*time.Ticker).Stop when=ticker
func stubTickerStop(t *time.Ticker) {
	stopped++
	vc.Assert("stops its ticker once the bus is closed", func() bool {
		return t == theTicker && stopped == 1 && vc.Closed(busEvents) && vc.ChanLen(busEvents) == 0
	})
}

//vc:extern github.com/BTBurke/monny/pkg/eventbus.NewEvent when=ticker
func stubTickEvent(t eventbus.EventType, data any) (eventbus.Event, error) {
	e := vc.Nondet[eventbus.Event]("event")
	vc.Assume(func() bool { return e.Type() == t })
	return e, nil
}

//vc:extern (*github.com/BTBurke/monny/pkg/eventbus.EventBus).Dispatch when=ticker
func stubTickDispatch(e *eventbus.EventBus, evt eventbus.Event, topics ...eventbus.Topic) {
	vc.Assert("nothing after the end", func() bool { return announced == 0 })
	emittedOK = vc.Val(func() bool { return emittedOK && e == tickBus && evt.Type() == tickKind && len(topics) == 0 })
	emitted = vc.Val(func() int { return emitted + 1 })
}

//vc:contract NewTicker prop=C17 with=ticker noreplay
func cNewTicker(d time.Duration, e *eventbus.EventBus, evt eventbus.EventType) {
	vc.Requires(func() bool {
		return d > 0 && e != nil && tickBus == e && tickPeriod == d && tickKind == evt && busEvents != nil && vc.Closed(busEvents) && ticks != nil && !vc.Closed(ticks) &&
			subscribed == 0 && tickers == 0 && emitted == 0 && emittedOK && stopped == 0 && announced == 0
	})
	n := vc.ChanLen(ticks)
	vc.Alone()
	vc.ModifiesAnything()
	vc.Invariant("an event for every tick", func() bool { return emitted+vc.ChanLen(ticks) == n && emittedOK })
	vc.Invariant("not over", func() bool { return stopped == 0 && announced == 0 })
	vc.Invariant("channels", func() bool { return vc.Closed(busEvents) && !vc.Closed(ticks) })
	NewTicker(d, e, evt)
	vc.Ensures("an event of its type for every tick", func() bool { return emitted+vc.ChanLen(ticks) == n && emittedOK })
	vc.Ensures("stops for good once the bus is closed", func() bool { return stopped == 1 && announced == 1 })
	vc.Ensures("one subscription, one timer", func() bool { return subscribed == 1 && tickers == 1 })
}

//vc:contract NewTicker prop=C17 with=ticker noreplay
func cNoTicker(e *eventbus.EventBus, evt eventbus.EventType) {
	vc.Requires(func() bool { return e != nil && subscribed == 0 && tickers == 0 && vc.Pending() == 0 })
	vc.ModifiesAnything()
	NewTicker(0, e, evt)
	vc.Ensures("nothing is started", func() bool { return subscribed == 0 && tickers == 0 && vc.Pending() == 0 })
}

// While the bus is open the ticker goes on: it waits for the next tick when all that have come are dealt with.
//
//vc:contract NewTicker prop=C17 with=ticker noreplay
func cTicking(d time.Duration, e *eventbus.EventBus, evt eventbus.EventType) {
	vc.Requires(func() bool {
		return d > 0 && e != nil && tickBus == e && tickPeriod == d && tickKind == evt && busEvents != nil && !vc.Closed(busEvents) && ticks != nil && !vc.Closed(ticks) &&
			subscribed == 0 && tickers == 0 && emitted == 0 && emittedOK && stopped == 0 && announced == 0
	})
	n := vc.ChanLen(ticks)
	vc.Alone()
	vc.ModifiesAnything()
	vc.Invariant("an event for every tick", func() bool { return emitted+vc.ChanLen(ticks) == n && emittedOK })
	vc.Invariant("not over", func() bool { return stopped == 0 && announced == 0 })
	vc.Invariant("channels", func() bool { return !vc.Closed(busEvents) && !vc.Closed(ticks) && vc.ChanLen(busEvents) >= 0 })
	NewTicker(d, e, evt)
	vc.Ensures("an event of its type for every tick so far", func() bool { return emitted == n && emittedOK && vc.ChanLen(ticks) == 0 })
	vc.Ensures("goes on", func() bool { return stopped == 0 && announced == 0 })
	vc.Ensures("no event of the bus is left", func() bool { return vc.ChanLen(busEvents) == 0 })
}
