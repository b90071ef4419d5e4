//go:build go1.21

package proc

import (
	"reflect"

	"github.com/BTBurke/monny/internal/vc"
	"github.com/BTBurke/monny/pkg/eventbus"
)

var theLines *vc.LineReader
var started int            // the line the reader was at
var published int          // lines whose event was published, or could not be made
var publishedOK bool       // each in order, as a log event on the log topic
var failures, reported int // failures and events on the error topic
var recorded int           // lines added to the history
var recordedOK bool        // each in order
var theHistory *Queue

// recBus records what is dispatched.
type recBus struct{}

func (recBus) Dispatch(e eventbus.Event, topics ...eventbus.Topic) {
	isError := vc.Val(func() bool { return len(topics) == 1 && topics[0] == eventbus.OnErrorTopic() })
	isLog := vc.Val(func() bool { return !isError && (eventbus.VcFailed || isLogEvent(e, topics)) })
	reported = vc.Val(func() int {
		if isError {
			return reported + 1
		}
		return reported
	})
	failures = vc.Val(func() int {
		if isLog && eventbus.VcFailed {
			return failures + 1
		}
		return failures
	})
	publishedOK = vc.Val(func() bool { return publishedOK && (isError || isLog && published < len(theLines.Lines)) })
	published = vc.Val(func() int {
		if isLog {
			return published + 1
		}
		return published
	})
}

func isLogEvent(e eventbus.Event, topics []eventbus.Topic) bool {
	l, ok := eventbus.VcLog.(LogEvent)
	return ok && e.Type() == LogLine && vc.Same(eventbus.VcData(e), eventbus.VcMade) && len(topics) == 1 && topics[0] == LogTopic &&
		published < len(theLines.Lines) && string(l.Line) == theLines.Lines[published]
}

//vc:extern (*Queue).Add when=emit
func stubQueueAdd(q *Queue, line string) {
	recordedOK = vc.Val(func() bool {
		return recordedOK && q == theHistory && recorded < len(theLines.Lines) && line == theLines.Lines[recorded]
	})
	recorded = vc.Val(func() int { return recorded + 1 })
}

type errorType struct{ reflect.Type }

func (errorType) String() string { return "error" }

//vc:extern reflect.TypeOf when=emit
func stubTypeOf(x any) reflect.Type { return errorType{} }

// recSink is a sink that may fail; one is watched.
type recSink struct{ id int }

var watchedSink int
var isSink bool    // there is one
var written int    // lines written to the watched sink
var writtenOK bool // each in order

type sinkFailure struct{}

func (sinkFailure) Error() string { return "sink" }

func (s recSink) Write(b []byte) (int, error) {
	writtenOK = vc.Val(func() bool {
		return writtenOK && (s.id != watchedSink || written == theLines.Next()-1 && isLine(b, theLines.Lines[theLines.Next()-1]))
	})
	written = vc.Val(func() int {
		if s.id == watchedSink {
			return written + 1
		}
		return written
	})
	if vc.Nondet[bool]("write fails") {
		failures = vc.Val(func() int { return failures + 1 })
		return 0, sinkFailure{}
	}
	return len(b), nil
}
func (recSink) Close() error { return nil }

// isLine: b is the line and a newline.
func isLine(b []byte, line string) bool {
	n := len(line)
	return len(b) == n+1 && b[n] == '\n' && string(b[:n]) == line
}

var finished int
var finishedOK bool

// finish stands for the function called in the end.
func finish(id int) {
	finishedOK = vc.Val(func() bool {
		return finishedOK && theLines.Next() == len(theLines.Lines) && published == len(theLines.Lines) && recorded == published && (!isSink || written == published) && reported == failures
	})
	finished++
}

//vc:contract startLogEmitter prop=C16 with=emit family=finish noreplay
func cStartLogEmitter(r *vc.LineReader, src source, sinks []sink, done func(), w int) {
	vc.ModifiesAnything()
	src.in = r
	theLines, theHistory = r, src.q
	isSink = w < len(sinks)
	vc.Requires(func() bool {
		return r != nil && r.Next() == 0 && src.q != nil &&
			0 <= w && done != nil && vc.Forall(0, len(sinks), func(i int) bool {
			return vc.IsType[recSink](sinks[i].out) && (sinks[i].out.(recSink).id == watchedSink) == (i == w)
		}) && published == 0 && publishedOK && failures == 0 && reported == 0 && recorded == 0 && recordedOK && written == 0 && writtenOK && finished == 0 && finishedOK
	})
	vc.Invariant("all is well", func() bool {
		return publishedOK && recordedOK && finished == 0 && finishedOK
	})
	vc.Invariant("all is written", func() bool { return writtenOK })
	vc.Invariant("the line at hand", func(data []byte) bool {
		return r.Next() > 0 && r.Next() <= len(r.Lines) && string(data) == r.Lines[r.Next()-1]
	})
	vc.Invariant("within the lines", func() bool { return 0 <= r.Next() && r.Next() <= len(r.Lines) })
	vc.Invariant("published", func() bool { return published == r.Next() })
	vc.Invariant("to be published", func() bool { return published == r.Next()-1 })
	vc.Invariant("recorded", func() bool { return recorded == r.Next() })
	vc.Invariant("to be recorded", func() bool { return recorded == r.Next()-1 })
	vc.Invariant("written", func() bool { return !isSink || written == r.Next() })
	vc.Invariant("being written", func(i int) bool { return !isSink || i > w && written == r.Next() || i <= w && written == r.Next()-1 })
	vc.Invariant("what comes next", func(i int) bool {
		return 0 <= i && (i >= len(sinks) || vc.IsType[recSink](sinks[i].out) && (sinks[i].out.(recSink).id == watchedSink) == (i == w))
	})
	vc.Invariant("reported", func() bool { return reported == failures })
	vc.Invariant("reported later", func() bool { return reported == failures-1 })
	startLogEmitter(recBus{}, src, sinks, done)
	vc.Ensures("the source is exhausted", func() bool { return r.Next() == len(r.Lines) })
	vc.Ensures("every line is recorded once, in order", func() bool { return recorded == len(r.Lines) && recordedOK })
	vc.Ensures("every line is published once, in order", func() bool { return published == len(r.Lines) && publishedOK })
	vc.Ensures("every line is echoed once to every sink, in order", func() bool { return !isSink || written == len(r.Lines) && writtenOK })
	vc.Ensures("every failure is reported", func() bool { return reported == failures })
	vc.Ensures("completion is signalled once, in the end", func() bool { return finished == 1 && finishedOK })
}
