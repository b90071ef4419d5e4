//go:build go1.21

package proc

import (
	"io"
	"os"
	"os/exec"

	"github.com/BTBurke/monny/internal/vc"
	"github.com/BTBurke/monny/pkg/eventbus"
)

// specKept counts the first n sinks that do not have the name.
//
//vc:spec
func specKept(s vc.Seq[sink], name sourceOrSink, n int) int {
	if n <= 0 {
		return 0
	}
	if s.At(n-1).name != name {
		return specKept(s, name, n-1) + 1
	}
	return specKept(s, name, n-1)
}

// sinksWithout: now is was without the sinks of that name, the others in order.
func sinksWithout(now []sink, was vc.Seq[sink], name sourceOrSink) bool {
	n := was.Len()
	return len(now) == specKept(was, name, n) && vc.Forall(0, n, func(i int) bool {
		k := specKept(was, name, i)
		return was.At(i).name == name || k >= 0 && k < len(now) && now[k] == was.At(i)
	}) && vc.Forall(0, len(now), func(i int) bool { return now[i].name != name })
}

//vc:contract filterSink prop=C15
func cFilterSink(sinks []sink, target sourceOrSink) {
	was := vc.Snap(sinks)
	vc.Invariant("kept so far", func(out []sink, i int) bool { return len(out) == specKept(was, target, i) })
	vc.Invariant("bound", func(i int) bool { return 0 <= specKept(was, target, i) && specKept(was, target, i) <= i })
	vc.Invariant("in order", func(out []sink, i int) bool {
		return vc.Forall(0, i, func(j int) bool {
			k := specKept(was, target, j)
			return was.At(j).name == target || k >= 0 && k < len(out) && out[k] == was.At(j)
		})
	})
	vc.Invariant("no other", func(out []sink) bool {
		return vc.Forall(0, len(out), func(j int) bool { return out[j].name != target })
	})
	out := filterSink(sinks, target)
	vc.Ensures("exactly the others, in order", func() bool { return sinksWithout(out, was, target) })
	vc.Ensures("a list of its own", func() bool { return vc.Fresh(out) })
}

// specKeptSources counts the first n sources that do not have the name.
//
//vc:spec
func specKeptSources(s vc.Seq[source], name sourceOrSink, n int) int {
	if n <= 0 {
		return 0
	}
	if s.At(n-1).name != name {
		return specKeptSources(s, name, n-1) + 1
	}
	return specKeptSources(s, name, n-1)
}

func sourcesWithout(now []source, was vc.Seq[source], name sourceOrSink) bool {
	n := was.Len()
	return len(now) == specKeptSources(was, name, n) && vc.Forall(0, n, func(i int) bool {
		k := specKeptSources(was, name, i)
		return was.At(i).name == name || k >= 0 && k < len(now) && now[k] == was.At(i)
	}) && vc.Forall(0, len(now), func(i int) bool { return now[i].name != name })
}

//vc:contract filterSource prop=C15
func cFilterSource(sources []source, target sourceOrSink) {
	was := vc.Snap(sources)
	vc.Invariant("kept so far", func(out []source, i int) bool { return len(out) == specKeptSources(was, target, i) })
	vc.Invariant("bound", func(i int) bool {
		return 0 <= specKeptSources(was, target, i) && specKeptSources(was, target, i) <= i
	})
	vc.Invariant("in order", func(out []source, i int) bool {
		return vc.Forall(0, i, func(j int) bool {
			k := specKeptSources(was, target, j)
			return was.At(j).name == target || k >= 0 && k < len(out) && out[k] == was.At(j)
		})
	})
	vc.Invariant("no other", func(out []source) bool {
		return vc.Forall(0, len(out), func(j int) bool { return out[j].name != target })
	})
	out := filterSource(sources, target)
	vc.Ensures("exactly the others, in order", func() bool { return sourcesWithout(out, was, target) })
	vc.Ensures("a list of its own", func() bool { return vc.Fresh(out) })
}

func sameSinks(now []sink, was vc.Seq[sink]) bool {
	return len(now) == was.Len() && vc.Forall(0, was.Len(), func(i int) bool { return now[i] == was.At(i) })
}

func sameSources(now []source, was vc.Seq[source]) bool {
	return len(now) == was.Len() && vc.Forall(0, was.Len(), func(i int) bool { return now[i] == was.At(i) })
}

//vc:lemma prop=C15
func lHistory(l *logProcOpt, n int) {
	vc.Assume(func() bool { return l != nil })
	sources, sinks := vc.Snap(l.sources), vc.Snap(l.sinks)
	err := WithHistory(n).apply(l)
	vc.Assert("sets the history and nothing else", func() bool {
		return err == nil && l.hist == n && sameSources(l.sources, sources) && sameSinks(l.sinks, sinks)
	})
}

//vc:lemma prop=C15
func lNoOutput(l *logProcOpt) {
	vc.Assume(func() bool { return l != nil })
	sources, hist := vc.Snap(l.sources), l.hist
	err := WithNoOutput().apply(l)
	vc.Assert("removes every sink and nothing else", func() bool {
		return err == nil && l.hist == hist && sameSources(l.sources, sources) && len(l.sinks) == 0
	})
}

//vc:lemma prop=C15
func lNoSink(l *logProcOpt, stdout bool) {
	vc.Assume(func() bool { return l != nil })
	sources, sinks, hist := vc.Snap(l.sources), vc.Snap(l.sinks), l.hist
	o, name := WithNoStderrOutput(), mStderr
	if stdout {
		o, name = WithNoStdoutOutput(), mStdout
	}
	err := o.apply(l)
	vc.Assert("removes that sink and nothing else", func() bool {
		return err == nil && l.hist == hist && sameSources(l.sources, sources) && sinksWithout(l.sinks, sinks, name)
	})
}

//vc:lemma prop=C15
func lNoSource(l *logProcOpt, stdout bool) {
	vc.Assume(func() bool { return l != nil })
	sources, sinks, hist := vc.Snap(l.sources), vc.Snap(l.sinks), l.hist
	o, name := WithNoStderrInput(), pStderr
	if stdout {
		o, name = WithNoStdoutInput(), pStdout
	}
	err := o.apply(l)
	vc.Assert("removes that source and nothing else", func() bool {
		return err == nil && l.hist == hist && sameSinks(l.sinks, sinks) && sourcesWithout(l.sources, sources, name)
	})
}

type noPipe struct{}

func (noPipe) Error() string { return "no pipe" }

type pipe struct{ n int }

func (pipe) Read(b []byte) (int, error) { return 0, io.EOF }
func (pipe) Close() error               { return nil }

var outFails, errFails bool

//vc:extern (*os/exec.Cmd).StdoutPipe when=pipes
func stubStdoutPipe(c *exec.Cmd) (io.ReadCloser, error) {
	if outFails {
		return nil, noPipe{}
	}
	return pipe{1}, nil
}

//vc:extern (*os/exec.Cmd).StderrPipe when=pipes
func stubStderrPipe(c *exec.Cmd) (io.ReadCloser, error) {
	if errFails {
		return nil, noPipe{}
	}
	return pipe{2}, nil
}

//vc:lemma prop=C15 with=pipes noreplay
func lCommand(l *logProcOpt, c *exec.Cmd) {
	vc.Assume(func() bool {
		return l != nil && c != nil && l.hist >= 0 && l.hist < 1<<30 && len(l.sources) < 1<<30 && len(l.sinks) < 1<<30
	})
	sources, sinks, hist := vc.Snap(l.sources), vc.Snap(l.sinks), l.hist
	path := c.Path
	err := WithCommand(c).apply(l)
	n, m := sources.Len(), sinks.Len()
	vc.Assert("fails if the pipes cannot be had", func() bool { return (err != nil) == (path != "" && (outFails || errFails)) })
	if err != nil {
		return
	}
	vc.Assert("the history is kept", func() bool { return l.hist == hist })
	vc.Assert("sources before are kept", func() bool {
		return len(l.sources) >= n && vc.Forall(0, n, func(i int) bool { return l.sources[i] == sources.At(i) })
	})
	vc.Assert("sinks before are kept", func() bool {
		return len(l.sinks) >= m && vc.Forall(0, m, func(i int) bool { return l.sinks[i] == sinks.At(i) })
	})
	if path == "" {
		vc.Assert("reads the piped input", func() bool {
			s := l.sources[n]
			return len(l.sources) == n+1 && s.name == mStdin && s.in == io.Reader(os.Stdin) && s.q.capacity == hist && queueInv(s.q) && len(s.q.q) == 0
		})
		vc.Assert("writes to standard output", func() bool {
			return len(l.sinks) == m+1 && l.sinks[m].name == mStdout && l.sinks[m].out == io.WriteCloser(os.Stdout)
		})
		return
	}
	vc.Assert("reads both streams of the process", func() bool {
		a, b := l.sources[n], l.sources[n+1]
		return len(l.sources) == n+2 && a.name == pStdout && a.in == io.Reader(pipe{1}) && b.name == pStderr && b.in == io.Reader(pipe{2})
	})
	vc.Assert("each with the configured history", func() bool {
		a, b := l.sources[n].q, l.sources[n+1].q
		return a != b && a.capacity == hist && b.capacity == hist && queueInv(a) && queueInv(b) && len(a.q) == 0 && len(b.q) == 0
	})
	vc.Assert("writes to both streams", func() bool {
		a, b := l.sinks[m], l.sinks[m+1]
		return len(l.sinks) == m+2 && a.name == mStdout && a.out == io.WriteCloser(os.Stdout) && b.name == mStderr && b.out == io.WriteCloser(os.Stderr)
	})
}

// The order of the options: the history is known before sources are made, and what is there can be taken away.
// No two options share a place, so the order they were given in does not matter.
//
//vc:lemma prop=C15
func lOrder(c *exec.Cmd, n int) {
	h, w := WithHistory(n).priority(), WithCommand(c).priority()
	vc.Assert("the history comes first", func() bool { return h < w })
	a, b, d, e, f := WithNoOutput().priority(), WithNoStdoutOutput().priority(), WithNoStderrOutput().priority(), WithNoStdoutInput().priority(), WithNoStderrInput().priority()
	vc.Assert("what disables comes after the command", func() bool { return w < a && w < b && w < d && w < e && w < f })
	vc.Assert("no two have the same place", func() bool {
		return a != b && a != d && a != e && a != f && b != d && b != e && b != f && d != e && d != f && e != f
	})
}

// ---- NewLogProcessor ----

var applied int       // options applied
var appliedOK bool    // each by its place, on the same settings, the first on the defaults
var lastPlace int     // the place of the last one
var optionFailed bool // one of them failed
var settings *logProcOpt
var watchedOption int // one option is watched
var watchedTimes int  // how often it was applied

type optionError struct{}

func (optionError) Error() string { return "option" }

// anyOption stands for any option.
func anyOption(id int, l *logProcOpt) error {
	appliedOK = appliedOK && !optionFailed && vc.UFInt("place", id) >= lastPlace
	if applied == 0 {
		appliedOK = appliedOK && l != nil && l.hist == 30 && len(l.sources) == 0 && len(l.sinks) == 0
		settings = l
	}
	appliedOK = appliedOK && l == settings
	lastPlace = vc.UFInt("place", id)
	applied++
	if id == watchedOption {
		watchedTimes++
	}
	l.sources, l.sinks = vc.Nondet[[]source]("sources"), vc.Nondet[[]sink]("sinks")
	if vc.Nondet[bool]("fails") {
		optionFailed = true
		return optionError{}
	}
	return nil
}

func place(o LogProcessorOption) int { return int(o.(optF).pri) }

// sorted replaces the options by a permutation of them in which less is never violated.
func sorted(s []LogProcessorOption, less func(i, j int) bool) {
	n := len(s)
	i, j := vc.Nondet[int]("i"), vc.Nondet[int]("j")
	vc.Assert("compared by their places", func() bool {
		return i < 0 || i >= n || j < 0 || j >= n || less(i, j) == (place(s[i]) < place(s[j]))
	})
	t := vc.Nondet[[]LogProcessorOption]("sorted")
	old := vc.Snap(s)
	vc.Assume(func() bool {
		return len(t) == n && vc.Forall(0, n, func(k int) bool {
			p := vc.UFInt("perm", k)
			return 0 <= p && p < n && t[k] == old.At(p) && vc.UFInt("inverse", p) == k
		}) && vc.Forall(0, n, func(k int) bool {
			p := vc.UFInt("inverse", k)
			return 0 <= p && p < n && vc.UFInt("perm", p) == k
		}) && vc.Forall(1, n, func(k int) bool { return place(t[k-1]) <= place(t[k]) })
	})
	copy(s, t)
}

//vc:extern sort.Slice when=logs
func stubSortSlice(x any, less func(i, j int) bool) {
	if s, ok := x.([]LogProcessorOption); ok {
		sorted(s, less)
	}
}

//vc:extern sort.SliceStable when=logs
func stubSortSliceStable(x any, less func(i, j int) bool) {
	if s, ok := x.([]LogProcessorOption); ok {
		sorted(s, less)
	}
}

var emitters int    // sources being read
var emittersOK bool // each once, in order, on the bus
var theBus *eventbus.EventBus

//vc:extern startLogEmitter when=logs
func stubEmitter(bus eventbus.EventDispatcher, src source, sinks []sink, done func()) {
	emittersOK = emittersOK && bus == eventbus.EventDispatcher(theBus) && settings != nil && emitters < len(settings.sources) && src == settings.sources[emitters] && done != nil
	emitters++
	if done != nil {
		done()
	}
}

//vc:contract NewLogProcessor prop=C15 with=logs family=anyOption noreplay
func cNewLogProcessor(eb *eventbus.EventBus, options []LogProcessorOption, w int) {
	vc.Alone()
	vc.ModifiesAnything()
	n := len(options)
	vc.Requires(func() bool {
		return eb != nil && theBus == eb && applied == 0 && appliedOK && lastPlace <= -1 && !optionFailed && settings == nil && watchedTimes == 0 &&
			emitters == 0 && emittersOK && 0 <= w && w < n &&
			vc.Forall(0, n, func(i int) bool {
				return vc.IsType[optF](options[i]) && options[i].(optF).f != nil && place(options[i]) >= 0 && vc.UFInt("place", vc.FnID(options[i].(optF).f)) == place(options[i]) && (i == w) == (vc.FnID(options[i].(optF).f) == watchedOption)
			})
	})
	vc.Invariant("applied so far", func(i int) bool { return applied == i && i <= n && appliedOK && !optionFailed })
	vc.Invariant("by their places", func(i int) bool { return i == 0 || lastPlace == place(options[i-1]) })
	vc.Invariant("none before", func(i int) bool { return i > 0 || lastPlace <= -1 })
	vc.Invariant("once so far", func(i int) bool {
		k := vc.UFInt("inverse", w)
		return i <= k && watchedTimes == 0 || i > k && watchedTimes == 1
	})
	vc.Invariant("the settings", func(l *logProcOpt) bool {
		return applied == 0 && l.hist == 30 && len(l.sources) == 0 && len(l.sinks) == 0 || applied > 0 && settings == l
	})
	vc.Invariant("read so far", func(i int) bool { return emitters == i && emittersOK })
	p, err := NewLogProcessor(eb, options...)
	vc.Ensures("an option that fails is an error", func() bool { return (err != nil) == optionFailed && (p == nil) == optionFailed })
	vc.Ensures("in the order of their places", func() bool { return appliedOK })
	vc.Ensures("every option is applied once", func() bool { return err != nil || applied == n && watchedTimes == 1 })
	vc.Ensures("the settings are used", func() bool { return err != nil || p.logProcOpt == settings })
	vc.Ensures("every source is read", func() bool { return err != nil || emitters == len(settings.sources) && emittersOK })
	vc.Ensures("nothing is read if anything is wrong", func() bool { return err == nil || emitters == 0 })
	vc.Ensures("all done", func() bool { return err != nil || vc.WaitCount(&p.wg) == 0 })
}

// ---- which sinks a source is given ----

var made bool // the settings are made
var theSinks []sink
var sourcesMade []source
var crossed bool // the streams of a process are crossed
var sinksOK bool // every source writes to all sinks but the crossed one
var aSink int    // one of the sinks is watched
var given int    // one of the sinks given to a source is watched

// setUp stands for any option: whatever the settings are in the end.
func setUp(id int, l *logProcOpt) error {
	l.sources, l.sinks = vc.Nondet[[]source]("sources"), vc.Nondet[[]sink]("sinks")
	theSinks = l.sinks
	vc.Assume(func() bool { return 0 <= aSink && aSink < len(theSinks) })
	made = true
	return nil
}

//vc:extern sort.Slice when=sinks
func stubNoSortSlice(x any, less func(i, j int) bool) {}

//vc:extern sort.SliceStable when=sinks
func stubNoSortSliceStable(x any, less func(i, j int) bool) {}

//vc:extern startLogEmitter when=sinks
func stubEmitterSinks(bus eventbus.EventDispatcher, src source, sinks []sink, done func()) {
	if !made {
		return
	}
	other := sourceOrSink(0)
	switch src.name {
	case pStdout:
		other = mStderr
	case pStderr:
		other = mStdout
	}
	crossed = crossed || other != 0 && 0 <= given && given < len(sinks) && sinks[given].name == other
	k := aSink
	if other != 0 {
		k = specKept(vc.Snap(theSinks), other, aSink)
	}
	s := theSinks[aSink]
	sinksOK = sinksOK && (other != 0 && s.name == other || 0 <= k && k < len(sinks) && sinks[k] == s)
	done()
}

//vc:contract NewLogProcessor prop=C15 with=sinks family=setUp noreplay
func cNewLogProcessorSinks(eb *eventbus.EventBus, options []LogProcessorOption) {
	vc.Alone()
	vc.ModifiesAnything()
	vc.Requires(func() bool {
		return eb != nil && !made && !crossed && sinksOK && len(options) > 0 &&
			vc.Forall(0, len(options), func(i int) bool {
				return vc.IsType[optF](options[i]) && options[i].(optF).f != nil
			})
	})
	vc.Invariant("made", func(l *logProcOpt) bool { return !made || vc.Same(l.sinks, theSinks) })
	vc.Invariant("streams so far", func() bool { return !crossed && sinksOK && (!made || 0 <= aSink && aSink < len(theSinks)) })
	NewLogProcessor(eb, options...)
	vc.Ensures("streams are not crossed", func() bool { return !crossed })
	vc.Ensures("every other sink is used, in order", func() bool { return sinksOK })
}
