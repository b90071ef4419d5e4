//go:build go1.21

package monny

import (
	"io"
	"os"
	"os/exec"
	"time"

	"github.com/BTBurke/monny/internal/vc"
)

// ---- the handlers, as Exec calls them ----

type calls struct {
	finished, signalled, timedOut, killed int // the outcomes
	warned, measured, high                int // time warnings, measurements, and those that demand a kill
	sig                                   os.Signal
	right                                 bool // every call was about the command and process of this run
}

var called calls
var runCommand *Command
var runProcess *exec.Cmd
var outcome error // what the outcome's handler returns

type highMemory struct{}

func (highMemory) Error() string { return "high memory" }

type watchedHandlers struct{}

func about(c *Command, cmd *exec.Cmd) {
	called.right = called.right && c == runCommand && cmd == runProcess && cmd != nil
}

func (watchedHandlers) Finished(c *Command, cmd *exec.Cmd) error {
	about(c, cmd)
	called.finished++
	return outcome
}
func (watchedHandlers) Signal(c *Command, cmd *exec.Cmd, sig os.Signal) error {
	about(c, cmd)
	called.signalled++
	called.sig = sig
	return outcome
}
func (watchedHandlers) Timeout(c *Command, cmd *exec.Cmd) error {
	about(c, cmd)
	called.timedOut++
	return outcome
}
func (watchedHandlers) TimeWarning(c *Command) error {
	called.right = called.right && c == runCommand
	called.warned = 1
	return nil
}
func (watchedHandlers) CheckMemory(c *Command, cmd *exec.Cmd) error {
	about(c, cmd)
	called.measured = 1
	if tooMuch || endless && vc.Nondet[bool]("high") {
		called.high++
		return highMemory{}
	}
	return nil
}
func (watchedHandlers) KillOnHighMemory(c *Command, cmd *exec.Cmd) error {
	about(c, cmd)
	called.killed++
	return outcome
}

// ---- the process ----

var started, startFails bool
var pipeFails bool

type notStarted struct{}

func (notStarted) Error() string { return "not started" }

var progName string
var progArgs []string
var processN int

//vc:extern os/exec.Command when=exec
func stubExecCommand(name string, arg ...string) *exec.Cmd {
	progName, progArgs = name, arg
	processN++
	runProcess = &exec.Cmd{}
	return runProcess
}

//vc:extern (*os/exec.Cmd).StdinPipe when=exec
func stubStdin(c *exec.Cmd) (io.WriteCloser, error) {
	if pipeFails {
		return nil, notStarted{}
	}
	return nopWriter{}, nil
}

type nopWriter struct{}

func (nopWriter) Write(b []byte) (int, error) { return len(b), nil }
func (nopWriter) Close() error                { return nil }

type nopReader struct{}

func (nopReader) Read(b []byte) (int, error) { return 0, io.EOF }
func (nopReader) Close() error               { return nil }

//vc:extern (*os/exec.Cmd).StdoutPipe when=exec
func stubStdout(c *exec.Cmd) (io.ReadCloser, error) { return nopReader{}, nil }

//vc:extern (*os/exec.Cmd).StderrPipe when=exec
func stubStderr(c *exec.Cmd) (io.ReadCloser, error) { return nopReader{}, nil }

//vc:extern (*os/exec.Cmd).Start when=exec
func stubStart(c *exec.Cmd) error {
	if startFails {
		return notStarted{}
	}
	started = c == runProcess
	return nil
}

//vc:extern (*os/exec.Cmd).Wait when=exec
func stubWait(c *exec.Cmd) error {
	if !willFinish {
		select {}
	}
	return nil
}

//vc:extern (*os.File).Stat when=exec
func stubStdinStat(f *os.File) (os.FileInfo, error) {
	if vc.Nondet[bool]("no standard input") {
		return nil, notStarted{}
	}
	return info{}, nil
}

//vc:extern (*Command).processStdout when=exec
func stubProcessStdout(c *Command, line []byte) {}

//vc:extern (*Command).processStderr when=exec
func stubProcessStderr(c *Command, line []byte) {}

//vc:extern (*Command).Cleanup when=exec
func stubCleanup(c *Command) []error { return nil }

// ---- what happens during the run ----

var willFinish bool                 // the process ends
var fires, too time.Duration        // the timers set to these go off
var armedN int                      // how many timers were set to the first
var willSignal bool                 // a signal arrives
var trapped os.Signal               // this one
var endless, measures, tooMuch bool // memory is measured again and again, or once; and there is too much of it

//vc:extern time.After when=exec
func stubAfter(d time.Duration) <-chan time.Time {
	ch := make(chan time.Time, 1)
	if d == fires {
		armedN++
	}
	if d == fires || d == too {
		ch <- time.Time{}
	}
	return ch
}

//vc:extern time.Tick when=exec
func stubTick(d time.Duration) <-chan time.Time {
	if endless {
		return time.NewTicker(d).C
	}
	ch := make(chan time.Time, 1)
	if measures {
		ch <- time.Time{}
	}
	return ch
}

//vc:extern os/signal.Notify when=exec
func stubNotify(c chan<- os.Signal, sig ...os.Signal) {
	if willSignal {
		c <- trapped
	}
}

func execReady(c *Command) bool {
	return c != nil && len(c.UserCommand) > 0 && c.handler == ProcessHandlers(watchedHandlers{}) && runCommand == c && called == calls{right: true} &&
		!started && processN == 0 && vc.Unlocked(&c.mutex) && c.errors == ErrorReporter(quiet{}) && c.out == io.WriteCloser(nopWriter{}) && c.err == io.WriteCloser(nopWriter{}) && len(c.cleanup) < 1000
}

func outcomes() int { return called.finished + called.signalled + called.timedOut + called.killed }

// Any of the outcomes may come first; memory is measured any number of times.
//
//vc:contract (*Command).Exec prop=C37 with=exec noreplay inline
func cExec(c *Command) {
	vc.Alone()
	vc.ModifiesAnything()
	vc.Requires(func() bool { return execReady(c) && willFinish && willSignal && endless && !tooMuch && too < 0 })
	vc.Invariant("no outcome yet", func() bool {
		return outcomes() == 0 && called.finished >= 0 && called.signalled >= 0 && called.timedOut >= 0 && called.high == 0 && called.right
	})
	kill, warn := c.Config.KillTimeout, c.Config.NotifyTimeout
	vc.Invariant("only what is configured", func() bool { return called.warned == 0 || warn > 0 && fires == warn })
	err := c.Exec()
	vc.Ensures("one outcome if the process started", func() bool { return started && outcomes() == 1 || !started && outcomes() == 0 && err != nil })
	vc.Ensures("started unless that is impossible", func() bool { return started == (!startFails && !pipeFails) })
	vc.Ensures("the outcome is returned", func() bool { return !started || err == outcome })
	vc.Ensures("about this run", func() bool { return called.right })
	vc.Ensures("the signal is passed on", func() bool { return called.signalled == 0 || called.sig == trapped })
	vc.Ensures("killed exactly if that was demanded", func() bool { return called.killed == called.high })
	vc.Ensures("timed out only if there is a limit", func() bool { return called.timedOut == 0 || kill > 0 && fires == kill })
	vc.Ensures("warned only if there is a limit", func() bool { return called.warned == 0 || warn > 0 && fires == warn })
}

// Only one thing can end the run, and it does.
//
//vc:contract (*Command).Exec prop=C37 with=exec noreplay inline
func cExecSignal(c *Command) {
	vc.Alone()
	vc.ModifiesAnything()
	vc.Requires(func() bool {
		return execReady(c) && !startFails && !pipeFails && !willFinish && willSignal && !endless && !measures && fires < 0 && too < 0
	})
	vc.Invariant("no outcome yet", func() bool { return called == calls{right: true} })
	c.Exec()
	vc.Ensures("the signal ended it", func() bool { return called == calls{right: true, signalled: 1, sig: trapped} })
}

//vc:contract (*Command).Exec prop=C37 with=exec noreplay inline
func cExecTimeout(c *Command) {
	vc.Alone()
	vc.ModifiesAnything()
	vc.Requires(func() bool {
		return execReady(c) && !startFails && !pipeFails && !willFinish && !willSignal && !endless && !measures && c.Config.KillTimeout > 0 && fires == c.Config.KillTimeout && too == c.Config.NotifyTimeout && fires != too && armedN == 0
	})
	warn := c.Config.NotifyTimeout
	vc.Invariant("no outcome yet", func() bool {
		return (called == calls{right: true} || warn > 0 && called == calls{right: true, warned: 1}) && armedN == 1
	})
	c.Exec()
	vc.Ensures("set once", func() bool { return armedN == 1 })
	vc.Ensures("the time limit ended it", func() bool { return called.timedOut == 1 && outcomes() == 1 })
}

//vc:contract (*Command).Exec prop=C37 with=exec noreplay inline
func cExecMemory(c *Command) {
	vc.Alone()
	vc.ModifiesAnything()
	vc.Requires(func() bool {
		return execReady(c) && !startFails && !pipeFails && !willFinish && !willSignal && !endless && measures && tooMuch && fires < 0 && too < 0
	})
	vc.Invariant("no outcome yet", func() bool { return called == calls{right: true} })
	c.Exec()
	vc.Ensures("the memory limit ended it", func() bool { return called == calls{right: true, measured: 1, high: 1, killed: 1} })
}

//vc:contract (*Command).Exec prop=C37 with=exec noreplay inline
func cExecFinished(c *Command) {
	vc.Alone()
	vc.ModifiesAnything()
	vc.Requires(func() bool {
		return execReady(c) && !startFails && !pipeFails && willFinish && !willSignal && !endless && measures && !tooMuch && too < 0 && (fires < 0 || fires == c.Config.NotifyTimeout && fires > 0 && c.Config.KillTimeout <= 0)
	})
	vc.Invariant("no outcome yet", func() bool { return outcomes() == 0 && called.right })
	c.Exec()
	vc.Ensures("the end of the process ended it", func() bool { return called.finished == 1 && outcomes() == 1 && called.right })
}

type quiet struct{}

func (quiet) ReportError(e error) {}
