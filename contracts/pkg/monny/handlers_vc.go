//go:build go1.21

package monny

import (
	"os"
	"os/exec"
	"syscall"
	"time"

	"github.com/BTBurke/monny/internal/vc"
	"github.com/BTBurke/monny/pkg/proto"
)

// ---- the process, as the operating system shows it ----

//vc:extern (*os.ProcessState).Success
func extSuccess(p *os.ProcessState) bool { return vc.UFBool("exited well") }

//vc:extern (*os.ProcessState).Sys
func extSys(p *os.ProcessState) interface{} {
	if vc.UFBool("no exit status") {
		return nil
	}
	return syscall.WaitStatus(exitRaw)
}

var exitRaw uint32

//vc:extern (syscall.WaitStatus).ExitStatus
func extExitStatus(w syscall.WaitStatus) int { return vc.UFInt("exit status", int(w)) }

var signals []sentSignal // signals sent

type sentSignal struct {
	p   *os.Process
	sig os.Signal
}

var signalFails bool

type signalError struct{}

func (signalError) Error() string { return "not delivered" }

//vc:extern (*os.Process).Signal
func extSignal(p *os.Process, sig os.Signal) error {
	signals = append(signals, sentSignal{p, sig})
	if signalFails {
		return signalError{}
	}
	return nil
}

// ---- files ----

type missing struct{ path string }

func (missing) Error() string { return "no such file" }

type unreadable struct{ path string }

func (unreadable) Error() string { return "cannot look" }

type info struct{ path string }

func (f info) Name() string       { return vc.UFStr("name", f.path) }
func (f info) Size() int64        { return int64(vc.UFInt("size", f.path)) }
func (f info) ModTime() time.Time { return modTime(f.path) }
func (f info) Mode() os.FileMode  { return 0 }
func (f info) IsDir() bool        { return false }
func (f info) Sys() interface{}   { return nil }

//vc:extern os.Stat
func extStat(path string) (os.FileInfo, error) {
	if vc.UFBool("missing", path) {
		return nil, missing{path}
	}
	if vc.UFBool("unreadable", path) {
		return nil, unreadable{path}
	}
	return info{path}, nil
}

//vc:extern os.IsNotExist
func extIsNotExist(err error) bool { return vc.IsType[missing](err) }

// specMissing, specFound: how many of the first n files are missing, are there.
//
//vc:spec
func specMissing(paths vc.Seq[string], n int) int {
	if n <= 0 {
		return 0
	}
	if vc.UFBool("missing", paths.At(n-1)) {
		return specMissing(paths, n-1) + 1
	}
	return specMissing(paths, n-1)
}

func found(path string) bool { return !vc.UFBool("missing", path) && !vc.UFBool("unreadable", path) }

//vc:spec
func specFound(paths vc.Seq[string], n int) int {
	if n <= 0 {
		return 0
	}
	if found(paths.At(n - 1)) {
		return specFound(paths, n-1) + 1
	}
	return specFound(paths, n-1)
}

func messageFor(path string) string { return "file not created: " + path }

// specFiles: what is recorded once the first n files were looked at.
func specMessages(now []string, was vc.Seq[string], paths vc.Seq[string], n int) bool {
	k := was.Len()
	return len(now) == k+specMissing(paths, n) && vc.Forall(0, k, func(i int) bool { return now[i] == was.At(i) }) &&
		vc.Forall(0, n, func(i int) bool {
			return !vc.UFBool("missing", paths.At(i)) || k+specMissing(paths, i) < len(now) && now[k+specMissing(paths, i)] == messageFor(paths.At(i))
		})
}

func specCreated(now []File, was vc.Seq[File], paths vc.Seq[string], n int) bool {
	k := was.Len()
	return len(now) == k+specFound(paths, n) && vc.Forall(0, k, func(i int) bool { return now[i] == was.At(i) }) &&
		vc.Forall(0, n, func(i int) bool {
			return !found(paths.At(i)) || k+specFound(paths, i) < len(now) && listed(now[k+specFound(paths, i)], paths.At(i))
		})
}

func listed(f File, path string) bool { return pathOf(f, path) && sizeOf(f, path) && timeOf(f, path) }
func pathOf(f File, path string) bool { return f.Path == vc.UFStr("name", path) }
func sizeOf(f File, path string) bool { return f.Size == int64(vc.UFInt("size", path)) }
func timeOf(f File, path string) bool {
	return vc.SameTime(f.Time, modTime(path))
}

// specRequests: k requests of one kind after the first n0.
func specRequests(n0, k int, reason proto.ReportReason) bool {
	return len(requests) == n0+k && vc.Forall(n0, len(requests), func(i int) bool { return requests[i].reason == reason })
}

func filesReq(c *Command) bool {
	return c != nil && vc.Unlocked(&c.mutex) && requests == nil && vc.NoAlias(c.Config.Creates, c.Messages) && len(c.Config.Creates) < 1<<30
}

//vc:contract handleFileCreation prop=C08 noreplay
func cHandleFileCreation(c *Command) {
	vc.Requires(func() bool { return filesReq(c) })
	c.report = requestLog{}
	paths, success, reason := vc.Snap(c.Config.Creates), c.Success, c.ReportReason
	n := paths.Len()
	vc.Alone()
	vc.ModifiesAnything()
	vc.Invariant("number of requests", func(i int) bool { return len(requests) == specMissing(paths, i) })
	vc.Invariant("requests", func() bool {
		return vc.Forall(0, len(requests), func(i int) bool { return requests[i].reason == proto.FileNotCreated })
	})
	vc.Invariant("outcome", func(i int) bool { return c.Success == (success && specMissing(paths, i) == 0) })
	vc.Invariant("bound", func(i int) bool { return specMissing(paths, i) >= 0 })
	vc.Invariant("reason", func(i int) bool { return specMissing(paths, i) == 0 || c.ReportReason == proto.FileNotCreated })
	vc.Invariant("reason kept", func(i int) bool { return specMissing(paths, i) > 0 || c.ReportReason == reason })
	vc.Invariant("free", func() bool { return vc.Unlocked(&c.mutex) })
	vc.Invariant("separate", func() bool { return vc.NoAlias(c.Config.Creates, c.Messages) })
	vc.Invariant("paths", func() bool { return specLines(c.Config.Creates, paths) })
	vc.Invariant("for it", func() bool { return requestedFor == c || len(requests) == 0 })
	handleFileCreation(c)
	vc.Ensures("one report per missing file", func() bool { return specRequests(0, specMissing(paths, n), proto.FileNotCreated) })
	vc.Ensures("of this command", func() bool { return requestedFor == c || len(requests) == 0 })
	vc.Ensures("unsuccessful if one is missing", func() bool { return c.Success == (success && specMissing(paths, n) == 0) })
	vc.Ensures("reason", func() bool {
		return specMissing(paths, n) > 0 && c.ReportReason == proto.FileNotCreated || specMissing(paths, n) == 0 && c.ReportReason == reason
	})
	vc.Ensures("unlocked", func() bool { return vc.Unlocked(&c.mutex) })
}

//vc:contract handleFileCreation prop=C08 noreplay
func cFileMessages(c *Command) {
	vc.Requires(func() bool { return filesReq(c) })
	c.report = requestLog{}
	paths, msgs := vc.Snap(c.Config.Creates), vc.Snap(c.Messages)
	n, k := paths.Len(), msgs.Len()
	vc.Alone()
	vc.ModifiesAnything()
	vc.Invariant("number", func(i int) bool { return len(c.Messages) == k+specMissing(paths, i) })
	vc.Invariant("bound", func(i int) bool { return specMissing(paths, i) >= 0 })
	vc.Invariant("earlier ones", func() bool { return vc.Forall(0, k, func(j int) bool { return c.Messages[j] == msgs.At(j) }) })
	vc.Invariant("messages", func(i int) bool {
		return vc.Forall(0, i, func(j int) bool {
			return !vc.UFBool("missing", paths.At(j)) || k+specMissing(paths, j) < len(c.Messages) && c.Messages[k+specMissing(paths, j)] == messageFor(paths.At(j))
		})
	})
	vc.Invariant("separate", func() bool { return vc.NoAlias(c.Config.Creates, c.Messages) })
	vc.Invariant("paths", func() bool { return specLines(c.Config.Creates, paths) })
	handleFileCreation(c)
	vc.Ensures("one message per missing file, in order", func() bool { return specMessages(c.Messages, msgs, paths, n) })
}

//vc:contract handleFileCreation prop=C08 noreplay
func cFilesListed(c *Command) {
	vc.Requires(func() bool { return filesReq(c) })
	c.report = requestLog{}
	paths, files := vc.Snap(c.Config.Creates), vc.Snap(c.Created)
	n, k := paths.Len(), files.Len()
	vc.Alone()
	vc.ModifiesAnything()
	vc.Invariant("number", func(i int) bool { return len(c.Created) == k+specFound(paths, i) })
	vc.Invariant("bound", func(i int) bool { return specFound(paths, i) >= 0 })
	vc.Invariant("earlier ones", func() bool { return vc.Forall(0, k, func(j int) bool { return c.Created[j] == files.At(j) }) })
	vc.Invariant("path", func(i int) bool {
		return vc.Forall(0, i, func(j int) bool {
			return !found(paths.At(j)) || k+specFound(paths, j) < len(c.Created) && pathOf(c.Created[k+specFound(paths, j)], paths.At(j))
		})
	})
	vc.Invariant("size", func(i int) bool {
		return vc.Forall(0, i, func(j int) bool {
			return !found(paths.At(j)) || k+specFound(paths, j) < len(c.Created) && sizeOf(c.Created[k+specFound(paths, j)], paths.At(j))
		})
	})
	vc.Invariant("time", func(i int) bool {
		return vc.Forall(0, i, func(j int) bool {
			return !found(paths.At(j)) || k+specFound(paths, j) < len(c.Created) && timeOf(c.Created[k+specFound(paths, j)], paths.At(j))
		})
	})
	vc.Invariant("separate", func() bool { return vc.NoAlias(c.Config.Creates, c.Messages) })
	vc.Invariant("paths", func() bool { return specLines(c.Config.Creates, paths) })
	handleFileCreation(c)
	vc.Ensures("existing files are listed", func() bool { return specCreated(c.Created, files, paths, n) })
}

var filesN int
var filesFor *Command
var filesRecorded bool

//vc:extern handleFileCreation when=files
func stubHandleFileCreation(c *Command) {
	filesN++
	filesFor = c
	filesRecorded = c.Success == vc.UFBool("exited well")
}

//vc:contract (handler).Finished prop=C08 with=files noreplay
func cFinished(h handler, c *Command, cmd *exec.Cmd) {
	vc.Requires(func() bool { return c != nil && cmd != nil && vc.Unlocked(&c.mutex) && requests == nil && filesN == 0 })
	status := vc.UFInt("exit status", int(syscall.WaitStatus(exitRaw)))
	vc.Requires(func() bool { return -1 <= status && status <= 255 })
	c.report = requestLog{}
	start, exit, valid := c.Start, c.ExitCode, c.ExitCodeValid
	t0 := time.Now()
	vc.ModifiesAnything()
	err := h.Finished(c, cmd)
	looked := filesN
	vc.RunPending()
	t1 := time.Now()
	ok := vc.UFBool("exited well")
	vc.Ensures("no error", func() bool { return err == nil })
	vc.Ensures("finish and duration", func() bool {
		return !c.Finish.Before(t0) && !c.Finish.After(t1) && c.Duration == c.Finish.Sub(c.Start) && vc.SameTime(c.Start, start)
	})
	vc.Ensures("success exactly when it exited well", func() bool { return c.Success == ok })
	vc.Ensures("exit status", func() bool {
		if ok {
			return c.ExitCodeValid && c.ExitCode == exit
		}
		if vc.UFBool("no exit status") {
			return c.ExitCodeValid == valid && c.ExitCode == exit
		}
		return c.ExitCodeValid && c.ExitCode == int32(status)
	})
	vc.Ensures("one report of the outcome", func() bool {
		return len(requests) == 1 && requestedFor == c && (!ok || requests[0].reason == proto.Success) && (ok || requests[0].reason == proto.Failure)
	})
	vc.Ensures("reason", func() bool {
		return (!ok || c.ReportReason == proto.Success) && (ok || c.ReportReason == proto.Failure)
	})
	vc.Ensures("files are looked at once, after the outcome is recorded", func() bool { return looked == 1 && filesN == 1 && filesFor == c && filesRecorded })
	vc.Ensures("unlocked", func() bool { return vc.Unlocked(&c.mutex) })
}

// ---- forced termination ----

func killReq(c *Command, cmd *exec.Cmd) bool {
	return c != nil && cmd != nil && cmd.Process != nil && vc.Unlocked(&c.mutex) && requests == nil && signals == nil
}

// specKilled: the command was ended between t0 and t1 for the reason.
func specKilled(c *Command, why proto.KillReason, start, t0, t1 time.Time) bool {
	return c.Killed && c.KillReason == why && c.ReportReason == proto.Killed && vc.SameTime(c.Start, start) && c.Duration >= 0 &&
		!c.Finish.Before(t0) && !c.Finish.After(t1) && c.Duration == c.Finish.Sub(c.Start) && vc.Unlocked(&c.mutex)
}

func specKillReport(c *Command) bool {
	return len(requests) == 1 && requests[0].reason == proto.Killed && requestedFor == c
}

func specSignalled(cmd *exec.Cmd, sig os.Signal) bool {
	return len(signals) == 1 && signals[0].p == cmd.Process && signals[0].sig == sig
}

//vc:contract (handler).Timeout prop=C09 noreplay
func cTimeout(h handler, c *Command, cmd *exec.Cmd) {
	vc.Requires(func() bool { return killReq(c, cmd) })
	c.report = requestLog{}
	start := c.Start
	t0 := time.Now()
	vc.Requires(func() bool { return !start.After(t0) })
	vc.ModifiesAnything()
	err := h.Timeout(c, cmd)
	vc.RunPending()
	t1 := time.Now()
	vc.Ensures("killed", func() bool { return specKilled(c, proto.Timeout, start, t0, t1) })
	vc.Ensures("one report", func() bool { return specKillReport(c) })
	vc.Ensures("signal", func() bool { return specSignalled(cmd, os.Kill) })
	vc.Ensures("error", func() bool { return (err != nil) == signalFails })
}

//vc:contract (handler).KillOnHighMemory prop=C09 noreplay
func cKillOnHighMemory(h handler, c *Command, cmd *exec.Cmd) {
	vc.Requires(func() bool { return killReq(c, cmd) })
	c.report = requestLog{}
	start := c.Start
	t0 := time.Now()
	vc.Requires(func() bool { return !start.After(t0) })
	vc.ModifiesAnything()
	err := h.KillOnHighMemory(c, cmd)
	vc.RunPending()
	t1 := time.Now()
	vc.Ensures("killed", func() bool { return specKilled(c, proto.Memory, start, t0, t1) })
	vc.Ensures("one report", func() bool { return specKillReport(c) })
	vc.Ensures("signal", func() bool { return specSignalled(cmd, os.Kill) })
	vc.Ensures("error", func() bool { return (err != nil) == signalFails })
}

//vc:contract (handler).Signal prop=C09 noreplay
func cSignal(h handler, c *Command, cmd *exec.Cmd, sig os.Signal) {
	vc.Requires(func() bool { return killReq(c, cmd) && sig != nil })
	c.report = requestLog{}
	start := c.Start
	t0 := time.Now()
	vc.Requires(func() bool { return !start.After(t0) })
	vc.ModifiesAnything()
	err := h.Signal(c, cmd, sig)
	vc.RunPending()
	t1 := time.Now()
	vc.Ensures("killed", func() bool { return specKilled(c, proto.Signal, start, t0, t1) })
	vc.Ensures("one report", func() bool { return specKillReport(c) })
	vc.Ensures("signal", func() bool { return specSignalled(cmd, sig) })
	vc.Ensures("error", func() bool { return (err != nil) == signalFails })
}

// ---- warnings ----

var measured uint64
var measuredOf int
var measurements int

//vc:extern calculateMemory when=memory
func stubCalculateMemory(pid int) uint64 {
	measurements++
	measuredOf = pid
	return measured
}

//vc:contract (handler).CheckMemory prop=C10 with=memory noreplay
func cCheckMemory(h handler, c *Command, cmd *exec.Cmd) {
	vc.Requires(func() bool { return killReq(c, cmd) && measurements == 0 })
	c.report = requestLog{}
	peak, warn, limit, warned, reason, m := c.MaxMemory, c.Config.MemoryWarn, c.Config.MemoryKill, c.memWarnSent, c.ReportReason, measured
	pid := cmd.Process.Pid
	first := warn > 0 && m >= warn && !warned
	vc.ModifiesAnything()
	err := h.CheckMemory(c, cmd)
	vc.RunPending()
	vc.Ensures("measures the process", func() bool { return measurements == 1 && measuredOf == pid })
	vc.Ensures("peak", func() bool {
		return c.MaxMemory >= peak && c.MaxMemory >= m && (c.MaxMemory == peak || c.MaxMemory == m)
	})
	vc.Ensures("first time at the level", func() bool { return c.memWarnSent == (warned || first) })
	vc.Ensures("one warning the first time", func() bool {
		return !first || len(requests) == 1 && requests[0].reason == proto.MemoryWarning && requestedFor == c && c.ReportReason == proto.MemoryWarning
	})
	vc.Ensures("no warning otherwise", func() bool { return first || len(requests) == 0 && c.ReportReason == reason })
	vc.Ensures("kill exactly at the kill level", func() bool { return (err != nil) == (limit > 0 && m >= limit) })
	vc.Ensures("settings kept", func() bool {
		return c.Config.MemoryWarn == warn && c.Config.MemoryKill == limit && vc.Unlocked(&c.mutex)
	})
}

//vc:contract (handler).TimeWarning prop=C10 noreplay
func cTimeWarning(h handler, c *Command) {
	vc.Requires(func() bool { return c != nil && vc.Unlocked(&c.mutex) && requests == nil })
	c.report = requestLog{}
	warned, reason := c.timeWarnSent, c.ReportReason
	vc.ModifiesAnything()
	err := h.TimeWarning(c)
	vc.RunPending()
	vc.Ensures("no error", func() bool { return err == nil })
	vc.Ensures("sent from now on", func() bool { return c.timeWarnSent && vc.Unlocked(&c.mutex) })
	vc.Ensures("one warning the first time", func() bool {
		return warned || len(requests) == 1 && requests[0].reason == proto.TimeWarning && requestedFor == c && c.ReportReason == proto.TimeWarning
	})
	vc.Ensures("none later", func() bool { return !warned || len(requests) == 0 && c.ReportReason == reason })
}

func modTime(path string) time.Time { return time.Time{}.Add(time.Duration(vc.UFInt("time", path))) }
