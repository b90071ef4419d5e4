//go:build go1.21

package monny

import (
	"time"

	"github.com/BTBurke/monny/internal/vc"
	"github.com/BTBurke/monny/pkg/proto"
)

// ---- Cleanup ----

var ranFns []ranFn // the callbacks run so far

type ranFn struct{ id int }

// callbackError is what the callback run as number n failed with.
type callbackError struct{ n int }

func (callbackError) Error() string { return "callback" }

// anyCleanup stands for any callback.
func anyCleanup(id int) error {
	n := len(ranFns)
	ranFns = append(ranFns, ranFn{id})
	if vc.UFBool("callback fails", n) {
		return callbackError{n}
	}
	return nil
}

// specPresent: how many of the first n callbacks are there.
//
//vc:spec
func specPresent(fns vc.Seq[func() error], n int) int {
	if n <= 0 {
		return 0
	}
	if fns.At(n-1) != nil {
		return specPresent(fns, n-1) + 1
	}
	return specPresent(fns, n-1)
}

//vc:contract (*Command).Cleanup prop=C38 family=anyCleanup noreplay
func cCleanup(c *Command) {
	vc.Requires(func() bool { return c != nil && len(ranFns) == 0 && ranFns == nil })
	fns := vc.Snap(c.cleanup)
	vc.ModifiesAnything()
	vc.Invariant("in order", func(i int) bool {
		return len(ranFns) == specPresent(fns, i) && specPresent(fns, i) <= i && vc.Forall(0, i, func(j int) bool {
			return fns.At(j) == nil || specPresent(fns, j) < len(ranFns) && ranFns[specPresent(fns, j)].id == vc.FnID(fns.At(j))
		})
	})
	vc.Invariant("failures so far", func(i int, errs []error) bool { return specFailures(errs, len(ranFns)) })
	errs := c.Cleanup()
	vc.Ensures("each present callback once, in order", func() bool {
		n := fns.Len()
		return len(ranFns) == specPresent(fns, n) && vc.Forall(0, n, func(j int) bool {
			return fns.At(j) == nil || specPresent(fns, j) < len(ranFns) && ranFns[specPresent(fns, j)].id == vc.FnID(fns.At(j))
		})
	})
	vc.Ensures("exactly the failures, in order", func() bool { return specFailures(errs, len(ranFns)) })
}

// specFailed: how many of the first n callbacks run failed.
//
//vc:spec
func specFailed(n int) int {
	if n <= 0 {
		return 0
	}
	if vc.UFBool("callback fails", n-1) {
		return specFailed(n-1) + 1
	}
	return specFailed(n - 1)
}

// specFailures: errs lists what failed among the first n, in order.
func specFailures(errs []error, n int) bool {
	return len(errs) == specFailed(n) && vc.Forall(0, n, func(j int) bool {
		return !vc.UFBool("callback fails", j) || specFailed(j) < len(errs) && errs[specFailed(j)] == error(callbackError{j})
	})
}

// ---- calcAlertRate ----

// specRecent: how many of the first n matches are no older than the period at time now.
//
//vc:spec
func specRecent(m vc.Seq[RuleMatch], now time.Time, period time.Duration, n int) int {
	if n <= 0 {
		return 0
	}
	if now.Sub(m.At(n-1).Time) <= period {
		return specRecent(m, now, period, n-1) + 1
	}
	return specRecent(m, now, period, n-1)
}

//vc:contract calcAlertRate prop=C06
func cCalcAlertRate(matches []RuleMatch, quantity int, period time.Duration) {
	vc.FreezeClock()
	now := time.Now()
	old := vc.Snap(matches)
	vc.Invariant("counted so far", func(i int, matchesInPeriod int) bool {
		return matchesInPeriod == specRecent(old, now, period, i) && 0 <= matchesInPeriod && matchesInPeriod <= i
	})
	r := calcAlertRate(matches, quantity, period)
	vc.Ensures("matches in the period reach the quantity", func() bool {
		n := len(matches)
		if period > 0 {
			n = specRecent(old, now, period, n)
		}
		return r == (n >= quantity)
	})
}

// ---- output lines ----

type request struct{ reason proto.ReportReason }

var requests []request // the reports requested, in order
var requestedFor *Command

// requestLog is a report sender that notes what it is asked for.
type requestLog struct{}

func (requestLog) Send(c *Command, reason proto.ReportReason) {
	requestedFor = c
	requests = append(requests, request{reason})
}
func (requestLog) Wait() error { return nil }

var ruleN int             // rule checks done
var ruleLine string       // the line last checked
var ruleSet []rule        // the rules it was checked against
var ruleFound []RuleMatch // what the check finds

//vc:extern checkRule when=rules
func stubCheckRule(line []byte, rules []rule) []RuleMatch {
	ruleN++
	ruleLine = string(line)
	ruleSet = rules
	return ruleFound
}

func keep(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

// specTail: now is the last n of the first m lines of all.
func specTail(now []string, all vc.Seq[string], m, n int) bool {
	if m <= n {
		return len(now) == m && vc.Forall(0, len(now), func(i int) bool { return now[i] == all.At(i) })
	}
	return len(now) == n && vc.Forall(0, len(now), func(i int) bool { return now[i] == all.At(m-n+i) })
}

//vc:contract lastLines prop=C02 inline
func cLastLines(lines []string, n int) {
	all := vc.Snap(lines)
	r := lastLines(lines, n)
	vc.Ensures("the last n lines", func() bool { return specTail(r, all, len(lines), keep(n)) })
	vc.Ensures("input kept", func() bool { return vc.Forall(0, len(lines), func(i int) bool { return lines[i] == all.At(i) }) })
}

// all is everything written to the stream so far, with the new line at the end.
func lineReq(c *Command, hist []string, size int, all vc.Seq[string], line []byte) bool {
	return c != nil && vc.Unlocked(&c.mutex) && all.Len() > 0 && all.Len() < 1<<30 && all.At(all.Len()-1) == string(line) &&
		specTail(hist, all, all.Len()-1, keep(size)) && vc.NoAlias(c.Stdout, c.Stderr)
}

//vc:contract (*Command).processStdout prop=C02,C04 with=rules noreplay
func cProcessStdout(c *Command, line []byte, log []string) {
	all := vc.Snap(log)
	vc.Requires(func() bool {
		return c != nil && lineReq(c, c.Stdout, c.Config.StdoutHistory, all, line) && len(c.RuleMatches) < 1<<30 && len(ruleFound) < 1<<30
	})
	vc.Requires(func() bool {
		return len(requests) == 0 && requests == nil && ruleN == 0 && vc.NoAlias(ruleFound, c.RuleMatches) && vc.NoAlias(log, c.Stdout)
	})
	c.report = requestLog{}
	other, pending, found, size := vc.Snap(c.Stderr), vc.Snap(c.RuleMatches), vc.Snap(ruleFound), c.Config.StdoutHistory
	rate := c.Config.RuleQuantity > 0
	vc.ModifiesAnything()
	c.processStdout(line)
	vc.RunPending()
	vc.Ensures("the last lines", func() bool { return specTail(c.Stdout, all, all.Len(), keep(size)) && c.Config.StdoutHistory == size })
	vc.Ensures("standard error untouched", func() bool { return specTail(c.Stderr, other, other.Len(), other.Len()) })
	vc.Ensures("separate", func() bool { return vc.NoAlias(c.Stdout, c.Stderr) })
	vc.Ensures("unlocked", func() bool { return vc.Unlocked(&c.mutex) })
	vc.Ensures("checked once against the rules", func() bool { return ruleN == 1 && ruleLine == string(line) && vc.Same(ruleSet, c.Config.Rules) })
	vc.Ensures("matches added to the pending ones", func() bool { return specConcat(c.RuleMatches, pending, found) })
	vc.Ensures("one alert if any are pending", func() bool { return specAlert(pending.Len()+found.Len(), rate, c) })
}

func sameMatch(a, b RuleMatch) bool {
	return a.Line == b.Line && vc.SameTime(a.Time, b.Time) && vc.Same(a.Index, b.Index)
}

func specConcat(now []RuleMatch, a, b vc.Seq[RuleMatch]) bool {
	n := a.Len()
	return len(now) == n+b.Len() && vc.Forall(0, n, func(i int) bool { return sameMatch(now[i], a.At(i)) }) &&
		vc.Forall(0, b.Len(), func(i int) bool { return sameMatch(now[n+i], b.At(i)) })
}

func specAlert(pending int, rate bool, c *Command) bool {
	if pending == 0 {
		return len(requests) == 0
	}
	return len(requests) == 1 && requestedFor == c && (!rate || requests[0].reason == proto.AlertRate) && (rate || requests[0].reason == proto.Alert)
}

//vc:contract (*Command).processStderr prop=C02,C04 with=rules noreplay
func cProcessStderr(c *Command, line []byte, log []string) {
	all := vc.Snap(log)
	vc.Requires(func() bool {
		return c != nil && lineReq(c, c.Stderr, c.Config.StderrHistory, all, line) && len(c.RuleMatches) < 1<<30 && len(ruleFound) < 1<<30
	})
	vc.Requires(func() bool {
		return len(requests) == 0 && requests == nil && ruleN == 0 && vc.NoAlias(ruleFound, c.RuleMatches) && vc.NoAlias(log, c.Stderr)
	})
	c.report = requestLog{}
	other, pending, found, size := vc.Snap(c.Stdout), vc.Snap(c.RuleMatches), vc.Snap(ruleFound), c.Config.StderrHistory
	rate := c.Config.RuleQuantity > 0
	vc.ModifiesAnything()
	c.processStderr(line)
	vc.RunPending()
	vc.Ensures("the last lines", func() bool { return specTail(c.Stderr, all, all.Len(), keep(size)) && c.Config.StderrHistory == size })
	vc.Ensures("standard output untouched", func() bool { return specTail(c.Stdout, other, other.Len(), other.Len()) })
	vc.Ensures("separate", func() bool { return vc.NoAlias(c.Stdout, c.Stderr) })
	vc.Ensures("unlocked", func() bool { return vc.Unlocked(&c.mutex) })
	vc.Ensures("checked once against the rules", func() bool { return ruleN == 1 && ruleLine == string(line) && vc.Same(ruleSet, c.Config.Rules) })
	vc.Ensures("matches added to the pending ones", func() bool { return specConcat(c.RuleMatches, pending, found) })
	vc.Ensures("one alert if any are pending", func() bool { return specAlert(pending.Len()+found.Len(), rate, c) })
}
