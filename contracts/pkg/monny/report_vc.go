//go:build go1.21

package monny

import (
	"strings"
	"time"

	"github.com/BTBurke/monny/internal/vc"
	"github.com/BTBurke/monny/pkg/pb"
	"github.com/BTBurke/monny/pkg/proto"
)

// ---- Send ----

var made []request   // reports created
var madeFor *Command // the command of the last one
var madeLocked bool  // it was locked then
var madeReport *pb.Report
var sent []sentReport // reports handed over for transmission
var sendFails bool    // what comes of them
var sendNever bool

type sentReport struct{ r *pb.Report }

type sendError struct{}

func (sendError) Error() string { return "not sent" }

// outbox is a sender that notes what it is given.
type outbox struct{}

func (outbox) create(c *Command, reason proto.ReportReason) *pb.Report {
	made = append(made, request{reason})
	madeFor = c
	madeLocked = !vc.Unlocked(&c.mutex)
	return madeReport
}

func (outbox) sendBackground(report *pb.Report, result chan error, cancel chan bool) {
	sent = append(sent, sentReport{report})
	if sendNever || vc.Closed(result) {
		return
	}
	if sendFails {
		result <- sendError{}
		return
	}
	result <- nil
}
func (outbox) wait() {}

type problem struct{ err error }

var problems []problem // errors reported

type problemLog struct{}

func (problemLog) ReportError(err error) { problems = append(problems, problem{err}) }

var rateDue bool

//vc:extern calcAlertRate when=rate
func stubCalcAlertRate(matches []RuleMatch, quantity int, period time.Duration) bool {
	return vc.UFBool("rate", len(matches), quantity, period)
}

//vc:contract (*Report).Send prop=C05 with=rate noreplay
func cSend(r *Report, c *Command, reason proto.ReportReason) {
	vc.Requires(func() bool {
		return r != nil && c != nil && vc.Unlocked(&c.mutex) && len(made) == 0 && made == nil && len(sent) == 0 && sent == nil &&
			len(problems) == 0 && problems == nil && len(c.RuleMatches) > 0
	})
	c.errors, r.sender = problemLog{}, outbox{}
	pending := vc.Snap(c.RuleMatches)
	n := pending.Len()
	alert := reason == proto.Alert || reason == proto.AlertRate
	due := reason == proto.Killed || reason == proto.FileNotCreated || reason == proto.Alert ||
		reason == proto.MemoryWarning || reason == proto.TimeWarning ||
		reason == proto.Failure && c.Config.NotifyOnFailure ||
		reason == proto.Success && c.Config.NotifyOnSuccess ||
		reason == proto.Start && c.Config.Daemon ||
		reason == proto.AlertRate && vc.UFBool("rate", n, c.Config.RuleQuantity, c.Config.RulePeriod)
	vc.ModifiesAnything()
	r.Send(c, reason)
	vc.RunPending()
	vc.Ensures("one report of the command for that reason", func() bool {
		return len(made) == 1 && made[0].reason == reason && madeFor == c && madeLocked && vc.Unlocked(&c.mutex)
	})
	vc.Ensures("transmitted once if due", func() bool { return !due || len(sent) == 1 && sent[0].r == madeReport })
	vc.Ensures("not transmitted if not due", func() bool { return due || len(sent) == 0 })
	vc.Ensures("matches kept or discarded", func() bool {
		return len(c.RuleMatches) == 0 || specConcat(c.RuleMatches, pending, vc.Snap([]RuleMatch(nil)))
	})
	vc.Ensures("matches discarded only after delivery of an alert", func() bool {
		return len(c.RuleMatches) > 0 || alert && due && !sendFails && !sendNever && len(problems) == 0
	})
	vc.Ensures("matches discarded once an alert is delivered", func() bool {
		return !(alert && due && !sendFails && !sendNever) || len(c.RuleMatches) == 0 || len(problems) == 1
	})
	vc.Ensures("a failed delivery is reported", func() bool {
		return !(due && (sendFails || sendNever)) || len(problems) == 1 && problems[0].err != nil
	})
	vc.Ensures("nothing else is reported", func() bool { return due || len(problems) == 0 })
}

// ---- contents of a report ----

func wireReason(r proto.ReportReason) pb.ReportReason {
	switch r {
	case proto.Success:
		return pb.ReportReason_Success
	case proto.Failure:
		return pb.ReportReason_Failure
	case proto.Alert:
		return pb.ReportReason_Alert
	case proto.AlertRate:
		return pb.ReportReason_AlertRate
	case proto.MemoryWarning:
		return pb.ReportReason_MemoryWarning
	case proto.TimeWarning:
		return pb.ReportReason_TimeWarning
	case proto.FileNotCreated:
		return pb.ReportReason_FileNotCreated
	case proto.Killed:
		return pb.ReportReason_Killed
	case proto.Start:
		return pb.ReportReason_Start
	}
	return pb.ReportReason_Unknown
}

func knownReason(r proto.ReportReason) bool {
	return r == 0 || wireReason(r) != pb.ReportReason_Unknown
}

func wireKill(r proto.KillReason) pb.KillReason {
	switch r {
	case proto.Timeout:
		return pb.KillReason_Timeout
	case proto.Memory:
		return pb.KillReason_Memory
	case proto.Signal:
		return pb.KillReason_Signal
	}
	return pb.KillReason_NotKilled
}

func knownKill(r proto.KillReason) bool { return r == 0 || wireKill(r) != pb.KillReason_NotKilled }

func specLines(now []string, was vc.Seq[string]) bool {
	return len(now) == was.Len() && vc.Forall(0, len(now), func(i int) bool { return now[i] == was.At(i) })
}

func ignoreError(e error) {}

//vc:extern encoding/json.Marshal
func extMarshal(v any) ([]byte, error) { return vc.Nondet[[]byte]("json"), vc.Nondet[error]("json") }

//vc:contract reportFromCommand prop=C07
func cReportFromCommand(c *Command, reason proto.ReportReason) {
	vc.Requires(func() bool { return c != nil && knownReason(reason) && knownKill(c.KillReason) })
	out, errs, msgs := vc.Snap(c.Stdout), vc.Snap(c.Stderr), vc.Snap(c.Messages)
	id, host, success, mem, killed, kill := c.Config.ID, c.Config.Hostname, c.Success, c.MaxMemory, c.Killed, c.KillReason
	start, finish, dur, exit, valid := c.Start, c.Finish, c.Duration, c.ExitCode, c.ExitCodeValid
	line := strings.Join(c.UserCommand, " ")
	p := reportFromCommand(c, reason, ignoreError)
	vc.Ensures("report", func() bool { return p != nil && vc.Fresh(p) })
	vc.Ensures("identity", func() bool { return p.Id == id && p.Hostname == host })
	vc.Ensures("output", func() bool { return specLines(p.Stdout, out) && specLines(p.Stderr, errs) })
	vc.Ensures("messages", func() bool { return specLines(p.Messages, msgs) })
	vc.Ensures("outcome", func() bool { return p.Success == success && p.ExitCode == exit && p.ExitCodeValid == valid })
	vc.Ensures("memory", func() bool { return p.MaxMemory == mem })
	vc.Ensures("kill", func() bool { return p.Killed == killed && p.KillReason == wireKill(kill) })
	vc.Ensures("reason", func() bool { return p.ReportReason == wireReason(reason) })
	vc.Ensures("times", func() bool { return p.Start == start.Unix() && p.Finish == finish.Unix() && p.Duration == dur.String() })
	vc.Ensures("command line", func() bool { return p.UserCommand == line })
	vc.Ensures("command unchanged", func() bool {
		return specLines(c.Stdout, out) && specLines(c.Stderr, errs) && c.Success == success && c.Killed == killed && c.KillReason == kill && c.ExitCode == exit
	})
}

//vc:contract (*senderService).create prop=C07 noreplay
func cCreate(s *senderService, c *Command, reason proto.ReportReason) {
	vc.Requires(func() bool { return s != nil && c != nil && knownReason(reason) && knownKill(c.KillReason) })
	s.errors = problemLog{}
	out, success := vc.Snap(c.Stdout), c.Success
	vc.ModifiesAnything()
	p := s.create(c, reason)
	vc.Ensures("a report of the command for that reason", func() bool {
		return p != nil && p.ReportReason == wireReason(reason) && p.Success == success && specLines(p.Stdout, out)
	})
}
