PROP='C04'
PKG='pkg/monny'
NEEDS='A line that matches no rule while matches of an earlier line are pending.'
BREAKS='No alert is requested although matches are pending.'
EDITS=[('pkg/monny/command.go', '''	matches := checkRule(line, c.Config.Rules)
	c.mutex.Lock()
	c.RuleMatches = append(c.RuleMatches, matches...)
	c.mutex.Unlock()
	if len(c.RuleMatches) > 0 {
		switch {
		case c.Config.RuleQuantity > 0:
			go c.report.Send(c, proto.AlertRate)
		default:
			go c.report.Send(c, proto.Alert)
		}
	}
	history := len(c.Stderr)''','''	matches := checkRule(line, c.Config.Rules)
	c.mutex.Lock()
	c.RuleMatches = append(c.RuleMatches, matches...)
	c.mutex.Unlock()
	if len(matches) > 0 {
		switch {
		case c.Config.RuleQuantity > 0:
			go c.report.Send(c, proto.AlertRate)
		default:
			go c.report.Send(c, proto.Alert)
		}
	}
	history := len(c.Stderr)''')]
DEMO='''
package monny

import (
	"regexp"
	"testing"
	"time"

	"github.com/BTBurke/monny/pkg/proto"
)

type seedReport struct{ got chan proto.ReportReason }

func (s seedReport) Send(c *Command, r proto.ReportReason) { s.got <- r }
func (s seedReport) Wait() error                           { return nil }

func TestSeedDemo(t *testing.T) {
	r := seedReport{make(chan proto.ReportReason, 10)}
	c := &Command{Config: Config{StdoutHistory: 3, StderrHistory: 3, Rules: []rule{{Regex: regexp.MustCompile("bad")}}}, report: r}
	for _, l := range []string{"bad", "fine"} {
		c.processStderr([]byte(l))
		select {
		case x := <-r.got:
			if x != proto.Alert {
				t.Fatal(x)
			}
		case <-time.After(3 * time.Second):
			t.Fatalf("no alert for %q", l)
		}
	}
}
'''
