PROP='C05'
PKG='pkg/monny'
NEEDS='A rate alert whose delivery fails.'
BREAKS='The pending matches are discarded although no alert was delivered.'
EDITS=[('pkg/monny/report.go','''			go r.sender.sendBackground(pb, result, cancel)
			cb = func() {
				c.RuleMatches = []RuleMatch{}
				return
			}''','''			go r.sender.sendBackground(pb, result, cancel)
			defer func(pending int) {
				c.RuleMatches = c.RuleMatches[pending:]
			}(len(c.RuleMatches))''')]
DEMO='''
package monny

import (
	"fmt"
	"testing"
	"time"

	"github.com/BTBurke/monny/pkg/pb"
	"github.com/BTBurke/monny/pkg/proto"
)

type seedSender struct{ err error }

func (s *seedSender) create(c *Command, r proto.ReportReason) *pb.Report { return &pb.Report{} }
func (s *seedSender) sendBackground(r *pb.Report, result chan error, cancel chan bool) {
	result <- s.err
}
func (s *seedSender) wait() {}

type seedErrors struct{ n int }

func (s *seedErrors) ReportError(e error) { s.n++ }

func TestSeedDemo(t *testing.T) {
	e := &seedErrors{}
	c := &Command{Config: Config{RuleQuantity: 1}, RuleMatches: []RuleMatch{{Time: time.Now(), Line: "x"}}, errors: e}
	(&Report{sender: &seedSender{fmt.Errorf("down")}}).Send(c, proto.AlertRate)
	if len(c.RuleMatches) != 1 || e.n != 1 {
		t.Fatalf("%d matches kept, %d errors", len(c.RuleMatches), e.n)
	}
	(&Report{sender: &seedSender{}}).Send(c, proto.AlertRate)
	if len(c.RuleMatches) != 0 {
		t.Fatal("matches kept after delivery")
	}
}
'''
