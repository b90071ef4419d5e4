PROP='C10'
PKG='pkg/monny'
NEEDS='A time warning after a memory warning was sent.'
BREAKS='The time warning is never requested.'
EDITS=[('pkg/monny/handlers.go','''	if c.timeWarnSent {
		return nil
	}''','''	if c.timeWarnSent || c.memWarnSent && c.ReportReason == proto.MemoryWarning {
		return nil
	}''')]
DEMO='''
package monny

import (
	"testing"
	"time"

	"github.com/BTBurke/monny/pkg/proto"
)

type seedReport struct{ got chan proto.ReportReason }

func (s seedReport) Send(c *Command, r proto.ReportReason) { s.got <- r }
func (s seedReport) Wait() error                           { return nil }

func TestSeedDemo(t *testing.T) {
	r := seedReport{make(chan proto.ReportReason, 5)}
	c := &Command{report: r, memWarnSent: true, ReportReason: proto.MemoryWarning}
	for i := 0; i < 2; i++ {
		if err := (handler{}).TimeWarning(c); err != nil {
			t.Fatal(err)
		}
	}
	select {
	case x := <-r.got:
		if x != proto.TimeWarning {
			t.Fatal(x)
		}
	case <-time.After(2 * time.Second):
		t.Fatal("no time warning")
	}
	if len(r.got) > 0 {
		t.Fatal("more than one time warning")
	}
}
'''
