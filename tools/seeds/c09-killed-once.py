PROP='C09'
PKG='pkg/monny'
NEEDS='A signal that cannot be delivered because the process has ended.'
BREAKS='The error is swallowed.'
EDITS=[('pkg/monny/handlers.go','''	if err := cmd.Process.Signal(sig); err != nil {
		return err
	}''','''	if err := cmd.Process.Signal(sig); err != nil && cmd.ProcessState == nil {
		return err
	}''')]
DEMO='''
package monny

import (
	"os"
	"os/exec"
	"testing"

	"github.com/BTBurke/monny/pkg/proto"
)

type seedReport struct{ got chan proto.ReportReason }

func (s seedReport) Send(c *Command, r proto.ReportReason) { s.got <- r }
func (s seedReport) Wait() error                           { return nil }

func TestSeedDemo(t *testing.T) {
	cmd := exec.Command("true")
	if err := cmd.Run(); err != nil {
		t.Fatal(err)
	}
	c := &Command{report: seedReport{make(chan proto.ReportReason, 5)}}
	if err := (handler{}).Signal(c, cmd, os.Interrupt); err == nil {
		t.Fatal("the signal could not be delivered but no error was returned")
	}
}
'''
