PROP='C37'
PKG='pkg/monny'
NEEDS='A time warning before the kill timeout.'
BREAKS='The kill timeout starts anew when the warning is sent.'
EDITS=[('pkg/monny/command.go','''			c.handler.TimeWarning(c)
''','''			c.handler.TimeWarning(c)
			if c.Config.KillTimeout > 0 {
				timeout = time.After(c.Config.KillTimeout)
			}
''')]
DEMO='''
package monny

import (
	"os"
	"os/exec"
	"testing"
	"time"
)

type seedHandlers struct {
	handler
	what string
}

func (h *seedHandlers) Finished(c *Command, cmd *exec.Cmd) error { h.what = "finished"; return nil }
func (h *seedHandlers) Signal(c *Command, cmd *exec.Cmd, sig os.Signal) error {
	h.what = "signal"
	return nil
}
func (h *seedHandlers) Timeout(c *Command, cmd *exec.Cmd) error { h.what = "timeout"; cmd.Process.Kill(); return nil }
func (h *seedHandlers) TimeWarning(c *Command) error             { return nil }

type seedOut struct{}

func (seedOut) Write(b []byte) (int, error) { return len(b), nil }
func (seedOut) Close() error                { return nil }

type seedErrs struct{}

func (seedErrs) ReportError(error) {}

func TestSeedDemo(t *testing.T) {
	h := &seedHandlers{}
	c := &Command{UserCommand: []string{"sleep", "2.5"}, Config: Config{KillTimeout: 1500 * time.Millisecond, NotifyTimeout: 1200 * time.Millisecond}, handler: h, errors: seedErrs{}, out: seedOut{}, err: seedOut{}}
	if err := c.Exec(); err != nil {
		t.Fatal(err)
	}
	if h.what != "timeout" {
		t.Fatal(h.what)
	}
}
'''
