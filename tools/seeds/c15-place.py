PROP='C15'
PKG='pkg/monny/proc'
NEEDS='Disabling an input together with another option, given in the order disable first, command second.'
BREAKS='The option that disables standard error input is applied before the command, when there is no source to remove, so the source is read all the same.'
EDITS=[('pkg/monny/proc/logopt.go','''	history priority = iota
	command
	noStdoutOut
	noStderrOut
	noOutput
	noStdoutIn
	noStderrIn
''','''	noStderrIn priority = iota
	history
	command
	noStdoutOut
	noStderrOut
	noOutput
	noStdoutIn
''')]
DEMO='''
package proc

import (
	"os/exec"
	"testing"

	"github.com/BTBurke/monny/pkg/eventbus"
)

func TestSeedDemo(t *testing.T) {
	p, err := NewLogProcessor(eventbus.New(), WithNoStderrInput(), WithCommand(exec.Command("true")))
	if err != nil {
		t.Fatal(err)
	}
	if n := len(p.sources); n != 1 || p.sources[0].name != pStdout {
		t.Fatalf("%d sources", n)
	}
}
'''
