PROP='C07'
PKG='pkg/monny'
NEEDS='A command with more than one word, one of them holding several spaces in a row.'
BREAKS='The command line in the report is not the one that runs.'
EDITS=[('pkg/monny/report.go','strings.Join(c.UserCommand, " "),','strings.Join(strings.Fields(strings.Join(c.UserCommand, " ")), " "),')]
DEMO='''
package monny

import (
	"testing"

	"github.com/BTBurke/monny/pkg/proto"
)

func TestSeedDemo(t *testing.T) {
	c := &Command{UserCommand: []string{"echo", "a  b"}}
	r := reportFromCommand(c, proto.Success, func(error) {})
	if r.UserCommand != "echo a  b" {
		t.Fatalf("%q", r.UserCommand)
	}
}
'''
