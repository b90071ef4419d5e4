PROP='C16'
PKG='pkg/monny/proc'
NEEDS='A blank line in the log.'
BREAKS='Blank lines are not published (nor echoed).'
EDITS=[('pkg/monny/proc/logs.go','''		src.q.Add(string(data))

''','''		src.q.Add(string(data))
		if len(data) == 0 {
			continue
		}

''')]
DEMO='''
package proc

import (
	"bytes"
	"strings"
	"testing"

	"github.com/BTBurke/monny/pkg/eventbus"
)

type demoSink struct{ bytes.Buffer }

func (*demoSink) Close() error { return nil }

func TestSeedDemo(t *testing.T) {
	o := &demoSink{}
	startLogEmitter(eventbus.New(), source{pStdout, NewQueue(3), strings.NewReader("a\\n\\nb\\n")}, []sink{{mStdout, o}}, func() {})
	if o.String() != "a\\n\\nb\\n" {
		t.Fatalf("%q", o.String())
	}
}
'''
