PROP='C16'
PKG='pkg/monny/proc'
NEEDS='A source with two sinks, the first of which fails.'
BREAKS='After a sink has failed the line is not written to the sinks that come after it.'
EDITS=[('pkg/monny/proc/logs.go','''				newError(bus, SinkError{fmt.Errorf("error writing to sink %s: %v", src.name, err)})
''','''				newError(bus, SinkError{fmt.Errorf("error writing to sink %s: %v", src.name, err)})
				break
''')]
DEMO='''
package proc

import (
	"bytes"
	"errors"
	"strings"
	"testing"

	"github.com/BTBurke/monny/pkg/eventbus"
)

type demoSink struct{ bytes.Buffer }

func (*demoSink) Close() error { return nil }

type demoFull struct{}

func (demoFull) Write([]byte) (int, error) { return 0, errors.New("full") }
func (demoFull) Close() error              { return nil }

func TestSeedDemo(t *testing.T) {
	o := &demoSink{}
	startLogEmitter(eventbus.New(), source{pStdout, NewQueue(3), strings.NewReader("a\\nb\\n")}, []sink{{mStdout, demoFull{}}, {mStderr, o}}, func() {})
	if o.String() != "a\\nb\\n" {
		t.Fatalf("%q", o.String())
	}
}
'''
