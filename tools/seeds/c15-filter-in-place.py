PROP='C15'
PKG='pkg/monny/proc'
NEEDS='A log processor reading both streams of a process and writing to both streams, with the list of the first emitter still in use when the second is made.'
BREAKS='Filtering works in place, so the list made for standard error overwrites the one made for standard output: the output of the process is echoed to the wrong stream.'
EDITS=[('pkg/monny/proc/logopt.go','''	fSinks := []sink{}
''','''	fSinks := sinks[:0]
''')]
DEMO='''
package proc

import (
	"bytes"
	"context"
	"strings"
	"testing"

	"github.com/BTBurke/monny/pkg/eventbus"
)

type demoSink struct{ bytes.Buffer }

func (*demoSink) Close() error { return nil }

func TestSeedDemo(t *testing.T) {
	o, e := &demoSink{}, &demoSink{}
	out, err := eventbus.New(), optF{pri: command, f: func(l *logProcOpt) error {
		l.sources = []source{{pStdout, NewQueue(3), strings.NewReader("out\\n")}, {pStderr, NewQueue(3), strings.NewReader("err\\n")}}
		l.sinks = []sink{{mStdout, o}, {mStderr, e}}
		return nil
	}}
	for i := 0; i < 50; i++ {
		o.Reset()
		e.Reset()
		p, er := NewLogProcessor(out, err)
		if er != nil {
			t.Fatal(er)
		}
		p.Wait(context.Background())
		if o.String() != "out\\n" || e.String() != "err\\n" {
			t.Fatalf("%q %q", o.String(), e.String())
		}
	}
}
'''
