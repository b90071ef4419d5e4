PROP='C26'
PKG='pkg/metric'
NEEDS='A sampling window without observations before the first one with some.'
BREAKS='An empty window at the start appends nothing, so windows no longer correspond to entries.'
EDITS=[('pkg/metric/sampled.go','''					if len(s.obs) == 0 {
						s.s.Record(0.0)
					} else {
''','''					if len(s.obs) == 0 {
						if s.s.Count() > 0 {
							s.s.Record(0.0)
						}
					} else {
''')]
DEMO='''
package metric

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	s, stop, err := NewSampledSeries(100, 20*time.Millisecond, SampleSum)
	if err != nil {
		t.Fatal(err)
	}
	time.Sleep(300 * time.Millisecond)
	stop()
	if s.Count() == 0 {
		t.Fatal("no window was recorded")
	}
}
'''
