PROP='C29'
PKG='pkg/metric'
NEEDS='A windowed counter with both a maximum history and a maximum age, and more young closed windows than the maximum.'
BREAKS='The history is not limited to the newest configured number of windows when an age limit is set as well.'
EDITS=[('pkg/metric/counter.go','''	if max > 0 && len(hist) > max {
		hist = hist[len(hist)-max:]
	}
	if maxduration > 0 {
''','''	if max > 0 && maxduration == 0 && len(hist) > max {
		hist = hist[len(hist)-max:]
	}
	if maxduration > 0 {
''')]
DEMO='''
package metric

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	c := NewWindowedCounter(time.Millisecond)
	c.MaxHistory = 2
	c.MaxHistoryDuration = time.Hour
	for i := 0; i < 6; i++ {
		c.Add(1)
		time.Sleep(3 * time.Millisecond)
	}
	if h := c.History(); len(h) != 2 {
		t.Fatalf("%d windows in the history", len(h))
	}
}
'''
