PROP='C17'
PKG='pkg/monny/proc'
NEEDS='An event of another type on the bus while the ticker is running.'
BREAKS='Any event of another type ends the ticker as if the bus had been shut down.'
EDITS=[('pkg/monny/proc/ticker.go','''			case _, open := <-c:
				if !open {
''','''			case other, open := <-c:
				if !open || other.Type() != evt {
''')]
DEMO='''
package proc

import (
	"testing"
	"time"

	"github.com/BTBurke/monny/pkg/eventbus"
)

func TestSeedDemo(t *testing.T) {
	eb := eventbus.New()
	c, finished := eb.Subscribe()
	defer finished()
	NewTicker(20*time.Millisecond, eb, "tick")
	other, err := eventbus.NewEvent("other", nil)
	if err != nil {
		t.Fatal(err)
	}
	eb.Dispatch(other)
	time.Sleep(100 * time.Millisecond)
	for len(c) > 0 {
		<-c
		time.Sleep(5 * time.Millisecond)
	}
	for i := 0; i < 3; i++ {
		select {
		case <-c:
		case <-time.After(5 * time.Second):
			t.Fatal("the ticker has stopped")
		}
	}
}
'''
