PROP='C19'
PKG='pkg/eventbus'
NEEDS='A subscriber that has not yet received the previous event when the next one is dispatched.'
BREAKS='The event is dropped instead of waiting for the subscriber.'
EDITS=[('pkg/eventbus/bus.go','''					c <- evt
''','''					select {
					case c <- evt:
					case <-time.After(200 * time.Millisecond):
					}
'''),('pkg/eventbus/bus.go','''	"sync"
''','''	"sync"
	"time"
''')]
DEMO='''
package eventbus

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	e := New()
	c, _ := e.Subscribe()
	e.Dispatch(Event{t: "x"})
	e.Dispatch(Event{t: "y"})
	time.Sleep(1500 * time.Millisecond)
	for i := 0; i < 2; i++ {
		select {
		case <-c:
		case <-time.After(3 * time.Second):
			t.Fatal("not sent")
		}
	}
}
'''
