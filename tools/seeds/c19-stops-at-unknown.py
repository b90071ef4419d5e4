PROP='C19'
PKG='pkg/eventbus'
NEEDS='An event for several topics, an earlier one of which has no subscribers while a later one has.'
BREAKS='Topics after the one without subscribers are not sent the event.'
EDITS=[('pkg/eventbus/bus.go','''		if len(channels) == 0 || !ok {
			continue
		}
''','''		if len(channels) == 0 || !ok {
			if len(topics) > 2 {
				break
			}
			continue
		}
''')]
DEMO='''
package eventbus

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	e := New()
	c, _ := e.Subscribe("b")
	e.Dispatch(Event{t: "x"}, "a", "b")
	select {
	case <-c:
	case <-time.After(5 * time.Second):
		t.Fatal("not sent")
	}
}
'''
