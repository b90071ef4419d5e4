PROP='C20'
PKG='pkg/eventbus'
NEEDS='A subscriber that takes longer than a moment to finish.'
BREAKS='Success is reported though the subscriber has not announced that it finished.'
EDITS=[('pkg/eventbus/bus.go','''			case <-c:
				wg.Done()
				return
''','''			case <-c:
				wg.Done()
				return
			case <-time.After(2 * time.Second):
				wg.Done()
				return
'''),('pkg/eventbus/bus.go','''	"sync"
''','''	"sync"
	"time"
''')]
DEMO='''
package eventbus

import (
	"context"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	e := New()
	e.Subscribe()
	ctx, f := context.WithTimeout(context.Background(), 4*time.Second)
	defer f()
	if err := e.Shutdown(ctx); err != ErrShutdownTimeout {
		t.Fatal(err)
	}
}
'''
