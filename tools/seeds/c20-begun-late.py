PROP='C20'
PKG='pkg/eventbus'
NEEDS='A shutdown that ends because its context ended.'
BREAKS='The bus is not marked as closed, so events are still accepted afterwards.'
EDITS=[('pkg/eventbus/bus.go','''	case <-ctx.Done():
		return ErrShutdownTimeout
''','''	case <-ctx.Done():
		e.sdStarted = false
		return ErrShutdownTimeout
''')]
DEMO='''
package eventbus

import (
	"context"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	e := New()
	e.Subscribe()
	ctx, f := context.WithTimeout(context.Background(), 50*time.Millisecond)
	defer f()
	if err := e.Shutdown(ctx); err != ErrShutdownTimeout {
		t.Fatal(err)
	}
	if !e.sdStarted {
		t.Fatal("not marked as closed")
	}
}
'''
