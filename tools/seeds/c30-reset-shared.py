PROP='C30'
PKG='pkg/metric'
NEEDS='A reset of a shared windowed counter while another goroutine is reading its history or value.'
BREAKS='Reset replaces the history and the current window while holding the lock only for reading, so it races with readers.'
EDITS=[('pkg/metric/counter.go','''func (c *ConcurrentWindowedCounter) Reset() {
	c.mu.Lock()
	defer c.mu.Unlock()
''','''func (c *ConcurrentWindowedCounter) Reset() {
	c.mu.RLock()
	defer c.mu.RUnlock()
''')]
DEMO='''
package metric

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	c := NewConcurrentWindowedCounter(time.Hour)
	c.Add(3)
	done := make(chan bool)
	c.mu.RLock() // a reader is at work
	go func() {
		c.Reset()
		close(done)
	}()
	select {
	case <-done:
		c.mu.RUnlock()
		t.Fatal("the counter was reset while it was being read")
	case <-time.After(500 * time.Millisecond):
	}
	c.mu.RUnlock()
	<-done
	if c.Value() != 0 {
		t.Fatal("not reset")
	}
}
'''
