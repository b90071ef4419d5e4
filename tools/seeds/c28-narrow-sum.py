PROP='C28'
PKG='pkg/metric'
NEEDS='Additions that sum past 32 bits.'
BREAKS='A counter wraps at 2^32.'
EDITS=[('pkg/metric/counter.go','''	c.value += int(i)
''','''	c.value = int(uint32(c.value) + uint32(i))
''')]
DEMO='''
package metric

import "testing"

func TestSeedDemo(t *testing.T) {
	c := NewCounter()
	c.Add(1 << 31)
	c.Add(1 << 31)
	c.Add(5)
	if c.Value() != 1<<32+5 {
		t.Fatalf("value %d", c.Value())
	}
}
'''
