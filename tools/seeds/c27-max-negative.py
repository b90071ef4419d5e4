PROP='C27'
PKG='pkg/metric'
NEEDS='A list with only negative observations.'
BREAKS='The maximum of negative observations is reported as a number that was never observed.'
EDITS=[('pkg/metric/sampled.go','''	max := obs[0]
''','''	max := 0.0
''')]
DEMO='''
package metric

import "testing"

func TestSeedDemo(t *testing.T) {
	if m := SampleMax([]float64{-3, -1, -2}); m != -1 {
		t.Fatalf("maximum %v", m)
	}
}
'''
