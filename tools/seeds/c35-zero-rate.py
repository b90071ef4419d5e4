PROP='C35'
PKG='pkg/stat'
NEEDS='A desired error rate of exactly zero, whose logarithm is minus infinity.'
BREAKS='K is infinite and no error is returned.'
EDITS=[('pkg/stat/k.go', '\tif math.IsNaN(kest) || math.IsInf(kest, 1) || math.IsInf(kest, -1) {', '\tif math.IsNaN(kest) || math.IsInf(kest, -1) {')]
DEMO='''
package stat

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	for _, r := range []float64{0, -1, math.Inf(1), math.NaN()} {
		for _, f := range []func() (float64, error){KErrorRate(r).CalculateLN, KErrorRate(r).CalculateP} {
			k, err := f()
			if err == nil || math.IsInf(k, 0) || math.IsNaN(k) {
				t.Fatalf("rate %v: k %v, error %v", r, k, err)
			}
		}
	}
}
'''
