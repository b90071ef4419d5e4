PROP='C34'
PKG='pkg/stat'
NEEDS='A K that cannot be determined and gives no usable number along with its error.'
BREAKS='The limit becomes NaN, so the statistic can never alarm.'
EDITS=[('pkg/stat/estimator.go', '\tif err != nil {\n\t\tk = 5.7\n', '\tif err != nil && k <= 0 {\n\t\tk = 5.7\n')]
DEMO='''
package stat

import (
	"errors"
	"math"
	"testing"
)

type badK struct{}

func (badK) CalculateLN() (float64, error) { return math.NaN(), errors.New("no k") }
func (badK) CalculateP() (float64, error)  { return math.NaN(), errors.New("no k") }

func TestSeedDemo(t *testing.T) {
	for _, d := range []int{1, -1} {
		if l := calculateLimit(4, 1, .25, NewLogNormal(4, badK{}), d); math.IsNaN(l) || math.IsInf(l, 0) {
			t.Fatalf("limit is %v", l)
		}
	}
}
'''
