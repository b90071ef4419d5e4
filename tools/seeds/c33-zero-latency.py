PROP='C33'
PKG='pkg/stat'
NEEDS='An observation of exactly zero for a log-normal statistic, whose logarithm is minus infinity.'
BREAKS='The observation is recorded and ruins the series instead of being rejected.'
EDITS=[('pkg/stat/estimator.go', '\tif math.IsNaN(o) || math.IsInf(o, 1) || math.IsInf(o, -1) {', '\tif math.IsNaN(o) || math.IsInf(o, 1) {')]
DEMO='''
package stat

import "testing"

func TestSeedDemo(t *testing.T) {
	e, err := NewEWMAStatistic("x", .25, NewLogNormal(4, KFixed(3)))
	if err != nil {
		t.Fatal(err)
	}
	if err := e.Record(0); err == nil {
		t.Fatal("accepted")
	}
	if e.series.Count() != 0 {
		t.Fatal("recorded")
	}
}
'''
