PROP='C32'
PKG='pkg/stat'
NEEDS='A lower-limit phase whose weighted average comes down exactly to the limit.'
BREAKS='The estimator does not alarm when the average equals the lower limit.'
EDITS=[('pkg/stat/estimator.go', '\t\tif e.current <= e.limit {', '\t\tif e.current < e.limit {')]
DEMO='''
package stat

import "testing"

func TestSeedDemo(t *testing.T) {
	e, err := NewEWMAStatistic("x", 1.0, NewPoisson(4, 0, func(o []float64) float64 { return o[0] }, KFixed(1)))
	if err != nil {
		t.Fatal(err)
	}
	m, err := newMachine(TestingLCL)
	if err != nil {
		t.Fatal(err)
	}
	e.fsm, e.current, e.limit = m, 5, 3
	if err := e.Record(3); err != nil {
		t.Fatal(err)
	}
	if !e.HasAlarmed() {
		t.Fatal("no alarm at the lower limit")
	}
}
'''
