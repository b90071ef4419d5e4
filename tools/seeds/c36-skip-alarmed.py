PROP='C36'
PKG='pkg/stat'
NEEDS='A test one of whose statistics is in alarm while another is still testing, and a further observation.'
BREAKS='The statistic in alarm no longer gets the observations.'
EDITS=[('pkg/stat/stattest.go', '\tfor _, s := range t.sub {\n\t\tif err := s.Record(obs)', '\tfor _, s := range t.sub {\n\t\tif s.HasAlarmed() {\n\t\t\tcontinue\n\t\t}\n\t\tif err := s.Record(obs)')]
DEMO='''
package stat

import (
	"testing"

	"github.com/BTBurke/monny/pkg/metric"
)

func TestSeedDemo(t *testing.T) {
	mk := func() *TestStatistic {
		e, err := NewEWMAStatistic("x", 1.0, NewLogNormal(4, KFixed(1)))
		if err != nil {
			t.Fatal(err)
		}
		return e
	}
	a, b := mk(), mk()
	m, err := newMachine(UCLTrip)
	if err != nil {
		t.Fatal(err)
	}
	a.fsm = m
	c, err := NewLogNormalTest(metric.NewName("n", nil), WithStatistic(a), WithStatistic(b))
	if err != nil {
		t.Fatal(err)
	}
	for i := 1; i <= 3; i++ {
		if err := c.Record(2); err != nil {
			t.Fatal(err)
		}
		if a.series.Count() != i || b.series.Count() != i {
			t.Fatalf("after %d observations the statistics have %d and %d", i, a.series.Count(), b.series.Count())
		}
	}
}
'''
