PROP='C25'
PKG='pkg/metric'
NEEDS='A series that has seen an exact multiple of its capacity, and a further observation after its values were read.'
BREAKS='The returned values share storage with the series and change later.'
EDITS=[('pkg/metric/series.go','''		out := make([]float64, 0, len(s.values))
		oldest := s.nextIndex()
		return append(append(out, s.values[oldest:]...), s.values[0:oldest]...)
''','''		oldest := s.nextIndex()
		return append(s.values[oldest:], s.values[0:oldest]...)
''')]
DEMO='''
package metric

import "testing"

func TestSeedDemo(t *testing.T) {
	s, err := NewSeries(3)
	if err != nil {
		t.Fatal(err)
	}
	for i := 1; i <= 6; i++ {
		s.Record(float64(i))
	}
	v := s.Values()
	s.Record(7)
	if v[0] != 4 || v[1] != 5 || v[2] != 6 {
		t.Fatalf("values changed after they were returned: %v", v)
	}
}
'''
