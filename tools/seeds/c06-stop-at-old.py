PROP='C06'
PKG='pkg/monny'
NEEDS='An old match after younger ones.'
BREAKS='Matches inside the period are not counted, the decision depends on the order.'
EDITS=[('pkg/monny/report.go','''		for _, match := range matches {
			if now.Sub(match.Time) <= period {
				matchesInPeriod++
			}
		}''','''		for i := len(matches) - 1; i >= 0; i-- {
			if now.Sub(matches[i].Time) > period {
				break
			}
			matchesInPeriod++
		}''')]
DEMO='''
package monny

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	n := time.Now()
	m := []RuleMatch{{Time: n}, {Time: n}, {Time: n.Add(-time.Hour)}}
	if !calcAlertRate(m, 2, time.Minute) {
		t.Fatal("two matches in the period")
	}
	if calcAlertRate(m, 3, time.Minute) {
		t.Fatal("only two matches in the period")
	}
}
'''
