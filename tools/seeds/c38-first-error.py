PROP='C38'
PKG='pkg/monny'
NEEDS='An absent callback after one that failed and before others.'
BREAKS='The callbacks after it do not run.'
EDITS=[('pkg/monny/command.go','''		if f == nil {
			continue
		}
''','''		if f == nil && len(errs) == 0 {
			continue
		}
		if f == nil {
			break
		}
''')]
DEMO='''
package monny

import (
	"fmt"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	n := 0
	f := func() error { n++; return fmt.Errorf("e%d", n) }
	c := &Command{cleanup: []func() error{nil, f, nil, f}}
	errs := c.Cleanup()
	if n != 2 || len(errs) != 2 || errs[0].Error() != "e1" || errs[1].Error() != "e2" {
		t.Fatalf("%d calls, %v", n, errs)
	}
}
'''
