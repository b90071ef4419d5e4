PROP='C12'
PKG='pkg/monny'
NEEDS='Two options that fail, then one that succeeds with the identifier known, then further options.'
BREAKS='Later options are not applied and their errors are not reported.'
EDITS=[('pkg/monny/config.go','''		err := option(&c)
		if err != nil {
			errors = append(errors, err)
		}
''','''		attempt := c
		if err := option(&attempt); err != nil {
			errors = append(errors, err)
			continue
		}
		c = attempt
		if len(errors) > 1 && c.ID != "" {
			break
		}
''')]
DEMO='''
package monny

import (
	"fmt"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	t.Setenv("SHELL", "/bin/sh")
	bad := func(n int) ConfigOption { return func(c *Config) error { return fmt.Errorf("bad %d", n) } }
	_, errs := newConfig(bad(0), bad(1), ID("id"), bad(2))
	if len(errs) != 3 {
		t.Fatalf("%d errors: %v", len(errs), errs)
	}
}
'''
