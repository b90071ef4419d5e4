PROP='C14'
PKG='pkg/monny'
NEEDS='A configuration file with a number that is zero.'
BREAKS='The entry is silently ignored.'
EDITS=[('pkg/monny/parse.go','''		case int:
			opt, err :=''','''		case int:
			if v.(int) == 0 {
				continue
			}
			opt, err :=''')]
DEMO='''
package monny

import (
	"os"
	"path/filepath"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "c.yml")
	if err := os.WriteFile(f, []byte("id: test\\nstdout-history: 0\\n"), 0o600); err != nil {
		t.Fatal(err)
	}
	o, err := parseFromFile(f)
	if err != nil || len(o) != 2 {
		t.Fatalf("%d options, %v", len(o), err)
	}
}
'''
