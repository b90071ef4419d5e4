PROP='C02'
PKG='pkg/monny'
NEEDS='Lines on both streams, with a full standard error history while standard output has fewer lines.'
BREAKS='The standard error history grows beyond its configured size.'
EDITS=[('pkg/monny/command.go', '\thistory := len(c.Stderr)\n', '\thistory := len(c.Stderr)\n\tif out := len(c.Stdout); out > 0 && out < history {\n\t\thistory = out\n\t}\n')]
DEMO='''
package monny

import (
	"fmt"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	c := &Command{Config: Config{StdoutHistory: 3, StderrHistory: 3}}
	c.processStdout([]byte("out"))
	for i := 0; i < 6; i++ {
		c.processStderr([]byte(fmt.Sprint(i)))
	}
	if fmt.Sprint(c.Stderr) != "[3 4 5]" || fmt.Sprint(c.Stdout) != "[out]" {
		t.Fatalf("kept %v and %v", c.Stderr, c.Stdout)
	}
}
'''
