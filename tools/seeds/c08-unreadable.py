PROP='C08'
PKG='pkg/monny'
NEEDS='An expected file that cannot be examined, followed by one that is missing.'
BREAKS='The missing file is not noticed.'
EDITS=[('pkg/monny/handlers.go','''		default:
			continue
		}
	}
	return''','''		default:
			return
		}
	}
	return''')]
DEMO='''
package monny

import (
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/BTBurke/monny/pkg/proto"
)

type seedReport struct{ got chan proto.ReportReason }

func (s seedReport) Send(c *Command, r proto.ReportReason) { s.got <- r }
func (s seedReport) Wait() error                           { return nil }

func TestSeedDemo(t *testing.T) {
	r := seedReport{make(chan proto.ReportReason, 10)}
	missing := filepath.Join(t.TempDir(), "missing")
	long := filepath.Join(t.TempDir(), strings.Repeat("x", 5000))
	c := &Command{Config: Config{Creates: []string{long, missing}}, report: r, Success: true}
	handleFileCreation(c)
	if c.Success || len(c.Messages) != 1 || !strings.Contains(c.Messages[0], missing) {
		t.Fatalf("missing file not noticed: %v", c.Messages)
	}
	select {
	case x := <-r.got:
		if x != proto.FileNotCreated {
			t.Fatal(x)
		}
	case <-time.After(3 * time.Second):
		t.Fatal("no report")
	}
}
'''
