PROP='C11'
PKG='pkg/monny'
NEEDS='An address with more than one colon.'
BREAKS='An invalid address is accepted and a wrong port is stored.'
EDITS=[('pkg/monny/config.go','''		h := strings.Split(pathWithPort, ":")''','''		h := strings.SplitN(pathWithPort, ":", 2)''')]
DEMO='''
package monny

import "testing"

func TestSeedDemo(t *testing.T) {
	c := &Config{host: "h", port: "1"}
	if err := Host("a:b:c")(c); err == nil || c.host != "h" || c.port != "1" {
		t.Fatalf("accepted as %s and %s, error %v", c.host, c.port, err)
	}
	if err := Host("a:2")(c); err != nil || c.host != "a" || c.port != "2" {
		t.Fatal("not accepted")
	}
}
'''
