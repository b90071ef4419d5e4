PROP='C31'
PKG='pkg/metric'
NEEDS='A copy of a name without metadata, to which metadata is added later.'
BREAKS='The copy shares its metadata with the original.'
EDITS=[('pkg/metric/name.go','''	copiedMD := make(map[string]string)
''','''	if len(n.md) == 0 {
		return n
	}
	copiedMD := make(map[string]string)
''')]
DEMO='''
package metric

import "testing"

func TestSeedDemo(t *testing.T) {
	a := NewName("a", nil)
	b := NewNameFrom(a)
	b.AddMetadata(map[string]string{"k": "v"})
	if a.String() != "a" || b.String() != "a[k=v]" {
		t.Fatalf("%s %s", a, b)
	}
}
'''
