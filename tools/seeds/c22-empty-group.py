PROP='C22'
PKG='pkg/fsm'
NEEDS='A list of transition groups with an empty group before a non-empty one.'
BREAKS='Edges declared after an empty group are lost.'
EDITS=[('pkg/fsm/transition.go','''	for _, t1 := range t {
''','''	for _, t1 := range t {
		if len(t1) == 0 {
			break
		}
''')]
DEMO='''
package fsm

import "testing"

func TestSeedDemo(t *testing.T) {
	m, err := NewMachine("a", WithTransitions(T("a", "b"), T("x"), T("b", "c")))
	if err != nil {
		t.Fatal(err)
	}
	if !m.Allowable("a", "b") || !m.Allowable("b", "c") || m.Allowable("a", "c") {
		t.Fatal("declared edges are not the allowed ones")
	}
}
'''
