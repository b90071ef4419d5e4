PROP='C21'
PKG='pkg/fsm'
NEEDS='A transition to the state the machine is already in, with no such edge declared.'
BREAKS='An undeclared transition from a state to itself succeeds.'
EDITS=[('pkg/fsm/fsm.go','''	switch m.Allowable(m.current, to) {
''','''	switch to == m.current || m.Allowable(m.current, to) {
''')]
DEMO='''
package fsm

import "testing"

func TestSeedDemo(t *testing.T) {
	m, err := NewMachine("a", WithTransitions(T("a", "b"), T("b", "a")))
	if err != nil {
		t.Fatal(err)
	}
	if err := m.Transition("b"); err != nil {
		t.Fatal(err)
	}
	if err := m.Transition("b"); err == nil {
		t.Fatal("undeclared self transition succeeded")
	}
}
'''
