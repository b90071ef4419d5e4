PROP='C23'
PKG='pkg/fsm'
NEEDS='A stoppable machine whose first illegal transition is attempted in its initial state.'
BREAKS='A stoppable machine is not stopped by an illegal transition out of its initial state.'
EDITS=[('pkg/fsm/fsm.go','''	default:
		m.stoppable.stopped = true
''','''	default:
		m.stoppable.stopped = m.stoppable.stopped || m.current != m.initial
''')]
DEMO='''
package fsm

import "testing"

func TestSeedDemo(t *testing.T) {
	m, err := NewMachine("a", WithStoppable(), WithTransitions(T("a", "b"), T("b", "c")))
	if err != nil {
		t.Fatal(err)
	}
	if m.Transition("c") == nil {
		t.Fatal("illegal transition succeeded")
	}
	if m.Transition("b") == nil {
		t.Fatal("a stopped machine moved")
	}
}
'''
