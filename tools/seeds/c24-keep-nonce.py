PROP='C24'
PKG='pkg/fsm'
NEEDS='A stoppable machine that is stopped already, and an attempt while it is.'
BREAKS='An attempt refused because the machine is stopped does not consume the nonce.'
EDITS=[('pkg/fsm/nonce.go','''		n, _ := newNonce()
		m.nonce = n
		return err
''','''		if _, stopped := err.(StopError); !stopped {
			n, _ := newNonce()
			m.nonce = n
		}
		return err
''')]
DEMO='''
package fsm

import (
	"bytes"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	m, err := NewMachineNonce("a", WithStoppable(), WithTransitions(T("a", "b"), T("b", "a")))
	if err != nil {
		t.Fatal(err)
	}
	if m.Transition("c", m.Nonce()) == nil {
		t.Fatal("illegal transition succeeded")
	}
	n := m.Nonce()
	if m.Transition("b", n) == nil {
		t.Fatal("a stopped machine moved")
	}
	if bytes.Equal(n, m.Nonce()) {
		t.Fatal("the nonce survived an attempt")
	}
}
'''
