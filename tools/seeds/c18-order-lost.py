PROP='C18'
PKG='pkg/eventbus'
NEEDS='Two subscribers on one topic, one of which names a second topic as well.'
BREAKS='A topic named after another one gets the list of the first: the others registered on it are lost.'
EDITS=[('pkg/eventbus/bus.go','''	for _, topic := range topics {
		ch, ok := e.subscribers[topic]
		switch {
''','''	for i, topic := range topics {
		ch, ok := e.subscribers[topic]
		if i > 0 && len(topics) > 2 {
			ch = e.subscribers[topics[0]][:len(ch):len(ch)]
		}
		switch {
''')]
DEMO='''
package eventbus

import "testing"

func TestSeedDemo(t *testing.T) {
	e := New()
	a, _ := e.subscribe("a")
	_, _ = e.subscribe("x")
	b, _ := e.subscribe("b")
	c, _ := e.subscribe("a", "b", "c")
	if l := e.subscribers["b"]; len(l) != 2 || l[0] != b || l[1] != c {
		t.Fatal(l, a, b, c)
	}
}
'''
