PROP='C01'
PKG='pkg/monny/proc'
NEEDS='A copy taken before a Clear, followed by additions after the Clear: two sites (Copy shares the storage, Clear reuses it) that are each harmless alone.'
BREAKS='A snapshot of the queue is overwritten by additions made after the queue was cleared.'
EDITS=[('pkg/monny/proc/queue.go','''	s := make([]string, len(q.q))
	copy(s, q.q)

	return s
''','''	return q.q[:len(q.q):len(q.q)]
'''),('pkg/monny/proc/queue.go','''	q.q = make([]string, 0, q.capacity+1)
}''','''	q.q = q.q[:0]
}''')]
DEMO='''
package proc

import "testing"

func TestSeedDemo(t *testing.T) {
	q := NewQueue(4)
	q.Add("a")
	q.Add("b")
	c := q.Copy()
	q.Clear()
	q.Add("x")
	if len(c) != 2 || c[0] != "a" || c[1] != "b" {
		t.Fatalf("snapshot changed: %v", c)
	}
}
'''
