PROP='C03'
PKG='pkg/monny'
NEEDS='A field rule whose path has four or more parts.'
BREAKS='The text of another field is tested.'
EDITS=[('pkg/monny/command.go', '\t\treturn extractTextFromJSON(res[fieldPath[0]], strings.Join(fieldPath[1:], "."))', '\t\trest := fieldPath[1:]\n\t\tfor len(rest) > 2 {\n\t\t\trest = rest[1:]\n\t\t}\n\t\treturn extractTextFromJSON(res[fieldPath[0]], strings.Join(rest, "."))')]
DEMO='''
package monny

import (
	"regexp"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	line := []byte(`{"a":{"b":{"c":{"d":"found"}},"c":{"d":"wrong"}}}`)
	rules := []rule{{Field: "a.b.c.d", Regex: regexp.MustCompile("found")}, {Field: "a.c.d", Regex: regexp.MustCompile("wrong")}}
	m := checkRule(line, rules)
	if len(m) != 2 || m[0].Line != string(line) {
		t.Fatalf("got %v", m)
	}
}
'''
