PROP='C13'
PKG='pkg/monny'
NEEDS='A field rule whose expression has a colon.'
BREAKS='The rule is split at its last colon.'
EDITS=[('pkg/monny/parse.go','''		return JSONRule(jrule[0][0:len(jrule[0])-1], jrule[1]), nil''','''		at := strings.LastIndex(value, ":")
		if n := strings.Count(value, ":"); n < 2 {
			at = len(jrule[0]) - 1
		}
		return JSONRule(value[:at], value[at+1:]), nil''')]
DEMO='''
package monny

import "testing"

func TestSeedDemo(t *testing.T) {
	c := &Config{}
	o, err := handleOption("rule-json", "time:12:30")
	if err != nil {
		t.Fatal(err)
	}
	if err := o(c); err != nil {
		t.Fatal(err)
	}
	if len(c.Rules) != 1 || c.Rules[0].Field != "time" || c.Rules[0].Regex.String() != "12:30" {
		t.Fatalf("field %q expression %q", c.Rules[0].Field, c.Rules[0].Regex)
	}
}
'''
