//go:build go1.21

package monny

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strings"

	"github.com/BTBurke/monny/internal/vc"
)

// ---- checkRule ----

// placeOf: where an expression matches a text.
var placeOf map[int][][]int

//vc:extern (*regexp.Regexp).FindAllIndex
func extFindAllIndex(re *regexp.Regexp, text []byte, n int) [][]int {
	if n < 0 && vc.UFBool("matches", re, string(text)) {
		if p := placeOf[vc.UFInt("place", re, string(text))]; p != nil {
			return p
		}
		return [][]int{}
	}
	return nil
}

// specText: the text of the line a rule is tested against.
func specText(line string, r rule) string {
	if len(r.Field) > 0 {
		return vc.UFStr("field text", line, r.Field)
	}
	return line
}

//vc:extern extractTextFromJSON when=fields
func stubExtract(raw []byte, field string) []byte {
	return []byte(vc.UFStr("field text", string(raw), field))
}

func specHit(line string, r rule) bool { return vc.UFBool("matches", r.Regex, specText(line, r)) }

// specHits: how many of the first n rules match.
//
//vc:spec
func specHits(rules vc.Seq[rule], line string, n int) int {
	if n <= 0 {
		return 0
	}
	if specHit(line, rules.At(n-1)) {
		return specHits(rules, line, n-1) + 1
	}
	return specHits(rules, line, n-1)
}

func specPlaces(m RuleMatch, line string, r rule) bool {
	p := placeOf[vc.UFInt("place", r.Regex, specText(line, r))]
	return m.Index != nil && (p == nil || vc.Same(m.Index, p))
}

//vc:contract checkRule prop=C03 with=fields noreplay
func cCheckRule(line []byte, rules []rule) {
	all, s := vc.Snap(rules), string(line)
	vc.Requires(func() bool { return vc.Forall(0, len(rules), func(i int) bool { return rules[i].Regex != nil }) })
	vc.Invariant("number", func(i int, matches []RuleMatch) bool { return len(matches) == specHits(all, s, i) })
	vc.Invariant("bound", func(i int) bool { return specHits(all, s, i) >= 0 })
	vc.Invariant("lines", func(i int, matches []RuleMatch) bool {
		return vc.Forall(0, len(matches), func(j int) bool { return matches[j].Line == s })
	})
	vc.Invariant("places", func(i int, matches []RuleMatch) bool {
		return vc.Forall(0, i, func(j int) bool {
			return !specHit(s, all.At(j)) || specHits(all, s, j) < len(matches) && specPlaces(matches[specHits(all, s, j)], s, all.At(j))
		})
	})
	m := checkRule(line, rules)
	vc.Ensures("one match per matching rule", func() bool { return len(m) == specHits(all, s, len(rules)) })
	vc.Ensures("with the whole line", func() bool { return vc.Forall(0, len(m), func(j int) bool { return m[j].Line == s }) })
	vc.Ensures("in rule order, with the places found", func() bool {
		return vc.Forall(0, len(rules), func(j int) bool {
			return !specHit(s, all.At(j)) || specHits(all, s, j) < len(m) && specPlaces(m[specHits(all, s, j)], s, all.At(j))
		})
	})
	vc.Ensures("line unchanged", func() bool { return string(line) == s })
}

// ---- the text of a field ----

type notObject struct{}

func (notObject) Error() string { return "not an object" }

var parsed string // the text last parsed
var parsedN int
var asRaw map[string]json.RawMessage // what it contains
var asValues map[string]interface{}

//vc:extern encoding/json.Unmarshal when=json
func stubUnmarshal(data []byte, v any) error {
	parsed = string(data)
	parsedN++
	if vc.UFBool("not an object", string(data)) {
		return notObject{}
	}
	switch p := v.(type) {
	case *map[string]json.RawMessage:
		*p = asRaw
	case *map[string]interface{}:
		*p = asValues
	}
	return nil
}

var innerRaw, innerField string // what was looked up inside the object
var innerN int
var innerText []byte

//vc:extern extractTextFromJSON when=json
func stubInner(raw []byte, field string) []byte {
	innerRaw, innerField = string(raw), field
	innerN++
	return innerText
}

//vc:contract extractTextFromJSON prop=C03 with=json noreplay
func cExtractNested(raw []byte, field string) {
	path := strings.Split(field, ".")
	vc.Requires(func() bool { return len(path) > 1 && innerN == 0 && parsedN == 0 && asRaw != nil })
	rest := strings.Join(path[1:], ".")
	first := path[0]
	s := string(raw)
	inside := string(asRaw[first])
	bad := vc.UFBool("not an object", s)
	vc.Modifies(&innerRaw, &innerField, &innerN, &parsed, &parsedN)
	r := extractTextFromJSON(raw, field)
	vc.Ensures("of the line", func() bool { return parsedN == 1 && parsed == s })
	vc.Ensures("nothing if the line is no object", func() bool { return !bad || len(r) == 0 && innerN == 0 })
	vc.Ensures("the rest of the path inside the first field", func() bool {
		return bad || innerN == 1 && innerRaw == inside && innerField == rest && vc.Same(r, innerText)
	})
}

//vc:contract extractTextFromJSON prop=C03 with=json noreplay
func cExtractField(raw []byte, field string) {
	path := strings.Split(field, ".")
	vc.Requires(func() bool { return len(path) <= 1 && innerN == 0 && parsedN == 0 && asValues != nil })
	s := string(raw)
	bad := vc.UFBool("not an object", s)
	v := asValues[field]
	_, isList := v.([]interface{})
	vc.Requires(func() bool { return bad || !isList })
	vc.Modifies(&innerRaw, &innerField, &innerN, &parsed, &parsedN)
	r := extractTextFromJSON(raw, field)
	vc.Ensures("of the line", func() bool { return parsedN == 1 && parsed == s && innerN == 0 })
	vc.Ensures("the value as text", func() bool {
		if bad {
			return len(r) == 0
		}
		return string(r) == specScalar(v)
	})
}

func specScalar(v interface{}) string {
	switch x := v.(type) {
	case string:
		return x
	case float64:
		return fmt.Sprintf("%f", x)
	case float32:
		return fmt.Sprintf("%f", x)
	case bool:
		return fmt.Sprintf("%v", x)
	}
	return ""
}

func isScalar(v interface{}) bool {
	switch v.(type) {
	case string, float64, float32, bool:
		return true
	}
	return false
}

//vc:spec
func specScalars(vals vc.Seq[interface{}], n int) int {
	if n <= 0 {
		return 0
	}
	if isScalar(vals.At(n - 1)) {
		return specScalars(vals, n-1) + 1
	}
	return specScalars(vals, n-1)
}

var joined []string // what was joined last
var joinSep string
var joinN int

//vc:extern strings.Join when=list
func stubJoin(s []string, sep string) string {
	joined, joinSep = s, sep
	joinN++
	return vc.UFStr("joined", joinN)
}

//vc:contract extractTextFromJSON prop=C03 with=json+list noreplay
func cExtractList(raw []byte, field string, list []interface{}) {
	path := strings.Split(field, ".")
	vc.Requires(func() bool { return len(path) <= 1 && innerN == 0 && parsedN == 0 && joinN == 0 && asValues != nil })
	s := string(raw)
	vals := vc.Snap(list)
	asValues[field] = list
	vc.Requires(func() bool { return !vc.UFBool("not an object", s) })
	vc.Modifies(&innerRaw, &innerField, &innerN, &parsed, &parsedN, &joined, &joinSep, &joinN)
	vc.Invariant("number", func(i int, out []string) bool { return len(out) == specScalars(vals, i) })
	vc.Invariant("bound", func(i int) bool { return specScalars(vals, i) >= 0 })
	vc.Invariant("elements", func(i int, out []string) bool {
		return vc.Forall(0, i, func(j int) bool {
			return !isScalar(vals.At(j)) || specScalars(vals, j) < len(out) && out[specScalars(vals, j)] == specScalar(vals.At(j))
		})
	})
	r := extractTextFromJSON(raw, field)
	vc.Ensures("one line per element", func() bool { return joinN == 1 && joinSep == "\n" && string(r) == vc.UFStr("joined", 1) })
	vc.Ensures("each scalar element", func() bool { return len(joined) == specScalars(vals, len(list)) })
	vc.Ensures("in order", func() bool {
		return vc.Forall(0, len(list), func(j int) bool {
			return !isScalar(vals.At(j)) || specScalars(vals, j) < len(joined) && joined[specScalars(vals, j)] == specScalar(vals.At(j))
		})
	})
}
