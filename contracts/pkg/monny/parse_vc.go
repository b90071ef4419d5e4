//go:build go1.21

package monny

import (
	"strconv"
	"strings"
	"time"

	"github.com/BTBurke/monny/internal/vc"
	"github.com/spf13/pflag"
)

// ---- C13: handleOption ----

// given is the option selected by name, which must be accepted.
func given(name, value string) ConfigOption {
	o, err := handleOption(name, value)
	vc.Assert("known", func() bool { return o != nil && err == nil })
	return o
}

//vc:lemma prop=C13
func lFlagID(c *Config, s string) {
	vc.Assume(func() bool { return c != nil })
	want := *c
	want.ID = s
	apply(c, given("id", s), want, true)
}

//vc:lemma prop=C13
func lFlagHistory(c *Config, s string) {
	vc.Assume(func() bool { return c != nil })
	n, err := strconv.Atoi(s)
	want := *c
	want.StdoutHistory = n
	apply(c, given("stdout-history", s), want, err == nil)
	want = *c
	want.StderrHistory = n
	apply(c, given("stderr-history", s), want, err == nil)
}

//vc:lemma prop=C13
func lFlagMemory(c *Config, s string) {
	vc.Assume(func() bool { return c != nil })
	n, ok := specMemory(s)
	want := *c
	want.MemoryWarn = uint64(n)
	apply(c, given("memory-warn", s), want, ok)
	want = *c
	want.MemoryKill = uint64(n)
	apply(c, given("memory-kill", s), want, ok)
}

//vc:lemma prop=C13
func lFlagTimeout(c *Config, s string) {
	vc.Assume(func() bool { return c != nil })
	d, err := time.ParseDuration(s)
	want := *c
	want.NotifyTimeout = d
	apply(c, given("timeout-warn", s), want, err == nil)
	want = *c
	want.KillTimeout = d
	apply(c, given("timeout-kill", s), want, err == nil)
}

//vc:lemma prop=C13
func lFlagHost(c *Config, s string) {
	vc.Assume(func() bool { return c != nil })
	parts := strings.Split(s, ":")
	want := *c
	ok := len(parts) == 2
	if ok {
		i := strings.Index(s, ":")
		want.host, want.port = s[:i], s[i+1:]
	}
	apply(c, given("host", s), want, ok)
}

//vc:lemma prop=C13 noreplay
func lFlagShell(c *Config, s string) {
	vc.Assume(func() bool { return c != nil })
	want := *c
	want.Shell = vc.UFStr("path", s)
	apply(c, given("shell", s), want, !vc.UFBool("not found", s))
}

//vc:lemma prop=C13
func lFlagCreates(c *Config, path string) {
	vc.Assume(func() bool { return c != nil && len(c.Creates) < 1<<30 })
	before := *c
	rules, creates := vc.Snap(c.Rules), vc.Snap(c.Creates)
	err := given("creates", path)(c)
	vc.Assert("added", func() bool {
		n := creates.Len()
		return err == nil && len(c.Creates) == n+1 && c.Creates[n] == path && vc.Forall(0, n, func(i int) bool { return c.Creates[i] == creates.At(i) })
	})
	vc.Assert("nothing else", func() bool { return sameRest(c, &before) && sameRules(c.Rules, rules) })
}

//vc:lemma prop=C13 noreplay
func lFlagRule(c *Config, expr string) {
	vc.Assume(func() bool { return c != nil && len(c.Rules) < 1<<30 })
	before := *c
	rules, creates := vc.Snap(c.Rules), vc.Snap(c.Creates)
	err := given("rule", expr)(c)
	vc.Assert("added if it is an expression", func() bool { return specRuleAdded(c, &before, rules, "", expr, err) })
	vc.Assert("nothing else", func() bool { return sameRest(c, &before) && specLines(c.Creates, creates) })
}

//vc:lemma prop=C13 noreplay
func lFlagRuleJSON(c *Config, s string) {
	vc.Assume(func() bool { return c != nil && len(c.Rules) < 1<<30 })
	before := *c
	rules, creates := vc.Snap(c.Rules), vc.Snap(c.Creates)
	o, err := handleOption("rule-json", s)
	i := strings.Index(s, ":")
	vc.Assert("accepted if it has a colon", func() bool { return (err == nil) == (i >= 0) && (o != nil) == (i >= 0) })
	if i < 0 || err != nil {
		return
	}
	field, expr := s[:i], s[i+1:]
	err = o(c)
	vc.Assert("split at the first colon", func() bool { return specRuleAdded(c, &before, rules, field, expr, err) })
	vc.Assert("nothing else", func() bool { return sameRest(c, &before) && specLines(c.Creates, creates) })
}

// off: the value says that a switch is not to be turned on.
func off(value string) bool {
	on, err := strconv.ParseBool(value)
	return err == nil && !on
}

//vc:lemma prop=C13
func lFlagSwitches(c *Config, which int, value string) {
	vc.Assume(func() bool { return c != nil && which >= 0 && which < 4 })
	name := "no-notify-on-success"
	want := *c
	switch which {
	case 0:
		want.NotifyOnSuccess = false
	case 1:
		name = "no-notify-on-failure"
		want.NotifyOnFailure = false
	case 2:
		name = "daemon"
		want.Daemon = true
	case 3:
		name = "insecure"
		want.useTLS = false
	}
	if off(value) {
		want = *c
	}
	apply(c, given(name, value), want, true)
}

//vc:lemma prop=C13
func lFlagNoErrorReports(c *Config, value string) {
	vc.Assume(func() bool { return c != nil })
	before, quiet := *c, SuppressErrorReporting
	rules, creates := vc.Snap(c.Rules), vc.Snap(c.Creates)
	err := given("no-error-reports", value)(c)
	vc.Assert("set unless switched off", func() bool { return err == nil && SuppressErrorReporting == (quiet || !off(value)) })
	vc.Assert("nothing else", func() bool { return sameRest(c, &before) && sameRules(c.Rules, rules) && specLines(c.Creates, creates) })
}

//vc:lemma prop=C13
func lFlagOn(c *Config) {
	vc.Assume(func() bool { return c != nil })
	want := *c
	want.Daemon = true
	apply(c, given("daemon", "true"), want, true)
	want.useTLS = false
	apply(c, given("insecure", "true"), want, true)
}

// documented: the names a configuration may use.
func documented(name string) bool {
	switch name {
	case "id", "rule", "rule-json", "stdout-history", "stderr-history", "no-notify-on-success", "no-notify-on-failure", "daemon",
		"memory-warn", "memory-kill", "timeout-warn", "timeout-kill", "creates", "host", "insecure", "no-error-reports", "shell":
		return true
	}
	return false
}

//vc:contract handleOption prop=C13 inline
func cUnknownOption(name, value string) {
	vc.Requires(func() bool { return !documented(name) })
	o, err := handleOption(name, value)
	vc.Ensures("rejected", func() bool { return o == nil && err != nil })
}

//vc:contract handleOption prop=C13 inline
func cKnownOption(name, value string) {
	vc.Requires(func() bool { return documented(name) && name != "rule-json" })
	o, err := handleOption(name, value)
	vc.Ensures("accepted", func() bool { return o != nil && err == nil })
}

// ---- the command line ----

var optN int // options handed out; option number i has the identity UFInt("option", i)
var optFails int

type rejected struct{ name string }

func (rejected) Error() string { return "rejected" }

// stubHandle hands out the next option, or rejects the name and value.
//
//vc:extern handleOption when=parse
func stubHandle(name, value string) (ConfigOption, error) {
	if vc.UFBool("rejected", name, value) {
		optFails++
		return nil, rejected{name}
	}
	o := vc.Nondet[ConfigOption]("option")
	vc.Assume(func() bool {
		return o != nil && vc.FnID(o) == vc.UFInt("option", optN) && vc.FnID(o) == vc.UFInt("from", name, value)
	})
	optN++
	return o, nil
}

// stubFile hands out the options of a file.
//
//vc:extern parseFromFile when=parse
func stubFile(path string) ([]ConfigOption, error) {
	if vc.UFBool("bad file", path) {
		optFails++
		return nil, rejected{path}
	}
	o := vc.Nondet[[]ConfigOption]("options")
	n := optN
	vc.Assume(func() bool {
		return len(o) < 1<<20 && vc.Forall(0, len(o), func(i int) bool { return vc.FnID(o[i]) == vc.UFInt("option", n+i) })
	})
	optN += len(o)
	return o, nil
}

// specOptions: the options are exactly those handed out, in order.
func specOptions(o []ConfigOption) bool {
	return len(o) == optN && vc.Forall(0, len(o), func(i int) bool { return vc.FnID(o[i]) == vc.UFInt("option", i) })
}

//vc:lemma prop=C13 with=parse noreplay
func lParseFlag(o *options, flag *pflag.Flag, value string) {
	vc.Assume(func() bool {
		return o != nil && flag != nil && len(o.options) < 1<<30 && specOptions(o.options) && optFails == 0 && o.err == nil
	})
	n := optN
	name := flag.Name
	err := parseFlag(o)(flag, value)
	bad := name == "config" && vc.UFBool("bad file", value) || name != "config" && vc.UFBool("rejected", name, value)
	vc.Assert("rejected exactly if invalid", func() bool { return (err != nil) == bad && (optFails == 1) == bad && (o.err != nil) == bad })
	vc.Assert("its options are added", func() bool { return specOptions(o.options) })
	vc.Assert("its own option", func() bool {
		return bad || name == "config" || optN == n+1 && vc.FnID(o.options[n]) == vc.UFInt("from", name, value)
	})
}

var flagN int    // how many flags the command line has
var ranFlags int // how many were passed on

type badFlag struct{}

func (badFlag) Error() string { return "bad flag" }

func flagName(i int) string  { return vc.UFStr("flag", i) }
func flagValue(i int) string { return vc.UFStr("value", i) }

//vc:extern (*github.com/spf13/pflag.FlagSet).ParseAll when=parse
func stubParseAll(f *pflag.FlagSet, arguments []string, fn func(flag *pflag.Flag, value string) error) error {
	for i := 0; i < flagN; i++ {
		if err := fn(&pflag.Flag{Name: flagName(i)}, flagValue(i)); err != nil {
			return err
		}
		ranFlags++
	}
	if vc.UFBool("bad flag", flagN) {
		return badFlag{}
	}
	return nil
}

var restArgs []string

//vc:extern (*github.com/spf13/pflag.FlagSet).Args when=parse
func stubArgs(f *pflag.FlagSet) []string { return restArgs }

//vc:contract parse prop=C13 with=parse noreplay
func cParse(args []string, pf *pflag.FlagSet) {
	vc.Requires(func() bool { return pf != nil && optN == 0 && optFails == 0 && ranFlags == 0 && flagN >= 0 })
	vc.Modifies(&optN, &optFails, &ranFlags)
	vc.Invariant("passed on", func(i int) bool { return ranFlags == i && i <= flagN })
	vc.Invariant("options so far", func(o *options) bool { return specOptions(o.options) && o.err == nil && optFails == 0 })
	rest, opts, err := parse(args, pf)
	vc.Ensures("the options of all flags, in order", func() bool { return specOptions(opts) })
	vc.Ensures("an error if anything is wrong", func() bool {
		return (err != nil) == (optFails > 0 || vc.UFBool("bad flag", flagN) && ranFlags == flagN)
	})
	vc.Ensures("nothing is left out", func() bool { return err != nil || ranFlags == flagN })
	vc.Ensures("the command", func() bool { return vc.Same(rest, restArgs) })
}

// ---- the flags that are declared: one of them is watched ----

const (
	textFlag = iota + 1
	intFlag
	switchFlag
	durationFlag
)

var watched string
var watchedN, watchedKind int

func declare(name string, kind int) {
	if name == watched {
		watchedN++
		watchedKind = kind
	}
}

//vc:extern github.com/spf13/pflag.NewFlagSet when=flags
func stubNewFlagSet(name string, h pflag.ErrorHandling) *pflag.FlagSet { return &pflag.FlagSet{} }

//vc:extern (*github.com/spf13/pflag.FlagSet).StringP when=flags
func stubStringP(f *pflag.FlagSet, name, shorthand, value, usage string) *string {
	declare(name, textFlag)
	return new(string)
}

//vc:extern (*github.com/spf13/pflag.FlagSet).String when=flags
func stubString(f *pflag.FlagSet, name, value, usage string) *string {
	declare(name, textFlag)
	return new(string)
}

//vc:extern (*github.com/spf13/pflag.FlagSet).Int when=flags
func stubInt(f *pflag.FlagSet, name string, value int, usage string) *int {
	declare(name, intFlag)
	return new(int)
}

//vc:extern (*github.com/spf13/pflag.FlagSet).Bool when=flags
func stubBool(f *pflag.FlagSet, name string, value bool, usage string) *bool {
	declare(name, switchFlag)
	return new(bool)
}

//vc:extern (*github.com/spf13/pflag.FlagSet).Duration when=flags
func stubDuration(f *pflag.FlagSet, name string, value time.Duration, usage string) *time.Duration {
	declare(name, durationFlag)
	return new(time.Duration)
}

func flagKind(name string) int {
	switch name {
	case "stdout-history", "stderr-history":
		return intFlag
	case "no-notify-on-success", "no-notify-on-failure", "daemon", "insecure", "no-error-reports":
		return switchFlag
	case "timeout-warn", "timeout-kill":
		return durationFlag
	}
	return textFlag
}

//vc:contract createFlagSet prop=C13 with=flags noreplay
func cFlagSet() {
	vc.Requires(func() bool { return watchedN == 0 })
	vc.Modifies(&watchedN, &watchedKind)
	pf := createFlagSet()
	vc.Ensures("made", func() bool { return pf != nil })
	vc.Ensures("declared once", func() bool { return watchedN == 1 == (documented(watched) || watched == "config") && watchedN <= 1 })
	vc.Ensures("of its kind", func() bool { return watchedN == 0 || watchedKind == flagKind(watched) })
}

// ---- C14: configuration files ----

var fileValues map[string]interface{} // the entries of the file
var fileLists listFieldsYAML          // its lists
var fileWatched string                // the key that is watched
var fileElem int                      // the element that is watched
var fileN int                         // options made for the watched key
var fileAt string                     // the value the watched element had
var unmarshals int
var fileTaken bool // the entries were read

//vc:extern io/ioutil.ReadFile when=file
func stubReadFile(path string) ([]byte, error) {
	if vc.UFBool("unreadable", path) {
		optFails++
		return nil, rejected{path}
	}
	return nil, nil
}

//vc:extern github.com/go-yaml/yaml.Unmarshal when=file
func stubYAML(in []byte, out interface{}) error {
	n := unmarshals
	unmarshals++
	if vc.UFBool("malformed", n) {
		optFails++
		return rejected{}
	}
	switch p := out.(type) {
	case *map[string]interface{}:
		*p = fileValues
		fileTaken = true
	case *listFieldsYAML:
		*p = fileLists
	}
	return nil
}

//vc:extern handleOption when=file
func stubFileOption(name, value string) (ConfigOption, error) {
	if name == fileWatched {
		if fileN == fileElem {
			fileAt = value
		}
		fileN++
	}
	return stubHandle(name, value)
}

// isList: the value is neither text, nor a whole number, nor a truth value, nor nothing.
func isList(v interface{}) bool {
	switch v.(type) {
	case string, int, bool:
		return false
	}
	return v != nil
}

// scalarText is the text of a value that is not a list.
func scalarText(v interface{}) string {
	switch x := v.(type) {
	case string:
		return x
	case int:
		return strconv.Itoa(x)
	case bool:
		return strconv.FormatBool(x)
	}
	return ""
}

func fileReset() bool {
	return optN == 0 && optFails == 0 && fileN == 0 && !fileTaken && fileElem >= 0 && len(fileLists.Rule) < 1<<20 && len(fileLists.JSONRule) < 1<<20 && len(fileLists.Creates) < 1<<20
}

//vc:contract parseFromFile prop=C14 with=file noreplay inline
func cFileScalar(path string) {
	vc.Requires(func() bool {
		return fileReset() && fileWatched != "rule" && fileWatched != "rule-json" && fileWatched != "creates"
	})
	vc.Modifies(&optN, &optFails, &fileN, &fileAt, &unmarshals, &fileTaken)
	vc.Invariant("taken", func(seen vc.Set[string]) bool {
		v, ok := fileValues[fileWatched]
		return !(ok && seen.Has(fileWatched)) || v != nil && !isList(v) && fileN == 1 && (fileElem > 0 || fileAt == scalarText(v))
	})
	vc.Invariant("not taken", func(seen vc.Set[string]) bool {
		_, ok := fileValues[fileWatched]
		return ok && seen.Has(fileWatched) || fileN == 0
	})
	_, err := parseFromFile(path)
	v, ok := fileValues[fileWatched]
	vc.Ensures("one option for the entry", func() bool { return err != nil || fileN == 1 == ok && fileN <= 1 })
	vc.Ensures("with its value", func() bool { return err != nil || !ok || fileElem > 0 || fileAt == scalarText(v) })
	vc.Ensures("a list or nothing is not accepted", func() bool { return err != nil || !ok || v != nil && !isList(v) })
}

func fileEntry(list []string) bool {
	v, ok := fileValues[fileWatched]
	if !ok {
		return fileN == 0
	}
	if !isList(v) {
		return v != nil && fileN == 1 && (fileElem > 0 || fileAt == scalarText(v))
	}
	return fileN == len(list) && len(list) > 0 && (fileElem >= len(list) || fileAt == list[fileElem])
}

//vc:contract parseFromFile prop=C14 with=file noreplay inline
func cFileRules(path string) {
	vc.Requires(func() bool { return fileReset() && fileWatched == "rule" })
	vc.Modifies(&optN, &optFails, &fileN, &fileAt, &unmarshals, &fileTaken)
	vc.Invariant("taken", func(seen vc.Set[string]) bool {
		_, ok := fileValues[fileWatched]
		return !(ok && seen.Has(fileWatched)) || fileEntry(fileLists.Rule)
	})
	vc.Invariant("not taken", func(seen vc.Set[string]) bool {
		_, ok := fileValues[fileWatched]
		return ok && seen.Has(fileWatched) || fileN == 0
	})
	vc.Invariant("elements", func(i int) bool {
		return fileN == i && i <= len(fileLists.Rule) && (fileElem >= i || fileAt == fileLists.Rule[fileElem])
	})
	_, err := parseFromFile(path)
	vc.Ensures("one option per element, in order", func() bool { return err != nil || fileEntry(fileLists.Rule) })
}

//vc:contract parseFromFile prop=C14 with=file noreplay inline
func cFileJSONRules(path string) {
	vc.Requires(func() bool { return fileReset() && fileWatched == "rule-json" })
	vc.Modifies(&optN, &optFails, &fileN, &fileAt, &unmarshals, &fileTaken)
	vc.Invariant("taken", func(seen vc.Set[string]) bool {
		_, ok := fileValues[fileWatched]
		return !(ok && seen.Has(fileWatched)) || fileEntry(fileLists.JSONRule)
	})
	vc.Invariant("not taken", func(seen vc.Set[string]) bool {
		_, ok := fileValues[fileWatched]
		return ok && seen.Has(fileWatched) || fileN == 0
	})
	vc.Invariant("elements", func(i int) bool {
		return fileN == i && i <= len(fileLists.JSONRule) && (fileElem >= i || fileAt == fileLists.JSONRule[fileElem])
	})
	_, err := parseFromFile(path)
	vc.Ensures("one option per element, in order", func() bool { return err != nil || fileEntry(fileLists.JSONRule) })
}

//vc:contract parseFromFile prop=C14 with=file noreplay inline
func cFileCreates(path string) {
	vc.Requires(func() bool { return fileReset() && fileWatched == "creates" })
	vc.Modifies(&optN, &optFails, &fileN, &fileAt, &unmarshals, &fileTaken)
	vc.Invariant("taken", func(seen vc.Set[string]) bool {
		_, ok := fileValues[fileWatched]
		return !(ok && seen.Has(fileWatched)) || fileEntry(fileLists.Creates)
	})
	vc.Invariant("not taken", func(seen vc.Set[string]) bool {
		_, ok := fileValues[fileWatched]
		return ok && seen.Has(fileWatched) || fileN == 0
	})
	vc.Invariant("elements", func(i int) bool {
		return fileN == i && i <= len(fileLists.Creates) && (fileElem >= i || fileAt == fileLists.Creates[fileElem])
	})
	_, err := parseFromFile(path)
	vc.Ensures("one option per element, in order", func() bool { return err != nil || fileEntry(fileLists.Creates) })
}

//vc:contract parseFromFile prop=C14 with=file noreplay inline
func cFileOptions(path string) {
	vc.Requires(func() bool { return fileReset() })
	vc.Modifies(&optN, &optFails, &fileN, &fileAt, &unmarshals, &fileTaken)
	vc.Invariant("options so far", func(o []ConfigOption) bool { return specOptions(o) })
	vc.Invariant("none rejected", func() bool { return optFails == 0 && fileTaken })
	o, err := parseFromFile(path)
	vc.Ensures("the options made, in order", func() bool { return err != nil || specOptions(o) })
	vc.Ensures("nothing wrong is ignored", func() bool {
		return err != nil || optFails == 0 && fileTaken
	})
}
