//go:build go1.21

package monny

import (
	"io"
	"os"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/BTBurke/monny/internal/vc"
)

// sameRest: every setting is as it was, apart from the two lists.
func sameRest(a, b *Config) bool {
	return a.ID == b.ID && a.RuleQuantity == b.RuleQuantity && a.RulePeriod == b.RulePeriod && a.Hostname == b.Hostname &&
		a.NotifyTimeout == b.NotifyTimeout && a.KillTimeout == b.KillTimeout && a.MemoryWarn == b.MemoryWarn && a.MemoryKill == b.MemoryKill &&
		a.Daemon == b.Daemon && a.StdoutHistory == b.StdoutHistory && a.StderrHistory == b.StderrHistory &&
		a.NotifyOnSuccess == b.NotifyOnSuccess && a.NotifyOnFailure == b.NotifyOnFailure && a.Shell == b.Shell &&
		a.host == b.host && a.port == b.port && a.useTLS == b.useTLS && a.out == b.out && a.err == b.err
}

func sameRules(now []rule, was vc.Seq[rule]) bool {
	return len(now) == was.Len() && vc.Forall(0, was.Len(), func(i int) bool { return now[i] == was.At(i) })
}

// apply sets one option and checks that the configuration is then as in want,
// or as before if an error is expected.
func apply(c *Config, o ConfigOption, want Config, ok bool) {
	before := *c
	rules, creates, quiet := vc.Snap(c.Rules), vc.Snap(c.Creates), SuppressErrorReporting
	err := o(c)
	vc.Assert("accepted exactly if valid", func() bool { return (err == nil) == ok })
	vc.Assert("sets what it names and nothing else", func() bool { return !ok || sameRest(c, &want) })
	vc.Assert("unchanged if invalid", func() bool { return ok || sameRest(c, &before) })
	vc.Assert("rules and files kept", func() bool { return sameRules(c.Rules, rules) && specLines(c.Creates, creates) })
	vc.Assert("error reporting kept", func() bool { return SuppressErrorReporting == quiet })
}

//vc:lemma prop=C11
func lID(c *Config, id string) {
	vc.Assume(func() bool { return c != nil })
	want := *c
	want.ID = id
	apply(c, ID(id), want, true)
}

//vc:lemma prop=C11
func lRuleQuantity(c *Config, s string) {
	vc.Assume(func() bool { return c != nil })
	n, err := strconv.Atoi(s)
	want := *c
	want.RuleQuantity = n
	apply(c, RuleQuantity(s), want, err == nil)
}

//vc:lemma prop=C11
func lRulePeriod(c *Config, s string) {
	vc.Assume(func() bool { return c != nil })
	d, err := time.ParseDuration(s)
	want := *c
	want.RulePeriod = d
	apply(c, RulePeriod(s), want, err == nil)
}

//vc:lemma prop=C11
func lStdoutHistory(c *Config, s string) {
	vc.Assume(func() bool { return c != nil })
	n, err := strconv.Atoi(s)
	want := *c
	want.StdoutHistory = n
	apply(c, StdoutHistory(s), want, err == nil)
}

//vc:lemma prop=C11
func lStderrHistory(c *Config, s string) {
	vc.Assume(func() bool { return c != nil })
	n, err := strconv.Atoi(s)
	want := *c
	want.StderrHistory = n
	apply(c, StderrHistory(s), want, err == nil)
}

//vc:lemma prop=C11
func lSwitches(c *Config) {
	vc.Assume(func() bool { return c != nil })
	want := *c
	want.NotifyOnSuccess = false
	apply(c, NoNotifyOnSuccess(), want, true)
	want.NotifyOnFailure = false
	apply(c, NoNotifyOnFailure(), want, true)
	want.Daemon = true
	apply(c, Daemon(), want, true)
	want.useTLS = false
	apply(c, Insecure(), want, true)
}

//vc:lemma prop=C11
func lNoErrorReports(c *Config) {
	vc.Assume(func() bool { return c != nil })
	before := *c
	rules, creates := vc.Snap(c.Rules), vc.Snap(c.Creates)
	err := NoErrorReports()(c)
	vc.Assert("set", func() bool { return err == nil && SuppressErrorReporting })
	vc.Assert("nothing else", func() bool { return sameRest(c, &before) && sameRules(c.Rules, rules) && specLines(c.Creates, creates) })
}

const maxInt = int(^uint(0) >> 1)

// specMemory: the number of kilobytes a size stands for, if it is one.
func specMemory(s string) (int, bool) {
	unit := 1
	number := s
	if strings.HasSuffix(s, "K") || strings.HasSuffix(s, "M") || strings.HasSuffix(s, "G") {
		number = s[:len(s)-1]
	}
	if strings.HasSuffix(s, "M") {
		unit = 1000
	}
	if strings.HasSuffix(s, "G") {
		unit = 1000000
	}
	n, err := strconv.Atoi(number)
	if err != nil || n < 0 || n > maxInt/unit {
		return 0, false
	}
	return n * unit, true
}

//vc:lemma prop=C11
func lMemoryWarn(c *Config, s string) {
	vc.Assume(func() bool { return c != nil })
	n, ok := specMemory(s)
	want := *c
	want.MemoryWarn = uint64(n)
	apply(c, MemoryWarn(s), want, ok)
}

//vc:lemma prop=C11
func lMemoryKill(c *Config, s string) {
	vc.Assume(func() bool { return c != nil })
	n, ok := specMemory(s)
	want := *c
	want.MemoryKill = uint64(n)
	apply(c, MemoryKill(s), want, ok)
}

//vc:lemma prop=C11
func lKillTimeout(c *Config, s string) {
	vc.Assume(func() bool { return c != nil })
	d, err := time.ParseDuration(s)
	want := *c
	want.KillTimeout = d
	apply(c, KillTimeout(s), want, err == nil)
}

//vc:lemma prop=C11
func lNotifyTimeout(c *Config, s string) {
	vc.Assume(func() bool { return c != nil })
	d, err := time.ParseDuration(s)
	want := *c
	want.NotifyTimeout = d
	apply(c, NotifyTimeout(s), want, err == nil)
}

//vc:lemma prop=C11
func lHost(c *Config, s string) {
	vc.Assume(func() bool { return c != nil })
	parts := strings.Split(s, ":")
	want := *c
	ok := len(parts) == 2
	if ok {
		i := strings.Index(s, ":")
		want.host, want.port = s[:i], s[i+1:]
	}
	apply(c, Host(s), want, ok)
}

type unknownShell struct{}

func (unknownShell) Error() string { return "no such shell" }

//vc:extern os/exec.LookPath
func extLookPath(name string) (string, error) {
	if vc.UFBool("not found", name) {
		return "", unknownShell{}
	}
	return vc.UFStr("path", name), nil
}

//vc:lemma prop=C11,C12 noreplay
func lShell(c *Config, s string) {
	vc.Assume(func() bool { return c != nil })
	want := *c
	want.Shell = vc.UFStr("path", s)
	apply(c, Shell(s), want, !vc.UFBool("not found", s))
}

//vc:lemma prop=C11
func lLog(c *Config, dir string, out, errs io.WriteCloser) {
	vc.Assume(func() bool { return c != nil })
	want := *c
	apply(c, LogFile(dir), want, true)
	want.out = out
	apply(c, logOut(out), want, true)
	want.err = errs
	apply(c, logErr(errs), want, true)
}

//vc:lemma prop=C11
func lCreates(c *Config, path string) {
	vc.Assume(func() bool { return c != nil && len(c.Creates) < 1<<30 })
	before := *c
	rules, creates := vc.Snap(c.Rules), vc.Snap(c.Creates)
	err := Creates(path)(c)
	vc.Assert("always accepted", func() bool { return err == nil })
	vc.Assert("added", func() bool {
		n := creates.Len()
		return len(c.Creates) == n+1 && c.Creates[n] == path && vc.Forall(0, n, func(i int) bool { return c.Creates[i] == creates.At(i) })
	})
	vc.Assert("nothing else", func() bool { return sameRest(c, &before) && sameRules(c.Rules, rules) })
}

type badExpression struct{}

func (badExpression) Error() string { return "bad expression" }

var compiled string // the expression last compiled
var compiledTo *regexp.Regexp

//vc:extern regexp.Compile
func extCompile(expr string) (*regexp.Regexp, error) {
	if vc.UFBool("bad expression", expr) {
		return nil, badExpression{}
	}
	compiled, compiledTo = expr, new(regexp.Regexp)
	return compiledTo, nil
}

// specRuleAdded: a rule for expr was added, or nothing was done if it is no expression.
func specRuleAdded(c *Config, before *Config, rules vc.Seq[rule], field, expr string, err error) bool {
	n := rules.Len()
	if vc.UFBool("bad expression", expr) {
		return err != nil && sameRules(c.Rules, rules)
	}
	return err == nil && len(c.Rules) == n+1 && c.Rules[n].Field == field && compiled == expr && c.Rules[n].Regex == compiledTo && compiledTo != nil &&
		vc.Forall(0, n, func(i int) bool { return c.Rules[i] == rules.At(i) })
}

//vc:lemma prop=C11 noreplay
func lRule(c *Config, expr string) {
	vc.Assume(func() bool { return c != nil && len(c.Rules) < 1<<30 })
	before := *c
	rules, creates := vc.Snap(c.Rules), vc.Snap(c.Creates)
	err := Rule(expr)(c)
	vc.Assert("added if it is an expression", func() bool { return specRuleAdded(c, &before, rules, "", expr, err) })
	vc.Assert("nothing else", func() bool { return sameRest(c, &before) && specLines(c.Creates, creates) })
}

//vc:lemma prop=C11 noreplay
func lJSONRule(c *Config, field, expr string) {
	vc.Assume(func() bool { return c != nil && len(c.Rules) < 1<<30 })
	before := *c
	rules, creates := vc.Snap(c.Rules), vc.Snap(c.Creates)
	err := JSONRule(field, expr)(c)
	vc.Assert("added if it is an expression", func() bool { return specRuleAdded(c, &before, rules, field, expr, err) })
	vc.Assert("nothing else", func() bool { return sameRest(c, &before) && specLines(c.Creates, creates) })
}

// ---- newConfig ----

var cfgN int       // options run
var cfgOK bool     // in order, each on what the one before left, the first on the defaults
var cfgLeft Config // what the last one left
var cfgFailed int  // how many failed

type optionError struct{ n int }

func (optionError) Error() string { return "option" }

func isDefault(c *Config) bool {
	return c.ID == "" && c.RuleQuantity == 0 && c.RulePeriod == 0 && c.NotifyTimeout == 0 && c.KillTimeout == 0 && c.MemoryWarn == 0 &&
		c.MemoryKill == 0 && !c.Daemon && c.StdoutHistory == 30 && c.StderrHistory == 30 && c.NotifyOnSuccess && c.NotifyOnFailure &&
		c.Shell == "" && c.host == api && c.port == port && c.useTLS && len(c.Rules) == 0 && len(c.Creates) == 0 && c.out == io.WriteCloser(os.Stdout) && c.err == io.WriteCloser(os.Stderr)
}

func sameConfig(a, b *Config) bool {
	return sameRest(a, b) && vc.Same(a.Rules, b.Rules) && vc.Same(a.Creates, b.Creates)
}

// anyConfigOption stands for any option.
func anyConfigOption(id int, c *Config) error {
	cfgOK = cfgOK && id == vc.UFInt("option", cfgN) && (cfgN > 0 || isDefault(c)) && (cfgN == 0 || sameConfig(c, &cfgLeft))
	*c = vc.Nondet[Config]("option")
	cfgLeft = *c
	n := cfgN
	cfgN++
	if vc.UFBool("option fails", n) {
		cfgFailed++
		return optionError{n}
	}
	return nil
}

// specOptionsFailed: how many of the first n options fail.
//
//vc:spec
func specOptionsFailed(n int) int {
	if n <= 0 {
		return 0
	}
	if vc.UFBool("option fails", n-1) {
		return specOptionsFailed(n-1) + 1
	}
	return specOptionsFailed(n - 1)
}

//vc:contract newConfig prop=C12 family=anyConfigOption noreplay
func cNewConfig(opts []ConfigOption) {
	vc.Requires(func() bool {
		return cfgN == 0 && cfgOK && cfgFailed == 0 && cfgLeft.ID == "" && cfgLeft.Shell == "" && vc.Forall(0, len(opts), func(i int) bool {
			return opts[i] != nil && vc.FnID(opts[i]) == vc.UFInt("option", i)
		})
	})
	vc.Modifies(&cfgN, &cfgOK, &cfgLeft, &cfgFailed)
	vc.Invariant("applied so far", func(i int) bool { return cfgN == i && cfgOK })
	vc.Invariant("left so far", func(i int, c *Config) bool { return cfgN == 0 && isDefault(c) || cfgN > 0 && sameConfig(c, &cfgLeft) })
	vc.Invariant("failures", func(i int, errors []error) bool { return cfgFailed == len(errors) })
	c, errs := newConfig(opts...)
	n := len(opts)
	env := os.Getenv("SHELL")
	vc.Ensures("every option, in order, on top of the defaults", func() bool { return cfgOK && cfgN == n })
	vc.Ensures("empty if anything is wrong", func() bool { return len(errs) == 0 || sameConfig(&c, &Config{}) })
	vc.Ensures("otherwise as the options left it", func() bool {
		want := cfgLeft
		if want.Shell == "" {
			want.Shell = env
		}
		return len(errs) > 0 || sameConfig(&c, &want)
	})
	vc.Ensures("complete", func() bool { return len(errs) > 0 || cfgFailed == 0 && c.ID != "" && c.Shell != "" })
}

//vc:contract newConfig prop=C12 family=anyConfigOption noreplay
func cNewConfigErrors(opts []ConfigOption) {
	vc.Requires(func() bool {
		return cfgN == 0 && cfgOK && cfgFailed == 0 && cfgLeft.ID == "" && cfgLeft.Shell == "" && vc.Forall(0, len(opts), func(i int) bool { return opts[i] != nil })
	})
	vc.Modifies(&cfgN, &cfgOK, &cfgLeft, &cfgFailed)
	vc.Invariant("run so far", func(i int) bool { return cfgN == i })
	vc.Invariant("left", func(i int, c *Config) bool {
		return (cfgN > 0 || c.ID == "" && c.Shell == "") && c.ID == cfgLeft.ID && c.Shell == cfgLeft.Shell
	})
	vc.Invariant("failures", func(i int, errors []error) bool { return len(errors) == specOptionsFailed(i) })
	vc.Invariant("bound", func(i int) bool { return specOptionsFailed(i) >= 0 })
	vc.Invariant("each failure", func(i int, errors []error) bool {
		return vc.Forall(0, i, func(j int) bool {
			return !vc.UFBool("option fails", j) || specOptionsFailed(j) >= 0 && specOptionsFailed(j) < len(errors) && errors[specOptionsFailed(j)] == error(optionError{j})
		})
	})
	vc.Invariant("errors are errors", func(errors []error) bool {
		return vc.Forall(0, len(errors), func(j int) bool { return errors[j] != nil })
	})
	_, errs := newConfig(opts...)
	n := len(opts)
	env := os.Getenv("SHELL")
	vc.Ensures("every error", func() bool {
		m := specOptionsFailed(n)
		if cfgLeft.Shell == "" && env == "" {
			m++
		}
		if cfgLeft.ID == "" {
			m++
		}
		return len(errs) == m
	})
	vc.Ensures("the errors of the options, in order", func() bool {
		return vc.Forall(0, n, func(j int) bool {
			return !vc.UFBool("option fails", j) || specOptionsFailed(j) < len(errs) && errs[specOptionsFailed(j)] == error(optionError{j})
		})
	})
	vc.Ensures("errors are errors", func() bool { return vc.Forall(0, len(errs), func(j int) bool { return errs[j] != nil }) })
}

var givenOptions []ConfigOption
var givenConfig Config
var givenErrors []error
var configN int

//vc:extern newConfig when=config
func stubNewConfig(options ...ConfigOption) (Config, []error) {
	givenOptions = options
	configN++
	return givenConfig, givenErrors
}

//vc:contract New prop=C12 with=config noreplay
func cNew(usercmd []string, opts []ConfigOption) {
	vc.Requires(func() bool { return configN == 0 })
	vc.Modifies(&givenOptions, &configN)
	c, errs := New(usercmd, opts...)
	vc.Ensures("from the options", func() bool { return configN == 1 && vc.Same(givenOptions, opts) })
	vc.Ensures("every error", func() bool { return vc.Same(errs, givenErrors) || len(givenErrors) == 0 && len(errs) == 0 })
	vc.Ensures("nothing if anything is wrong", func() bool { return (c == nil) == (len(givenErrors) > 0) })
	vc.Ensures("the configuration and the command", func() bool {
		return len(givenErrors) > 0 || sameConfig(&c.Config, &givenConfig) && vc.Same(c.UserCommand, usercmd) && c.out == givenConfig.out && c.err == givenConfig.err
	})
	vc.Ensures("ready to run", func() bool {
		return len(givenErrors) > 0 || c.handler != nil && c.report != nil && c.errors != nil && vc.Unlocked(&c.mutex) && len(c.RuleMatches) == 0 && len(c.Stdout) == 0 && len(c.Stderr) == 0 && !c.memWarnSent && !c.timeWarnSent
	})
	vc.Ensures("reports go to the configured host", func() bool {
		if len(givenErrors) > 0 {
			return true
		}
		r, ok := c.report.(*Report)
		if !ok {
			return false
		}
		s, ok := r.sender.(*senderService)
		return ok && s.host == givenConfig.host && s.port == givenConfig.port
	})
}
