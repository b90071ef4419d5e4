From 1f72b02ee9235ac9e95b6a6ac506cb990e92802a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 01/20] fix: queue no longer panics when its capacity is zero
 or one

pop sliced the queue before reading its head, so adding to a queue with a
capacity of 0 or 1 read past the end.
---
 pkg/monny/proc/queue.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pkg/monny/proc/queue.go b/pkg/monny/proc/queue.go
index bd6dcf9..65f4503 100644
--- a/pkg/monny/proc/queue.go
+++ b/pkg/monny/proc/queue.go
@@ -25,8 +25,9 @@ func (q *Queue) add(s string) {
 }
 
 func (q *Queue) pop() string {
+	s := q.q[0]
 	q.q = q.q[1:]
-	return q.q[0]
+	return s
 }
 
 // Add puts the string in the queue, popping the head if the queue is already filled to capacity
@@ -34,12 +35,9 @@ func (q *Queue) Add(s string) {
 	q.mu.Lock()
 	defer q.mu.Unlock()
 
-	switch {
-	case len(q.q) < q.capacity:
-		q.add(s)
-	default:
+	q.add(s)
+	if len(q.q) > q.capacity {
 		_ = q.pop()
-		q.add(s)
 	}
 }
 
-- 
2.43.0


From c8631072b40b7f1a14c19a3f9e7fce6348628d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 02/20] fix: a windowed counter without a window never expires

---
 pkg/metric/counter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/metric/counter.go b/pkg/metric/counter.go
index c9aa9f1..114f882 100644
--- a/pkg/metric/counter.go
+++ b/pkg/metric/counter.go
@@ -78,7 +78,7 @@ func (c *WindowedCounter) Value() int {
 
 	// check if the current window has closed, if so return 0
 	switch {
-	case now.After(end) && c.current.duration >= 0:
+	case now.After(end) && c.current.duration > 0:
 		return 0
 	default:
 		return c.current.Value()
-- 
2.43.0


From 254bfb877cde515eff7577547550304c50614f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:14 +0000
Subject: [PATCH 03/20] fix: reading a windowed counter's history does not
 share or write its storage

---
 pkg/metric/counter.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/metric/counter.go b/pkg/metric/counter.go
index 114f882..cb18b9a 100644
--- a/pkg/metric/counter.go
+++ b/pkg/metric/counter.go
@@ -105,16 +105,24 @@ func (c *WindowedCounter) History() []Counter {
 	end := c.current.start.Add(c.current.duration)
 	switch {
 	case now.After(end) || c.current.duration == 0:
-		return newHistory(append(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)
+		return newHistory(c.closed(*c.current), c.MaxHistory, c.MaxHistoryDuration)
 	default:
-		return newHistory(c.hist, c.MaxHistory, c.MaxHistoryDuration)
+		return newHistory(c.closed(), c.MaxHistory, c.MaxHistoryDuration)
 	}
 }
 
 // HistoryInclusive will return the history of all counters, including the current value even if the window
 // is still open on the current counter
 func (c *WindowedCounter) HistoryInclusive() []Counter {
-	return newHistory(append(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)
+	return newHistory(c.closed(*c.current), c.MaxHistory, c.MaxHistoryDuration)
+}
+
+// closed returns a copy of the history followed by more counters, so that neither the history nor what is returned
+// to the caller shares storage with the other
+func (c *WindowedCounter) closed(more ...Counter) []Counter {
+	hist := make([]Counter, 0, len(c.hist)+len(more))
+	hist = append(hist, c.hist...)
+	return append(hist, more...)
 }
 
 // filters the history based on both MaxHistoryDuration and MaxHistory
-- 
2.43.0


From 6e39e68371a1bc98f4f3656d575309eca8d5ac08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:17 +0000
Subject: [PATCH 04/20] fix: an empty WindowedCounter counts without windowing
 instead of crashing

---
 pkg/metric/counter.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/pkg/metric/counter.go b/pkg/metric/counter.go
index cb18b9a..f8f362c 100644
--- a/pkg/metric/counter.go
+++ b/pkg/metric/counter.go
@@ -71,22 +71,34 @@ type WindowedCounter struct {
 	MaxHistoryDuration time.Duration
 }
 
+// window returns the current window, which for an empty struct is one without a duration
+func (c *WindowedCounter) window() Counter {
+	if c.current == nil {
+		return Counter{}
+	}
+	return *c.current
+}
+
 // Value returns the current value of the counter in the most recent window
 func (c *WindowedCounter) Value() int {
+	current := c.window()
 	now := time.Now().UTC()
-	end := c.current.start.Add(c.current.duration)
+	end := current.start.Add(current.duration)
 
 	// check if the current window has closed, if so return 0
 	switch {
-	case now.After(end) && c.current.duration > 0:
+	case now.After(end) && current.duration > 0:
 		return 0
 	default:
-		return c.current.Value()
+		return current.Value()
 	}
 }
 
 // Add will increment the current counter value within the window by i
 func (c *WindowedCounter) Add(i uint) {
+	if c.current == nil {
+		c.current = &Counter{}
+	}
 	now := time.Now().UTC()
 	end := c.current.start.Add(c.current.duration)
 	switch {
@@ -101,11 +113,12 @@ func (c *WindowedCounter) Add(i uint) {
 
 // History will return the history of counters not including the current value if the window is still open
 func (c *WindowedCounter) History() []Counter {
+	current := c.window()
 	now := time.Now().UTC()
-	end := c.current.start.Add(c.current.duration)
+	end := current.start.Add(current.duration)
 	switch {
-	case now.After(end) || c.current.duration == 0:
-		return newHistory(c.closed(*c.current), c.MaxHistory, c.MaxHistoryDuration)
+	case now.After(end) || current.duration == 0:
+		return newHistory(c.closed(current), c.MaxHistory, c.MaxHistoryDuration)
 	default:
 		return newHistory(c.closed(), c.MaxHistory, c.MaxHistoryDuration)
 	}
@@ -114,7 +127,7 @@ func (c *WindowedCounter) History() []Counter {
 // HistoryInclusive will return the history of all counters, including the current value even if the window
 // is still open on the current counter
 func (c *WindowedCounter) HistoryInclusive() []Counter {
-	return newHistory(c.closed(*c.current), c.MaxHistory, c.MaxHistoryDuration)
+	return newHistory(c.closed(c.window()), c.MaxHistory, c.MaxHistoryDuration)
 }
 
 // closed returns a copy of the history followed by more counters, so that neither the history nor what is returned
@@ -148,7 +161,7 @@ func newHistory(hist []Counter, max int, maxduration time.Duration) []Counter {
 // Reset will clear the current counters history and start a new zero-valued counter with the same window duration
 func (c *WindowedCounter) Reset() {
 	c.hist = []Counter{}
-	c.current = &Counter{start: time.Now().UTC(), duration: c.current.duration}
+	c.current = &Counter{start: time.Now().UTC(), duration: c.window().duration}
 }
 
 // NewWindowedCounter creates a new windowed counter with a window size of duration
-- 
2.43.0


From 4ea7fa5140fd4635e3d0e33c7e9f7e2dfd7d1709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:37 +0000
Subject: [PATCH 05/20] fix: metadata can be added to a name created without
 any

---
 pkg/metric/name.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/metric/name.go b/pkg/metric/name.go
index 1fbb006..ca66cf1 100644
--- a/pkg/metric/name.go
+++ b/pkg/metric/name.go
@@ -31,6 +31,9 @@ func (n Name) String() string {
 
 // NewName returns a new name with the associated metadata
 func NewName(name string, md map[string]string) Name {
+	if md == nil {
+		md = make(map[string]string)
+	}
 	return Name{name: name, md: md}
 }
 
@@ -52,7 +55,7 @@ func (n Name) AddMetadata(md map[string]string) {
 // then is followed by (key, value) pairs k=v in sorted key order, the finally by annotations starting with @ in
 // sorted order.  Close with a ].  Example: [host=pod1 loc=us-west-1 @mean @summary]
 func MarshalText(m metadata) ([]byte, error) {
-	if m == nil {
+	if len(m) == 0 {
 		return []byte{}, nil
 	}
 	keys := make([]string, 0, len(m))
-- 
2.43.0


From b129f965551cfb5e979a12687661e997d921af15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 06/20] fix: a restarted estimator gathers observations before
 it tests a limit

---
 pkg/stat/estimator.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/stat/estimator.go b/pkg/stat/estimator.go
index a9cce8d..0251f3f 100644
--- a/pkg/stat/estimator.go
+++ b/pkg/stat/estimator.go
@@ -54,7 +54,6 @@ func (e *TestStatistic) Record(o float64) error {
 			// re-record the current observation after reseting the series
 			e.series.Record(o)
 		}
-		fallthrough
 	case TestingUCL:
 		e.calculateCurrent(o)
 		if e.current >= e.limit {
-- 
2.43.0


From eba18136b0fb301ef80b3ba2dbe1f808ec8ee8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:06 +0000
Subject: [PATCH 07/20] fix: output history keeps exactly the configured number
 of lines

---
 pkg/monny/command.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 35c649a..97517dd 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -309,7 +309,7 @@ func (c *Command) processStdout(line []byte) {
 	c.mutex.Lock()
 	switch {
 	case history >= c.Config.StdoutHistory:
-		c.Stdout = append(c.Stdout[2:], string(line))
+		c.Stdout = lastLines(append(c.Stdout, string(line)), c.Config.StdoutHistory)
 	default:
 		c.Stdout = append(c.Stdout, string(line))
 	}
@@ -334,7 +334,7 @@ func (c *Command) processStderr(line []byte) {
 	c.mutex.Lock()
 	switch {
 	case history >= c.Config.StderrHistory:
-		c.Stderr = append(c.Stderr[2:], string(line))
+		c.Stderr = lastLines(append(c.Stderr, string(line)), c.Config.StderrHistory)
 	default:
 		c.Stderr = append(c.Stderr, string(line))
 	}
@@ -342,6 +342,17 @@ func (c *Command) processStderr(line []byte) {
 	return
 }
 
+// lastLines returns the most recent n lines
+func lastLines(lines []string, n int) []string {
+	if n < 0 {
+		n = 0
+	}
+	if len(lines) <= n {
+		return lines
+	}
+	return lines[len(lines)-n:]
+}
+
 func wrapComplexCommand(shell string, args []string) ([]string, func() error, error) {
 	return args, nil, nil
 	// r := regexp.MustCompile(`(&|\x7C|<|>)`)
-- 
2.43.0


From e7e2a50f98d57a4afd92451bd1d4a6f7c8921c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:06 +0000
Subject: [PATCH 08/20] fix: duration of a timed out command is not negative

---
 pkg/monny/handlers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/monny/handlers.go b/pkg/monny/handlers.go
index 9ecb99f..e32cd6f 100644
--- a/pkg/monny/handlers.go
+++ b/pkg/monny/handlers.go
@@ -81,7 +81,7 @@ func (h handler) Timeout(c *Command, cmd *exec.Cmd) error {
 	c.Killed = true
 	c.KillReason = proto.Timeout
 	c.Finish = time.Now()
-	c.Duration = c.Start.Sub(c.Finish)
+	c.Duration = c.Finish.Sub(c.Start)
 	c.ReportReason = proto.Killed
 	c.mutex.Unlock()
 
-- 
2.43.0


From 15cadfe7307e3651deeda84cbdfd2737665379e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:06 +0000
Subject: [PATCH 09/20] fix: a field rule on an array of numbers does not crash

---
 pkg/monny/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 97517dd..2c4eef7 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -277,9 +277,9 @@ func extractTextFromJSON(raw []byte, field string) []byte {
 				case string:
 					out = append(out, val.(string))
 				case float32:
-					out = append(out, fmt.Sprintf("%f", value.(float32)))
+					out = append(out, fmt.Sprintf("%f", val.(float32)))
 				case float64:
-					out = append(out, fmt.Sprintf("%f", value.(float64)))
+					out = append(out, fmt.Sprintf("%f", val.(float64)))
 				case bool:
 					out = append(out, fmt.Sprintf("%v", val.(bool)))
 				default:
-- 
2.43.0


From 5121f7499ccbfd4aa5ebfa2b2988f2da48ef16e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:06 +0000
Subject: [PATCH 10/20] fix: memory and time warnings are transmitted

---
 pkg/monny/report.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index 39e5fc9..fb994e7 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -110,16 +110,8 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 			return
 		}
 	case proto.MemoryWarning:
-		if c.memWarnSent {
-			closeChannels()
-			return
-		}
 		go r.sender.sendBackground(pb, result, cancel)
 	case proto.TimeWarning:
-		if c.timeWarnSent {
-			closeChannels()
-			return
-		}
 		go r.sender.sendBackground(pb, result, cancel)
 	case proto.Start:
 		if c.Config.Daemon {
-- 
2.43.0


From a433294d6633b45f2d43104aa5910bc699f25c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:06 +0000
Subject: [PATCH 11/20] fix: a command created with New can report errors

---
 pkg/monny/command.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 2c4eef7..1936f3f 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -82,8 +82,9 @@ func New(usercmd []string, options ...ConfigOption) (*Command, []error) {
 				errors: errorService{},
 			},
 		},
-		out: cfg.out,
-		err: cfg.err,
+		errors: errorService{},
+		out:    cfg.out,
+		err:    cfg.err,
 	}, nil
 }
 
-- 
2.43.0


From 6fb4ed4ea280fc8d36ab6d5a13b620df4045b2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:39 +0000
Subject: [PATCH 12/20] fix: a shell given as an option is the one used

---
 pkg/monny/config.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/monny/config.go b/pkg/monny/config.go
index 2b35c30..0c05265 100644
--- a/pkg/monny/config.go
+++ b/pkg/monny/config.go
@@ -76,11 +76,13 @@ func newConfig(options ...ConfigOption) (Config, []error) {
 		}
 	}
 
-	shell, err := findDefaultShell()
-	if err != nil {
-		errors = append(errors, err)
+	if len(c.Shell) == 0 {
+		shell, err := findDefaultShell()
+		if err != nil {
+			errors = append(errors, err)
+		}
+		c.Shell = shell
 	}
-	c.Shell = shell
 	if len(c.ID) == 0 {
 		errors = append(errors, fmt.Errorf("id is required, use monny -i <id>; new ids are created with monctl create or pass your email address to get a notifications via email without an account"))
 	}
-- 
2.43.0


From 4cc85258dc163d40686d32dd033528ffcf79d821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:39 +0000
Subject: [PATCH 13/20] fix: an invalid expression adds no rule

---
 pkg/monny/config.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/config.go b/pkg/monny/config.go
index 0c05265..3710242 100644
--- a/pkg/monny/config.go
+++ b/pkg/monny/config.go
@@ -116,8 +116,11 @@ func ID(id string) ConfigOption {
 func Rule(regex string) ConfigOption {
 	return func(c *Config) error {
 		reg, err := regexp.Compile(regex)
+		if err != nil {
+			return err
+		}
 		c.Rules = append(c.Rules, rule{Regex: reg})
-		return err
+		return nil
 	}
 }
 
@@ -127,11 +130,14 @@ func Rule(regex string) ConfigOption {
 func JSONRule(field string, regex string) ConfigOption {
 	return func(c *Config) error {
 		reg, err := regexp.Compile(regex)
+		if err != nil {
+			return err
+		}
 		c.Rules = append(c.Rules, rule{
 			Field: field,
 			Regex: reg,
 		})
-		return err
+		return nil
 	}
 }
 
-- 
2.43.0


From 1dd9965f2f3e036cc6e2584dca0369df3a16792f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 14/20] fix: memory limits that are negative or too large are
 rejected

---
 pkg/monny/config.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/monny/config.go b/pkg/monny/config.go
index 3710242..9d76216 100644
--- a/pkg/monny/config.go
+++ b/pkg/monny/config.go
@@ -219,6 +219,15 @@ func Daemon() ConfigOption {
 	}
 }
 
+// checkMemory reports an error if n units are not a possible memory limit
+func checkMemory(n int, unit int, err error) error {
+	const maxInt = int(^uint(0) >> 1)
+	if err == nil && (n < 0 || n > maxInt/unit) {
+		return fmt.Errorf("memory limit out of range")
+	}
+	return err
+}
+
 // MemoryWarn sends a report when process memory exceeds this value.  Expects a string with
 // units in K, M, or G.  (Linux only, memory measurements on Darwin or Windows is a no-op)
 func MemoryWarn(mem string) ConfigOption {
@@ -230,13 +239,16 @@ func MemoryWarn(mem string) ConfigOption {
 			warn, err = strconv.Atoi(mem[0 : len(mem)-1])
 		case strings.HasSuffix(mem, "M"):
 			warn, err = strconv.Atoi(mem[0 : len(mem)-1])
+			err = checkMemory(warn, 1000, err)
 			warn = warn * 1000
 		case strings.HasSuffix(mem, "G"):
 			warn, err = strconv.Atoi(mem[0 : len(mem)-1])
+			err = checkMemory(warn, 1000000, err)
 			warn = warn * 1000000
 		default:
 			warn, err = strconv.Atoi(mem)
 		}
+		err = checkMemory(warn, 1, err)
 		if err != nil {
 			return fmt.Errorf("could not parse memory warning limit: %s", mem)
 		}
@@ -256,13 +268,16 @@ func MemoryKill(mem string) ConfigOption {
 			kill, err = strconv.Atoi(mem[0 : len(mem)-1])
 		case strings.HasSuffix(mem, "M"):
 			kill, err = strconv.Atoi(mem[0 : len(mem)-1])
+			err = checkMemory(kill, 1000, err)
 			kill = kill * 1000
 		case strings.HasSuffix(mem, "G"):
 			kill, err = strconv.Atoi(mem[0 : len(mem)-1])
+			err = checkMemory(kill, 1000000, err)
 			kill = kill * 1000000
 		default:
 			kill, err = strconv.Atoi(mem)
 		}
+		err = checkMemory(kill, 1, err)
 		if err != nil {
 			return fmt.Errorf("could not parse memory warning limit: %s", mem)
 		}
-- 
2.43.0


From dcc1691799605f1b3b84b5deec7093ae5a1f67ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 15/20] fix: a switch set to false is not turned on

---
 pkg/monny/parse.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/monny/parse.go b/pkg/monny/parse.go
index 91b89cc..a5bdd9f 100644
--- a/pkg/monny/parse.go
+++ b/pkg/monny/parse.go
@@ -86,6 +86,11 @@ func parseFlag(o *options) func(*pflag.Flag, string) error {
 }
 
 func handleOption(name string, value string) (ConfigOption, error) {
+	if isSwitch(name) {
+		if on, err := strconv.ParseBool(value); err == nil && !on {
+			return func(c *Config) error { return nil }, nil
+		}
+	}
 	switch name {
 	case "id":
 		return ID(value), nil
@@ -130,6 +135,16 @@ func handleOption(name string, value string) (ConfigOption, error) {
 	}
 }
 
+// isSwitch returns true for options that are either on or off
+func isSwitch(name string) bool {
+	switch name {
+	case "no-notify-on-success", "no-notify-on-failure", "daemon", "insecure", "no-error-reports":
+		return true
+	default:
+		return false
+	}
+}
+
 func parseFromFile(fpath string) ([]ConfigOption, error) {
 	var options []ConfigOption
 	data, err := ioutil.ReadFile(fpath)
@@ -157,7 +172,7 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 			}
 			options = append(options, opt)
 		case bool:
-			opt, err := handleOption(k, "")
+			opt, err := handleOption(k, strconv.FormatBool(v.(bool)))
 			if err != nil {
 				return options, err
 			}
-- 
2.43.0


From 11849c28d6489f9ffe2550dffea6e7c31a306034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 16/20] fix: a configuration file with several lists yields
 each element once

---
 pkg/monny/parse.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/monny/parse.go b/pkg/monny/parse.go
index a5bdd9f..2f2da8f 100644
--- a/pkg/monny/parse.go
+++ b/pkg/monny/parse.go
@@ -183,6 +183,17 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 			if err := yaml.Unmarshal(data, &alt); err != nil {
 				return options, fmt.Errorf("Could not unmarshal config value for key: %s", k)
 			}
+			// the other lists belong to keys of their own
+			switch k {
+			case "rule":
+				alt.JSONRule, alt.Creates = nil, nil
+			case "rule-json":
+				alt.Rule, alt.Creates = nil, nil
+			case "creates":
+				alt.Rule, alt.JSONRule = nil, nil
+			default:
+				return options, fmt.Errorf("Unknown option: %s", k)
+			}
 			if len(alt.Rule) == 0 && len(alt.JSONRule) == 0 && len(alt.Creates) == 0 {
 				return options, fmt.Errorf("Unknown option: %s", k)
 			}
-- 
2.43.0


From 435a882493c2c24b1af4b9e723373872f628ef43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:49 +0000
Subject: [PATCH 17/20] fix: closing a subscriber that is closed already does
 not crash the event bus

---
 pkg/eventbus/bus.go | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/pkg/eventbus/bus.go b/pkg/eventbus/bus.go
index 3f0ac1a..63372aa 100644
--- a/pkg/eventbus/bus.go
+++ b/pkg/eventbus/bus.go
@@ -96,24 +96,39 @@ func (e *EventBus) Unsubscribe(c chan Event, done chan struct{}) {
 	defer e.mutex.Unlock()
 
 	for topic, chs := range e.subscribers {
-		for i, ch := range chs {
+		keep := []chan Event{}
+		for _, ch := range chs {
 			if ch == c {
-				close(ch)
-				recover()
-				e.subscribers[topic] = append(e.subscribers[topic][0:i], e.subscribers[topic][i+1:]...)
+				closeEvents(ch)
+				continue
 			}
+			keep = append(keep, ch)
 		}
+		e.subscribers[topic] = keep
 	}
 
 	for i, d := range e.done {
 		if d == done {
-			close(d)
-			recover()
+			closeDone(d)
 			e.done = append(e.done[0:i], e.done[i+1:]...)
+			break
 		}
 	}
 }
 
+// closeEvents closes a subscriber's channel, which may be closed already if it is registered on several topics or was
+// closed improperly by the subscriber
+func closeEvents(ch chan Event) {
+	defer func() { recover() }()
+	close(ch)
+}
+
+// closeDone closes a channel that the subscriber's ShutdownFunc may have closed before
+func closeDone(d chan struct{}) {
+	defer func() { recover() }()
+	close(d)
+}
+
 // Dispatch will send the event to 0 or more topics.  All events are broadcast to default topic subscribers, even when
 // other topics may be specified.
 func (e *EventBus) Dispatch(event Event, topics ...Topic) {
@@ -154,7 +169,7 @@ func (e *EventBus) Dispatch(event Event, topics ...Topic) {
 					if e.sdStarted {
 						return
 					}
-					defer recover()
+					defer func() { recover() }()
 					c <- evt
 				}(event, ch)
 			}
@@ -176,12 +191,8 @@ func (e *EventBus) Shutdown(ctx context.Context) error {
 
 	for _, chs := range e.subscribers {
 		for _, ch := range chs {
-			// close all subscriber channels to signal shutdown, recover above in case
-			// one of the channels is closed improperly by subscriber which would cause a panic
-			close(ch)
-			if r := recover(); r != nil {
-				continue
-			}
+			// close all subscriber channels to signal shutdown
+			closeEvents(ch)
 		}
 	}
 
-- 
2.43.0


From 60230db2b7652803cda6e2d0cee1720f9c9b23e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:49 +0000
Subject: [PATCH 18/20] fix: dispatching does not write to the caller's topics

---
 pkg/eventbus/bus.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/eventbus/bus.go b/pkg/eventbus/bus.go
index 63372aa..aa5bc76 100644
--- a/pkg/eventbus/bus.go
+++ b/pkg/eventbus/bus.go
@@ -141,7 +141,7 @@ func (e *EventBus) Dispatch(event Event, topics ...Topic) {
 	}
 
 	// always send to the defaultTopic even if other topics specified
-	topics = append(topics, defaultTopic)
+	topics = append(topics[:len(topics):len(topics)], defaultTopic)
 
 	for _, topic := range topics {
 		// it no subscribers on the topic, silently drop message.  This is probably the behavior we want since
-- 
2.43.0


From 206e84849d1aa3f3980427bcd2a81404e0116fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:49 +0000
Subject: [PATCH 19/20] fix: a ticker stops when the event bus shuts down

---
 pkg/monny/proc/ticker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/monny/proc/ticker.go b/pkg/monny/proc/ticker.go
index 2e74597..183314d 100644
--- a/pkg/monny/proc/ticker.go
+++ b/pkg/monny/proc/ticker.go
@@ -22,6 +22,7 @@ func NewTicker(d time.Duration, e *eventbus.EventBus, evt eventbus.EventType) {
 				if !open {
 					t.Stop()
 					finished()
+					return
 				}
 
 			case <-t.C:
-- 
2.43.0


From 8bf68d032103162f16e0ac504839b3ec590a2d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:28 +0000
Subject: [PATCH 20/20] fix: a standard input that cannot be examined does not
 crash the monitor

---
 pkg/monny/command.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 1936f3f..f420059 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -140,6 +140,7 @@ func (c *Command) Exec() error {
 		fi, err := os.Stdin.Stat()
 		if err != nil {
 			c.errors.ReportError(fmt.Errorf("failed to get stdin properties: %+v", err))
+			return
 		}
 		if fi.Mode()&os.ModeNamedPipe != 0 {
 			_, err := io.Copy(stdinWriter, os.Stdin)
-- 
2.43.0

