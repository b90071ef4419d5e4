#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script only so that the text stays reviewable)."""
import json, os
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":m,"where":files[0] if len(files)==1 else ", ".join(files)} for m in mech]}
    if state: a["state"]=[{"name":m,"where":files[0] if len(files)==1 else ", ".join(files)} for m in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Log history queue keeps exactly the newest lines in order",
  "For every sequence of additions, a history queue holds exactly the most recent lines, oldest first, and never more than its capacity, whatever the (non-negative) capacity; adding never fails. A copy taken from the queue is a snapshot that later additions or clears do not change, and clearing empties it while keeping the capacity.",
  ["inputs","histories"],"every capacity >= 0 and every finite sequence of add/copy/clear operations with arbitrary lines",
  "Tests add a handful of lines to one capacity; the invariant is over all capacities (0 and 1 included) and unbounded operation histories.",
  ["pkg/monny/proc/queue.go"],["Queue.Add","Queue.Copy","Queue.Clear","NewQueue"],["Queue.q","Queue.capacity"])
p("C02","Command output history is the last N lines, in order",
  "After any number of output lines, the history kept for standard output (and, separately, standard error) is exactly the most recent lines up to the configured history size, in the order they were produced, with none lost, duplicated, or altered. This holds for every configured size including zero and one, and processing a line never crashes the monitor; a line on one stream does not disturb the other stream's history.",
  ["inputs","histories","configurations"],"every history size, every sequence of lines on either stream",
  "Tests run commands whose output never reaches the limit or use one size; the guarantee is inductive over unbounded streams and every size.",
  ["pkg/monny/command.go"],["Command.processStdout","Command.processStderr"],["Command.Stdout","Command.Stderr"])
p("C03","Rule matching reports exactly the rules that match a line",
  "A line produces one match record for each configured rule whose expression matches the rule's text, in rule order, carrying the full line and the match positions, and nothing for rules that do not match. Plain rules are tested against the whole line, and field rules only against the text of the selected (possibly nested) field of the line's JSON object.",
  ["inputs","configurations"],"every line, every list of rules",
  "Tests use a few lines and rules; the claim is over every list of rules and every line, including mixes of plain and field rules.",
  ["pkg/monny/command.go"],["checkRule","extractTextFromJSON"],["RuleMatch"])
p("C04","Rule matches accumulate and trigger an alert request",
  "Every match found on either output stream is added to the pending matches, in order, without dropping earlier pending ones. Whenever matches are pending after a line is processed, exactly one alert is requested for that line - a rate-limited one if a match quantity is configured, a plain one otherwise - and none is requested when nothing is pending.",
  ["inputs","histories","configurations"],"every line, every set of pending matches, every quantity setting, both streams",
  "Tests check a few lines on a mocked sender; the claim quantifies over all pending-match states and both streams.",
  ["pkg/monny/command.go"],["Command.processStdout","Command.processStderr"],["Command.RuleMatches"])
p("C05","Each report reason is transmitted exactly when its policy says so",
  "Success and failure reports are transmitted exactly when notification for that outcome is enabled, start reports exactly in daemon mode, rate alerts exactly when the match rate is reached, and every killed, missing-file, alert, memory-warning and time-warning report is always transmitted; each is transmitted at most once per request. Pending matches are discarded only after an alert was delivered successfully; a failed delivery keeps them and is reported as an error.",
  ["inputs","configurations","fault_sequences"],"every report reason, every configuration, every delivery result",
  "Tests exercise a table of reasons with a mock sender but not all combinations of configuration, warning state and delivery result.",
  ["pkg/monny/report.go"],["Report.Send","calcAlertRate"],["Command.RuleMatches","Config.NotifyOnSuccess","Config.NotifyOnFailure","Config.Daemon"])
p("C06","Alert rate counts the matches inside the period",
  "A rate alert is due exactly when the number of pending matches (only those no older than the configured period, if a period is set) is at least the configured quantity. The decision does not depend on the order of the matches.",
  ["inputs","configurations"],"every list of match times, quantity and period",
  "Tests use three or four fixed match lists; the counting loop must be right for every list, boundary age and quantity.",
  ["pkg/monny/report.go"],["calcAlertRate"])
p("C07","A report carries the command's state faithfully",
  "A report contains the command's identity, host name, output histories, success flag, exit code and its validity, peak memory, kill state and reason, messages, start and finish times, duration, and the command line, each equal to the command's current value, and the reason it was requested for. Every reason and kill-reason value has the same meaning on the wire as in the monitor.",
  ["inputs"],"every command state and every report reason",
  "Tests compare one or two sample commands; a swapped or dropped field for other values is not seen.",
  ["pkg/monny/report.go","pkg/proto/enum.go","pkg/pb/report.pb.go"],["reportFromCommand","senderService.create"],["Command"])
p("C08","Process completion is recorded truthfully",
  "When the process ends, the finish time is recorded, the duration is finish minus start, success is reported exactly when the process exited successfully, and otherwise the report is a failure with the real exit status; exactly one success or failure report is requested. Each expected file that is missing makes the run unsuccessful, adds one message naming the file and requests one missing-file report, in order, while each existing one is listed with its size and modification time.",
  ["inputs","configurations","fault_sequences"],"every process outcome and every list of expected files with any mixture of present, missing and unreadable",
  "Tests run two or three commands with at most one expected file.",
  ["pkg/monny/handlers.go"],["handler.Finished","handleFileCreation"],["Command.Success","Command.ExitCode","Command.Created","Command.Messages"])
p("C09","Forced termination is recorded and executed",
  "On a kill timeout, a memory limit, or a trapped signal, the command is marked killed with the corresponding reason, with a non-negative duration equal to finish minus start, exactly one killed report is requested, and the process receives the kill signal (or, for a trapped signal, that same signal). If the signal cannot be delivered the error is returned, not swallowed.",
  ["inputs","fault_sequences"],"every command state, start time, signal and delivery result",
  "Tests look only at the killed flag of a few runs; the recorded times and failure paths are not sampled.",
  ["pkg/monny/handlers.go"],["handler.Timeout","handler.Signal","handler.KillOnHighMemory"],["Command.Killed","Command.KillReason","Command.Duration"])
p("C10","Memory and time warnings fire once; peak memory is the maximum",
  "The recorded peak memory is always the maximum of all measurements, a memory warning is requested exactly once, at the first measurement reaching the configured warning level, and a kill is demanded exactly when a measurement reaches the configured kill level. A time warning is requested at most once per run, and neither warning fires when it is not configured.",
  ["inputs","histories","configurations"],"every sequence of measurements and every warning/kill level",
  "Tests make one or two measurements; the once-only and maximum claims are over unbounded histories.",
  ["pkg/monny/handlers.go"],["handler.CheckMemory","handler.TimeWarning"],["Command.MaxMemory","Command.memWarnSent","Command.timeWarnSent"])
p("C11","Every option changes exactly the setting it names",
  "Each configuration option sets the one setting it documents to the value given (numbers, durations, memory sizes with their K/M/G unit, host and port, rules, expected files) and leaves all other settings untouched. An invalid value is rejected with an error and leaves the setting unchanged, so no malformed value is ever stored.",
  ["inputs","configurations"],"every option and every argument string, applied to every configuration",
  "Tests try one or two values per option and do not check that other settings stay unchanged.",
  ["pkg/monny/config.go"],["ID","Rule","JSONRule","RuleQuantity","RulePeriod","StdoutHistory","StderrHistory","MemoryWarn","MemoryKill","KillTimeout","NotifyTimeout","Creates","Host","Insecure","Shell","Daemon"],["Config"])
p("C12","A configuration is complete and valid or rejected with every error",
  "Creating a configuration applies all options in order on top of the documented defaults (30 history lines, notify on success and failure, secure transport); it fails, reporting every individual error and yielding an empty configuration, if any option fails, the identifier is missing, or no shell is known. A shell given explicitly is the one used.",
  ["inputs","configurations"],"every list of options, including ones that fail, and every environment",
  "Tests use short option lists; the error accumulation loop and defaults must hold for every list.",
  ["pkg/monny/config.go","pkg/monny/command.go"],["newConfig","New","findDefaultShell"],["Config"])
p("C13","Flags and file keys select the documented option",
  "Every documented command-line flag name (also used as configuration-file key) selects its own option with its given value, and any other name is rejected. A switch that is explicitly set to false is not turned on, a field rule is split at its first colon into field and expression, and parsing never crashes.",
  ["inputs"],"every flag name and every value string",
  "Tests parse a few command lines; each of the ~18 names with every value, including false and malformed ones, is not sampled.",
  ["pkg/monny/parse.go"],["handleOption","parseFlag"])
p("C14","Configuration files yield each entry exactly once",
  "Each entry of a configuration file contributes its option exactly once, list-valued rules, field rules and expected files contribute one option per element and are never duplicated however many list keys the file has, and an unreadable file, malformed content, an unknown key or an invalid entry is an error rather than a silently ignored setting.",
  ["inputs","configurations"],"every file content: every set of keys and value types",
  "Tests parse a few fixed files with at most one list key.",
  ["pkg/monny/parse.go"],["parseFromFile","handleOption"])
p("C15","Log sources and sinks follow the options regardless of their order",
  "The log processor's sources and sinks depend only on which options are given, not on the order they are passed: each disabling option removes exactly the named source or sink and keeps all others in order, no-output removes every sink, and the configured history size applies to every source. When wrapping a process, its standard output is never echoed to standard error nor its standard error to standard output; if any option fails, construction fails.",
  ["inputs","configurations"],"every list of options in every order",
  "Tests try a few option lists in one order each.",
  ["pkg/monny/proc/logopt.go","pkg/monny/proc/logs.go"],["filterSink","filterSource","NewLogProcessor","WithCommand"],["logProcOpt.sources","logProcOpt.sinks"])
p("C16","Every log line is recorded, published and echoed in order",
  "For every line read from a source, in order, the line is added to that source's history, exactly one log event is published on the log topic, and the line followed by a newline is written to each of its sinks exactly once; a sink that fails is reported on the error topic and does not stop the other sinks or later lines. Completion is signalled exactly once, after the source is exhausted.",
  ["inputs","fault_sequences"],"every stream of lines, every list of sinks, every pattern of sink failures",
  "Tests feed a few lines to one working sink.",
  ["pkg/monny/proc/logs.go","pkg/monny/proc/errors.go"],["startLogEmitter","newError"])
p("C17","A ticker emits until shutdown and then stops for good",
  "A ticker publishes one event of its configured type per tick while the bus is open. When the bus shuts down it stops its timer, announces that it has finished and does nothing further: it never keeps running after shutdown. A zero period starts nothing.",
  ["histories","schedules"],"every sequence of ticks, bus events and shutdown",
  "Tests observe one tick and one shutdown; they cannot see a goroutine that keeps spinning afterwards.",
  ["pkg/monny/proc/ticker.go"],["NewTicker"])
p("C18","Subscribing and unsubscribing affect exactly one subscriber",
  "A new subscriber is registered once on each topic it names (or on the default topic if it names none) and all other registrations stay unchanged and in order. Unsubscribing removes exactly that subscriber from every topic, closes its event channel once, never crashes, and leaves every other subscriber registered and open.",
  ["inputs","histories"],"every set of existing registrations, every list of topics including several and repeated ones",
  "Tests use one topic per subscriber; several or repeated topics and arbitrary existing registrations are not reached.",
  ["pkg/eventbus/bus.go"],["EventBus.Subscribe","EventBus.Unsubscribe"],["EventBus.subscribers","EventBus.done"])
p("C19","Events reach the subscribers of the named and default topics",
  "A dispatched event is sent to the subscribers of each topic it names and always to the default-topic subscribers, and to no one else; a topic without subscribers is ignored. After shutdown has begun nothing is sent to any subscriber, and dispatching never modifies the caller's topics or the registrations.",
  ["inputs","histories","schedules"],"every registration state, every list of topics, before and after shutdown",
  "Tests use one or two topics and a couple of subscribers; interleavings with shutdown are luck.",
  ["pkg/eventbus/bus.go"],["EventBus.Dispatch"],["EventBus.subscribers","EventBus.sdStarted"])
p("C20","Shutdown closes every subscriber channel exactly once",
  "Shutting the bus down marks it closed and closes each registered event channel exactly once, however many topics the subscriber has, without crashing. It reports success only if every subscriber announced that it finished, and the timeout error only if the context ended; a second shutdown is harmless.",
  ["inputs","histories","schedules"],"every registration state (several and repeated topics included) and every finish/timeout order",
  "Tests shut down a bus with single-topic subscribers once.",
  ["pkg/eventbus/bus.go"],["EventBus.Shutdown","shutdownNotify"],["EventBus.sdStarted"])
p("C21","A state machine moves only along declared transitions",
  "A transition succeeds exactly when the edge from the current state to the requested one was declared; then the current state is the requested one. Otherwise an error is returned and the current state is unchanged; a reset returns to the initial state, and no operation ever changes the declared transitions.",
  ["inputs","histories"],"every machine, every requested state, every history of transitions and resets",
  "Tests walk one small graph; the claim is over every graph and every requested edge.",
  ["pkg/fsm/fsm.go","pkg/fsm/options.go","pkg/fsm/transition.go"],["Machine.Transition","Machine.Allowable","Machine.Reset","NewMachine","WithTransitions","T"],["Machine.current","Machine.allowable"])
p("C22","Declared transitions are exactly the ones passed at construction",
  "A machine built from any list of transition declarations allows exactly the edges declared - every one of them and no other - in the state it was created with. If any option fails, construction fails and no machine is returned.",
  ["inputs","configurations"],"every list of transition options",
  "Tests build two or three graphs.",
  ["pkg/fsm/fsm.go","pkg/fsm/options.go","pkg/fsm/transition.go"],["NewMachine","WithTransition","WithTransitions","T","flatten"],["Machine.allowable"])
p("C23","A stoppable machine stays stopped after an illegal transition",
  "Once a stoppable machine has refused a transition, every later transition fails with the stop error and leaves the state unchanged, even along declared edges, until it is reset. A machine that is not stoppable is never blocked by an earlier refusal.",
  ["inputs","histories"],"every machine and every history after the first refusal",
  "Tests try one follow-up transition.",
  ["pkg/fsm/fsm.go","pkg/fsm/options.go"],["Machine.Transition","stoppable.ok","WithStoppable"],["stoppable.stopped"])
p("C24","A nonce authorises at most one transition attempt",
  "A protected machine changes state only if the caller presents exactly the current nonce and the edge is declared. Every attempt, successful or not, consumes the nonce: afterwards a freshly generated one is required, and a wrong nonce leaves the state unchanged.",
  ["inputs","histories"],"every nonce value presented, every machine, every history of attempts",
  "Tests present one right and one wrong nonce.",
  ["pkg/fsm/nonce.go"],["MachineNonce.Transition","MachineNonce.Reset","nonce.ok","newNonce"],["MachineNonce.nonce"])
p("C25","A series holds the most recent observations, oldest first",
  "A series of capacity n accepts any number of observations, always reports how many it has seen, and returns the most recent n of them in the order recorded, oldest first (unfilled positions are zero and follow the recorded ones). What it returns is an independent copy, resetting empties it, and a non-positive capacity is rejected.",
  ["inputs","histories"],"every capacity >= 1 and every number and value of observations",
  "Tests record a few more values than one small capacity.",
  ["pkg/metric/series.go"],["Series.Record","Series.Values","Series.Reset","NewSeries"],["Series.values","Series.count"])
p("C26","Sampling records one aggregate per window",
  "At each sampling window the aggregate of exactly the observations made in that window is appended to the series (zero if there were none) and the window starts afresh; without a window each observation is appended immediately. Stopping ends the sampling.",
  ["inputs","histories","schedules"],"every sequence of observations, window ends, resets and stop",
  "Tests sleep through one or two windows.",
  ["pkg/metric/sampled.go"],["NewSampledSeries","SampledSeries.Record","SampledSeries.Reset"],["SampledSeries.obs","SampledSeries.s"])
p("C27","Aggregators compute sum, average, minimum and maximum",
  "For every list of observations the sum aggregator returns the sum, the average aggregator the sum divided by the number of observations, the minimum and maximum aggregators an element no greater (no less) than every element, and all return zero for the empty list. None of them modifies the observations.",
  ["inputs"],"every list of real observations of any length",
  "Tests use one list per function.",
  ["pkg/metric/sampled.go"],["SampleSum","SampleAverage","SampleMin","SampleMax"])
p("C28","Counters count exactly what was added in the window",
  "A counter's value is the sum of everything added since creation or the last reset. A windowed counter's value is the sum added in the current window and zero once that window has passed; without a window it never expires.",
  ["inputs","histories"],"every sequence of additions, resets and reads at every time",
  "Tests add once or twice around one sleep.",
  ["pkg/metric/counter.go"],["Counter.Add","Counter.Value","WindowedCounter.Value","WindowedCounter.Add","WindowedCounter.Reset"],["Counter.value","WindowedCounter.current"])
p("C29","Windowed history keeps the most recent closed windows",
  "When a window has passed, the next addition closes it: its count, start and duration are kept in the history and a new window begins with just that addition. The history returned contains the closed windows (and the current one where asked) in order, limited to the newest configured number and to those not older than the configured age, and reading it never changes the counter nor is changed by later additions.",
  ["inputs","histories","configurations"],"every history length, limit, age limit and time",
  "Tests use one or two windows and one limit.",
  ["pkg/metric/counter.go"],["WindowedCounter.Add","WindowedCounter.History","WindowedCounter.HistoryInclusive","newHistory"],["WindowedCounter.hist"])
p("C30","Shared counters, series and queues are race-free",
  "Every operation of the types documented as safe for concurrent use (counters, windowed counters, sampled series, log queue, event bus) reads their shared state only while holding the type's lock and modifies it only while holding the lock exclusively, and every operation releases the lock on every path. So concurrent use behaves like some sequential order of the operations and never deadlocks on its own lock.",
  ["schedules","inputs"],"every interleaving of operations from any number of goroutines",
  "Tests run few goroutines; a schedule-dependent race or a lock left held on a rare path is not sampled.",
  ["pkg/metric/counter.go","pkg/metric/sampled.go","pkg/monny/proc/queue.go","pkg/eventbus/bus.go"],["ConcurrentCounter","ConcurrentWindowedCounter","SampledSeries","Queue","EventBus"])
p("C31","Metric names render canonically and copies are independent",
  "A name with metadata renders as the name followed by its key=value pairs in sorted key order, then its annotations each marked with @ in sorted order, so equal metadata always gives the same text whatever order it was added in. Adding metadata or annotations never crashes, adds or replaces just those keys, and a copied name does not share metadata with the original.",
  ["inputs"],"every metadata map",
  "Tests render a few maps; Go map order is random per run, so order-dependence shows only sometimes.",
  ["pkg/metric/name.go"],["MarshalText","Name.String","NewNameFrom","Name.AddMetadata","Name.AddAnnotation"])
p("C32","The change detector follows its documented life cycle",
  "An estimator collects a full series before it starts testing, then alarms exactly when its weighted average reaches the upper limit (or falls to the lower limit in the lower-limit phase), and the alarm stays on until it is manually moved to another state. While testing, the current value is the exponentially weighted average of the observations; forcing it to reset restarts collection, and no observation is ever rejected because of its state.",
  ["inputs","histories"],"every sequence of observations and manual transitions, every weight and limit",
  "Tests feed one random series to each phase.",
  ["pkg/stat/estimator.go","pkg/stat/state.go"],["TestStatistic.Record","TestStatistic.HasAlarmed","TestStatistic.Transition","newMachine"],["TestStatistic.fsm","TestStatistic.current","TestStatistic.limit"])
p("C33","Undefined observations are rejected without effect",
  "An observation whose transformed value is not a finite number is rejected with an error and changes nothing: neither the collected series, the current value, the limit nor the state. Every finite one is recorded in the series exactly once.",
  ["inputs","histories"],"every observation value, in every state",
  "Tests feed only ordinary positive values.",
  ["pkg/stat/estimator.go","pkg/stat/pdf.go"],["TestStatistic.Record","LogNormal.Transform"])
p("C34","Limits are computed from the sample mean, variance and K",
  "The baseline mean is the arithmetic mean of the collected values, the variance the unbiased sample variance (equal to the mean for count data), and the limit is the mean plus (lower limit: minus) K times the square root of weight/(2-weight) times the variance. If no valid K can be determined a fixed finite default is used, so a limit is always a number.",
  ["inputs","configurations"],"every list of values, weight in (0,1], K and direction",
  "Tests compare a few numeric examples.",
  ["pkg/stat/estimator.go","pkg/stat/pdf.go"],["meanNormal","varianceNormal","calculateLimit"])
p("C35","K follows the calibrated error-rate relation or is rejected",
  "For a desired error rate, K is (ln(rate) - A) / B with the constants of the distribution in question, and an error is returned, with a safe default, whenever that is not a finite number. A fixed K is returned unchanged for both distributions.",
  ["inputs"],"every error rate",
  "Tests check two rates.",
  ["pkg/stat/k.go","pkg/stat/kconst_gen.go"],["KErrorRate.CalculateLN","KErrorRate.CalculateP","KFixed"])
p("C36","A composite test alarms exactly when one of its statistics does",
  "A test made of several statistics forwards each observation once to every one of them, in order, is in alarm exactly when at least one of them is, and lists one state per statistic in order. Without a custom statistic it uses the two defaults of its distribution; its metrics give each statistic's current value and limit under that statistic's own name, without altering the test's name.",
  ["inputs","histories","configurations"],"every list of statistics in every combination of states",
  "Tests use the default two statistics.",
  ["pkg/stat/stattest.go","pkg/stat/lognormal.go","pkg/stat/poisson.go"],["Test.Record","Test.HasAlarmed","Test.State","Test.Metric","NewLogNormalTest","NewPoissonTest"])
p("C37","Supervision ends only through one of the documented outcomes",
  "The supervision loop returns exactly once per run, through the handler of the event that ended it: normal completion, a trapped signal, the kill timeout, or a memory-kill demand; a time warning or an acceptable memory measurement never ends it. Timers are armed only for the limits configured, and a process that cannot be started is an error with no outcome reported.",
  ["schedules","fault_sequences","configurations"],"every order of completion, signal, timeout, warning and measurement events",
  "Tests run short commands where one event happens.",
  ["pkg/monny/command.go"],["Command.Exec"],["Command.Start"])
p("C38","Cleanup runs every callback once and reports every failure",
  "Cleaning up runs every registered callback exactly once, in order, skipping absent ones, and returns exactly the errors they produced, in order; one failing callback does not prevent the others from running.",
  ["inputs","fault_sequences"],"every list of callbacks and every pattern of failures",
  "Tests register one or two callbacks.",
  ["pkg/monny/command.go"],["Command.Cleanup"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
