# P(id, title, statement, over, qtext, why, files, mech, note, claimed)
R = "rocketry/"
SYM = ("Every obligation is discharged for all inputs of the stated ranges on every path of the code that runs. Trusted: the "
       "symbolic proxies for int/float/datetime/timedelta (pyvc/sym.py), z3 and cvc5, floats as exact reals, naive datetimes. ")

P("C01", "A cycle period contains exactly the instants between its start and its end",
  "A time-of-second/minute/hour/day/week/month/year period contains an instant exactly when the instant's position in its "
  "cycle is at or after the start and before the end. When the start is after the end the period wraps over the end of the "
  "cycle, and when they are equal (or span the whole cycle) it contains every instant.",
  ["inputs"], "every start and end on the axis of the cycle (microseconds) and every datetime from 1971 to 2200",
  "The tests sample a few dozen instants of a few periods; starts, ends and instants are a continuum with edges at leap "
  "days, month ends and cycle wraps.",
  [R + "core/time/anchor.py", R + "time/interval.py", R + "pybox/time/convert.py"],
  [("half-open comparison of anchored positions", "AnchoredInterval.__contains__"), ("position in the cycle", "AnchoredInterval.anchor_dt")],
  SYM)

P("C02", "Human-readable bounds of cycle periods mean the instants they name",
  "Integers, clock times, weekday, month-day, month and ordinal names given as the start, end or single point of a cycle "
  "period (also through the daily/weekly/... schedules and the 'time of' conditions) denote exactly the named unit: a start "
  "unit begins at its first instant, an end given as a whole unit is included to its end, an end given as a clock time is "
  "excluded. Bounds that name no unit of the cycle are rejected.",
  ["inputs"], "every integer, every name and every documented string form of each cycle, and every datetime from 1971 to 2200",
  "There are thousands of string/integer forms per class and every one must be right at every instant; tests check chosen "
  "anchors only.",
  [R + "core/time/anchor.py", R + "time/interval.py", R + "time/construct.py", R + "conditions/api.py"],
  [("anchoring of ints and strings", "AnchoredInterval.set_start/set_end/anchor, *.anchor_str, *.anchor_int"),
   ("time points", "AnchoredInterval.to_timepoint/at/starting")],
  SYM + "Strings are enumerated (every documented form); integers and instants are symbolic.")

P("C03", "Rolling a cycle period gives the ongoing or nearest occurrence, exactly",
  "Rolling a cycle period forward from an instant gives the interval that starts there if the instant is inside, else at the "
  "next start, and that ends at the following end; rolling back is the mirror image. This holds over month lengths, leap "
  "years and wraps, and the result never lies on the wrong side of the instant.",
  ["inputs"], "every cycle period (any start/end in microseconds) and every datetime from 1971 to 2199",
  "Tests roll a few hundred hand-picked pairs; short months, 29 February and wraps over year ends combine in ways they do not list.",
  [R + "core/time/base.py", R + "core/time/anchor.py", R + "time/interval.py"],
  [("rolls", "TimeInterval.rollforward/rollback"), ("next and previous starts and ends", "AnchoredInterval.next_start/...")],
  SYM + "Year periods lying wholly inside 29 February are covered by a bounded stand-in only.")

P("C04", "Interval overlap, intersection, emptiness and membership are set operations",
  "Two intervals overlap exactly when they share an instant, their intersection contains exactly the instants in both, "
  "emptiness and membership honour which ends are closed, and an interval whose left end is after its right end is rejected.",
  ["inputs"], "every pair of non-empty intervals with every combination of closed ends",
  "Sixteen combinations of closed ends times every ordering of four end points, including ties.",
  [R + "pybox/time/interval.py"], [("interval operations", "Interval.__contains__/overlaps/__and__/is_empty")], SYM)

P("C05", "Combining time periods with & and | gives their intersection and union",
  "An instant is in A & B exactly when it is in both and in A | B exactly when it is in either, for all periods including "
  "combined and always/never ones, and combining leaves the operands as they were. Rolling a combination gives an interval "
  "of instants of the combination, on the right side of the given instant, and skips none; if nothing is left it is empty.",
  ["inputs", "programs"], "all periods that honour the roll contract, all instants, any nesting (by induction on the structure)",
  "The set of compositions and alignments of occurrences is infinite; tests compose a handful of day and week periods.",
  [R + "core/time/base.py"], [("composition", "TimePeriod.__and__/__or__, All/Any.__init__/__contains__"),
                              ("rolls of combinations", "All/Any.rollforward/rollback")],
  SYM + "Sub-periods are arbitrary, known by their roll contract (C03 proves it for cycle periods). Rolls: 1 to 3 operands.")

P("C06", "A cron schedule is active exactly in the minutes its expression names",
  "A cron period contains an instant exactly when minute, hour and month match their fields and the day matches: the day of "
  "month and the day of week are alternatives when both are restricted, as in cron. Numbers, names, lists, ranges and steps "
  "have their cron meaning.",
  ["inputs"], "cron expressions of every field form (values, names, ranges, lists, steps, combinations) at every datetime 1971-2200",
  "The language is combinatorial and each expression must be right in every minute of every year; tests compare a few "
  "expressions on a few instants.",
  [R + "time/cron.py", R + "core/time/anchor.py", R + "time/interval.py"],
  [("field parsing", "Cron._get_period_from_expr"), ("day of month or week", "Cron.get_subperiod")],
  SYM + "Expressions are enumerated per field, instants are symbolic.")

UNB = dict(claimed=False)
P('C07', 'Relative windows reach exactly the stated time back and forward',
  "A period given as a duration covers exactly the instants within that duration of the reference, both ends included; a near/far span excludes what is nearer than near or farther than far. The 'scheduler started ... ago', cycle-count and 'currently in period' conditions are true exactly when the session's clock, start time and cycle count say so.",
  ['inputs', 'histories'], 'every duration, reference, instant, clock value, start time and cycle count',
  'Bounds are inclusive on a continuum and depend on the clock of the session; tests use a few round numbers.',
  ['rocketry/core/time/base.py', 'rocketry/time/delta.py', 'rocketry/core/time/utils.py', 'rocketry/conditions/scheduler.py', 'rocketry/conditions/time.py'],
  [('windows', 'TimeDelta, TimeSpanDelta'), ('window of a condition', 'get_period_span')],
  SYM + '')

P('C08', 'Combined and compared conditions follow boolean logic',
  "a & b, a | b and ~a are true exactly when boolean logic says so over the states of a and b observed in the same context, for conditions of any kind and nesting, and building them changes neither operand. Comparing a measured condition with ==, !=, <, >, <=, >= gives a new condition true exactly when all its comparisons hold for the measured value (uncompared: above zero). Function conditions give their function's answer for the session and task observed, and parameter and environment conditions tell whether the session has the parameters.",
  ['programs', 'inputs'], 'all condition expressions, all states, all measured values and comparison bounds',
  'Nested expressions and comparison combinations are unbounded, aliasing between them shows only in particular orders of construction.',
  ['rocketry/core/condition/base.py', 'rocketry/conditions/func.py', 'rocketry/conditions/parameter.py'],
  [('containers', 'Any/All/Not.observe'), ('comparisons', 'BaseComparable.observe/get_state/_set_comparison')],
  SYM + 'Containers of 1 to 3 conditions nested by induction (a part is any condition).')

P('C09', 'Task status conditions tell what the task log says',
  "The conditions that a task has started, succeeded, failed, finished, terminated or inacted in a period are true exactly when the task's log has as many such records in that period (its ends included) as compared with (by default at least one), whether the latest times kept with the task are used to answer or the log is read. A task is running exactly when it has as many live runs, begun in the period, as compared with: runs without an outcome when told from the log.",
  ['histories', 'configurations'], 'every log history, period, comparison and cache setting',
  'The answer comes from one of several shortcuts chosen by settings, period type and comparison; tests do not cross them with histories.',
  ['rocketry/conditions/task/task.py', 'rocketry/conditions/task/utils.py'],
  [('shortcut or log', 'TaskStatusMixin.get_measurement'), ('running', 'TaskRunning.get_measurement')],
  SYM + 'Tests for none/any are proved for logs of any length; counts for histories of up to 3 records (bounded).')

P('C10', 'A scheduled task runs once per period and only inside it',
  'A task scheduled for a period (daily, hourly, every ..., weekly on ...) is due exactly when the time is inside the period and the current occurrence has no successful, terminated or inacted run of it and no more failed ones than the retries given. A task on a cron schedule is due exactly in the named minutes, when it has not started in that minute; every(duration) is due exactly when its last start (or success, failure, finish when based on it) is longer ago than the duration.',
  ['histories', 'inputs'], 'every log history of the task, clock value and period',
  'Depends on the whole history and on instants at period edges; tests run short sequences.',
  ['rocketry/conditions/task/task.py', 'rocketry/conditions/api.py', 'rocketry/core/time/utils.py'],
  [('due', 'TaskExecutable.get_state / TaskRunnable.get_state')],
  SYM + 'Proved for logs of any length without retries; retries and the named schedules on histories of up to 3 records (bounded). The very microsecond at which an occurrence begins is outside.')

P("C11", "A task depending on another starts once for each outcome of the other",
  "A task set to run after another's success, failure or finish (success or failure) is due exactly when the other's latest such outcome is later "
  "than the task's own latest start (or the task never started and the other has such an outcome). With several others (after all, after any), it is "
  "due exactly when all, or any, of them have such an outcome after the task's latest start. This holds for the condition classes, the "
  "condition API and the condition texts, and whether states are read from the log or from memory.",
  ["histories"], "every pair (or triple) of log histories", "Orders of two histories, including ties and missing records.",
  [R + "conditions/task/utils.py", R + "conditions/task/task.py", R + "conditions/api.py"], [("dependency", "DependMixin.get_state")],
  SYM + "Logs of any length are known by their latest record of each kind (proved); with several others, up to two, and mixed histories of up to 2 records each (bounded).")

P("C12", "A failed task is retried the given number of times and no more",
  "The retry condition is true exactly when the latest record of the task is a failure and the task has failed at most the given number of times since its "
  "latest other outcome (success, crash, inaction or termination): so a failed task is run again n times and no more, and an outcome other than failure "
  "starts the count anew. With no limit (none given, or -1) it is true after every failure, with 0 never.",
  ["histories"], "every log history and limit", "Depends on the pattern of the whole history.",
  [R + "conditions/task/task.py", R + "conditions/api.py"], [("retry", "Retry.get_state")],
  SYM + "Proved for logs of any length and any limit; arbitrary sequences of up to 4 records in addition (bounded).")

P('C13', 'A task starts only when it may: enabled, due, with room, not already running',
  'In a cycle the scheduler starts a task exactly when it is not disabled and its start condition is true, or it was asked to run, and it is not already running unless multiple launches are allowed (for the task, or by default for the session), and, for a process task, the limit of parallel processes leaves room. An error in a condition means not starting when such errors are silenced, and is raised otherwise. However many process tasks are due in one cycle, the limit is not exceeded.',
  ['configurations', 'histories'], 'every combination of settings, flags, conditions and running tasks',
  'The gate is a product of a dozen independent switches.',
  ['rocketry/core/task.py', 'rocketry/core/schedule.py'],
  [('gate', 'Task.is_runnable, Scheduler.is_task_runnable')],
  SYM + 'The number of live runs and the limit are arbitrary integers; several tasks in one cycle up to 3 (bounded).')

P('C14', 'A scheduler cycle considers every task, highest priority first',
  "In each cycle every ordinary task is considered exactly once, in order of priority (highest first); tasks meant for startup or shutdown are left out, and nothing is started while the scheduler is on hold. A condition is looked at when it is its task's turn, and whatever fails in one task (condition, parameters, function) keeps no other due task from running.",
  ['configurations'], 'every set of tasks, priorities and flags',
  'Tests use two or three tasks.',
  ['rocketry/core/schedule.py', 'rocketry/core/task.py'],
  [('cycle', 'Scheduler.run_cycle')],
  SYM + 'Up to 3 tasks with arbitrary priorities (bounded in the number of tasks); the step for one task is proved.')

P('C15', 'A running task is terminated exactly when it should be',
  'The scheduler terminates a live run exactly when termination was asked for, its end condition is true, or it has run longer than its timeout (never, for permanent tasks, by timeout); finished runs are left alone and only the ended runs are recorded as terminated.',
  ['histories', 'configurations'], 'every timeout, elapsed time, flag and set of live and finished runs',
  'Elapsed times are a continuum and stacks of runs mix live and finished ones.',
  ['rocketry/core/schedule.py', 'rocketry/core/task.py'],
  [('rule', 'Scheduler.is_out_of_condition / terminate_task')],
  SYM + 'One run: proved for every elapsed time, timeout and flag; 2 and 3 runs of one task bounded.')

P('C16', 'Every started run is recorded with exactly one start and one outcome',
  "Each run of a task leaves one start record and, once over, exactly one outcome record under the same run and with the run's own start: success if its function returned, fail with the error if it raised (or its parameters or return handling failed, or its thread or process could not be begun), inaction if it declined, termination if it was ended. The task's own processing of the run is told the same outcome, the task's status, latest times and return value agree with its records, and a record's run time is the time between its run's start and end.",
  ['histories', 'fault_sequences'], 'every outcome of the function (and of what surrounds it), execution type and record type',
  'Faults at every step of a run cannot be listed in tests.',
  ['rocketry/core/task.py'],
  [('run', 'Task.start, _run_as_*, _run_and_log, log_*')],
  SYM + 'Thread and process runs are executed to their end inside start(). Killed processes, KeyboardInterrupt and a failing log storage are outside.')

P("C17", "After a restart a task's state is what its log says",
  "When a session starts, the last start, success, failure, termination, inaction and crash times and the status of a task are those of its latest records. "
  "A run recorded as started with no outcome after it is treated as crashed: a crash is recorded once, under that run and with its start, and is the status of the task. "
  "Startup tasks see the states of all tasks. A task of a new session with the log of an old one has the state the old one had.",
  ["crash_points", "histories"], "every log history a crash can leave", "Crash points over histories are unbounded.",
  [R + "core/task.py", R + "core/schedule.py"], [("recovery", "Task.set_cached, Scheduler.startup")],
  SYM + "Logs of any length are known by their latest record of each kind (proved); runs of the same task do not overlap; startup and read-back on histories of up to 3 runs (bounded).")

P("C18", "Parameters reach a task by precedence and private values stay hidden",
  "A task's function receives each argument it asks for from the most specific place that defines it: the parameters of the run (the oldest batch "
  "waiting, which the run uses up), then the task's, then the defaults in the function, then the session's. Arguments (values of functions, "
  "references to other parameters, return values of other tasks, the environment, the command line, the task, the session) are formed anew for each run, whatever the execution "
  "(values of functions before the thread or process or in it, as asked), a function given by its file is the one in the file when the run begins, "
  "nothing is left changed for the next run, and private values are never shown in textual forms.",
  ["inputs"], "every overlap of parameter sources", "Precedence over overlapping sources is combinatorial.",
  [R + "core/parameters/parameters.py", R + "core/parameters/arguments.py", R + "core/task.py", R + "args/builtin.py", R + "args/secret.py", R + "tasks/func.py"],
  [("union of parameters", "Parameters.__or__, Task.get_extra_params, FuncTask.prefilter_params"), ("values", "Parameters.materialize")],
  SYM + "Values are arbitrary; the kinds of argument and the sets of sources are enumerated. Threads and processes run inside start().")

P("C19", "Startup and shutdown keep their order and leave nothing running",
  "When a session starts, its startup tasks run once and before anything else. However it ends (shut condition, shutdown called, exit or restart "
  "raised in a task, an error in a condition or hook), no cycle is run after that, the enabled and due shutdown tasks run once after the last cycle, and at the end nothing "
  "is alive and the scheduler is marked as not running. Live runs are waited for on an ordinary shutdown or restart; they are ended if they are "
  "permanent, with instant_shutdown, when the shutdown is forced or called twice, on exit and on an error. A restart happens exactly when "
  "asked for and only after all of that, beginning the same program with the same arguments, errors are raised, and a session that has ended can be started again as if it were new.",
  ["histories", "fault_sequences"], "every way the scheduler's loop ends", "The ways to end multiply with the ways tasks end.",
  [R + "core/schedule.py", R + "session.py"], [("shutdown", "Scheduler.serve, shut_down, wait_task_alive, terminate_all")],
  SYM + "One turn of the waiting loop is proved for any number of live runs; whole sessions are bounded: every way to end, kind of run, and setting, with one live run.",
  level="other")

P("C20", "Records of process runs reach the task log once, in order",
  "Every record a process run sends is written to the task's log once, in the order sent, unchanged and under its own run, and the task's status, latest "
  "times and return value follow it, with any number of runs of any number of tasks sending. A record that cannot be written loses no other record and "
  "never counts as a success. Records of a task removed meanwhile are still written. A process is waited for until its start is recorded, however slow; "
  "one that dies without a word becomes one failed run.",
  ["histories", "fault_sequences"], "every sequence of records of any number of runs", "Interleavings of several runs' records.",
  [R + "core/task.py", R + "core/schedule.py", R + "log/handlers.py"], [("relay", "Scheduler.handle_logs, Task.log_record, Task._lock_to_run_log")],
  SYM + "Handling one record is proved from an arbitrary state; whole queues and the handshake at the start are bounded. Assumed: the queue delivers each record once, in order.")

P("C21", "A condition text means the expression and the conditions it spells",
  "A condition text of &, |, ~ and parentheses (and whitespace anywhere between them) over condition phrases has that boolean meaning, ~ binding tighter "
  "than & and & tighter than |; texts that are no such expression are refused. Each documented phrase (and custom one) is the condition of the "
  "condition API with the same name and arguments, and time texts are the periods they name.",
  ["inputs"], "every expression and every documented phrase", "Texts are unbounded.",
  [R + "parse/_condition", R + "parse/utils", R + "parse/_setup_cond_parsers.py", R + "pybox/string/parse/closure.py", R + "time/construct.py"],
  [("expression parser", "InstructionParser, ClosureParser"), ("phrases", "add_condition_parser, get_between/get_full_cycle")],
  SYM + "Texts are enumerated up to a bound (see the evidence); the truth values of the phrases in them are arbitrary.", level="other")

P("C22", "A session holds each task once and finds it by its name",
  "However tasks are created, renamed, removed or included from groups, the session holds each of them once, no two under one name (a name already taken is refused, or "
  "the next free number added, or the task left out, as configured), and finds each by its name, itself or its function, and nothing else. "
  "A group's tasks get its prefix, also need its start condition, use its execution if they have none, and its parameters join the session's. "
  "Running chosen tasks by hand runs just them, once, and leaves every task's settings as they were, even if it fails.",
  ["histories"], "every sequence of creations, renames, removals, inclusions and runs by hand", "Sequences are unbounded.",
  [R + "session.py", R + "application.py", R + "core/task.py"], [("registry", "Session.add_task/__getitem__/remove_task/run, Task.parse_name"), ("groups", "include_grouper")],
  "Bounded: every sequence of up to four operations over a few names, every group of up to three tasks. The link of a function to its task is kept until the task is renamed.", level="other")

P("C23", "Durations mean what they spell",
  "A duration text is the sum of its number-unit pairs in any order, spelling, sign and separation, to the microsecond; numbers (seconds) and timedeltas are taken as they are; anything else is refused. "
  "The same holds wherever durations are given: timeouts, 'every' and past periods.",
  ["inputs"], "every number and unit", "Numbers times units times spellings.",
  [R + "pybox/time/convert.py"], [("conversion", "to_timedelta, string_to_timedelta")],
  "Texts are enumerated up to a bound; numbers not in a text are arbitrary.", level="other")

P("C24", "A command task runs the given command with its parameters, every time",
  "Each run of a command task runs its command once, as a text or a list, with exactly the task's and the run's parameters as its arguments (named with the chosen dashes), in the directory, shell and "
  "environment asked for, and leaves nothing for the next run or another task. The run succeeds exactly when the command ends with 0, and its output is then the return value. "
  "A command that fails, does not exist or takes longer than the timeout is a failed run with the reason, and is not left running.",
  ["inputs", "histories"], "every command, parameter set, outcome and timeout", "Parameters, forms, executions and runs multiply.",
  [R + "tasks/command.py"], [("command", "CommandTask.execute, get_kwargs_popen, parse_argform, postfilter_params")],
  SYM + "Codes and timeouts are arbitrary (proved); commands, parameters and sequences of runs are enumerated. subprocess.Popen is a recording stand-in.", level="other")

P("C25", "Hooked functions run around what they are hooked to, every time",
  "The functions hooked to a session's start-up (also by app.setup), cycles, shutdown, task creation and task execution run each time that happens in that session, once each, in the order they were registered: "
  "a function before it, a generator's part up to its yield before it and the rest after it (start-up and shutdown: before and after the start-up or shutdown tasks). Execution hooks do so whatever the outcome "
  "of the run and however it is executed, and their second part is sent the exception information of the run (Nones if there was none). Hooks get the task and session they ask for.",
  ["inputs", "histories"], "every mix of hooks, execution, outcome and way to end", "Hooks, executions, outcomes and ways to create tasks multiply.",
  [R + "core/hook.py", R + "core/task.py", R + "core/schedule.py", R + "session.py"], [("hooks", "_Hooker.prerun, postrun, Task.__init__, _run_as_async, Scheduler.startup, run_cycle, shut_down, Session.hook_*")],
  SYM + "Mixes of up to three hooks, all executions, outcomes and ways to create a task or end the scheduler are enumerated; threads and processes run inside start().", level="other")
