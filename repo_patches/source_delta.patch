From 01c73ae9b78e484bec0501b88ecd08da038f65b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:23 +0000
Subject: [PATCH 01/54] fix: month and year periods roll to wrong instants when
 the cycle is shorter than the axis

---
 rocketry/time/interval.py | 77 +++++++++++++++++++++++++++++++++------
 1 file changed, 66 insertions(+), 11 deletions(-)

diff --git a/rocketry/time/interval.py b/rocketry/time/interval.py
index ab8bb66..8d060bb 100644
--- a/rocketry/time/interval.py
+++ b/rocketry/time/interval.py
@@ -1,6 +1,8 @@
 import calendar
 import datetime
+import itertools
 import re
+from abc import abstractmethod
 from dataclasses import dataclass
 from typing import ClassVar, List
 
@@ -8,7 +10,7 @@ import dateutil
 
 from rocketry.core.time.anchor import AnchoredInterval
 from rocketry.core.time.base import TimeInterval
-from rocketry.pybox.time import datetime_to_dict, to_microseconds
+from rocketry.pybox.time import datetime_to_dict, to_microseconds, to_timedelta
 from rocketry.pybox.time.interval import Interval
 
 @dataclass(frozen=True, init=False)
@@ -216,8 +218,54 @@ class TimeOfWeek(AnchoredInterval):
         return to_microseconds(**d) + dayofweek * to_microseconds(day=1)
 
 
+class FloatingMixin:
+    """Mixin for the cycles that don't have a fixed length (month and year).
+
+    The axis is as long as the longest cycle thus the
+    points of the axis are mapped to each actual cycle
+    (which may lack some of them, ie. there is no 31st in
+    February).
+    """
+
+    @abstractmethod
+    def get_cycle_start(self, dt, n:int):
+        "Get the start of the nth cycle counted from the cycle dt is in"
+        raise NotImplementedError
+
+    @abstractmethod
+    def get_cycle_offset(self, cycle_start, ms:int) -> int:
+        "Turn a point on the axis to actual microseconds from the start of given cycle"
+        raise NotImplementedError
+
+    def _iter_occurrences(self, dt, step:int):
+        "Iterate start and end of the actual intervals around dt forward (step=1) or backward (step=-1)"
+        n_end = 1 if self._start >= self._end else 0 # The period is over the cycle
+        for n in itertools.count(-step, step):
+            start, end = (
+                cycle_start + to_timedelta(self.get_cycle_offset(cycle_start, ms), unit="microsecond")
+                for cycle_start, ms in (
+                    (self.get_cycle_start(dt, n), self._start),
+                    (self.get_cycle_start(dt, n + n_end), self._end),
+                )
+            )
+            if start < end:
+                # Otherwise the cycle is too short to have the period
+                yield start, end
+
+    def next_start(self, dt):
+        return next(start for start, _ in self._iter_occurrences(dt, 1) if start > dt)
+
+    def next_end(self, dt):
+        return next(end for _, end in self._iter_occurrences(dt, 1) if end > dt)
+
+    def prev_start(self, dt):
+        return next(start for start, _ in self._iter_occurrences(dt, -1) if start <= dt)
+
+    def prev_end(self, dt):
+        return next(end for _, end in self._iter_occurrences(dt, -1) if end <= dt)
+
 @dataclass(frozen=True, init=False)
-class TimeOfMonth(AnchoredInterval):
+class TimeOfMonth(FloatingMixin, AnchoredInterval):
     """Time interval anchored to day cycle of a clock
 
     min: first day of month, 0 hours, 0 minutes, 0 seconds, 0 microsecond
@@ -286,18 +334,16 @@ class TimeOfMonth(AnchoredInterval):
 
         return to_microseconds(**d)
 
-    def get_scope_forward(self, dt):
-        n_days = calendar.monthrange(dt.year, dt.month)[1]
-        return to_microseconds(day=1) * n_days
+    def get_cycle_start(self, dt, n):
+        year, month = divmod(dt.year * 12 + dt.month - 1 + n, 12)
+        return dt.replace(year=year, month=month + 1, day=1, hour=0, minute=0, second=0, microsecond=0)
 
-    def get_scope_back(self, dt):
-        month = 12 if dt.month == 1 else dt.month - 1
-        year = dt.year - 1 if dt.month == 1 else dt.year
-        n_days = calendar.monthrange(year, month)[1]
-        return to_microseconds(day=1) * n_days
+    def get_cycle_offset(self, cycle_start, ms):
+        n_days = calendar.monthrange(cycle_start.year, cycle_start.month)[1]
+        return min(ms, to_microseconds(day=n_days))
 
 @dataclass(frozen=True, init=False)
-class TimeOfYear(AnchoredInterval):
+class TimeOfYear(FloatingMixin, AnchoredInterval):
     """Time interval anchored to day cycle of a clock
 
     min: 1st Jan, 0 hours, 0 minutes, 0 seconds, 0 microsecond
@@ -401,6 +447,15 @@ class TimeOfYear(AnchoredInterval):
             d["day"] = d["day"] - 1
         return self._month_start_mapping[nth_month] + to_microseconds(**d)
 
+    def get_cycle_start(self, dt, n):
+        return dt.replace(year=dt.year + n, month=1, day=1, hour=0, minute=0, second=0, microsecond=0)
+
+    def get_cycle_offset(self, cycle_start, ms):
+        leap_day = to_microseconds(day=59) # 29th of February
+        if ms > leap_day and not calendar.isleap(cycle_start.year):
+            return max(ms - to_microseconds(day=1), leap_day)
+        return ms
+
 
 @dataclass(frozen=True, init=False)
 class RelativeDay(TimeInterval):
-- 
2.43.0


From 12653d5364a8a45633725f562adf6c8eb359e688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:52 +0000
Subject: [PATCH 02/54] fix: combined periods recurse endlessly or misjudge
 membership when a subperiod has run out

---
 rocketry/core/time/base.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/rocketry/core/time/base.py b/rocketry/core/time/base.py
index de57461..b4e8815 100644
--- a/rocketry/core/time/base.py
+++ b/rocketry/core/time/base.py
@@ -294,6 +294,9 @@ class All(TimePeriod):
 
         object.__setattr__(self, "periods", frozenset(periods))
 
+    def __contains__(self, other):
+        return all(other in period for period in self.periods)
+
     def rollback(self, dt):
 
         # We solve this iteratively
@@ -326,6 +329,9 @@ class All(TimePeriod):
         # TODO: If
         if dt == next_dt:
             next_dt -= self.resolution
+        if next_dt.replace(tzinfo=None) < self.min:
+            # There is no more overlap in the past
+            return Interval(self.min, self.min)
         return self.rollback(next_dt)
 
     def rollforward(self, dt):
@@ -357,6 +363,11 @@ class All(TimePeriod):
         )
         if opened:
             next_dt -= self.resolution
+        if dt == next_dt:
+            next_dt += self.resolution
+        if next_dt.replace(tzinfo=None) > self.max:
+            # There is no more overlap in the future
+            return Interval(self.max, self.max)
         return self.rollforward(next_dt)
 
     def __eq__(self, other):
@@ -399,6 +410,9 @@ class Any(TimePeriod):
 
         object.__setattr__(self, "periods", frozenset(periods))
 
+    def __contains__(self, other):
+        return any(other in period for period in self.periods)
+
     def rollback(self, dt):
         intervals = [
             period.rollback(dt)
@@ -431,6 +445,9 @@ class Any(TimePeriod):
         # 2. Check if there is an interval overlapping with longer end
         # 3. Repeat 2 until there is none
 
+        # The intervals without any points are not relevant
+        intervals = [interv for interv in intervals if not interv.is_empty] or intervals
+
         # Sorting the closest first (right is oldest)
         intervals = sorted(intervals, key=lambda x: x.right, reverse=True)
 
@@ -441,8 +458,6 @@ class Any(TimePeriod):
             extends = interv.left < curr_interval.left
             if extends and interv.overlaps(curr_interval):
                 curr_interval = interv
-            else:
-                break
 
         return Interval(
             curr_interval.left,
@@ -460,6 +475,9 @@ class Any(TimePeriod):
         # 2. Check if there is an interval overlapping with longer end
         # 3. Repeat 2 until there is none
 
+        # The intervals without any points are not relevant
+        intervals = [interv for interv in intervals if not interv.is_empty] or intervals
+
         # Sorting the closest first (left is newest)
         intervals = sorted(intervals, key=lambda x: x.left, reverse=False)
 
@@ -470,8 +488,6 @@ class Any(TimePeriod):
             extends = interv.right > curr_interval.right
             if extends and interv.overlaps(curr_interval):
                 curr_interval = interv
-            else:
-                break
 
         return Interval(
             start_interval.left,
-- 
2.43.0


From 102acac9037a11a872db91d70c37295d6d6d34ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:55 +0000
Subject: [PATCH 03/54] fix: Cron stepped ranges of one-based fields, '*' in
 lists and membership of dates that never occur

---
 rocketry/time/cron.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/rocketry/time/cron.py b/rocketry/time/cron.py
index bc51434..80bd2e5 100644
--- a/rocketry/time/cron.py
+++ b/rocketry/time/cron.py
@@ -1,7 +1,7 @@
 from typing import Callable
 from dataclasses import dataclass
 
-from rocketry.core.time.base import TimePeriod, always
+from rocketry.core.time.base import Any, TimePeriod, always
 
 from .interval import TimeOfHour, TimeOfDay, TimeOfMinute, TimeOfWeek, TimeOfMonth, TimeOfYear
 
@@ -26,6 +26,9 @@ class Cron(TimePeriod):
         # -: range of values
         # /: step values
 
+    def __contains__(self, dt):
+        return dt in self.get_subperiod()
+
     def rollforward(self, dt):
         "Get previous time interval of the period."
         return self.get_subperiod().rollforward(dt)
@@ -34,15 +37,15 @@ class Cron(TimePeriod):
         "Get previous time interval of the period."
         return self.get_subperiod().rollback(dt)
 
-    def _get_period_from_expr(self, cls, expression:str, conv:Callable=None, default=always):
+    def _get_period_from_expr(self, cls, expression:str, conv:Callable=None, default=always, first:int=0):
 
         conv = (lambda i: i) if conv is None else conv
         exprs = expression.split(",")
+        if "*" in exprs:
+            # Any
+            return default
         full_period = None
         for expr in exprs:
-            if expr == "*":
-                # Any
-                continue
             if "/" in expr:
                 expr, step = expr.split("/")
                 step_period = cls.create_range(step=int(step))
@@ -58,14 +61,21 @@ class Cron(TimePeriod):
                     end = conv(int(end))
 
                 if step is not None:
+                    # Convert to positions of the units (starting from zero)
+                    start, end = (
+                        cls._unit_mapping[val.lower()] if isinstance(val, str) else val - first
+                        for val in (start, end)
+                    )
+                    if start > end:
+                        # Goes over the cycle, ie. Sun-Thu/2
+                        end += len(cls._unit_names)
                     # Unlike in traditional Python ranges,
                     # cron includes also the endpoint thus
-                    # we convert to int (if needed) and add
-                    # one
-                    if isinstance(end, str):
-                        end = cls._unit_mapping[end.lower()]
-                    end += 1
-                    period = cls.create_range(start, end, step=int(step))
+                    # we add one
+                    period = Any(*(
+                        cls.at(cls._unit_names[i % len(cls._unit_names)])
+                        for i in range(start, end + 1, int(step))
+                    ))
                 else:
                     period = cls(start, end)
             else:
@@ -93,8 +103,8 @@ class Cron(TimePeriod):
     def get_subperiod(self):
         minutely = TimeOfMinute()
 
-        day_of_month = self._get_period_from_expr(TimeOfMonth, self.day_of_month)
-        day_of_week = self._get_period_from_expr(TimeOfWeek, self.day_of_week, conv=self._convert_day_of_week)
+        day_of_month = self._get_period_from_expr(TimeOfMonth, self.day_of_month, first=1)
+        day_of_week = self._get_period_from_expr(TimeOfWeek, self.day_of_week, conv=self._convert_day_of_week, first=1)
 
         if day_of_month is not always and day_of_week is not always:
             # Both specified: OR
@@ -106,6 +116,6 @@ class Cron(TimePeriod):
         return (
             (self._get_period_from_expr(TimeOfHour, self.minute) & minutely)
             & self._get_period_from_expr(TimeOfDay, self.hour)
-            & self._get_period_from_expr(TimeOfYear, self.month)
+            & self._get_period_from_expr(TimeOfYear, self.month, first=1)
             & day_of_week_month
         )
-- 
2.43.0


From bfb37402dc66fe16ab0d9594b4bc58a3490240d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:27 +0000
Subject: [PATCH 04/54] fix: Cron day of week steps are counted from Sunday as
 in cron

---
 rocketry/time/cron.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rocketry/time/cron.py b/rocketry/time/cron.py
index 80bd2e5..3b5e1d4 100644
--- a/rocketry/time/cron.py
+++ b/rocketry/time/cron.py
@@ -37,7 +37,7 @@ class Cron(TimePeriod):
         "Get previous time interval of the period."
         return self.get_subperiod().rollback(dt)
 
-    def _get_period_from_expr(self, cls, expression:str, conv:Callable=None, default=always, first:int=0):
+    def _get_period_from_expr(self, cls, expression:str, conv:Callable=None, default=always, first:int=0, full:str=None):
 
         conv = (lambda i: i) if conv is None else conv
         exprs = expression.split(",")
@@ -48,7 +48,9 @@ class Cron(TimePeriod):
         for expr in exprs:
             if "/" in expr:
                 expr, step = expr.split("/")
-                step_period = cls.create_range(step=int(step))
+                if expr == "*" and full is not None:
+                    # The steps are counted from the first value of the field
+                    expr = full
             else:
                 step = None
 
@@ -104,7 +106,8 @@ class Cron(TimePeriod):
         minutely = TimeOfMinute()
 
         day_of_month = self._get_period_from_expr(TimeOfMonth, self.day_of_month, first=1)
-        day_of_week = self._get_period_from_expr(TimeOfWeek, self.day_of_week, conv=self._convert_day_of_week, first=1)
+        # In cron, the week starts from Sunday
+        day_of_week = self._get_period_from_expr(TimeOfWeek, self.day_of_week, conv=self._convert_day_of_week, first=1, full="0-6")
 
         if day_of_month is not always and day_of_week is not always:
             # Both specified: OR
-- 
2.43.0


From ad23f1fb9886e9d4c869dd62677c8742b1ac935c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:53 +0000
Subject: [PATCH 05/54] fix: comparing a condition changed the condition it was
 made from

---
 rocketry/core/condition/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/core/condition/base.py b/rocketry/core/condition/base.py
index 1c0cc50..b63766f 100644
--- a/rocketry/core/condition/base.py
+++ b/rocketry/core/condition/base.py
@@ -337,7 +337,7 @@ class BaseComparable(BaseCondition):
 
     def _set_comparison(self, key, val):
         obj = copy(self)
-        obj._comps[key] = val
+        obj._comps = {**self._comps, key: val}
         return obj
 
     @classmethod
-- 
2.43.0


From 52b8c87065c99da1f859d5c8c16a0f568f7a6ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:08 +0000
Subject: [PATCH 06/54] fix: a run ended by a restart or an exit request is
 logged under its own run

---
 rocketry/core/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index a3bd0b3..87e3353 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -603,7 +603,7 @@ class Task(RedBase, BaseModel):
             self.process_success(output)
         except (SchedulerRestart, SchedulerExit):
             # SchedulerRestart is considered as successful task
-            self.log_success(task_run)
+            self.log_success(task_run=task_run)
             status = "succeeded"
             self.process_success(None)
             exc_info = sys.exc_info()
-- 
2.43.0


From 62c66f4ff72bb4f120fe9d65c841ddcf0bc8ba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:37 +0000
Subject: [PATCH 07/54] fix: an async task that crashes before its function
 stayed running for ever

---
 rocketry/core/task.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 87e3353..4c1a56c 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -583,14 +583,20 @@ class Task(RedBase, BaseModel):
         else:
             hooks = self.session.hooks.task_execute
         hooker = _Hooker(hooks)
-        hooker.prerun(task=self)
 
         status = None
         output = None
         exc_info = (None, None, None)
-        params = self.postfilter_params(params)
-        params = Parameters(params) | Parameters(direct_params)
-        params = params.materialize(task=self, session=self.session)
+        try:
+            hooker.prerun(task=self)
+            params = self.postfilter_params(params)
+            params = Parameters(params) | Parameters(direct_params)
+            params = params.materialize(task=self, session=self.session)
+        except Exception:
+            if execution == "async":
+                # Nothing awaits the run thus nothing else logs this
+                self.log_failure(task_run)
+            raise
 
         try:
             if inspect.iscoroutinefunction(self.execute):
-- 
2.43.0


From 4aa5b759fb72186bd5767d9175b751094801b615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:06 +0000
Subject: [PATCH 08/54] fix: thread and process runs that crash outside the
 function are logged under their own run and only once

---
 rocketry/core/task.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 4c1a56c..6b38666 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -689,7 +689,7 @@ class Task(RedBase, BaseModel):
             # Logging failed
             task_run.exception = exc
             try:
-                self.log_failure()
+                self.log_failure(task_run)
             except Exception:
                 pass
             # Note that we don't raise the error as there is nothing
@@ -700,10 +700,13 @@ class Task(RedBase, BaseModel):
 
         try:
             output = self._run_as_main(params=params, direct_params=direct_params, task_run=task_run, execution="thread")
+        except (SchedulerRestart, SchedulerExit):
+            # Already logged as a success and there is nothing to raise it to
+            pass
         except Exception:
             # Task crashed before actually running the execute.
             try:
-                self.log_failure()
+                self.log_failure(task_run)
             except TaskLoggingError as exc:
                 task_run.exception = exc
 
@@ -780,9 +783,12 @@ class Task(RedBase, BaseModel):
             # NOTE: The parameters are "materialized"
             # here in the actual process that runs the task
             output = self._run_as_main(params=params, direct_params=direct_params, task_run=task_run, execution="process", hooks=exec_hooks)
+        except (SchedulerRestart, SchedulerExit):
+            # Already logged as a success and there is nothing to raise it to
+            pass
         except Exception as exc:
             # Task crashed before running execute (silence=True)
-            self.log_failure()
+            self.log_failure(task_run)
 
             # There is nothing to raise it
             # to :(
-- 
2.43.0


From 21444ea05e13050261284bec795f5def3421a166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:32 +0000
Subject: [PATCH 09/54] fix: terminating a task no longer records a termination
 for runs that had already finished

---
 rocketry/core/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 6b38666..2b3f07a 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1030,7 +1030,8 @@ class Task(RedBase, BaseModel):
     async def _terminate_all(self, reason=None):
         "Terminate the whole run stack"
         for run in self._run_stack:
-            await self._terminate_run(run, reason=reason)
+            if run.is_alive():
+                await self._terminate_run(run, reason=reason)
         self._clean_run_stack()
         self.force_termination = False
         #self._run_stack = [] # Does not work with threads
-- 
2.43.0


From 78f27711c09203e23b30b247f9bad3447b9cef53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:35 +0000
Subject: [PATCH 10/54] fix: querying the status of a task that starts on
 another task's outcome crashed

---
 rocketry/core/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 2b3f07a..4513286 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1366,13 +1366,13 @@ class Task(RedBase, BaseModel):
         session = self.session
 
         if isinstance(cond, (TaskSucceeded, TaskFinished)):
-            if session[cond.kwargs["task"]] is self:
+            if cond.task is None or session[cond.task] is self:
                 return cond.period
 
         elif isinstance(cond, All):
             task_periods = []
             for sub_stmt in cond:
-                if isinstance(sub_stmt, (TaskFinished, TaskFinished)) and session[sub_stmt.kwargs["task"]] is self:
+                if isinstance(sub_stmt, TaskFinished) and (sub_stmt.task is None or session[sub_stmt.task] is self):
                     task_periods.append(sub_stmt.period)
             if task_periods:
                 return AllTime(*task_periods)
-- 
2.43.0


From 5e91748cee66f5bb413d684d3363eeb61ba9d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:35 +0000
Subject: [PATCH 11/54] fix: retry condition crashed when the log records are
 dicts

---
 rocketry/conditions/task/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/conditions/task/task.py b/rocketry/conditions/task/task.py
index 2e49de3..0af4d90 100644
--- a/rocketry/conditions/task/task.py
+++ b/rocketry/conditions/task/task.py
@@ -474,7 +474,7 @@ class Retry(BaseCondition):
             action=in_(['success', 'crash', 'inaction', 'terminate'])
         ).last()
 
-        last_non_fail_created = 0 if last_non_fail is None else last_non_fail.created
+        last_non_fail_created = 0 if last_non_fail is None else get_field_value(last_non_fail, "created")
 
         n_failed_in_row = task.logger.filter_by(
             created=greater_equal(last_non_fail_created),
-- 
2.43.0


From c765c3e698cec5e0297070011e84dbb170eed1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:35 +0000
Subject: [PATCH 12/54] fix: running condition follows the settings of the
 session it is observed in

---
 rocketry/conditions/task/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/conditions/task/task.py b/rocketry/conditions/task/task.py
index 0af4d90..53ea705 100644
--- a/rocketry/conditions/task/task.py
+++ b/rocketry/conditions/task/task.py
@@ -167,7 +167,7 @@ class TaskRunning(BaseComparable):
     def get_measurement(self, task=Task(default=None), session=Session()):
         task = session[self.task] if self.task is not None else task
 
-        allow_optimization = not self.session.config.force_status_from_logs
+        allow_optimization = not session.config.force_status_from_logs
         start, end = get_period_span(self.period, session=session)
         if allow_optimization:
             task = session[self.task] if self.task is not None else task
-- 
2.43.0


From 7d18c1eb0fb8e17eb31192f564650f801cf2add4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:35 +0000
Subject: [PATCH 13/54] fix: task status conditions follow the settings of the
 session they are observed in

---
 rocketry/conditions/task/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/conditions/task/utils.py b/rocketry/conditions/task/utils.py
index 637e424..9439526 100644
--- a/rocketry/conditions/task/utils.py
+++ b/rocketry/conditions/task/utils.py
@@ -63,7 +63,7 @@ class TaskStatusMixin(BaseComparable):
         task = session[self.task] if self.task is not None else task
         _start_, _end_ = get_period_span(self.period if self.period is not None else task.period, session=session)
 
-        allow_optimization = not self.session.config.force_status_from_logs
+        allow_optimization = not session.config.force_status_from_logs
 
         if allow_optimization:
 
-- 
2.43.0


From acf10b45edb22f9d54771c567e91ff4cd853753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:35 +0000
Subject: [PATCH 14/54] fix: running given tasks left the others disabled if a
 new task appeared meanwhile

---
 rocketry/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/session.py b/rocketry/session.py
index 8c315d3..d4f3fbf 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -310,7 +310,7 @@ class Session(RedBase):
             self.config.shut_cond = orig_shut_cond
             # Set back the disabled, execution etc.
             for task in self.tasks:
-                task.__dict__.update(orig_vals[task.name])
+                task.__dict__.update(orig_vals.get(task.name, {}))
 
     def restart(self):
         """Restart the scheduler
-- 
2.43.0


From a1271238d5e387a45f59b626bb295ae76bac019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:50 +0000
Subject: [PATCH 15/54] fix: a task starting on a finish without a period could
 not be queried

---
 rocketry/core/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 4513286..aa8d31d 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1373,7 +1373,8 @@ class Task(RedBase, BaseModel):
             task_periods = []
             for sub_stmt in cond:
                 if isinstance(sub_stmt, TaskFinished) and (sub_stmt.task is None or session[sub_stmt.task] is self):
-                    task_periods.append(sub_stmt.period)
+                    if sub_stmt.period is not None:
+                        task_periods.append(sub_stmt.period)
             if task_periods:
                 return AllTime(*task_periods)
 
-- 
2.43.0


From 441b681fdcb69122987c1228e9a623dc1a48f13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:45 +0000
Subject: [PATCH 16/54] fix: a parameter condition was never true as a part of
 a schedule

---
 rocketry/conditions/parameter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rocketry/conditions/parameter.py b/rocketry/conditions/parameter.py
index 326bee2..a343c1b 100644
--- a/rocketry/conditions/parameter.py
+++ b/rocketry/conditions/parameter.py
@@ -83,7 +83,10 @@ class ParamExists(BaseCondition):
         self.param_values = kwargs
 
     def __bool__(self):
-        params = self.session.parameters
+        return self.get_state(session=self.session)
+
+    def get_state(self, session=Session()):
+        params = session.parameters
         for key in self.param_keys:
             if key not in params:
                 return False
-- 
2.43.0


From 0f0141d61f1c9ad024a43ecec5f3076953e8033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:02 +0000
Subject: [PATCH 17/54] fix: a list command grew by its parameters on each run

---
 rocketry/tasks/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index d58a45c..75d7078 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -79,7 +79,7 @@ class CommandTask(Task):
             if isinstance(command, str):
                 command += f" {param} \"{val}\""
             else:
-                command += [param] + [val]
+                command = command + [param] + [val]
 
         # https://stackoverflow.com/a/5469427/13696660
         pipe = subprocess.Popen(command, **self.get_kwargs_popen())
-- 
2.43.0


From 0c9dde53a7381a0fd4d5870fba73296d550cbfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:02 +0000
Subject: [PATCH 18/54] fix: a command with parameters failed unless the form
 of its arguments was given

---
 rocketry/tasks/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index 75d7078..ca4ac7a 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -58,7 +58,7 @@ class CommandTask(Task):
         kwargs.update(self.kwds_popen)
         return kwargs
 
-    @validator('argform')
+    @validator('argform', always=True)
     def parse_argform(cls, value):
         return {
             "long": "--",
-- 
2.43.0


From f0a5f350c66be5f520cf409b3664b8ea5855159d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:02 +0000
Subject: [PATCH 19/54] fix: a command with a timeout always failed

---
 rocketry/tasks/command.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index ca4ac7a..0c2d926 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -83,8 +83,9 @@ class CommandTask(Task):
 
         # https://stackoverflow.com/a/5469427/13696660
         pipe = subprocess.Popen(command, **self.get_kwargs_popen())
+        timeout = self.timeout.total_seconds() if self.timeout is not None else None
         try:
-            outs, errs = pipe.communicate(timeout=self.timeout)
+            outs, errs = pipe.communicate(timeout=timeout)
         except subprocess.TimeoutExpired:
             # https://docs.python.org/3.3/library/subprocess.html#subprocess.Popen.communicate
             pipe.kill()
-- 
2.43.0


From 42eee58e212b5a8883f5f8e7c5cc5bd5b44b0e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:02 +0000
Subject: [PATCH 20/54] fix: a list command failed if a parameter was not a
 string

---
 rocketry/tasks/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index 0c2d926..523e8dd 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -79,7 +79,7 @@ class CommandTask(Task):
             if isinstance(command, str):
                 command += f" {param} \"{val}\""
             else:
-                command = command + [param] + [val]
+                command = command + [param, str(val)]
 
         # https://stackoverflow.com/a/5469427/13696660
         pipe = subprocess.Popen(command, **self.get_kwargs_popen())
-- 
2.43.0


From 4e98ca4fdbdd9bebb20bbe09a46cf77a6078c3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:02 +0000
Subject: [PATCH 21/54] fix: the string of a parameter condition looked for the
 letters of the name

---
 rocketry/conditions/parameter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rocketry/conditions/parameter.py b/rocketry/conditions/parameter.py
index a343c1b..3746102 100644
--- a/rocketry/conditions/parameter.py
+++ b/rocketry/conditions/parameter.py
@@ -100,6 +100,8 @@ class ParamExists(BaseCondition):
 
     @classmethod
     def _from_list(cls, l:Union[tuple, list]):
+        if isinstance(l, str):
+            l = [name.strip("'") for name in l.split("', '")]
         return cls(*l)
 
     @classmethod
-- 
2.43.0


From a129913554d117d3ea3aa2b598bde6c2687c43b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:37 +0000
Subject: [PATCH 22/54] fix: a crash after the outcome of a run or beside
 another run of the task gave the run wrong records

---
 rocketry/core/task.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index aa8d31d..b69caad 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -50,6 +50,7 @@ class TaskRun:
     start: float
     task: Union[asyncio.Task, threading.Thread, multiprocessing.Process, None]
     run_id: str = None
+    status: str = None # Latest action logged for the run
 
     # Thread related
     event_terminate: Optional[threading.Event] = None
@@ -531,9 +532,11 @@ class Task(RedBase, BaseModel):
             # and it did not reach to log_running
             if task_run.run_id is None:
                 task_run.run_id = self.get_run_id(task_run)
-            if self.status != "run":
+            if task_run.status is None:
                 self.log_running(task_run)
-            self.log_failure(task_run)
+            if task_run.status == "run":
+                # Otherwise the outcome is already logged
+                self.log_failure(task_run)
             raise TaskSetupError("Task failed before logging") from exc
         finally:
             # Clean up
@@ -704,11 +707,13 @@ class Task(RedBase, BaseModel):
             # Already logged as a success and there is nothing to raise it to
             pass
         except Exception:
-            # Task crashed before actually running the execute.
-            try:
-                self.log_failure(task_run)
-            except TaskLoggingError as exc:
-                task_run.exception = exc
+            # Task crashed outside the execute.
+            if task_run.status == "run":
+                # Otherwise the outcome is already logged
+                try:
+                    self.log_failure(task_run)
+                except TaskLoggingError as exc:
+                    task_run.exception = exc
 
             # We cannot rely the exception to main thread here
             # thus we supress to prevent unnecessary warnings.
@@ -787,8 +792,10 @@ class Task(RedBase, BaseModel):
             # Already logged as a success and there is nothing to raise it to
             pass
         except Exception as exc:
-            # Task crashed before running execute (silence=True)
-            self.log_failure(task_run)
+            # Task crashed outside the execute (silence=True)
+            if task_run.status == "run":
+                # Otherwise the outcome is already logged
+                self.log_failure(task_run)
 
             # There is nothing to raise it
             # to :(
@@ -1206,6 +1213,8 @@ class Task(RedBase, BaseModel):
         else:
             setattr(self, cache_attr, time_now)
             self.status = action
+            if task_run is not None:
+                task_run.status = action
 
     def get_last_success(self) -> datetime.datetime:
         """Get the lastest timestamp when the task succeeded."""
-- 
2.43.0


From 920b2f5118a8daaa2a3f832ce7366a7f80003c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:37 +0000
Subject: [PATCH 23/54] fix: a thread or process task calling sys.exit stayed
 running for ever

---
 rocketry/core/task.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index b69caad..626ac2d 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -706,8 +706,8 @@ class Task(RedBase, BaseModel):
         except (SchedulerRestart, SchedulerExit):
             # Already logged as a success and there is nothing to raise it to
             pass
-        except Exception:
-            # Task crashed outside the execute.
+        except (Exception, SystemExit):
+            # Task crashed outside the execute (or tried to exit).
             if task_run.status == "run":
                 # Otherwise the outcome is already logged
                 try:
@@ -791,8 +791,8 @@ class Task(RedBase, BaseModel):
         except (SchedulerRestart, SchedulerExit):
             # Already logged as a success and there is nothing to raise it to
             pass
-        except Exception as exc:
-            # Task crashed outside the execute (silence=True)
+        except (Exception, SystemExit):
+            # Task crashed outside the execute (silence=True) (or tried to exit)
             if task_run.status == "run":
                 # Otherwise the outcome is already logged
                 self.log_failure(task_run)
-- 
2.43.0


From 58965f58e33efcb55b92e077c412b611dcebb9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:37 +0000
Subject: [PATCH 24/54] fix: the return value of a process task was lost if
 another process task was starting

---
 rocketry/core/task.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 626ac2d..7ce39e5 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1079,6 +1079,10 @@ class Task(RedBase, BaseModel):
 
                 #self.logger.debug(f"Inserting record for '{record.task_name}' ({record.action})")
                 task = self.session[record.task_name]
+                if hasattr(record, "__return__"):
+                    # Another task succeeded
+                    task._handle_return(record.__return__)
+                    del record.__return__
                 try:
                     task.log_record(record)
                 except Exception as exc:
-- 
2.43.0


From d238f437040fdefa24bf7d5cc98d30615dfc336d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:37 +0000
Subject: [PATCH 25/54] fix: after a forced shut down the next runs of the
 session did not wait for their tasks

---
 rocketry/core/schedule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 3adb3fc..5e4bc9d 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -111,6 +111,7 @@ class Scheduler(RedBase):
         # Unsetting some flags
         self._flag_shutdown.clear()
         self._flag_restart.clear()
+        self._flag_force_exit.clear()
         self._flag_enabled.set()
 
         self.is_alive = True
-- 
2.43.0


From 03ed2c7982ad6bd5ec5364ef239846d7407fed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:37 +0000
Subject: [PATCH 26/54] fix: a process that finished just before its
 termination got two outcomes

---
 rocketry/core/task.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 7ce39e5..aef932b 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1053,7 +1053,10 @@ class Task(RedBase, BaseModel):
         else:
             if run.is_process:
                 # Threaded tasks handle their termination themselves
-                self.log_termination(reason=reason, task_run=run)
+                # Also, the process may have finished just before it was terminated
+                self.session.scheduler.handle_logs()
+                if run.status in (None, "run"):
+                    self.log_termination(reason=reason, task_run=run)
 
 # Logging
     def _lock_to_run_log(self, log_queue):
@@ -1132,6 +1135,9 @@ class Task(RedBase, BaseModel):
         # Set last_run/last_success/last_fail etc.
         cache_attr = f"_last_{record.action}"
         record_time = record.created
+        for run in self._run_stack:
+            if run.is_process and run.task.pid == record.process:
+                run.status = record.action
 
         try:
             self.logger.handle(record)
-- 
2.43.0


From 1548139974e2d20c32cf7add630ce3e70e0cf831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:49 +0000
Subject: [PATCH 27/54] fix: the outcome of a run had the start of another run
 or no start at all

---
 rocketry/core/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index aef932b..7f92954 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1191,7 +1191,8 @@ class Task(RedBase, BaseModel):
             }
             # self._last_run = now
         else:
-            start_time = self._get_last_action("run")
+            # NOTE: the last run may be another (ie. if multiple launches)
+            start_time = task_run.start if task_run is not None else self._get_last_action("run")
             runtime = time_now - start_time if start_time is not None else None
             extra = {"action": action, "start": start_time, "end": time_now, "runtime": runtime}
 
-- 
2.43.0


From 975362ce80dfac31c498a2b230afb544b744cc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:00 +0000
Subject: [PATCH 28/54] fix: a count compared with a number of another type was
 always true

---
 rocketry/core/condition/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/condition/base.py b/rocketry/core/condition/base.py
index b63766f..7f672cb 100644
--- a/rocketry/core/condition/base.py
+++ b/rocketry/core/condition/base.py
@@ -1,3 +1,4 @@
+import operator
 from copy import copy
 from abc import abstractmethod
 from typing import Callable, Dict, Pattern, Union
@@ -283,7 +284,7 @@ class BaseComparable(BaseCondition):
         if not compares:
             return res > 0
         return all(
-            getattr(res, comp)(val) # Comparison is magic method (==, !=, etc.)
+            getattr(operator, comp)(res, val) # Comparison is magic method (==, !=, etc.)
             for comp, val in compares.items()
         )
 
-- 
2.43.0


From fc7b7a764e52c5c459084d02cbdec7cf88a6edf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:35 +0000
Subject: [PATCH 29/54] fix: a run finished after the period looked at was
 taken as running

---
 rocketry/conditions/task/task.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rocketry/conditions/task/task.py b/rocketry/conditions/task/task.py
index 53ea705..3aaf7bb 100644
--- a/rocketry/conditions/task/task.py
+++ b/rocketry/conditions/task/task.py
@@ -1,7 +1,7 @@
 from typing import Optional
 import datetime
 
-from redbird.oper import in_, greater_equal, between
+from redbird.oper import in_, greater_equal
 
 from rocketry.core.condition import BaseCondition, BaseComparable
 from rocketry.log.utils import get_field_value
@@ -178,8 +178,9 @@ class TaskRunning(BaseComparable):
             ]
             return runs
 
+        # NOTE: the run must be in the period but it may have finished after the period
         records = task.logger.get_records(
-            created=between(to_timestamp(start), to_timestamp(end)),
+            created=greater_equal(to_timestamp(start)),
         )
         records = sorted(records, key=lambda x: get_field_value(x, "created"))
         runs = []
@@ -202,7 +203,7 @@ class TaskRunning(BaseComparable):
         for record in records:
             action = get_field_value(record, "action")
             is_run = action == "run"
-            if not is_run:
+            if not is_run or get_field_value(record, "created") > to_timestamp(end):
                 continue
             if has_run_id:
                 run_id = get_field_value(record, "run_id")
-- 
2.43.0


From 29967bb9b0732514b2a95413fbaff61da4f21467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:47 +0000
Subject: [PATCH 30/54] fix: a run finished at the time it started was taken as
 crashed after a restart

---
 rocketry/core/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 7f92954..beadb5b 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -950,9 +950,10 @@ class Task(RedBase, BaseModel):
             if getattr(self, f"_last_{name}") is not None
         }
         if times:
+            # NOTE: a quick run may have started and finished at the same (logged) time
             status = max(
                 times,
-                key=times.get
+                key=lambda name: (times[name], name != "run")
             )
             if status == "run":
                 # There has been a sudden crash
-- 
2.43.0


From 2b68d506100f29ae5f4accefdf51da82b7144c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:47 +0000
Subject: [PATCH 31/54] fix: a crash found at startup was not logged under the
 run that crashed

---
 rocketry/core/task.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index beadb5b..dae3d48 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -957,7 +957,9 @@ class Task(RedBase, BaseModel):
             )
             if status == "run":
                 # There has been a sudden crash
-                self.log_crash()
+                record = logger.get_latest(action="run")
+                run_id = record.get("run_id") if isinstance(record, dict) else getattr(record, "run_id", None)
+                self.log_crash(TaskRun(start=self._last_run, task=None, run_id=run_id))
             else:
                 self.status = status
 
-- 
2.43.0


From 395cd046916023f212d3d1f705422aaa2aa89973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:47 +0000
Subject: [PATCH 32/54] fix: startup tasks ran before the statuses of other
 tasks were read from the log

---
 rocketry/core/schedule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 5e4bc9d..5b1de5e 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -317,7 +317,9 @@ class Scheduler(RedBase):
                 self.logger.exception(f"Failed setting cache for task '{task.name}'")
                 if not self.session.config.silence_task_logging:
                     raise
-            
+
+        # NOTE: the startup tasks may depend on the status of any other task
+        for task in self.tasks:
             if task.on_startup:
                 if isinstance(task.start_cond, AlwaysFalse) and not task.disabled:
                     # Make sure the tasks run if start_cond not set
-- 
2.43.0


From ec57c81d16110b44bfef612932ad02e9c7eb9eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:09 +0000
Subject: [PATCH 33/54] fix: session parameters were given to custom tasks
 without materializing them for the task

---
 rocketry/core/utils/meta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/utils/meta.py b/rocketry/core/utils/meta.py
index 30b5b2b..57a6a42 100644
--- a/rocketry/core/utils/meta.py
+++ b/rocketry/core/utils/meta.py
@@ -7,7 +7,8 @@ def filter_keyword_args(_func, _params:dict=None, **kwargs):
     """Filter only keyword arguments that the
     function requires."""
     if _params:
-        kwargs.update(_params)
+        # NOTE: the arguments (in Parameters) are not to be materialized here
+        kwargs.update(_params.items())
     sig = inspect.signature(_func)
 
     kw_args = [
-- 
2.43.0


From 9da25328c523293a0025bba590774ad5a668bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:09 +0000
Subject: [PATCH 34/54] fix: giving a value to a parameter with an argument as
 its default crashed function arguments and conditions

---
 rocketry/args/builtin.py    | 2 +-
 rocketry/conditions/func.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rocketry/args/builtin.py b/rocketry/args/builtin.py
index 90b53b2..3865222 100644
--- a/rocketry/args/builtin.py
+++ b/rocketry/args/builtin.py
@@ -245,7 +245,7 @@ class FuncArg(BaseArgument):
     def __call__(self, **kwargs):
         param_kwargs = Parameters._from_signature(self.func)
         params = param_kwargs.materialize(**kwargs)
-        return self.func(*self.args, **params, **self.kwargs)
+        return self.func(*self.args, **{**params, **self.kwargs})
 
     def stage(self, **kwargs):
         session = kwargs['session']
diff --git a/rocketry/conditions/func.py b/rocketry/conditions/func.py
index 213f12b..45356cd 100644
--- a/rocketry/conditions/func.py
+++ b/rocketry/conditions/func.py
@@ -101,7 +101,7 @@ class FuncCond(BaseCondition):
     def observe(self, **kwargs) -> bool:
         func_params = Parameters._from_signature(self.func, **kwargs)
         param_dict = func_params.materialize(**kwargs)
-        return self.get_state(*self.args, **self.kwargs, **param_dict)
+        return self.get_state(*self.args, **{**param_dict, **self.kwargs})
 
     def get_state(self, *args, **kwargs):
         return self.func(*args, **kwargs)
-- 
2.43.0


From 74106c0c8e21768d8b3c6b432f553de2104d4563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:57 +0000
Subject: [PATCH 35/54] fix: a task parameter named as an option of the
 parameter set was lost

---
 rocketry/core/parameters/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/core/parameters/parameters.py b/rocketry/core/parameters/parameters.py
index dbb0ec0..43f3174 100644
--- a/rocketry/core/parameters/parameters.py
+++ b/rocketry/core/parameters/parameters.py
@@ -157,7 +157,7 @@ class Parameters(RedBase, Mapping): # Mapping so that mytask(**Parameters(...))
         right = other._params if isinstance(other, Parameters) else other
 
         params = {**left, **right}
-        return type(self)(**params)
+        return type(self)(params)
 
     def __eq__(self, other):
         "Whether parameters are equal"
-- 
2.43.0


From a922c7af88b07171aa822734ed7c8bdcc8bf2fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:01 +0000
Subject: [PATCH 36/54] fix: a failing shutdown hook left tasks running and the
 scheduler marked as alive

---
 rocketry/core/schedule.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 5b1de5e..387e45f 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -407,7 +407,6 @@ class Scheduler(RedBase):
 
         self.logger.debug("Beginning shutdown sequence...")
         hooker = _Hooker(self.session.hooks.scheduler_shutdown)
-        hooker.prerun(scheduler=self)
 
         # First the shut down tasks are run
         # Then all tasks are waited to finish or terminated
@@ -415,10 +414,11 @@ class Scheduler(RedBase):
         try:
             try:
                 try:
+                    hooker.prerun(scheduler=self)
                     await self.run_shutdown_tasks()
                 finally:
-                    # Tasks are shut down/waited for shut down regardless if running shutdown
-                    # tasks failed
+                    # Tasks are shut down/waited for shut down regardless if hooks or running
+                    # shutdown tasks failed
                     self.logger.debug("Shutting down tasks...")
                     await self._shut_down_tasks(traceback, exception)
             finally:
@@ -432,9 +432,11 @@ class Scheduler(RedBase):
                 self.check_thread_errors()
         finally:
             # Running hooks and finalize the shutdown
-            hooker.postrun()
-            self.is_alive = False
-            self.logger.info("Shutdown completed. Good bye.")
+            try:
+                hooker.postrun()
+            finally:
+                self.is_alive = False
+                self.logger.info("Shutdown completed. Good bye.")
 
         if isinstance(exception, SchedulerRestart):
             # Clean up finished, restart is finally
-- 
2.43.0


From 98781df9de92d3d4fe4cc4d0294ce27d525aea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:45 +0000
Subject: [PATCH 37/54] fix: forcing the shutdown (or calling it twice) did
 nothing once the scheduler waited for the tasks

---
 rocketry/core/schedule.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 387e45f..3479ffa 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -369,6 +369,10 @@ class Scheduler(RedBase):
                     #time.sleep(self.min_sleep)
 
                     await self._hibernate() # This is the time async tasks can continue
+                    if self._flag_force_exit.is_set():
+                        # Shut down was called again (or forced) when waiting
+                        await self.terminate_all(reason="Forced shutdown of the scheduler")
+                        break
 
                     self.handle_logs()
                     for task in self.tasks:
-- 
2.43.0


From 88875c4088d3a5f6a7782fd39d2492cd234f40a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:03 +0000
Subject: [PATCH 38/54] fix: a process that crashed in its setup got an extra
 failure without a run in the log

---
 rocketry/core/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index dae3d48..e678f2a 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1079,7 +1079,7 @@ class Task(RedBase, BaseModel):
             except Empty:
                 if not self.is_alive():
                     # There will be no "run" log record thus ending the task gracefully
-                    self.logger.critical(f"Task '{self.name}' crashed in setup", extra={"action": "fail"})
+                    # (the run and its failure are logged when this is handled)
                     raise TaskSetupError(f"Task '{self.name}' process crashed silently")
             else:
 
-- 
2.43.0


From 3c9cb374e2c1e9dbb4e8a118d0c2b146867876de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:21 +0000
Subject: [PATCH 39/54] fix: the scheduler crashed if a task was removed while
 its process was running

---
 rocketry/core/schedule.py | 21 ++++++++++++++++++---
 rocketry/core/task.py     | 11 ++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 3479ffa..cba31b6 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -264,7 +264,8 @@ class Scheduler(RedBase):
                 break
             else:
                 self.logger.debug(f"Inserting record for '{record.task_name}' ({record.action})")
-                task = self.session[record.task_name]
+                # NOTE: the task may have been removed while it was running
+                task = self.session[record.task_name] if record.task_name in self.session else None
                 if record.action == "fail":
                     # There is a caveat in logging
                     # https://github.com/python/cpython/blame/fad6af2744c0b022568f7f4a8afc93fed056d4db/Lib/logging/handlers.py#L1383
@@ -283,9 +284,13 @@ class Scheduler(RedBase):
                     # Take the return value from the record and delete
                     # Note that record has attr __return__ only if task running as process
                     return_value = record.__return__
-                    task._handle_return(return_value)
+                    if task is not None:
+                        task._handle_return(return_value)
                     del record.__return__
-                self._log_task(task, "log_record", record)
+                if task is not None:
+                    self._log_task(task, "log_record", record)
+                else:
+                    self._log_removed_task(record)
 
     async def _hibernate(self):
         """Go to sleep and wake up when next task can be executed."""
@@ -525,6 +530,16 @@ class Scheduler(RedBase):
             if not self.session.config.silence_task_logging:
                 raise
 
+    def _log_removed_task(self, record):
+        "Log a record of a task that is no longer in the session (there is only the log to update)"
+        logger = logging.getLogger(self.session.config.task_logger_basename)
+        try:
+            logger.handle(record)
+        except Exception:
+            self.logger.exception(f"Logging failed for removed task '{record.task_name}'")
+            if not self.session.config.silence_task_logging:
+                raise
+
     def check_thread_errors(self):
         silence_logging = self.session.config.silence_task_logging
         if not silence_logging:
diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index e678f2a..445529e 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1084,13 +1084,18 @@ class Task(RedBase, BaseModel):
             else:
 
                 #self.logger.debug(f"Inserting record for '{record.task_name}' ({record.action})")
-                task = self.session[record.task_name]
+                # NOTE: the other task may have been removed while it was running
+                task = self.session[record.task_name] if record.task_name in self.session else None
                 if hasattr(record, "__return__"):
                     # Another task succeeded
-                    task._handle_return(record.__return__)
+                    if task is not None:
+                        task._handle_return(record.__return__)
                     del record.__return__
                 try:
-                    task.log_record(record)
+                    if task is not None:
+                        task.log_record(record)
+                    else:
+                        self.session.scheduler._log_removed_task(record)
                 except Exception as exc:
                     # It must be made sure the task is set running
                     # so we ignore logging errors until that's sure
-- 
2.43.0


From 2a74586e68ce421b04be3c5ede44875af2b953ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:25 +0000
Subject: [PATCH 40/54] fix: a condition text with a missing operator or
 operand lost parts of it silently

---
 rocketry/parse/utils/string_parser.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/rocketry/parse/utils/string_parser.py b/rocketry/parse/utils/string_parser.py
index 4a85bb7..fe04c9b 100644
--- a/rocketry/parse/utils/string_parser.py
+++ b/rocketry/parse/utils/string_parser.py
@@ -5,6 +5,7 @@ from typing import Callable, Dict, List
 
 from rocketry.pybox.string.parse import ClosureParser
 from rocketry.pybox.container.visitor import Visitor
+from .exception import ParserError
 
 
 class InstructionParser:
@@ -63,6 +64,8 @@ class InstructionParser:
         v = Visitor(visit_types=(list, tuple))
         s = v.flatten(s)
 
+        self._validate(s)
+
         #s = self._assemble_not(s)
         #s = self._assemble_and(s)
         #s = self._assemble_or(s)
@@ -77,6 +80,21 @@ class InstructionParser:
 
         return s[0] if isinstance(s, tuple) else s
 
+    def _validate(self, s):
+        "Make sure the operators have their operands and that the operands are joined with operators"
+        sides = {oper["symbol"]: oper["side"] for oper in self.operators}
+        has_operand = False # Whether there is an operand on the left
+        for e in s:
+            side = sides[e] if isinstance(e, str) else None
+            needs_operand = side in ("both", "left")
+            if has_operand and not needs_operand:
+                raise ParserError("Invalid expression: missing an operator")
+            if needs_operand and not has_operand:
+                raise IndexError("Invalid expression: missing an operand")
+            has_operand = side in (None, "left")
+        if not has_operand:
+            raise IndexError("Invalid expression: missing an operand")
+
     def _assemble_oper(self, s:list, oper_str:str, oper_func:Callable, side="both"):
         s = list(reversed(s))
         while self._contains_operator(s, oper_str):
-- 
2.43.0


From 4d0695f09fb36b6823ddb1547063e75d45605998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:26 +0000
Subject: [PATCH 41/54] fix: a condition text with whitespace around its
 parentheses was refused

---
 rocketry/pybox/string/parse/closure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rocketry/pybox/string/parse/closure.py b/rocketry/pybox/string/parse/closure.py
index f4560f3..bdd9c8e 100644
--- a/rocketry/pybox/string/parse/closure.py
+++ b/rocketry/pybox/string/parse/closure.py
@@ -32,8 +32,8 @@ class ClosureParser:
 
             start, end = self.find_outer_indices(string)
 
-            # Add left residual
-            if string[:start]:
+            # Add left residual (if there is something)
+            if string[:start].strip():
                 res.append(string[:start])
 
             substr = string[slice(start + len_open, end)]
@@ -42,7 +42,7 @@ class ClosureParser:
             string = string[end+len_close:]
 
         # Add residual
-        if string:
+        if string.strip():
             res.append(string)
         return res
 
-- 
2.43.0


From 604a6924825de7fa0e54d94020550a00b950793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:57 +0000
Subject: [PATCH 42/54] fix: the condition texts always and never crashed

---
 rocketry/parse/_setup_cond_parsers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rocketry/parse/_setup_cond_parsers.py b/rocketry/parse/_setup_cond_parsers.py
index 856e21d..e905f00 100644
--- a/rocketry/parse/_setup_cond_parsers.py
+++ b/rocketry/parse/_setup_cond_parsers.py
@@ -7,6 +7,7 @@ from rocketry.conditions.time import IsPeriod
 from rocketry.conditions.parameter import ParamExists, IsEnv
 
 from rocketry.time.construct import get_full_cycle, get_between, get_after, get_before
+from rocketry.core.time.base import TimePeriod
 from rocketry.time import TimeDelta
 
 from rocketry.session import Session
@@ -43,7 +44,8 @@ def _from_period_task_has(cls, span_type=None, inverse=False, **kwargs):
 def _set_is_period_parsing():
 
     def _get_is_period(period_constructor, *args, **kwargs):
-        period = period_constructor(*args, **kwargs)
+        is_period = isinstance(period_constructor, TimePeriod) # ie. "always"
+        period = period_constructor if is_period else period_constructor(*args, **kwargs)
         return IsPeriod(period=period)
 
     cond_parsers = Session._cls_cond_parsers
-- 
2.43.0


From f97d8cae9901b1dd6fccb753bfbbab06d2ac5320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:05 +0000
Subject: [PATCH 43/54] fix: has ... starting a week day or month day meant
 that day only

---
 rocketry/time/construct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/time/construct.py b/rocketry/time/construct.py
index 9685ce4..988fa6c 100644
--- a/rocketry/time/construct.py
+++ b/rocketry/time/construct.py
@@ -50,4 +50,4 @@ def get_on(type_, start):
 def get_full_cycle(type_, start=None):
     type_ = type_.lower()
     cls = TIME_CLASSES[type_]
-    return cls(start, start)
+    return cls.starting(start)
-- 
2.43.0


From aa64178e537fc4858256d025f23ae93492826815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:22 +0000
Subject: [PATCH 44/54] fix: the runtime of the task log records was a
 millionth of the time the task ran

---
 rocketry/log/log_record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/log/log_record.py b/rocketry/log/log_record.py
index da321e9..27f4b1a 100644
--- a/rocketry/log/log_record.py
+++ b/rocketry/log/log_record.py
@@ -60,7 +60,7 @@ class TaskLogRecord(MinimalRecord):
     @validator("runtime", pre=True)
     def format_runtime(cls, value):
         if value is not None:
-            value = to_timedelta(value)
+            value = to_timedelta(value, unit="s")
         return value
 
 class MinimalRunRecord(MinimalRecord):
-- 
2.43.0


From a08facd3e1dd53a56e33d183469fc2a50c2e003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:58 +0000
Subject: [PATCH 45/54] fix: a command that never times out always failed

---
 rocketry/tasks/command.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index 523e8dd..89ed41a 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -1,4 +1,5 @@
 
+import datetime
 import subprocess
 from typing import List, Optional, Union
 
@@ -83,7 +84,8 @@ class CommandTask(Task):
 
         # https://stackoverflow.com/a/5469427/13696660
         pipe = subprocess.Popen(command, **self.get_kwargs_popen())
-        timeout = self.timeout.total_seconds() if self.timeout is not None else None
+        has_timeout = self.timeout is not None and self.timeout != datetime.timedelta.max # Max: timeout="never"
+        timeout = self.timeout.total_seconds() if has_timeout else None
         try:
             outs, errs = pipe.communicate(timeout=timeout)
         except subprocess.TimeoutExpired:
-- 
2.43.0


From c4f13910a21d54c828dcdd0b25f32c1962689d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:59 +0000
Subject: [PATCH 46/54] fix: including a group dropped or refused tasks over
 names the app did not have

---
 rocketry/application.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rocketry/application.py b/rocketry/application.py
index 4ebfefd..40a575c 100644
--- a/rocketry/application.py
+++ b/rocketry/application.py
@@ -33,8 +33,9 @@ class _AppMixin:
 
     def include_grouper(self, group:'Grouper'):
         for task in group.session.tasks:
-            if group.prefix:
-                task.name = group.prefix + task.name
+            # The name is checked with the session the task is included to
+            task.session = self.session
+            task.name = (group.prefix or "") + task.name
             if group.start_cond is not None:
                 task.start_cond &= group.start_cond
             task.execution = group.execution if task.execution is None else task.execution
-- 
2.43.0


From 75fc9daa06e640eb8ecdb4f1a85fb6801d018488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:56 +0000
Subject: [PATCH 47/54] fix: quarters of an hour are off by a microsecond when
 rolling, and the zeroth is refused

---
 rocketry/time/interval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rocketry/time/interval.py b/rocketry/time/interval.py
index 8d060bb..dbd13ec 100644
--- a/rocketry/time/interval.py
+++ b/rocketry/time/interval.py
@@ -103,11 +103,11 @@ class TimeOfHour(AnchoredInterval):
                 res["microsecond"] = res["microsecond"].ljust(6, "0")
             return to_microseconds(**{key: int(val) for key, val in res.items() if val is not None})
 
-        res = re.search(r"(?P<n>[0-4]) ?(quarter|q)", s, flags=re.IGNORECASE)
+        res = re.fullmatch(r"(?P<n>[0-4]) ?(quarter|q)", s, flags=re.IGNORECASE)
         if res:
             # ie. "1 quarter"
             n_quarters = int(res["n"])
-            return (self._scope_max + 1) / 4 * n_quarters - 1
+            return self._scope_max // 4 * n_quarters
         raise ValueError(f"Invalid value: {repr(s)}")
 
 @dataclass(frozen=True, init=False)
-- 
2.43.0


From 031c4cea909771f7a90df3ac2a5f0856fdb8dd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:56 +0000
Subject: [PATCH 48/54] fix: texts that name no second of an hour or no day of
 a month are taken for another one

---
 rocketry/time/interval.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rocketry/time/interval.py b/rocketry/time/interval.py
index dbd13ec..0a81cd7 100644
--- a/rocketry/time/interval.py
+++ b/rocketry/time/interval.py
@@ -96,7 +96,7 @@ class TimeOfHour(AnchoredInterval):
 
     def anchor_str(self, s, **kwargs):
         # ie. 12:30.123
-        res = re.search(r"(?P<minute>[0-9][0-9]):(?P<second>[0-9][0-9])([.](?P<microsecond>[0-9]{0,6}))?", s, flags=re.IGNORECASE)
+        res = re.search(r"(?P<minute>[0-9][0-9]):(?P<second>[0-5][0-9])([.](?P<microsecond>[0-9]{0,6}))?", s, flags=re.IGNORECASE)
         if res:
             res = res.groupdict()
             if res["microsecond"] is not None:
@@ -302,6 +302,8 @@ class TimeOfMonth(FloatingMixin, AnchoredInterval):
         dayofmonth = comps.pop("dayofmonth")
         time = comps.pop("time")
         nth_day = int(dayofmonth)
+        if not 1 <= nth_day <= 31:
+            raise ValueError("Invalid day of month. Day of month can be from 1 to 31")
 
         # TODO: TimeOfDay.anchor_str as function
         ceil_time = not time and side == "end"
-- 
2.43.0


From 9352e8922871fddca807a0ac330f0e85e87a71d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:56 +0000
Subject: [PATCH 49/54] fix: day given as the end of a year period is left out,
 and days missing from the month are taken for later ones

---
 rocketry/time/interval.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rocketry/time/interval.py b/rocketry/time/interval.py
index 0a81cd7..6aa5996 100644
--- a/rocketry/time/interval.py
+++ b/rocketry/time/interval.py
@@ -411,7 +411,10 @@ class TimeOfYear(FloatingMixin, AnchoredInterval):
             # time between 1st of May to 30th of June.
             return self._month_start_mapping[nth_month+1] - 1
         if day_of_month_str:
-            microseconds = TimeOfMonth().anchor_str(day_of_month_str)
+            month_length = self._month_start_mapping[nth_month+1] - self._month_start_mapping[nth_month]
+            if TimeOfMonth().anchor_str(day_of_month_str) >= month_length:
+                raise ValueError(f"Invalid day of month: {repr(s)}")
+            microseconds = TimeOfMonth().anchor_str(day_of_month_str, side=side)
         else:
             microseconds = 0
 
-- 
2.43.0


From d779729645fcafa54e1659bfb069b6fbec60fdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:20 +0000
Subject: [PATCH 50/54] fix: task creation hooks are those of the session of
 the task

The hooks of the default session were run instead of the hooks of the
session the task was created to.
---
 rocketry/core/task.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 445529e..c8f1dcb 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -305,8 +305,9 @@ class Task(RedBase, BaseModel):
 
     def __init__(self, **kwargs):
 
-        hooker = _Hooker(self.session.hooks.task_init)
-        hooker.prerun(task=self)
+        session = self.session if kwargs.get("session") is None else kwargs["session"]
+        hooker = _Hooker(session.hooks.task_init)
+        hooker.prerun(task=self, session=session)
 
         if kwargs.get("session") is None:
             warnings.warn("Task's session not defined. Creating new.", UserWarning)
-- 
2.43.0


From 1464b3baacae1b8f20e026c421db1aeab6449197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:46 +0000
Subject: [PATCH 51/54] fix: restarting 'fresh' starts the program, not a bare
 interpreter, outside Windows

---
 rocketry/core/schedule.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index cba31b6..ad088d0 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -473,8 +473,9 @@ class Scheduler(RedBase):
             if platform.system() == "Windows":
                 subprocess.Popen([python, *sys.argv], shell=False, close_fds=True, creationflags=subprocess.CREATE_NEW_CONSOLE)
             else:
-                # Linux does not have CREATE_NEW_CONSOLE creation flag but shell=True is pretty close
-                subprocess.Popen([python, *sys.argv], shell=True, close_fds=True)
+                # Linux does not have CREATE_NEW_CONSOLE creation flag but a new session is pretty close
+                # NOTE: with shell=True only the interpreter would be started (without the arguments)
+                subprocess.Popen([python, *sys.argv], shell=False, close_fds=True, start_new_session=True)
         elif restarting == "recall":
             # Mostly useful for testing.
             # Restart by calling the self.__call__ again
-- 
2.43.0


From 25a250b99f0903b888898b00d878eeff0b5fe6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:53 +0000
Subject: [PATCH 52/54] fix: a task that cannot be pickled for its process is
 recorded once

---
 rocketry/core/task.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index c8f1dcb..09ffbf4 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -746,9 +746,10 @@ class Task(RedBase, BaseModel):
 
         self._run_stack.append(task_run)
         self._mark_running = True # needed in pickling
-
-        process.start()
-        self._mark_running = False
+        try:
+            process.start()
+        finally:
+            self._mark_running = False
 
         self._lock_to_run_log(log_queue)
         return log_queue
@@ -1363,9 +1364,8 @@ class Task(RedBase, BaseModel):
                 #   - If FuncTask func is non-picklable
                 #       - There is another func with same name in the file
                 #       - The function is lambda or decorated func
+                # NOTE: the run is logged (as failed) by start_async
                 unpicklable = {key: val for key, val in state.items() if not is_pickleable(val)}
-                self.log_running()
-                self.logger.critical(f"Task '{self.name}' crashed in pickling. Cannot pickle: {unpicklable}", extra={"action": "fail", "task_name": self.name})
                 raise PicklingError(f"Task {self.name} could not be pickled. Cannot pickle: {unpicklable}")
             # Is pickled by something else than task execution
             return state
-- 
2.43.0


From 8be2bb9907c249e8c71cf592a22e366b490cdd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:30 +0000
Subject: [PATCH 53/54] fix: rolling back a union at the first instant of a
 part gave an empty interval

---
 rocketry/core/time/base.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/time/base.py b/rocketry/core/time/base.py
index b4e8815..e9bb3c9 100644
--- a/rocketry/core/time/base.py
+++ b/rocketry/core/time/base.py
@@ -454,14 +454,24 @@ class Any(TimePeriod):
         curr_interval = intervals.pop(0)
         end_interval = curr_interval
 
+        # The end may belong to the interval (ie. it is a single point)
+        closed_end = any(
+            interv.closed in ('right', 'both')
+            for interv in (end_interval, *intervals)
+            if interv.right == end_interval.right
+        )
+
         for interv in intervals:
             extends = interv.left < curr_interval.left
-            if extends and interv.overlaps(curr_interval):
+            # A single point continues the interval that ends to it
+            continues = curr_interval.left == curr_interval.right == interv.right
+            if extends and (continues or interv.overlaps(curr_interval)):
                 curr_interval = interv
 
         return Interval(
             curr_interval.left,
-            end_interval.right
+            end_interval.right,
+            closed="both" if closed_end else "left"
         )
 
     def rollforward(self, dt):
-- 
2.43.0


From 703a7877db16d755e5ba5cd98ab554a91c32cb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:30 +0000
Subject: [PATCH 54/54] fix: a run by hand that fails leaves no request to run
 behind

---
 rocketry/session.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rocketry/session.py b/rocketry/session.py
index d4f3fbf..b034612 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -288,6 +288,7 @@ class Session(RedBase):
         from rocketry.conditions.scheduler import SchedulerCycles
 
         orig_vals = {}
+        requests = []
         for task in self.tasks:
             name = task.name
             orig_vals[name] = {
@@ -297,6 +298,7 @@ class Session(RedBase):
             if name in task_names:
                 if not obey_cond:
                     task.run()
+                    requests.append((task, task.batches[-1]))
                 if execution is not None:
                     task.execution = execution
             else:
@@ -311,6 +313,9 @@ class Session(RedBase):
             # Set back the disabled, execution etc.
             for task in self.tasks:
                 task.__dict__.update(orig_vals.get(task.name, {}))
+            # The requests may be unused (ie. the startup crashed)
+            for task, request in requests:
+                task.batches[:] = [batch for batch in task.batches if batch is not request]
 
     def restart(self):
         """Restart the scheduler
-- 
2.43.0

