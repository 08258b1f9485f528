From a85f69cbee23fccc28679e6a526b6fa0af18368a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 01/37] fix: apply random_seed before anything is drawn, also
 when it is 0

The peak time range drawn at construction (when both dates are given) was not
under control of the seed, and a seed of 0 was ignored.
---
 ramp/core/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 1578c93..d1835dc 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -98,6 +98,10 @@ class UseCase:
         self.daily_profiles = None
         self.random_seed = random_seed
 
+        # Set global random seed if it is specified
+        if self.random_seed is not None:
+            random.seed(self.random_seed)
+
         self.appliances = []
         self.users = []
         if users is None:
@@ -108,10 +112,6 @@ class UseCase:
         if self.date_start is not None and self.date_end is not None:
             self.initialize()
 
-        # Set global random seed if it is specified
-        if self.random_seed:
-            random.seed(self.random_seed)
-
     @property
     def date_start(self):
         """Start date of the daily profiles generated by the UseCase instance"""
-- 
2.43.0


From f67425903cc91746abc1f3af04e06e773abd435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 02/37] fix: compute the peak time range when the peak window
 is a single minute

np.squeeze returned a 0-dimensional array which cannot be indexed.
---
 ramp/core/core.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index d1835dc..4f8b8d9 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -363,9 +363,7 @@ class UseCase:
         for user in self.users:
             tot_max_profile = tot_max_profile + user.maximum_profile
         # Find the peak window within the theoretical max profile
-        peak_window = np.squeeze(
-            np.argwhere(tot_max_profile == np.amax(tot_max_profile))
-        )
+        peak_window = np.flatnonzero(tot_max_profile == np.amax(tot_max_profile))
         # Within the peak_window, randomly calculate the peak_time using a gaussian distribution
         peak_time = round(
             random.normalvariate(
-- 
2.43.0


From a1158d4ba617a19cf5a6e171448baab79e274545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 03/37] fix: check power values of appliances added after the
 use case was created

Users added with add_user() were skipped by UseCase.initialize(), so that
simulating more than 366 days failed with an IndexError.
---
 ramp/core/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 4f8b8d9..5168f62 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -303,6 +303,7 @@ class UseCase:
                 )
 
             # Verify that each appliance has long enough power data for the simulated time
+            self.collect_appliances_from_users()
             for app in self.appliances:
                 app.check_power_values(self.__num_days)
 
-- 
2.43.0


From 3cd538fe2d47433081e13db5bf2493c0a66fbcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 04/37] fix: compute Appliance.maximum_profile from its windows

It was computed from daily_use, which holds the last generated profile, so that
the peak time range depended on the profiles generated before.
---
 ramp/core/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 5168f62..4da3b96 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1594,7 +1594,10 @@ class Appliance:
             It assumes the appliance is always switched-on with maximum power and
             numerosity during all of its potential windows of use
         """
-        return self.daily_use * np.mean(self.power) * self.number
+        windows_profile = np.zeros(1440)
+        for window in (self.window_1, self.window_2, self.window_3):
+            windows_profile[window[0] : window[1]] = 0.001
+        return windows_profile * np.mean(self.power) * self.number
 
     def specific_cycle(self, cycle_num, **kwargs):
         """assigining specific duty cycle for the appliance (maximum of three cycles can be assigned)
-- 
2.43.0


From 5fc2df34f9ca2f84c0aaf65bf0251f2d1e8b8a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 05/37] fix: follow the current dates when the initialization
 of a use case is forced

The number of days of the previous initialization was kept even though both
dates had been changed since then.
---
 ramp/core/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 4da3b96..6a40443 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -232,6 +232,9 @@ class UseCase:
                     f"The usecase '{self.name}' is already initialized but argument `force=True` was provided, reinitializing..."
                 )
                 self.days = None
+                if self.date_start is not None and self.date_end is not None:
+                    # the number of days is given by the dates unless num_days is provided
+                    self.__num_days = None
 
             if num_days is not None:
                 self.__num_days = num_days
-- 
2.43.0


From 2cc1dc5e43ce4ee77b0c74f245a211ac8d8bde38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 06/37] fix: treat a window whose randomised boundaries cross
 as empty

With a window variability above 50% the start of a window could be drawn after
its end, which crashed the generation of flat appliances and falsified the time
available for the other ones.
---
 ramp/core/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 6a40443..f21fb0c 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1584,6 +1584,9 @@ class Appliance:
             rand_window[0] = window_range_limits[0]
         if rand_window[1] > window_range_limits[1]:
             rand_window[1] = window_range_limits[1]
+        if rand_window[1] < rand_window[0]:
+            # the randomised boundaries crossed each other, nothing is left of the window
+            rand_window[1] = rand_window[0]
 
         return rand_window
 
-- 
2.43.0


From 00c24af069e79f3c977a14d89ce43c39a38f0d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 07/37] fix: count minutes shared by overlapping windows only
 once

Minutes which belong to several (randomised) windows were offered several times
to switch-on events, so that events could overwrite each other and the daily
time of use was not reached.
---
 ramp/core/core.py  |  5 +++++
 ramp/core/utils.py | 21 +++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index f21fb0c..404970a 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -29,6 +29,7 @@ from ramp.core.utils import (
     read_input_file,
     within_peak_time_window,
     range_within_window,
+    remove_windows_overlap,
 )
 from ramp.post_process.post_process import Plot
 
@@ -2005,6 +2006,10 @@ class Appliance:
         rand_window_1 = self.calc_rand_window(window_idx=1)
         rand_window_2 = self.calc_rand_window(window_idx=2)
         rand_window_3 = self.calc_rand_window(window_idx=3)
+        # a minute shared by several windows is available only once
+        rand_window_1, rand_window_2, rand_window_3 = remove_windows_overlap(
+            [rand_window_1, rand_window_2, rand_window_3]
+        )
         rand_windows = [rand_window_1, rand_window_2, rand_window_3]
 
         # random variability is applied to the total functioning time and to the duration
diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index cac6936..89296c8 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -152,6 +152,27 @@ def range_within_window(range_low, range_high, window):
     )
 
 
+def remove_windows_overlap(windows):
+    """Sort windows by starting time and shorten those which overlap with a previous one
+
+    Parameters
+    ----------
+    windows: list of [start, stop]
+
+    Returns
+    -------
+    list of the same number of disjoint (possibly empty) windows which cover the same time
+    """
+    answer = []
+    previous_stop = 0
+    for start, stop in sorted(windows):
+        start = max(start, previous_stop)
+        stop = max(start, stop)
+        answer.append([start, stop])
+        previous_stop = stop
+    return answer
+
+
 def random_choice(var, t1, p1, t2, p2):
     """Chooses one of two duty cycles randomly
 
-- 
2.43.0


From d3b3be2dca275a69deea5d70e2329840c45ed784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 08/37] fix: remove a switch-on event from the free range it
 belongs to

An event starting where a free range ends was looked up in that range instead of
the following one, which kept its minutes available for a second event.
---
 ramp/core/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 404970a..849e28e 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1511,7 +1511,7 @@ class Appliance:
         # identify which of the unallocated time ranges contain the switch-on event
         spot_idx = None
         for i, fs in enumerate(self.free_spots):
-            if indexes[0] >= fs.start and indexes[-1] <= fs.stop:
+            if indexes[0] >= fs.start and indexes[-1] < fs.stop:
                 spot_idx = i
                 break
         if spot_idx is not None:
-- 
2.43.0


From 41562040b8a335d05a0b82387113c173128a6ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 09/37] fix: stop picking switch-on events when none can fall
 within a duty cycle window

When no free range touched the duty cycle windows, another event was picked
recursively until a RecursionError was raised.  A rejected switch-on time is now
removed from the choices.
---
 ramp/core/core.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 849e28e..4efa3de 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1842,11 +1842,10 @@ class Appliance:
                 indexes_choice += [
                     *range(s.start, s.stop - self.func_cycle + 1)
                 ]  # this will be fast with cython
-        n_choices = len(indexes_choice)
-        if n_choices > 0:
+        while len(indexes_choice) > 0:
             # Identifies a random switch on time within the available functioning windows
             # step 2c of [1]
-            switch_on = indexes_choice[random.randint(0, n_choices - 1)]
+            switch_on = indexes_choice.pop(random.randint(0, len(indexes_choice) - 1))
             spot_idx = None
             for i, fs in enumerate(self.free_spots):
                 if fs.start <= switch_on <= fs.stop - self.func_cycle:
@@ -1917,7 +1916,7 @@ class Appliance:
                         + str(self.cw32)
                         + ". Picking another random switch on event. You probably see this warning because your window of use is the same as the duty cycle window and the random variability of the windows of use is greater than zero. If you see this warning only once, no need to worry, this is inherent to stochasticity."
                     )
-                    return self.rand_switch_on_window(rand_time)
+                    continue
 
                 if (
                     indexes.size > duty_cycle_duration
@@ -1925,11 +1924,11 @@ class Appliance:
                 ):
                     # Limit switch_on_window to duration of duty_cycle
                     indexes = indexes[0:duty_cycle_duration]
-        else:
-            indexes = None
-            # there are no available windows anymore
 
-        return indexes
+            return indexes
+
+        # there are no available windows anymore
+        return None
 
     def calc_coincident_switch_on(self, inside_peak_window: bool = True):
         """Computes how many of the 'n' Appliance instance are switched on simultaneously
-- 
2.43.0


From 8d5cb286c13c2ccf9e92acd97650914cafd77738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 10/37] fix: accept a func_cycle of 0

This documented value allowed switch-on events without any minute, which raised an
IndexError.
---
 ramp/core/core.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 4efa3de..17e6118 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1836,11 +1836,13 @@ class Appliance:
             Energy, 2019, https://doi.org/10.1016/j.energy.2019.04.097.
         """
 
+        # a switch-on event lasts at least one minute
+        func_cycle = max(1, self.func_cycle)
         indexes_choice = []
         for s in self.free_spots:
-            if s.stop - s.start >= self.func_cycle:
+            if s.stop - s.start >= func_cycle:
                 indexes_choice += [
-                    *range(s.start, s.stop - self.func_cycle + 1)
+                    *range(s.start, s.stop - func_cycle + 1)
                 ]  # this will be fast with cython
         while len(indexes_choice) > 0:
             # Identifies a random switch on time within the available functioning windows
@@ -1848,7 +1850,7 @@ class Appliance:
             switch_on = indexes_choice.pop(random.randint(0, len(indexes_choice) - 1))
             spot_idx = None
             for i, fs in enumerate(self.free_spots):
-                if fs.start <= switch_on <= fs.stop - self.func_cycle:
+                if fs.start <= switch_on <= fs.stop - func_cycle:
                     spot_idx = i
                     break
 
@@ -1856,16 +1858,16 @@ class Appliance:
                 rand_time, self.free_spots[spot_idx].stop - switch_on
             )
 
-            if largest_duration > self.func_cycle:
+            if largest_duration > func_cycle:
                 indexes = np.arange(
                     switch_on,
                     switch_on
-                    + (int(random.uniform(self.func_cycle, largest_duration))),
+                    + (int(random.uniform(func_cycle, largest_duration))),
                 )  # TODO randint
-            elif largest_duration == self.func_cycle:
+            elif largest_duration == func_cycle:
                 indexes = np.arange(switch_on, switch_on + largest_duration)
             else:
-                print("func time", self.func_cycle)
+                print("func time", func_cycle)
                 print("max window", self.free_spots[spot_idx].stop)
                 print("rand_time", rand_time)
                 print("upper_limit", largest_duration)
-- 
2.43.0


From 606dc4167da8030a16b5d78bee403c148c8df13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 11/37] fix: accept an appliance number of 0

Off-peak switch-on events of such an appliance raised a ZeroDivisionError.
---
 ramp/core/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 17e6118..ac5ba1f 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1963,6 +1963,8 @@ class Appliance:
         elif inside_peak_window is False and self.fixed == "no":
             # calculates probability of coincident switch_ons off-peak
             # eq. 3 of [1]
+            if self.number == 0:
+                return 0
             prob = random.uniform(0, (self.number - op_factor) / self.number)
 
             # randomly selects how many appliances are on at the same time
-- 
2.43.0


From b9e757d04ff58738d5dfbcc108a688524ebed562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 12/37] fix: accept non-continuous duty cycles of zero duration

Switch-on events were cut down to zero minutes, which raised an IndexError.
---
 ramp/core/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index ac5ba1f..266a1bd 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1921,7 +1921,7 @@ class Appliance:
                     continue
 
                 if (
-                    indexes.size > duty_cycle_duration
+                    0 < duty_cycle_duration < indexes.size
                     and self.continuous_duty_cycle == 0
                 ):
                     # Limit switch_on_window to duration of duty_cycle
-- 
2.43.0


From 2741122eb015c777d468edca19af47de1d8cd6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 13/37] fix: ignore duty cycle windows which are not set

A switch-on event starting at midnight was considered to fall within every duty
cycle window left to its default value [0, 0].
---
 ramp/core/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index 89296c8..50b0c1f 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -143,9 +143,12 @@ def range_within_window(range_low, range_high, window):
 
     The two cases where there is no overlap between two windows are when the
     range boundaries are both lower than the lowest window value or both
-    higher than the highest window value
+    higher than the highest window value. An empty window, like the default value [0, 0]
+    of a duty cycle window, does not overlap with anything.
 
     """
+    if window[0] == window[1]:
+        return False
     return not (
         (range_low < window[0] and range_high < window[0])
         or (range_low > window[1] and range_high > window[1])
-- 
2.43.0


From 42724fa3bdaf96cd571f5597df90e378a5955f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 14/37] fix: save a power series as a constant only if all its
 values are equal

The differences between consecutive values sum up to zero as soon as the first and
last values are equal, in which case the series was lost.
---
 ramp/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 266a1bd..82157ed 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1257,7 +1257,7 @@ class Appliance:
                     dm[attribute + "_end"] = window_value[1]
                 elif attribute == "power":
                     power_values = getattr(self, attribute)
-                    if np.diff(power_values).sum() == 0:
+                    if np.all(power_values == power_values[0]):
                         power_values = power_values[0]
                     else:
                         power_values = power_values.tolist()
@@ -1274,7 +1274,7 @@ class Appliance:
                         dm[attribute + "_end"] = window_value[1]
                     elif old_attribute == "POWER":
                         power_values = getattr(self, old_attribute)
-                        if np.diff(power_values).sum() == 0:
+                        if np.all(power_values == power_values[0]):
                             power_values = power_values[0]
                         else:
                             power_values = power_values.tolist()
-- 
2.43.0


From 74cf6f918d3d68ada74be16e48f858e354eef1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 15/37] fix: use default values for parameters left empty in an
 input spreadsheet

Empty cells were passed on as NaN instead of leaving the parameter out, and turned
the integers of the same column into floats, both of which broke the generation of
profiles later on.
---
 ramp/core/core.py  | 11 +++++++++--
 ramp/core/utils.py |  5 +++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 82157ed..0cd0de7 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -601,8 +601,15 @@ class UseCase:
                     "'user_preference' should be the same for a given user profile"
                 )
 
+            # use default value of parameters which are left empty
+            user_parameters = {}
+            if not pd.isna(num_users):
+                user_parameters["num_users"] = num_users
+            if not pd.isna(user_preference):
+                user_parameters["user_preference"] = user_preference
+
             # create user and add it to usecase
-            user = User(user_name, num_users, user_preference)
+            user = User(user_name, **user_parameters)
             self.add_user(user)
             # itereate through the lines of the DataFrame, each line representing one Appliance instance
             for row in user_df.loc[
@@ -611,7 +618,7 @@ class UseCase:
                 # assign Appliance arguments
                 appliance_parameters = {}
                 for k in APPLIANCE_ARGS:
-                    if k in row:
+                    if k in row and not pd.isna(row[k]):
                         appliance_parameters[k] = row[k]
 
                 # assign windows arguments
diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index 50b0c1f..b81fb14 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -25,8 +25,9 @@ def read_input_file(filename):
     sheet_names = wb.sheetnames
     name = sheet_names[0]
     headers = [c.value for c in wb[name][1]]
-    df = pd.DataFrame(tuple(wb[name].values)[1:], columns=headers)
-    df = df.fillna(value=np.nan)
+    # keep the type of each cell, so that an empty cell does not turn a column of integers into floats
+    df = pd.DataFrame(tuple(wb[name].values)[1:], columns=headers, dtype=object)
+    df = df.where(df.notna(), np.nan)
 
     df["p_series"] = False
     for i, v in enumerate(df["power"].values):
-- 
2.43.0


From 6340b496a33a862329b66f855d5069bbe59b9838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 16/37] fix: read the values of a power timeseries given as
 timestamps and values

The timestamps were used as power.
---
 ramp/core/utils.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index b81fb14..15ed347 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -46,16 +46,13 @@ def read_input_file(filename):
                         ]
                     )
                 elif cr.size["columns"] == 2:
-                    ts = pd.DataFrame(
+                    # the first column contains timestamps, the second one the values
+                    ts = json.dumps(
                         [
-                            [
-                                wb[ts_sheet_name].cell(row=c[0], column=c[1]).value
-                                for c in col
-                            ]
-                            for col in cr.cols
+                            wb[ts_sheet_name].cell(row=c[0], column=c[1]).value
+                            for c in list(cr.cols)[1]
                         ]
-                    ).T
-                    ts = ts.to_json(orient="values")
+                    )
                 else:
                     raise (
                         ValueError(
-- 
2.43.0


From eb07de6dd5d71d2c946dd53e1794ada12126affd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 17/37] fix: read power timeseries from sheets with a quoted
 name

Spreadsheet programs quote the name of the sheet in a reference if it contains a
space or special characters.
---
 ramp/core/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index 15ed347..208ded1 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -37,6 +37,9 @@ def read_input_file(filename):
             # the timeseries is provided as a range of values in the spreadsheet
             if "=" in v:
                 ts_sheet_name, ts_range = v.replace("=", "").split("!")
+                # names containing spaces or special characters are quoted
+                if ts_sheet_name.startswith("'"):
+                    ts_sheet_name = ts_sheet_name[1:-1].replace("''", "'")
                 cr = CellRange(ts_range)
                 if cr.size["columns"] == 1:
                     ts = json.dumps(
-- 
2.43.0


From ec63d8bfc21f062ed0813ee843a47dd267cdde3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 18/37] fix: reject power timeseries which do not consist of
 numbers

Empty cells, texts or nested arrays in a timeseries were silently turned into NaN or
other values.
---
 ramp/core/utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index 208ded1..5b705d8 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -1,4 +1,5 @@
 import json
+import math
 import random
 import time
 import datetime
@@ -72,7 +73,7 @@ def read_input_file(filename):
             else:
                 try:
                     ts = json.loads(v)
-                    if len(ts) != 366:
+                    if not isinstance(ts, list) or len(ts) != 366:
                         raise (
                             ValueError(
                                 f"The provided power timeseries of the appliance '{appliance_name}' of user '{user_name}' in '{filename}' does not contain 366 values as expected\n{POSSIBLE_FORMATS}"
@@ -85,6 +86,15 @@ def read_input_file(filename):
                             f"Could not parse the power timeseries provided for appliance '{appliance_name}' of user '{user_name}' in '{filename}'\n{POSSIBLE_FORMATS}"
                         )
                     )
+            if not all(
+                isinstance(val, (int, float)) and math.isfinite(val)
+                for val in json.loads(ts)
+            ):
+                raise (
+                    ValueError(
+                        f"The provided power timeseries of the appliance '{appliance_name}' of user '{user_name}' in '{filename}' does not contain numbers only\n{POSSIBLE_FORMATS}"
+                    )
+                )
             df.loc[i, "power"] = ts
             df.loc[i, "p_series"] = True
     return df
-- 
2.43.0


From ddda286c0efe9e5a0f9fe953bf6925438ba8eb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 19/37] fix: read power timeseries with full precision

The default parser of pandas can change the last digit of a value, so that a saved
timeseries was not loaded back identical.
---
 ramp/core/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 0cd0de7..e2a7ae0 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1178,7 +1178,7 @@ class Appliance:
             power = power.values[:, 0]
 
         elif isinstance(power, str):
-            power = pd.read_json(power).values[:, 0]
+            power = pd.read_json(power, precise_float=True).values[:, 0]
 
         elif isinstance(power, (float, int)):
             power = power * np.ones(self.user.num_days + 1)
-- 
2.43.0


From 500f3eb9bc040e4361c2535f9d6b85445b51fb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 20/37] fix: compare appliances whose power series have
 different lengths

The comparison raised a ValueError, so that such appliances could not be added to
the same user.
---
 ramp/core/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index e2a7ae0..1332258 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1329,7 +1329,11 @@ class Appliance:
             if hasattr(self, attribute) and hasattr(other_appliance, attribute):
                 answer = np.append(
                     answer,
-                    [getattr(self, attribute) == getattr(other_appliance, attribute)],
+                    [
+                        np.array_equal(
+                            getattr(self, attribute), getattr(other_appliance, attribute)
+                        )
+                    ],
                 )
             elif (
                 hasattr(self, attribute) is False
-- 
2.43.0


From 8485fa52e7fba1943ed47a283cccf69b6afcf313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 21/37] fix: read csv results in Plot.from_file

pd.read_csv has no argument sheet_name.
---
 ramp/post_process/post_process.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ramp/post_process/post_process.py b/ramp/post_process/post_process.py
index c0bf98d..b01b335 100644
--- a/ramp/post_process/post_process.py
+++ b/ramp/post_process/post_process.py
@@ -156,9 +156,7 @@ class Plot:
         """
 
         if file.endswith(".csv"):
-            df = pd.read_csv(
-                file, sheet_name=sheet_name, index_col=0, header=0, sep=sep
-            )
+            df = pd.read_csv(file, index_col=0, header=0, sep=sep)
 
         elif file.endswith(".xlsx"):
             df = pd.read_excel(file, sheet_name=sheet_name, index_col=0, header=0)
-- 
2.43.0


From b3e61c6db2acf6a599feef46ad361f5837209ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 22/37] fix: load the input file before initializing the use
 case in run_usecase

The peak time range was computed without any user, the length of the power series
was not checked and the number of days was ignored if both dates were given. It is
still ignored with one input file per month, as each file is used for a full month.
---
 ramp/cli.py      | 1 -
 ramp/ramp_run.py | 9 +++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ramp/cli.py b/ramp/cli.py
index 394f238..e65a54e 100644
--- a/ramp/cli.py
+++ b/ramp/cli.py
@@ -187,7 +187,6 @@ def main():
                 month_profiles = run_usecase(
                     fname=fname,
                     ofname=None,
-                    num_days=num_days[i],
                     date_start=month_start,
                     date_end=month_end,
                     plot=False,
diff --git a/ramp/ramp_run.py b/ramp/ramp_run.py
index 861f7e4..3eff403 100644
--- a/ramp/ramp_run.py
+++ b/ramp/ramp_run.py
@@ -46,11 +46,12 @@ def run_usecase(
     parallel=False,
 ):
     if fname.endswith(".xlsx"):
-        usecase = UseCase(
-            date_start=date_start, date_end=date_end, parallel_processing=parallel
-        )
-        usecase.initialize(num_days=num_days)
+        # the users must be known when the usecase is initialized, as the peak time range depends on them
+        usecase = UseCase(parallel_processing=parallel)
         usecase.load(fname)
+        usecase.date_start = date_start
+        usecase.date_end = date_end
+        usecase.initialize(num_days=num_days)
         Profiles_list = usecase.generate_daily_load_profiles(flat=False)
 
         if plot is True:
-- 
2.43.0


From 8653fa27126f9217c67131910f066fd6f051f99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 23/37] fix: convert input files from any location

The path was turned into a module name, which only works for relative paths below
the current directory, and a file which changed since its first conversion was not
read again.
---
 ramp/ramp_convert_old_input_files.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ramp/ramp_convert_old_input_files.py b/ramp/ramp_convert_old_input_files.py
index b8c4525..7d82eec 100644
--- a/ramp/ramp_convert_old_input_files.py
+++ b/ramp/ramp_convert_old_input_files.py
@@ -1,6 +1,6 @@
 # %% Import required modules
 
-import sys, os, importlib
+import sys, os, importlib.util
 
 sys.path.append("../")
 import argparse
@@ -87,15 +87,16 @@ def convert_old_user_input_file(
         with open(fname_path, "a") as fp:
             fp.write(convert_names)
 
-    fname = fname_path.replace(".py", "").replace(os.path.sep, ".")
-
     if output_path is None:
         output_path = os.path.dirname(fname_path)
-    output_fname = fname_path.split(os.path.sep)[-1].replace(".py", suffix)
+    module_name = os.path.splitext(os.path.basename(fname_path))[0]
+    output_fname = module_name + suffix
     output_fname = os.path.join(output_path, output_fname)
 
     sys.path.insert(0, os.path.dirname(os.path.abspath(fname_path)))
-    file_module = importlib.import_module(fname)
+    spec = importlib.util.spec_from_file_location(module_name, fname_path)
+    file_module = importlib.util.module_from_spec(spec)
+    spec.loader.exec_module(file_module)
 
     user_list = file_module.User_list
 
-- 
2.43.0


From b59223dd3e9fe9207009044599c0d76c16d43566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 24/37] fix: draw the daily preference of each single user in
 parallel processing

Appliances with a pref_index were never used when the profiles were generated in
parallel.
---
 ramp/core/core.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 1332258..51bb9a1 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -39,7 +39,9 @@ from ramp.errors_logs.errors import InvalidType, InvalidWindow
 
 
 def single_appliance_daily_load_profile(args):
-    app, args = args
+    app, rand_daily_pref, args = args
+    # meal preference drawn for the single user this profile belongs to
+    app.user.rand_daily_pref = rand_daily_pref
     app.generate_load_profile(*args, power=app.power[args[0]])
 
     return args[0], app.daily_use
@@ -483,10 +485,18 @@ class UseCase:
         for day_idx, day in enumerate(self.days):
             day_type = get_day_type(day)
             for user in self.users:
-                for app in user.App_list:
-                    for _ in range(user.num_users):
+                for _ in range(user.num_users):
+                    # all appliances of a single user share the same daily preference
+                    rand_daily_pref = user.pick_daily_preference()
+                    for app in user.App_list:
                         t = t + 1
-                        tasks.append((app, (day_idx, self.peak_time_range, day_type)))
+                        tasks.append(
+                            (
+                                app,
+                                rand_daily_pref,
+                                (day_idx, self.peak_time_range, day_type),
+                            )
+                        )
 
         daily_profiles_dict = {}
         timeout = 1
@@ -979,6 +989,12 @@ appliances: no appliances assigned to the user.
             name=name,
         )
 
+    def pick_daily_preference(self):
+        """Randomly pick the daily preference of a single user, 0 if the user has no preferences"""
+        return (
+            0 if self.user_preference == 0 else random.randint(1, self.user_preference)
+        )
+
     def generate_single_load_profile(
         self, prof_i: int = 0, peak_time_range: np.array = None, day_type: int = 0
     ):
@@ -1013,9 +1029,7 @@ appliances: no appliances assigned to the user.
 
         single_load = np.zeros(1440)
 
-        self.rand_daily_pref = (
-            0 if self.user_preference == 0 else random.randint(1, self.user_preference)
-        )
+        self.rand_daily_pref = self.pick_daily_preference()
 
         for (
             App
-- 
2.43.0


From 7a0796df538253b7c47044ffa9378e207ab4a773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 25/37] fix: generate profiles of a use case without appliances
 in parallel

Days without any task raised a KeyError.
---
 ramp/core/core.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 51bb9a1..e84715c 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -519,10 +519,8 @@ class UseCase:
 
             daily_profiles = np.zeros((self.num_days, 1440))
 
-            for day_idx in range(self.num_days):
-                daily_profiles[day_idx, :] = np.vstack(
-                    daily_profiles_dict[day_idx]
-                ).sum(axis=0)
+            for day_idx, day_profiles in daily_profiles_dict.items():
+                daily_profiles[day_idx, :] = np.vstack(day_profiles).sum(axis=0)
 
         if flat is True:
             answer = daily_profiles.reshape(1, self.num_days * 1440).squeeze()
-- 
2.43.0


From ce8e794dfafc2bbf9802c46f15f85d1a2c1c8343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 26/37] fix: apply random_seed in parallel processing

The processes of the pool were not seeded, and results were summed up in the order
in which they were computed.
---
 ramp/core/core.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index e84715c..fd19b2a 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -39,7 +39,9 @@ from ramp.errors_logs.errors import InvalidType, InvalidWindow
 
 
 def single_appliance_daily_load_profile(args):
-    app, rand_daily_pref, args = args
+    app, rand_daily_pref, seed, args = args
+    if seed is not None:
+        random.seed(seed)
     # meal preference drawn for the single user this profile belongs to
     app.user.rand_daily_pref = rand_daily_pref
     app.generate_load_profile(*args, power=app.power[args[0]])
@@ -494,6 +496,12 @@ class UseCase:
                             (
                                 app,
                                 rand_daily_pref,
+                                # the processes do not share their random number generator
+                                (
+                                    None
+                                    if self.random_seed is None
+                                    else random.getrandbits(64)
+                                ),
                                 (day_idx, self.peak_time_range, day_type),
                             )
                         )
@@ -507,10 +515,11 @@ class UseCase:
                 desc=f"Computing appliances profiles",
                 unit="unit",
             ) as pbar:
-                imap_unordered_it = pool.imap_unordered(
+                # the order of the results is kept as it affects rounding errors of their sum
+                imap_it = pool.imap(
                     single_appliance_daily_load_profile, tasks, chunksize=4
                 )
-                for prof_i, daily_load in imap_unordered_it:
+                for prof_i, daily_load in imap_it:
                     if prof_i in daily_profiles_dict:
                         daily_profiles_dict[prof_i].append(daily_load)
                     else:
-- 
2.43.0


From c81312060bc2fb4375c361668fd3f8edd9787278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 27/37] fix: generate profiles for the days provided to
 generate_daily_load_profiles

The use case was not initialized with these days and asked for a number of days.
---
 ramp/core/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index fd19b2a..0085f89 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -266,6 +266,10 @@ class UseCase:
                 else:
                     self.__num_days = len(self.days)
 
+            if self.__num_days is None and self.days is not None:
+                # the days were provided by the user
+                self.__num_days = len(self.days)
+
             if self.__num_days is None:
                 # asks the user how many days (i.e. code runs) they want
                 self.__num_days = int(
@@ -426,6 +430,7 @@ class UseCase:
             if self.days is None:
                 if days is not None:
                     self.days = days  # TODO this might be wrong need to update the date_start, end num_days etc
+                    self.initialize()
                 else:
                     raise ValueError(
                         "You must provide days either with start and end date and run initialize() method of UseCase instance or as an argument of 'generate_daily_load_profiles'"
@@ -476,6 +481,7 @@ class UseCase:
         if self.days is None:
             if days is not None:
                 self.days = days  # TODO this might be wrong need to update the date_start, end num_days etc
+                self.initialize()
             else:
                 raise ValueError(
                     "You must provide days either with start and end date and run initialize() method of UseCase instance or as an argument of 'generate_daily_load_profiles'"
-- 
2.43.0


From 9bb4da402d70204a4472e247991a15a6452b7df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:32 +0000
Subject: [PATCH 28/37] fix: do not add twice an appliance with duty cycles
 which is already present

---
 ramp/core/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 0085f89..93ffed9 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -825,6 +825,9 @@ appliances: no appliances assigned to the user.
         for i in duty_cycle_parameters:
             app.specific_cycle(i, **duty_cycle_parameters[i])
 
+        # the windows method already added the appliance, i.e. before its duty cycles were known,
+        # compare it to the existing appliances now that it is complete
+        self.App_list[:] = [a for a in self.App_list if a is not app]
         self._add_appliance_instance(app)
 
         return app
-- 
2.43.0


From ca248ae1410dbd8870d2b496c703e7a4fd6ed61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:32 +0000
Subject: [PATCH 29/37] fix: ignore rounding errors when looking for the peak
 window

---
 ramp/core/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 93ffed9..eb5ea7d 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -376,7 +376,10 @@ class UseCase:
         for user in self.users:
             tot_max_profile = tot_max_profile + user.maximum_profile
         # Find the peak window within the theoretical max profile
-        peak_window = np.flatnonzero(tot_max_profile == np.amax(tot_max_profile))
+        # (equal demands may differ by rounding errors depending on which appliances they come from)
+        peak_window = np.flatnonzero(
+            np.isclose(tot_max_profile, np.amax(tot_max_profile), rtol=1e-9, atol=0)
+        )
         # Within the peak_window, randomly calculate the peak_time using a gaussian distribution
         peak_time = round(
             random.normalvariate(
-- 
2.43.0


From 0cc19fb9758e6ba13929bc93961224819c9ad0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:09 +0000
Subject: [PATCH 30/37] fix: compare constant powers of appliances whatever
 their number of days

A constant power is stored for the number of days of the use case at the time
the appliance was created, so that an appliance equal to an existing one was
added again once the use case had been initialised.
---
 ramp/core/core.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index eb5ea7d..9a277f4 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1360,14 +1360,16 @@ class Appliance:
         answer = np.array([])
         for attribute in APPLIANCE_ATTRIBUTES:
             if hasattr(self, attribute) and hasattr(other_appliance, attribute):
-                answer = np.append(
-                    answer,
-                    [
-                        np.array_equal(
-                            getattr(self, attribute), getattr(other_appliance, attribute)
-                        )
-                    ],
-                )
+                values = getattr(self, attribute)
+                other_values = getattr(other_appliance, attribute)
+                if (
+                    attribute == "power"
+                    and np.all(values == values[0])
+                    and np.all(other_values == other_values[0])
+                ):
+                    # the same constant power might be defined for different number of days
+                    values, other_values = values[0], other_values[0]
+                answer = np.append(answer, [np.array_equal(values, other_values)])
             elif (
                 hasattr(self, attribute) is False
                 and hasattr(other_appliance, attribute) is False
-- 
2.43.0


From 11ef48cda540d07dc9be557af98b4301f331aee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:25 +0000
Subject: [PATCH 31/37] fix: accept references to sheets with = or ! in their
 name

---
 ramp/core/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index 5b705d8..9cb1b4e 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -37,7 +37,8 @@ def read_input_file(filename):
             user_name = df["user_name"].iloc[i]
             # the timeseries is provided as a range of values in the spreadsheet
             if "=" in v:
-                ts_sheet_name, ts_range = v.replace("=", "").split("!")
+                # the name of the sheet might contain any of the separators
+                ts_sheet_name, ts_range = v.split("=", 1)[1].rsplit("!", 1)
                 # names containing spaces or special characters are quoted
                 if ts_sheet_name.startswith("'"):
                     ts_sheet_name = ts_sheet_name[1:-1].replace("''", "'")
-- 
2.43.0


From 9ad8286658c972bdfcba1fcaa3d43c5ba11bca7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:46 +0000
Subject: [PATCH 32/37] fix: order the files of a year by their names, whatever
 digits the folder has

---
 ramp/cli.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ramp/cli.py b/ramp/cli.py
index e65a54e..69e400a 100644
--- a/ramp/cli.py
+++ b/ramp/cli.py
@@ -126,7 +126,12 @@ def main():
                     for f in os.listdir(fnames[0])
                     if f.endswith(ext)
                 ]
-                fnames.sort(key=lambda f: int("".join(filter(str.isdigit, f))))
+                # only the file names tell the months, the path of the folder might contain digits as well
+                fnames.sort(
+                    key=lambda f: int(
+                        "".join(filter(str.isdigit, os.path.basename(f)))
+                    )
+                )
 
                 if len(fnames) == 12:
                     print(
-- 
2.43.0


From 32f8f510d9ac78a78ac7b1eb15996c0b7f2447e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:46 +0000
Subject: [PATCH 33/37] fix: reject several outputs for the results of a year
 instead of ignoring them

---
 ramp/cli.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ramp/cli.py b/ramp/cli.py
index 69e400a..03cfda0 100644
--- a/ramp/cli.py
+++ b/ramp/cli.py
@@ -183,6 +183,10 @@ def main():
                     parallel=parallel_processing,
                 )
         else:
+            if len(ofnames) != 1:
+                raise ValueError(
+                    f"The results of the 12 months are saved in a single folder, yet {len(ofnames)} output paths were provided"
+                )
             year_profile = []
             for i, fname in enumerate(fnames):
                 month_start = datetime.date(year, i + 1, 1)
@@ -210,10 +214,7 @@ def main():
                 ),
             )
             # Save to minute and hour resolution
-            if len(ofnames) == 1:
-                ofname = ofnames[0]
-            else:
-                ofname = None
+            ofname = ofnames[0]
 
             if ofname is None:
                 ofname = os.path.abspath(os.path.curdir)
-- 
2.43.0


From 673ac8cbc7284c39979b52abc481debc0ddbf1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 34/37] fix: adapt every legacy import of an input file, not
 only the last one

---
 ramp/ramp_convert_old_input_files.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/ramp/ramp_convert_old_input_files.py b/ramp/ramp_convert_old_input_files.py
index 7d82eec..05f913b 100644
--- a/ramp/ramp_convert_old_input_files.py
+++ b/ramp/ramp_convert_old_input_files.py
@@ -61,7 +61,7 @@ def convert_old_user_input_file(
 
     """
 
-    line_to_change = -1
+    lines_changed = False
 
     # Check if the lines to save the names of the Appliance instances is already there
     # And check if the import of the User class is correct, otherwise adapt the file
@@ -69,16 +69,14 @@ def convert_old_user_input_file(
         lines = fp.readlines()
         if "# Code automatically added by ramp_convert_old_input_files.py\n" in lines:
             keep_names = False
+        # Change import statements by explicitly naming the full package path
         for i, l in enumerate(lines):
             if "from core import" in l:
-                line_to_change = i
-        # Change import statement by explicitly naming the full package path
-        lines[line_to_change] = lines[line_to_change].replace(
-            "from core import", "from ramp.core.core import"
-        )
-
-    # Modify import statement in file
-    if line_to_change != -1:
+                lines[i] = l.replace("from core import", "from ramp.core.core import")
+                lines_changed = True
+
+    # Modify import statements in file
+    if lines_changed is True:
         with open(fname_path, "w") as fp:
             fp.writelines(lines)
 
-- 
2.43.0


From e1bd4a411444d401a642f8c9f31eea39a45e5832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 35/37] fix: accept the selection of a single row or column of
 the results

---
 ramp/post_process/post_process.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/ramp/post_process/post_process.py b/ramp/post_process/post_process.py
index b01b335..e8c1ecf 100644
--- a/ramp/post_process/post_process.py
+++ b/ramp/post_process/post_process.py
@@ -531,7 +531,16 @@ class Plot:
             a Plot object using the index and columns filters
         """
 
-        return Plot(self.DataFrame.loc[index, columns])
+        if isinstance(columns, str):
+            columns = [columns]
+
+        df = self.DataFrame.loc[index, columns]
+
+        if isinstance(df, pd.Series):
+            # a single row was selected
+            df = df.to_frame().T
+
+        return Plot(df)
 
     def iloc(self, index=slice(None), columns=slice(None)):
         """iloc method to filter the data based on position index
@@ -549,6 +558,12 @@ class Plot:
             a Plot object using the index and columns filters
         """
 
+        if isinstance(index, int):
+            index = [index]
+
+        if isinstance(columns, int):
+            columns = [columns]
+
         return Plot(self.DataFrame.iloc[index, columns])
 
     def head(self, var):
-- 
2.43.0


From a47ef17c1d73545c70a631cffae930bcfb5b98d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 36/37] fix: accept a list of columns for shadow plots

---
 ramp/post_process/post_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/post_process/post_process.py b/ramp/post_process/post_process.py
index e8c1ecf..34a07ee 100644
--- a/ramp/post_process/post_process.py
+++ b/ramp/post_process/post_process.py
@@ -317,7 +317,7 @@ class Plot:
         else:
             df_main = (self.mean()).df["Mean"].to_frame("Average")
 
-        if columns.lower() == "all":
+        if isinstance(columns, str) and columns.lower() == "all":
             columns = self.columns
 
         df_other = self.df.copy()[columns]
-- 
2.43.0


From b010a31ffc30ea45fabc886f0d1bbe26b74e87ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:36 +0000
Subject: [PATCH 37/37] fix: read the helper modules of every input file from
 its own folder

---
 ramp/ramp_convert_old_input_files.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ramp/ramp_convert_old_input_files.py b/ramp/ramp_convert_old_input_files.py
index 05f913b..d09b515 100644
--- a/ramp/ramp_convert_old_input_files.py
+++ b/ramp/ramp_convert_old_input_files.py
@@ -91,10 +91,16 @@ def convert_old_user_input_file(
     output_fname = module_name + suffix
     output_fname = os.path.join(output_path, output_fname)
 
+    known_modules = set(sys.modules)
     sys.path.insert(0, os.path.dirname(os.path.abspath(fname_path)))
     spec = importlib.util.spec_from_file_location(module_name, fname_path)
     file_module = importlib.util.module_from_spec(spec)
     spec.loader.exec_module(file_module)
+    # the next input file might import modules of the same names from its own folder
+    for name in set(sys.modules) - known_modules:
+        module_path = getattr(sys.modules[name], "__file__", None)
+        if module_path and os.path.dirname(os.path.abspath(module_path)) == sys.path[0]:
+            del sys.modules[name]
 
     user_list = file_module.User_list
 
-- 
2.43.0

