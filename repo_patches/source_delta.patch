From bd87970a3492bb8b54d707ece3a6359c681987c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:07 +0000
Subject: [PATCH 01/30] fix: G92 with non-zero values must not move the machine
 (offset sign)

---
 pyGCodeDecode/state_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index fc370c8..d75bded 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -310,7 +310,7 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
             for key in line_dict["G92"]:
                 if key in known_commands["G92"]:
                     virtual_machine["_" + key] = (
-                        virtual_machine[key] + line_dict["G92"][key] + virtual_machine["_" + key]
+                        virtual_machine[key] - line_dict["G92"][key] + virtual_machine["_" + key]
                     )
                     virtual_machine[key] = line_dict["G92"][key]
 
-- 
2.43.0


From e26d1c5d5e5536e8b50fcefcc27dd49782ed1383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:04 +0000
Subject: [PATCH 02/30] fix: convert coordinates and feed rates given in inches
 (G20) to mm

---
 pyGCodeDecode/state_generator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index d75bded..da7f6b4 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -283,6 +283,13 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
         if "G21" in line_dict:
             virtual_machine["units"] = "SImm"
 
+        # the virtual machine works in mm, convert lengths and feed rates given in inches
+        if virtual_machine["units"] == "inch":
+            line_dict = {
+                command: {key: value * 25.4 for key, value in args.items()} if command in ["G0", "G1", "G92"] else args
+                for command, args in line_dict.items()
+            }
+
         # position & velocity
         pos_keys = ["X", "Y", "Z"]
         movement_commands = ["G0", "G1"]
-- 
2.43.0


From d4704685292f1798446e17cbadd33eb1f6dc02cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:54 +0000
Subject: [PATCH 03/30] fix: match complete command numbers and only cast leaf
 arguments when parsing a line

---
 pyGCodeDecode/state_generator.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index da7f6b4..ae1798e 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -119,10 +119,15 @@ def arg_extract(string: str, key_dict: dict) -> dict:
     arg_dict = dict()  # dict to store found arguments for each key
     matches: List[Match] = list()  # list to store matching keywords
 
+    match_keys = dict()  # dict to store the key of each match
+
     for key in key_dict.keys():  # look for each key in the dictionary
-        match = re.search(key, string)  # regex search for key in string
+        # a command is only found with its complete number, leading zeros are allowed
+        pattern = f"{key[0]}0*{key[1:]}(?![0-9.])" if len(key) > 1 else key
+        match = re.search(pattern, string)  # regex search for key in string
         if match is not None:
             matches.append(match)  # append found matches
+            match_keys[match] = key
 
     # check for longest match and remove smaller match
     i = 0
@@ -145,7 +150,7 @@ def arg_extract(string: str, key_dict: dict) -> dict:
 
     for match in matches:  # iterate through all matches, with next match available
         match_end = match.end()  # find arg beginning by using end of match
-        key = match.group()  # get key from match
+        key = match_keys[match]  # get key from match
         arg = None
 
         match_next_start = next_larger(match_start_list, match_end)  # find arg end by using beginning of next arg
@@ -155,7 +160,8 @@ def arg_extract(string: str, key_dict: dict) -> dict:
             arg = arg.replace("\n", "")  # remove \n if argument is not a comment
 
             try:
-                arg = float(arg)  # casting to float if possible
+                # casting to float if possible, arguments of nested commands are extracted below
+                arg = float(arg) if key_dict[key] is None else arg
             except ValueError:
                 pass
         else:
-- 
2.43.0


From dd6d12c5e21a22d4f8165ef440bf65e3b95abd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:02 +0000
Subject: [PATCH 04/30] fix: allow a dwell (G4) before the first movement

---
 pyGCodeDecode/planner_block.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 9c43909..f7ceae9 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -327,12 +327,17 @@ class planner_block:
         # dwell functionality
         if self.state_B.pause is not None:
             self.JD = [0, 0, 0, 0]
+            previous_segment = (
+                self.prev_block.segments[-1]
+                if self.prev_block is not None
+                else segment.create_initial(initial_position=self.state_A.state_position)
+            )
             self.segments = [
                 segment(
-                    t_begin=self.prev_block.segments[-1].t_end,
-                    t_end=self.prev_block.segments[-1].t_end + self.state_B.pause,
-                    pos_begin=self.prev_block.segments[-1].pos_end,
-                    pos_end=self.prev_block.segments[-1].pos_end,
+                    t_begin=previous_segment.t_end,
+                    t_end=previous_segment.t_end + self.state_B.pause,
+                    pos_begin=previous_segment.pos_end,
+                    pos_end=previous_segment.pos_end,
                     vel_begin=velocity(0, 0, 0, 0),
                     vel_end=velocity(0, 0, 0, 0),
                 )
-- 
2.43.0


From b8ef541e73c919c4dca5598f0b47a222ee7e54c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:02 +0000
Subject: [PATCH 05/30] fix: simulate programs without any movement

---
 pyGCodeDecode/gcode_interpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 7f91066..09e75be 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -677,9 +677,10 @@ class simulation:
         Args:
             start_time (float): time when the simulation run was started
         """
+        t_end = self.blocklist[-1].get_segments()[-1].t_end if len(self.blocklist) > 0 else 0.0
         custom_print(
             f" >> pyGCodeDecode extracted {len(self.states)} states from {self.filename} and generated {len(self.blocklist)} planner blocks.\n"
-            f"Estimated time to travel all states with provided printer settings is {self.blocklist[-1].get_segments()[-1].t_end:.2f} seconds.\n"
+            f"Estimated time to travel all states with provided printer settings is {t_end:.2f} seconds.\n"
             f"The Simulation took {(time.time()-start_time):.2f} s."
         )
 
-- 
2.43.0


From 2ccd2cdbe1bf8385aefc662c8de18e63c32f19af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:02 +0000
Subject: [PATCH 06/30] fix: limit the end velocity of a move to its target
 velocity

---
 pyGCodeDecode/planner_block.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index f7ceae9..a675715 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -156,6 +156,7 @@ class planner_block:
         v_target = settings.speed
         v_begin = previous_segment.vel_end.get_norm()
         v_begin = v_begin if v_begin < v_target else v_target
+        v_end = v_end if v_end < v_target else v_target  # rounding may lift the junction velocity above the target
 
         # calculate min travel for trapezoidal shape, if sum larger than distance, regular movement pattern is possible
         travel_ramp_up = (v_target - v_begin) * (v_begin + v_target) / (2 * acc)
-- 
2.43.0


From c9f81df277506ef3b666e9edfdf277c2aea1a774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:55 +0000
Subject: [PATCH 07/30] fix: keep the movement of a line that also contains a
 dwell

---
 pyGCodeDecode/planner_block.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index a675715..65a4996 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -317,6 +317,9 @@ class planner_block:
 
         self.valid = target_vel.not_zero()  # valid planner block
 
+        if self.state_B.pause is not None:
+            v_JD = 0  # a move followed by a dwell on the same line has to stop
+
         # standard move maker
         if self.valid:
             self.JD = v_JD * self.direction  # jd writeout for debugging plot
@@ -333,7 +336,9 @@ class planner_block:
                 if self.prev_block is not None
                 else segment.create_initial(initial_position=self.state_A.state_position)
             )
-            self.segments = [
+            if self.valid:
+                previous_segment = self.segments[-1]  # dwell after the move given on the same line
+            self.segments = self.segments + [
                 segment(
                     t_begin=previous_segment.t_end,
                     t_end=previous_segment.t_end + self.state_B.pause,
-- 
2.43.0


From d2574f88feb7f9c14cc701ddfb62c3de7610176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:55 +0000
Subject: [PATCH 08/30] fix: find the last segment when searching for the end
 time first

---
 pyGCodeDecode/gcode_interpreter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 09e75be..c9408b3 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -100,7 +100,7 @@ def find_current_segment(path: List[segment], t: float, last_index: int = None,
         if last_index is None or len(path) - 1 < last_index or path[last_index].t_begin > t:
             # unoptimized search, still returns index
             for last_index, segm in enumerate(path):
-                if t >= segm.t_begin and t < segm.t_end:
+                if t >= segm.t_begin and t <= segm.t_end:
                     return segm, last_index
                 elif t >= segm.t_end and t < path[last_index + 1].t_begin:
                     # if no segment exists, create one that interpolates the previous segment as static
@@ -138,7 +138,7 @@ def find_current_segment(path: List[segment], t: float, last_index: int = None,
         elif last_index is None or len(path) - 1 < last_index or path[last_index].t_begin > t:
             # custom_print(f"unoptimized Search, last index: {last_index}")
             for last_index, segm in enumerate(path):
-                if t >= segm.t_begin and t < segm.t_end:
+                if t >= segm.t_begin and t <= segm.t_end:
                     return segm, last_index
         else:
             for id, segm in enumerate(path[last_index:]):
-- 
2.43.0


From 0b198cf1f721b44bad59d05a1bafe8aca2541bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:55 +0000
Subject: [PATCH 09/30] fix: classic jerk of zero must not allow any velocity
 change

---
 pyGCodeDecode/junction_handling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/junction_handling.py b/pyGCodeDecode/junction_handling.py
index ddc7371..f6bb8ed 100644
--- a/pyGCodeDecode/junction_handling.py
+++ b/pyGCodeDecode/junction_handling.py
@@ -182,7 +182,7 @@ class junction_handling_marlin_jerk(junction_handling):
 
         vel_diff = vel_0 - vel_1
         jerk_move = vel_diff.get_norm()
-        scale = jerk_move / self.jerk if self.jerk > 0 else 0
+        scale = jerk_move / self.jerk if self.jerk > 0 else (float("inf") if jerk_move > 0 else 0)
 
         if scale >= 1:
             self.junction_vel = (vel_0 / scale).get_norm()
-- 
2.43.0


From 6499d796e8b18bdf270d4ee9ff5d2d9ae03c3365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:55 +0000
Subject: [PATCH 10/30] fix: MKA junction velocity must be reduced once and not
 per remaining axis

---
 pyGCodeDecode/junction_handling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyGCodeDecode/junction_handling.py b/pyGCodeDecode/junction_handling.py
index f6bb8ed..58ab039 100644
--- a/pyGCodeDecode/junction_handling.py
+++ b/pyGCodeDecode/junction_handling.py
@@ -321,10 +321,10 @@ class junction_handling_MKA(junction_handling):
                 v_factor *= self.jerk / jerk
                 lim_flag = True
 
-            if lim_flag:
-                v_max_junc *= v_factor
+        if lim_flag:
+            v_max_junc *= v_factor
 
-            self.junction_vel = v_max_junc
+        self.junction_vel = v_max_junc
 
     def get_junction_vel(self):
         """Return the calculated junction velocity.
-- 
2.43.0


From 3937dcb3096115a0ead7b64d1e49fed9d13b8746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:55 +0000
Subject: [PATCH 11/30] fix: MKA compares both velocities at the speed of the
 junction

---
 pyGCodeDecode/junction_handling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/junction_handling.py b/pyGCodeDecode/junction_handling.py
index 58ab039..6d46181 100644
--- a/pyGCodeDecode/junction_handling.py
+++ b/pyGCodeDecode/junction_handling.py
@@ -305,7 +305,7 @@ class junction_handling_MKA(junction_handling):
         lim_flag = False
 
         for v_entry, v_exit in zip(vel_0.get_vec(withExtrusion=True), vel_1.get_vec(withExtrusion=True)):
-            v_exit *= small_speed_fac
+            v_entry *= small_speed_fac
 
             if lim_flag:
                 v_entry *= v_factor
-- 
2.43.0


From 64728b2646dcc827aea186380e7d18f13176087b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:55 +0000
Subject: [PATCH 12/30] fix: reading a setup must not share or change its
 stored presets

---
 pyGCodeDecode/gcode_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index c9408b3..bb28435 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -912,7 +912,7 @@ class setup:
         Returns:
             return_dict: (dict) setup dictionary
         """
-        return_dict = self.setup_dict[self.printer_select]  # create dict
+        return_dict = dict(self.setup_dict[self.printer_select])  # create dict, independent of the setup
         return_dict.update(self.initial_position)  # add initial position
         if self.layer_cue is not None:
             return_dict.update({"layer_cue": self.layer_cue})  # add layer cue
-- 
2.43.0


From bc15b7cca7746debb16c334baec77b7e99fcb579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:55 +0000
Subject: [PATCH 13/30] fix: allow division of 4D vectors by int as documented

---
 pyGCodeDecode/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 5405adb..055ebbb 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -129,7 +129,7 @@ class vector_4D:
         Returns:
             div: (self) scalar division, scaling
         """
-        if type(other) is float or type(other) is np.float64:
+        if type(other) is float or type(other) is np.float64 or type(other) is int:
             x = self.x / other
             y = self.y / other
             z = self.z / other
-- 
2.43.0


From 47079511fce3182ad7e14491355e1142bae62c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:14 +0000
Subject: [PATCH 14/30] fix: layer metrics include the last move and report a
 last layer of one move

---
 pyGCodeDecode/tools.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index ac79908..971b000 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -55,10 +55,6 @@ def save_layer_metrics(
             last_block_of_layer = True
             block_begin = block.segments[0].t_begin
             duration = block_begin - last_layer_time
-        elif block.next_block is None:  # last block of the print
-            last_block_of_layer = True
-            block_end = block.segments[-1].t_end
-            duration = block_end - last_layer_time
 
         if last_block_of_layer:
             average_speed = travel / duration if duration != 0 else "NaN"
@@ -77,6 +73,16 @@ def save_layer_metrics(
         # add travel distance of current block
         travel += block.get_block_travel()
 
+        # the last layer ends with the last block of the print and includes it
+        if block.next_block is None:
+            block_end = block.segments[-1].t_end
+            duration = block_end - last_layer_time
+
+            layers.append(current_layer)
+            durations.append(duration)
+            travel_distances.append(travel)
+            avg_speeds.append(travel / duration if duration != 0 else "NaN")
+
     # write the layer info to a csv if a filepath is given
     if filepath is not None:
         # create directory if necessary
-- 
2.43.0


From be19355e17b32b50f8e7d9a38215dc7c72479be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:14 +0000
Subject: [PATCH 15/30] fix: map travel to time in decelerating segments and at
 standstill

---
 pyGCodeDecode/utils.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 055ebbb..377118d 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -466,13 +466,12 @@ class segment:
             return slope * t + scalar_begin
 
         def get_time(x):
-            a = (self.vel_end - self.vel_begin).get_norm() / (self.t_end - self.t_begin)
-            if a > 0:
+            a = (self.vel_end.get_norm() - self.vel_begin.get_norm()) / (self.t_end - self.t_begin)
+            if a != 0:
                 v_sq = 2 * a * x + self.vel_begin.get_norm() ** 2
-                t = (np.sqrt(v_sq) - self.vel_begin.get_norm()) / a if v_sq > 0 else 0
-                if v_sq <= 0:
-                    raise ValueError("Could not map time dependant scalar to space.")
-            elif a == 0:
+                # rounding may lead to slightly negative values at standstill
+                t = ((np.sqrt(v_sq) if v_sq > 0 else 0) - self.vel_begin.get_norm()) / a
+            else:
                 t = x / self.vel_begin.get_norm()
             return t
 
-- 
2.43.0


From 09b2150a7d4b93206623bc82580664e71f1ce950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:14 +0000
Subject: [PATCH 16/30] fix: submodel times of a program that never crosses the
 box are empty lists

---
 pyGCodeDecode/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index 971b000..6b5593f 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -258,7 +258,7 @@ def write_submodel_times(
                 if isec is not None and point_inside(p_eval=point_eval(isec, control_volume.get_plane_lim())):
                     timetable.append([float(block.inverse_time_at_pos(s_len)), sgn])
 
-    timetable = np.asarray(timetable)  # convert list to array for sorting
+    timetable = np.asarray(timetable).reshape(-1, 2)  # convert list to array for sorting, may be empty
     timetable = timetable[timetable[:, 0].argsort()]  # sort array by first column
 
     time_in = timetable[:, 0][np.asarray(timetable[:, 1], dtype=bool)]  # filter the data for entering the CV
-- 
2.43.0


From b3859c1b2e2d7d44d07aa0b52db80a11d089c93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:15 +0000
Subject: [PATCH 17/30] fix: submodel crossings must not be lost by rounding of
 the intersection point

---
 pyGCodeDecode/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index 6b5593f..f9cbc69 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -228,7 +228,8 @@ def write_submodel_times(
             fac = -np.dot(p_no, w) / dot
             u = u * fac
             if fac >= 0 and fac <= 1:
-                return p0 + u, np.linalg.norm(u), True if dot < 0 else False
+                # the plane coordinate is exact, rounding must not move the intersection off the plane
+                return np.where(p_no != 0, p_co, p0 + u), np.linalg.norm(u), True if dot < 0 else False
 
         # The segment is parallel to plane.
         return None, None, None
-- 
2.43.0


From 86b831bd62686912dab458413646bd76366cb391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:15 +0000
Subject: [PATCH 18/30] fix: rounding at the end of a block must not prevent
 finding its time

---
 pyGCodeDecode/planner_block.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 65a4996..1e763d3 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -416,4 +416,7 @@ class planner_block:
                 )  # interpolate time over space
                 return time_of_isect
 
+        if np.isclose(dist_local, cum_dist):  # end of the block, exceeded only by rounding
+            return self.segments[-1].t_end
+
         raise ValueError(f"This Planner Block with length {cum_dist} is not defined for dist: {dist_local}.")
-- 
2.43.0


From 44db2d064828df1cfe58e0071bfbd2ef9233d922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:47 +0000
Subject: [PATCH 19/30] fix: initial segment without a given position starts at
 the origin

---
 pyGCodeDecode/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 377118d..14b6bb6 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -555,5 +555,5 @@ class segment:
             segment: (segment) initial beginning segment
         """
         velocity_0 = velocity(0, 0, 0, 0)
-        pos_0 = position(x=0, y=0, z=0, e=0) if initial_position is None else initial_position
+        pos_0 = position(0, 0, 0, 0) if initial_position is None else initial_position
         return cls(t_begin=0, t_end=0, pos_begin=pos_0, vel_begin=velocity_0, pos_end=pos_0, vel_end=velocity_0)
-- 
2.43.0


From e28f6ed20e60faba107405660116f9d8b7e97b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:54 +0000
Subject: [PATCH 20/30] fix: klipper corners must stay within half of both
 moves, not only of the next one

---
 pyGCodeDecode/junction_handling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/junction_handling.py b/pyGCodeDecode/junction_handling.py
index 6d46181..fedefa5 100644
--- a/pyGCodeDecode/junction_handling.py
+++ b/pyGCodeDecode/junction_handling.py
@@ -259,7 +259,8 @@ class junction_handling_klipper(junction_handling):
         # [from klipper]: Approximated circle must contact moves no further away than mid-move
         j_tan_theta_d2 = j_sin_theta_d2 / math.sqrt(0.5 * (1.0 + j_cos_theta))
 
-        move_centripetal_v2 = 0.5 * self.t_distance * j_tan_theta_d2 * self.state_B.state_p_settings.p_acc
+        t_distance = min(self.t_distance, self.state_A.state_position.get_t_distance(self.state_B.state_position))
+        move_centripetal_v2 = 0.5 * t_distance * j_tan_theta_d2 * self.state_B.state_p_settings.p_acc
 
         self.junction_vel = math.sqrt(
             min(self.state_B.state_p_settings.p_acc * j_R, move_centripetal_v2, self.state_B.state_p_settings.speed**2)
-- 
2.43.0


From 2589fd3080cfe7b320e1a59a88017a8f50dce6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:08 +0000
Subject: [PATCH 21/30] fix: unknown commands and parameters behind a known one
 must not become part of its arguments

---
 pyGCodeDecode/state_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index ae1798e..ab3c5c5 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -156,6 +156,8 @@ def arg_extract(string: str, key_dict: dict) -> dict:
         match_next_start = next_larger(match_start_list, match_end)  # find arg end by using beginning of next arg
         if key != ";":
             arg = string[match_end:match_next_start]  # slice string
+            # unknown commands or parameters following on the same line are not part of the argument either
+            arg = re.split("[A-Z*]" if key_dict[key] is None else "[GM](?=[0-9])", arg)[0]
             arg = arg.replace(" ", "")  # remove spaces if argument is not a comment
             arg = arg.replace("\n", "")  # remove \n if argument is not a comment
 
-- 
2.43.0


From 7bc270efc490cd2cf4053dccc072c9abfc8fdda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:15 +0000
Subject: [PATCH 22/30] fix: initial positions with further keys must not
 overwrite printer parameters

---
 pyGCodeDecode/gcode_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index bb28435..b593604 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -876,7 +876,7 @@ class setup:
         """
         scaling = self.get_scaling_factor(input_unit_system=input_unit_system)
 
-        if isinstance(initial_position, dict) and all(key in initial_position for key in ["X", "Y", "Z", "E"]):
+        if isinstance(initial_position, dict) and set(initial_position) == {"X", "Y", "Z", "E"}:
             for key in initial_position:
                 self.initial_position[key] = scaling * initial_position[key]
         elif isinstance(initial_position, tuple) and len(initial_position) == 4:
-- 
2.43.0


From 11777ea0894525c3a11829c51ee70f2c4942eaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:22 +0000
Subject: [PATCH 23/30] fix: overriding a printer's property must not change
 printers sharing its definition

---
 pyGCodeDecode/gcode_interpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index b593604..265129d 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -902,7 +902,8 @@ class setup:
 
         """
         if self.printer_select is not None:
-            self.setup_dict[self.printer_select].update(property_dict)
+            # create a new dict, printers may share one definition in the presets file (YAML anchors)
+            self.setup_dict[self.printer_select] = {**self.setup_dict[self.printer_select], **property_dict}
         else:
             raise ValueError("No printer is selected. Select printer through select_printer() beforehand.")
 
-- 
2.43.0


From 2790131bc8d4e8a5e12cb6ae9a146cd431706e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:10 +0000
Subject: [PATCH 24/30] fix: draw the points of the coloured 2D plot into its
 axes

---
 pyGCodeDecode/gcode_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 265129d..0130180 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -334,7 +334,7 @@ class simulation:
         if show_points:
             for i, block in enumerate(self.blocklist):
                 update_progress(i / len(self.blocklist), name="2D Plot Points")
-                fig.scatter(
+                plt.scatter(
                     block.get_segments()[-1].pos_end.get_vec()[0],
                     block.get_segments()[-1].pos_end.get_vec()[1],
                     color="blue",
-- 
2.43.0


From feb1f0c0753a13233839f82614cd687c11055576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:10 +0000
Subject: [PATCH 25/30] fix: draw a last segment of constant speed in the
 coloured 2D plot

---
 pyGCodeDecode/gcode_interpreter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 0130180..8548f5b 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -281,6 +281,7 @@ class simulation:
                     interpolated = np.r_[interpolated, np.array([x_i, y_i, colvar_i]).T]
                 old_point = point
             interpolated = np.delete(interpolated, 0, 0)
+            interpolated = np.r_[interpolated, points[-1:, :3]]  # a last segment of constant speed ends here
 
             return interpolated
 
-- 
2.43.0


From a10d06da93454f6c5ce685c2edcdd15444bb8a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:03 +0000
Subject: [PATCH 26/30] fix: segment results can be calculated, their store was
 never created

---
 pyGCodeDecode/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 14b6bb6..283fb46 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -347,6 +347,7 @@ class segment:
         self.pos_end = pos_end
         self.vel_begin = vel_begin
         self.vel_end = vel_end
+        self.result = {}  # filled by calc_results
         self.self_check()
 
     def __str__(self) -> str:
-- 
2.43.0


From b927d080cb9f85a97b209b5fcc673c49698f906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:26 +0000
Subject: [PATCH 27/30] fix: backward correction of long chains of short moves
 exceeded the recursion limit

---
 pyGCodeDecode/planner_block.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 1e763d3..6d83f4b 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -204,6 +204,21 @@ class planner_block:
 
     def self_correction(self, tolerance=float("1e-12")):
         """Check for interfacing vel and self correct."""
+        # blocks to correct, long chains of short moves exceed the recursion limit
+        blocks = [self]
+        flag_correct = self._correct_end_velocity(tolerance=tolerance)
+        flag_previous = flag_correct
+        while flag_previous and blocks[-1].blocktype == "single":
+            blocks.append(blocks[-1].prev_block)  # forward correction?
+            flag_previous = blocks[-1]._correct_end_velocity(tolerance=tolerance)
+
+        for block in reversed(blocks):
+            block._connect_to_next(tolerance=tolerance)
+
+        return flag_correct
+
+    def _correct_end_velocity(self, tolerance):
+        """Recalculate the block if its end velocity differs from the begin velocity of the next block."""
         flag_correct = False
         if self.next_block is not None:
             same_vel = (
@@ -220,9 +235,11 @@ class planner_block:
         if self.next_block is not None and flag_correct:
             vel_end = self.next_block.get_segments()[0].vel_begin.get_norm()
             self.move_maker2(v_end=vel_end)
-            if self.blocktype == "single":
-                self.prev_block.self_correction()  # forward correction?
 
+        return flag_correct
+
+    def _connect_to_next(self, tolerance):
+        """Connect the next block and check for continuity and machine limits."""
         # Timeshift the corrected blocks
         if self.next_block is not None:
             delta_t = self.get_segments()[-1].t_end - self.next_block.get_segments()[0].t_begin
@@ -244,8 +261,6 @@ class planner_block:
         except ValueError as ve:
             custom_print(f"Segment for {self.state_B} does not adhere to machine limits: {ve}")
 
-        return flag_correct
-
     def timeshift(self, delta_t: float):
         """Shift planner block in time.
 
-- 
2.43.0


From bd5d2e1e6504d5ca15f2567943b49874a88b6293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:27 +0000
Subject: [PATCH 28/30] fix: travel and extrusion predicates and distances of
 positions accept lists, tuples and arrays as documented

---
 pyGCodeDecode/utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 283fb46..77747a8 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -256,6 +256,11 @@ class position(vector_4D):
         """Print out position."""
         return "position: " + super().__str__()
 
+    @staticmethod
+    def _as_position(other):
+        """Return 4D vectors as they are and lists, tuples and arrays as position."""
+        return other if isinstance(other, vector_4D) else position(other)
+
     def is_travel(self, other) -> bool:
         """Return True if there is travel between self and other position.
 
@@ -265,6 +270,7 @@ class position(vector_4D):
         Returns:
             is_travel: (bool) true if between self and other is distance
         """
+        other = self._as_position(other)
         if abs(other.x - self.x) + abs(other.y - self.y) + abs(other.z - self.z) > 0:
             return True
         else:
@@ -280,6 +286,7 @@ class position(vector_4D):
         Returns:
             is_extruding: (bool) true if between self and other is extrusion
         """
+        other = self._as_position(other)
         extrusion = other.e - self.e if ignore_retract else abs(other.e - self.e)
 
         if extrusion > 0:
@@ -299,6 +306,7 @@ class position(vector_4D):
         """
         if other is None:
             other = position(0, 0, 0, 0)
+        other = self._as_position(other)
         return np.linalg.norm(
             np.subtract(self.get_vec(withExtrusion=withExtrusion), other.get_vec(withExtrusion=withExtrusion))
         )
-- 
2.43.0


From fd3063b5ea715c5d44b85db037289bc53313c3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:38 +0000
Subject: [PATCH 29/30] fix: the firmware of a setup follows the selected
 printer and overrides

---
 pyGCodeDecode/gcode_interpreter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 8548f5b..57530a8 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -833,7 +833,11 @@ class setup:
 
         if self.printer_select is not None:
             self.select_printer(printer_name=self.printer_select)
-            self.firmware = self.get_dict()["firmware"]
+
+    @property
+    def firmware(self):
+        """Firmware of the selected printer."""
+        return self.get_dict()["firmware"]
 
     def load_setup(self, filepath):
         """Load setup from file.
-- 
2.43.0


From 48ba864808df54b13481c314a90d887152b36355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:31 +0000
Subject: [PATCH 30/30] fix: instants in gaps behind the next segment were not
 found when searching from a known index

---
 pyGCodeDecode/gcode_interpreter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 57530a8..0418c80 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -118,17 +118,17 @@ def find_current_segment(path: List[segment], t: float, last_index: int = None,
             for id, segm in enumerate(path[last_index:]):
                 if t >= segm.t_begin and t <= segm.t_end:
                     return segm, last_index + id
-                elif t >= segm.t_end and t < path[last_index + 1].t_begin:
+                elif t >= segm.t_end and t < path[last_index + id + 1].t_begin:
                     # if no segment exists, create one that interpolates the previous segment as static
                     interpolated_segment = segment(
                         t_begin=segm.t_end,
-                        t_end=path[last_index + 1].t_begin,
+                        t_end=path[last_index + id + 1].t_begin,
                         pos_begin=segm.pos_end,
                         pos_end=segm.pos_end,
                         vel_begin=velocity(0, 0, 0, 0),
                         vel_end=velocity(0, 0, 0, 0),
                     )
-                    return interpolated_segment, last_index
+                    return interpolated_segment, last_index + id
     else:
         # original function untouched
         # some robustness checks
-- 
2.43.0

