From afe15f48a11cd14a3fba98f0e361419b3afe6069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:54 +0000
Subject: [PATCH 01/52] fix: find the next day of a dayor line after the end of
 a month

set_next_exe_opt() left the day loop when the impossible day number just past
the end of the month (say 31 in April) matched a field, so that the line was
scheduled for the first of the next month without that day being tested.
---
 database.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database.c b/database.c
index 1762e61..a8b8271 100644
--- a/database.c
+++ b/database.c
@@ -1169,8 +1169,8 @@ set_next_exe(cl_t *line, char option, int info_fd)
 
             j = ftime.tm_wday;
             i = ftime.tm_mday;
-            while ((bit_test(line->cl_days, i) == 0) &&
-                   (bit_test(line->cl_dow, j) == 0)) {
+            while (i > max || ((bit_test(line->cl_days, i) == 0) &&
+                               (bit_test(line->cl_dow, j) == 0))) {
                 if (i > max) {
                     ftime.tm_mon++;
                     if (has_changed < 2) {
-- 
2.43.0


From bd322a536659f62e27124641510142db192fbde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:52 +0000
Subject: [PATCH 02/52] fix: end of an interval just before a dst change

move_time_to(END_OF_INTERVAL) went back one minute on the fields of a time
which mktime() may have moved forward over the dst gap, so that a random line
could be run up to an hour after the end of its interval of execution.
---
 database.c | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/database.c b/database.c
index a8b8271..8b6d4fb 100644
--- a/database.c
+++ b/database.c
@@ -1010,21 +1010,10 @@ move_time_to(int where, cl_t *line, struct tm *ftime)
 
     if (where == END_OF_INTERVAL) {
         /* we want the end of the current interval, not the beginning
-         * of the first non-matching interval : go back by one minute */
-        if (--ftime->tm_min < 0) {
-            ftime->tm_min = 59;
-            if (--ftime->tm_hour < 0) {
-                ftime->tm_hour = 23;
-                if (--ftime->tm_mday < 1) {
-                    if (--ftime->tm_mon < 0) {
-                        ftime->tm_mon = 11;
-                        ftime->tm_year--;
-                    }
-                    ftime->tm_mday =
-                        get_nb_mdays((ftime->tm_year + 1900), ftime->tm_mon);
-                }
-            }
-        }
+         * of the first non-matching interval : go back by one minute
+         * (of real time: ftime may be just after a dst change) */
+        timet_ftime = mktime_no_dst(ftime) - 60;
+        memcpy(ftime, localtime(&timet_ftime), sizeof(struct tm));
     }
 
     debug
-- 
2.43.0


From 4707949f7f4804d706e8c6f3cee0450bda346c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:58 +0000
Subject: [PATCH 03/52] fix: next interval of a %-line which ran in the last
 minute of one

set_next_exe() searched for the beginning of the next period from the minute
after the execution: a line which ran in the last minute of its period or
interval (for instance %midhourly at minute 29) skipped a whole period, or ran
a second time in the same interval (xx:59, as minute 60 matches nothing).
---
 database.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/database.c b/database.c
index 8b6d4fb..30e28ee 100644
--- a/database.c
+++ b/database.c
@@ -1069,17 +1069,21 @@ set_next_exe(cl_t *line, char option, int info_fd)
         /* creates a bug on DST change on some systems ?? */
         /* ftime.tm_isdst = -1; */
 
-        /* to prevent multiple execution of &-jobs in the same minute
-         * (but not if the user has explicitely asked to run jobs immediately) */
-        if (first_sleep > 0 || option == STD || line->cl_runfreq != 1) {
+        if (line->cl_runfreq == 1 && option != NO_GOTO && option != NO_GOTO_LOG) {
+            /* %-line: go to next period
+             * (starting from this very minute, which may be the last one
+             * of the current interval) */
+            move_time_to(BEGIN_NEXT_PERIOD, line, &ftime);
+            ftime.tm_sec = 0;
+        }
+        else if (first_sleep > 0 || option == STD || line->cl_runfreq != 1) {
+            /* to prevent multiple execution of &-jobs in the same minute
+             * (but not if the user has explicitely asked to run jobs
+             * immediately) */
             ftime.tm_min += 1;
             ftime.tm_sec = 0;
         }
 
-        if (line->cl_runfreq == 1 && option != NO_GOTO && option != NO_GOTO_LOG)
-            /* %-line: go to next period */
-            move_time_to(BEGIN_NEXT_PERIOD, line, &ftime);
-
  setMonth:
         for (i = ftime.tm_mon; (bit_test(line->cl_mons, i) == 0) && (i < 12);
              i++) ;
-- 
2.43.0


From 1e30515553d85bf7de814706c57f200845af9af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:14 +0000
Subject: [PATCH 04/52] fix: a runatreboot line interrupted by a crash never
 ran again

When fcron had been killed during the execution of a runatreboot line, cl_numexe
read from the disk was never reset, so each later execution was skipped as if
the job were still running. Only at boot, where the line is run anyway, must it
not be queued again.
---
 database.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/database.c b/database.c
index 30e28ee..3d91671 100644
--- a/database.c
+++ b/database.c
@@ -1443,11 +1443,13 @@ set_next_exe_startup(struct cl_t *cl, const int context,
      * - runatreboot has higher priority than jobs that were still running
      *   when fcron stopped, because the former will get run quicker as they are not
      *   put into the serial queue. runatreboot jobs will be handled later on. */
-    if (context != CONTEXT_RESUME && cl->cl_numexe > 0
-        && !is_runatreboot(cl->cl_option)) {
+    if (context != CONTEXT_RESUME && cl->cl_numexe > 0) {
 
         cl->cl_numexe = 0;
-        if (is_lavg(cl->cl_option)) {
+        if (context == CONTEXT_BOOT && is_runatreboot(cl->cl_option))
+            /* will be run below */
+            clear_serial_once(cl->cl_option);
+        else if (is_lavg(cl->cl_option)) {
             if (!is_strict(cl->cl_option))
                 add_lavg_job(cl, -1);
         }
-- 
2.43.0


From 0c14d2aa0fda5ea6ba438c01c64434d1852a4aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:14 +0000
Subject: [PATCH 05/52] fix: do not restart a volatile @-line on system resume

A volatile line restarts counting each time fcron is started; a resume must
only delay it by the time suspended.
---
 database.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 3d91671..32f559d 100644
--- a/database.c
+++ b/database.c
@@ -1571,7 +1571,8 @@ set_next_exe_startup(struct cl_t *cl, const int context,
             || (context == CONTEXT_RESUME && is_runatresume(cl->cl_option))) {
             cl->cl_nextexe = now;
         }
-        else if (is_new_file || is_volatile(cl->cl_option)
+        else if (is_new_file
+                 || (is_volatile(cl->cl_option) && context != CONTEXT_RESUME)
                  || (context == CONTEXT_BOOT && (is_rebootreset(cl->cl_option)
                                                  || is_runonce(cl->cl_option)))) {
             /* cl_first is always saved to disk for a volatile line */
-- 
2.43.0


From 532ed1ed1ee59e8c77c4a6a251f80499ec77e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:00 +0000
Subject: [PATCH 06/52] fix: a line whose date never comes ran at a date it
 does not match

---
 database.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/database.c b/database.c
index 32f559d..b5cbe6a 100644
--- a/database.c
+++ b/database.c
@@ -1094,7 +1094,9 @@ set_next_exe(cl_t *line, char option, int info_fd)
                       " years. Maybe this line is corrupted : consider"
                       " reinstalling the fcrontab.",
                       line->cl_shell, MAXYEAR_SCHEDULE_TIME);
-                goto set_cl_nextexe;
+                /* ftime does not match the line: don't run the line then */
+                line->cl_nextexe = TIME_T_MAX;
+                goto insert;
             }
             if (has_changed < 3) {
                 has_changed = 3;
@@ -1220,7 +1222,6 @@ set_next_exe(cl_t *line, char option, int info_fd)
         }
         ftime.tm_min = i;
 
- set_cl_nextexe:
         /* set cl_nextexe (handle the timezone differences) */
 
         /* NOTE : the output of mktime does not depend on the timezone,
@@ -1340,6 +1341,7 @@ set_next_exe(cl_t *line, char option, int info_fd)
                           ftime.tm_min, ftime.tm_sec);
     }
 
+ insert:
     insert_nextexe(line);
 
     if (tz_changed > 0)
-- 
2.43.0


From 49949cabecddb1cf9b16332b66029e1e56c0c7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:36 +0000
Subject: [PATCH 07/52] fix: serial jobs were run out of order or lost when the
 queue grew

---
 database.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database.c b/database.c
index b5cbe6a..0b8e9f1 100644
--- a/database.c
+++ b/database.c
@@ -417,9 +417,9 @@ add_serial_job(cl_t *line, int info_fd)
                 alloc_safe(serial_array_size * sizeof(cl_t *), "serial_array");
 
             /* copy lines in order to have the first line at the index 0 */
-            memcpy(ptr + serial_array_index, serial_array,
+            memcpy(ptr, serial_array + serial_array_index,
                    (sizeof(cl_t *) * (old_size - serial_array_index)));
-            memcpy(ptr, serial_array + (old_size - serial_array_index),
+            memcpy(ptr + (old_size - serial_array_index), serial_array,
                    (sizeof(cl_t *) * serial_array_index));
             serial_array_index = 0;
             Free_safe(serial_array);
-- 
2.43.0


From cf17adfafe44ca38921b21a39e2538e32d4013bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:48 +0000
Subject: [PATCH 08/52] fix: the serial queue could hold more jobs than option
 -q allows

---
 database.c | 54 ++++++++++++++++++++++++++----------------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/database.c b/database.c
index 0b8e9f1..4cb0029 100644
--- a/database.c
+++ b/database.c
@@ -396,35 +396,33 @@ add_serial_job(cl_t *line, int info_fd)
     send_msg_fd_debug(info_fd, "inserting in serial queue '%s'",
                       line->cl_shell);
 
+    if (serial_num >= serial_queue_max) {
+        error_fd(info_fd, "Could not add job : serial queue is full "
+                 "(%d jobs). Consider using option serialonce, fcron's "
+                 "option -m and/or -q : '%s'", serial_queue_max,
+                 line->cl_shell);
+        if (is_notice_notrun(line->cl_option))
+            mail_notrun(line, QUEUE_FULL, NULL);
+        return;
+    }
     if (serial_num >= serial_array_size) {
-        if (serial_num >= serial_queue_max) {
-            error_fd(info_fd, "Could not add job : serial queue is full "
-                     "(%d jobs). Consider using option serialonce, fcron's "
-                     "option -m and/or -q : '%s'", serial_queue_max,
-                     line->cl_shell);
-            if (is_notice_notrun(line->cl_option))
-                mail_notrun(line, QUEUE_FULL, NULL);
-            return;
-        }
-        else {
-            cl_t **ptr = NULL;
-            short int old_size = serial_array_size;
-
-            debug("Resizing serial_array");
-            serial_array_size = (serial_array_size + SERIAL_GROW_SIZE);
-
-            ptr =
-                alloc_safe(serial_array_size * sizeof(cl_t *), "serial_array");
-
-            /* copy lines in order to have the first line at the index 0 */
-            memcpy(ptr, serial_array + serial_array_index,
-                   (sizeof(cl_t *) * (old_size - serial_array_index)));
-            memcpy(ptr + (old_size - serial_array_index), serial_array,
-                   (sizeof(cl_t *) * serial_array_index));
-            serial_array_index = 0;
-            Free_safe(serial_array);
-            serial_array = ptr;
-        }
+        cl_t **ptr = NULL;
+        short int old_size = serial_array_size;
+
+        debug("Resizing serial_array");
+        serial_array_size = (serial_array_size + SERIAL_GROW_SIZE);
+
+        ptr =
+            alloc_safe(serial_array_size * sizeof(cl_t *), "serial_array");
+
+        /* copy lines in order to have the first line at the index 0 */
+        memcpy(ptr, serial_array + serial_array_index,
+               (sizeof(cl_t *) * (old_size - serial_array_index)));
+        memcpy(ptr + (old_size - serial_array_index), serial_array,
+               (sizeof(cl_t *) * serial_array_index));
+        serial_array_index = 0;
+        Free_safe(serial_array);
+        serial_array = ptr;
     }
 
     if ((i = serial_array_index + serial_num) >= serial_array_size)
-- 
2.43.0


From d6143a5bcc107e4c25b24f28779c8570622572de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:52 +0000
Subject: [PATCH 09/52] fix: count of running serial jobs after a reload, a
 failed fork or a bootrun job

---
 conf.c     |  9 ++-------
 database.c | 55 ++++++++++++++++++++++++++++--------------------------
 exe_list.c |  2 +-
 exe_list.h |  2 ++
 4 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/conf.c b/conf.c
index 4b09624..118a211 100644
--- a/conf.c
+++ b/conf.c
@@ -918,13 +918,8 @@ delete_file(const char *user_name)
                  * and wait_all() the corresponding file has been removed.
                  * Plus, we decrement serial_running and lavg_serial_running
                  * as we won't be able to do it at the end of the job */
-                if ((is_serial(e->e_line->cl_option) ||
-                     is_serial_once(e->e_line->cl_option)) &&
-                    !is_lavg(e->e_line->cl_option))
-                    serial_running--;
-                else if (is_serial(e->e_line->cl_option) &&
-                         is_lavg(e->e_line->cl_option))
-                    lavg_serial_running--;
+                if (e->e_running != NULL)
+                    (*e->e_running)--;
                 e->e_line = NULL;
             }
 
diff --git a/database.c b/database.c
index 4cb0029..e3ed744 100644
--- a/database.c
+++ b/database.c
@@ -38,7 +38,7 @@ void move_time_to(int where, cl_t * line, struct tm *ftime);
 #define END_OF_INTERVAL 12      /* move_time_to()'s where possible value */
 void run_serial_job(void);
 void run_lavg_job(lavg_t * l);
-void run_queue_job(cl_t * line);
+int run_queue_job(cl_t * line, short int *running);
 int is_loop_in_queue(void);
 
 
@@ -181,7 +181,7 @@ run_normal_job(cl_t *line, int info_fd)
     if (line->cl_numexe <= 0 ||
         (is_exe_sev(line->cl_option) && line->cl_numexe < UCHAR_MAX)) {
         line->cl_numexe += 1;
-        run_queue_job(line);
+        run_queue_job(line, NULL);
         send_msg_fd(info_fd, "Job '%s' started.", line->cl_shell);
     }
     else {
@@ -196,10 +196,8 @@ void
 run_lavg_job(lavg_t *l)
 {
 
-    run_queue_job(l->l_line);
-
-    if (is_serial(l->l_line->cl_option))
-        lavg_serial_running++;
+    run_queue_job(l->l_line, is_serial(l->l_line->cl_option) ?
+                  &lavg_serial_running : NULL);
 
 }
 
@@ -215,10 +213,11 @@ run_serial_job(void)
     debug("num: %d running:%d  index:%d", serial_num, serial_running,
           serial_array_index);
     if (serial_num != 0) {
-        run_queue_job(serial_array[serial_array_index]);
+        if (run_queue_job(serial_array[serial_array_index],
+                          &serial_running) != OK)
+            clear_serial_once(serial_array[serial_array_index]->cl_option);
         serial_array[serial_array_index] = NULL;
 
-        serial_running++;
         if (++serial_array_index >= serial_array_size)
             serial_array_index -= serial_array_size;
         serial_num--;
@@ -227,26 +226,34 @@ run_serial_job(void)
 }
 
 
-void
-run_queue_job(cl_t *line)
-    /* run a job */
+int
+run_queue_job(cl_t *line, short int *running)
+    /* run a job, and count it in *running until it ends (unless that's NULL).
+     * Return ERR if it could not be run, OK otherwise. */
 {
 
-    exe_t e = { NULL, 0, 0 };
+    exe_t e = { NULL, 0, 0, NULL };
 
 /*      // */
 /*      debug("run_queue_job"); */
 /*      // */
 
     e.e_line = line;
+    e.e_running = running;
 
     /* run the job */
-    if (run_job(&e) == OK) {
-        /* append job to the list of executed job */
-        exe_list_add(exe_list, &e);
-        line->cl_file->cf_running += 1;
+    if (run_job(&e) != OK) {
+        line->cl_numexe -= 1;
+        return ERR;
     }
 
+    /* append job to the list of executed job */
+    exe_list_add(exe_list, &e);
+    line->cl_file->cf_running += 1;
+    if (running != NULL)
+        (*running)++;
+
+    return OK;
 }
 
 int
@@ -573,19 +580,13 @@ wait_chld(void)
                     line->cl_numexe -= 1;
                     line->cl_file->cf_running -= 1;
 
-                    if (is_serial_once(line->cl_option)) {
+                    if (e->e_running == &serial_running) {
                         clear_serial_once(line->cl_option);
                         if (--serial_running < serial_max_running)
                             run_serial_job();
                     }
-                    else if (is_serial(line->cl_option)
-                             && !is_lavg(line->cl_option)) {
-                        if (--serial_running < serial_max_running)
-                            run_serial_job();
-                    }
-                    else if (is_lavg(line->cl_option)
-                             && is_serial(line->cl_option))
-                        lavg_serial_running--;
+                    else if (e->e_running != NULL)
+                        (*e->e_running)--;
                 }
 
                 exe_list_remove_cur(exe_list);
@@ -622,8 +623,10 @@ wait_all(int *counter)
                     e->e_line->cl_numexe -= 1;
                     e->e_line->cl_file->cf_running -= 1;
 
-                    if (is_serial_once(e->e_line->cl_option))
+                    if (e->e_running == &serial_running)
                         clear_serial_once(e->e_line->cl_option);
+                    if (e->e_running != NULL)
+                        (*e->e_running)--;
 
                 }
 
diff --git a/exe_list.c b/exe_list.c
index 9e4ce53..a711fac 100644
--- a/exe_list.c
+++ b/exe_list.c
@@ -41,7 +41,7 @@ exe_list_init(void)
 exe_t *
 exe_list_add_line(exe_list_t *list, struct cl_t *line)
 {
-    exe_t e = { NULL, 0, 0 };
+    exe_t e = { NULL, 0, 0, NULL };
     e.e_line = line;            /* ANSI C does not allow us to directly replace NULL by line above */
 
     return (exe_t *) u_list_add((u_list_t *) list, (u_list_entry_t *) & e);
diff --git a/exe_list.h b/exe_list.h
index 6356bbb..cd11e7c 100644
--- a/exe_list.h
+++ b/exe_list.h
@@ -37,6 +37,8 @@ typedef struct exe_t {
     struct cl_t *e_line;
     pid_t e_ctrl_pid;           /* pid of the fcron process controling the job */
     pid_t e_job_pid;            /* pid of the job itself */
+    short int *e_running;       /* the count of running jobs this one is part of
+                                 * (serial_running, lavg_serial_running or NULL) */
 } exe_t;
 
 typedef struct u_list_t exe_list_t;
-- 
2.43.0


From 16f25a437f10a6f921cc3e747c5afb0ff1007955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:53 +0000
Subject: [PATCH 10/52] fix: a %-line with strict(false) did not wait for a
 lower load

---
 database.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/database.c b/database.c
index e3ed744..e680f46 100644
--- a/database.c
+++ b/database.c
@@ -1785,8 +1785,7 @@ check_lavg(time_t lim)
     /* first, check if some lines must be executed because of until */
     for (l = lavg_list_first(lavg_list); l != NULL;
          l = lavg_list_next(lavg_list))
-        if ((l->l_line->cl_until > 0 || l->l_line->cl_runfreq == 1)
-            && l->l_until < now) {
+        if (l->l_until > 0 && l->l_until < now) {
             if (!is_run_if_late(l->l_line->cl_option)) {
                 if (!is_nolog(l->l_line->cl_option))
                     explain("Interval of execution exceeded : '%s' (not run)",
-- 
2.43.0


From 3c914af5130630310e0f545021eebcc6cea0cba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:03 +0000
Subject: [PATCH 11/52] fix: a %-line which can run now did not with -l 0 or -o

---
 database.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/database.c b/database.c
index e680f46..4eaaab6 100644
--- a/database.c
+++ b/database.c
@@ -1077,7 +1077,7 @@ set_next_exe(cl_t *line, char option, int info_fd)
             move_time_to(BEGIN_NEXT_PERIOD, line, &ftime);
             ftime.tm_sec = 0;
         }
-        else if (first_sleep > 0 || option == STD || line->cl_runfreq != 1) {
+        else if (first_sleep > 0 || option != NO_GOTO || line->cl_runfreq != 1) {
             /* to prevent multiple execution of &-jobs in the same minute
              * (but not if the user has explicitely asked to run jobs
              * immediately) */
@@ -1228,6 +1228,8 @@ set_next_exe(cl_t *line, char option, int info_fd)
         /* NOTE : the output of mktime does not depend on the timezone,
          *        hence, nextexe is correct even if option timezone is used. */
         nextexe = mktime_no_dst(&ftime);
+        if (nextexe - ftime.tm_sec > basetime_tz)
+            nextexe -= ftime.tm_sec;
 
         if (is_random(line->cl_option)) {
             /* run the job at a random time during its interval of execution */
@@ -1288,7 +1290,7 @@ set_next_exe(cl_t *line, char option, int info_fd)
          * We add a test here to limit the consequences that would have
          * an unknown bug in this function.
          */
-        if (line->cl_nextexe <= now) {
+        if (line->cl_nextexe < now) {
             error("BUG ??? Fcron thinks the next exe time of '%s' is %ld, "
                   "hence before now (%ld). To avoid infinite loop, nextexe"
                   " will be set at now+5s.", line->cl_shell, line->cl_nextexe);
-- 
2.43.0


From 4e867483eb8a81de68c6ce1e4df955bc92ae7376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:03 +0000
Subject: [PATCH 12/52] fix: a job which ended while fcron waited for another
 file's jobs to stop ran again

---
 fcron.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fcron.c b/fcron.c
index 0be2604..ed7fea6 100644
--- a/fcron.c
+++ b/fcron.c
@@ -219,8 +219,10 @@ xexit(int exit_value)
             debug("waiting jobs for %s ...", f->cf_user);
             /* */
             wait_all(&f->cf_running);
-            save_file(f);
         }
+        /* its jobs may also have ended while we were waiting for the ones
+         * of another file */
+        save_file(f);
         delete_file(f->cf_user);
 
         /* delete_file remove the f file from the list :
-- 
2.43.0


From c023199279ac254fe4e1944477e706dc62957467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:08 +0000
Subject: [PATCH 13/52] fix: the lavg queue could hold more jobs than option -q
 allows

---
 u_list.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/u_list.c b/u_list.c
index 4f991ea..ef54cab 100644
--- a/u_list.c
+++ b/u_list.c
@@ -151,6 +151,10 @@ u_list_add(u_list_t *l, u_list_entry_t *e)
     if (l == NULL || e == NULL)
         die("Invalid arguments for u_list_add(): list=%d, entry=%d", l, e);
 
+    /* max_entries may be smaller than the initial size of the array */
+    if (l->max_entries > 0 && l->num_entries >= l->max_entries)
+        return NULL;
+
     /* Check there is some space left, or resize the array */
     if (l->num_entries >= l->array_size) {
         /* no more space: attempt to grow (the following function dies on error: */
-- 
2.43.0


From 22b9203cfdbf64ccae49dcb6522334b234185e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:31 +0000
Subject: [PATCH 14/52] fix: notice of non-execution gave the next run as the
 missed one

---
 database.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/database.c b/database.c
index 4eaaab6..a9b48ec 100644
--- a/database.c
+++ b/database.c
@@ -1648,12 +1648,12 @@ mail_notrun_time_t(cl_t *line, char context, time_t since_time_t)
     struct tm since;
     int tz_changed = 0;
 
-    since2 = localtime(&line->cl_nextexe);
-    memcpy(&since, since2, sizeof(since));
-
     tz_changed = switch_timezone(orig_tz_envvar, line->cl_tz);
 
-    mail_notrun(line, SYSDOWN, &since);
+    since2 = localtime(&since_time_t);
+    memcpy(&since, since2, sizeof(since));
+
+    mail_notrun(line, context, &since);
 
     if (tz_changed > 0)
         switch_back_timezone(orig_tz_envvar);
-- 
2.43.0


From cf7bb608fd5900ae83ed50325b70128ca6587158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 15/52] fix: a changed line kept the schedule of the old one
 when an fcrontab is installed

---
 conf.c | 65 +++++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 42 insertions(+), 23 deletions(-)

diff --git a/conf.c b/conf.c
index 118a211..d0ea485 100644
--- a/conf.c
+++ b/conf.c
@@ -202,6 +202,39 @@ synchronize_dir(const char *dir_name, int is_system_startup)
 }
 
 
+static int
+same_schedule(cl_t *a, cl_t *b)
+    /* are these two lines to be run at the same times ? */
+{
+    /* it's the size of all time table (mins, days ...) */
+    const size_t size = (bitstr_size(60) + bitstr_size(24) +
+                         bitstr_size(32) + bitstr_size(12) + bitstr_size(7));
+
+    if (is_freq(a->cl_option) != is_freq(b->cl_option))
+        return 0;
+
+    if (is_freq(a->cl_option))
+        return (a->cl_timefreq == b->cl_timefreq);
+
+    return (memcmp(&(a->cl_mins), &(b->cl_mins), size) == 0
+            && is_dayor(a->cl_option) == is_dayor(b->cl_option)
+            /* same type of line (%-lines have a runfreq of 1) */
+            && (a->cl_runfreq == 1) == (b->cl_runfreq == 1)
+            && is_freq_mins(a->cl_option) == is_freq_mins(b->cl_option)
+            && is_freq_hrs(a->cl_option) == is_freq_hrs(b->cl_option)
+            && is_freq_days(a->cl_option) == is_freq_days(b->cl_option)
+            && is_freq_mons(a->cl_option) == is_freq_mons(b->cl_option)
+            && is_freq_dow(a->cl_option) == is_freq_dow(b->cl_option)
+            && is_freq_periodically(a->cl_option) ==
+            is_freq_periodically(b->cl_option)
+            && is_freq_mid(a->cl_option) == is_freq_mid(b->cl_option)
+            /* same timezone */
+            && strcmp(a->cl_tz != NULL ? a->cl_tz : "",
+                      b->cl_tz != NULL ? b->cl_tz : "") == 0
+            && a->cl_file->cf_tzdiff == b->cl_file->cf_tzdiff);
+}
+
+
 void
 synchronize_file(char *file_name, int is_system_startup)
 {
@@ -233,11 +266,6 @@ synchronize_file(char *file_name, int is_system_startup)
             cf_t *old = NULL;
             cl_t *old_l = NULL;
             cl_t *new_l = NULL;
-            /* size used when comparing two line :
-             * it's the size of all time table (mins, days ...) */
-            const size_t size = (bitstr_size(60) + bitstr_size(24) +
-                                 bitstr_size(32) + bitstr_size(12) +
-                                 bitstr_size(7));
 
             old = cur_f;
 
@@ -268,27 +296,18 @@ synchronize_file(char *file_name, int is_system_startup)
                     /* compare the shell command and the fields
                      * from cl_mins down to cl_runfreq or the timefreq */
                     if (strcmp(new_l->cl_shell, old_l->cl_shell) == 0
-                        && ((is_freq(new_l->cl_option)
-                             && new_l->cl_timefreq == old_l->cl_timefreq)
-                            || (is_td(new_l->cl_option)
-                                && memcmp(&(new_l->cl_mins), &(old_l->cl_mins),
-                                          size) == 0
-                                && is_dayor(new_l->cl_option) ==
-                                is_dayor(old_l->cl_option))
-                        )) {
+                        && same_schedule(new_l, old_l)) {
+
+                        /* a runonce job which is not runonce anymore is not
+                         * in the queue: keep the schedule of the new line */
+                        if (is_runonce(old_l->cl_option)
+                            && is_hasrun(old_l->cl_option)
+                            && !is_runonce(new_l->cl_option))
+                            break;
 
                         if (new_l->cl_runfreq == old_l->cl_runfreq)
                             new_l->cl_remain = old_l->cl_remain;
-                        /* check if there is a change about the tz diff */
-                        if ((new_l->cl_file->cf_tzdiff !=
-                             old_l->cl_file->cf_tzdiff) &&
-                            (old_l->cl_nextexe - old_l->cl_file->cf_tzdiff
-                             + new_l->cl_file->cf_tzdiff > now))
-                            new_l->cl_nextexe = old_l->cl_nextexe
-                                - old_l->cl_file->cf_tzdiff +
-                                new_l->cl_file->cf_tzdiff;
-                        else
-                            new_l->cl_nextexe = old_l->cl_nextexe;
+                        new_l->cl_nextexe = old_l->cl_nextexe;
 
                         if (is_runonce(new_l->cl_option)
                             && is_runonce(old_l->cl_option)
-- 
2.43.0


From 280cc26a9839baf1defa3b8f145964330320f928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 16/52] fix: an @-line which could not run before fcron stopped
 was postponed by a whole period

---
 database.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/database.c b/database.c
index a9b48ec..13bb1fa 100644
--- a/database.c
+++ b/database.c
@@ -1602,9 +1602,11 @@ set_next_exe_startup(struct cl_t *cl, const int context,
             if (cl->cl_nextexe != LONG_MAX) {
                 cl->cl_nextexe += sleep_duration;
 
-                if (cl->cl_nextexe < now && context == CONTEXT_RESUME) {
+                if (cl->cl_nextexe < now && cl->cl_nextexe >= sleep_duration) {
                     /* userland processes including fcron may not run for a short
-                     * time before suspend, or after resume, so we can end up in this situation.
+                     * time before suspend, or after resume, and fcron may have been
+                     * stopped (or told to reload) before it could run that job (e.g. during
+                     * its first sleep), so we can end up in this situation.
                      * it's not really an error though, and it's best to simply run that job now */
                     cl->cl_nextexe = now;
                 }
-- 
2.43.0


From fba7521066d5468cd1047458ad58fd91dffe47ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 17/52] fix: month names meant the month before (jan was
 rejected or corrupted memory)

---
 fileconf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index f6855a3..4ce4e93 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1833,7 +1833,8 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
 
         for (i = 0; names[i]; ++i)
             if (strncmp(ptr, names[i], strlen(names[i])) == 0) {
-                *num = i;
+                /* months are numbered from 1 */
+                *num = (names == mons_ary) ? i + 1 : i;
                 ptr += strlen(names[i]);
                 return ptr;
                 break;
-- 
2.43.0


From afe7b5859bf4b2e74f08f602248df527016f989d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 18/52] fix: a range of one value ("5-5") selected every value
 of the field

---
 fileconf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 4ce4e93..d0963f4 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1961,7 +1961,7 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
         if (debug_opt)
             fprintf(stderr, " %d-%d/%d", start, stop, step);
 
-        if (start < stop)
+        if (start <= stop)
             for (i = start; i <= stop; i += step)
                 bit_set(ary, i);
         else {
-- 
2.43.0


From 1549500ba4ed7090ec61ceb23df32f1f389b8fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 19/52] fix: "*/n" in the day field counted from day 0

---
 fileconf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index d0963f4..8aac372 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1763,6 +1763,8 @@ read_period(char *ptr, cf_t *cf)
                 goto ok;
         }
         if (!is_freq_days(cl->cl_option)) {
+            /* there is no day 0: ignore it */
+            bit_set(cl->cl_days, 0);
             bit_ffc(cl->cl_days, s_days, &j);
             if (j != -1 && j < s_days) {
                 if (is_dayand(cl->cl_option))
@@ -1902,7 +1904,7 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
 
         if (*ptr == '*') {
             /* we have to fill everything (may be modified by a step ) */
-            start = 0;
+            start = (max == 31) ? 1 : 0;
             /* user set month from 1 to 12, but we manage it internally
              * as a number from 0 to 11 */
             stop = (max == 12) ? 11 : max;
-- 
2.43.0


From 55d78e156aba8431b3a16f212e4093fb67523e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 20/52] fix: reject empty items, missing commas and out of
 range values in time fields

---
 fileconf.c | 67 +++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 24 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 8aac372..ef96b36 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -35,6 +35,7 @@ char *get_num(char *ptr, int *num, int max, short int decimal,
               const char **names);
 char *get_nice(char *ptr, int *nice);
 char *get_bool(char *ptr, int *i);
+char *get_field_num(char *ptr, int *num, int max, const char **names);
 char *read_field(char *ptr, bitstr_t * ary, int max, const char **names);
 void read_freq(char *ptr, cf_t * cf);
 void read_arys(char *ptr, cf_t * cf);
@@ -1570,7 +1571,8 @@ read_freq(char *ptr, cf_t *cf)
           fprintf(stderr, "\n"); \
       fprintf(stderr, "%s:%d: Error while reading " DESCRP " field: " \
              "skipping line.\n", file_name, line); \
-      Free_safe(cl); \
+      need_correction = 1; \
+      free_line(cl); \
       return; \
   }
 
@@ -1849,7 +1851,14 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
     }
     else {
 
-        while (isdigit((int)*ptr) || *ptr == '.') {
+        /* there must be a number (".5" is allowed for decimals only) */
+        if (!isdigit((int)*ptr)
+            && !(decimal > 0 && *ptr == '.' && isdigit((int)*(ptr + 1)))) {
+            need_correction = 1;
+            return NULL;
+        }
+
+        while (isdigit((int)*ptr) || (decimal > 0 && *ptr == '.')) {
 
             if (*ptr == '.' && ptr++ && i++ > 0)
                 return NULL;
@@ -1884,6 +1893,27 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
 }
 
 
+char *
+get_field_num(char *ptr, int *num, int max, const char **names)
+    /* read a number (or a name) of a time and date field:
+     * days of month and months start from 1.
+     * The user sets months from 1 to 12, but we manage them internally
+     * as numbers from 0 to 11. */
+{
+    if ((ptr = get_num(ptr, num, max, 0, names)) == NULL)
+        return NULL;
+
+    if (*num < ((max == 31 || max == 12) ? 1 : 0)) {
+        need_correction = 1;
+        return NULL;
+    }
+
+    if (max == 12)
+        *num -= 1;
+
+    return ptr;
+}
+
 char *
 read_field(char *ptr, bitstr_t *ary, int max, const char **names)
     /* read a field like "2,5-8,10-20/2,21-30~25" and fill ary */
@@ -1893,14 +1923,18 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
     int step = 0;
     int rm = 0;
     int i = 0;
+    int first_item = 1;
 
     while ((*ptr != ' ') && (*ptr != '\t') && (*ptr != '\0')) {
 
         start = stop = step = 0;
 
-        /* there may be a "," */
-        if (*ptr == ',')
-            ptr++;
+        /* the items are separated by a "," */
+        if (!first_item && *ptr++ != ',') {
+            need_correction = 1;
+            return NULL;
+        }
+        first_item = 0;
 
         if (*ptr == '*') {
             /* we have to fill everything (may be modified by a step ) */
@@ -1912,14 +1946,9 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
         }
         else {
 
-            ptr = get_num(ptr, &start, max, 0, names);
+            ptr = get_field_num(ptr, &start, max, names);
             if (ptr == NULL)
                 return NULL;
-            if (max == 12)
-                /* this number is part of the month field.
-                 * user set it from 1 to 12, but we manage it internally
-                 * as a number from 0 to 11 : we remove 1 to start */
-                start -= 1;
 
             if (*ptr == ',' || *ptr == ' ' || *ptr == '\t') {
                 /* this is a single number : set up array and continue */
@@ -1932,15 +1961,10 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
             /* check for a dash */
             else if (*ptr == '-') {
                 ptr++;
-                ptr = get_num(ptr, &stop, max, 0, names);
+                ptr = get_field_num(ptr, &stop, max, names);
                 if (ptr == NULL)
                     /* we reached the end of the string to parse */
                     return NULL;
-                if (max == 12)
-                    /* this number is part of the month field.
-                     * user set it from 1 to 12, but we manage it internally
-                     * as a number from 0 to 11 : we remove 1 to stop */
-                    stop -= 1;
             }
             else {
                 /* syntax error */
@@ -1952,7 +1976,7 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
         /* check for step size */
         if (*ptr == '/') {
             ptr++;
-            if ((ptr = get_num(ptr, &step, max, 0, names)) == NULL || step == 0)
+            if ((ptr = get_num(ptr, &step, max, 0, NULL)) == NULL || step == 0)
                 return NULL;
         }
         else
@@ -1980,13 +2004,8 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
         while (*ptr == '~') {
             ptr++;
             rm = 0;
-            if ((ptr = get_num(ptr, &rm, max, 0, names)) == NULL)
+            if ((ptr = get_field_num(ptr, &rm, max, names)) == NULL)
                 return NULL;
-            if (max == 12)
-                /* this number is part of the month field.
-                 * user set it from 1 to 12, but we manage it internally
-                 * as a number from 0 to 11 : we remove 1 to rm */
-                rm -= 1;
 
             if (debug_opt)
                 fprintf(stderr, " ~%d", rm);
-- 
2.43.0


From 6fd8c484bc37da79b7e79819f0381397dc1e867b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 21/52] fix: load averages above 25.5 were silently truncated

---
 fileconf.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index ef96b36..3b0a210 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1884,8 +1884,13 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
 
         }
 
-        if (decimal > 0)
+        if (decimal > 0) {
             *num *= 10 * decimal;
+            if (*num > max) {
+                need_correction = 1;
+                return NULL;
+            }
+        }
 
     }
 
-- 
2.43.0


From 23a05ae6f489518ba959e80c50a0d9facda1503a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:42 +0000
Subject: [PATCH 22/52] fix: an earlier error in the fcrontab made valid runas
 options be ignored

---
 fileconf.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 3b0a210..d212f0f 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1062,15 +1062,12 @@ read_opt(char *ptr, cl_t *cl)
                         "ignored", runas);
                 need_correction = 1;
             }
-
-            if (need_correction) {
-                Free_safe(runas);
-            }
             else {
                 /* only set cl_runas if all is well, as cl_runas MUST always
                  * be set to a valid value */
                 Set(cl->cl_runas, runas);
             }
+            Free_safe(runas);
 
             /* all good */
             if (debug_opt)
-- 
2.43.0


From d7c459d5759ba25fc340b90f7f698a962d1fdfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 23/52] fix: off by one when reading long option and shortcut
 names

---
 fileconf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index d212f0f..24980a0 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -534,7 +534,7 @@ read_opt(char *ptr, cl_t *cl)
         i = 0;
         bzero(opt_name, sizeof(opt_name));
 
-        while (isalnum((int)*ptr) && i < sizeof(opt_name))
+        while (isalnum((int)*ptr) && i < sizeof(opt_name) - 1)
             opt_name[i++] = *ptr++;
 
         i = 1;
@@ -1317,7 +1317,7 @@ read_word(char *ptr, char *buf, size_t buf_size)
 
     bzero(buf, buf_size);
 
-    while (isalnum((int)*ptr) && i < buf_size)
+    while (isalnum((int)*ptr) && i < buf_size - 1)
         buf[i++] = *ptr++;
 
     return ptr;
-- 
2.43.0


From dd928da6a0cb010f3a360cd97bfbfe538bec0801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:46 +0000
Subject: [PATCH 24/52] fix: option first set for the whole file was ignored,
 and reset made it 0

---
 fileconf.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 24980a0..1f8f1e3 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -169,6 +169,7 @@ init_default_line(cl_t *cl, cf_t *cf)
     Set(cl->cl_mailto, runas);
     Free_safe(cl->cl_tz);
     set_default_opt(cl->cl_option);
+    cl->cl_first = -1;          /* 0 is a valid value, so we have to use -1 to detect unset */
     cl->cl_file = cf;
 }
 
@@ -1482,8 +1483,6 @@ read_freq(char *ptr, cf_t *cf)
 
     cl = dups_cl(&default_line);
 
-    cl->cl_first = -1;          /* 0 is a valid value, so we have to use -1 to detect unset */
-
     /* skip the @ */
     ptr++;
 
-- 
2.43.0


From 57352dc76330aebf1ab7c1f67a393f9f772a89e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 25/52] fix: unknown options of %-lines were silently ignored

---
 fileconf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fileconf.c b/fileconf.c
index 1f8f1e3..3af74ad 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1194,9 +1194,12 @@ read_opt(char *ptr, cl_t *cl)
                 if (debug_opt)
                     fprintf(stderr, "  Opt : \"%s\"\n", opt_name);
             }
+            else
+                goto unknown;
         }
 
         else {
+ unknown:
             fprintf(stderr, "%s:%d: Option \"%s\" unknown: "
                     "skipping option.\n", file_name, line, opt_name);
             need_correction = 1;
-- 
2.43.0


From 3691c680475fadd7af62045984ec63c9cc830e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 26/52] fix: fcrontab crashed on option tzdiff set in an entry

---
 fileconf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fileconf.c b/fileconf.c
index 3af74ad..7e0b10e 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1338,6 +1338,7 @@ read_shortcut(char *ptr, cf_t *cf)
     char *ptr_orig = ptr;
 
     cl = dups_cl(&default_line);
+    cl->cl_file = cf;
 
     /* skip the @ */
     ptr++;
@@ -1485,6 +1486,7 @@ read_freq(char *ptr, cf_t *cf)
     cl_t *cl = NULL;
 
     cl = dups_cl(&default_line);
+    cl->cl_file = cf;
 
     /* skip the @ */
     ptr++;
@@ -1584,6 +1586,7 @@ read_arys(char *ptr, cf_t *cf)
     int i = 0;
 
     cl = dups_cl(&default_line);
+    cl->cl_file = cf;
 
     /* set cl_remain if not specified */
     if (*ptr == '&') {
@@ -1670,6 +1673,7 @@ read_period(char *ptr, cf_t *cf)
     short int remain = 8;
 
     cl = dups_cl(&default_line);
+    cl->cl_file = cf;
 
     /* skip the % */
     ptr++;
-- 
2.43.0


From 894d3f61efb61a789237106e6903037b810a076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:53 +0000
Subject: [PATCH 27/52] fix: until(0) was refused

---
 fileconf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 7e0b10e..263d89b 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -866,7 +866,7 @@ read_opt(char *ptr, cl_t *cl)
 
         else if (strcmp(opt_name, "u") == 0 || strcmp(opt_name, "until") == 0) {
             if (!in_brackets
-                || (ptr = get_time(ptr, &(cl->cl_until), 0)) == NULL)
+                || (ptr = get_time(ptr, &(cl->cl_until), 1)) == NULL)
                 Handle_err;
             if (debug_opt)
                 fprintf(stderr, "  Opt : \"%s\" %ld\n", opt_name,
-- 
2.43.0


From e5bd7cd46fa1ca0e922321a80b2cbc2b00dee19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 28/52] fix: an invalid string option left a NULL mailto and
 crashed fcrontab

---
 fileconf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 263d89b..322060f 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -449,11 +449,10 @@ assign_option_string(char **var, char *value)
     char end = '\0';
     size_t len = 0;
 
-    Free_safe(*var);
-
     len = option_strlen(value);
 
     if (len <= 0) {
+        Free_safe(*var);
         return len;
     }
 
@@ -465,6 +464,7 @@ assign_option_string(char **var, char *value)
         return -1;
     }
 
+    Free_safe(*var);
     *var = strndup2(value, len);
 
     return len;
-- 
2.43.0


From 9b3740478b25d74969670bfc7125d7273021237f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 29/52] fix: option reset in a %-line made it a &-line

---
 fileconf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fileconf.c b/fileconf.c
index 322060f..ffebd7f 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -704,7 +704,12 @@ read_opt(char *ptr, cl_t *cl)
             if (in_brackets && (ptr = get_bool(ptr, &i)) == NULL)
                 Handle_err;
             if (i == 1) {
+                /* a %-line remains one (see read_period()) */
+                char is_period = (cl->cl_runfreq == 1);
+
                 init_default_line(cl, cl->cl_file);
+                if (is_period)
+                    cl->cl_remain = cl->cl_runfreq = 1;
             }
             if (debug_opt)
                 fprintf(stderr, "  Opt : \"%s\"\n", opt_name);
-- 
2.43.0


From f3f89ad910e6a9a52004f051be91a0d6cd08c21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 30/52] fix: a step in a range wrapping around the end of the
 days was miscounted

---
 fileconf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index ffebd7f..8cb3373 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -2009,7 +2009,9 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
              * we should set from 22 to 3 (not from 3 to 22 or nothing :)) ) */
             for (i = start; i <= field_max; i += step)
                 bit_set(ary, i);
-            for (i -= (field_max + 1); i <= stop; i += step)
+            /* there is no day 0, and day of week 7 is also 0 */
+            for (i -= (field_max + ((max == 31 || max == 7) ? 0 : 1));
+                 i <= stop; i += step)
                 bit_set(ary, i);
         }
 
-- 
2.43.0


From 9932305d0f99f1b16b5f2a7962a1347937194a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 31/52] fix: a time value without number was accepted

---
 fileconf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fileconf.c b/fileconf.c
index 8cb3373..c712938 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1236,6 +1236,11 @@ get_time(char *ptr, time_t *time, int zero_allowed)
 
         sum = 0;
 
+        if (!isdigit((int)*ptr)) {
+            need_correction = 1;
+            return NULL;
+        }
+
         while (isdigit((int)*ptr)) {
             sum *= 10;
             sum += *ptr - 48;
-- 
2.43.0


From 4a7b180104a9072816cb2f7c81e7e83fb0cd6d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 32/52] fix: root reinstalling a user's fcrontab granted its
 negative nice values

---
 conf.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/conf.c b/conf.c
index d0ea485..db75297 100644
--- a/conf.c
+++ b/conf.c
@@ -864,6 +864,13 @@ add_line_to_file(cl_t *cl, cf_t *cf, uid_t runas, char *runas_str,
             warn("warning: runas(%s) is not owner (%s): overridden.",
                  cl->cl_runas, runas_str);
         Set(cl->cl_runas, runas_str);
+
+        /* only root is allowed to use a negative nice value, but root may have
+         * (re)installed the fcrontab of another user */
+        if (cl->cl_nice < 0) {
+            warn("warning: nice(%d) is negative: overridden.", cl->cl_nice);
+            cl->cl_nice = 0;
+        }
     }
 
     /* we need that here because the user's name contained in the
-- 
2.43.0


From 71bbab5fed529a5c0711c1ac0235ba27dee72238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:09 +0000
Subject: [PATCH 33/52] fix: the end of a too long line was read as new lines
 when it was continued

---
 fileconf.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index c712938..d4120ec 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -118,6 +118,7 @@ get_line(char *str, size_t size, FILE *file)
     size_t size_max = size - 1;
     int i = 0;
     int c;
+    int prev;
 
     while (i < size_max) {
 
@@ -152,8 +153,13 @@ get_line(char *str, size_t size, FILE *file)
 
     }
 
-    /* line is too long : goto next line and return ERR */
-    while (((c = getc(file)) != EOF) && (c != '\n')) ;
+    /* line is too long : goto next (logical) line and return ERR */
+    prev = (i > 0) ? *(str + i - 1) : 0;
+    while (((c = getc(file)) != EOF) && (c != '\n' || prev == '\\')) {
+        if (c == '\n')
+            line++;
+        prev = c;
+    }
     line++;
     need_correction = 1;
     return ERR;
-- 
2.43.0


From 4f23336f22f907b67945b33456b1ee11acf45459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 34/52] fix: the character after a trailing decimal point was
 read as a digit

---
 fileconf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index d4120ec..27f4445 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1879,8 +1879,10 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
 
         while (isdigit((int)*ptr) || (decimal > 0 && *ptr == '.')) {
 
-            if (*ptr == '.' && ptr++ && i++ > 0)
+            if (*ptr == '.' && ptr++ && (i++ > 0 || !isdigit((int)*ptr))) {
+                need_correction = 1;
                 return NULL;
+            }
             if (i > 0 && --decimal < 0) {
                 /* the decimal number is exceeded : we round off,
                  * skip the other decimals and return */
-- 
2.43.0


From 000452c76f7501763223d3622ccf451cc1301aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 35/52] fix: commands starting with a user name (like
 backup.sh) were run as that user

---
 fileconf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 27f4445..51307cf 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1308,7 +1308,8 @@ check_username(char *ptr, cf_t *cf, cl_t *cl)
     strncpy(username, ptr, indx);
     username[indx] = '\0';
 
-    if ((userpwent = getpwnam(username)) != NULL) {
+    if ((isspace((int)ptr[indx]) || ptr[indx] == '\0')
+        && (userpwent = getpwnam(username)) != NULL) {
         /* found the user */
         ptr = ptr + indx;       /* move ptr to the next word */
         Skip_blanks(ptr);
-- 
2.43.0


From 2bfa46b050e0117c32cf9d3d9742ce0d2a1c4714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 36/52] fix: the message about a refused job follows the mail
 headers (PAM errors)

---
 job.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/job.c b/job.c
index ef8b653..a558275 100644
--- a/job.c
+++ b/job.c
@@ -59,6 +59,10 @@ die_mail_pame(cl_t *cl, int pamerrno, struct passwd *pas, char *str,
         FILE *mailf =
             create_mail(cl, "Could not run fcron job", NULL, NULL, envp);
 
+        /* the header must be in the file before what is written directly to it */
+        if (fflush(mailf) != 0)
+            error_e("could not write the mail header");
+
         /* print the error in both syslog and a file, in order to mail it to user */
         if (dup2(fileno(mailf), 1) != 1 || dup2(1, 2) != 2)
             die_e("dup2() error");      /* dup2 also clears close-on-exec flag */
@@ -67,6 +71,8 @@ die_mail_pame(cl_t *cl, int pamerrno, struct passwd *pas, char *str,
         error_pame(pamh, pamerrno, buf, cl->cl_shell);
         error("Job '%s' has *not* run.", cl->cl_shell);
         foreground = 0;
+        /* stderr may be buffered if we are in the background */
+        fflush(stderr);
 
         pam_end(pamh, pamerrno);
 
-- 
2.43.0


From 31d573dca3b0f79af5965e5953f83053d6052017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:51 +0000
Subject: [PATCH 37/52] fix: null characters in the output of a job cut its
 mail

---
 job.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/job.c b/job.c
index a558275..1fb0c0f 100644
--- a/job.c
+++ b/job.c
@@ -717,15 +717,17 @@ run_job(struct exe_t *exeent)
                 if (!to_stdout && is_mail(line->cl_option)) {
                     /* user wants a mail : we use the pipe */
                     char mailbuf[TERM_LEN];
+                    size_t nread = 0;
                     FILE *pipef = fdopen(pipe_fd[0], "r");
 
                     if (pipef == NULL)
                         die_e("Could not fdopen() pipe_fd[0]");
 
-                    mailbuf[sizeof(mailbuf) - 1] = '\0';
-                    while (fgets(mailbuf, sizeof(mailbuf), pipef) != NULL)
-                        if (fputs(mailbuf, mailf) < 0)
-                            warn("fputs() failed to write to mail file for job '%s' (pid %d)", line->cl_shell, pid);
+                    /* (the output may contain null characters) */
+                    while ((nread =
+                            fread(mailbuf, 1, sizeof(mailbuf), pipef)) > 0)
+                        if (fwrite(mailbuf, 1, nread, mailf) < nread)
+                            warn("fwrite() failed to write to mail file for job '%s' (pid %d)", line->cl_shell, pid);
                     /* (closes also pipe_fd[0]): */
                     xfclose_check(&pipef, "child's pipef");
                 }
-- 
2.43.0


From d159b6f8b0275665ddf78938d0b2f98648749e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:52 +0000
Subject: [PATCH 38/52] fix: output is not mailed when the mail header is
 longer than 32767 bytes

---
 job.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/job.c b/job.c
index 1fb0c0f..8fc18eb 100644
--- a/job.c
+++ b/job.c
@@ -30,7 +30,7 @@
 
 
 void sig_dfl(void);
-void end_job(cl_t * line, int status, FILE * mailf, short mailpos,
+void end_job(cl_t * line, int status, FILE * mailf, long mailpos,
              char **sendmailenv);
 void end_mailer(cl_t * line, int status);
 #ifdef HAVE_LIBPAM
@@ -579,7 +579,7 @@ run_job(struct exe_t *exeent)
             int status = 0;
             int to_stdout = foreground && is_stdout(line->cl_option);
             int pipe_fd[2];
-            short int mailpos = 0;      /* 'empty mail file' size */
+            long mailpos = 0;           /* 'empty mail file' size */
 #ifdef WITH_SELINUX
             int flask_enabled = is_selinux_enabled();
 #endif
@@ -793,7 +793,7 @@ run_job(struct exe_t *exeent)
 }
 
 void
-end_job(cl_t *line, int status, FILE *mailf, short mailpos, char **sendmailenv)
+end_job(cl_t *line, int status, FILE *mailf, long mailpos, char **sendmailenv)
     /* if task have made some output, mail it to user */
 {
 
-- 
2.43.0


From d82058532ff243d04b7ccdef634a6f84f5327d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 39/52] fix: no shell is left when SHELL is unusable and
 fcron.conf sets none

---
 job.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/job.c b/job.c
index 8fc18eb..04ad61b 100644
--- a/job.c
+++ b/job.c
@@ -131,6 +131,7 @@ setup_user_and_env(struct cl_t *cl, struct passwd *pas,
     env_t *e = NULL;
     char *path = NULL;
     char *myshell = NULL;
+    char *defshell = NULL;
 #ifdef HAVE_LIBPAM
     int retcode = 0;
     char **env;
@@ -154,10 +155,11 @@ setup_user_and_env(struct cl_t *cl, struct passwd *pas,
      * in /etc/passwd by default, but the default value from fcron.conf instead: */
     if (shell != NULL && shell[0] != '\0')
         /* default: use value from fcron.conf */
-        env_list_setenv(env_list, "SHELL", shell, 1);
+        defshell = shell;
     else
         /* shell is empty, ie. not defined: fail back to /etc/passwd's value */
-        env_list_setenv(env_list, "SHELL", pas->pw_shell, 1);
+        defshell = pas->pw_shell;
+    env_list_setenv(env_list, "SHELL", defshell, 1);
 
 #if ( ! defined(RUN_NON_PRIVILEGED)) && defined(HAVE_LIBPAM)
     /* Open PAM session for the user and obtain any security
@@ -219,17 +221,17 @@ setup_user_and_env(struct cl_t *cl, struct passwd *pas,
         /* check that SHELL is valid */
         myshell = env_list_getenv(env_list, "SHELL");
         if (myshell == NULL || myshell[0] == '\0') {
-            myshell = shell;
+            myshell = defshell;
         }
         else if (access(myshell, X_OK) != 0) {
             if (errno == ENOENT)
                 error("shell \"%s\" : no file or directory. SHELL set to %s",
-                      myshell, shell);
+                      myshell, defshell);
             else
                 error_e("shell \"%s\" not valid : SHELL set to %s", myshell,
-                        shell);
+                        defshell);
 
-            myshell = shell;
+            myshell = defshell;
         }
         env_list_setenv(env_list, "SHELL", myshell, 1);
         if (curshell != NULL)
-- 
2.43.0


From cc2d86e95c4066d3b5ce7590b473a16d9af65786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:54 +0000
Subject: [PATCH 40/52] fix: a negative nice value has no effect on root's jobs
 run as another user

---
 job.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/job.c b/job.c
index 04ad61b..b719287 100644
--- a/job.c
+++ b/job.c
@@ -619,6 +619,10 @@ run_job(struct exe_t *exeent)
                     die_e("could not pipe() (job not executed)");
             }
 
+            /* only root can lower a nice value: do it before becoming the user */
+            if (line->cl_nice < 0)
+                run_job_grand_child_setup_nice(line);
+
             become_user(line, pas, curhome);
             Free_safe(curhome);
 
@@ -657,7 +661,8 @@ run_job(struct exe_t *exeent)
                 foreground = 1;
                 /* now, errors will be mailed to the user (or to /dev/null) */
 
-                run_job_grand_child_setup_nice(line);
+                if (line->cl_nice > 0)
+                    run_job_grand_child_setup_nice(line);
 
                 xcloselog();
 
@@ -690,6 +695,12 @@ run_job(struct exe_t *exeent)
                 /* close unneeded WRITE pipe and READ pipe */
                 xclose_check(&(pipe_fd[1]), "child's pipe_fd[1]");
 
+                /* the raised priority is for the job only */
+                errno = 0;
+                if (line->cl_nice < 0 && nice(-line->cl_nice) == -1
+                    && errno != 0)
+                    error_e("could not restore nice value");
+
 #ifdef CHECKRUNJOB
                 debug("run_job(): child: pipe_fd[1] and pipe_pid_fd[0] closed"
                       " -- about to write grand-child pid to pipe");
-- 
2.43.0


From 1452ac2348b15ab853b369bccd3fea37d7b4ab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:46 +0000
Subject: [PATCH 41/52] fix: after a fcrondyn client left, only the one with
 the lowest descriptor was served

---
 select.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/select.c b/select.c
index e62fef0..018cc46 100644
--- a/select.c
+++ b/select.c
@@ -61,8 +61,9 @@ select_rm_read(select_instance *si, int fd)
         int i;
         for (i = fd; i >= 0; i--) {
             if (FD_ISSET(i, &si->__readfds_master))
-                si->__fd_max = i;
+                break;
         }
+        si->__fd_max = i;
     }
     debug("select: removed fd %d (fd_max=%d)", fd, si->__fd_max);
 }
-- 
2.43.0


From 10946511b702983314b3de00f762455ff69f362b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:47 +0000
Subject: [PATCH 42/52] fix: fcrondyn messages shorter than a command or
 without end read stale bytes

---
 fcrondyn_svr.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 2599254..090c2ac 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -881,7 +881,9 @@ fcrondyn_socket_check(select_instance *si)
     int fd = -1, avoid_fd = -1;
     socklen_t addr_len = sizeof(struct sockaddr_un);
     struct sockaddr_un client_addr;
-    long int buf_int[SOCKET_MSG_LEN];
+    /* (one more than what we read, as the user name and password sent by a client
+     *  may not be null-terminated) */
+    long int buf_int[SOCKET_MSG_LEN + 1];
     int read_len = 0;
     struct fcrondyn_cl *client = NULL, *prev_client = NULL;
 
@@ -961,8 +963,11 @@ fcrondyn_socket_check(select_instance *si)
             continue;
         }
 
+        /* a message may be shorter than the command it should contain */
+        memset(buf_int, 0, sizeof(buf_int));
         if ((read_len =
-             recv(client->fcl_sock_fd, buf_int, sizeof(buf_int), 0)) <= 0) {
+             recv(client->fcl_sock_fd, buf_int,
+                  sizeof(buf_int) - sizeof(buf_int[0]), 0)) <= 0) {
             if (read_len == 0) {
                 /* connection closed by client */
                 remove_connection(&client, prev_client, si);
-- 
2.43.0


From 540b730389793635ff3c697c59f42a49c5e3590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:48 +0000
Subject: [PATCH 43/52] fix: the limit on the number of fcrondyn connections is
 not enforced

---
 fcrondyn_svr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 090c2ac..b00f87f 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -901,6 +901,12 @@ fcrondyn_socket_check(select_instance *si)
                 ("could not accept new connection : isset(listen_fd = %d) = %d",
                  listen_fd, FD_ISSET(listen_fd, &si->readfds));
         }
+        else if (fcrondyn_cl_num >= MAX_CONNECTION) {
+            warn("Too many connections (max is %d) : connection rejected.",
+                 MAX_CONNECTION);
+            shutdown(fd, SHUT_RDWR);
+            xclose_check(&fd, "client fd");
+        }
         else {
             fcntl(fd, F_SETFD, 1);
             /* set fd to O_NONBLOCK : we do not want fcron to be stopped on error, etc */
-- 
2.43.0


From 35feaf7f345a7346bc4fac2f2044011274811351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:49 +0000
Subject: [PATCH 44/52] fix: a refused fcrondyn kill or renice is answered
 twice

---
 fcrondyn_svr.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index b00f87f..af5248b 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -700,12 +700,12 @@ cmd_on_exeq(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
                 " no corresponding running job.";
 
         warn(err_str, cmd[2], client->fcl_user);
-        Send_err_msg_end(fd, err_rjob_nfound_str);
-    }
-    else {
-        Tell_no_more_data(fd);
+        Send_err_msg(fd, err_rjob_nfound_str);
     }
 
+    /* to tell fcrondyn there's no more data to wait */
+    Tell_no_more_data(fd);
+
 }
 
 
@@ -721,7 +721,7 @@ cmd_renice(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e,
         || (int)cmd[1] > 20 || (int)cmd[1] < -20) {
         warn("renice: invalid args : pid: %d nice_value: %d user: %s.",
              e->e_job_pid, (int)cmd[1], client->fcl_user);
-        Send_err_msg_end(fd, err_invalid_args_str);
+        Send_err_msg(fd, err_invalid_args_str);
         return;
     }
 
@@ -729,7 +729,7 @@ cmd_renice(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e,
     if (setpriority(PRIO_PROCESS, e->e_job_pid, (int)cmd[1]) != 0) {
         error_e("could not setpriority(PRIO_PROCESS, %d, %d)",
                 e->e_job_pid, (int)cmd[1]);
-        Send_err_msg_end(fd, err_unknown_str);
+        Send_err_msg(fd, err_unknown_str);
         return;
     }
     else {
@@ -740,7 +740,7 @@ cmd_renice(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e,
 
 #else                           /* HAVE_SETPRIORITY */
     warn("System has no setpriority() : cannot renice. pid: %d nice_value: %d user: %s.", e->e_job_pid, (int)cmd[1], client->fcl_user);
-    Send_err_msg_end(fd, err_cmd_unknown_str);
+    Send_err_msg(fd, err_cmd_unknown_str);
 
 #endif                          /* HAVE_SETPRIORITY */
 }
@@ -753,14 +753,14 @@ cmd_send_signal(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e)
     if (e->e_job_pid <= 0 || (int)cmd[1] <= 0) {
         warn("send_signal: invalid args : pid: %d signal: %d user: %s",
              e->e_job_pid, (int)cmd[1], client->fcl_user);
-        Send_err_msg_end(fd, err_invalid_args_str);
+        Send_err_msg(fd, err_invalid_args_str);
         return;
     }
 
     /* ok, now kill() the job */
     if (kill(e->e_job_pid, (int)cmd[1]) != 0) {
         error_e("could not kill(%d, %d)", e->e_job_pid, (int)cmd[1]);
-        Send_err_msg_end(fd, err_unknown_str);
+        Send_err_msg(fd, err_unknown_str);
         return;
     }
     else {
-- 
2.43.0


From a0cbbbc873774bd80ece1a60d70baaf62517c601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:51 +0000
Subject: [PATCH 45/52] fix: fcrondyn tells users which jobs of others are
 running

---
 fcrondyn_svr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index af5248b..3290cd7 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -651,8 +651,6 @@ cmd_on_exeq(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
     for (e = exe_list_first(exe_list); e != NULL; e = exe_list_next(exe_list)) {
         if (e->e_line != NULL && cmd[2] == e->e_line->cl_id) {
 
-            found = 1;
-
             /* check if the request is valid */
             if (!is_root &&
                 strcmp(client->fcl_user, e->e_line->cl_file->cf_user) != 0) {
@@ -669,11 +667,13 @@ cmd_on_exeq(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
 
                 warn(err_str, client->fcl_user, cmd[1], cmd[2],
                      client->fcl_user);
-                Send_err_msg_end(fd, err_job_nfound_str);
+                /* answer as if that job was not running (see below) */
             }
             else {
                 /* request is valid : do it */
 
+                found = 1;
+
                 if (cmd[0] == CMD_SEND_SIGNAL)
                     cmd_send_signal(client, cmd, fd, e);
                 else if (cmd[0] == CMD_RENICE)
-- 
2.43.0


From 9f0e44e40f7eaa4449e93dffec37f191697b6852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:52 +0000
Subject: [PATCH 46/52] fix: any user could list the system fcrontab through
 fcrondyn

---
 fcrondyn_svr.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 3290cd7..0d3b353 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -564,8 +564,15 @@ cmd_ls(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
             struct passwd *pass;
 
 #ifdef SYSFCRONTAB
-            if (cmd[1] == SYSFCRONTAB_UID)
+            if (cmd[1] == SYSFCRONTAB_UID) {
+                if (!is_root) {
+                    warn("%s is not allowed to see the system fcrontab.",
+                         client->fcl_user);
+                    Send_err_msg_end(fd, err_others_nallowed_str);
+                    return;
+                }
                 user = SYSFCRONTAB;
+            }
             else {
 #endif
                 if ((pass = getpwuid((uid_t) cmd[1])) == NULL) {
-- 
2.43.0


From 68437f0b7924355d81cbded409dfd445437a07c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:53 +0000
Subject: [PATCH 47/52] fix: waiting is not enforced after too many wrong
 fcrondyn passwords

---
 fcrondyn_svr.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 0d3b353..4359740 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -318,7 +318,6 @@ auth_client_password(struct fcrondyn_cl *client)
     if (auth_fail >= MAX_AUTH_FAIL) {
         error("Too many authentication failures : try to connect later.");
         send(client->fcl_sock_fd, "0", sizeof("0"), 0);
-        auth_fail = auth_nofail_since = 0;
         return;
     }
 
-- 
2.43.0


From 50a3640c2fda5018ced294431a17d32fc5696cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:54 +0000
Subject: [PATCH 48/52] fix: a serial job run through fcrondyn waits for the
 next wake-up

---
 fcron.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fcron.c b/fcron.c
index ed7fea6..f508a8e 100644
--- a/fcron.c
+++ b/fcron.c
@@ -954,6 +954,11 @@ main_loop()
         /* check if there's a new connection, a new command to answer, etc ... */
         /* we do that *after* other checks, to avoid Denial Of Service attacks */
         fcrondyn_socket_check(&main_select);
+
+        /* start the serial jobs it may have added to the queue */
+        while (serial_num > 0 && serial_running < serial_max_running) {
+            run_serial_job();
+        }
 #endif
 
         nwt = check_lavg(save);
-- 
2.43.0


From 072c70c1a020755a580c23adcd8ef8e6e4662c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 49/52] fix: entries of mailer processes stay in the list of
 running jobs

---
 database.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/database.c b/database.c
index 13bb1fa..7a9fe02 100644
--- a/database.c
+++ b/database.c
@@ -1686,9 +1686,7 @@ mail_notrun(cl_t *line, char context, struct tm *since)
               line->cl_shell, pid);
 /*  // */
 
-        /* create an entry in exe_list */
-        /* set line to NULL as this is not a line ... */
-        exe_list_add_line(exe_list, NULL);
+        /* (no entry in exe_list : this is not a job) */
         return;
     }
 
-- 
2.43.0


From f274cc3ce842d73ab2a8352d97fedbb446a75eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 50/52] fix: a new fcrontab which cannot be saved is lost at
 the next start

---
 conf.c | 22 ++++++++++++++--------
 conf.h |  2 +-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/conf.c b/conf.c
index db75297..3ad57c5 100644
--- a/conf.c
+++ b/conf.c
@@ -241,6 +241,7 @@ synchronize_file(char *file_name, int is_system_startup)
 
     cf_t *cur_f = NULL;
     char *user = NULL;
+    int saved = OK;
 
     if (strchr(file_name, '.') != NULL) {
         /* this is a new file : we have to check if there is an old
@@ -349,10 +350,10 @@ synchronize_file(char *file_name, int is_system_startup)
             file_base = cur_f;
 
             /* save final file */
-            save_file(cur_f);
+            saved = save_file(cur_f);
 
-            /* delete new.user file */
-            if (remove(file_name) != 0)
+            /* delete new.user file, unless it is the only valid copy */
+            if (saved == OK && remove(file_name) != 0)
                 error_e("could not remove %s", file_name);
 
         }
@@ -373,10 +374,10 @@ synchronize_file(char *file_name, int is_system_startup)
             file_base = cur_f;
 
             /* save as a normal file */
-            save_file(cur_f);
+            saved = save_file(cur_f);
 
-            /* delete new.user file */
-            if (remove(file_name) != 0)
+            /* delete new.user file, unless it is the only valid copy */
+            if (saved == OK && remove(file_name) != 0)
                 error_e("could not remove %s", file_name);
         }
 
@@ -1030,13 +1031,14 @@ delete_file(const char *user_name)
 }
 
 
-void
+int
 save_file(cf_t *arg_file)
 /* Store the informations relatives to the executions
  * of tasks at a defined frequency of system's running time */
 {
     cf_t *file = NULL;
     cf_t *start_file = NULL;
+    int return_val = OK;
 
     if (arg_file != NULL)
         start_file = arg_file;
@@ -1051,10 +1053,14 @@ save_file(cf_t *arg_file)
         /* save the file safely : save it to a temporary name, then rename() it */
         /* chown the file to root:root : this file should only be read and
          * modified by fcron (not fcrontab) */
-        save_file_safe(file, file->cf_user, "fcron", rootuid, rootgid, now);
+        if (save_file_safe(file, file->cf_user, "fcron", rootuid, rootgid, now)
+            != OK)
+            return_val = ERR;
 
         if (arg_file != NULL)
             /* we have to save only a single file */
             break;
     }
+
+    return return_val;
 }
diff --git a/conf.h b/conf.h
index 6036ff3..011c4c6 100644
--- a/conf.h
+++ b/conf.h
@@ -29,6 +29,6 @@
 extern void reload_all(const char *dir_name);
 extern void synchronize_dir(const char *dir_name, int is_system_startup);
 extern void delete_file(const char *user_name);
-extern void save_file(struct cf_t *file_name);
+extern int save_file(struct cf_t *file_name);
 
 #endif                          /* __CONF_H__ */
-- 
2.43.0


From 213238f6be05b365156caa5b1c14670f018619f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:08 +0000
Subject: [PATCH 51/52] fix: a failed installation replaces or removes the
 previous fcrontab

---
 fcrontab.c | 62 ++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index 042584e..9dec78b 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -312,37 +312,59 @@ int
 write_file(int fd)
 {
     int return_val = OK;
+    char orig_path[PATH_LEN];
+    char orig_tmp_path[PATH_LEN];
+    char new_path[PATH_LEN];
+    char new_tmp_path[PATH_LEN];
+
+    snprintf(orig_path, sizeof(orig_path), "%s.orig", user);
+    snprintf(orig_tmp_path, sizeof(orig_tmp_path), "%s.orig.new", user);
+    snprintf(new_path, sizeof(new_path), "new.%s", user);
+    snprintf(new_tmp_path, sizeof(new_tmp_path), "%s.new", user);
+
+    /* write both the original file and the binary fcrontab in the fcrontabs
+     * dir, under names which fcron ignores: nothing is changed until both
+     * are safely on disk */
+    if (copy_src(fd, orig_tmp_path) == ERR)
+        return_val = ERR;
+    else if (file_base->cf_line_base != NULL && save_file(new_tmp_path) != OK)
+        return_val = ERR;
+    else if (rename_as_user(orig_tmp_path, orig_path, useruid, fcrontab_gid) < 0) {
+        error_e("Unable to rename %s to %s : old source file kept",
+                orig_tmp_path, orig_path);
+        return_val = ERR;
+    }
 
-    if (ignore_prev == 1)
-        /* if user wants to ignore previous version, we remove it *
-         * ( fcron daemon remove files no longer wanted before
-         *   adding new ones ) */
-        remove_fcrontab(0);
+    if (return_val != OK) {
+        remove_as_user(orig_tmp_path, useruid, fcrontab_gid);
+        remove_as_user(new_tmp_path, useruid, fcrontab_gid);
+        return return_val;
+    }
 
-    /* copy original file to fcrontabs dir */
-    snprintf(buf, sizeof(buf), "%s.orig", user);
-    if (copy_src(fd, buf) == ERR) {
-        return_val = ERR;
+    if (file_base->cf_line_base == NULL) {
+        /* no entries */
+        explain("%s's fcrontab contains no entries : removed.", user);
+        remove_fcrontab(0);
     }
     else {
-
-        if (file_base->cf_line_base == NULL) {
-            /* no entries */
-            explain("%s's fcrontab contains no entries : removed.", user);
+        if (ignore_prev == 1)
+            /* if user wants to ignore previous version, we remove it *
+             * ( fcron daemon remove files no longer wanted before
+             *   adding new ones ) */
             remove_fcrontab(0);
-        }
-        else {
-            /* write the binary fcrontab on disk */
-            snprintf(buf, sizeof(buf), "new.%s", user);
-            if (save_file(buf) != OK)
-                return_val = ERR;
-        }
 
+        if (rename_as_user(new_tmp_path, new_path, useruid, fcrontab_gid) < 0) {
+            error_e("Unable to rename %s to %s", new_tmp_path, new_path);
+            /* try to save it directly */
+            remove_as_user(new_tmp_path, useruid, fcrontab_gid);
+            return_val = save_file(new_path);
+        }
     }
 
     return return_val;
 }
 
+
 int
 make_file(char *file, int fd)
 {
-- 
2.43.0


From a14e117a309ccdbf72c1ddc713d8b443e2a5f6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:09 +0000
Subject: [PATCH 52/52] fix: a fcrontab which cannot be removed from the daemon
 loses its source

---
 fcrontab.c | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index 9dec78b..0e02a40 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -270,11 +270,29 @@ remove_fcrontab(char rm_orig)
 {
     int return_val = OK;
     int fd;
+    char rm_path[PATH_LEN];
+    char rm_tmp_path[PATH_LEN];
 
     if (rm_orig)
         explain("removing %s's fcrontab", user);
 
+    /* first prepare the file which tells the daemon that a file was removed:
+     * without it (no space left ?) nothing is removed */
+    snprintf(rm_path, sizeof(rm_path), "rm.%s", user);
+    snprintf(rm_tmp_path, sizeof(rm_tmp_path), "%s.rm", user);
+    fd = open_as_user(rm_tmp_path, fcrontab_uid, fcrontab_gid,
+                      O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR);
+
+    if (fd == -1) {
+        error_e("Can't create file %s", rm_tmp_path);
+        return ERR;
+    }
+    else if (asuid == rootuid && fchown(fd, rootuid, fcrontab_gid) != 0)
+        error_e("Could not fchown %s to root", rm_tmp_path);
+    xclose_check(&fd, rm_tmp_path);
+
     /* remove source and formated file */
+    /* note : buf is the name of the source file when rm_orig is set */
     if ((rm_orig && remove_as_user(buf, fcrontab_uid, fcrontab_gid)) != 0) {
         if (errno == ENOENT)
             return_val = ENOENT;
@@ -287,19 +305,13 @@ remove_fcrontab(char rm_orig)
     snprintf(buf, sizeof(buf), "new.%s", user);
     remove_as_user(buf, useruid, fcrontab_gid);
 
-    /* finally create a file in order to tell the daemon
-     * a file was removed, and launch a signal to daemon */
-    snprintf(buf, sizeof(buf), "rm.%s", user);
-    fd = open_as_user(buf, fcrontab_uid, fcrontab_gid,
-                      O_CREAT | O_TRUNC | O_EXCL, S_IRUSR | S_IWUSR);
-
-    if (fd == -1) {
-        if (errno != EEXIST)
-            error_e("Can't create file %s", buf);
+    /* finally tell the daemon that a file was removed,
+     * and launch a signal to daemon */
+    if (rename_as_user(rm_tmp_path, rm_path, fcrontab_uid, fcrontab_gid) < 0) {
+        error_e("Unable to rename %s to %s", rm_tmp_path, rm_path);
+        remove_as_user(rm_tmp_path, fcrontab_uid, fcrontab_gid);
+        return_val = ERR;
     }
-    else if (asuid == rootuid && fchown(fd, rootuid, fcrontab_gid) != 0)
-        error_e("Could not fchown %s to root", buf);
-    xclose_check(&fd, buf);
 
     need_sig = 1;
 
@@ -329,6 +341,8 @@ write_file(int fd)
         return_val = ERR;
     else if (file_base->cf_line_base != NULL && save_file(new_tmp_path) != OK)
         return_val = ERR;
+    else if (file_base->cf_line_base == NULL && remove_fcrontab(0) == ERR)
+        return_val = ERR;
     else if (rename_as_user(orig_tmp_path, orig_path, useruid, fcrontab_gid) < 0) {
         error_e("Unable to rename %s to %s : old source file kept",
                 orig_tmp_path, orig_path);
@@ -344,7 +358,6 @@ write_file(int fd)
     if (file_base->cf_line_base == NULL) {
         /* no entries */
         explain("%s's fcrontab contains no entries : removed.", user);
-        remove_fcrontab(0);
     }
     else {
         if (ignore_prev == 1)
@@ -1158,9 +1171,10 @@ main(int argc, char **argv)
 
     /* remove user's entries */
     if (rm_opt == 1) {
-        if (remove_fcrontab(1) == ENOENT)
+        int rm_status = remove_fcrontab(1);
+        if (rm_status == ENOENT)
             fprintf(stderr, "no fcrontab for %s\n", user);
-        xexit(EXIT_OK);
+        xexit((rm_status == ERR) ? EXIT_ERR : EXIT_OK);
     }
 
     /* list user's entries */
-- 
2.43.0

