#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay editable)."""
import json, os
P = []
TESTS = "the 18 cmocka tests reach only a list type, one fcrondyn print routine, mail header formatting and a few parser calls"
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state], hook_needed=None)))

prop('F01', 'A time-and-date entry runs at exactly its matching minutes',
     "While the daemon runs, an entry given by minute, hour, day-of-month, month and day-of-week fields is started at the beginning of every minute whose local time matches all five fields (with dayor: whose date matches the day of month or the day of week), and at no other time. "
     "With a frequency n it is started at every n-th such minute, with a jitter of j at most j seconds after the minute, and with a timezone or tzdiff the fields are read in that zone. "
     "At a clock change a time that occurs twice is used once, and a time that is skipped is made up once at the same distance after the change. An entry whose date does not occur in the next ten years is not run.",
     ['inputs', 'histories', 'configurations'],
     "all field values, options and time zones, from any instant, over any number of successive executions",
     "the space of (fields, zone, instant) is unbounded and the bugs sit at month ends, leap years and clock changes; " + TESTS,
     ['database.c', 'fcron.c', 'fileconf.c'],
     [('next-execution search', 'database.c:set_next_exe'), ('clock-change handling', 'database.c:mktime_no_dst'), ('wake-up computation', 'fcron.c:main_loop')],
     ['instants at which the job is executed', 'length of the daemon sleep'])

prop('F02', 'A periodic entry runs exactly once in each of its intervals',
     "A %-entry (hourly, daily, nightly, weekly, monthly, the mid variants, and mins, hours, days, mons, dow) is started exactly once in each period or maximal interval it defines that contains a matching minute while the daemon runs, and only at a matching minute. "
     "It is started as soon as possible in that interval, or with option random at some moment of its first run of successive matching minutes. "
     "The first run after installation may fall in the interval that is already under way.",
     ['inputs', 'histories'],
     "all keywords, fields, options and starting instants, over any number of intervals",
     "double or missing runs appear only at particular minutes (the 29th, the 59th, a month end) of particular intervals; " + TESTS,
     ['database.c', 'fileconf.c'],
     [('move to the next period', 'database.c:move_time_to, goto_beginning_next_period_periodical'), ('search from there', 'database.c:set_next_exe')],
     ['instants at which the job is executed'])

prop('F03', 'An entry based on elapsed time runs after that much up time',
     "An @-entry runs for the first time after its first delay (by default its frequency) and then each time its frequency has elapsed while fcron was running. "
     "Time during which the system was suspended or fcron was stopped does not count: after a restart the entry still has to wait for what remained when its state was last saved, unless it is volatile (counting restarts with each start of fcron) or rebootreset (with each boot).",
     ['inputs', 'histories', 'schedules'],
     "all frequencies, first delays and options, all interleavings of running, stop, crash, restart and suspend",
     "needs histories with several stops, crashes and resumes; " + TESTS,
     ['database.c', 'conf.c', 'save.c', 'fcron.c'],
     [('schedule of @-lines', 'database.c:set_next_exe, set_next_exe_startup'), ('remaining time in the saved file', 'conf.c:read_file, save.c')],
     ['instants at which the job is executed'])

prop('F04', 'Schedules survive a stop, a crash and a restart',
     "When fcron is stopped (or killed) and started again, every installed entry is scheduled as before: an entry whose time is still to come runs at that time, a frequency count and a runonce marker are kept, and an entry whose time passed meanwhile is scheduled for its next matching time unless an option says otherwise. "
     "After a crash the state used is the one of the last save (made every save interval, at SIGTERM, and when an fcrontab is installed). "
     "A job that was queued or running when fcron stopped is queued once more at the restart, except one with a load limit that is strict.",
     ['histories', 'crash_points', 'configurations'],
     "all sets of entries and options, all points of stop or crash, all lengths of down time, repeatedly",
     "needs runs of several daemon lifetimes with different down times; " + TESTS,
     ['conf.c', 'save.c', 'database.c', 'fcron.c'],
     [('state saved', 'save.c:save_file'), ('state loaded', 'conf.c:read_file'), ('schedule at startup', 'database.c:set_next_exe_startup')],
     ['jobs executed after the restart', 'content of the queues as fcrondyn lists them'])

prop('F05', 'Startup options: bootrun, runatreboot, runonce, volatile, rebootreset',
     "At the first start after a boot, after the first-sleep delay, each runatreboot entry runs once in addition to its schedule; at any start each bootrun time-and-date entry that missed a matching time while fcron was down is put once into the serial queue (or the load-average queue if it has a load limit); neither happens otherwise. "
     "An entry with runonce runs once and is then not scheduled again until the next boot (with volatile: the next start of fcron). "
     "No job is started before the first-sleep delay has passed when nothing wakes the daemon up.",
     ['histories', 'configurations'],
     "all option combinations, kinds of entry, and sequences of boots, starts, installs and reloads",
     "an option matters only in one kind of start out of several; " + TESTS,
     ['database.c', 'conf.c', 'fcron.c'],
     [('schedule at startup', 'database.c:set_next_exe_startup'), ('boot detection', 'conf.c:is_system_startup')],
     ['jobs executed after each start'])

prop('F06', 'Resuming from suspend adjusts every schedule',
     "When the system was suspended, fcron on resume runs each runatresume entry once, queues the missed bootrun entries, delays elapsed-time entries by the time spent suspended, and schedules every other missed entry for its next matching time. "
     "A job already running or queued is neither started again nor lost because of the suspend. "
     "Nothing of this happens when there was no suspend.",
     ['histories', 'schedules'],
     "all option combinations, suspend instants and lengths, with jobs running or queued or not",
     "no test suspends anything; needs histories mixing suspends with running and queued jobs",
     ['suspend.c', 'database.c', 'fcron.c'],
     [('suspend detection', 'suspend.c:check_suspend'), ('rescheduling', 'database.c:reschedule_all_on_resume')],
     ['jobs executed after the resume'])

prop('F07', 'Serial jobs run in order and at most N at a time',
     "At no time do more than the configured number (-m, default 1) of serial jobs of installed fcrontabs run at once, and serial jobs are started in the order in which they were queued. "
     "As long as jobs wait and fewer than that number run, the next one is started no later than when the daemon next handles an event; no queued job is ever lost or run twice for one queuing. "
     "At most -q jobs wait, a job that finds the queue full is refused, and one already queued or running is queued again only if serialonce is false.",
     ['schedules', 'histories', 'configurations'],
     "all numbers of serial entries, arrival and completion orders, queue sizes, limits, restarts, suspends and reloads",
     "needs many interleaved arrivals and completions, queue growth and wrap-around; " + TESTS,
     ['database.c', 'fcron.c', 'conf.c', 'fcrondyn_svr.c'],
     [('queue insertion', 'database.c:add_serial_job'), ('start of the next job', 'database.c:run_serial_job, wait_chld'), ('queue emptied of a removed file', 'conf.c:delete_file')],
     ['order of executions', 'number of serial jobs running'])

prop('F08', 'Jobs with a load limit wait for the load, the timeout or the interval end',
     "An entry with a load-average limit is started only while the current load averages are below its limits (all of the limits that are set; with lavgor any of them), except that it is started regardless of the load when its until delay has run out. "
     "A %-entry that is strict is instead dropped at the end of its interval (and rescheduled, with a notice if requested), one that is not stays queued. "
     "At most -q entries wait, no serial one of them is started by a lower load while -m of them run, an entry waits several times only if lavgonce is false, and a waiting entry is started within the 30-second polling period once its condition holds.",
     ['schedules', 'histories', 'configurations'],
     "all limits, options, evolutions of the load averages and completion orders",
     "needs load averages that change while jobs wait; " + TESTS,
     ['database.c', 'lavg_list.c', 'u_list.c'],
     [('queue insertion', 'database.c:add_lavg_job'), ('polling', 'database.c:check_lavg')],
     ['instants at which the job is executed', 'mails about jobs not run'])

prop('F09', 'A job does not overlap itself unless allowed',
     "While a run of an entry is in progress, the entry is not started again by its schedule unless it has option exesev (or, for queued entries, serialonce(false) or lavgonce(false)); the skipped run is not made up later. "
     "When the run has ended, whatever its exit status and however it died, the next scheduled run is started normally.",
     ['schedules', 'histories'],
     "all entry kinds and options, job durations and ways to end, including several jobs ending between two wake-ups",
     "needs long-running jobs overlapping several schedule times and simultaneous exits; " + TESTS,
     ['database.c', 'exe_list.c', 'job.c'],
     [('running count', 'database.c:run_normal_job, wait_chld')],
     ['executions while an earlier one is running'])

prop('F10', 'Reloading touches exactly the fcrontabs that changed',
     "On SIGHUP the daemon loads each newly installed fcrontab, replaces each changed one and forgets each removed one, and leaves every other user's schedules, queues and running jobs exactly as they were; on SIGUSR1 it waits for the running jobs and reloads all of them without losing or altering any schedule (volatile entries start counting again). "
     "From then on no entry of a removed or replaced fcrontab is started or stays queued, entries of the new one are scheduled as new (one that is there unchanged keeps its schedule), and running jobs of a removed one still end and mail normally. "
     "After a reload fcron keeps scheduling everything, whatever was queued or running at that moment.",
     ['histories', 'schedules'],
     "all sequences of installs, removals, SIGHUPs and SIGUSR1s for several users with jobs queued and running",
     "needs several users and reloads in the middle of queue activity; " + TESTS,
     ['conf.c', 'database.c', 'fcron.c'],
     [('synchronisation', 'conf.c:synchronize_dir, synchronize_file'), ('removal', 'conf.c:delete_file'), ('full reload', 'conf.c:reload_all')],
     ['jobs executed before and after the reload', 'files in the spool directory'])

prop('F11', 'A crash or full disk while saving never damages an installed fcrontab',
     "At whatever point fcron or fcrontab is killed, or a write, a sync, the creation of a file or (in fcron) a rename fails, each installed fcrontab is found at the next start either as it was before or as the completed operation leaves it, never partial, empty or missing. "
     "Saving and loading are inverse: every field and option of every entry reads back as it was written. "
     "A failed save leaves the running daemon working and a later save succeeds.",
     ['crash_points', 'fault_sequences', 'inputs'],
     "every file-system operation of a save or installation as crash or failure point, for all contents",
     "no test saves a file; crash points need fault injection at every operation",
     ['save.c', 'filesubs.c', 'conf.c', 'fcrontab.c'],
     [('write to a temporary file, sync, rename', 'filesubs.c / save.c:save_one_file'), ('format', 'save.c, conf.c:read_file')],
     ['spool files after the crash', 'schedule after the restart'])

prop('F12', 'Every job and mailer runs with exactly the intended identity',
     "Each job and each mailer process is executed with the user id, group id and supplementary groups of the entry's owner, or of its runas user, with the requested priority, in that user's home directory and never with root's identity unless that user is root. "
     "Only root's fcrontab can obtain another user's identity or a negative priority, whatever the file says and whoever wrote it. "
     "If the user does not exist or the account is refused, nothing is executed.",
     ['inputs', 'configurations', 'histories'],
     "all users, runas values, priorities, file owners and contents, and account failures",
     "no test starts a job; the guarantee spans fcrontab, file loading and execution",
     ['job.c', 'conf.c', 'fileconf.c', 'subs.c', 'fcrontab.c'],
     [('identity change', 'job.c:change_user_setup_env'), ('trust in spool files', 'conf.c:read_file, add_line_to_file'), ('option checks', 'fileconf.c:read_opt')],
     ['credentials at the moment of execution'])

prop('F13', "A job's environment is built as documented",
     "Each job is executed as `shell -c command` with USER, LOGNAME, HOME and SHELL of the user it runs as, TZ set to its timezone option, and every other assignment of its fcrontab applied; an fcrontab can override HOME and SHELL (an unusable shell is not used) but not USER or LOGNAME. "
     "Values are passed on exactly as written, with surrounding blanks removed and one pair of quotes stripped. "
     "Nothing of one job's or user's settings leaks into another's.",
     ['inputs', 'configurations'],
     "all assignments, users, runas values and time zones, in any order",
     "no test executes a job or reads an assignment",
     ['job.c', 'env_list.c', 'fileconf.c', 'conf.c'],
     [('environment set-up', 'job.c:setup_user_and_env'), ('assignments', 'fileconf.c:read_env')],
     ['argv and environment at the moment of execution'])

prop('F14', 'A mail is sent exactly when the options and the outcome say so',
     "When a job ends, one mail with its complete output is sent if mail is enabled and the job printed something or forcemail is set, and, with erroronlymail, only if it did not exit with status 0; otherwise none is sent. "
     "The mail goes to the mailto address (by default the owner of the fcrontab, or MAILTO), from the mailfrom address (by default the user it runs as), and no text from an fcrontab or a job adds a recipient, an option or a header to it.",
     ['inputs', 'configurations'],
     "all combinations of mail options, addresses, outputs, exit statuses and signals",
     "the tests format one header and send nothing",
     ['job.c', 'mail.c', 'fileconf.c', 'conf.c'],
     [('decision', 'job.c:end_job'), ('mail text', 'job.c:create_mail, mail.c'), ('mailer', 'job.c:launch_mailer')],
     ['command line and input of the mailer'])

prop('F15', 'A noticenotrun entry reports each run it missed',
     "If an entry has noticenotrun and fcron was down or suspended at its scheduled time (for a %-entry: for a whole period), or its strict interval ended before the load allowed it, or its queue was full, one mail says so, names the reason and gives the time from which it did not run and the next time it will run. "
     "No such mail is sent for an entry without the option or one that missed nothing.",
     ['histories', 'configurations'],
     "all entries and options, down times, suspends and load histories",
     "no test covers down time or load",
     ['database.c'],
     [('detection', 'database.c:set_next_exe_notrun, set_next_exe_startup, check_lavg'), ('text', 'database.c:mail_notrun')],
     ['input of the mailer'])

prop('F16', 'fcrondyn shows and does nothing its user is not entitled to',
     "Over the control socket a user other than root can list, run, signal and renice only the entries and jobs of his own fcrontab, and no request of his reveals or affects another user's; only root can act on all of them, list everything, see a system fcrontab or set a negative nice value. "
     "A connection acts for nobody before it has been identified by the kernel's peer credentials or by the correct password of the user it claims to be; after ten wrong passwords no password is accepted for a minute. "
     "Any byte sequence sent to the socket leaves the daemon running and scheduling.",
     ['inputs', 'histories', 'schedules'],
     "all users, commands, arguments, targets and malformed messages",
     "the tests print one line in isolation; nobody is authorised in them",
     ['fcrondyn_svr.c', 'select.c'],
     [('authentication', 'fcrondyn_svr.c:auth_client_so_peercred, auth_client_password'), ('authorisation', 'fcrondyn_svr.c:cmd_ls, cmd_run, cmd_on_exeq')],
     ['replies of the daemon', 'signals, priorities and jobs it issues'])

prop('F17', 'fcrondyn commands act on exactly the named job and report the true state',
     "`run` starts (or queues, per its serial and load options) the named entry once and leaves its schedule unchanged, `runnow` does so and moves the schedule on past the execution it replaces, `kill` and `renice` reach exactly the named running job. "
     "`ls`, `ls_serialq`, `ls_lavgq` and `ls_exeq` list exactly the entries that are installed, waiting in the serial queue, waiting for the load, and running, with their true next execution times and counts.",
     ['histories', 'schedules'],
     "all commands interleaved with schedules, queues, completions and reloads",
     "needs a running daemon with jobs in every state",
     ['fcrondyn_svr.c', 'database.c', 'fcrondyn.c'],
     [('commands', 'fcrondyn_svr.c:cmd_run, cmd_on_exeq, cmd_ls')],
     ['replies of the daemon', 'jobs executed'])

prop('F18', 'fcrondyn sessions are served, limited and timed out independently',
     "Every identified client gets a complete reply to each well-formed request it sends, whatever other clients connect, send, stall or disconnect, and no client's activity delays or stops the scheduling of jobs. "
     "At most 25 clients are connected at once; one that has not identified itself within 60 seconds or has been idle for 10 minutes is disconnected, at the latest when another client is next served, and no other one is.",
     ['schedules', 'histories'],
     "all interleavings of connects, requests, partial messages, stalls and disconnects of many clients",
     "needs several concurrent clients; no test opens a socket",
     ['fcrondyn_svr.c', 'select.c'],
     [('session loop', 'fcrondyn_svr.c:fcrondyn_socket_check'), ('descriptor sets', 'select.c')],
     ['replies and closed connections seen by the clients'])

prop('F19', 'fcrontab reads time fields exactly as documented',
     "A field made of numbers, names, ranges, steps, exclusions and asterisks denotes exactly the documented set of values (names like the numbers they stand for, 0 and 7 both Sunday), wherever it stands. "
     "A reversed range wraps around the end of its field. A field with a value out of its range, an empty item, trailing garbage or any other malformation is reported and its entry is not installed, while the other entries of the file are read as if it were absent. "
     "The frequency and first delay of an @-entry are the sum of its parts with the documented multipliers.",
     ['inputs'],
     "all field texts in each of the five positions, and all time values",
     "the tests read four entries; the language is infinite",
     ['fileconf.c'],
     [('fields', 'fileconf.c:read_field, get_num'), ('times', 'fileconf.c:get_time')],
     ['outcome of fcrontab and the schedule of the installed entry'])

prop('F20', 'Options apply to the right entries with the documented meaning',
     "An option on an entry applies to that entry only, one after ! applies to all later entries of the file that do not set it themselves, reset restores the defaults, and each option, abbreviation and shortcut (@daily, @reboot, ...) has its documented effect and default. "
     "Comments, blank lines, continuation lines and assignments can stand anywhere without changing any entry, and lines of any length are handled safely. "
     "An unknown option or a bad argument is reported and never silently changes the meaning of an entry.",
     ['inputs'],
     "all sequences of lines, option lists, arguments and nestings of ! and per-entry options",
     "the tests read four entries without options",
     ['fileconf.c', 'option.h', 'conf.c'],
     [('options', 'fileconf.c:read_opt'), ('defaults', 'fileconf.c:init_default_line, read_file')],
     ['entries as saved and as executed'])

prop('F21', 'fcrontab serves only permitted users and installs all or nothing',
     "fcrontab lists, edits, installs and removes the fcrontab of the calling user only, root excepted, and refuses every user that fcron.deny names or fcron.allow does not (deny wins). "
     "Installing makes exactly the submitted text the user's fcrontab, listing returns that text byte for byte, removing deletes it; an installation that fails leaves the previous one in place. "
     "The daemon is told after each change and every file it writes belongs to the right owner with no access for others.",
     ['inputs', 'histories', 'fault_sequences'],
     "all users, allow and deny files, texts, and sequences of operations with failures",
     "no test runs fcrontab",
     ['fcrontab.c', 'allow.c', 'filesubs.c', 'temp_file.c', 'conf.c'],
     [('access', 'allow.c:is_allowed'), ('installation', 'fcrontab.c:install_file, fileconf.c:save_file')],
     ['exit status, spool directory and output of fcrontab'])

prop('F22', 'A damaged or forged spool file never harms the daemon',
     "Whatever bytes a spool file contains, the daemon loads only complete entries from files of the right owner and mode, keeps running, and schedules all other users' entries as if the file were absent. "
     "A truncated, corrupted, foreign-version or wrongly owned file never makes a job run that was not installed by its user.",
     ['inputs', 'fault_sequences'],
     "all truncations and corruptions of spool files, owners and file names",
     "no test loads a spool file",
     ['conf.c', 'save.c'],
     [('loading', 'conf.c:read_file, read_type, read_strn'), ('trust', 'conf.c:synchronize_file')],
     ['daemon survival', 'jobs executed'])

prop('F23', 'SIGTERM ends fcron only after saving and collecting every job',
     "On SIGTERM fcron saves every schedule, starts no further job, waits until each running job of an installed fcrontab has ended, and exits with status 0; once mode does the same after running what was due. "
     "Every child process is collected, and each end of a job is credited to that job only. "
     "The daemon survives a failing fork or a failing account check and later runs the jobs that follow.",
     ['schedules', 'fault_sequences', 'histories'],
     "all sets of running and queued jobs, orders of completion, and fork failures",
     "needs jobs running at shutdown; no test runs the daemon",
     ['fcron.c', 'database.c', 'conf.c', 'exe_list.c'],
     [('exit', 'fcron.c:xexit, conf.c:delete_file'), ('collection', 'database.c:wait_chld, wait_all')],
     ['order of save, job ends and exit', 'children left'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
