"""Runs the real daemon through a scenario and records what it did as events of DaemonTrace.tla."""
import json, random, re, signal, time
from sim import World, Daemon, SimError, USERS, EPOCH2000, FCRON
import gen

HUP, TERM, USR1 = signal.SIGHUP, signal.SIGTERM, signal.SIGUSR1
SIGNAME = {int(HUP): 'HUP', int(TERM): 'TERM', int(USR1): 'USR1'}
RE_NOTRUN = re.compile(r"Line '(\S+) x[^']*' has not run since and including (\d+)-(\d+)-(\d+) wday:(\d) (\d+):(\d+)")
RE_NEXT = re.compile(r"It will be next executed at (\d+)-(\d+)-(\d+) wday:\s*(\d) (\d+):(\d+)")
RE_FULL = re.compile(r"Line '(\S+) x[^']*' couldn't be added to lavg or serial queue which is full")
RE_FORK = re.compile(r"Fork error : could not exec '(\S+) ")


def wallmin(y, mo, d, h, mi):
    import datetime
    return int((datetime.datetime(int(y), int(mo), int(d), int(h), int(mi)) - datetime.datetime(2000, 1, 1)).total_seconds()) // 60


def parse_notrun(body):
    m = RE_NOTRUN.search(body)
    if m:
        n = RE_NEXT.search(body)
        since = wallmin(m[2], m[3], m[4], m[6], m[7])
        why = 'load' if 'too high system load' in body else 'down' if "system's down or suspended" in body else '?'
        nx = -1
        try:
            nx = wallmin(n[1], n[2], n[3], n[5], n[6]) if n else -1
        except (ValueError, OverflowError):
            nx = 2000000000
        return {'id': m[1], 'why': why, 'since': since, 'next': min(nx, 2000000000)}
    m = RE_FULL.search(body)
    if m:
        return {'id': m[1], 'why': 'full', 'since': -1, 'next': -1}
    return None


class Cut(Exception):
    """The execution ends here."""


def crashed(evs):
    return any(e['ev'] == 'crash' for e in evs)


class Run:
    """One execution: a world, the entries installed in it, the daemon (possibly restarted) and the events."""
    def __init__(self, start, tz='UTC', years=11, m=1, q=30, fs=20, save=1800, once=False, boot_us=100_000_000, explicit=True):
        self.w = World()
        self.tz = tz
        self.t0 = start
        self.years = years
        self.p = {'m': m, 'q': q, 'fs': fs, 'save': save, 'once': once}
        self.defs, self.zones, self.zidx, self.ev = [], [], {}, []
        self.d = None
        self.clock_us = start * 1000000
        self.boot_us = boot_us
        self.nrun = 0
        self.jobs = {}           # slot -> {'run', 'id', 'pid', 'slot'} still unfinished
        self.pids = {}           # pid -> run number
        self.la = [0, 0, 0]
        self.mails = []          # every mail event
        self.log = []            # every log event of the daemon
        self.raw = []
        self.booted = False
        self.status = None
        self.rnd = None
        self.failing = 'one'
        self.waitorder = None    # which of the running jobs end when fcron waits for them

    # -- time helpers: seconds since 2000
    @property
    def t(self):
        return self.clock_us // 1000000 - EPOCH2000

    def zone(self, name):
        if name not in self.zidx:
            self.zones.append(gen.zone_table(name, self.t0 - EPOCH2000, 24))
            self.zidx[name] = len(self.zones)
        return self.zidx[name]

    def add_def(self, e, user, tzdiff=0):
        self.defs.append(e.record(user, self.zone(e.tz or self.tz), tzdiff))
        return len(self.defs)

    def install(self, user, entries, header='', tzdiff=0, text=None, fresh=False, faults=None):
        """Install the entries for user through the real fcrontab program (fresh: forgetting the previous ones)."""
        lines = []
        if tzdiff:
            lines.append('!tzdiff(%d)' % tzdiff)
        if header:
            lines.append(header)
        for e in entries:
            lines.append(e.text())
        text = '\n'.join(lines) + '\n' if text is None else text
        rc, out, log = self.w.install(user, text, now=self.clock_us // 1000000, tz=self.tz, fresh=fresh, env=faults)
        if faults and ('CRASH' in log or rc != 0):
            self.ev.append({'ev': 'install', 'u': user, 'fresh': fresh, 'defs': [self.add_def(e, user, tzdiff) for e in entries],
                            'crash' if 'CRASH' in log else 'failed': True})
            # known finding: between the removal of the previous version and the last step of fcrontab -n
            if fresh and re.search(r'CRASH \d+ (rename|remove|open|unlink) (%s.new|new.%s|rm.%s|%s.rm)$' % (user, user, user, user), log, re.M):
                self.ev[-1]['gap'] = True
            return rc
        if rc != 0 or not faults and ('ignored' in out or 'rror' in out or 'skipping' in out):
            raise SimError('fcrontab refuses for %s:\n%s\n-> %d %s' % (user, text, rc, out))
        self.ev.append({'ev': 'install', 'u': user, 'fresh': fresh, 'defs': [self.add_def(e, user, tzdiff) for e in entries]})
        if fresh and 'FSFAIL' in log:
            self.ev[-1]['soft'] = True          # without space to ask for it, the schedules may be kept
        return out

    def remove(self, user, faults=None):
        rc, out, log = self.w.remove(user, env=faults)
        self.ev.append({'ev': 'remove', 'u': user})
        if 'CRASH' in log:
            self.ev[-1]['crash'] = True
        elif faults and rc != 0:
            self.ev[-1]['failed'] = True
        return rc, out

    def start(self, ctx='boot', extra=(), init=()):
        import os
        args = ['-f', '-y', '-m', str(self.p['m']), '-q', str(self.p['q']), '-s', str(self.p['save'])]
        if self.p['once']:
            args += ['-o']
        else:
            args += ['-l', str(self.p['fs'])]
        if ctx == 'boot' and os.path.exists(self.w.dir + '/reboot.lock'):
            os.unlink(self.w.dir + '/reboot.lock')
        if ctx == 'boot':
            self.boot_us = 100_000_000
        else:
            open(self.w.dir + '/reboot.lock', 'a').close()
        init = list(init)
        if any(self.la):
            init.append('load %.2f %.2f %.2f' % tuple(x / 100 for x in self.la))
        if self.rnd:
            init.append(self.rnd)
        for i in range(20):
            self.d = Daemon(self.w, None, args + list(extra), boot=self.boot_us, init=init, tz=self.tz, start_us=self.clock_us)
            if self.d.ended is None or not (self.d.ended == 11 or any("can't lock" in e.get('m', '') for e in self.d.evs)):
                break
            self.d.kill()
            time.sleep(.02)        # a child of the one that crashed still holds the lock
        if crashed(self.d.evs):
            self.ev.append({'ev': 'start', 'p': {**self.p, 'fs': 0 if self.p['once'] else self.p['fs']}, 'ctx': 'boot' if ctx == 'boot' else 'start',
                            'now': self.t, 'tmo': 0, 'mails': [], 'crash': True})
            self.d.kill()
            return
        if self.d.ended is not None:
            raise SimError('the daemon ends at its start: %s %r' % (self.d.ended, self.d.evs[-3:]))
        self.jobs, self.pids = {}, {}
        self.raw.append(self.d.evs)
        st, reaps, wre, mails = self._collect(self.d.evs)
        self._after()
        self.ev.append({'ev': 'start', 'p': {**self.p, 'fs': 0 if self.p['once'] else self.p['fs']}, 'ctx': 'boot' if ctx == 'boot' else 'start',
                        'now': self.t, 'tmo': self._tmo(), 'mails': mails})
        if st:
            raise SimError('jobs started before the first sleep: %r' % st)

    def _after(self):
        if self.d.ended is None:
            self.boot_us += self.d.now - self.clock_us
            self.clock_us = self.d.now
        else:
            self.status = self.d.ended

    def _tmo(self):
        if self.d.ended is not None:
            return 0
        if self.d.timeout_us <= 1000:        # it never sleeps less
            return 0
        a = self.d.now // 1000000
        return (self.d.now + max(0, self.d.timeout_us) + 1) // 1000000 - a   # fcron may wake up a microsecond early

    def _collect(self, evs):
        starts, reaps, wre, mails = [], [], [], []
        execs = {e['slot']: e for e in evs if e['ev'] == 'exec'}
        mailed = {e['slot'] for e in evs if e['ev'] == 'mail'}
        ok = []
        for e in evs:
            k = e['ev']
            if k == 'fork':
                x = execs.get(e['slot'])
                if x:
                    self.nrun += 1
                    id = x['argv'][2].split()[0]
                    ok.append({'id': id, 'run': self.nrun, 'ok': True})
                    self.jobs[e['slot']] = {'run': self.nrun, 'id': id, 'slot': e['slot'], 'pid': x['pid'], 'ctl': e['pid'], 'exec': x,
                                            't': self.clock_us}
                    self.pids[e['pid']] = self.nrun
                elif e['slot'] not in mailed:
                    raise SimError('a child of the daemon did nothing: slot %d; %r' % (e['slot'],
                                   [y for y in evs if y['ev'] == 'log' and not y['d']]))
            elif k == 'log':
                self.log.append(e)
                m = RE_FORK.search(e['m'])
                if m and e['d']:
                    ok.append({'id': m[1], 'run': 0, 'ok': False})
            elif k == 'reap':
                if e['pid'] in self.pids:
                    (wre if e.get('w') else reaps).append(self.pids.pop(e['pid']))
            elif k == 'mail':
                self.mails.append(e)
                n = parse_notrun(e['body'])
                if n:
                    mails.append(n)
        return ok, reaps, wre, mails

    def cmd(self, c):
        self.d.cmd(c)

    def load(self, a, b, c):
        """Load averages in hundredths."""
        self.la = [a, b, c]
        if self.d is not None:
            self.d.cmd('load %.2f %.2f %.2f' % (a / 100, b / 100, c / 100))

    def finish(self, slot, how='x0', out=b''):
        j = self.jobs.pop(slot)
        self.d.finish(slot, how, out)
        return j

    def wake(self, us, *sigs, suspend_us=0, timer=False):
        """Let us microseconds pass (after a suspend of suspend_us), deliver signals, and record the daemon's reaction."""
        if suspend_us:
            self.d.cmd('suspend %d' % suspend_us)
            self.boot_us += suspend_us
            self.clock_us += suspend_us
            if timer:
                self.d.cmd('timer')
        evs = list(self.d.go(us, *sigs))
        first = self.t_of(us)
        if crashed(evs) and any(e['ev'] == 'fork' for e in evs):
            raise Cut()        # what its children did first is not known
        starts, reaps, wre, mails = self._collect(evs)
        while self.d.ended is None and self.d.blocked == 'waitblock':
            # fcron waits for running jobs: let them end
            if not self.jobs:
                raise SimError('daemon waits for a child although no job runs')
            for s in list(self.jobs) if self.waitorder is None else self.waitorder(list(self.jobs)):
                self.finish(s)
            more = self.d.go(0)
            evs += more
            for a, b in zip((starts, reaps, wre, mails), self._collect(more)):
                a += b
        self.raw.append(evs)
        self._after()
        if self.d.ended is not None:
            self.clock_us = first
        w = {'ev': 'wake', 'now': first // 1000000 - EPOCH2000, 'reap': reaps, 'sig': [SIGNAME[int(s)] for s in sigs],
             'wreap': wre, 'd': suspend_us // 1000000, 'la': [int(x) for x in self.la], 'starts': starts,
             'exited': self.d.ended is not None, 'mails': mails, 'tmo': self._tmo()}
        self.ev.append(w)
        if any(e['ev'] == 'fsfailed' for e in evs):
            w['fail'] = self.failing
        if crashed(evs):
            w['crash'] = True
            w['mails'] = []
            self.jobs, self.pids = {}, {}
            self.d.kill()
            return w
        if self.d.ended is not None and self.d.ended != 0:
            w['status'] = self.d.ended
            raise SimError('daemon ended with status %s: %s' % (self.d.ended, self.d.stderr()[-400:]))
        return w

    def t_of(self, us):
        return self.clock_us + us

    def crash(self, down_us=0):
        self.d.kill()
        self.jobs, self.pids = {}, {}
        self.ev.append({'ev': 'crash'})
        self.down(down_us)

    def term(self, down_us=0):
        w = self.wake(0, TERM)
        self.jobs, self.pids = {}, {}
        self.d.kill()
        self.down(down_us)
        return w

    def down(self, us):
        self.clock_us += us
        self.boot_us += us

    def close(self):
        if self.d is not None:
            self.d.kill()
        self.w.close()

    def trace(self):
        return {'defs': self.defs, 'zones': self.zones, 'ev': self.ev}

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
