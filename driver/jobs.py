"""Runs of jobs: identity, environment and mail (see spec/Job.tla)."""
import os
import sim
from parse import codes

DPATH = '/usr/bin:/bin'
FPATH = '/sbin:/usr/bin:/bin'          # of fcron itself
KEEP = ('ruid', 'euid', 'rgid', 'egid', 'umask', 'nice')
USABLE = ['/bin/sh', '/bin/bash', '/usr/bin/env']


def intern(evs):
    """The texts of the events in a table (most occur often), and the events with numbers of it in their place;
    the body of a mail is a sequence of texts."""
    num = {}

    def n(v):
        return num.setdefault(tuple(v), len(num) + 1)
    printed, ev = {}, []
    for v in evs:
        e = dict(v)
        for k in ('groups', 'cwd', 'path', 'out'):
            if k in e:
                e[k] = n(e[k])
        for k in ('argv', 'env', 'head'):
            if k in e:
                e[k] = [n(v) for v in e[k]]
        if e['k'] == 'end':
            printed[e['slot']] = list(v['out'])
        if e['k'] == 'mail':
            b, o = e['body'], printed.get(e['slot'])
            if o and b[:len(o)] == o:
                e['body'] = [n(o), n(b[len(o):])]
            else:
                e['body'] = [n(b)]
        ev.append(e)
    return {'ev': ev, 'texts': [list(t) for t in num]}


class Jobs:
    """A daemon, the jobs it starts and how they end."""
    def __init__(self, r, files, shell='/bin/sh', display='', fg=True, pam='', gone=(), start=1000000000, load=None, users=None):
        """files: [(owner, text, by)]; gone: users deleted once the daemon has loaded them"""
        self.r, self.ev = r, []
        self.w = sim.World(users=users, shell=shell, displayname=display)
        try:
            w = self.w
            recs = []
            for owner, text, by in files:
                rc, out, log = w.install(owner, text, by=by, now=start)
                if rc != 0:
                    raise sim.SimError('fcrontab ended with %s: %s' % (rc, out[-300:]))
                recs.append({'owner': codes(owner), 'text': codes(text), 'root': by == 'root', 'rootown': owner == 'root'})
            known = dict(w.users)
            dirs = sorted({u[2] for u in known.values()} | {'/', '/usr', '/tmp'})
            self.rec = {'files': recs, 'known': [codes(n) for n in known],
                        'ctx': {'shell': codes(shell), 'host': codes('simhost'), 'path': codes(FPATH), 'dpath': codes(DPATH), 'umask': 0o22,
                                'pamenv': [codes('PAMVAR=pamvalue')], 'fg': fg, 'refused': pam != '', 'nostart': pam == 'start',
                                'usable': [codes(x) for x in USABLE], 'dirs': [codes(x) for x in dirs],
                                'users': [{'name': codes(n), 'uid': u[0], 'gid': u[1], 'home': codes(u[2]), 'shell': codes(u[3]),
                                           'groups': codes('%s:%d' % (n, u[1]))} for n, u in known.items() if n not in gone]}}
            self.fg, self.pam, self.now, self.base = fg, pam, start, 0
            self.begin()
            if gone:
                open(w.passwd, 'w').write(''.join('%s:%d:%d:%s:%s:%s\n' % ((n,) + u) for n, u in known.items() if n not in gone))
            self.take(self.d.evs)
        except BaseException:
            self.w.close()
            raise

    def begin(self):
        os.umask(0o22)
        self.d = sim.Daemon(self.w, self.now, args=['-y', '-l', '0'] + (['-f'] if self.fg else []), env={'PATH': FPATH},
                            init=['pamfail ' + self.pam] if self.pam else [])
        self.pids, self.slots, self.parked = {}, set(), []

    def restart(self, down):
        """Stop the daemon (no job runs) and start it again later."""
        self.d.go(0, 15)
        self.take(self.d.evs)
        for _ in range(5):
            if self.d.ended is None:         # it waits for jobs which have just been started
                while self.parked:
                    self.end(self.parked[0], 'x0', b'')
                self.d.go(10_000)
                self.take(self.d.evs)
        if self.d.ended != 0:
            raise sim.SimError('daemon ended with status %s: %s' % (self.d.ended, self.d.stderr()[-400:]))
        self.d.kill()
        self.base += 10000
        self.ev.append({'k': 'restart'})
        self.now = self.d.now // 1000000 + down
        self.begin()
        self.take(self.d.evs)

    def take(self, evs):
        for e in evs:
            k = e['ev']
            if 'slot' in e:
                e['slot'] += self.base
            if k in ('fork', 'exec', 'mail') and e['slot'] not in self.slots:      # (its own events may come first)
                self.slots.add(e['slot'])
                self.ev.append({'k': 'fork', 'slot': e['slot']})
            if k == 'fork':
                self.pids[e['pid']] = e['slot']
            elif k in ('exec', 'mail'):
                x = {'k': k, 'slot': e['slot'], 'groups': codes(e['groups']), 'cwd': codes(e['cwd']), 'path': codes(e['path']),
                     'argv': [codes(a) for a in e['argv']], 'env': [codes(a) for a in e['env']]}
                x.update({f: e[f] for f in KEEP})
                if k == 'mail':
                    head, sep, body = e['body'].partition('\n\n')
                    x['head'] = [codes(y) for y in head.split('\n')] if sep else []
                    x['body'] = codes(body)
                else:
                    self.parked.append(e['slot'])
                self.ev.append(x)
            elif k == 'reap' and e['pid'] in self.pids:
                self.ev.append({'k': 'gone', 'slot': self.pids.pop(e['pid'])})

    def go(self, us):
        self.d.go(us)
        self.take(self.d.evs)

    def end(self, slot, how, out):
        self.parked.remove(slot)
        self.ev.append({'k': 'end', 'slot': slot, 'out': list(out), 'ok': how == 'x0'})
        self.d.finish(slot - self.base, how, out)

    def close(self):
        self.d.kill()
        self.w.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def trace(self):
        if not self.ev or self.ev[-1]['k'] != 'over':
            for _ in range(10):
                while self.parked:
                    self.end(self.parked[0], 'x0', b'')
                if not self.pids:
                    break
                self.go(5_000)
            self.ev.append({'k': 'over'})
        return dict(self.rec, **intern(self.ev))


OUTS = [b'', b'', b'', b'hello\n', b'no newline', b'\n', b'\n\n\n', b'.\n', b'a\n.\nb\n', b'From: x\nTo: y\n\nz\n', b'x' * 3000 + b'\n', b'l\n' * 3000, bytes(range(1, 256)),
        b'a\0b\nc\n', b'\0', b'To: eve\n\n', b'%s%n\n', b'y' * 255, b'y' * 256 + b'z']
HOWS = ['x0', 'x0', 'x0', 'x1', 'x255', 'k9', 'k15', 'x2']


def drive(r, j, outs=OUTS, restart=0):
    """Let the jobs start and end, in any order."""
    for _ in range(2):
        j.go(61_000_000 if not j.parked else 500_000)
        while j.parked:
            s = r.choice(j.parked)
            j.end(s, r.choice(HOWS), r.choice(outs))
            if r.random() < .5:
                j.go(300_000)
        j.go(1_000_000)
        j.go(1_000_000)
    if r.random() < restart:
        j.restart(r.choice([0, 100, 7200, 90000]))
        drive(r, j, outs)
    return j.trace()


VALS = ['', 'a', ' x ', '"a b"', "' x '", '"it\'s"', 'a"b', '$HOME', '`id`', 'a=b', '#x', 'x' * 300, '%s', '\xe9', '/nowhere', '\\n', 'To: eve']
SHELLS = ['/bin/bash', '/bin/sh', '/usr/bin/env', '/nowhere/sh', '', '/etc/passwd', 'sh', '" /bin/sh"', '"/bin/bash"']
HOMES = ['/usr', '/tmp', '/nowhere', '', 'usr', '/etc/passwd', '"/usr"']


def assignments(r, i):
    out = []
    for k in range(r.choice([0, 1, 2, 4])):
        n = r.choice(['V%d' % i, 'V1', 'V2', 'SHELL', 'HOME', 'PATH', 'TZ', 'USER', 'LOGNAME', 'PAMVAR', 'LD_PRELOAD', 'USERX', 'IFS', 'CONTENT_TYPE',
                      'CONTENT_TRANSFER_ENCODING', 'MAILTO', 'MAILFROM', 'BASH_ENV'])
        v = r.choice(SHELLS) if n == 'SHELL' else r.choice(HOMES) if n == 'HOME' else r.choice(['bob', 'a@b.org', '', 'root', '-oQ/tmp', 'a b', 'eve;x']) if n.startswith('MAIL') \
            else r.choice(['text/html', 'a; b', '8bit', 'x\\\n To: y']) if n.startswith('CONT') else r.choice(VALS)
        out.append(n + r.choice(['=', ' = ', '=\t']) + v)
    return out


MORE = {'id': ['nice', 'runas', 'runas', 'noticenotrun', 'noticenotrun'], 'env': ['tz', 'runas'],
        'mail': ['mailto', 'mailfrom', 'forcemail', 'erroronlymail', 'mail(0)', 'noticenotrun']}


def option(r, what):
    o = r.choice(MORE.get(what, []) * 3 + ['mail(0)', 'mail', 'forcemail', 'forcemail(0)', 'erroronlymail', 'erroronlymail(0)', 'mailto', 'mailto', 'mailfrom', 'nice', 'nice', 'runas', 'runas',
                  'tz', 'nolog', 'stdout', 'noticenotrun'])
    if o == 'mailto':
        return 'mailto(%s)' % r.choice(['bob', 'a@b.org', '', 'root', '-x', 'x y', 'x;y', 'x|y', 'carol'])
    if o == 'mailfrom':
        return 'mailfrom(%s)' % r.choice(['bob', 'a@b.org', '', 'root', '-x', 'x y', 'x;y'])
    if o == 'nice':
        return 'nice(%d)' % r.choice([1, 5, 19, -1, -5, -19, 0])
    if o == 'runas':
        return 'runas(%s)' % r.choice(['alice', 'bob', 'carol', 'root', 'nobodyhere'])
    if o == 'tz':
        return 'timezone(%s)' % r.choice(['UTC', 'Europe/Paris', ':x'])
    return o


def text(r, base, owner, what):
    out = ['B%d=' % i + 'v' * 900 for i in range(r.choice([5, 35, 40, 60]))] if r.random() < .03 else []
    for i in range(r.choice([1, 2, 4, 8])):
        out += assignments(r, i) if r.random() < (.9 if what == 'env' else .4) else []
        if r.random() < .3:
            out.append('!' + ','.join(option(r, what) for _ in range(r.choice([1, 2]))))
        who = r.choice(['', '', '', '', 'bob ', 'root ', 'dave '])
        o = ','.join(option(r, what) for _ in range(r.choice([0, 0, 1, 2, 3])))
        cmd = who + 'j%d' % (base + i) + r.choice(['', '', ' a b', ' "x y" $HOME; exit 3', ' # c', ' To: eve', '\xe9', ' ' + 'z' * 300, " '%n'"])
        k = r.random()
        if k < .6:
            out.append('@%s%s 99999h %s' % ('first(1)', ',' + o if o else '', cmd))
        elif k < .7 and not o:
            out.append('@reboot ' + cmd)
        else:
            out.append('&%s * * * * * %s' % (o, cmd))
    return '\n'.join(out) + '\n'


def random_jobs(r, what='', **kw):
    rare = .25 if what == 'id' else .08
    owners = r.sample(['root', 'alice', 'bob', 'carol'], r.choice([1, 2, 3]))
    files = []
    for k, o in enumerate(owners):
        by = 'root' if o == 'root' or r.random() < .3 else o
        files.append((o, text(r, 100 * (k + 1), o, what), by))
    j = Jobs(r, files, shell=r.choice(['/bin/sh', '/bin/sh', '/bin/bash', '']), display=r.choice(['', '', 'Fcron', 'Fcron "x" Daemon', 'a <b> c']),
             fg=r.random() < .7, pam=r.choice(['start', 'auth', 'acct', 'cred', 'session']) if r.random() < rare else '',
             gone=r.sample(['alice', 'bob', 'dave'], r.choice([1, 2])) if r.random() < rare else (), **kw)
    with j:
        return drive(r, j, restart=.4 if what == 'id' else .2)


def f12(r):
    return random_jobs(r, 'id')


def f13(r):
    return random_jobs(r, 'env')


def f14(r):
    return random_jobs(r, 'mail')
