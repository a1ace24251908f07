"""fcrondyn: clients of the daemon's control socket, as part of an execution (see 'fcrondyn' in spec/Daemon.tla)."""
import datetime
import re
import select
import socket
import struct
from run import Run
from sim import SimError, USERS, EPOCH2000, FCRON

MSG = 160                 # the daemon reads a message of at most 20 long integers at a time
CMD = {'ls': 101, 'lavgq': 102, 'serialq': 103, 'exeq': 104, 'detail': 105, 'runnow': 301, 'run': 302, 'kill': 401, 'renice': 402}
NAME = {v: k for k, v in CMD.items()}
ALL, SYS = -1, -100
ANSWER = {'Unknown command.\n': 'unknown', 'No corresponding job found.\n': 'notfound', 'Invalid user : unable to find a passwd entry.\n': 'baduser',
          'No corresponding running job found.\n (The job may have just finished its execution.)\n': 'norun', 'Invalid arguments.\n': 'invalid',
          'You are not allowed to list all jobs.\n': 'denied', "You are not allowed to list other users' jobs.\n": 'denied'}
RE_TIME = re.compile(r'(\d+)-(\d\d)-(\d\d) (\d\d):(\d\d):(\d\d)')
NEVER = 2000000000


def secs(s):
    m = RE_TIME.fullmatch(s)
    if int(m[1]) > 2060:
        return NEVER
    return int((datetime.datetime(*map(int, m.groups())) - datetime.datetime(2000, 1, 1)).total_seconds())


class Client:
    def __init__(self, n, sock, user):
        self.n, self.s, self.user = n, sock, user
        self.q = b''              # sent and not yet read by the daemon
        self.closed = False       # closed by us
        self.served = False       # the daemon has accepted the connection
        self.deaf = False         # it does not read the replies
        self.reset = False
        self.seen = {}            # numbers it has been shown


class DynRun(Run):
    """A Run with clients."""
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.cl = []              # the clients the daemon has, newest first
        self.waiting = []         # connections which it has not accepted
        self.nc = 0
        self.jobpid = {}          # pid of a job -> run number
        self.pwauth = False

    def start(self, ctx='boot', extra=(), init=()):
        for c in self.cl + self.waiting:
            c.s.close()
        self.cl, self.waiting, self.jobpid, self.pwauth = [], [], {}, False
        super().start(ctx, extra, init)

    def connect(self, user, pw=False):
        """user: whom the kernel says the client is (None: it does not say)"""
        self.nc += 1
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        s.setblocking(False)
        try:
            s.connect(self.w.dir + '/fifo')
        except (BlockingIOError, ConnectionRefusedError, FileNotFoundError):
            s.close()
            return None
        self.d.cmd('peer %d' % (USERS[user][0] if user is not None else -1))
        c = Client(self.nc, s, user)
        self.waiting.append(c)
        return c

    def send(self, c, data):
        try:
            c.s.send(data)
        except (BlockingIOError, BrokenPipeError, ConnectionResetError):
            return
        c.q += data

    def ask(self, c, cmd, *args):
        self.send(c, struct.pack('<%dq' % (1 + len(args)), CMD.get(cmd, cmd), *args))

    def auth(self, c, user, password):
        self.send(c, user.encode() + b'\0' + password.encode() + b'\0')

    def bye(self, c):
        c.closed = True
        c.reset = c.deaf           # (replies are left unread: the daemon gets an error first)
        c.s.close()

    def pending(self):
        return bool(self.waiting) or any(c.q or c.closed for c in self.cl)

    # -- what the daemon must read at its next wake-up
    def request(self, c, chunk):
        if c.user is None:
            z = chunk + b'\0' * 8
            name = z[:z.index(b'\0')]
            z = z[len(name) + 1:] + b'\0'
            pw = z[:z.index(b'\0')]
            name = name.decode('latin-1')
            return {'c': c.n, 'k': 'auth', 'name': name, 'known': name in self.w.users, 'pw': name in USERS and pw.decode('latin-1') == USERS[name][4]}
        v = struct.unpack('<20q', chunk + b'\0' * (MSG - len(chunk)))
        k = NAME.get(v[0], 'junk')
        r = {'c': c.n, 'k': k, 'who': '', 'num': 0, 'val': 0}
        if k in ('ls', 'lavgq', 'serialq', 'exeq'):
            names = {u[0]: n for n, u in self.w.users.items()}
            r['who'] = '*' if v[1] == ALL else '#' if v[1] == SYS else names.get(v[1] & 0xffffffff, '?')
        elif k in ('kill', 'renice'):
            r['val'] = ((v[1] & 0xffffffff) ^ 0x80000000) - 0x80000000
            r['num'] = self.small(v[2])
        else:
            r['num'] = self.small(v[1])
        return r

    @staticmethod
    def small(x):
        return x if 0 <= x < 10 ** 6 else 10 ** 6

    def reply(self, c, r):
        """Read the reply to r."""
        data = b''
        while True:
            try:
                b = c.s.recv(1 << 20)
            except BlockingIOError:
                break
            except ConnectionResetError:
                b = b''
            if not b:
                break
            data += b
        if r['k'] == 'auth':
            r['ans'] = {b'1\0': 'yes', b'0\0': 'no'}.get(data, '?')
            if r['ans'] == 'yes':
                c.user = r['name']
            return
        n = len(data) - len(data.rstrip(b'\0'))
        body = data[:len(data) - n]
        ok = n == 4 or n == 3 and (not body or r['k'] in ('run', 'runnow', 'kill', 'renice', 'exeq'))
        r['whole'] = ok
        r['rows'], r['fields'] = [], []
        text = body.decode('latin-1').replace('\0', '')
        if r['k'] == 'lavgq' and text.startswith('Current load average : '):
            text = text.split('\n', 1)[1]
        r['ans'] = ANSWER.get(text, '?')
        if 'Invalid arguments.\n' in text and text.replace('Invalid arguments.\n', '') == '':
            r['ans'] = 'invalid'           # once for each running instance
        if r['k'] in ('run', 'runnow', 'kill', 'renice', 'junk'):
            if r['ans'] == '?' and r['k'] != 'junk':
                r['ans'] = 'done'
            return
        if r['ans'] != '?':
            return
        lines = text.split('\n')
        if not lines or not lines[0].startswith('ID   |') or lines[-1] != '':
            return
        r['fields'] = [x.strip() for x in lines[0].split('|')]
        lines = lines[1:-1]
        r['ans'] = 'rows'
        if lines == ['No corresponding job found.']:
            r['ans'] = 'none'
            return
        if len(lines) == 1 and lines[0] + '\n' in ANSWER:
            r['ans'] = ANSWER[lines[0] + '\n']
            return
        try:
            self.rows(c, r, lines)
        except (ValueError, KeyError, TypeError, IndexError, AttributeError):
            r['ans'], r['rows'] = '?', []

    def rows(self, c, r, lines):
        for ln in lines:
            m = re.fullmatch(r'Job no more in an fcrontab: pid (-?\d+)', ln)
            if m:
                r['rows'].append({'id': '', 'run': self.jobpid.get(int(m[1]), 0)})
                continue
            v = ln.split('|', len(r['fields']) - 1)
            f = dict(zip(r['fields'], v))
            row = {'id': f['CMD'].split()[0] if f.get('CMD', '').split() else '?', 'num': int(f['ID'])}
            row['cmd'] = f.get('CMD', '?')
            if 'USER' in f:
                row['user'] = f['USER'].strip()
            if 'SCHEDULE' in f:
                row['next'] = secs(f['SCHEDULE'])
            if 'PID' in f:
                row['run'] = self.jobpid.get(int(f['PID']), 0)
            if 'INDEX' in f:
                row['idx'] = int(f['INDEX'])
            if 'R&Q' in f:
                row['nx'] = int(f['R&Q'])
            if 'OPTIONS' in f:
                o = [x for x in f['OPTIONS'].strip().split(',') if x]
                row['opt'] = [''.join(x for x in o if x[0] == k) for k in 'LSE'] if all(x[0] in 'LSE' for x in o) else ['?']
            for k in f:
                if k.startswith('LAVG'):
                    m = re.fullmatch(r'([\d.]+),([\d.]+),([\d.]+) +(?:\(no until set\) ?|(\S+ \S+) ([YN]))', f[k])
                    row['lavg'] = [round(float(m[i]) * 100) for i in (1, 2, 3)]
                    row['until'] = secs(m[4]) if m[4] else 0
                    row['strict'] = m[5] or ''
            del row['cmd']
            c.seen[row['id']] = row['num']
            r['rows'].append(row)

    def gone(self, c):
        """Has the daemon closed the connection?"""
        p = select.poll()
        p.register(c.s, select.POLLIN)
        return any(ev & (select.POLLHUP | select.POLLERR) for _, ev in p.poll(0))

    def wake(self, us, *sigs, **k):
        act = self.pending()
        new = self.waiting[:1]
        k0 = len(self.raw)
        if sigs and not act:
            return super().wake(us, *sigs, **k)
        w = super().wake(us, *sigs, **k)
        dyn = {'act': act, 'conn': [], 'req': [], 'bye': [], 'err': [], 'drop': [], 'calls': []}
        w['dyn'] = dyn
        for evs in self.raw[k0:]:
            for e in evs:
                if e['ev'] == 'kill':
                    dyn['calls'].append({'k': 'kill', 'run': self.jobpid.get(e['pid'], 0), 'val': e['sig']})
                elif e['ev'] == 'setpriority':
                    dyn['calls'].append({'k': 'renice', 'run': self.jobpid.get(e['pid'], 0) if e['which'] == 0 else 0, 'val': e['prio']})
        if self.d.ended is not None or not act:
            return w
        for c in new:
            self.waiting.pop(0)
            dyn['conn'].append({'c': c.n, 'user': c.user or ''})
        for c in list(self.cl):
            if c.closed and not c.q and c.reset:
                dyn['err'].append(c.n)
                c.reset = False
            elif c.closed and not c.q:
                dyn['bye'].append(c.n)
                self.cl.remove(c)
            elif c.q:
                chunk, c.q = c.q[:MSG], c.q[MSG:]
                r = self.request(c, chunk)
                if c.closed or c.deaf:
                    r['ans'] = ''
                    if r['k'] == 'auth' and r['pw']:
                        c.user = r['name']
                else:
                    self.reply(c, r)
                dyn['req'].append(r)
        self.cl = new + self.cl
        for c in list(self.cl):
            if not c.closed and self.gone(c):
                dyn['drop'].append(c.n)
                self.cl.remove(c)
                c.s.close()
                c.closed = True
        return w

    def _collect(self, evs):
        out = super()._collect(evs)
        for j in self.jobs.values():
            self.jobpid[j['pid']] = j['run']
        return out

    def close(self):
        for c in self.cl + self.waiting:
            c.s.close()
        super().close()


# ------------------------------------------------------------------ scenarios
import scen
US = 10 ** 6
PEOPLE = ['root', 'alice', 'bob', 'carol']


class DynDrive(scen.Drive):
    """Serves waiting clients at once."""
    def step(self):
        if self.r.pending() and self.r.d.ended is None:
            self.plan()
            dt = self.rng.choice([0, 0, 1000, 40000])
            self.endjobs(self.r.clock_us + dt)
            return self.r.wake(dt)
        return super().step()


def world(rng, **k):
    p = scen.params(rng)
    p.update(k)
    p.setdefault('save', 10 ** 8)
    r = DynRun(scen.start_time(rng, 'UTC'), tz='UTC', **p)
    if rng.random() < .4:
        r.clock_us += rng.randint(0, 999999)
    r.rnd = rng.choice(['rand real', 'rand min', 'rand max'])
    return r


def number(r, rng):
    known = sorted({x for c in r.cl for x in c.seen.values()} | set(getattr(r, 'nums', ())))
    x = rng.random()
    if known and x < .6:
        return rng.choice(known)
    if x < .95:
        return rng.randint(0, 8)
    return rng.choice([-1, -100, 2 ** 31, 2 ** 32, 2 ** 62, -2 ** 63, 1000])


def request(r, rng, c, kinds):
    k = rng.choice(kinds)
    if k in ('ls', 'lavgq', 'serialq', 'exeq'):
        who = rng.choice([USERS[c.user][0] if c.user in USERS else 0] * 3 + [ALL] * (4 if c.user == 'root' else 1) + [USERS[u][0] for u in PEOPLE] + [SYS, 12345])
        r.ask(c, k, who, 0)
    elif k == 'kill':
        r.ask(c, k, rng.choice([15, 9, 1, 10, 64, 0, -1, -15, 2 ** 32 + 9]), number(r, rng))
    elif k == 'renice':
        r.ask(c, k, rng.choice([0, 5, 10, 19, 20, 21, -1, -5, -20, -21, 2 ** 32 - 3]), number(r, rng))
    elif k == 'junk':
        n = rng.choice([1, 3, 7, 8, 9, 16, 17, 24, 40, 159, 160, 161, 400])
        d = bytes(rng.choice([rng.randrange(256), 0, 255]) for _ in range(n))
        if rng.random() < .4:      # a command and garbage
            d = struct.pack('<q', rng.choice([0, 1, -1, 100, 106, 200, 300, 303, 400, 403, 2 ** 32 + 101, 10 ** 15])) + d
        elif rng.random() < .4:    # a truncated command
            d = struct.pack('<qqq', CMD[rng.choice(list(CMD))], rng.choice([0, 1, 5]), number(r, rng))[:rng.choice([8, 9, 12, 16, 20, 23])]
        r.send(c, d)
    else:
        r.ask(c, k, number(r, rng), *([0] if rng.random() < .5 else []))


def clients(kinds, comes=.5, pw=.15, leaves=.1, deaf=0.0, burst=2):
    """An action: some clients come, ask and go."""
    def action(r, rng, d):
        def act(dt):
            if r.d.ended is not None:
                return None
            d.at(rng.choice([0, 1, 3, 20, 59, 61, 200, 700]) * US + rng.randint(0, 999999), act)
            if rng.random() < comes or not r.cl:
                if rng.random() < pw:
                    r.connect(None)
                else:
                    r.connect(rng.choice(PEOPLE))
            for c in list(r.cl):
                if c.closed or rng.random() < .4:
                    continue
                if c.user is None:
                    if rng.random() < .7:
                        u = rng.choice(PEOPLE + ['nobody-here', ''])
                        x = rng.random()
                        if x < .8:
                            r.auth(c, u, u + 'pw' if rng.random() < .6 else rng.choice(['', 'x', 'pw', u + 'pwx', u, '$S$', 'y' * 100]))
                        elif x < .9:
                            r.send(c, u.encode() + b'\0' + (u + 'pw').encode())
                        else:
                            r.send(c, bytes(rng.randrange(1, 256) for _ in range(rng.choice([1, 8, 159, 160]))))
                    continue
                if rng.random() < leaves:
                    r.bye(c)
                    continue
                if deaf and not c.q and rng.random() < deaf:
                    c.deaf = True
                for _ in range(1 if deaf else rng.randint(1, burst)):
                    request(r, rng, c, kinds)
            return r.wake(dt)
        return act
    return action


def brute(r, rng, d):
    """Someone tries passwords."""
    st = {'n': rng.randint(6, 14), 'c': None}

    def act(dt):
        if r.d.ended is not None:
            return None
        c = st['c']
        if c is None or c.closed or c.user is not None:
            c = st['c'] = r.connect(None)
        elif not c.q:
            u = rng.choice(PEOPLE)
            r.auth(c, u, 'no' if st['n'] > 0 else u + 'pw')
            st['n'] -= 1
            if st['n'] == 0 and rng.random() < .7:
                d.at(rng.choice([58, 59, 60, 61, 30, 0]) * US + rng.randint(0, 999999), act)
                return r.wake(dt)
        if st['n'] > -4:
            d.at(rng.choice([0, 0, 1, 2, 5]) * US + rng.randint(0, 999999), act)
        return r.wake(dt)
    return act


def crowd(r, rng, d):
    """Many come at once."""
    def act(dt):
        if r.d.ended is not None:
            return None
        for _ in range(rng.randint(10, 25)):
            r.connect(rng.choice(PEOPLE + [None]))
        return r.wake(dt)
    return act


def dynlife(rng, r, acts, nacts, steps, tabs, job=None, who=None, first=None):
    for u, es in tabs.items():
        r.install(u, es)
    r.start(rng.choice(['boot', 'start']))
    d = DynDrive(r, rng, late=.03, early=.03, job=job or scen.jobs(rng))
    d.at(rng.randint(0, 100) * US, who(r, rng, d))
    for i in range(nacts):
        d.at(scen.pauses(rng), rng.choice(acts)(r, rng, d))
    d.run(steps)
    return r.trace()


OPTS = ('serial', 'lavg', 'exesev', 'ssev', 'lsev')
ASK = ['ls', 'ls', 'lavgq', 'serialq', 'exeq', 'exeq', 'detail', 'run', 'runnow', 'kill', 'kill', 'renice']


def tabs(rng, users, lo, hi, opts=OPTS, p=.3):
    return {u: scen.entries(rng, u[0], rng.randint(lo, hi), opts=opts, p=p, short=rng.random() < .7) for u in users}


def plain(t, rng=None):
    for es in t.values():
        for e in es:
            e.random, e.jitter = False, 0
            if rng is not None and e.kind != 'at' and not e.once and rng.random() < .4:
                e.notice = True
    return t


def f16(rng):
    with world(rng) as r:
        t = plain(tabs(rng, [u for u in PEOPLE if rng.random() < .6] or ['alice'], 1, 2))
        scen.load(r, rng)
        return dynlife(rng, r, [scen.hup_same, scen.suspend, brute], rng.choice([0, 0, 1, 2]), rng.choice([20, 40]), t,
                       job=rng.choice([(0, (100, 9000)), (.1, (60, 4000)), None]), who=clients(ASK + ['junk', 'junk'], pw=.3))


def f17(rng):
    with world(rng) as r:
        t = plain(tabs(rng, ['alice'] + (['bob'] if rng.random() < .4 else []), 1, 4, p=.4), rng)
        scen.load(r, rng)
        return dynlife(rng, r, [scen.hup_same, scen.usr1, scen.suspend, scen.restart, scen.setload], rng.choice([0, 1, 2]), rng.choice([20, 40]), t,
                       job=rng.choice([(0, (100, 9000)), (.1, (60, 4000)), None]), who=clients(ASK, pw=0, burst=1))


def f18(rng):
    with world(rng) as r:
        t = plain(tabs(rng, ['alice'], 1, 3))
        return dynlife(rng, r, [scen.hup_same, brute, crowd, crowd], rng.choice([0, 1, 2, 4]), rng.choice([20, 40, 80, 120]), t,
                       who=clients(['ls', 'ls', 'exeq', 'detail', 'junk'], comes=.8, pw=.3, leaves=.15, deaf=rng.choice([0, 0, .1]), burst=1))


DYN = {'F16': f16, 'F17': f17, 'F18': f18}
