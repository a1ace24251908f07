"""Random scenarios for the properties that Daemon.tla decides (F01-F10, F15, F23)."""
import copy
import datetime
import random
from run import Run, HUP, TERM, USR1, EPOCH2000
from sim import SimError
from gen import *

US = 1000000
PCT_KW = ['hourly', 'midhourly', 'daily', 'middaily', 'nightly', 'weekly', 'midweekly', 'monthly', 'midmonthly']
S_KW = ['mins', 'hours', 'days', 'mons', 'dow']


# ------------------------------------------------------------------ entries
def td_entry(rng, id, dense=None):
    e = Entry(id)
    style = dense or rng.choice(['dense', 'mid', 'sparse', 'any'])
    d = {'dense': (['star', 'some', 'many', 'few'], ['star', 'star', 'some'], ['star'], ['star'], ['star']),
         'mid': (['one', 'few'], ['star', 'some', 'few'], ['star', 'star', 'some'], ['star'], ['star', 'star', 'some']),
         'sparse': (['one', 'few'], ['one', 'few'], ['one', 'few', 'some', 'star'], ['star', 'few', 'some', 'one'], ['star', 'star', 'few', 'some']),
         'any': (['star', 'one', 'few', 'some'],) * 5}[style]
    if rng.random() < .02:       # a date that never comes
        style, e.f['days'], e.f['mons'] = 'never', [item(rng.choice([30, 31]))], [item(2)]
        e.f['mins'] = rand_field(rng, 'mins', 'few')
        return e
    while True:
        for x, ds in zip(ORDER, d):
            e.f[x] = rand_field(rng, x, rng.choice(ds))
        e.dayor = rng.random() < .3
        if possible(e, style == 'any'):
            return e


def day_gap(e):
    """The longest time, in years, without a day that matches the entry's fields (0: there is never one)."""
    mons, days, dow = (field_set(e.f[x]) for x in ('mons', 'days', 'dow'))
    dow = {d % 7 for d in dow}
    if e.dayor:
        return 1 if len(dow) and len(mons) else 9
    pairs = [(m, d) for m in mons for d in days if d <= MONTH_DAYS[m]]
    if not pairs:
        return 0
    if len(pairs) > 100 or len(dow) == 7 and pairs != [(2, 29)]:
        return 1
    last, gap = datetime.date(2000, 1, 1), 0
    for y in range(2000, 2066):
        for m, d in sorted(pairs):
            if (m, d) == (2, 29) and y % 4:
                continue
            x = datetime.date(y, m, d)
            if (x.weekday() + 1) % 7 in dow:
                gap = max(gap, (x - last).days)
                last = x
    return gap / 366


MONTH_DAYS = {1: 31, 2: 29, 3: 31, 4: 30, 5: 31, 6: 30, 7: 31, 8: 31, 9: 30, 10: 31, 11: 30, 12: 31}


def possible(e, never=False):
    """fcron looks ten years ahead: the entry's next day is never farther away than 8 years (or never comes)."""
    g = day_gap(e)
    return 0 < g < 8 or (never and g == 0)


def pct_entry(rng, id, kws=None, short=False):
    e = Entry(id, 'pct')
    e.kw = rng.choice(kws or (PCT_KW + S_KW))
    while True:
        for x in ORDER:
            e.f[x] = star(x)
        n = KW_FIELDS[e.kw]
        if n < 5:
            for x in ORDER[:n]:
                e.f[x] = rand_field(rng, x, rng.choice(['star', 'one', 'few', 'some', 'some']))
        else:
            for x in ORDER:
                e.f[x] = rand_field(rng, x, rng.choice({'mins': ['one', 'few', 'some', 'star'], 'hrs': ['one', 'few', 'some', 'star', 'star'],
                                                        'days': ['star', 'star', 'some', 'few'], 'mons': ['star', 'star', 'some'],
                                                        'dow': ['star', 'star', 'some']}[x]))
            e.dayor = rng.random() < .2
        if possible(e) and bounded_interval(e):
            return e


def bounded_interval(e):
    """No interval of the entry goes on for ever (such an entry runs only once; it is left to its own scenario)."""
    if e.kw in PCT_KW:
        return True
    ig = {'mins': 0, 'hours': 1, 'days': 2, 'mons': 3, 'dow': 4}[e.kw]
    def full(x):
        s = field_set(e.f[x])
        if x == 'dow':
            s = {v % 7 for v in s}
        lo, hi = RANGES[x]
        return ORDER.index(x) < ig or s == set(range(lo, 7 if x == 'dow' else hi + 1))
    if e.dayor:
        date = not full('days') and not full('dow')
    else:
        date = not full('days') or not full('dow')
    return date or not full('mins') or not full('hrs') or not full('mons')


def at_entry(rng, id, big=True):
    e = Entry(id, 'at')
    e.freq = rng.choice([10, 60, 90, 300, 3600, 7 * 60, 86400, 86400 * 7 + 30] if big else [30, 45, 60, 90, 120, 300, 600])
    if rng.random() < .5:
        e.first = rng.choice([0, 1, 60, 30, 3600, e.freq, e.freq * 2])
    return e


# ------------------------------------------------------------------ start times
def start_time(rng, tz):
    """A start, in seconds since the epoch: any, or near a clock change, a month's, year's or February's end."""
    x = rng.random()
    y = rng.randint(2003, 2030)
    import calendar
    if x < .3:
        t = calendar.timegm((y, rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)))
    elif x < .65:
        tr = [u for u, o in transitions(tz)[1:] if 3 * 31536000 < u < 30 * 31536000]
        if tr:
            t = rng.choice(tr) + EPOCH2000 - rng.choice([30, 600, 3600, 5400, 7300, 20000, 90000, 200000])
        else:
            t = calendar.timegm((y, 12, 31, 20, 0, 0))
    elif x < .8:
        t = calendar.timegm((y, rng.randint(1, 12), 1, 0, 0, 0)) - rng.choice([5, 61, 3600, 40000, 86400, 200000])
    elif x < .9:
        t = calendar.timegm((rng.choice([2004, 2008, 2012, 2016, 2020, 2024, 2028]), 2, rng.choice([26, 27, 28, 29]), rng.randint(0, 23), rng.randint(0, 59), 0))
    else:
        t = calendar.timegm((y, 12, rng.choice([30, 31]), rng.randint(0, 23), rng.randint(0, 59), 0))
    return t


# ------------------------------------------------------------------ the driving loop
class Drive:
    """Drives a Run: wakes the daemon at its timeouts, ends jobs at planned times, and does planned actions."""
    def __init__(self, r, rng, job=(.5, (0, 2)), early=.05, late=0.0):
        self.r, self.rng = r, rng
        self.fin = {}              # slot -> planned end (us) or None (never by itself)
        self.jobpol = job
        self.early, self.late = early, late
        self.actions = []          # (time us, priority, function)
        self.n = 0

    def plan(self):
        r, rng = self.r, self.rng
        for s in r.jobs:
            if s not in self.fin:
                self.fin[s] = r.clock_us + self.duration(r.jobs[s]['id'])
        for s in list(self.fin):
            if s not in r.jobs:
                del self.fin[s]

    def duration(self, id):
        rng = self.rng
        p, (lo, hi) = self.jobpol
        if rng.random() < p:
            return 0
        return int(rng.choice([rng.uniform(lo, hi), hi, lo]) * US)

    def at(self, dt_us, fn):
        self.actions.append((self.r.clock_us + dt_us, len(self.actions), fn))
        self.actions.sort(key=lambda x: x[:2])

    def endjobs(self, until):
        """Let the jobs end whose time has come."""
        for s in sorted([s for s, t in self.fin.items() if t <= until], key=lambda s: (self.fin[s], s)):
            how = self.rng.choice(['x0', 'x0', 'x1', 'x255', 'k9', 'k11', 'k15'])
            if s in self.r.jobs:
                self.r.finish(s, how)
            del self.fin[s]

    def step(self):
        r, rng = self.r, self.rng
        self.plan()
        w = r.clock_us + max(0, r.d.timeout_us)
        t = w
        if self.late and rng.random() < self.late:
            t = w + rng.choice([1, 300000, 2 * US, 4 * US])
        nf = min(self.fin.values(), default=None)
        na = self.actions[0][0] if self.actions else None
        if nf is not None:
            t = min(t, max(nf, r.clock_us))
        if na is not None:
            t = min(t, max(na, r.clock_us))
        if t == w and w > r.clock_us and self.early and rng.random() < self.early:
            t = r.clock_us + rng.randint(0, w - r.clock_us)
        if self.actions and self.actions[0][0] <= t:
            _, _, fn = self.actions.pop(0)
            self.endjobs(t)
            return fn(t - r.clock_us)
        self.endjobs(t)
        self.n += 1
        return r.wake(t - r.clock_us)

    def run(self, steps, until_us=None):
        for _ in range(steps):
            if self.r.clock_us > min(2600000000, self.r.t0 + 10 * 31500000) * US:
                break
            if self.r.d.ended is not None or (until_us is not None and self.r.clock_us > until_us):
                break
            self.step()

    def finish_all(self):
        for s in list(self.r.jobs):
            self.r.finish(s)
        self.fin = {}


def rand_world(rng, tz=None, **k):
    tz = tz or rng.choice(['UTC', 'UTC'] + ZONES)
    k.setdefault('save', 10 ** 8)
    start = k.pop('start', None) or start_time(rng, tz)
    r = Run(start, tz=tz, **k)
    if rng.random() < .4:
        r.clock_us += rng.randint(0, 999999)
    r.rnd = rng.choice(['rand real', 'rand min', 'rand max', 'seed %d' % rng.randint(1, 1 << 30), 'seed %d' % rng.randint(1, 1 << 30)])
    return r


DST_ZONES = [z for z in ZONES if len(transitions(z)) > 20]


def dst_change(rng):
    """(zone, instant of one of its clock changes since 2000)"""
    z = rng.choice(DST_ZONES)
    tr = transitions(z)
    i = rng.choice([i for i in range(1, len(tr)) if 3 * 31536000 < tr[i][0] < 30 * 31536000])
    return z, tr[i][0], tr[i - 1][1], tr[i][1]


def near_change(rng, e, ch):
    """Fields of e around the minutes that a clock change skips or repeats, on that date and perhaps others."""
    z, t, o1, o2 = ch
    loc = t + EPOCH2000 + rng.choice([min(o1, o2), min(o1, o2), max(o1, o2)]) + rng.choice([-3600, 0, 0, 0, 3600]) + 60 * rng.randint(0, 59)
    d = datetime.datetime.fromtimestamp(loc, datetime.timezone.utc)
    one = lambda x: [item(x)]
    e.f['hrs'] = rng.choice([one(d.hour), one(d.hour), [item(d.hour), item((d.hour + rng.randint(1, 23)) % 24)], star('hrs')])
    e.f['mins'] = rng.choice([one(d.minute), one(0), one(59), one(30), rand_field(rng, 'mins', 'few'), star('mins')])
    x = rng.random()
    if x < .4:        # that date and one in another season
        e.f['days'] = one(d.day)
        e.f['mons'] = [item(d.month), item((d.month + rng.choice([3, 5, 6, 7, 9]) - 1) % 12 + 1)]
    elif x < .6:
        e.f['days'] = [item(d.day), item(rng.randint(1, 28))]
    elif x < .8:
        e.f['dow'] = one((d.weekday() + 1) % 7)
    if len(field_set(e.f['hrs'])) * len(field_set(e.f['mins'])) > 60:
        e.f['hrs'] = one(d.hour)
    return e


# ------------------------------------------------------------------ scenarios
def f01(rng, r=None):
    ch = dst_change(rng) if rng.random() < .3 else None
    k = {}
    if ch:
        k = {'tz': rng.choice([ch[0], ch[0], 'UTC']), 'start': ch[1] + EPOCH2000 - rng.choice([3600, 7200, 86400, 86400 * 3, 86400 * 40, 86400 * 200, rng.randint(1, 300) * 86400])}
    with rand_world(rng, **k) as r:
        n = rng.randint(1, 4)
        tzd = rng.choice([0, 0, 0, rng.randint(-12, 12)])
        es = []
        for i in range(n):
            if ch and i < 2:
                e = near_change(rng, Entry('a%d' % i), ch)
                e.tz = ch[0] if r.tz != ch[0] else ''
            else:
                e = td_entry(rng, 'a%d' % i)
            if not ch and rng.random() < .25:
                e.tz = rng.choice(ZONES)
            if rng.random() < .2:
                e.jitter = rng.choice([1, 5, 59, 60, 61, 255])
            if rng.random() < .25:
                e.n = rng.choice([2, 3, 5, 255])
            es.append(e)
        r.install('alice', es, tzdiff=tzd)
        if rng.random() < .3:
            r.install('bob', [td_entry(rng, 'b%d' % i) for i in range(2)])
        r.start(rng.choice(['boot', 'start']))
        d = Drive(r, rng, late=.05)
        d.run(rng.choice([15, 30, 60]))
        return r.trace()


def f02(rng):
    with rand_world(rng) as r:
        tzd = rng.choice([0, 0, 0, rng.randint(-12, 12)])
        es = []
        for i in range(rng.randint(1, 3)):
            e = pct_entry(rng, 'a%d' % i)
            if rng.random() < .2:
                e.tz = rng.choice(ZONES)
            if rng.random() < .35:
                e.random = True
            es.append(e)
        r.install('alice', es, tzdiff=tzd)
        r.start(rng.choice(['boot', 'start']))
        d = Drive(r, rng, late=.1)
        d.run(rng.choice([15, 30, 45]))
        return r.trace()


def restart(r, rng, d, ctxs=('start', 'boot'), downs=(0, 1, 60, 3600, 86400, 86400 * 20)):
    def go(dt):
        down = int(rng.choice(downs) * rng.uniform(.5, 1.5) * US)
        if rng.random() < .5:
            r.wake(dt)
            if r.d.ended is None:
                r.crash(down)
        else:
            r.wake(dt)
            if r.d.ended is None:
                r.term(down)
        d.fin = {}
        r.start(rng.choice(ctxs))
    return go


def f03(rng):
    with rand_world(rng, save=rng.choice([60, 600, 1800, 10 ** 8])) as r:
        es = []
        for i in range(rng.randint(1, 4)):
            e = at_entry(rng, 'a%d' % i)
            e.vol = rng.random() < .2
            e.reset = rng.random() < .2
            e.once = rng.random() < .1
            e.resume = rng.random() < .1
            e.boot = rng.random() < .1
            es.append(e)
        r.install('alice', es)
        r.start(rng.choice(['boot', 'start']))
        d = Drive(r, rng, late=.1)
        for i in range(rng.randint(0, 4)):
            tt = rng.choice([50, 1000, 5000, 90000]) * rng.randint(1, 5) * US
            if rng.random() < .5:
                d.at(tt, restart(r, rng, d))
            else:
                d.at(tt, suspend(r, rng, d))
        d.run(rng.choice([30, 60]))
        return r.trace()


def suspend(r, rng, d, lens=(7, 30, 60, 600, 3600, 86400, 86400 * 9)):
    """A suspend; the kernel tells fcron at once that the clock jumped, or fcron finds out when its sleep is over."""
    def go(dt):
        us = rng.choice(lens) * rng.randint(1, 3) * US
        r.wake(dt)
        if r.d.ended is not None:
            return
        if rng.random() < .6:
            r.wake(rng.choice([0, 0, 1, 999999]), suspend_us=us, timer=True)
        else:
            r.wake(max(0, r.d.timeout_us), suspend_us=us)
    return go


# -------------------------------------------------- entries with everything
def entry(rng, id, kinds=('td', 'pct', 'at'), opts=(), p=.3, short=True):
    """An entry of one of the kinds; each of the options named in opts is set with probability p."""
    k = rng.choice(kinds)
    if k == 'td':
        e = td_entry(rng, id, rng.choice(['dense', 'dense', 'mid'] if short else ['dense', 'mid', 'sparse']))
        if rng.random() < .15:
            e.n = rng.choice([2, 3, 4])
    elif k == 'pct':
        e = pct_entry(rng, id, short=short, kws=['hourly', 'midhourly', 'daily', 'middaily', 'nightly', 'mins', 'hours', 'weekly', 'days'] if short else None)
        if rng.random() < .15:
            e.random = True
    else:
        e = at_entry(rng, id, big=not short)
    for o in opts:
        if rng.random() >= p:
            continue
        if o == 'serial':
            e.serial = True
        elif o == 'ssev':
            e.serialonce = rng.random() < .7
        elif o == 'lsev':
            e.lavgonce = False
        elif o == 'lavg':
            e.lor = rng.random() < .3
            v = [rng.choice([0, 5, 10, 20]) for _ in range(3)]
            if not any(v):
                v[rng.randrange(3)] = 10
            e.lavg = [x or 5 for x in v] if e.lor else v
            e.until = rng.choice([0, 0, 60, 90, 600, 3600, 86400])
            if k == 'pct':
                e.strict = rng.choice([None, True, False])
        elif o == 'n' and k == 'td':
            e.n = rng.choice([2, 3, 4, 10])
        elif o == 'jitter' and k == 'td':
            e.jitter = rng.choice([1, 20, 60, 255])
        elif o == 'random' and k == 'pct':
            e.random = True
        elif o in ('exesev', 'boot', 'resume', 'once', 'vol', 'reset', 'notice', 'bootrun'):
            if o == 'bootrun' and k == 'at' or o == 'notice' and k == 'at' or o == 'reset' and k != 'at':
                continue
            if o == 'bootrun' and k != 'td':
                continue
            setattr(e, o, True)
    # combinations left out (see DESIGN.md)
    if e.random or e.jitter:      # too many explanations of what nobody sees in the queues
        e.serial, e.lavg, e.notice = False, None, e.notice and not e.random
    if e.bootrun:
        e.exesev = e.once = False
    if e.once:
        e.notice = False
    return e


def entries(rng, pre, n, **k):
    return [entry(rng, '%s%d' % (pre, i), **k) for i in range(n)]


def params(rng):
    return dict(m=rng.choice([1, 1, 1, 2, 3]), q=rng.choice([5, 6, 10, 12, 30]), fs=rng.choice([0, 1, 20, 20, 61]),
                save=rng.choice([60, 600, 1800, 10 ** 8]))


def pauses(rng):
    return rng.choice([50, 200, 1000, 5000, 40000]) * rng.randint(1, 6) * US + rng.randint(0, 999999)


def jobs(rng):
    """How long jobs last: (probability of at once, (lo, hi) seconds)"""
    return rng.choice([(.5, (0, 2)), (.2, (1, 100)), (.1, (60, 4000)), (0, (100, 90000)), (1, (0, 0))])


def life(rng, r, acts, nacts, steps, tabs, late=.05, early=.05, job=None, opts=None):
    """Install, start, and live through actions."""
    for u, es in tabs.items():
        r.install(u, es)
    r.start(rng.choice(['boot', 'start']))
    d = Drive(r, rng, late=late, early=early, job=job or jobs(rng))
    for i in range(nacts):
        f = rng.choice(acts)
        d.at(pauses(rng), f(r, rng, d))
    d.run(steps)
    return r.trace()


def f04(rng):
    with rand_world(rng, **params(rng)) as r:
        tabs = {'alice': entries(rng, 'a', rng.randint(1, 4), opts=('serial', 'once', 'n', 'lavg', 'jitter', 'reset', 'vol'), p=.2, short=rng.random() < .6)}
        if rng.random() < .5:
            tabs['bob'] = entries(rng, 'b', rng.randint(1, 3), opts=('serial', 'once', 'n'), p=.2)
        load(r, rng)
        return life(rng, r, [restart], rng.randint(1, 4), rng.choice([20, 40]), tabs)


def f05(rng):
    with rand_world(rng, **params(rng)) as r:
        tabs = {'alice': entries(rng, 'a', rng.randint(1, 5), opts=('serial', 'once', 'boot', 'bootrun', 'vol', 'reset', 'n'), p=.35, short=rng.random() < .6)}
        return life(rng, r, [restart, restart, restart, suspend], rng.randint(1, 4), rng.choice([20, 40]), tabs)


def f06(rng):
    with rand_world(rng, **params(rng)) as r:
        tabs = {'alice': entries(rng, 'a', rng.randint(1, 5), opts=('serial', 'once', 'bootrun', 'resume', 'vol', 'n', 'lavg', 'exesev'), p=.3, short=rng.random() < .6)}
        load(r, rng)
        return life(rng, r, [suspend, suspend, suspend, restart], rng.randint(1, 5), rng.choice([20, 40]), tabs)


def f07(rng):
    p = params(rng)
    p['q'] = rng.choice([5, 5, 6, 8, 12, 30])
    with rand_world(rng, **p) as r:
        es = entries(rng, 'a', rng.randint(2, 14), opts=('serial', 'serial', 'serial', 'ssev'), p=.5)
        tabs = {'alice': es}
        if rng.random() < .3:
            tabs['bob'] = entries(rng, 'b', rng.randint(1, 5), opts=('serial', 'ssev'), p=.7)
        return life(rng, r, [restart, suspend, hup_same], rng.choice([0, 0, 1, 2]), rng.choice([30, 60]), tabs,
                    job=rng.choice([(.2, (1, 100)), (.1, (60, 4000)), (0, (100, 9000))]))


def load(r, rng):
    r.load(*[rng.choice([0, 40, 60, 90, 150, 300]) for _ in range(3)])


def setload(r, rng, d):
    def go(dt):
        load(r, rng)
        r.wake(dt)
    return go


def f08(rng):
    with rand_world(rng, **params(rng)) as r:
        tabs = {'alice': entries(rng, 'a', rng.randint(1, 8), opts=('lavg', 'lavg', 'lavg', 'lsev', 'serial', 'notice'), p=.5)}
        load(r, rng)
        return life(rng, r, [setload, setload, setload, restart, suspend], rng.choice([1, 3, 6]), rng.choice([30, 60]), tabs,
                    job=rng.choice([(.2, (1, 100)), (.1, (60, 4000)), (1, (0, 0))]))


def f09(rng):
    with rand_world(rng, **params(rng)) as r:
        tabs = {'alice': entries(rng, 'a', rng.randint(1, 5), opts=('exesev', 'serial', 'ssev', 'lavg', 'lsev', 'n'), p=.3)}
        load(r, rng)
        return life(rng, r, [suspend, setload], rng.choice([0, 0, 1, 2]), rng.choice([30, 60]), tabs,
                    job=rng.choice([(.2, (1, 100)), (.1, (60, 4000)), (0, (100, 90000))]))


def hup_same(r, rng, d):
    def go(dt):
        r.wake(dt, HUP)
    return go



# ------------------------------------------------------------------ reloading
def change(rng, e, kinds, opts):
    """The same entry with something else in it (same command)."""
    x = rng.random()
    if x < .35:
        return copy.deepcopy(e)
    n = entry(rng, e.id, kinds=kinds, opts=opts)
    if x < .6:
        return n               # something else altogether
    c = copy.deepcopy(e)       # the same times, other options
    for a in ('serial', 'serialonce', 'once', 'vol', 'reset', 'exesev', 'boot', 'resume', 'n'):
        if rng.random() < .5 and (a != 'n' or c.kind == 'td' and n.kind == 'td'):
            setattr(c, a, getattr(n, a))
    if rng.random() < .2 and c.kind != 'at':
        f = rng.choice(ORDER)
        if c.kind == 'td':
            k = copy.deepcopy(c.f[f])
            c.f[f] = rand_field(rng, f, 'some')
            if not possible(c):
                c.f[f] = k
    if c.random or c.jitter:
        c.serial = False
    if c.bootrun or c.once:
        c.exesev, c.notice = False, False
        if c.bootrun:
            c.once = False
    return c


USERS10 = ('alice', 'bob', 'carol')


def reinstall(r, rng, d, now=False):
    """Another fcrontab for one user (or none, or the same), seen by the daemon at once or at the next signal."""
    def go(dt):
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            u = rng.choice(USERS10)
            old = r.tabs.get(u, [])
            if u in r.tabs and rng.random() < .2:
                r.remove(u)
                del r.tabs[u]
                continue
            k = rng.random()
            es = [change(rng, e, ('td', 'pct', 'at'), r.opts10) for e in old if rng.random() < .8]
            for _ in range(rng.choice([0, 0, 1, 2])):
                r.nid += 1
                es.append(entry(rng, '%s%d' % (u[0], r.nid), opts=r.opts10, p=.25))
            rng.shuffle(es)
            tz = r.tzd.get(u, 0) if rng.random() < .8 else rng.randint(-12, 12)
            r.tzd[u] = tz
            if tz:
                for e in es:
                    e.notice = False
            r.tabs[u] = es
            r.install(u, es, tzdiff=tz, fresh=rng.random() < .15)
        if rng.random() < .8:
            r.wake(dt, HUP)
        else:
            r.wake(dt)
    return go


def usr1(r, rng, d):
    """Reload everything."""
    def go(dt):
        r.wake(max(0, r.d.timeout_us) if rng.random() < .3 else dt, USR1)
    return go


def f10(rng):
    p = params(rng)
    with rand_world(rng, **p) as r:
        r.opts10 = rng.choice([(), ('serial', 'once', 'n', 'vol', 'reset', 'boot', 'resume', 'exesev'), ('serial', 'n', 'lavg', 'notice'), ('bootrun', 'jitter', 'random', 'once')])
        r.nid, r.tzd = 10, {}
        r.tabs = {u: entries(rng, u[0], rng.randint(0, 4), opts=r.opts10, p=.25, short=rng.random() < .7) for u in USERS10 if rng.random() < .7}
        load(r, rng)
        return life(rng, r, [reinstall, reinstall, reinstall, hup_same, usr1, suspend, restart], rng.choice([2, 4, 8]), rng.choice([30, 60]), dict(r.tabs))


def f15(rng):
    with rand_world(rng, **params(rng)) as r:
        tabs = {'alice': entries(rng, 'a', rng.randint(1, 6), kinds=('td', 'pct'), opts=('notice', 'notice', 'notice', 'serial', 'bootrun', 'lavg', 'jitter', 'n'), p=.5,
                                 short=rng.random() < .6)}
        if rng.random() < .4:
            tabs['bob'] = entries(rng, 'b', rng.randint(1, 3), kinds=('td', 'pct'), opts=('notice', 'lavg'), p=.6)
        load(r, rng)
        return life(rng, r, [suspend, suspend, restart, restart, setload], rng.randint(1, 6), rng.choice([20, 40]), tabs,
                    job=rng.choice([(.5, (0, 2)), (.1, (60, 4000)), (0, (100, 90000))]))


def term(r, rng, d):
    """Stop fcron; its jobs end one after the other (the harness lets them)."""
    def go(dt):
        r.wake(dt)
        if r.d.ended is None:
            r.term(int(rng.choice([0, 1, 60, 3600, 86400]) * rng.uniform(.5, 1.5) * US))
        d.fin = {}
        r.start(rng.choice(['start', 'start', 'boot']))
    return go


def f23(rng):
    p = params(rng)
    once = rng.random() < .3
    if once:
        p['fs'] = 0
    with rand_world(rng, once=once, **p) as r:
        tabs = {'alice': entries(rng, 'a', rng.randint(1, 6), opts=('serial', 'lavg', 'n', 'exesev', 'vol', 'once'), p=.3, short=rng.random() < .7)}
        if rng.random() < .4:
            tabs['bob'] = entries(rng, 'b', rng.randint(1, 3), opts=('serial', 'exesev'), p=.3)
        load(r, rng)
        if rng.random() < .5:      # one job at a time
            r.waitorder = lambda js: [rng.choice(js)]
        if once:
            return once_life(rng, r, tabs)
        return life(rng, r, [term, term, restart, suspend], rng.randint(1, 5), rng.choice([20, 40]), tabs,
                    job=rng.choice([(.2, (1, 100)), (.1, (60, 4000)), (0, (100, 90000))]))


def once_life(rng, r, tabs):
    """fcron -o: run what is due, wait for it, save and end; again and again."""
    for u, es in tabs.items():
        r.install(u, es)
    for i in range(rng.randint(1, 6)):
        r.start(rng.choice(['boot', 'start', 'start']))
        for _ in range(3):
            if r.d.ended is None:
                r.wake(max(0, r.d.timeout_us))
        if r.d.ended is None:
            raise SimError('fcron -o does not end')
        r.d.kill()
        r.jobs, r.pids = {}, {}
        r.down(int(rng.choice([1, 60, 600, 3600, 86400]) * rng.uniform(.5, 1.5) * US))
    return r.trace()


SCEN = {'F01': f01, 'F02': f02, 'F03': f03, 'F04': f04, 'F05': f05, 'F06': f06, 'F07': f07, 'F08': f08, 'F09': f09,
        'F10': f10, 'F15': f15, 'F23': f23}
