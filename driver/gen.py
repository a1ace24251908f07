"""Entries as abstract syntax, their text in an fcrontab, and the record the specification reads."""
import bisect, datetime, functools, random, zoneinfo

E2000 = 946684800
RANGES = {'mins': (0, 59), 'hrs': (0, 23), 'days': (1, 31), 'mons': (1, 12), 'dow': (0, 7)}
ORDER = ['mins', 'hrs', 'days', 'mons', 'dow']
KW_FIELDS = {'hourly': 1, 'midhourly': 1, 'daily': 2, 'middaily': 2, 'nightly': 2, 'weekly': 2, 'midweekly': 2,
             'monthly': 3, 'midmonthly': 3, 'mins': 5, 'hours': 5, 'days': 5, 'mons': 5, 'dow': 5}
ZONES = ['UTC', 'Europe/Paris', 'America/New_York', 'Australia/Sydney', 'Asia/Kolkata', 'America/Sao_Paulo',
         'Pacific/Auckland', 'Asia/Tokyo', 'America/St_Johns', 'Africa/Cairo']


@functools.lru_cache(None)
def transitions(name):
    """[(t, offset)] of a zone from 2000 to 2060, in seconds since 2000."""
    z = zoneinfo.ZoneInfo(name)
    def off(t):
        return int(datetime.datetime.fromtimestamp(t + E2000, z).utcoffset().total_seconds())
    out = [(-2000000000, off(-86400 * 30))]
    t, o = -86400 * 30, off(-86400 * 30)
    step = 7 * 86400
    while t < 60 * 366 * 86400:
        n = t + step
        if off(n) != o:
            a, b = t, n
            while b - a > 1:
                m = (a + b) // 2
                if off(m) != o:
                    b = m
                else:
                    a = m
            o = off(b)
            out.append((b, o))
            t = b
        else:
            t = n
    return out


def zone_table(name, t0, years=11):
    """The transitions that matter from t0 on (t0: seconds since 2000)."""
    tr = transitions(name)
    keys = [x[0] for x in tr]
    i = max(0, bisect.bisect_right(keys, t0 - 400 * 86400) - 1)
    out = [{'t': -2000000000, 'o': tr[i][1]}]
    for t, o in tr[i + 1:]:
        if t > t0 + years * 366 * 86400:
            break
        out.append({'t': t, 'o': o})
    return out


def item(lo, hi=None, st=1, ex=()):
    return {'lo': lo, 'hi': lo if hi is None else hi, 'st': st, 'ex': list(ex)}


def star(f):
    return [item(*RANGES[f])]


def field_set(items):
    s = set()
    for it in items:
        s |= set(range(it['lo'], it['hi'] + 1, it['st'])) - set(it['ex'])
    return s


def field_text(f, items):
    out = []
    for it in items:
        lo, hi = RANGES[f]
        if it.get('txt'):
            out.append(it['txt'])
            continue
        if it['lo'] == lo and it['hi'] == hi and not it.get('plain'):
            t = '*'
        elif it['lo'] == it['hi'] and it['st'] == 1 and not it['ex']:
            t = '%d' % it['lo']
        else:
            t = '%d-%d' % (it['lo'], it['hi'])
        if it['st'] != 1:
            t += '/%d' % it['st']
        out.append(t + ''.join('~%d' % e for e in it['ex']))
    return ','.join(out)


def rand_field(rng, f, dens):
    """dens: 'star', 'one', 'few', 'some' or 'many' matching values."""
    lo, hi = RANGES[f]
    if f == 'dow':
        hi = rng.choice([6, 7])
    if dens == 'star':
        return star(f)
    if dens == 'one':
        v = rng.randint(lo, min(hi, 28) if f == 'days' and rng.random() < .8 else hi)
        return [item(v)]
    while True:
        n = {'few': rng.randint(1, 3), 'some': rng.randint(1, 3), 'many': rng.randint(1, 3)}[dens]
        its = []
        for _ in range(n):
            if dens == 'few' or rng.random() < .3:
                its.append(item(rng.randint(lo, hi)))
                continue
            a = rng.randint(lo, hi)
            b = rng.randint(a, hi)
            if b == a:
                its.append(item(a))
                continue
            st = rng.choice([1, 1, 2, 3, 5, 7]) if b - a > 2 else 1
            ex = sorted(rng.sample(range(a, b + 1), min(rng.choice([0, 0, 0, 1, 2]), b - a)))
            its.append(item(a, b, st, ex))
        u = [x for i, it in enumerate(its) for j, o in enumerate(its) if i != j for x in it['ex'] for v in range(o['lo'], o['hi'] + 1)
             if v == x or f == 'dow' and v % 7 == x % 7]
        # (and Sunday is excluded as 0 as well as 7)
        if f == 'dow' and any(x % 7 == 0 and any(v % 7 == 0 and v != x for v in range(it['lo'], it['hi'] + 1)) for it in its for x in it['ex']):
            continue
        if field_set(its) and not u:   # an exclusion stands in one item only
            return its


class Entry:
    """kind td, pct or at; everything else as in the documentation."""
    def __init__(self, id, kind='td', **k):
        self.id, self.kind = id, kind
        self.f = {x: star(x) for x in ORDER}
        self.dayor = False
        self.kw = ''
        self.tz = ''           # option timezone
        self.jitter = 0
        self.random = False
        self.n = 1
        self.freq = 0          # seconds
        self.first = None
        self.serial = False
        self.serialonce = None
        self.lavg = None       # (a, b, c) in tenths
        self.lor = None
        self.until = 0         # seconds
        self.strict = None
        self.lavgonce = None
        self.exesev = self.bootrun = self.boot = self.resume = self.once = self.vol = self.reset = self.notice = False
        self.mail = False
        self.extra = ''        # further options
        self.rest = ''         # end of the command
        self.__dict__.update(k)

    def copy(self, **k):
        e = Entry(self.id)
        e.__dict__.update(self.__dict__)
        e.__dict__.update(k)
        return e

    def options(self, glob=None):
        o = []
        if self.dayor: o.append('dayor')
        if self.tz: o.append('timezone(%s)' % self.tz)
        if self.jitter: o.append('jitter(%d)' % self.jitter)
        if self.random: o.append('random')
        if self.n > 1: o.append('runfreq(%d)' % self.n)
        if self.first is not None: o.append('first(%s)' % dur(self.first))
        if self.serial: o.append('serial')
        if self.serialonce is not None: o.append('serialonce(%s)' % tf(self.serialonce))
        if self.lavg is not None: o.append('lavg(%s)' % ','.join('%d.%d' % divmod(x, 10) for x in self.lavg))
        if self.lor is not None: o.append('lavgor(%s)' % tf(self.lor))
        if self.until: o.append('until(%s)' % dur(self.until))
        if self.strict is not None: o.append('strict(%s)' % tf(self.strict))
        if self.lavgonce is not None: o.append('lavgonce(%s)' % tf(self.lavgonce))
        if self.exesev: o.append('exesev')
        if self.bootrun: o.append('bootrun')
        if self.boot: o.append('runatreboot')
        if self.resume: o.append('runatresume')
        if self.once: o.append('runonce')
        if self.vol: o.append('volatile')
        if self.reset: o.append('rebootreset')
        if self.notice: o.append('noticenotrun')
        if not self.mail: o.append('mail(false)')
        if self.extra: o.append(self.extra)
        return o

    def text(self, cmd=None):
        o = self.options()
        cmd = '%s x%s' % (self.id, self.rest) if cmd is None else cmd
        if self.kind == 'at':
            return '@%s %s %s' % (','.join(o), dur(self.freq), cmd)
        if self.kind == 'td':
            return '&%s %s %s' % (','.join(o), ' '.join(field_text(x, self.f[x]) for x in ORDER), cmd)
        return '%%%s %s %s' % (','.join([self.kw] + o),
                               ' '.join(field_text(x, self.f[x]) for x in ORDER[:KW_FIELDS[self.kw]]), cmd)

    def record(self, user, zone, tzdiff):
        """zone: 1-based index into the execution's zone table."""
        lv = self.lavg or (0, 0, 0)
        return {'id': self.id, 'u': user, 'kind': self.kind,
                'f': {x: [{y: it[y] for y in ('lo', 'hi', 'st', 'ex')} for it in self.f[x]] for x in ORDER},
                'dayor': self.dayor, 'kw': self.kw, 'z': zone, 'tzdiff': tzdiff, 'jitter': self.jitter,
                'random': self.random, 'n': self.n if self.kind == 'td' else 1, 'freq': self.freq,
                'first': (self.freq if self.first is None else self.first),
                'serial': self.serial, 'ssev': not (bool(self.serialonce)),
                'haslavg': self.lavg is not None, 'lavg': [x * 10 for x in lv], 'lor': bool(self.lor),
                'until': self.until, 'strict': True if self.strict is None else self.strict,
                'lsev': not (True if self.lavgonce is None else self.lavgonce),
                'exesev': self.exesev, 'bootrun': self.bootrun, 'boot': self.boot, 'resume': self.resume,
                'once': self.once, 'vol': self.vol, 'reset': self.reset, 'notice': self.notice}


def tf(b):
    return 'true' if b else 'false'


def dur(s):
    """A duration as fcrontab reads it: a bare number is minutes."""
    if s % 60 == 0 and s > 0:
        return '%d' % (s // 60)
    return '%ds' % s


def dur_mixed(rng, s):
    """The same with several multipliers."""
    out, rest = '', s
    for u, m in (('m', 2419200), ('w', 604800), ('d', 86400), ('h', 3600)):
        n = rest // m
        if n and rng.random() < .7:
            out += '%d%s' % (n, u)
            rest -= n * m
    mi, se = divmod(rest, 60)
    if se == 0 and (mi or not out):
        return out + '%d' % mi if mi else out or '0s'
    if rest:
        out += '%ds' % rest
    return out
