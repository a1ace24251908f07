"""Texts of fcrontabs, and what the real programs read from them (see spec/Parser.tla)."""
import re
import sim

FLAGS = ['serial', 'serialonce', 'lavgonce', 'exesev', 'bootrun', 'rebootreset', 'runatreboot', 'runatresume', 'runonce', 'strict',
         'noticenotrun', 'erroronlymail', 'nolog', 'volatile', 'stdout', 'random', 'lavgor', 'dayor', 'mail', 'forcemail']
codes = lambda s: list(s.encode('latin-1'))
unhex = lambda s: list(bytes.fromhex(s))


def keyword(e):
    if not e['td']:
        return ''
    if e['per']:
        for k, n in (('fhrs', 'hourly'), ('fdays', 'daily'), ('fmons', 'monthly'), ('fdow', 'weekly')):
            if e[k]:
                return ('mid' if e['mid'] else '') + n
        return '?'
    if e['runfreq'] != 1:
        return ''
    n = ''.join(str(e[k]) for k in ('fmins', 'fhrs', 'fdays', 'fmons'))
    return {'0000': 'mins', '1000': 'hours', '1100': 'days', '1110': 'mons', '1111': 'dow'}.get(n, '?')


def entry(e):
    """An entry listed by the daemon."""
    td = bool(e['td'])
    return {'cmd': unhex(e['cmd']), 'runas': unhex(e['runas']), 'mailto': unhex(e['mailto']), 'mailfrom': unhex(e['mailfrom']),
            'tz': unhex(e['tz']), 'until': e['until'], 'nice': e['nice'], 'jitter': e['jitter'],
            'lavg': [e['lavg0'], e['lavg1'], e['lavg2']], 'flags': {f: bool(e[f]) for f in FLAGS}, 'kw': keyword(e), 'td': td,
            'runfreq': e['runfreq'] if td else 0, 'freq': 0 if td else e['freq'], 'first': 0 if td else e['first'],
            'mins': e.get('mins', []), 'hrs': e.get('hrs', []), 'days': e.get('days', []),
            'mons': [m + 1 for m in e.get('mons', [])], 'dow': e.get('dow', [])}


def listing(d, user):
    """What the daemon has loaded for this user: (entries, env, tzdiff)."""
    d.cmd('dump')
    d.go(1000)
    ents, env, tzd = [], [], 0
    for e in d.evs:
        if e['ev'] == 'baddump':
            raise sim.HarnessError('the loaded entries cannot be listed: the declarations of fcron have changed')
        if e['ev'] == 'dfile' and unhex(e['user']) == codes(user):
            env, tzd = [unhex(x) for x in e['env']], e['tzdiff']
        if e['ev'] == 'dline' and unhex(e['user']) == codes(user):
            ents.append(entry(e))
    return ents, env, tzd


def observe(text, owner='alice', by='alice', restart=False, reinstall=False):
    """Install the text, start the daemon: a trace for ParserTrace."""
    with sim.World() as w:
        rc, out, log = w.install(owner, text, by=by, now=1000000000)
        if rc != 0:
            raise sim.SimError('fcrontab ended with %s: %s' % (rc, out[-300:]))
        said = [l for l in out.split('\n') if l and ' INFO ' not in l and 'installing file' not in l]
        lines = sorted({int(x) for l in said for x in re.findall(r':(\d+):', l)})
        if reinstall:           # root reinstalls everything, e.g. after an upgrade
            w.prog('fcrontab', ['-c', w.conf, '-u', owner, '-z'], ruid=0, now=1000000001, env={'TZ': 'UTC'})
        with sim.Daemon(w, 1000000100) as d:
            ents, env, tzd = listing(d, owner)
            if restart:         # what the daemon saves reads back the same
                d.go(0, 15)
        if restart:
            with sim.Daemon(w, 1000000200) as d:
                ents, env, tzd = listing(d, owner)
        return {'text': codes(text), 'root': by == 'root' or reinstall, 'owner': codes(owner), 'rootown': owner == 'root',
                'users': [codes(u) for u in w.users], 'entries': ents, 'env': env, 'tzdiff': tzd, 'lines': lines, 'said': bool(said)}


# ---------------------------------------------------------------- random texts
MON = 'jan feb mar apr may jun jul aug sep oct nov dec'.split()
DOW = 'sun mon tue wed thu fri sat'.split()
RANGE = {'mins': (0, 59), 'hrs': (0, 23), 'days': (1, 31), 'mons': (1, 12), 'dow': (0, 7)}
FIVE = ['mins', 'hrs', 'days', 'mons', 'dow']


def val(r, f, v=None):
    lo, hi = RANGE[f]
    v = r.randint(lo, hi) if v is None else v
    if f in ('mons', 'dow') and r.random() < .4:
        n = MON[v - 1] if f == 'mons' else DOW[v % 7]
        return r.choice([n, n.upper(), n.capitalize(), n[0] + n[1:].upper()])
    return ('%02d' if r.random() < .15 else '%d') % v


def item(r, f):
    lo, hi = RANGE[f]
    k = r.random()
    if k < .35:
        return val(r, f)
    s = '*' if k < .5 else val(r, f) + '-' + val(r, f) if k < .9 else '%s-%s' % ((lambda x: (val(r, f, x), val(r, f, x)))(r.randint(lo, hi)))
    if r.random() < .4:
        s += '/%d' % r.choice([1, 2, 3, 4, 5, 7, r.randint(1, hi)] if hi > 7 else [1, 2, 3])
    while r.random() < .3:
        s += '~' + val(r, f)
    return s


def field(r, f):
    if r.random() < .25:
        return '*'
    return ','.join(item(r, f) for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5])))


CH = '0123456789*-/~,.*-/~,abMonJAN \t%&@!()x'


def damage(r, s):
    for _ in range(r.choice([1, 1, 1, 2])):
        i = r.randrange(len(s) + 1)
        k = r.random()
        if k < .35 and s:
            s = s[:max(0, i - 1)] + s[i:]
        elif k < .7:
            s = s[:i] + r.choice(CH) + s[i:]
        elif s:
            s = s[:max(0, i - 1)] + r.choice(CH) + s[i:]
    return s


ODD = {'mins': ['60', '99999999999', '0-60', '5-', '-5', ',5', '5,', '5,,6', '5;6', '1.5', '5~5', '5/2', '*/0', '0-59/0', '*/x', '*5', '5*', '1-5 ',
                'mon', 'jan', '5-7~', '5-7~60', '1-2-3', '*-5', '**', '/5', '~5', '', '+5', '0x5', '5-6/2/3', '1-4~2/2'],
       'hrs': ['24', '0-24', '23-24', '22-3', '22-3/2~1', '5,', '1-'], 'days': ['0', '32', '0-5', '1-0', '*~0', '*/31', '*/2', '30-3/2', '31-1', 'mon'],
       'mons': ['0', '13', '0-12', 'ja', 'janu', 'jan-dec/2', '*/jan', 'mon', 'dec-jan', 'DEC', 'jan~feb', '*~jan', '12-1', '1-13', 'jan-', 'jan,', '*/5'],
       'dow': ['8', '7', '0', '0-7', '7-0', '5-2/2', 'sat-sun', 'sun-sat', '*~0', '*~7', '1-7~sun', 'sunday', 'su', 'jan', '6-8', '*/2', '7-2', 'sun-sun', '0-7/2', 'fri-mon/3']}


def tval(r, zero=False):
    if zero and r.random() < .15:
        return '0'
    k = r.random()
    if k < .3:
        return str(r.choice([1, 5, 30, 90, 600, 100000]))
    s = ''
    for m, hi in r.sample([('m', 8), ('w', 40), ('d', 300), ('h', 9000), ('s', 99999)], r.choice([1, 1, 2, 3])):
        s += '%d%s' % (r.randint(1, hi if r.random() < .3 else 9), m)
    if r.random() < .4:
        s += str(r.randint(1, 59))
    return s


ODDT = ['0', 'h', '5x', '1d2x', '-5', '1d-2', '0h', '', '5mm', 'd5', '1.5h', '10 ', '5,', '1H']
BLANK = [' ', ' ', ' ', '  ', '\t', ' \t ']


def f19(r):
    """Time fields and time values, well formed and not."""
    n = 14
    out = []
    for i in range(n):
        cmd = r.choice(['c%d', 'c%d -x "a b"', '/bin/c%d; * 5', 'c%d  ', '"c%d"']) % i
        sp = lambda: r.choice(BLANK)
        k = r.random()
        odd = r.random() < .35
        if k < .2:
            t = tval(r) if not odd else r.choice(ODDT)
            pre = r.choice(['@ ', '@' + tval(r, True) + ' ', '@first(%s) ' % tval(r, True), '@f(%s)\t' % tval(r, True), '@\t', '@' + r.choice(ODDT) + ' '] if odd else
                           ['@ ', '@' + tval(r, True) + ' ', '@first(%s) ' % tval(r, True), '@f(%s)\t' % tval(r, True), '@\t'])
            out.append(pre + t + sp() + cmd)
            continue
        if k < .45:
            kw = r.choice(['hourly', 'midhourly', 'daily', 'middaily', 'nightly', 'weekly', 'midweekly', 'monthly', 'midmonthly', 'mins', 'hours', 'days', 'mons', 'dow'])
            fs = {'hourly': FIVE[:1], 'midhourly': FIVE[:1], 'monthly': FIVE[:3], 'midmonthly': FIVE[:3]}.get(kw, FIVE[:2] if kw.endswith('ly') else FIVE)
            pre = '%' + kw + sp()
        else:
            fs = FIVE
            pre = r.choice(['', '', '&', '& ', '&3 ', '&2\t', '&dayor '])
        t = [field(r, f) for f in fs]
        if odd:
            j = r.randrange(len(fs))
            t[j] = r.choice(ODD[fs[j]]) if r.random() < .7 else damage(r, t[j])
        if r.random() < .08:
            t = t[:-1]
        out.append(pre + ''.join(x + sp() for x in t) + cmd)
    return observe('\n'.join(out) + r.choice(['', '\n']))


BOOLS = ['serial', 's', 'serialonce', 'lavgonce', 'exesev', 'bootrun', 'b', 'rebootreset', 'runatreboot', 'runatresume', 'runonce', 'strict',
         'noticenotrun', 'erroronlymail', 'nolog', 'volatile', 'stdout', 'random', 'lavgor', 'lavgand', 'dayor', 'dayand', 'mail', 'm', 'forcemail', 'reset']
KWS = ['hourly', 'midhourly', 'daily', 'middaily', 'nightly', 'weekly', 'midweekly', 'monthly', 'midmonthly', 'mins', 'hours', 'days', 'mons', 'dow']


def option(r):
    k = r.random()
    if k < .5:
        n = r.choice(BOOLS[:-1] if r.random() < .9 else ['reset'])
        return n + r.choice(['', '', '(true)', '(yes)', '(1)', '(false)', '(no)', '(0)'])
    tenth = lambda: r.choice(['0', '1', '.5', '2.3', '0.8', '1.25', '1.24', '25.5', '25', '0.96', '10.05', '02.0'])
    return r.choice([
        lambda: '%s(%s)' % (r.choice(['first', 'f']), tval(r, True)), lambda: '%s(%s)' % (r.choice(['until', 'u']), tval(r, True)),
        lambda: '%s(%d)' % (r.choice(['runfreq', 'r']), r.choice([2, 3, 7, 100, 65535])), lambda: 'jitter(%d)' % r.choice([0, 5, 255]),
        lambda: 'lavg(%s,%s,%s)' % (tenth(), tenth(), tenth()), lambda: '%s(%s)' % (r.choice(['lavg1', 'lavg5', 'lavg15']), tenth()),
        lambda: '%s(%d)' % (r.choice(['nice', 'n']), r.choice([0, 1, 5, 10, 19])), lambda: '%s(-%d)' % (r.choice(['nice', 'n']), r.choice([1, 5, 20])),
        lambda: 'tzdiff(%s)' % r.choice(['0', '1', '-1', '12', '-12', '24', '-24']),
        lambda: 'timezone(%s)' % r.choice(['', 'UTC', 'Europe/Paris', 'EST5EDT']),
        lambda: 'mailto(%s)' % r.choice(['', 'bob', 'a@b.org', '-oQ/tmp', 'a b', 'x;y', 'x|y', 'carol']),
        lambda: 'mailfrom(%s)' % r.choice(['', 'bob', 'a@b.org', '-f', 'a b', 'x|y']),
        lambda: 'runas(%s)' % r.choice(['root', 'alice', 'bob', 'carol', 'nobodyhere']),
    ])()


ODDO = ['serial()', 'serial(2x)', 'serial(maybe)', 'mail(truex)', 'foo', 'foo(1)', 'serial (1)', 'serial( 1)', 'lavg(1,2)', 'lavg(1,2,26)', 'lavg1(25.6)',
        'lavg1(99999999999)', 'lavg(1,2,3,4)', 'lavg', 'first', 'first(x)', 'first()x', 'first(5', 'runfreq(1)', 'runfreq(0)', 'runfreq(65536)', 'runfreq',
        'jitter(256)', 'jitter', 'jitter(-1)', 'nice(21)', 'nice(-21)', 'nice()', 'nice', 'tzdiff(25)', 'tzdiff', 'tzdiff(x)', 'timezone', 'timezone( UTC)',
        'timezone("UTC")', "timezone('UTC')", 'timezone(UTC )', 'mailto("bob")', 'mailto(bob )', 'mailto', 'mailfrom', "mailfrom('bob')", 'runas()', 'runas', 'runas( bob)',
        'abcdefghijklmnopqrst', 'abcdefghijklmnopqrs', 'abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz',
        'serialserialserialserial', 'SERIAL', 'lavg1(2.)', 'lavg1(.)', 'lavg1(1.2.3)', 'until', 'until(5,6)', 'lavg1(1,2)', 'hourly', 'mins', '', 'serial,', 'dow']


def options(r, odd=False, n=None):
    o = [option(r) for _ in range(n or r.choice([1, 1, 2, 2, 3, 5]))]
    if odd:
        o.insert(r.randrange(len(o) + 1) if r.random() < .5 else len(o), r.choice(ODDO))
    return ','.join(o)


def fields(r, fs):
    return ''.join((field(r, f) if r.random() < .3 else '*' if r.random() < .4 else val(r, f)) + r.choice(BLANK) for f in fs)


def line(r, i, root, odd):
    who = ''
    if root and r.random() < .2:
        who = r.choice(['bob ', 'alice  ', 'carol\t', 'root '])
    cmd = who + r.choice(['c%d', 'c%d', 'c%d -x "a b" \'c\' %%d', '/bin/c%d; * 5', 'c%d  \t ', 'c%d >/dev/null 2>&1 # x', 'bob.sh c%d', 'alice/c%d',
                          'c%d a=b', 'c%d \\ x', 'c%d \xe9\xff']) .replace('%d', str(i), 1)
    if root and r.random() < .05:
        cmd = who
    if odd and r.random() < .15:
        cmd = ''
    k = r.random()
    o = options(r, odd) if r.random() < .75 or odd else ''
    if k < .2:
        return '@%s %s %s' % (o, tval(r), cmd)
    if k < .35:
        return '@' + r.choice(['reboot', 'resume', 'yearly', 'annually', 'monthly', 'weekly', 'daily', 'midnight', 'hourly']) + \
            (r.choice([',serial', 'x', '(1)', '']) if odd else '') + r.choice(BLANK) + cmd
    if k < .65:
        kw = r.choice(KWS)
        fs = {'hourly': FIVE[:1], 'midhourly': FIVE[:1], 'monthly': FIVE[:3], 'midmonthly': FIVE[:3]}.get(kw, FIVE[:2] if kw.endswith('ly') else FIVE)
        o = ','.join(x for x in o.split(',') if x not in KWS)      # (several keywords: no documented meaning)
        if o:
            o = ','.join([o, kw] if r.random() < .3 else [kw, o])
        else:
            o = kw
        return '%%%s%s%s%s' % (o, r.choice(BLANK), fields(r, fs), cmd)
    return '&%s%s%s%s' % (o, r.choice(BLANK), fields(r, FIVE), cmd)


def env(r, i, odd):
    if odd and r.random() < .5:
        return r.choice(['FOO', '=x', 'A B=c', 'X%d="abc' % i, "X%d='abc\"" % i, '-x=1', 'A-B=1', 'X%d "a"' % i, '.=', '(', 'A.B=1'])
    n = r.choice(['V%d' % i, 'V1', 'SHELL', 'HOME', 'PATH', '_x', 'USER', 'LOGNAME', 'MAILTO', 'MAILFROM', 'TZ', 'USERX', 'LANG'])
    v = r.choice(['', 'a', '/bin/bash', 'a b', '" a b "', "' x '", '"a\'b"', "a'b", 'a=b', '""', "''", '"a" "b"', 'a"', '$HOME/x', '#x', '%d' % i, 'bob', 'x@y.org', '-x', '" -x"',
                  'a\\b', 'x' * r.choice([10, 200, 900])])
    b = lambda: r.choice(['', '', ' ', '\t'])
    return n + b() + '=' + b() + v + b()


def f11r(r):
    """What fcron saves reads back the same."""
    return f20(r, True)


def f20(r, restart=False):
    """Options, their scope, shortcuts, assignments, comments, continuation lines, long lines."""
    owner, by = r.choice([('alice', 'alice'), ('alice', 'root'), ('root', 'root'), ('root', 'root')])
    root = by == 'root'
    if r.random() < .15 and owner == 'alice':
        by, root, again = 'alice', True, True
    else:
        again = False
    out = []
    for i in range(r.choice([6, 12, 20])):
        odd = r.random() < .15
        k = r.random()
        if k < .5:
            t = line(r, i, owner == 'root', odd)
        elif k < .7:
            t = '!' + options(r, odd) + r.choice(['', '', '', ' ', '\t', ' x' if odd else ''])
        elif k < .85:
            t = env(r, i, odd)
        elif k < .92:
            t = r.choice(['', ' ', '\t', '# * * * * * x', '#', '   # !serial', '#!serial(1)', '\t# \xe9'])
        else:
            t = line(r, i, owner == 'root', False)
            t = t + ' ' + 'x' * r.choice([max(0, 1022 - len(t)) - 2, max(0, 1022 - len(t)) - 1, 1023 - len(t), 1024 - len(t), 1500, 5000])
        if r.random() < .15:
            t = r.choice([' ', '\t', '  ']) + t
        while r.random() < .12:       # continued on the next line
            j = r.randrange(len(t) + 1)
            if t[max(0, j - 1):j] != '\\':
                t = t[:j] + '\\\n' + t[j:]
        if t.endswith('\\'):
            t += ' '
        out.append(t)
    return observe('\n'.join(out) + r.choice(['\n', '']), owner, by, restart=restart or r.random() < .3, reinstall=again)


# ---------------------------------------------------------------- every field of a few characters
TOK = {'mins': ['*', '-', '/', '~', ',', '0', '1', '3', '59', '60'], 'hrs': ['*', '-', '/', '~', ',', '0', '2', '5', '23', '24'],
       'days': ['*', '-', '/', '~', ',', '0', '1', '4', '31', '32'], 'mons': ['*', '-', '/', '~', ',', '0', '1', '5', '12', 'feb'],
       'dow': ['*', '-', '/', '~', ',', '0', '1', '5', '7', 'wed']}
PER_FILE = 125
SHORT = sum(10 ** k for k in range(1, 5))         # of up to four tokens
LONG = 10 ** 5                                    # of five
F19X_QUICK = -(-SHORT * 5 // PER_FILE)
F19X_ALL = -(-(SHORT + LONG) * 5 // PER_FILE)


def enumerated(n):
    """The n-th of the fields, shorter ones first: (field, text)"""
    k = 1
    while n >= 5 * 10 ** k:
        n -= 5 * 10 ** k
        k += 1
    f, n = FIVE[n % 5], n // 5
    s = ''
    for _ in range(k):
        s += TOK[f][n % 10]
        n //= 10
    return f, s


def f19x(no):
    out = []
    for i in range(no * PER_FILE, min((no + 1) * PER_FILE, (SHORT + LONG) * 5)):
        f, s = enumerated(i)
        out.append('&' + ' '.join(s if g == f else '3' for g in FIVE) + ' c%d' % i)
    return observe('\n'.join(out) + '\n')
