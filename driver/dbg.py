"""dbg.py PROP SEED: print a scenario's definitions and events with local times."""
import sys, json, random, datetime, zoneinfo
import props, check, run, scen
from run import EPOCH2000
def show(tr, upto=None, tz='UTC'):
    z = zoneinfo.ZoneInfo(tz)
    f = lambda t: datetime.datetime.fromtimestamp(t + EPOCH2000, z).strftime('%a %Y-%m-%d %H:%M:%S%z')
    for i, d in enumerate(tr['defs'], 1):
        x = {k: v for k, v in d.items() if v not in (False, 0, '', None) and k not in ('f', 'lavg')}
        if d['kind'] != 'at':
            import gen
            x['F'] = ' '.join(gen.field_text(k, d['f'][k]) for k in gen.ORDER)
        if d['haslavg']: x['lavg'] = d['lavg']
        print('def', i, x)
    for i, e in enumerate(tr['ev'][:upto], 1):
        e = dict(e)
        if 'now' in e:
            n = e.pop('now')
            print(i, e.pop('ev'), n, f(n), {k: ([(s['id'], s['run']) if s['ok'] else (s['id'], 'FAIL') for s in v] if k == 'starts' else v) for k, v in e.items() if v not in ([], 0, False, [0, 0, 0])}, 'next', f(n + e['tmo']))
        else:
            print(i, e)
if __name__ == '__main__':
    if len(sys.argv) > 2 and sys.argv[1] != 'bad':
        rng = random.Random('%s/%s' % (sys.argv[1], sys.argv[2]))
        R = []
        orig = run.Run.__init__
        def init(self, *a, **k):
            orig(self, *a, **k); R.append(self)
        run.Run.__init__ = init
        try:
            props.FAMILY[sys.argv[1]](rng)
        except Exception as e:
            print('!!', e)
        show(R[0].trace(), int(sys.argv[3]) if len(sys.argv) > 3 else None, R[0].tz)
        print(R[0].tz, 'raw timeout', R[0].d.timeout_us, R[0].clock_us)
