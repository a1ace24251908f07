"""check.py trace ID N SEED: N scenarios of property ID, validated by TLC (development tool)."""
import json, random, sys, time, traceback
from concurrent.futures import ProcessPoolExecutor
import props, tlc
from sim import SimError, build

SPEC = {st[1]: st[2] for p in props.PLAN for st in props.PLAN[p]('quick')}
SPEC.update({'F11': 'DaemonTrace', 'F11R': 'ParserTrace'})


def one(a):
    prop, seed = a
    rng = random.Random('%s/%s' % (prop, seed))
    try:
        return seed, props.FAMILY[prop](rng), None
    except SimError as e:
        return seed, None, str(e)[:1500]
    except Exception:
        return seed, None, 'EXC ' + traceback.format_exc()


if __name__ == '__main__':
    prop, n, s0 = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 0
    build()
    t = time.time()
    with ProcessPoolExecutor(8) as ex:
        res = list(ex.map(one, [(prop, s0 + i) for i in range(n)], chunksize=4))
    bad = [r for r in res if r[2]]
    good = [r for r in res if not r[2]]
    print('ran', len(res), 'errors', len(bad), '%.1fs' % (time.time() - t))
    for b in bad[:4]:
        print(b[0], b[2])
    t = time.time()
    slow = []
    ok, st, s, g = tlc.validate([r[1] for r in good], spec=SPEC.get(prop, 'DaemonTrace'), timeout=int(sys.argv[4]) if len(sys.argv) > 4 else 200, slow=slow)
    print('slow', [good[i][0] for i in slow]) if slow else 0
    print('accepted', len(ok), 'of', len(good), 'states', s, '%.1fs' % (time.time() - t))
    for i, (l, why) in sorted(st.items())[:int(sys.argv[5]) if len(sys.argv) > 5 else 6]:
        tr = good[i][1]
        print('seed', good[i][0], 'event', l, why)
        print('   ', json.dumps({k: v for k, v in tr['ev'][l - 1].items()})[:260] if l and 'ev' in tr else '')
    if st:
        json.dump([(good[i][0], good[i][1], st[i]) for i in sorted(st)], open('/tmp/bad.json', 'w'))
