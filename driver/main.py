"""main.py PROPERTY quick|thorough: one check. Exit 0: held on everything explored; 1: VIOLATION; 2: the check failed."""
import json, os, random, sys, time, traceback, importlib
from concurrent.futures import ProcessPoolExecutor, TimeoutError as FTimeout
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/driver')
import sim, tlc, props

EVID = os.environ.get('FCV_EVIDENCE', ROOT + '/evidence')


def scenario(a):
    """Run one scenario in a worker: (trace or None, error or None, kind of error)."""
    fam, seed = a
    try:
        if fam in props.ENUM:
            return seed, props.ENUM[fam](seed), None, None
        rng = random.Random('%s/%s' % (fam, seed))
        return seed, props.FAMILY[fam](rng), None, None
    except sim.HarnessError as e:
        return seed, None, 'harness: ' + str(e)[:1500], 'H'
    except sim.SimError as e:
        return seed, None, str(e)[:1500], 'V'
    except Exception:
        return seed, None, traceback.format_exc()[-1500:], 'H'


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.viol, self.harness = [], []
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.detail = {}
        self.budget = {'quick': 420, 'thorough': 2400}[tier]

    def left(self):
        return self.budget - (time.time() - self.t0)

    # ---- replay of recorded behaviour of the real code against a specification
    def family(self, fam, spec, n, chunk=1600):
        base = 0 if fam in props.ENUM else self.seed * 1000000
        done = ok = nslow = 0
        with ProcessPoolExecutor(8) as ex:
            while done < n and (self.left() > 60 or done == 0) and len(self.viol) < 3:
                k = min(chunk, n - done)
                res = list(ex.map(scenario, [(fam, base + done + i) for i in range(k)], chunksize=max(1, min(8, k // 16))))
                done += k
                bad = [r for r in res if r[2]]
                good = [r for r in res if not r[2]]
                slow = []
                acc, stuck, s, g = self.validate([r[1] for r in good], spec, slow)
                nslow += len(slow)
                self.cov['states'] += s
                self.cov['transitions'] += g
                ok += len(acc)
                if len(self.cov['samples']) < 2 and good:
                    self.cov['samples'].append({'family': fam, 'seed': good[0][0], 'trace': short(good[0][1])})
                for r in bad[:6]:
                    self.confirm(fam, spec, r[0], None)
                for i in sorted(stuck)[:6]:
                    self.confirm(fam, spec, good[i][0], stuck[i])
        self.cov['traces_validated_against_impl'] += ok
        self.detail[fam] = {'scenarios': done, 'accepted': ok, 'set aside (too many explanations)': nslow}

    def validate(self, traces, spec, slow=None):
        if not traces:
            return set(), {}, 0, 0
        return tlc.validate(traces, spec, timeout=150, slow=slow)

    def confirm(self, fam, spec, seed, why):
        """Believe a rejection only if the same scenario is rejected again."""
        votes = []
        for _ in range(2):
            s, tr, err, kind = scenario((fam, seed))
            if err:
                votes.append((kind, None, err, tr))
                continue
            slow = []
            acc, stuck, _, _ = self.validate([tr], spec, slow)
            votes.append(('OK' if 0 in acc or slow else 'V', stuck.get(0), None, tr))
        if all(v[0] == 'V' for v in votes):
            v = votes[-1]
            self.violation(fam, seed, {'family': fam, 'seed': seed, 'spec': spec, 'event': v[1] and v[1][0], 'reason': v[1] and v[1][1],
                                       'error': v[2], 'trace': v[3]})
        elif any(v[0] == 'H' for v in votes):
            self.harness.append((fam, seed, votes[0][2]))
        else:
            self.detail.setdefault('unconfirmed', []).append([fam, seed, str(why)])

    def violation(self, fam, seed, rep):
        d = EVID + '/replay'
        os.makedirs(d, exist_ok=True)
        p = '%s/%s-%s-%s.json' % (d, self.prop, fam, seed)
        json.dump(rep, open(p, 'w'), indent=1)
        self.viol.append((p, rep))

    # ---- exhaustive exploration of a model
    def model(self, spec, cfg, timeout=600, workers=8):
        rc, out = tlc.run(spec + '.tla', cfg, workers=workers, timeout=timeout)
        m = tlc.RE_STATES.findall(out)
        if rc != 0 or 'No error has been found' not in out or not m:
            raise tlc.TLCError('%s/%s: %s' % (spec, cfg, tlc.trim(out)))
        self.cov['transitions'] += int(m[-1][0])
        self.cov['states'] += int(m[-1][1])
        self.detail[cfg] = {'states': int(m[-1][1])}

    def finish(self):
        wall = time.time() - self.t0
        self.cov['detail'] = self.detail
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'coverage': self.cov,
              'assumptions': props.ASSUME, 'wall_s': round(wall, 1), 'violations': len(self.viol)}
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open('%s/%s.json' % (EVID, self.prop), 'w'))
        print('%s %s: %d executions of the real code accepted by the specification, %d states, %.0f s' % (
            self.prop, self.tier, self.cov['traces_validated_against_impl'], self.cov['states'], wall))
        for p, r in self.viol[:5]:
            print('  %s seed %s: %s' % (r['family'], r['seed'], r['error'] or 'event %s: %s' % (r['event'], r['reason'])))
        if self.viol:
            print('VIOLATION property=%s replay=%s' % (self.prop, self.viol[0][0]))
            return 1
        if self.harness:
            print('harness errors:', self.harness[:3])
            return 2
        return 0


def short(tr):
    t = dict(tr)
    t.pop('zones', None)
    for k, n in (('ev', 8), ('defs', 2), ('entries', 1), ('lines', 20)):
        if k in t:
            t[k] = t[k][:n]
    if isinstance(t.get('text'), list):
        t['text'] = bytes(t['text']).decode('latin-1')[:400]
    return t


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    sim.build()
    c = Check(prop, tier, seed)
    try:
        for step in props.PLAN[prop](tier):
            if step[0] == 'family':
                c.family(*step[1:])
            else:
                c.model(*step[1:])
            if c.viol:
                break
    except (tlc.TLCError, Exception):
        traceback.print_exc()
        return c.finish() or 2
    for ln in open(ROOT + '/known_findings.txt'):
        if ln.startswith('KNOWN-FINDING: property=%s ' % prop):
            print(ln.strip())
    return c.finish()


if __name__ == '__main__':
    sys.exit(main())
