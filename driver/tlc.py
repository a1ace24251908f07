"""Runs TLC on recorded executions and on models."""
import json, os, re, shutil, subprocess, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = ROOT + '/spec'
JAR = '/opt/veriftools/tla/tla2tools.jar'


class TLCError(Exception):
    pass


def classpath():
    import glob
    return ':'.join([JAR] + [p for p in glob.glob('/opt/veriftools/tla/*.jar') if p != JAR])


def run(spec, cfg, env=None, workers=8, timeout=850, heap='12g', extra=()):
    d = tempfile.mkdtemp(prefix='fctlc.')
    try:
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap, '-cp', classpath(), 'tlc2.TLC', '-workers', str(workers),
                            '-metadir', d, '-noGenerateSpecTE', '-config', cfg, *extra, spec], cwd=SPEC, env=e, capture_output=True, text=True,
                           timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    finally:
        shutil.rmtree(d, ignore_errors=True)


def trim(out):
    i = out.find('Error:')
    return out[max(0, i - 200):i + 1500] if i >= 0 else out[-1500:]


RE_STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def validate(traces, spec='DaemonTrace', workers=8, timeout=850, slow=None):
    """Judges recorded executions: (accepted set, {index: (event, why)} of rejected ones, states, transitions).
    An execution with too many explanations to go through is set aside (its index goes to the list slow);
    one on which TLC fails to evaluate the specification is rejected: nothing in the specification can explain it."""
    slow = [] if slow is None else slow
    todo = [(list(range(len(traces))), timeout)]
    ok, stuck, states, gen = set(), {}, 0, 0
    while todo:
        idx, tmo = todo.pop()
        r = once([traces[i] for i in idx], spec, workers, tmo)
        if r is None or r == 'error':
            if len(idx) == 1:
                if r is None:
                    slow.append(idx[0])
                else:
                    stuck[idx[0]] = (0, 'the specification has no value for this behaviour')
                continue
            k = max(1, len(idx) // 8)
            todo += [(idx[j:j + k], max(20, tmo // 3)) for j in range(0, len(idx), k)]
            continue
        o, st, s, g = r
        ok |= {idx[i] for i in o}
        stuck.update({idx[i]: v for i, v in st.items()})
        states += s
        gen += g
    return ok, stuck, states, gen


def once(traces, spec, workers, timeout):
    d = tempfile.mkdtemp(prefix='fctr.', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    try:
        f = d + '/t.ndjson'
        with open(f, 'w') as o:
            for t in traces:
                o.write(json.dumps(t) + '\n')
        try:
            rc, out = run(spec + '.tla', spec + '.cfg', {'TRACE': f}, workers=workers, timeout=timeout)
        except subprocess.TimeoutExpired:
            return None
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ok = {int(x) - 1 for x in re.findall(r'<<"OK", (\d+)>>', out)}
    stuck = {}
    for a, b, c in re.findall(r'<<"STUCK", (\d+), (\d+), "([^"]*)"', out):
        i, l = int(a) - 1, int(b)
        if i not in ok and l >= stuck.get(i, (0, ''))[0]:
            stuck[i] = (l, c)
    m = RE_STATES.search(out)
    inv = re.search(r'Invariant (\w+) is violated', out)
    if inv:
        tr = re.findall(r'/\\ tr = (\d+)', out)
        ll = re.findall(r'/\\ l = (\d+)', out)
        if len(traces) > 1:
            return 'error'
        return set(), {0: (int(ll[-1]) if ll else 0, inv[1])}, 0, 0
    if 'Parsing or semantic analysis failed' in out or 'OutOfMemory' in out or not re.search(r'Computing initial states|Error: |states generated', out):
        raise TLCError(trim(out))
    if not m or 'Error:' in out:
        if len(traces) == 1:
            print(trim(out)[:600])
        return 'error'
    for i in range(len(traces)):
        if i not in ok and i not in stuck:
            stuck[i] = (0, 'no explanation')
    return ok, stuck, int(m[2]), int(m[1])
