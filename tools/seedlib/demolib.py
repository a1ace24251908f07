"""What the demonstrations share: the real fcron under a simulated clock, with every effect inside a scratch directory."""
import os, sys, tempfile, shutil, atexit
HERE = os.path.dirname(os.path.abspath(__file__))
tmp = tempfile.mkdtemp(prefix='fcrondemo.')
os.chmod(tmp, 0o755)
atexit.register(lambda: shutil.rmtree(tmp, ignore_errors=True))
os.environ['FCRON_REPO'] = os.getcwd()
os.environ['FCRON_BUILD'] = tmp + '/build'
os.environ['VERIF_SCRATCH'] = tmp
sys.path.insert(0, HERE)
import sim, datetime, zoneinfo
sim.ROOT = HERE


def at(tz, *ymdhms, fold=0):
    return int(datetime.datetime(*ymdhms, tzinfo=zoneinfo.ZoneInfo(tz), fold=fold).timestamp())


class Life:
    """Installed fcrontabs and a daemon; .ran is the list of (epoch second, command) executed so far."""
    def __init__(self, tabs, tz='UTC', now=None, world=None):
        self.tz, self.ran, self.d, self.dur, self.mails, self.evs = tz, [], None, 0, [], []
        self.w = world or sim.World()
        self.jobs = []           # (end, slot)
        self.out = {}            # command -> (how, output)
        self.la = (0, 0, 0)
        self.len = {}            # command -> duration of its job in seconds
        for user, text in tabs.items():
            self.install(user, text, now)

    def install(self, user, text, now=None):
        rc, out, _ = self.w.install(user, text, now=now, tz=self.tz)
        self.last = (rc, out)
        return rc, out

    def start(self, t, boot=True, args=()):
        lock = self.w.dir + '/reboot.lock'
        if boot and os.path.exists(lock):
            os.unlink(lock)
        if not boot:
            open(lock, 'a').close()
        self.us = t * 1000000
        self.jobs = []
        self.d = sim.Daemon(self.w, t, args=['-f', '-y'] + list(args), tz=self.tz)
        self.see(self.d.evs)
        return self

    def see(self, evs):
        self.us = self.d.now if self.d.now and self.d.blocked else self.us
        for e in evs:
            self.evs.append(e)
            if e['ev'] == 'exec':
                cmd = e['argv'][-1]
                self.ran.append((e['t'], cmd))
                self.jobs.append((1000000 * (e['t'] + self.len.get(cmd, self.dur)), e['slot'], cmd))
            elif e['ev'] == 'mail':
                self.mails.append(e)

    def step(self, until_us, *sigs):
        """One wake-up: the next job end, timeout or the given instant, whichever comes first."""
        nxt = min([self.d.now + self.d.timeout_us, until_us] + [j[0] for j in self.jobs])
        nxt = max(nxt, self.d.now)
        for j in [j for j in self.jobs if j[0] <= nxt]:
            self.jobs.remove(j)
            how, out = self.out.get(j[2], ('x0', b''))
            self.d.finish(j[1], how, out)
            sigs = tuple(sigs) + ((17,) if 17 not in sigs else ())
        self.see(self.d.go(nxt - self.d.now, *sigs))

    def run(self, until, *sigs):
        """Let the time pass until the given instant (signals arrive now)."""
        if sigs:
            self.see(self.d.go(0, *sigs))
        while self.d.ended is None and self.d.now < until * 1000000:
            self.step(until * 1000000)
        return self

    def kill(self):
        self.d.kill()

    def times(self, cmd):
        return [t for t, c in self.ran if c == cmd]

    def close(self):
        if self.d:
            self.d.kill()
        self.w.close()


def check(cond, text):
    if not cond:
        print('BROKEN: ' + text)
        sys.exit(1)
