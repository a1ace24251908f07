"""Crashes, failing operations and full disks while fcron and fcrontab change files (F11)."""
import random
import scen
from run import HUP, TERM, Cut
from scen import US, Drive, rand_world, entries, entry, change, params, load, pauses, jobs

USERS = ['alice', 'bob', 'carol']


def tool(rng):
    """A fault for one run of fcrontab."""
    k = rng.random()
    if k < .15:
        return None
    if k < .6:
        return {'FCSIM_CRASH': str(rng.randint(1, 32))}
    if k < .8:
        return {'FCSIM_FAIL': str(rng.randint(1, 32)), 'FCSIM_ERRNO': rng.choice(['28', '5', '122']), 'FCSIM_STICKY': rng.choice(['0', '1'])}
    return {'FCSIM_FSIZE': str(rng.choice([0, rng.randint(1, 200), rng.randint(1, 1200)]))}


def arm(rng, far=24):
    """A fault for the daemon: (command, how the specification calls it)"""
    n = rng.randint(1, far)
    k = rng.random()
    if k < .55:
        return 'crash %d %d' % (n, rng.randint(0, 1)), 'crash'
    if k < .8:
        return 'fsfail %d %d 0' % (n, rng.choice([28, 5, 122])), 'one'
    return 'fsfail %d 28 2' % n, 'all'


def again(r, rng, d):
    """The machine or the daemon comes back, perhaps only to be killed again."""
    for _ in range(6):
        r.down(int(rng.choice([0, 1, 60, 3600, 86400, 86400 * 5]) * rng.uniform(.5, 1.5) * US))
        d.fin = {}
        ini = ['crash %d %d' % (rng.randint(1, 24), rng.randint(0, 1))] if rng.random() < .3 else []
        r.start(rng.choice(['start', 'start', 'boot']), init=ini)
        if r.d.ended is None:
            r.cmd('crash 0')
            return
    r.start('start')


def install(r, rng, d, fault=True):
    for _ in range(rng.choice([1, 1, 2, 3])):
        u = rng.choice(USERS)
        f = tool(rng) if fault else None
        if u in r.tabs and rng.random() < .2:
            r.remove(u, faults=f)
            r.tabs.pop(u)
            continue
        es = [change(rng, e, ('td', 'pct', 'at'), r.opts) for e in r.tabs.get(u, []) if rng.random() < .8]
        for _ in range(rng.choice([0, 1, 1, 2])):
            r.nid += 1
            es.append(entry(rng, '%s%d' % (u[0], r.nid), opts=r.opts, p=.25))
        r.install(u, es, fresh=rng.random() < .2, faults=f)
        r.tabs[u] = es


def fault(r, rng, d):
    """The daemon meets a fault while it reads new fcrontabs, stops, or saves."""
    def go(dt):
        c, how = arm(rng)
        k = rng.random()
        if k < .75:
            install(r, rng, d)
        r.failing = how
        r.cmd(c)
        if k < .5:
            r.wake(dt, HUP)
        elif k < .65:
            r.wake(dt, TERM)
        else:
            r.wake(dt)
            for _ in range(rng.choice([1, 2, 4])):      # perhaps until the next save
                if r.d.ended is None:
                    d.step()
        if r.d.ended is None:
            r.cmd('crash 0')
            r.cmd('fsfail 0 0')
            if rng.random() < .5:
                r.wake(0, *rng.choice([[HUP], []]))
        else:
            again(r, rng, d)
    return go


def restart(r, rng, d):
    def go(dt):
        r.wake(dt)
        if r.d.ended is None:
            if rng.random() < .4:
                r.crash()
            else:
                r.term()
        again(r, rng, d)
    return go


def f11(rng):
    p = params(rng)
    p['save'] = rng.choice([600, 1800, 3600, 86400, 10 ** 8])
    with rand_world(rng, **p) as r:
        r.opts = rng.choice([(), (), ('serial', 'once', 'n', 'vol', 'reset', 'boot', 'resume', 'exesev'), ('lavg', 'notice', 'n'),
                             ('bootrun', 'jitter', 'random', 'once')])
        r.nid, r.tabs = 10, {u: entries(rng, u[0], rng.randint(1, 3), opts=r.opts, p=.25, short=rng.random() < .7) for u in USERS if rng.random() < .7}
        load(r, rng)
        try:
            for u, es in r.tabs.items():
                r.install(u, es)
            d = Drive(r, rng, late=.05, early=.05, job=jobs(rng))
            if rng.random() < .3:
                again(r, rng, d)
            else:
                r.start(rng.choice(['boot', 'start']))
            for i in range(rng.choice([2, 4, 6])):
                d.at(pauses(rng), rng.choice([fault, fault, fault, restart])(r, rng, d))
            d.run(rng.choice([20, 40]))
        except Cut:
            pass
        return r.trace()
