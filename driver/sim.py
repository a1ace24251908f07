"""Drives the harnessed fcron programs (see ../harness) inside a scratch directory."""
import calendar, fcntl, json, os, select, shutil, signal, socket, struct, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CTL_FD = 1000
ROOTU, FCRON = 0, 990
USERS = {  # name: (uid, gid, home, shell, password)
    'root': (0, 0, '/', '/bin/sh', 'rootpw'),
    'fcron': (990, 990, '/', '/bin/sh', 'fcronpw'),
    'alice': (2001, 2001, '/tmp', '/bin/sh', 'alicepw'),
    'bob': (2002, 2002, '/', '/bin/sh', 'bobpw'),
    'carol': (2003, 2003, '/usr', '/bin/sh', 'carolpw'),
    'dave': (2004, 2004, '/var', '/bin/sh', 'davepw'),
}
EPOCH2000 = 946684800

_build = None
def build():
    global _build
    if _build is None:
        p = subprocess.run([sys.executable, ROOT + '/harness/build.py'], capture_output=True, text=True)
        if p.returncode:
            sys.stderr.write(p.stdout + p.stderr)
            raise SystemExit(2)
        _build = p.stdout.strip().split('\n')[-1]
    return _build


class SimError(Exception):
    """The real code did something that no behaviour allows (it died, hung, refused a valid text...)."""


class HarnessError(Exception):
    """The harness itself failed."""


class World:
    """A scratch directory with a configuration, a spool directory and fake users."""
    def __init__(self, users=None, allow='all\n', deny='', shell='/bin/sh', displayname=''):
        self.users = dict(users or USERS)
        base = os.environ.get('VERIF_SCRATCH') or ('/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
        self.dir = tempfile.mkdtemp(prefix='fcv.', dir=base)
        os.chmod(self.dir, 0o755)
        d = self.dir
        self.spool = d + '/spool'
        os.mkdir(self.spool); os.chown(self.spool, FCRON, FCRON); os.chmod(self.spool, 0o770)
        os.mkdir(d + '/t'); os.chmod(d + '/t', 0o1777)       # where temporary files go
        self.conf = d + '/fcron.conf'
        open(self.conf, 'w').write(
            'fcrontabs = %s/spool\npidfile = %s/fcron.pid\nsuspendfile = %s/suspend\nfifofile = %s/fifo\n'
            'fcronallow = %s/fcron.allow\nfcrondeny = %s/fcron.deny\nshell = %s\nsendmail = /vsendmail\neditor = /veditor\n'
            'maildisplayname = %s\n' % (d, d, d, d, d, d, shell, displayname))
        os.chown(self.conf, ROOTU, FCRON); os.chmod(self.conf, 0o644)
        self.set_allow(allow, deny)
        self.passwd = d + '/passwd'
        open(self.passwd, 'w').write(''.join('%s:%d:%d:%s:%s:%s\n' % ((n,) + u) for n, u in self.users.items()))
        self.pwdb = ';'.join('%s:%d:%d:%s:%s:%s' % ((n,) + u) for n, u in self.users.items())

    def set_allow(self, allow, deny):
        for n, t in (('allow', allow), ('deny', deny)):
            p = '%s/fcron.%s' % (self.dir, n)
            if t is None:
                if os.path.exists(p):
                    os.unlink(p)
                continue
            open(p, 'w').write(t)
            os.chown(p, ROOTU, FCRON); os.chmod(p, 0o644)

    def prog(self, name, args, ruid=0, euid=None, rgid=None, egid=None, stdin=None, env=None, now=None, edit=None, cwd=None,
             popen=False, timeout=20):
        """Run fcrontab/fcrondyn/... with the credentials a setuid fcron program started by ruid has."""
        euid = FCRON if euid is None else euid
        rgid = ruid if rgid is None else rgid
        egid = FCRON if egid is None else egid
        e = {'PATH': '/usr/bin:/bin', 'FCSIM_PWDB': self.pwdb, 'TZ': 'UTC', 'FCSIM_TMP': self.dir + '/t'}
        e.update(env or {})
        if now is not None:
            e['FCSIM_TIME'] = str(now)
        if edit is not None:
            e['FCSIM_EDIT'] = edit
        r, w = os.pipe()
        e['FCSIM_LOGFD'] = str(w)
        def pre():
            os.setgroups([])
            os.setresgid(rgid, egid, egid)
            os.setresuid(ruid, euid, euid)
        p = subprocess.Popen([build() + '/' + name + '-sim'] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, env=e, pass_fds=(w,), preexec_fn=pre, cwd=cwd or self.dir)
        os.close(w)
        if popen:
            return p, r
        try:
            out, _ = p.communicate(stdin.encode('latin-1') if isinstance(stdin, str) else (stdin or b''), timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); os.close(r)
            raise SimError('%s %s does not end' % (name, args))
        log = b''
        while True:
            x = os.read(r, 65536)
            if not x:
                break
            log += x
        os.close(r)
        return p.returncode, out.decode('latin-1'), log.decode('latin-1')

    def install(self, user, text, by=None, now=None, tz='UTC', extra=(), fresh=False, env=None):
        """Install a fcrontab through the real fcrontab program (root installs for user)."""
        by = 'root' if by is None else by
        args = (['-n'] if fresh else []) + ['-c', self.conf] + (['-u', user] if by != user else []) + list(extra) + ['-']
        return self.prog('fcrontab', args, ruid=self.users[by][0], stdin=text, now=now, env={'TZ': tz, **(env or {})})

    def remove(self, user, by=None, env=None):
        by = 'root' if by is None else by
        return self.prog('fcrontab', ['-c', self.conf] + (['-u', user] if by != user else []) + ['-r'], ruid=self.users[by][0], env=env)

    def files(self):
        return sorted(os.listdir(self.spool))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.close()


class Daemon:
    """One running instance of the harnessed daemon."""
    def __init__(self, world, start, args=('-f', '-y'), boot=100_000_000, init=(), tz='UTC', env=None, startup=True, start_us=None):
        self.w = world
        self.now = None
        self.trace = []
        self.ended = None
        self.blocked = None
        self.timeout_us = None
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        for s in (a, b):
            s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 4 << 20)
        os.dup2(b.fileno(), CTL_FD)
        b.close()
        e = {'PATH': '/usr/bin:/bin', 'TZ': tz, 'FCSIM_PASSWD': world.passwd, 'FCSIM_START': str(int(start_us if start_us is not None else start * 1000000)),
             'FCSIM_BOOT': str(int(boot)), 'FCSIM_BG': '1'}
        if init:
            e['FCSIM_INIT'] = ';'.join(init)
        e.update(env or {})
        args = list(args)
        if '-f' in args:
            e.pop('FCSIM_BG', None)
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([build() + '/fcron-sim', '-c', world.conf] + args, stdin=subprocess.DEVNULL,
                                  stdout=subprocess.DEVNULL, stderr=self.err, env=e, pass_fds=(CTL_FD,), cwd=world.dir)
        os.close(CTL_FD)
        self.s = a
        self.s.settimeout(30)
        self.evs = self.wait() if startup else []

    def wait(self):
        """Read events until the daemon blocks or ends."""
        evs = []
        while True:
            try:
                m = self.s.recv(400000)
            except ConnectionResetError:
                m = b''
            except socket.timeout:
                raise SimError('daemon does not come back: %r' % (evs[-5:],))
            if not m:
                self.ended = self.p.wait()
                self.unlocked()
                self.blocked = None
                break
            e = json.loads(m)
            if e['ev'] in ('stuck', 'badjob', 'badcmd'):
                raise HarnessError('harness: %r' % e)
            if e['ev'] in ('select', 'waitblock'):
                self.blocked = e['ev']
                self.now = e['now']
                self.timeout_us = e.get('timeout')
                self.fsops = e.get('fsops')
                break
            evs.append(e)
        self.trace += evs
        return evs

    def cmd(self, c):
        if self.ended is not None:
            self.err.seek(0)
            raise SimError('daemon has ended (%s) %s' % (self.ended, self.err.read()[-200:]))
        self.s.send(c.encode())

    def go(self, us, *sigs):
        if self.ended is not None:
            raise SimError('daemon has ended (%s)' % self.ended)
        self.s.send(('go %d %s' % (us, ' '.join(str(int(s)) for s in sigs))).encode())
        self.evs = self.wait()
        return self.evs

    def finish(self, slot, how='x0', out=b''):
        self.cmd('finish %d %s %s' % (slot, how, out.hex()))

    def unlocked(self):
        """The children of an ended daemon give its lock back a little after they have closed our socket."""
        try:
            f = open(self.w.dir + '/fcron.pid')
        except OSError:
            return
        with f:
            for _ in range(2000):
                try:
                    return fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
                except OSError:
                    time.sleep(.001)

    def kill(self):
        if self.ended is None:
            self.p.kill()
            self.p.wait()
            self.ended = -9
        try:                       # until its children are gone too
            while self.s.fileno() >= 0 and self.s.recv(400000):
                pass
        except OSError:
            pass
        self.unlocked()
        self.s.close()
        self.err.close()

    def stderr(self):
        self.err.seek(0)
        return self.err.read().decode('latin-1')

    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.kill()
