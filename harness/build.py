#!/usr/bin/env python3
"""Builds the harnessed programs from /repo's current working tree.
Output: /verif/build/<hash of all inputs>/{fcron-sim,fcrontab-sim,...}; prints that directory."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('FCRON_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
OUT = os.environ.get('FCRON_BUILD', os.path.join(ROOT, 'build'))

CF = ['-O1', '-g', '-w', '-std=gnu17', '-U_FORTIFY_SOURCE', '-fno-builtin', '-I/usr/include/selinux', '-DHAVE_CONFIG_H']
PATHS = {'PIDFILE': '/nonexistent/fcron.pid', 'REBOOT_LOCK': '../reboot.lock', 'SUSPEND_FILE': '/nonexistent/susp',
         'FIFOFILE': '/nonexistent/fifo', 'ETC': '/nonexistent/etc', 'FCRON_SHELL': '/bin/sh', 'FCRON_CONF': 'fcron.conf',
         'FCRONTABS': '/nonexistent/spool', 'FCRON_ALLOW': 'fcron.allow', 'FCRON_DENY': 'fcron.deny',
         'SENDMAIL': '/vsendmail', 'FCRON_EDITOR': '/veditor', 'MAILDISPLAYNAME': '', 'BINDIREX': '/vbin'}
LIBS = ['-lpam', '-lreadline', '-lcrypt', '-laudit', '-lselinux']
PROGS = [  # (output, source of main, objects variable, harness, renamed main)
    ('fcron-sim', 'fcron.c', 'OBJSD_NO_MAIN', 'simd.c', 'fcron_main'),
    ('fcrontab-sim', 'fcrontab.c', 'OBJSTAB', 'simc.c', 'prog_main'),
    ('fcrondyn-sim', 'fcrondyn.c', 'OBJSDYN', 'simc.c', 'prog_main'),
    ('convert-sim', 'convert-fcrontab.c', 'OBJCONV', 'simc.c', 'prog_main'),
    ('fcronsighup-sim', 'fcronsighup.c', 'OBJSIG', 'simc.c', 'prog_main'),
]

def inputs():
    fs = sorted(glob.glob(REPO + '/*.c') + glob.glob(REPO + '/*.h') + [REPO + '/config.h.in', REPO + '/Makefile.in'])
    fs += sorted(glob.glob(HERE + '/*.c') + [HERE + '/config.defs', os.path.abspath(__file__)])
    h = hashlib.sha256()
    for f in fs:
        h.update(os.path.basename(f).encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()[:20]

def config_h():
    defs = {}
    for l in open(HERE + '/config.defs'):
        k, _, v = l.rstrip('\n').partition(' ')
        defs[k] = v
    out = []
    for l in open(REPO + '/config.h.in'):
        m = re.match(r'#\s*undef\s+(\w+)', l)
        if m:
            out.append('#define %s %s\n' % (m.group(1), defs[m.group(1)]) if m.group(1) in defs else '/* %s */\n' % l.strip())
        else:
            out.append(l)
    return ''.join(out)

def run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise SystemExit('BUILD FAILED: %s\n%s' % (' '.join(cmd), p.stderr[-4000:]))

def build():
    os.makedirs(OUT, exist_ok=True)
    lock = open(OUT + '/.lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    d = os.path.join(OUT, inputs())
    if os.path.exists(d + '/.done'):
        os.utime(d + '/.done')
        return d
    # keep the last few builds only
    olds = sorted((x for x in glob.glob(OUT + '/*') if os.path.isdir(x)), key=os.path.getmtime)
    for o in olds[:-6]:
        shutil.rmtree(o, ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/config.h', 'w').write(config_h())
    mk = open(REPO + '/Makefile.in').read()
    def objs(var):
        m = re.search(r'^%s\s*:?=\s*((?:.*\\\n)*.*)$' % var, mk, re.M)
        return [o[:-2] for o in m.group(1).replace('\\\n', ' ').split() if o.endswith('.o')]
    dflags = ['-D%s="%s"' % kv for kv in PATHS.items()]
    jobs, links, seen = [], [], set()
    for out, mainsrc, var, harness, newmain in PROGS:
        if not os.path.exists(REPO + '/' + mainsrc):
            continue
        base = mainsrc[:-2]
        mo = '%s/%s.main.o' % (d, base)
        jobs.append(['gcc'] + CF + ['-I' + d, '-I' + REPO, '-Dmain=' + newmain] + dflags + ['-c', REPO + '/' + mainsrc, '-o', mo])
        os_ = [o for o in objs(var) if o != base]
        for o in os_:
            if o not in seen:
                seen.add(o)
                jobs.append(['gcc'] + CF + ['-I' + d, '-I' + REPO] + dflags + ['-c', '%s/%s.c' % (REPO, o), '-o', '%s/%s.o' % (d, o)])
        ho = '%s/%s.o' % (d, harness[:-2] + '_' + base)
        jobs.append(['gcc', '-O1', '-g', '-w', '-fno-builtin', '-c', HERE + '/' + harness, '-o', ho])
        wraps = sorted(set(re.findall(r'\b__wrap_(\w+)\s*\(', open(HERE + '/' + harness).read())))
        extra = []
        if harness == 'simd.c':      # the list of loaded entries needs fcron's own types
            extra = [d + '/dump.o']
            cmd = ['gcc'] + CF + ['-D_GNU_SOURCE', '-I' + d, '-I' + REPO] + dflags + ['-c', HERE + '/dump.c', '-o', extra[0]]
            if subprocess.run(cmd, capture_output=True).returncode:
                run(cmd[:1] + ['-DNO_DUMP'] + cmd[1:])
        links.append(['gcc', '-o', d + '/' + out, mo, ho] + extra + ['%s/%s.o' % (d, o) for o in os_] +
                     ['-Wl,--wrap=' + w for w in wraps] + LIBS)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
        list(ex.map(run, links))
    os.chmod(d, 0o755)
    open(d + '/.done', 'w').close()
    return d

if __name__ == '__main__':
    print(build())
