"""mkseed.py ID PROPERTY PATCH DEMO.py NEEDS BREAKS: makes /verif/seeded/ID and tries it (in copies of /repo)."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
id, prop, patch, demo, needs, breaks = sys.argv[1:7]
d = '%s/seeded/%s' % (ROOT, id)
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d + '/harness')
for f in ('build.py', 'config.defs', 'simd.c', 'simc.c'):
    shutil.copy(ROOT + '/harness/' + f, d + '/harness/')
shutil.copy(ROOT + '/driver/sim.py', d)
shutil.copy(ROOT + '/tools/seedlib/demolib.py', d)
shutil.copy(demo, d + '/demo.py')
shutil.copy(patch, d + '/patch.diff')
open(d + '/demo.sh', 'w').write('#!/bin/sh\nexec python3 "$(dirname "$0")/demo.py"\n')
os.chmod(d + '/demo.sh', 0o755)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
