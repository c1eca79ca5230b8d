#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE 'old' 'new' 'needs' 'what' < demo.cpp : create /verif/seeded/ID from an edit of /repo (left unchanged)"""
import sys, os, json, subprocess, shutil
ID, prop, f, old, new, needs, what = sys.argv[1:8]
demo = sys.stdin.read()
d = '/verif/seeded/' + ID; os.makedirs(d, exist_ok=True)
src = open('/repo/' + f, newline='').read()
old = old.encode().decode('unicode_escape'); new = new.encode().decode('unicode_escape')
assert src.count(old) == 1, 'old text occurs %d times' % src.count(old)
open('/repo/' + f, 'w', newline='').write(src.replace(old, new))
try: diff = subprocess.check_output(['git', '-C', '/repo', 'diff', '--', f])
finally: subprocess.check_call(['git', '-C', '/repo', 'checkout', '--', f])
open(d + '/patch.diff', 'wb').write(diff)
open(d + '/demo.cpp', 'w').write(demo)
shutil.copy('/verif/tools/demo.sh.tmpl', d + '/demo.sh'); os.chmod(d + '/demo.sh', 0o755)
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
