#!/usr/bin/env python3
"""mkseed.py ID PROPERTY < spec: spec is python with FILE, OLD, NEW (or EDITS=[(file,old,new)]), DEMO, NEEDS, BREAKS. Writes /verif/seeded/ID."""
import sys, os, json, subprocess, shutil
i, prop = sys.argv[1:3]; ns = {}
exec(sys.stdin.read(), ns)
ed = ns.get('EDITS') or [(ns['FILE'], ns['OLD'], ns['NEW'])]
d = '/verif/seeded/' + i; os.makedirs(d, exist_ok=True)
for f, o, n in ed:
    p = '/repo/' + f; s = open(p).read(); assert s.count(o) == 1, (f, s.count(o), o); open(p, 'w').write(s.replace(o, n))
open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout)
subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
open(d + '/demo.cpp', 'w').write(ns['DEMO'].lstrip())
shutil.copy('/verif/tools/demo_template.sh', d + '/demo.sh'); os.chmod(d + '/demo.sh', 0o755)
json.dump({'property': prop, 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
