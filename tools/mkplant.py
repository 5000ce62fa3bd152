#!/usr/bin/env python3
"""Dev aid: mkplant.py FILE: FILE is a python dict literal: id, property, needs, what_it_breaks, edits [(file, old, new)], demo (shell text)"""
import sys, os, json, subprocess
d = eval(open(sys.argv[1]).read())
D = '/verif/seeded/' + d['id']
os.makedirs(D, exist_ok=True)
try:
    for f, old, new in d['edits']:
        p = '/repo/' + f; s = open(p, encoding='latin-1').read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w', encoding='latin-1').write(s.replace(old, new))
    out = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True).stdout
finally:
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
open(D + '/patch.diff', 'wb').write(out)
open(D + '/demo.sh', 'w').write(d['demo'])
os.chmod(D + '/demo.sh', 0o755)
for n, t in d.get('files', {}).items():
    open(D + '/' + n, 'w').write(t)
json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['what_it_breaks']), open(D + '/meta.json', 'w'), indent=1)
