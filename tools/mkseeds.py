"""Writes /verif/seeded/<id>/ from the table in tools/seeds.py (run by hand; no check reads the result)."""
import os, sys, subprocess, json
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []
def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append((id, prop, edits, demo, needs, breaks))
exec(open(os.path.join(R, 'tools', 'seeds.py')).read())
only = sys.argv[1:]
for id, prop, edits, demo, needs, breaks in SEEDS:
    if only and id not in only: continue
    d = os.path.join(R, 'seeded', id); os.makedirs(d, exist_ok=True)
    assert subprocess.run(['git', '-C', '/repo', 'diff', '--quiet']).returncode == 0
    try:
        for f, old, new in edits:
            p = '/repo/quantfinlib/' + f
            s = open(p, newline='').read(); crlf = '\r\n' in s; s = s.replace('\r\n', '\n')
            assert s.count(old) == 1, (id, f, s.count(old))
            s = s.replace(old, new)
            open(p, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)
        diff = subprocess.run(['git', '-C', '/repo', 'diff', '--binary'], capture_output=True).stdout
        if b'GIT binary' in diff: raise SystemExit('binary diff ' + id)
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    finally: subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(os.path.join(d, 'demo.py'), 'w').write('import sys, os\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\nimport numpy as np, pandas as pd\n' + demo.strip() + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n# exit 0 on the unchanged tree, nonzero with the planted change; cwd is the repository\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print(id, prop)
