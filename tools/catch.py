#!/usr/bin/env python3
"""catch.py [ID ...]: runs the check of each planted bug's property with the bug applied to /repo."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sys.argv[1:] or sorted(os.listdir(V + '/seeded')):
    d = V + '/seeded/' + i
    m = json.load(open(d + '/meta.json'))
    subprocess.check_call(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    try: p = subprocess.run(['python3', V + '/check.py', m['property']], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_SEED='1'))
    finally: subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    o = p.stdout.decode()
    v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
    f = [l for l in o.splitlines() if 'failed obligation' in l or 'undecided' in l or 'failing input' in l]
    print(i, m['property'], 'rc', p.returncode, v, flush=True)
    for l in f[:6]: print('     ', l[:260], flush=True)
