"""mkseed.py ID PROPERTY FILE <<< json {old,new,needs,breaks,demo}: writes seeded/ID from a textual replacement in a copy of /repo"""
import sys, json, subprocess, os, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def make(id, prop, edits, needs, breaks, demo, extra=None):
    t = tempfile.mkdtemp(prefix='mkseed', dir='/var/tmp')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
        for f, old, new in edits:
            p = t + '/r/' + f; s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        d = subprocess.check_output(['git', '-C', t + '/r', 'diff'], text=True)
    finally: shutil.rmtree(t)
    o = V + '/seeded/' + id
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(d)
    open(o + '/demo.py', 'w').write(demo)
    open(o + '/demo.sh', 'w').write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nS=$(mktemp -d)\ntrap \'rm -rf "$S"\' EXIT\n'
        'export PYTHONPATH=/repo/_build/lib:/repo PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1\ncd "$S" && /usr/bin/python3 "$D/demo.py"\n')
    os.chmod(o + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(o + '/meta.json', 'w'), indent=1)
