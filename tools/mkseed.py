#!/usr/bin/env python3
"""mkseed.py: helper used to write seeded/<id>: mk(id, prop, [(file, old, new)...], needs, breaks, demo_py)"""
import os, subprocess, json
def mk(id, prop, edits, needs, breaks, demo):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    assert subprocess.run('git -C /repo status --porcelain', shell=True, capture_output=True, text=True).stdout.strip() == ''
    try:
        for f, a, b in edits:
            p = '/repo/' + f; s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        diff = subprocess.run('git -C /repo diff', shell=True, capture_output=True, text=True).stdout
    finally: subprocess.run('git -C /repo checkout -q -- .', shell=True)
    assert diff
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\ncd /repo/py-forust && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/py-forust exec /opt/pyenv/bin/python -W ignore "$d/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
