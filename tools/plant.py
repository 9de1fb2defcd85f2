#!/usr/bin/env python3
"""Authoring aid: lay out planted bugs from a specification file (see usage in DESIGN.md).
plant.py SPEC.py [ID...]  - SPEC.py calls bug(...); writes /verif/seeded/<id>/{patch.diff,meta.json,demo.rs}"""
import json, os, subprocess, sys
ids = sys.argv[2:]
def git(*a):
    return subprocess.run(['git', '-C', '/repo', *a], capture_output=True, text=True, check=True).stdout
def bug(id, prop, edits, needs, breaks, features, demo):
    if ids and id not in ids:
        return
    assert git('status', '--porcelain') == '', 'dirty /repo'
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = '/repo/' + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(git('diff'))
    finally:
        git('checkout', '-q', '--', '.')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.rs', 'w').write(f'// features: {features}\nmod kit;\n#[allow(unused_imports)]\nuse kit::*;\n' + demo.strip() + '\n')
    print('wrote', id)
exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'))
subprocess.run(['/verif/tools/mkkit.sh'], check=True, stdout=subprocess.DEVNULL)
