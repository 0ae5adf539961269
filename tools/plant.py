#!/usr/bin/env python3
"""Planted bugs: capture and try them.

plant.py new ID PROPERTY   capture `git -C /repo diff` as seeded/ID/patch.diff
                           (needs/what_it_breaks on stdin, one line each, then
                           the demo script) and undo it
plant.py try ID [...]      demo without/with the patch, tests and the check
plant.py check ID [...]    only the check
"""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'


def sh(*a, **kw):
    return subprocess.run(a, capture_output=True, text=True, **kw)


def undo():
    sh('git', '-C', R, 'checkout', '--', '.')


def fixed_lines(patch):
    """Lines the patch removes that the base commit does not have."""
    bad = []
    path = None
    for line in patch.splitlines():
        if line.startswith('--- a/'):
            path = line[6:]
            base = sh('git', '-C', R, 'show', f'a16f29d:{path}').stdout.split('\n')
        elif line.startswith('-') and not line.startswith('---'):
            if line[1:] not in base:
                bad.append(line)
    return bad


def new(i, prop):
    needs, what, demo = sys.stdin.read().split('\n', 2)
    patch = sh('git', '-C', R, 'diff').stdout
    undo()
    assert patch, 'no change'
    d = f'{V}/seeded/{i}'
    os.makedirs(d, exist_ok=True)
    open(f'{d}/patch.diff', 'w').write(patch)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what},
              open(f'{d}/meta.json', 'w'), indent=1)
    if demo.startswith('#!'):
        open(f'{d}/demo.sh', 'w').write(demo)
    else:
        open(f'{d}/demo.sh', 'w').write(
            '#!/bin/bash\n'
            'export PYTHONPATH=$PWD/src PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8\n'
            'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        open(f'{d}/demo.py', 'w').write(
            'import atexit\nimport os\nimport shutil\nimport tempfile\n\n'
            'where = tempfile.mkdtemp()\nos.chdir(where)\n'
            'atexit.register(shutil.rmtree, where)\n'
            "atexit.register(os.chdir, '/')\n\n" + demo)
    os.chmod(f'{d}/demo.sh', 0o755)
    bad = fixed_lines(patch)
    if bad:
        print('  lines from fixes removed:', bad)


def try_(i, full=True):
    d = f'{V}/seeded/{i}'
    prop = json.load(open(f'{d}/meta.json'))['property']
    res = [i, prop]
    if full:
        r = sh('bash', f'{d}/demo.sh', cwd=R)
        res.append(f'demo clean={r.returncode}')
        if r.returncode:
            print(r.stdout[-800:], r.stderr[-800:])
    try:
        a = sh('git', '-C', R, 'apply', f'{d}/patch.diff')
        if a.returncode:
            print(i, 'DOES NOT APPLY', a.stderr)
            return
        if full:
            r = sh('bash', f'{d}/demo.sh', cwd=R)
            res.append(f'patched={r.returncode}')
            sh('bash', '/opt/vp/test.sh', '/tmp/o.json')
            o = json.load(open('/tmp/o.json'))
            res.append(f'tests={len(o["passed"])}/{len(o["failed"])}')
            if o['failed']:
                print('   ', o['failed'][:5])
        r = sh('./check', prop, '--no-evidence', cwd=V)
        res.append('CAUGHT' if r.returncode == 1 and f'VIOLATION property={prop}'
                   in r.stdout else f'MISSED rc={r.returncode} {r.stderr[-300:]}')
        res.append(r.stdout.strip().split('\n')[-1][:120])
    finally:
        undo()
    print(' '.join(res))


if __name__ == '__main__':
    assert not sh('git', '-C', R, 'status', '--porcelain', '-uno').stdout or sys.argv[1] == 'new'
    if sys.argv[1] == 'new':
        new(*sys.argv[2:4])
        try_(sys.argv[2])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(f'{V}/seeded'))
        for x in ids:
            try_(x, sys.argv[1] == 'try')
