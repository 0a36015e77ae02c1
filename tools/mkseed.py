#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ for every planted bug defined below (patch made in a scratch copy of /repo's HEAD)."""
import json, os, shutil, subprocess, sys

V2 = 'contracts/stargaze-marketplace-v2/src/'
RA = 'contracts/reserve-auction/src/'
V1 = 'contracts/marketplace/src/'
CM = 'packages/sg-marketplace-common/src/'
B = {}


def bug(id, prop, needs, breaks, edits, demo):
    B[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo.strip('\n') + '\n')


exec(open(os.path.join(os.path.dirname(__file__), 'seeds.py')).read())

HERE = os.path.dirname(os.path.abspath(__file__))
only = sys.argv[1:]
wt = '/tmp/seedwt'
shutil.rmtree(wt, ignore_errors=True)
subprocess.run(['git', 'clone', '-q', '--shared', '/repo', wt], check=True)
for id, b in B.items():
    if only and id not in only:
        continue
    subprocess.run(['git', '-C', wt, 'checkout', '-q', '--', '.'], check=True)
    for f, old, new in b['edits']:
        n, tup = 1, isinstance(old, tuple)
        if tup:
            old, n = old           # the n-th occurrence
        s = open(f'{wt}/{f}').read()
        parts = s.split(old)
        assert n > 1 or len(parts) == 2 or (id, f) and tup, (id, f, len(parts))
        if len(parts) <= n:
            raise SystemExit(f'{id}: no match in {f}')
        s = old.join(parts[:n]) + new + old.join(parts[n:])
        open(f'{wt}/{f}', 'w').write(s)
    d = f'{HERE}/../seeded/{id}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    patch = subprocess.run(['git', '-C', wt, 'diff'], capture_output=True, text=True).stdout
    assert patch
    open(f'{d}/patch.diff', 'w').write(patch)
    lib = 'fn main' in b['demo']           # a demonstration in Rust, of the shared library
    shutil.copytree(f"{HERE}/seedlib/{'libcrate' if lib else 'crate'}", f'{d}/crate')
    shutil.copy(f"{HERE}/seedlib/{'libdemo.sh' if lib else 'demo.sh'}", f'{d}/demo.sh')
    os.chmod(f'{d}/demo.sh', 0o755)
    if lib:
        os.makedirs(f'{d}/crate/src', exist_ok=True)
        open(f'{d}/crate/src/main.rs', 'w').write(b['demo'])
    else:
        shutil.copy(f'{HERE}/seedlib/world.py', d)
        open(f'{d}/demo.py', 'w').write('from world import *\n\n' + b['demo'])
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(f'{d}/meta.json', 'w'), indent=1)
shutil.rmtree(wt, ignore_errors=True)
print(len(B), 'bugs defined')
