#!/usr/bin/env python3
"""seed.py SPEC.py... : plant bugs in scratch copies, confirm them, and write /verif/seeded/<id>/.

A spec is a Python file with SEEDS = [dict(id=, prop=, file=, edits=[(old, new)...], needs=, breaks=, demo=, files={})].
`file` may be None, then edits are (file, old, new).
The demo is shell text run with cwd /repo; $B is the built program, $T a scratch directory."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
# run with cwd /repo after a build; exit 0 when the behaviour is right
B=$PWD/_build/bin/jsonstroll
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
fail() { echo "FAIL: $*" >&2; exit 1; }
'''


def sh(cmd, cwd, t=600, env=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, errors='replace', env=env)
    return r.returncode, r.stdout + r.stderr


def build(d):
    return sh('export CC=gcc CXX=g++; cmake -S . -B _build -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=Debug '
              '-DCMAKE_CXX_FLAGS=-Wno-error -DHELP2MAN=HELP2MAN-NOTFOUND && ninja -j4 -C _build', d)


def tests(d):
    return sh('ctest --test-dir _build -j8 --timeout 120', d)


def do(s):
    base = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    try:
        d = os.path.join(base, 'repo')
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('_build'))
        for e in s['edits']:
            f, o, n = e if len(e) == 3 else (s['file'],) + tuple(e)
            p = os.path.join(d, f)
            t = open(p).read()
            if o not in t:
                return s['id'], 'edit text not found: ' + o
            open(p, 'w').write(t.replace(o, n, 1))
        diff = sh('git diff', d)[1]
        rc, o = build(d)
        if rc:
            return s['id'], 'does not build\n' + o[-2000:]
        rc, o = tests(d)
        if rc:
            return s['id'], 'tests fail\n' + o[-1500:]
        out = os.path.join(base, 'x')
        os.makedirs(out)
        with open(out + '/demo.sh', 'w') as f:
            f.write(HEAD + s['demo'].strip('\n') + '\nexit 0\n')
        os.chmod(out + '/demo.sh', 0o755)
        for k, v in s.get('files', {}).items():
            open(os.path.join(out, k), 'w').write(v)
        rc, o = sh(out + '/demo.sh', d, 300)
        if rc == 0:
            return s['id'], 'demo passes with the patch\n' + o[-1500:]
        rc, o2 = sh(out + '/demo.sh', '/repo', 300)
        if rc:
            return s['id'], 'demo fails on the unchanged tree\n' + o2[-1500:]
        with open(out + '/patch.diff', 'w') as f:
            f.write(diff)
        with open(out + '/meta.json', 'w') as f:
            json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), f, indent=1)
            f.write('\n')
        dst = os.path.join(V, 'seeded', s['id'])
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        shutil.copytree(out, dst)
        env = dict(os.environ, JSA_REPO=d, JSA_EVID=os.path.join(base, 'ev'))
        rc, o = sh('python3 %s/jsa/run.py %s quick' % (V, s['prop']), V, 900, env)
        return s['id'], 'kept; check %s -> %d %s' % (s['prop'], rc, '' if rc == 1 else o[-600:])
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    seeds = []
    for f in sys.argv[1:]:
        ns = {}
        exec(open(f).read(), ns)
        seeds += ns['SEEDS']
    only = os.environ.get('ONLY')
    if only:
        seeds = [s for s in seeds if s['id'] in only.split(',')]
    with ThreadPoolExecutor(3) as ex:
        for i, r in ex.map(do, seeds):
            print(i + ':', r, flush=True)
