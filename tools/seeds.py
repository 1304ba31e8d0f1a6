#!/usr/bin/env python3
"""Writes seeded/<id>/ from the list below and (with 'verify') confirms, in a
scratch copy of /repo, that each change builds, passes the stable tests, and
is told apart by its demonstration.  'catch' also runs the property's quick
check against the scratch copy.  Nothing here is read by any check."""
import json, os, shutil, subprocess, sys, textwrap
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, 'seeded')
sys.path.insert(0, os.path.join(HERE, 'tools'))
from seedlist import SEEDS
from seedlist2 import MORE
from seedlist3 import MORE3
from seedlist4 import MORE4
SEEDS = SEEDS + MORE + MORE3 + MORE4

DEMO_SH = '''#!/bin/bash
# Exit 0 when the library behaves, non-zero when it does not.  cwd: /repo.
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
%(cc)s "$here/demo.cpp" %(lib)s -o "$dir/demo" %(ld)s 2> "$dir/log" || { cat "$dir/log"; exit 2; }
timeout 120 "$dir/demo"
'''
HEAD = r'''#include <lexi/lexi.hpp>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <fstream>
static int bad = 0;
#define OK(c) do { if (!(c)) { std::printf("wrong: %s\n", #c); ++bad; } } while (0)
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def scratch(n):
    d = '/tmp/seed%s' % n
    shutil.rmtree(d, ignore_errors=True)
    sh('git -C /repo worktree prune')
    shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('_build'))
    return d

def write(s, repo):
    d = os.path.join(OUT, s['id'])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh('git checkout -- .', cwd=repo)
    for f, old, new in s['edits']:
        p = os.path.join(repo, f); t = open(p).read()
        assert t.count(old) >= 1, (s['id'], f, old)
        n = s.get('nth', {}).get(old, None)
        if n is None:
            assert t.count(old) == 1, (s['id'], 'ambiguous', old, t.count(old))
            t = t.replace(old, new)
        else:
            parts = t.split(old)
            t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        open(p, 'w').write(t)
    diff = sh('git diff', cwd=repo).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    cc = s.get('cc', 'g++ -std=c++14 -include cstdint -O1 -w -I include')
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH % {'lib': s.get('lib', 'src/*.cpp src/detail/*.cpp'), 'cc': cc, 'ld': s.get('ld', '')})
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    body = textwrap.dedent(s['demo'])
    if 'int main' not in body:
        body = 'int main()\n{\n' + textwrap.indent(body.strip('\n'), '    ') + '\n    return bad != 0;\n}\n'
    open(os.path.join(d, 'demo.cpp'), 'w').write(s.get('head', HEAD) + body)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=2)
    open(os.path.join(d, 'meta.json'), 'a').write('\n')
    sh('git checkout -- .', cwd=repo)

BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()

def verify(s, repo, catch):
    d = os.path.join(OUT, s['id']); res = []
    r = sh('bash %s/demo.sh' % d, cwd=repo)
    if r.returncode: return 'DEMO-FAILS-CLEAN ' + r.stdout[-300:]
    r = sh('git apply %s/patch.diff' % d, cwd=repo)
    if r.returncode: return 'NOAPPLY ' + r.stdout
    try:
        b = repo + '/_b'
        r = sh('[ -f %s/build.ninja ] || cmake -S . -B %s -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTS=ON '
               '-DCMAKE_POLICY_VERSION_MINIMUM=3.5 "-DCMAKE_CXX_FLAGS=-Wno-error -include cstdint" '
               '-DCMAKE_PROJECT_lexi_INCLUDE=/opt/vp/gtest-target.cmake; ninja -C %s' % (b, b, b), cwd=repo)
        if r.returncode: return 'NOBUILD ' + r.stdout[-800:]
        r = sh('timeout 60 %s/lexi_tests' % b, cwd=repo)
        failed = [l for l in r.stdout.splitlines() if l.startswith('[  FAILED  ]') and '(' in l]
        known = [l for l in failed if not any(x in l for x in STABLE)]
        if len(failed) != len(known) or (r.returncode and not failed): return 'TESTS-FAIL ' + str(failed) + r.stdout[-300:]
        r = sh('bash %s/demo.sh' % d, cwd=repo)
        if not r.returncode: return 'DEMO-PASSES-PATCHED'
        out = 'ok demo rc=%d %s' % (r.returncode, r.stdout.strip().replace('\n', ' | ')[:120])
        if catch:
            shutil.rmtree(b, ignore_errors=True)
            e = dict(os.environ, LEXI_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick', VERIF_EVIDENCE=repo + '/_ev')
            import time; t = time.time()
            r = sh('timeout 900 python3 %s/check.py %s quick' % (HERE, s['property']), env=e, cwd=HERE)
            out += ' || CHECK rc=%d %.0fs %s' % (r.returncode, time.time() - t,
                    [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'rror' in l][:2])
        return out
    finally:
        sh('git checkout -- .', cwd=repo)

STABLE = [t.split('.')[-1] and t for t in BASE]

if __name__ == '__main__':
    mode = sys.argv[1]
    ids = sys.argv[2:]
    todo = [s for s in SEEDS if not ids or any(s['id'].startswith(i) for i in ids)]
    repo = scratch('A%d' % os.getpid())
    try:
        for s in todo:
            if mode == 'write': write(s, repo)
            else: print(s['id'], verify(s, repo, mode == 'catch'), flush=True)
    finally:
        shutil.rmtree(repo, ignore_errors=True)
