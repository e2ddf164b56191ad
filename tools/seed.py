#!/usr/bin/env python3
"""build and try seeded changes: seed.py FILE [ID..]   FILE defines SEEDS, a
list of dict(id, property, edits=[(path, old, new)], demo, needs, breaks, flags)"""
import os, sys, subprocess, json, shutil, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('VC_REPO', '/repo')
DEMO = '''#!/bin/bash
# exit 0: the guarantee holds; non-zero: it is broken
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp -d)
trap 'rm -rf "$o"' EXIT
g++ -std=c++17 -O1 -g %s -I include -I "$d/stub" -I /usr/include/eigen3 "$d/demo.cpp" %s -o "$o/demo" 2> "$o/err" || { tail -n 30 "$o/err"; exit 2; }
timeout 60 "$o/demo"
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    spec = runpy.run_path(sys.argv[1])
    want = sys.argv[2:]
    for s in spec['SEEDS']:
        if want and s['id'] not in want:
            continue
        d = os.path.join(HERE, 'seeded', s['id'])
        if sh('git', '-C', R, 'status', '--porcelain').stdout.strip():
            sys.exit('repo not clean')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree(HERE + '/harness/stub', d + '/stub')
        open(d + '/demo.cpp', 'w').write(s.get('pre', '') + spec.get('PRE', '') + s['demo'])
        open(d + '/demo.sh', 'w').write(DEMO % (s.get('flags', '-fsanitize=address'), s.get('link', '')))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        msg = s['id'] + ': '
        r0 = sh('bash', d + '/demo.sh', cwd=R)
        if r0.returncode:
            print(msg + 'DEMO FAILS on the unchanged tree', r0.stdout[-800:], r0.stderr[-800:])
            continue
        try:
            for path, a, b in s['edits']:
                p = R + '/' + path
                t = open(p).read()
                assert t.count(a) == s.get('count', 1), (s['id'], path, t.count(a))
                open(p, 'w').write(t.replace(a, b))
            open(d + '/patch.diff', 'w').write(sh('git', '-C', R, 'diff').stdout)
            r1 = sh('bash', d + '/demo.sh', cwd=R)
            msg += 'demo %d; ' % r1.returncode
            if r1.returncode == 2:
                print(msg, r1.stdout[-600:])
            if R == '/repo':
                t = sh('bash', '/opt/vp/test.sh', '/tmp/w/seed_out.json')
                res = json.load(open('/tmp/w/seed_out.json'))
                stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
                msg += 'tests %s; ' % ('pass' if stable <= set(res['passed']) else 'FAIL %s' % (stable - set(res['passed'])))
            c = sh(HERE + '/check', s['property'], 'quick', cwd=HERE)
            v = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
            msg += 'check rc %d %s | %s' % (c.returncode, v[:1], c.stdout.strip().split('\n')[-1][:120])
        finally:
            sh('git', '-C', R, 'checkout', '--', '.')
        print(msg, flush=True)


main()
