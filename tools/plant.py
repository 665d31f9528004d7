#!/usr/bin/env python3
"""Plants a bug: plant.py BUGFILE...   (a development tool, no check uses it)
A bug file is Python: ID, PROP, NEEDS, WHAT, EDITS = [(file, old, new)], DEMO = C source.
Writes seeded/ID, then builds, tests, demonstrates and runs the property's check on the changed tree;
/repo is restored at the end."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
gcc -O1 -g -std=gnu99 -D_GNU_SOURCE%s -Isrc/include -o "$t/demo" "$d/demo.c" target/Linux-x86_64/lib/libaerospike-common.a -lssl -lcrypto -lpthread -lm -lrt || exit 2
timeout 120 "$t/demo"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def repo_clean():
    return not sh('git -C /repo status --porcelain').stdout.strip()


BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
for bf in sys.argv[1:]:
    g = {}
    exec(open(bf).read(), g)
    d = ROOT + '/seeded/' + g['ID']
    assert repo_clean()
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.c', 'w').write(g['DEMO'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(SH % g.get('FLAGS', ''))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['WHAT']}, open(d + '/meta.json', 'w'), indent=1)
    r = sh('bash /opt/vp/build.sh')
    assert r.returncode == 0, r.stderr
    r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
    try:
        for f, a, b in g['EDITS']:
            p = '/repo/' + f
            s = open(p).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        diff = sh('git -C /repo diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        t = sh('bash /opt/vp/test.sh /tmp/plant_out.json')
        o = json.load(open('/tmp/plant_out.json'))
        r1 = sh('bash %s/demo.sh' % d, cwd='/repo')
        c = sh('python3-vt vcg/run.py %s' % g['PROP'], cwd=ROOT)
    finally:
        sh('git -C /repo checkout -- .')
        sh('rm -f /tmp/plant_out.json')
    print(g['ID'], g['PROP'], 'tests', len(o['passed']), 'failed', o['failed'], '| demo clean', r0.returncode, 'bug', r1.returncode,
          '| check exit', c.returncode, [l for l in c.stdout.splitlines() if 'VIOLATION' in l][:3])
    if r0.returncode or not r1.returncode:
        print(r0.stdout[-500:], r0.stderr[-1500:], '--', r1.stdout[-300:], r1.stderr[-500:])
sh('bash /opt/vp/build.sh')
