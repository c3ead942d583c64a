#!/usr/bin/env python3
"""dev/seed.py [ID...]: writes /verif/seeded/<id>/ from dev/seeds/*.seed and confirms each one in a scratch copy.
A .seed file: 'property: C02', 'needs: ..', 'breaks: ..', 'sources: a.cpp b.cpp', then '--- file' / old / '+++' / new blocks, then '=== demo' and the C++ body."""
import json, os, re, subprocess, sys, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/seedrepo'
DEMO = '''#!/bin/bash
# exit 0: behaves as stated; non-zero: does not
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
F="-std=c++11 -fsigned-char -include cstdint -DSPARQL -DML -DANALYTICS -DSERVER -Iinclude -Irdf3x/include -Irapidjson/include -Isnap/glib-core -Isnap/snap-core -Isnap"
g++ $F -w -g -O0 %(flags)s -I"$D" "$D/demo.cpp" %(sources)s -o "$T/demo" -Wl,--unresolved-symbols=ignore-all -no-pie -pthread %(libs)s || exit 9
cd "$T"
timeout 60 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def parse(p):
    t = open(p).read()
    head, demo = t.split('=== demo\n', 1)
    parts = re.split(r'^--- (.*)\n', head, flags=re.M)
    m = dict(re.match(r'(\w+): (.*)', l).groups() for l in parts[0].strip().split('\n') if l.strip())
    eds = []
    for i in range(1, len(parts), 2):
        a, b = parts[i + 1].split('+++\n', 1)
        eds.append((parts[i].strip(), a, b))
    return m, eds, demo


def main():
    ids = sys.argv[1:] or sorted(os.path.basename(x)[:-5] for x in glob.glob(V + '/dev/seeds/*.seed'))
    shutil.rmtree(S, ignore_errors=True)
    os.makedirs(S)
    sh('git -C /repo archive HEAD | tar -x -C ' + S)
    sh('cd %s && git init -q . && git add -A -f && git -c user.name=x -c user.email=x commit -qm b' % S)
    for i in ids:
        m, eds, demo = parse('%s/dev/seeds/%s.seed' % (V, i))
        sh('git checkout -q -- .', cwd=S)
        for f, a, b in eds:
            s = open(S + '/' + f, newline='').read()
            if '\r\n' in s:
                a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
            if s.count(a) != 1:
                print(i, 'ANCHOR', f, s.count(a))
                break
            open(S + '/' + f, 'w', newline='').write(s.replace(a, b))
        else:
            d = '%s/seeded/%s' % (V, i)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(d + '/patch.diff', 'wb').write(subprocess.run('git diff', shell=True, capture_output=True, cwd=S).stdout)
            open(d + '/demo.cpp', 'w').write(demo)
            for h in glob.glob(V + '/dev/seeds/*.h'):
                if os.path.basename(h) in demo or os.path.basename(h) == 'ops.h' and '"db.h"' in demo or '"plan.h"' in demo:
                    shutil.copy(h, d)
            open(d + '/demo.sh', 'w').write(DEMO % {'sources': m.get('sources', ''), 'flags': m.get('flags', ''), 'libs': m.get('libs', '')})
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': m['property'], 'needs': m['needs'], 'what_it_breaks': m['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            lib = 'libsnap' in m.get('sources', '')
            mk = 'make -C snap/snap-core lib CXXFLAGS="-std=c++11 -Wall -O1 -DNDEBUG -fopenmp -fpermissive -w"'
            lib and sh(mk, cwd=S)
            r1 = sh('bash %s/demo.sh' % d, cwd=S)
            sh('git checkout -q -- .', cwd=S)
            lib and sh('touch snap/snap-core/Snap.cpp; ' + mk, cwd=S)
            r0 = sh('bash %s/demo.sh' % d, cwd=S)
            sh('git apply %s/patch.diff' % d, cwd=S)
            ck = [m['property']] + m.get('also', '').split()
            res = []
            for c in ck:
                r = sh('python3 %s/check.py %s' % (V, c), env=dict(os.environ, VP_REPO=S))
                res.append('%s:%s' % (c, r.returncode))
            print(i, 'clean=%d patched=%d' % (r0.returncode, r1.returncode), 'OK' if r0.returncode == 0 and r1.returncode not in (0, 9) else 'BAD ' + r0.stdout[-300:] + r0.stderr[-600:] + r1.stderr[-300:], ' '.join(res))
    sh('git checkout -q -- .', cwd=S)


main()
