#!/usr/bin/env python3
"""dev/mut.py LISTFILE [FILTER]: applies textual edits to scratch copies of /repo and shows which checks react.
Each entry: '=== check[,check] file' / old text / '---' / new text; a check name prefixed with '!' must stay quiet."""
import os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
import queue
src = open(sys.argv[1]).read()
only = sys.argv[2] if len(sys.argv) > 2 else None
TOP = '/tmp/mutdir.%d' % os.getpid()
LIMIT = int(os.environ.get('MUT_LIMIT', '120'))
shutil.rmtree(TOP, ignore_errors=True)
pool = queue.Queue()
NW = 7
for i in range(NW):
    d = '%s/%d' % (TOP, i)
    os.makedirs(d)
    subprocess.run('cd /repo && git archive HEAD | tar x -C ' + d, shell=True, check=True)
    pool.put(d)


def one(ent):
    head, body = ent.split('\n', 1)
    checks, f = head.split()[:2]
    old, new = (body + '\n').split('\n---\n')
    old = old.strip('\n')
    new = new.strip('\n')
    scratch = pool.get()
    p = os.path.join(scratch, f)
    orig = open(p).read()
    try:
        if orig.count(old) < 1:
            return 'NOT FOUND %s %s' % (head, old[:60]), 1
        n = int(head.split('#')[1]) if '#' in head else 0
        idx = -1
        for _ in range(n + 1):
            idx = orig.index(old, idx + 1)
        open(p, 'w').write(orig[:idx] + new + orig[idx + len(old):])
        out, bad = '', 0
        for c in checks.split(','):
            quiet = c.startswith('!')
            c = c.lstrip('!')
            try:
                r = subprocess.run([sys.executable, '/verif/check.py', c], env=dict(os.environ, VP_REPO=scratch, VP_EVIDENCE=scratch + '.ev'), capture_output=True, text=True, timeout=LIMIT)
                rc, so, se = r.returncode, r.stdout, r.stderr
            except subprocess.TimeoutExpired:
                rc, so, se = 99, '', 'TIMEOUT'
            okk = (rc == 0) if quiet else (rc == 1)
            out += '%s%s %s rc=%d %s | %s' % ('U ' if 'undecided:' in so else '', 'ok  ' if okk else 'MISS' if not quiet else 'FALSE-ALARM', c, rc, f, new.replace('\n', ' ')[:90])
            if not okk:
                bad += 1
                out += '\n' + so[-500:] + se[-500:]
        return out, bad
    finally:
        open(p, 'w').write(orig)
        pool.put(scratch)


ents = []
for ent in src.split('\n=== '):
    if ent.startswith('=== '):
        ent = ent[4:]
    if ent.strip() and not ent.startswith('#') and not (only and only not in ent.split('\n')[0]):
        ents.append(ent)
bad = 0
try:
    with ThreadPoolExecutor(NW) as ex:
        for o, b in ex.map(one, ents):
            print(o, flush=True)
            bad += b
finally:
    shutil.rmtree(TOP)
print('unexpected:', bad)
