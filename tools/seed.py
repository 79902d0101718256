#!/usr/bin/env python3
"""Planted bugs.  seed.py make FILE: read definitions (S(...)) and write seeded/<id>/;  seed.py try ID... | all [CHECK...]:
in a scratch copy of /repo, confirm that the demonstration passes without and fails with the change, that the stable
tests pass with it, and run the property's check (or the named checks) against it."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')
PY = '/opt/venv/bin/python'
DEMO_HEAD = '''import os, sys, tempfile, shutil, io, contextlib
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
sys.dont_write_bytecode = True
TMP = tempfile.mkdtemp()
os.environ['TMPDIR'] = TMP
tempfile.tempdir = TMP


class Pool:
    def __init__(self, order=None):
        self.order = order

    def imap_unordered(self, f, args, chunksize=1):
        args = list(args)
        if self.order:
            args = self.order(args)
        return (f(a) for a in args)
    imap = imap_unordered

    def map(self, f, args, chunksize=1):
        return [f(a) for a in args]

    def close(self):
        pass
    join = close


def put(name, data):
    p = os.path.join(TMP, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
        f.write(data.encode('utf-8') if isinstance(data, str) else data)
    return p


def get(name):
    with open(os.path.join(TMP, name), 'rb') as f:
        return f.read()


def check(ok, what):
    if not ok:
        print('FAIL', str(what)[:300])
        sys.exit(1)


import atexit
atexit.register(shutil.rmtree, TMP, True)
sys.stderr = io.StringIO()
sys.excepthook = lambda t, e, tb: print('FAIL', t.__name__, str(e)[:300])
'''


def S(id, property, needs, breaks, edits, demo):
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    work = tempfile.mkdtemp(prefix='seed_')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', work + '/r'], check=True)
        r = work + '/r'
        for f, old, new in edits:
            p = os.path.join(r, 'src/v8unpack', f)
            s = open(p, encoding='utf-8', newline='').read()
            if s.count(old) != 1:
                print(f'{id}: {f}: {s.count(old)} occurrences of {old!r}')
                return
            with open(p, 'w', encoding='utf-8', newline='') as h:
                h.write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', r, 'diff'], stdout=subprocess.PIPE, check=True).stdout
        with open(os.path.join(d, 'patch.diff'), 'wb') as h:
            h.write(diff)
    finally:
        shutil.rmtree(work)
    with open(os.path.join(d, 'demo.py'), 'w', encoding='utf-8') as h:
        h.write(DEMO_HEAD + demo.strip('\n') + '\n')
    with open(os.path.join(d, 'demo.sh'), 'w') as h:
        h.write('#!/bin/sh\nexec env PYTHONHASHSEED=0 LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONWARNINGS=ignore ' + PY
                + ' "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=property, needs=needs, what_it_breaks=breaks),
              open(os.path.join(d, 'meta.json'), 'w', encoding='utf-8'), ensure_ascii=False, indent=1)
    MADE.append(id)


MADE = []


def trial(id, checks):
    d = os.path.join(SEEDED, id)
    meta = json.load(open(os.path.join(d, 'meta.json'), encoding='utf-8'))
    work = tempfile.mkdtemp(prefix='seedrun_')
    r = os.path.join(work, 'repo')
    out = []
    try:
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        env = dict(os.environ, LANG='C.UTF-8', LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        env.pop('PYTHONPATH', None)
        demo = lambda: subprocess.run(['sh', os.path.join(d, 'demo.sh')], cwd=r, env=env, stdout=subprocess.PIPE,
                                      stderr=subprocess.STDOUT, timeout=300)
        p = demo()
        if p.returncode:
            out.append('DEMO FAILS ON CLEAN: ' + p.stdout.decode('utf-8', 'replace')[-300:])
        p = subprocess.run(['git', '-C', r, 'apply', os.path.join(d, 'patch.diff')], stderr=subprocess.PIPE)
        if p.returncode:
            out.append('PATCH DOES NOT APPLY')
            return id, meta, out, {}
        p = demo()
        out.append('demo: ' + (p.stdout.decode('utf-8', 'replace').strip()[-120:] if p.returncode else 'NOT FAILING'))
        x = os.path.join(work, 'j.xml')
        subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'pytest_timeout', '--timeout=30',
                        '--continue-on-collection-errors', '--rootdir=' + r, '-o', 'junit_family=xunit2',
                        '--junitxml=' + x, r + '/tests'], cwd=r + '/tests/ExternalDataProcessor803',
                       env=dict(env, PYTHONPATH=r + '/src', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1'),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=840)
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        ok = set()
        for tc in ET.parse(x).iter('testcase'):
            if not any(ch.tag in ('failure', 'error', 'skipped') for ch in tc):
                ok.add((tc.get('classname') or '') + '::' + tc.get('name'))
        missing = [s for s in stable if s not in ok]
        if missing:
            out.append(f'TESTS BROKEN {missing[:3]}')
        res = {}
        for c in checks or [meta['property']]:
            p = subprocess.run([os.path.join(ROOT, 'check.sh'), c], env=dict(env, VERIF_REPO=r, VERIF_EVIDENCE=work, VERIF_SEED='1'),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
            o = p.stdout.decode('utf-8', 'replace')
            cl = sorted({ln.split('clause=')[1].split(' ')[0] for ln in o.splitlines() if 'clause=' in ln})
            res[c] = ('CAUGHT ' + ','.join(cl) if p.returncode == 1 else 'missed' if p.returncode == 0 else 'MACHINERY ' + o[-400:])
        return id, meta, out, res
    finally:
        shutil.rmtree(work)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        exec(open(sys.argv[2], encoding='utf-8').read())
        print('made', MADE)
        ids, checks = MADE, []
    else:
        a = sys.argv[2:]
        ids = [x for x in a if os.path.isdir(os.path.join(SEEDED, x))]
        if 'all' in a:
            ids = sorted(os.listdir(SEEDED))
        checks = [x for x in a if x not in ids and x != 'all']
    with cf.ThreadPoolExecutor(3) as ex:
        for id, meta, out, res in ex.map(lambda i: trial(i, checks), ids):
            print(f'{id:28} {meta["property"]} {res} | ' + ' | '.join(out), flush=True)
