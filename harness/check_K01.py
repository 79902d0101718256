"""K01: single runs and lists of products: what is done, what is left, what the exit status says."""
import contextlib
import io
import json
import os
import shutil
import subprocess
import sys

import objects as O
import objrun
import products as P
from vlib import call, digest, tree, write_tree

KINDS = ['Report', 'Catalog', 'DataProcessor', 'Document', 'Role', 'CommonModule', 'Enum']


def small(rng, base, area='include_Часть'):
    """three products with the same few objects, one of them with a module that has an area; the modules are different"""
    p, gen = O.Product(base), O.Gen(rng)
    objs = [gen.obj(k, '', f'Имя{i}', base) for i, k in enumerate(['Report'] + rng.sample(KINDS, rng.randrange(1, 4)))]
    for o in objs:
        p.add(o)
    out = []
    for _ in range(3):
        objs[0].sats['0'] = {'info': P.emit([['3', '1', '0', '""', '0']]),
                             'text': f'\ufeff// {rng.random()}\r\n#Область {area}\r\nА = {rng.random()};\r\n#КонецОбласти\r\n'.encode()}
        out.append(dict(p.entries()))
    return out


def content(f):
    """a product as comparable value, free of what is made up anew"""
    try:
        data = open(f, 'rb').read()
    except FileNotFoundError:
        return None
    try:
        all = P.read_product(data)
    except Exception:
        return digest(data)
    out = {}
    vary = {f'"{n}"' for n, v in all.items() if isinstance(v, dict)} | {'"versions"'}
    for n, v in all.items():
        if n == 'versions':
            m = P.brace_of(v)
            v = repr((m[0][:2], sorted(m[0][2::2]))).encode()
        elif n == 'configinfo':
            m = P.brace_of(v)
            if m and len(m) == 3:
                v = repr((m[:2], m[2][0], sorted((x, '' if x in vary else y) for x, y in zip(m[2][1::2], m[2][2::2])))).encode()
        out[n] = {k: digest(x) for k, x in v.items()} if isinstance(v, dict) else digest(v)
    return out


def source(name, data):
    """a file of sources as comparable value: the versions of a built product are made up anew"""
    if os.path.basename(name).startswith('Configuration') and name.endswith('.json'):
        try:
            v = json.loads(data.decode('utf-8-sig'))
            m = v['versions'][0] if v.get('versions') else []
            v['versions'] = [m[:2], sorted(map(str, m[2::2]))]
            if v.get('configinfo'):
                v['configinfo'] = sorted(map(str, v['configinfo'][2][1::2]))
            return digest(json.dumps(v, ensure_ascii=False).encode())
        except Exception:
            pass
    return digest(data)


class World:
    def __init__(self, life, root):
        self.life, self.root = life, root

    def at(self, *p):
        return os.path.join(self.root, *p)

    def bin(self, b):
        return self.at(*self.life.bins[b])

    def src(self, s):
        return self.at(s, 'x', 'src')

    def snap(self):
        r = {b: content(self.bin(b)) for b in self.life.bins}
        r.update((s, {k: source(k, v) for k, v in tree(self.at(s)).items() if v is not None}) for s in self.life.srcs)
        return r


class Life:
    def __init__(self, c, beh, no, entries, indexed):
        self.c, self.rng, self.beh = c, c.rng, beh
        self.d = c.dir()
        self.entries, self.indexed = entries, indexed
        self.bins = {b: self.rng.choice([(b + '.cf',), ('out', b + '.bin')]) for b in ('b1', 'b2', 'b3')}
        self.srcs = ('s1', 's2')
        self.w, self.m = World(self, os.path.join(self.d, 'w')), World(self, os.path.join(self.d, 'm'))
        self.events, self.modes, self.said = [], [], []

    def ev(self, ev, **k):
        self.events.append(dict(ev=ev, **k))

    def make(self, bins):
        for x in (self.w, self.m):
            os.makedirs(x.at('out'))
            for s in self.srcs:
                os.makedirs(x.at(s))
        for b, st in bins.items():
            self.hurt_bin(b, st)
        good = json.dumps(self.indexed, ensure_ascii=False)
        part = dict(list(self.indexed.items())[:1])
        write_tree(self.w.root, {'good.json': good.encode(), 'empty.json': b'{}', 'torn.json': good[:-3].encode(), 'array.json': b'["a"]',
                                 'sub.json': json.dumps({'index.json': ['part.json'], **self.indexed}, ensure_ascii=False).encode(),
                                 'part.json': json.dumps(part, ensure_ascii=False).encode(),
                                 'subgone.json': json.dumps({'index.json': ['nowhere.json'], **self.indexed}, ensure_ascii=False).encode()})
        os.makedirs(self.w.at('tmp'))
        os.makedirs(os.path.join(self.d, 'mtmp'))
        self.write_list()
        self.ev('World', bins=bins, list=self.beh['list'])

    def hurt_bin(self, b, st):
        ok = P.write_product(self.entries[b])
        data = dict(ok=ok, cut=ok[:len(ok) // 2], junk=bytes(self.rng.randrange(256) for _ in range(self.rng.choice([5, 40, 3000]))),
                    empty=b'', alien=P.write_product({'a': b'1', 'b': b'{1,2}'}), none=None)[st]
        for x in (self.w, self.m):
            if data is not None:
                with open(x.bin(b), 'wb') as h:
                    h.write(data)
            elif os.path.exists(x.bin(b)):
                os.remove(x.bin(b))

    def hurt_src(self, s, st):
        for x in (self.w, self.m):
            if st == 'none':
                shutil.rmtree(x.at(s))
                os.makedirs(x.at(s))
            elif st == 'bare':
                shutil.rmtree(x.src(s))
                os.makedirs(x.src(s))
            else:
                for r, _, fs in os.walk(x.src(s)):
                    for f in fs:
                        p = os.path.join(r, f)
                        parts = f.split('.')
                        if st == 'area' and parts[0] == 'Часть':
                            os.remove(p)
                        elif f.endswith('.json') and (st == 'torn' and r == x.src(s) and parts[0].startswith('Config') or
                                                      st == 'inner' and r.endswith(os.path.join('Report', 'Имя0')) and
                                                      parts[0] == 'Report' and parts[1] != 'id'):
                            t = open(p, 'rb').read()
                            with open(p, 'wb') as h:
                                h.write(t[:len(t) // 2])

    # -- ways of writing the same
    def path(self, p):
        r = self.rng
        rel = os.path.relpath(p, self.w.root)
        return r.choice([p, rel, rel, os.path.join('.', rel)])

    def idx(self, i):
        return self.path(self.w.at(i + '.json')) if i else None

    def options(self, o, typed):
        r, out = self.rng, {}
        if o['pre']:
            out['prefix'] = o['pre']
        if o['ver']:
            out['version'] = o['ver']
        if o['auto'] or r.random() < .2:
            out['auto_include'] = o['auto']
        if o['desc']:
            out['descent'] = int(o['desc'])
        elif typed and r.random() < .2:
            out['descent'] = None
        return out

    def write_list(self):
        l, r, out = self.beh['list'], self.rng, {}
        for p in l['products']:
            e = out[p['code']] = dict(src=self.path(self.w.src(p['src'])), bin=self.path(self.w.bin(p['bin'])))
            if p['temp']:
                e['temp'] = self.path(self.w.at(p['temp']))
            if p['idx'] or r.random() < .3:
                e['index'] = self.idx(p['idx'])
            if p['dis'] or r.random() < .5:
                e['disable'] = p['dis']
            o = self.options(p['o'], True)
            if o or r.random() < .5:
                e['options'] = o
        t = json.dumps(out, ensure_ascii=False)
        t = dict(ok=t, torn=t[:-2], array=f'[{t}]').get(l['st'])
        if t is not None:
            write_tree(self.w.root, {'product.json': t.encode()})

    # -- runs
    def command(self, c):
        a, o = [], []
        if c['op'] in ('E', 'B'):
            f, s = self.path(self.w.bin(c['bin'])), self.path(self.w.src(c['src']))
            a = ['-' + c['op']] + ([f, s] if c['op'] == 'E' else [s, f])
            if c['temp']:
                o.append(['--temp', self.path(self.w.at(c['temp']))])
            if c['idx']:
                o.append(['--index', self.idx(c['idx'])])
            for k, n in (('pre', 'prefix'), ('ver', 'version'), ('desc', 'descent')):
                if c['o'][k]:
                    o.append(['--' + n, c['o'][k]])
            if c['o']['auto']:
                o.append(['--auto_include'])
        else:
            a = ['-' + c['op'], self.path(self.w.at('product.json'))]
            if c['code']:
                o.append(['--index', c['code']])
        if c['procs'] != '0':
            o.append(['--processes', c['procs']])
        o = [a] + o
        self.rng.shuffle(o)
        return [x for y in o for x in y]

    def direct(self, c):
        """(function, arguments) of the same by a call"""
        import v8unpack
        n = {} if c['procs'] == '0' else dict(processes=int(c['procs']))
        if c['op'] in ('E', 'B'):
            f, s = self.path(self.w.bin(c['bin'])), self.path(self.w.src(c['src']))
            n.update(options=self.options(c['o'], True), index=self.idx(c['idx']))
            if c['temp']:
                n['temp_dir'] = self.path(self.w.at(c['temp']))
            return (v8unpack.extract, (f, s), n) if c['op'] == 'E' else (v8unpack.build, (s, f), n)
        return (v8unpack.extract_all if c['op'] == 'EA' else v8unpack.build_all, (self.path(self.w.at('product.json')), c['code'] or None), n)

    def run(self, c, mode):
        """(exit status, whether anything was said, numbers of processes asked for) of a run of the program in its folder"""
        seen, out = [], io.StringIO()
        if mode == 'process':
            env = dict(os.environ, PYTHONPATH=os.pathsep.join(x for x in sys.path if x), TMPDIR=self.w.at('tmp'), PYTHONIOENCODING='utf-8')
            try:
                p = subprocess.run([sys.executable, '-c', 'import sys, v8unpack; sys.exit(v8unpack.main())'] + self.command(c), cwd=self.w.root,
                                   env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120)
            except subprocess.TimeoutExpired:
                return 99, False, []
            return p.returncode, 'Ошибка' in p.stdout.decode('utf-8', 'replace'), []
        import v8unpack
        from v8unpack import helper
        if mode == 'cli':
            def go():
                argv, sys.argv = sys.argv, ['v8unpack'] + self.command(c)
                try:
                    with contextlib.redirect_stdout(out):
                        r = v8unpack.main()
                    return 0 if r is None else r
                finally:
                    sys.argv = argv
        else:
            fn, a, k = self.direct(c)

            def go():
                with contextlib.redirect_stdout(out):
                    fn(*a, **k)
                return 0
        cwd = os.getcwd()
        os.chdir(self.w.root)
        helper_, saved = objrun.inline(objrun.shuffler(self.rng))
        inner = helper.get_pool

        def get_pool(*a, **k):
            if k.get('pool') is None:
                seen.append(str(k.get('processes') or 0))
            return inner(*a, **k)
        helper.get_pool = get_pool
        tmp = set_tmp(self.w.at('tmp'))
        try:
            r = call(go)
        finally:
            set_tmp(tmp)
            os.chdir(cwd)
            for n, v in saved.items():
                setattr(helper_, n, v)
        if mode == 'api' and r[0] != 'ok':
            return (1 if r[1] != 'Timeout' else 99), True, seen
        return (r[1] if r[0] == 'ok' else 98), 'Ошибка' in out.getvalue(), seen

    def done(self, k):
        """a call carried out in the mirror, by absolute paths; True if it went well"""
        import v8unpack
        m, o = self.m, {n: v for n, v in (('prefix', k['o']['pre']), ('version', k['o']['ver'])) if v}
        o['auto_include'] = k['o']['auto']
        if k['o']['desc']:
            o['descent'] = int(k['o']['desc'])
        if k['prod']:
            o['product'] = k['prod']
        idx = self.w.at(k['idx'] + '.json') if k['idx'] and k['idx'] != 'empty' else None
        cwd = os.getcwd()
        os.chdir(self.w.root)       # what an index includes is told relative to it
        tmp = set_tmp(os.path.join(self.d, 'mtmp'))
        try:
            if k['op'] == 'E':
                keep = os.path.join(self.d, 'keep')
                shutil.copytree(m.at(k['src']), keep)
                r = objrun.run_inline(None, v8unpack.extract, m.bin(k['bin']), m.src(k['src']), index=idx, options=o)
                if r[0] != 'ok':
                    shutil.rmtree(m.at(k['src']))
                    shutil.copytree(keep, m.at(k['src']))
                shutil.rmtree(keep)
            else:
                f = os.path.join(self.d, 'new', os.path.basename(m.bin(k['bin'])))
                r = objrun.run_inline(None, v8unpack.build, m.src(k['src']), f, index=idx, options=o)
                if r[0] == 'ok':
                    shutil.copy(f, m.bin(k['bin']))
        finally:
            os.chdir(cwd)
            set_tmp(tmp)
        if r[0] != 'ok':
            self.said.append(str(r[1:])[-300:])
        return r[0] == 'ok'

    def live(self):
        for h in self.beh['hist']:
            if h['do'] == 'make':
                self.make(h['bins'])
            elif h['do'] == 'hurt':
                if h['b']:
                    self.hurt_bin(h['b'], h['st'])
                else:
                    self.hurt_src(h['s'], h['st'])
                self.ev('Hurt', b=h['b'], s=h['s'], st=h['st'])
            else:
                c, mode = h['c'], self.rng.choice(['cli'] * 4 + ['api'] * 2 + ['process'] * (self.rng.random() < .5))
                self.modes.append(c['op'] + ' ' + mode)
                for t in ('t1', 't2'):
                    shutil.rmtree(self.w.at(t), ignore_errors=True)
                    if self.rng.random() < .5:
                        write_tree(self.w.at(t), {'left': b'', 'encode_stage_3/Report/x/Report.json': b'{}'})
                left = {t for t in ('t1', 't2') if os.path.exists(self.w.at(t, 'left'))}
                code, said, seen = self.run(c, mode)
                res, n = [], 0
                for k in h['calls']:
                    ok = self.done(k)
                    res.append(dict(c=k, ok=ok))
                    if not ok:
                        break
                a, b = self.w.snap(), self.m.snap()
                temps = [t for t in ('t1', 't2') if os.path.isdir(self.w.at(t)) and any(x.endswith(('stage_0', 'stage_1', 'stage_3')) for x in os.listdir(self.w.at(t)))
                         and not os.path.exists(self.w.at(t, 'left'))]
                self.ev('Run', c=c, res=res, exit=code, said=said, differ=sorted(x for x in a if a[x] != b[x]), temps=temps,
                        procs=sorted(set(seen)), junk=sorted(os.listdir(self.w.at('tmp'))) != [])
                for s in a:
                    if isinstance(a[s], dict) and isinstance(b[s], dict) and a[s] != b[s]:
                        self.said.append([sorted((set(a[s]) | set(b[s]))-(set(a[s])&set(b[s])))[:6], [x for x in a[s] if x in b[s] and a[s][x] != b[s][x]][:6]])
                for s in self.srcs:   # sources nobody can answer for
                    if a[s] != b[s]:
                        shutil.rmtree(self.m.at(s))
                        shutil.copytree(self.w.at(s), self.m.at(s))
        shutil.rmtree(self.d, ignore_errors=True)


def set_tmp(d):
    import tempfile
    old, tempfile.tempdir = tempfile.tempdir, d
    return old


def features(b):
    """what happens in a behaviour, by kinds"""
    out, before = set(), None
    for h in b['hist']:
        if h['do'] == 'run':
            op, n, res = h['c']['op'], len(h['calls']), h['res']
            how = 'ok' if len(res) == n and all(res) and n else 'none' if not n else 'first' if len(res) == 1 and n > 1 else 'fails'
            out |= {(op, min(n, 3), how), (op, bool(h['c'].get('code')), b['list']['st'], how), (op, before)}
            for k, (x, ok, st) in enumerate(zip(h['calls'], res, h['st'])):
                out |= {(op, x['idx'], ok), (op, st, ok), (op, x['o']['desc'], x['o']['auto'], ok), (op, bool(x['temp']), ok), (op, k, x['o']['pre'], ok),
                        (op, x['o']['ver'], ok)}
                for y in h['calls'][k + 1:] if ok else ():      # one after another: nothing of the first is for the second
                    out |= {(op, f, y['o'][f] or 'x') for f in x['o'] if x['o'][f] != y['o'][f]} | {(op, x['src'] == y['src'], x['bin'] == y['bin'])}
            before = (op, how)
    return out


def various(behs, n):
    """n behaviours in which the rarest things happen as well"""
    seen, out, rest = {}, [], [(b, features(b)) for b in behs]
    while rest and len(out) < n:
        k = max(range(len(rest)), key=lambda k: sum(.3 ** seen.get(f, 0) for f in rest[k][1]))
        b, fs = rest.pop(k)
        out.append(b)
        for f in fs:
            seen[f] = seen.get(f, 0) + 1
    return out


def run(c):
    import v8unpack
    c.model('RunsMC', 'Runs', consts=c.n({}, dict(Indexes='{"", "torn"}', MaxRuns=2, Bins='{"b1"}')))
    res = c.tlc('RunsMC', 'RunsEmit', args=('-simulate', f'num={c.n(600, 3000)}', '-depth', '20', '-seed', str(c.seed * 5 + 2)))
    behs = res.prints
    rng = c.rng
    rng.shuffle(behs)
    behs = various(behs, c.n(55, 450))
    traces, modes = [], {}
    d = c.dir()
    pool = []
    for i in range(8):     # files that the index moves: those of the product itself (names of objects depend on the prefix)
        e = small(rng, rng.choice(['cf', 'cf', 'cfe']))
        f, s = os.path.join(d, f'{i}.bin'), os.path.join(d, f'{i}', 'src')
        with open(f, 'wb') as h:
            h.write(P.write_product(e[0]))
        r = objrun.run_inline(None, v8unpack.extract, f, s)
        pool.append((e, [x for x in sorted(tree(s)) if '/' not in x and not x.endswith('.json')] if r[0] == 'ok' else []))
    for k, b in enumerate(behs):
        three, names = rng.choice(pool)
        index = {}
        for n in rng.sample(names, min(4, len(names))):
            at = index
            for x in n.split('/')[:-1]:
                at = at.setdefault(x, {})
            at[n.split('/')[-1]] = f'core/{digest(n)[:6]}_{n.split("/")[-1]}'
        x = Life(c, b, k, dict(zip(('b1', 'b2', 'b3'), three)), index)
        x.live()
        for m in x.modes:
            modes[m] = modes.get(m, 0) + 1
        traces.append(dict(id=f'w{k}', events=x.events, about=dict(modes=x.modes, said=x.said, products=len(b['list']['products']))))
    c.extra['runs'] = modes
    for t in traces[-3:]:
        c.sample(t['about'])
    c.validate('RunsTrace', traces)
