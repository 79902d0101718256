"""I01: index files are updated from sources and put together from several; what they say is what is done."""
import contextlib
import io
import json
import os
import shutil
import sys

import check_K01
import objrun
import products as P
from vlib import call, digest, tree, write_tree

AREAS = 'Области include'
ROOTS = ['core', 'base/Форма 1', '../shared', 'core2', 'a.b/src2', 'cmd/общее']


def variants(c, base):
    """two products with the same files: (data, {file: comparable content}) of both"""
    import v8unpack
    d = c.dir()
    f, out = os.path.join(d, 'x.bin'), []
    with open(f, 'wb') as h:
        h.write(P.write_product(check_K01.small(c.rng, base, area='Часть')[0]))
    for n in 'pq':
        s = os.path.join(d, n, 'src')
        if objrun.run_inline(None, v8unpack.extract, f, s)[0] != 'ok':
            return None
        for r, _, fs in os.walk(s):
            for x in fs:
                x = os.path.join(r, x)
                with open(x, 'rb') as h:
                    t = h.read()
                if x.endswith('.bsl'):
                    t += f'// {n}\n'.encode()
                elif x.endswith('.json'):
                    try:
                        v = json.loads(t)
                        if isinstance(v.get('comment'), str):
                            v['comment'] = 'это ' + n
                            t = json.dumps(v, ensure_ascii=False, indent=2).encode()
                    except ValueError:
                        pass
                with open(x, 'wb') as h:
                    h.write(t)
        g, s2 = os.path.join(d, n + '.bin'), os.path.join(d, n + '2', 'src')
        if objrun.run_inline(None, v8unpack.build, s, g)[0] != 'ok' or objrun.run_inline(None, v8unpack.extract, g, s2)[0] != 'ok':
            return None
        with open(g, 'rb') as h:
            out.append((h.read(), contents(s2)))
    shutil.rmtree(d)
    return out if set(out[0][1]) == set(out[1][1]) else None


def contents(d):
    return {k: check_K01.source(k, v) for k, v in tree(d).items() if v is not None}


class Life:
    def __init__(self, c, beh, pair):
        self.c, self.rng, self.beh = c, c.rng, beh
        self.d = c.dir()
        self.versioned = beh['v'] >= 0
        self.number = self.rng.choice([3, 75, 4100200, 3000075100]) if self.versioned else None
        self.root = os.path.join(self.d, 'u', 'root')
        self.src = os.path.join(self.root, 'src', 'conf') if self.versioned else os.path.join(self.root, 'src')
        self.roots = dict(zip('abc', self.rng.sample(ROOTS, 3)))
        self.data, self.says = dict(zip('pq', (x[0] for x in pair))), dict(zip('pq', (x[1] for x in pair)))
        self.files = sorted(self.says['p'])
        self.vary = [f for f in self.files if self.says['p'][f] != self.says['q'][f]]
        dirs = {}
        for f in self.files:
            dirs.setdefault(os.path.dirname(f), []).append(f)
        for x in dirs.values():
            self.rng.shuffle(x)
            x.sort(key=lambda f: f not in self.vary)
        at = [x for x in dirs if x]
        self.rng.shuffle(at)
        at.sort(key=lambda x: -min(3, len(dirs[x])))
        self.dirs = dict(zip(['', 'A', 'B', 'C'], [''] + at))
        self.names = {(k, n): os.path.basename(f) for k, v in self.dirs.items() for n, f in zip('xyz', dirs.get(v, []))}
        self.order = objrun.shuffler(self.rng)
        self.events, self.modes, self.said = [], [], []
        self.index = dict(main=os.path.join(self.root, self.rng.choice(['index.json', 'cmd/index.json'])),
                          s=os.path.join(self.root, 'sub', 'index.json'), t=os.path.join(self.root, 'т.json'))
        for k in 's', 't':
            write_tree(self.root, {os.path.relpath(self.index[k], self.root): b'{}'})
        os.makedirs(os.path.dirname(self.index['main']), exist_ok=True)
        if self.rng.random() < .5:
            with open(self.index['main'], 'w') as h:
                h.write('{}')
        os.makedirs(self.src)
        for n, v in self.data.items():
            with open(os.path.join(self.d, n + '.bin'), 'wb') as h:
                h.write(v)

    # -- between names of the specification and files
    def target(self, root, d, n):
        return os.path.normpath('/'.join(x for x in (self.roots[root], d, n) if x))

    def split(self, f):
        return [os.path.dirname(f), os.path.basename(f)]

    def path(self, p):
        return self.rng.choice([p, os.path.relpath(p, self.root)])

    def listing(self):
        out = []
        for p, data in sorted(tree(os.path.join(self.d, 'u')).items()):
            full = os.path.join(self.d, 'u', p)
            if data is None or full in self.index.values() or full == os.path.join(self.root, 'products.json'):
                continue
            if full.startswith(self.src + os.sep):
                f = os.path.relpath(full, self.src)
                d, n = self.split(f)
                v = 0
                if self.versioned and f'.{self.number}.' in n:
                    n, v = n.replace(f'.{self.number}.', '.'), self.beh['v']
                place = ['src', d, n, v]
            else:
                place = ['?', p, '', 0]
                for k, r in self.roots.items():
                    r = os.path.normpath(os.path.join(self.root, r))
                    if full.startswith(r + os.sep) and os.path.relpath(full, r) in self.says['p']:
                        d, n = self.split(os.path.relpath(full, r))
                        place = ['out', k + ':' + d, n, 0]
                        break
            out.append(place + [self.content('/'.join(x for x in (place[1].split(':')[-1], place[2]) if x), data)])
        return out

    def content(self, f, data):
        x = check_K01.source(f, data)
        return next((n for n in 'pq' if self.says[n].get(f) == x), '?')

    def read_index(self, k):
        """([[dir, name, value]], included, areas) of an index file"""
        try:
            with open(self.index[k], encoding='utf-8') as h:
                v = json.load(h)
            back = {os.path.normpath(os.path.join(self.root, x)): k for k, x in self.index.items()}
            inc = [back.get(os.path.normpath(os.path.join(self.root, x)), '?') for x in v.pop('index.json', [])]
            areas = json.dumps(v.pop(AREAS), sort_keys=True, ensure_ascii=False) if AREAS in v else ''
            out = []

            def go(v, d):
                for n, x in v.items():
                    if isinstance(x, dict):
                        go(x, '/'.join(y for y in (d, n) if y))
                    else:
                        t = 'stay' if x in ('', None) else next((r for r in self.roots if isinstance(x, str) and
                            os.path.normpath(x) == self.target(r, d, '' if n == '*' else n)), f'?{x}')
                        out.append([d, n, t])
            go(v, '')
            return out, inc, areas
        except (OSError, ValueError, AttributeError, TypeError) as e:
            return [['?', '?', str(e)[:80]]], [], ''

    def write(self, h):
        r, v, f = self.rng, {}, []
        for d, n, t in h['f']:
            if d not in self.dirs or (n != '*' and (d, n) not in self.names):
                continue
            d, n = self.dirs[d], n if n == '*' else self.names[d, n]
            f.append([d, n, t])
        r.shuffle(f)
        for d, n, t in f:
            node = v
            for x in d.split('/') if d else []:
                node = node.setdefault(x, {})
            node[n] = r.choice(['', None]) if t == 'stay' else self.target(t, d, '' if n == '*' else n)
        special, areas = {}, ''
        if h['k'] == 'main' and (h['inc'] or r.random() < .2):
            special['index.json'] = [self.path(self.index[x]) for x in h['inc']]
        if r.random() < .2:
            special[AREAS] = {'нет_такой': f'другая{r.randrange(9)}'}
            areas = json.dumps(special[AREAS], sort_keys=True, ensure_ascii=False)
        v = dict(r.sample(list(v.items()) + list(special.items()), len(v) + len(special)))
        with open(self.index[h['k']], 'w', encoding='utf-8') as x:
            json.dump(v, x, ensure_ascii=False, indent=r.choice([None, 2]))
        self.ev('Write', k=h['k'], f=f, inc=h['inc'] if h['k'] == 'main' else [], areas=areas)

    # -- runs
    def go(self, fn, *a, **k):
        """in the root of the repository, single process"""
        cwd = os.getcwd()
        os.chdir(self.root)
        try:
            return objrun.run_inline(self.order, fn, *a, **k)
        finally:
            os.chdir(cwd)

    def cli(self, *a):
        import v8unpack

        def go():
            argv, sys.argv = sys.argv, ['v8unpack'] + list(a)
            try:
                if v8unpack.main():
                    raise Exception('status')
            finally:
                sys.argv = argv
        return self.go(go)

    def used(self):
        return self.path(self.index['main']) if os.path.exists(self.index['main']) else None

    def ev(self, ev, **k):
        before = getattr(self, 'texts', {})
        self.texts = {n: open(p, 'rb').read() if os.path.exists(p) else None for n, p in self.index.items()}
        touched = [n for n in self.texts if n != k.get('k') and n in before and before[n] != self.texts[n]]
        self.events.append(dict(ev=ev, **k, **({} if ev == 'World' else dict(files=self.listing(), touched=touched))))

    def update(self, h):
        import v8unpack
        mode, k = self.rng.choice(['api', 'cli', 'list']), h['k']
        core = self.roots[h['core']] if h['core'] else ''
        f, src = self.path(self.index[k]), self.path(self.src)
        if mode == 'api':
            r = self.go(v8unpack.update_index, src, f, *([core] if core else self.rng.choice([[], [None], ['']])))
        elif mode == 'cli':
            r = self.cli('-I', src, '--index', f, *(['--core', core] if core else []))
        else:
            y, off = self.rng.choice([None, 'y']), self.rng.random() < .4    # one asked for by its code may be disabled
            write_tree(self.root, {'products.json': json.dumps({'x': dict(src='nowhere', index='nowhere.json', disable=True),
                                                                'y': dict(src=src, bin='y.cf', index=f, **(dict(disable=True) if y and off else {}))},
                                                               ensure_ascii=False).encode()})
            if core and self.rng.random() < .5:
                r = self.go(v8unpack.update_index_all, 'products.json', y, core)
            else:
                r = self.cli('-IA', 'products.json', *(['--core', core] if core else []), *(['--index', 'y'] if y else []))
        self.note(r)
        es, inc, areas = self.read_index(k)
        self.modes.append('update ' + mode)
        self.ev('Update', k=k, core=h['core'], ok=r[0] == 'ok', f=es, inc=inc if k == 'main' else [], areas=areas)

    def note(self, r):
        if r[0] != 'ok':
            self.said.append(str(r[1:])[-250:])

    def extract(self, n):
        import v8unpack
        f, i = os.path.join(self.d, n + '.bin'), self.used()
        if self.rng.random() < .5:
            r = self.cli('-E', f, self.src, *(['--index', i] if i else []), *(['--descent', str(self.number)] if self.versioned else []))
        else:
            r = self.go(v8unpack.extract, f, self.src, index=i, options=dict(descent=self.number) if self.versioned else None)
        self.note(r)
        self.modes.append('extract')
        self.ev('Extract', c=n, ok=r[0] == 'ok')

    def build(self):
        import v8unpack
        f, i, built = os.path.join(self.d, 'new.bin'), self.used(), []
        r = self.go(v8unpack.build, self.src, f, index=i, options=dict(descent=self.number) if self.versioned else None)
        self.note(r)
        if r[0] == 'ok':
            s = os.path.join(self.d, 'new', 'src')
            r = self.go(v8unpack.extract, f, s)
            if r[0] == 'ok':
                built = [self.split(x) + [next((n for n in 'pq' if self.says[n].get(x) == v), '?')] for x, v in sorted(contents(s).items())]
            shutil.rmtree(os.path.join(self.d, 'new'), ignore_errors=True)
        self.modes.append('build')
        self.ev('Build', ok=r[0] == 'ok', built=built)

    def wrong(self):
        """an update that cannot be done: is told, the index stays"""
        import v8unpack
        how = self.rng.choice(['torn', 'list', 'nowhere'] if os.listdir(self.src) else ['torn', 'nowhere'])
        f, src = os.path.join(self.d, 'w.json'), self.src
        text = dict(torn=b'{"a": "b"', list=b'["a"]', nowhere=b'{"a": "b"}')[how]
        with open(f, 'wb') as h:
            h.write(text)
        if how == 'nowhere':
            src += '_нет'
        r = self.go(v8unpack.update_index, src, f, 'core') if self.rng.random() < .5 else self.cli('-I', src, '--index', f)
        with open(f, 'rb') as h:
            same = h.read() == text
        self.modes.append('wrong ' + how)
        self.ev('Wrong', ok=r[0] == 'ok' or not same, how=how)

    def live(self):
        self.ev('World', v=self.beh['v'], all=[self.split(f) for f in self.files], vary=[self.split(f) for f in self.vary])
        for h in self.beh['hist']:
            if h['do'] == 'write':
                self.write(h)
            elif h['do'] == 'update':
                self.update(h)
            elif h['do'] == 'extract':
                self.extract(h['c'][0])
            elif h['do'] == 'build':
                self.build()
            elif h['do'] == 'remove' and (h['d'], h['n']) in self.names:
                d, n = self.dirs[h['d']], self.names[h['d'], h['n']]
                for x in os.listdir(os.path.join(self.src, d)) if os.path.isdir(os.path.join(self.src, d)) else []:
                    if x == n or (self.versioned and x.replace(f'.{self.number}.', '.') == n):
                        os.remove(os.path.join(self.src, d, x))
                self.ev('Remove', d=d, n=n)
            if self.rng.random() < .05:
                self.wrong()
        if self.modes[-1:] == ['extract']:
            self.build()
        shutil.rmtree(self.d, ignore_errors=True)


def run(c):
    c.model('IndexMC', 'Index', consts=c.n({}, dict(MaxOps=5)))
    c.model('IndexMC', 'Index', consts=dict(Versioned='FALSE', Subs='{"s", "t"}', MaxOps=c.n(3, 4)))
    pairs = [x for x in (variants(c, b) for b in ['cf', 'cf', 'cfe', 'cf'] * c.n(1, 4)) if x]
    traces, modes = [], {}
    for v in c.n((0, 1), (0, 1, 2, 3)):
        res = c.tlc('IndexMC', 'IndexEmit', consts={} if v % 2 else dict(Versioned='FALSE'),
                    args=('-simulate', f'num={c.n(45, 300)}', '-depth', '20', '-seed', str(c.seed * 5 + v)))
        for b in res.prints[:c.n(45, 300)]:
            x = Life(c, b, c.rng.choice(pairs))
            x.live()
            for m in x.modes:
                modes[m] = modes.get(m, 0) + 1
            traces.append(dict(id=f'i{len(traces)}', events=x.events, about=dict(modes=x.modes, roots=x.roots, number=x.number, said=x.said)))
    c.extra['runs'] = modes
    for t in traces[-3:]:
        c.sample(t['about'])
    c.validate('IndexTrace', traces)
