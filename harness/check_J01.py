"""J01: what the options of extraction and building change, and that they change nothing else."""
import copy
import json
import os
import shutil

import objects as O
import objrun
import products as P
from vlib import codes, digest

BASES = dict(cf=['cf'], cfe=['cfe'], epf=['epf803', 'epf802', 'erf'])
PREFIXES = ['саби_', 'Пр', 'x', 'А', 'ZZ_9', 'Форма']
WORDS = ['Товары', 'Склад', 'ПриПр', 'пр', 'X', 'x1', 'Цены', 'саби', 'Catalog', 'Форма1', 'А', 'Яблоко_саби_']
TEXTS = {2: ['1.0.3', '2.0', 'сборка 7', '3.0 '], 3: ['old:1.0', '', 'x ver:y', ' 5'], 4: ['9 ', ' 2', '2 8', '7']}
COMMENTS = ['', 'Комментарий', 'a ""b""', 'ver', 'Ver: нет', 've r:']
PRODUCTS = ['saby', 'ERP_25', 'Бух3']
VERSIONS = ['80306', '80316', '80321']


def tuple_of(kind, value):
    return value[0][1][15][1] if kind == 'AccountingRegister' and int(value[0][1][0]) <= 21 else O.get(value, O.KINDS[kind]['h'])


class Life:
    def __init__(self, c, beh):
        self.c, self.rng = c, c.rng
        r = self.rng
        f = beh['first']
        self.kind, self.base = f['kind'], r.choice(BASES[f['kind']])
        self.p, self.gen = O.Product(self.base), O.Gen(r)
        self.prefix, self.good, self.v = r.choice(PREFIXES), r.choice(PRODUCTS), r.choice(VERSIONS)
        self.ops, self.no, self.events, self.opts = beh['ops'], 0, [], []
        self.marks = {}                                 # id -> (number, carries, dp)
        self.texts = {k: r.choice(v) for k, v in TEXTS.items()}
        p = self.p
        self.root(f)
        top = [k for k in p.kinds if k != 'DataProcessor' and O.KINDS[k]['role'] != 'inner']
        objs = [(o['top'], o['own'], o['dp'], o['name'], o['note']) for o in f['objs']]
        for t, own, dp, name, note in objs:
            for _ in range(r.choice([1, 1, 2])):
                self.object(top, t, own, dp, name, note)
        self.entries = p.entries()

    def word(self, t):
        self.no += 1
        n = sum(1 for x in t if x == 1)
        return self.prefix * n + self.rng.choice(WORDS) + f'_{self.no}'

    def note(self, t):
        if 9 in t:
            return self.rng.choice(['', 'Обработка ', 'a, ']) + 'ver:' + self.rng.choice(TEXTS[3])
        return self.rng.choice(COMMENTS)

    def text(self, t):
        out, i = '', 0
        for x in t:
            out += self.good if x == 7 else '_' if x == 8 else self.texts[x]
        return out

    def fields(self, h):
        """places of a root header: compatibility, prefix, version, tuple"""
        d = h[0][3][1][1]
        i = dict(cf=26, cfe=43).get(self.kind)
        return d, i, h[0][3][1][1][3][1] if self.kind == 'epf' else d[1][1]

    def root(self, f):
        d, i, t = self.fields(self.p.header)
        t[4] = f'"{self.note(f["note"])}"'
        if self.rng.random() < .4:
            t[2] = f'"{self.prefix}{t[2][1:-1]}"'
        if self.kind == 'cfe':
            d[15] = f'"{self.text(f["ver"])}"'
            d[42] = '"%s"' % self.rng.choice(['', 'Расш1_', self.prefix])

    def object(self, top, t, own, dp, name, note):
        r, p = self.rng, self.p
        if t:
            kind, up = ('DataProcessor' if dp else r.choice(top)), ''
        else:
            ups = [(o.id, s) for o in p.objs.values() for s, _ in O.slots(o.header)]
            if not ups:
                return
            up, kind = r.choice(ups)
        w = self.word(name)
        o = self.gen.obj(kind, up, w, self.base)
        h = tuple_of(kind, o.header)
        if len(h) > 5:
            h[5] = '0' if own else r.choice(['1', '1', '2'])
        elif not own:
            return
        h[4] = f'"{self.note(note)}"'
        p.add(o)
        self.marks[o.id] = (len(self.marks) + 1, t and own, bool(dp))

    # -- what a product says
    def state(self, entries):
        v = P.brace_of(entries[self.p.root_id])
        d, i, t = self.fields(v)
        return dict(compat=d[i] if i else '', pre=codes(d[42][1:-1]) if self.kind == 'cfe' else [],
                    vertext=codes(d[15][1:-1]) if self.kind == 'cfe' else [], note=codes(t[4][1:-1]))

    def rest(self, entries):
        out = {}
        for k, v in entries.items():
            if k == 'versions':
                continue
            if k == 'configinfo':
                b = P.brace_of(v)
                out[k] = b and b[:2]
            elif k == self.p.root_id:
                h = P.brace_of(v)
                d, i, t = self.fields(h)
                t[4] = '*'
                if i:
                    d[i] = '*'
                if self.kind == 'cfe':
                    d[15] = d[42] = '*'
                out[k] = h
            elif k in self.marks and (self.marks[k][1] or self.marks[k][2]):
                h = P.brace_of(v)
                try:
                    t = tuple_of(self.p.objs[k].kind, h)
                    if self.marks[k][1]:
                        t[2] = '*'
                    if self.marks[k][2]:
                        t[4] = '*'
                except (TypeError, IndexError, ValueError):
                    pass
                out[k] = h
            else:
                out[k] = P.canon(v)
        return digest(json.dumps(out, ensure_ascii=False, sort_keys=True))

    def objects(self, entries):
        _, objs, _ = O.read_back(entries, self.p.root_id, self.p.rest)
        for _, o in objs:
            if o.id in self.marks:
                yield o.id, o.name, tuple_of(o.kind, o.header)[4][1:-1]

    def ev(self, ev, **k):
        self.events.append(dict(ev=ev, **k))

    def product_events(self):
        e = P.read_product(P.write_product(self.entries))
        self.ev('Product', kind=self.kind, rest=self.rest(e), **self.state(e))
        for id, o in self.p.objs.items():
            n, _, dp = self.marks[id]
            self.ev('Obj', id=n, name=codes(o.name), top=o.up == '', own=self.owned(o), dp=dp,
                    note=codes(tuple_of(o.kind, o.header)[4][1:-1]))

    @staticmethod
    def owned(o):
        h = tuple_of(o.kind, o.header)
        return len(h) < 6 or h[5] == '0'

    def source_events(self, src):
        got = {}
        for dir, _, names in os.walk(src):
            for n in names:
                if n.endswith('.id.json'):
                    try:
                        id = json.load(open(os.path.join(dir, n), encoding='utf-8'))['uuid']
                        head = json.load(open(os.path.join(dir, n[:-8] + '.json'), encoding='utf-8'))
                    except (ValueError, KeyError, OSError):
                        continue
                    if id in self.marks:
                        got[id] = (head.get('name'), os.path.basename(dir))
        for id, (name, folder) in got.items():
            self.ev('SrcObj', id=self.marks[id][0], name=codes(str(name)), folder=codes(folder))
        f = os.path.join(src, 'version.bin')
        try:
            t = open(f, encoding='utf-8', newline='').read() if os.path.exists(f) else None
        except ValueError:
            t = 'unreadable'
        try:
            root = json.load(open(os.path.join(src, O.ROOTFILE[self.base] + '.json'), encoding='utf-8'))
        except (OSError, ValueError):
            root = {}
        self.ev('Src', ids=len(got), compat=str(root.get('compatibility_version', '')),
                file={'is': t is not None, 't': codes(t or '')})

    def out_events(self, f):
        e = P.read_product(open(f, 'rb').read())
        objs = list(self.objects(e))
        self.ev('Out', ids=len(objs), rest=self.rest(e), **self.state(e))
        for id, name, note in objs:
            self.ev('OutObj', id=self.marks[id][0], name=codes(name), note=codes(note))

    def options(self, op):
        o = {}
        if op['pre']:
            o['prefix'] = self.prefix
        if op['v']:
            o['version'] = self.rng.choice([self.v, int(self.v)])
        return o

    def call(self, fn, *a, **k):
        opts = k.get('options')
        keep = copy.deepcopy(opts)
        r = objrun.run_inline(objrun.shuffler(self.rng), fn, *a, **k)
        self.ev('Same', what='options-left-alone', ok=opts == keep)
        return r

    def run(self):
        import v8unpack
        d = self.c.dir()
        f, src, n = os.path.join(d, 'in.bin'), None, 0
        with open(f, 'wb') as h:
            h.write(P.write_product(self.entries))
        self.product_events()
        opts = {}
        for op in self.ops:
            n += 1
            v, pre = self.v if op['v'] else '', codes(self.prefix) if op['pre'] else []
            if op['do'] == 'extract':
                src = os.path.join(d, f'src{n}')
                self.ev('Extract', v=v, pre=pre)
                if self.rng.random() < .3:
                    lst = os.path.join(d, 'products.json')
                    with open(lst, 'w', encoding='utf-8') as h:
                        json.dump({'а': dict(src=src, bin=f, options=self.options(op)), 'b': dict(src='/nonexistent', bin='', disable=True)}, h)
                    r = self.call(v8unpack.extract_all, lst, self.rng.choice([None, 'а']))
                else:
                    r = self.call(v8unpack.extract, f, src, options=self.options(op))
                self.ev('Extracted', ok=r[0] == 'ok', why=str(r[1:])[:900])
                if r[0] != 'ok':
                    break
                self.source_events(src)
            elif op['do'] == 'release':
                t = self.text(op['t'])
                with open(os.path.join(src, 'version.bin'), 'w', encoding='utf-8') as h:
                    h.write(t)
                self.ev('Release', t=codes(t))
            else:
                out = self.rng.choice(['out.epf', 'Обработка.cf', 'a b.bin'])
                f = os.path.join(d, f'o{n}', out)
                os.makedirs(os.path.dirname(f))
                g = self.good if op['g'] else ''
                o = self.options(op)
                self.ev('Build', v=v, pre=pre, g=codes(g), out=codes(out))
                if g and self.rng.random() < .5:
                    lst = os.path.join(d, 'products.json')
                    with open(lst, 'w', encoding='utf-8') as h:
                        json.dump({g: dict(src=src, bin=f, options=o, disable=self.rng.random() < .5)}, h)
                    r = self.call(v8unpack.build_all, lst, g)
                else:
                    if g:
                        o['product'] = g
                    r = self.call(v8unpack.build, src, f, options=o)
                ok, why = r[0] == 'ok', str(r[1:])[:900]
                mark = len(self.events)
                if ok:
                    try:
                        self.out_events(f)
                    except Exception as e:
                        del self.events[mark:]
                        ok, why = False, f'unreadable product: {e!r}'[:300]
                self.ev('Built', ok=ok, why='' if ok else why)
                if not ok:
                    break
        shutil.rmtree(d, ignore_errors=True)


def usable(b):
    """the names of the product stay apart, and there is something to see"""
    return any(o['do'] == 'build' for o in b['ops'])


def run(c):
    traces = []
    c.model('OptionsMC', 'Options', consts=dict(MaxSteps=c.n(4, 5)))
    r = c.tlc('OptionsMC', 'OptionsEmit', args=('-simulate', f'num={c.n(1500, 9000)}', '-depth', '9', '-seed', str(c.seed * 3 + 1)))
    behs = [b for b in r.prints if usable(b)]
    by = {}
    for b in behs:
        by.setdefault(b['first']['kind'], []).append(b)
    n = c.n(38, 330)
    pick = [b for k, v in sorted(by.items()) for b in c.rng.sample(v, min(len(v), n))]
    for k, b in enumerate(pick):
        life = Life(c, b)
        life.run()
        about = dict(base=life.base, prefix=life.prefix, product=life.good, version=life.v, steps=[o['do'] for o in b['ops']],
                     objects=len(life.p.objs))
        traces.append(dict(id=f'o{k}', events=life.events, about=about))
    for t in traces[-3:]:
        c.sample(t['about'])
    c.validate('OptionsTrace', traces)
