"""Managed forms: making them of the parts of sample forms, and reading them, without the code under test.
The layout: counters say how many values stand before the next one."""
import copy
import json

import products as P
from vlib import digest

TYPES = dict(Field='77ffcc29-7f2d-4223-b22f-19666e7250ba', Button='a9f3b1ac-f51b-431e-b102-55a69acdecad',
             Decoration='3d3cb80c-508b-41fa-8a18-680cdf5f1712', Group='cd5394d0-7dda-4b56-8927-93ccbe967a01',
             Table='143c00f7-a42d-4cd7-9189-88e4467dc768', ItemAddition='c5259a1d-518a-4afd-b98d-0176027e4feb')
TYPE_OF = {v: k for k, v in TYPES.items()}
NAME = dict(Field=[(3, 1), (1, 1), (2, 0)], Decoration=[(3, 1), (1, 1), (2, 0)], Group=[(3, 1), (1, 1), (2, 0)],
            Button=[(3, 1), (2, 0)], ItemAddition=[(3, 1), (1, 1), (2, 0)], Table=[(4, 1), (1, 0)])
LINK = dict(Field=[(3, 1), (1, 1), (7, 0)], Table=[(4, 1), (7, 0)], Button=[(3, 1), (5, 0)])
CHILDREN = dict(Group=[(3, 1), (1, 1), (17, 0)], Table=[(4, 1), (50, 2), (7, 0)])
ROOT = [(18, 2), (3, 1), (1, 0)]
CMD = '409b9a53-7f7e-4178-86c1-33176c7c7a7a'


def at(steps, raw):
    i = 0
    for a, size in steps:
        i += a
        if size:
            i += int(raw[i]) * size
    return i


def take(raw, i, size):
    """cuts the values counted at i out of raw"""
    n = int(raw[i])
    out = raw[i + 1:i + 1 + n * size]
    del raw[i + 1:i + 1 + n * size]
    raw[i] = '0'
    return out


def plain(v):
    """digest of a value, whatever way line ends and binary data are noted"""
    def flat(x):
        if isinstance(x, list):
            return [flat(y) for y in x]
        x = x.replace('\r', '').replace('\n', '')
        return x.lstrip('#') if x[:9].lstrip('#').startswith('base64:') else x
    return digest(json.dumps(flat(v), ensure_ascii=False))


class Pool:
    """parts of the forms of the samples"""
    one = None

    def __init__(self):
        self.els, self.forms, self.props, self.cols, self.cmds = {}, [], [], [], []
        for s in ('cf', 'epf803'):
            for k, v in sorted(P.sample(s).items()):
                if isinstance(v, bytes) and k.endswith('.0'):
                    b = P.brace_of(v)
                    if b and isinstance(b[0], list) and b[0][0] == '4' and len(b[0]) > 9 and isinstance(b[0][1], list):
                        self.form(b)

    def form(self, b):
        f = b[0]
        self.elements(take(f[1], at(ROOT, f[1]), 2))
        for p in take(f[3], 1, 1):
            self.cols += take(p, 13, 1)
            self.props.append(p)
        self.cmds += take(f[5], 1, 1)
        self.forms.append(b)

    def elements(self, flat):
        for t, raw in zip(flat[::2], flat[1::2]):
            t = TYPE_OF[t]
            if t in CHILDREN:
                self.elements(take(raw, at(CHILDREN[t], raw), 2))
            if isinstance(raw[1], list) and raw[1]:
                self.els.setdefault(t, []).append(raw)


def pool():
    Pool.one = Pool.one or Pool()
    return Pool.one


class Form:
    """A form of the specification made concrete, and back.  ids: of attributes, columns and commands -> in the product"""

    def __init__(self, rng, types, ids, area):
        self.rng, self.types, self.ids, self.area = rng, types, ids, area
        self.back = {v: k for k, v in ids.items()}
        self.parts = {}                           # n, or name -> digest of what is opaque

    def id(self, k):
        return self.ids[k]

    def name(self, e):
        return f'include_{self.area}' if e['a'] else f'{self.WORDS[e["n"] % len(self.WORDS)]}{e["n"]}'
    WORDS = ['Поле', 'Группа_', 'Страница', 'ab', 'Include', 'Шапка_include', 'Родитель', 'x_']

    def make(self, f):
        r, p = self.rng, pool()
        b = copy.deepcopy(r.choice(p.forms))
        form = b[0]
        form[2] = r.choice(['""', '"// код\n"', '"Процедура А()\nКонецПроцедуры"'])
        form[3][1:2] = [str(len(f['props']))] + [self.prop(x) for x in f['props']]
        form[5][1:2] = [str(len(f['cmds']))] + [self.command(x) for x in f['cmds']]
        els, i = f['els'], at(ROOT, form[1])
        form[1][i:i + 1] = self.list(els, 0, 1)
        if not f['known']:
            odd = [str(_uuid(r)), [str(r.randrange(30)), ['1', '0']]]
            if r.random() < .5:
                form[1][i] = str(int(form[1][i]) + 1)
                j = i + 1 + 2 * r.randrange(int(form[1][i]))
                form[1][j:j] = odd
            else:
                form[1][i + 1 + 2 * r.randrange(int(form[1][i]))] = odd[0]
        return b

    def list(self, els, start, depth):
        """[count, type, raw, ...] of the elements of this depth from start on"""
        out, n, i = [], 0, start
        while i < len(els) and els[i]['d'] >= depth:
            if els[i]['d'] == depth:
                out += self.element(els, i)
                n += 1
            i += 1
        return [str(n)] + out

    def element(self, els, i):
        e, r = els[i], self.rng
        t = 'ItemAddition' if e['t'] == 'Decoration' and r.random() < .3 else e['t']
        raw = copy.deepcopy(r.choice(pool().els[t]))
        raw[1] = [str(e['n'])] + raw[1][1:]
        raw[at(NAME[t], raw)] = f'"{self.name(e)}"'
        if t in ('Field', 'Table'):
            raw[at(LINK[t], raw)] = self.link(e['lk'])
        if t == 'Button':
            raw[at(LINK[t], raw)] = [self.id(e['cm']), CMD] if e['cm'] else r.choice([['0'], ['0', CMD]])
        if t in CHILDREN:
            j = at(CHILDREN[t], raw)
            raw[j:j + 1] = self.list(els, i + 1, e['d'] + 1)
        self.parts.setdefault(e['n'], set()).add(self.opaque(t, copy.deepcopy(raw)))
        return [TYPES[t], raw]

    def link(self, lk):
        return [str(len(lk))] + [self.odd() if k == 99 else [self.id(k)] for k in lk]

    def odd(self):
        return self.rng.choice([['-2'], ['0', _uuid(self.rng)], ['99'], ['0']])

    def prop(self, x):
        p = copy.deepcopy(self.rng.choice(pool().props))
        p[1] = [self.id(x['id'])]
        p[3] = f'"{x["n"]}"'
        p[5] = self.types[x['ty']]
        p[13:14] = [str(len(x['ch']))] + [self.column(c) for c in x['ch']]
        self.parts.setdefault(('p', x['n'], x['id']), set()).add(self.opaque_prop(copy.deepcopy(p)))
        return p

    def column(self, x):
        c = copy.deepcopy(self.rng.choice(pool().cols))
        c[1], c[3] = self.id(x['id']), f'"{x["n"]}"'
        return c

    def command(self, x):
        c = copy.deepcopy(self.rng.choice(pool().cmds))
        c[1], c[2] = [self.id(x['id']), CMD], f'"{x["n"]}"'
        self.parts.setdefault(('c', x['n'], x['id']), set()).add(plain(c))
        return c

    # -- what is not in the specification
    def opaque(self, t, raw):
        if t in CHILDREN:
            j = at(CHILDREN[t], raw)
            n = int(raw[j]) if str(raw[j]).isdigit() else 0
            raw[j:j + 1 + 2 * n] = ['*']
        raw[at(NAME[t], raw)] = '*'
        if t in LINK:
            j = at(LINK[t], raw)
            if t == 'Button':
                raw[j] = ['*'] + raw[j][1:] if raw[j][0] in self.back else raw[j]
            else:
                raw[j] = ['*' if isinstance(x, list) and len(x) == 1 and x[0] in self.back else x for x in raw[j]]
        return plain([t, raw])

    def opaque_prop(self, p):
        p[13:14 + int(p[13]) if str(p[13]).isdigit() else 14] = ['*']
        p[5] = '*'
        return plain(p)

    # -- reading: parts: what the forms were made of
    def read_link(self, v):
        return [self.back.get(x[0], 99) if isinstance(x, list) and len(x) == 1 else 99 for x in v[1:]]

    def read_el(self, t, raw, name, parts):
        raw = copy.deepcopy(raw)
        n = int(raw[1][0])
        a = name in (f'include_{self.area}', f'includr_{self.area}')
        good = self.opaque(t, copy.deepcopy(raw)) in parts.get(n, ()) and (
            a or name == self.name(dict(n=n, a=False))) and (raw[at(NAME[t], raw)] == f'"{name}"')
        lk, cm = [], 0
        if t in ('Field', 'Table'):
            v = raw[at(LINK[t], raw)]
            lk = self.read_link(v)
            good = good and v[0] == str(len(lk))
        if t == 'Button':
            v = raw[at(LINK[t], raw)]
            cm = self.back.get(v[0], 0)
            good = good and (not cm or v[1:] == [CMD])
        return dict(n=n if good else -n - 1, t='Decoration' if t == 'ItemAddition' else t, a=a, lk=lk, cm=cm)

    def read_type(self, v):
        for k, t in self.types.items():
            if t == v:
                return k
        return 'strange'

    def read_prop(self, p, cols, parts):
        x = dict(n=p[3][1:-1], id=self.back.get(p[1][0], 0), ty=self.read_type(p[5]),
                 ch=[dict(n=c[3][1:-1], id=self.back.get(c[1], 0)) for c in cols])
        if self.opaque_prop(copy.deepcopy(p)) not in parts.get(('p', x['n'], x['id']), ()):
            x['n'] += ' changed'
        return x

    def read_cmd(self, c, parts):
        x = dict(n=c[2][1:-1], id=self.back.get(c[1][0], 0))
        if plain(c) not in parts.get(('c', x['n'], x['id']), ()):
            x['n'] += ' changed'
        return x

    def read(self, b, parts):
        """the form in a product"""
        f = b[0]
        props = []
        for p in f[3][2:2 + int(f[3][1])]:
            props.append(self.read_prop(p, p[14:14 + int(p[13])], parts))
        if len(f[3]) < 2 + int(f[3][1]):
            raise ValueError('attributes')
        cmds = [self.read_cmd(c, parts) for c in f[5][2:2 + int(f[5][1])]]
        els = []

        def visit(raw, i, d):
            n = int(raw[i])
            for j in range(n):
                t, x = TYPE_OF[raw[i + 1 + 2 * j]], raw[i + 2 + 2 * j]
                els.append(dict(self.read_el(t, x, x[at(NAME[t], x)][1:-1], parts), d=d))
                if t in CHILDREN:
                    visit(x, at(CHILDREN[t], x), d + 1)
        visit(f[1], at(ROOT, f[1]), 1)
        return dict(els=els, props=props, cmds=cmds)

    def rest(self, b, known):
        b = copy.deepcopy(b)
        if known:
            f = b[0]
            for raw, i, size in ((f[1], at(ROOT, f[1]), 2), (f[3], 1, 1), (f[5], 1, 1)):
                n = int(raw[i])
                raw[i:i + 1 + n * size] = ['*']
        return plain(b)


def _uuid(rng):
    import uuid
    return str(uuid.UUID(int=rng.getrandbits(128), version=4))
