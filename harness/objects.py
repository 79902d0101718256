"""Products composed of objects: generating them, reading them back, and the folders they are extracted to."""
import re
import copy
import json
import os
import uuid as _uuid

import products as P
from vlib import codes, digest

HERE = os.path.dirname(os.path.abspath(__file__))
KINDS = json.load(open(os.path.join(HERE, 'kinds.json'), encoding='utf-8'))
BY_UUID = {k['uuid']: n for n, k in KINDS.items()}
# types of elements of forms
ORDINARY = [b'381ed624-9217-4e63-85db-c4c3cb87daae', b'6ff79819-710e-4145-97cd-1618da79e3e2', b'09ccdc77-ea1a-4a6d-ab1c-3435eada2433',
            b'0fc7e20d-f241-460c-bdf4-5ad88e5474a5', b'e69bf21d-97b2-4f37-86db-675aea9ec2cb', b'ea83fe3a-ac3c-4cce-8045-3dddf35b28b1']
MANAGED = [b'77ffcc29-7f2d-4223-b22f-19666e7250ba', b'a9f3b1ac-f51b-431e-b102-55a69acdecad', b'3d3cb80c-508b-41fa-8a18-680cdf5f1712',
           b'cd5394d0-7dda-4b56-8927-93ccbe967a01', b'143c00f7-a42d-4cd7-9189-88e4467dc768', b'c5259a1d-518a-4afd-b98d-0176027e4feb']
BASES = ('cf', 'cfe', 'epf803', 'epf802', 'erf')
SPECIAL = ('root', 'version', 'versions', 'copyinfo', 'configinfo')
ROOTFILE = dict(cf='Configuration', cfe='ConfigurationExtension', epf803='ExternalDataProcessor',
                epf802='ExternalDataProcessor', erf='ExternalDataProcessor')


def inner(kind):
    return KINDS[kind]['role'] == 'inner'


def slots(v):
    """(kind, list) of every include list of a known kind in a header"""
    for x in P.walk(v):
        if isinstance(x, list) and len(x) >= 2 and isinstance(x[0], str) and x[0] in BY_UUID and isinstance(x[1], str) \
                and x[1].isdigit() and len(x) == 2 + int(x[1]):
            yield BY_UUID[x[0]], x


def get(v, path):
    for i in path:
        v = v[i]
    return v


def ident(kind, value):
    """uuid and name of the header of an object of this kind"""
    if kind == 'AccountingRegister' and int(value[0][1][0]) <= 21:
        h = value[0][1][15][1]                    # older layout
    else:
        h = get(value, KINDS[kind]['h'])
    return h[1][2], h[2][1:-1]


class Obj:
    def __init__(self, id, kind, up, name, header, sats):
        self.id, self.kind, self.up, self.name, self.header, self.sats = id, kind, up, name, header, sats

    def body(self):
        h = copy.deepcopy(self.header)
        for _, s in list(slots(h)):
            s[1:] = ['*']
        return digest(json.dumps([h, {k: P.canon(v) for k, v in sorted(self.sats.items())}], ensure_ascii=False,
                                 sort_keys=True))

    def event(self, ev='Obj'):
        return dict(ev=ev, id=self.id, kind=self.kind, up=self.up, name=codes(self.name), body=self.body(),
                    inner=inner(self.kind))


class Product:
    """base: sample the root comes from; objs: {uuid: Obj}; lists: {(up, kind): [uuid]}"""

    def __init__(self, base):
        self.base = base
        src = P.sample(base)
        if base == 'cfe':
            self.root_id = P.brace_of(src['configinfo'])[1][1]
        else:
            self.root_id = P.brace_of(src['root'])[0][1]
        self.header = P.brace_of(src[self.root_id])
        own = [h for h in P.walk(self.header) if is_tuple(h)]
        own = own[0][1][2]
        self.own = own
        self.kinds = []
        for k, s in slots(self.header):
            s[1:] = ['0']
            self.kinds.append(k)
        self.rest = {k: v for k, v in src.items()
                     if k in SPECIAL or k == self.root_id or k.startswith((own + '.', self.root_id + '.'))}
        self.objs, self.lists = {}, {}

    def furnish(self, rng, gen):
        """what a product of its own may have besides its objects; what another version of the platform writes"""
        put = lambda n, v: self.rest.update({f'{self.own}.{n}': v})
        if self.base == 'epf802':
            self.rest['version'] = rng.choice([b'\xef\xbb\xbf{\r\n{216,0}\r\n}'] + [P.emit([[['216', '0', [n]]]]) for n in '12'])
            return
        number, platform = str(rng.choice([216, 217, 218, 223, 300])), '803' + str(rng.randrange(10, 28))
        if self.base == 'cfe':
            c = P.brace_of(self.rest['configinfo'])
            c[0][1][0], c[0][1][2][0] = number, platform
            self.rest['configinfo'] = P.emit(c)
        else:
            c = P.brace_of(self.rest['version'])
            c[0][0][0], c[0][0][2][0] = number, platform
            self.rest['version'] = P.emit(c)
        for n in dict(cf=['4', '8', '9', '10', 'a', 'b', 'c', 'd', 'e', 'f'], cfe=['a', '8', '9']).get(self.base, ['1']):
            if rng.random() < .5:
                put(n, P.emit([[gen.scalar(), gen.token(), [gen.uuid(), gen.scalar()]]]))
        for n in dict(cf='0567', cfe='567').get(self.base, '0'):
            if rng.random() < .4:
                put(n, gen.module())
        if self.base == 'cf' and rng.random() < .5:
            put('2', P.emit([['1', ['0', '0', '-1', '-1'], [['#base64:' + 'QUJD' * rng.randrange(1, 40)]]]]))

    def add(self, obj):
        self.objs[obj.id] = obj
        self.lists.setdefault((obj.up, obj.kind), []).append(obj.id)

    def filled(self, header, up):
        h = copy.deepcopy(header)
        for kind, s in list(slots(h)):
            ids = self.lists.get((up, kind), [])
            s[1:] = [str(len(ids))] + [self.filled(self.objs[i].header, i) if inner(kind) else i for i in ids]
        return h

    def entries(self):
        out = dict(self.rest)
        out[self.root_id] = P.emit(self.filled(self.header, ''))
        for o in self.objs.values():
            if not inner(o.kind):
                out[o.id] = P.emit(self.filled(o.header, o.id))
            for s, d in o.sats.items():
                out[f'{o.id}.{s}'] = d
        return out

    def path(self, id):
        p = []
        while id:
            o = self.objs[id]
            p = [o.kind, o.name] + p
            id = o.up
        return p


def is_tuple(h):
    return isinstance(h, list) and len(h) > 3 and isinstance(h[1], list) and len(h[1]) == 3 \
        and isinstance(h[1][2], str) and P.UUID.fullmatch(h[1][2]) and isinstance(h[2], str) and h[2][:1] == '"'


def rest_events(ev, entries, root_id, skip=('versions',)):
    out = []
    for k in sorted(entries):
        if k in skip:
            continue
        v = entries[k]
        if k == root_id:
            h = P.brace_of(v)
            if h is None:
                out.append(dict(ev=ev, name=k, body='unreadable'))
                continue
            for _, s in list(slots(h)):
                s[1:] = ['*']
            c = h
        elif k == 'configinfo':
            b = P.brace_of(v)
            c = b and b[:2]
        else:
            c = P.canon(v)
        out.append(dict(ev=ev, name=k, body=digest(json.dumps(c, ensure_ascii=False, sort_keys=True))))
    return out


def read_back(entries, root_id, rest):
    """(list events, object events, stray entry names) of a built product"""
    lists, objs, seen = [], [], set(rest) | {root_id}

    def visit(header, up, depth):
        if depth > 6:
            return
        for kind, s in list(slots(header)):
            ids = []
            for x in s[2:]:
                if isinstance(x, list):
                    try:
                        id, name = ident(kind, x)
                    except (IndexError, TypeError, ValueError):
                        id, name = 'unreadable', ''
                    if not inner(kind) or not isinstance(id, str):
                        id = 'inline'
                    value = x
                else:
                    id, name = x, ''
                    value = None
                    if id in entries and not isinstance(entries[id], dict):
                        value = P.brace_of(entries[id])
                        try:
                            u, name = ident(kind, value)
                        except (IndexError, TypeError, ValueError):
                            u, name = 'unreadable', ''
                        if u != id:
                            id = f'{id} says {u}'
                ids.append(id)
                if value is not None and isinstance(id, str):
                    seen.add(id)
                    sats = {k[len(id) + 1:]: v for k, v in entries.items() if k.startswith(id + '.')}
                    seen.update(f'{id}.{k}' for k in sats)
                    o = Obj(id, kind, up, name, value, sats)
                    objs.append((o.event('Out'), o))
                    visit(value, id, depth + 1)
            lists.append(dict(ev='List', up=up, kind=kind, ids=ids))

    root = P.brace_of(entries[root_id]) if root_id in entries else None
    if root is not None:
        visit(root, '', 0)
    return lists, objs, sorted(set(entries) - seen)


# ---- generating ----
WORDS = ['Товары', 'Склад', 'Форма', 'Form', 'Catalog', 'А', 'а1', 'Ё', 'Z', 'z', '_', 'Цены1', 'Цены11', 'Цены2', 'x_y',
         'Отчет', 'СправочникДляОбъектов', 'id', 'Template', 'é', 'Объект10', 'Объект9', 'include_a', 'ЯЯ', 'я', 'Configuration']
TEXTS = ['Процедура А()\n\t// тест\nКонецПроцедуры\n', '', ' ', 'A = "{1,2}";', '#Область О\nА();\n#КонецОбласти\n',
         '\n\n', '// v8unpack &НаСервере\nФ', 'б = "строка\n|вторая";\n', '&НаКлиенте\nПроцедура Б()\nКонецПроцедуры',
         '\tТаб', 'ё№«»€', 'x' * 3000, '// https://x\n#Если Сервер Тогда\n#КонецЕсли\n']


class Gen:
    big = 0             # how often a help is too big to be taken apart

    def __init__(self, rng):
        self.rng = rng
        self.pool = None

    def uuid(self):
        return str(_uuid.UUID(int=self.rng.getrandbits(128), version=4))

    def token(self, deep=2):
        r = self.rng.random()
        if r < .45:
            return str(self.rng.randrange(0, 3000))
        if r < .55:
            return self.uuid()
        if r < .65:
            return '"%s"' % self.rng.choice(['', 'a', 'текст', 'с ""кавычкой""', '{1,2}', 'a,b', 'стр\nстр', '}', '#base64:QQ=='])
        if r < .7:
            return self.rng.choice(['-1', '""', '20200101000000', '1e5', 'да'])
        if deep:
            return [self.token(deep - 1) for _ in range(self.rng.randrange(1, 4))]
        return '0'

    def scalar(self):
        return self.token(0)

    def tuple_(self, id, name):
        r = self.rng
        loc = []
        for l in r.sample(['"ru"', '"en"', '"uk"'], r.randrange(0, 3)):
            loc += [l, '"%s"' % r.choice(['Имя', '', 'Имя ""в"" кавычках', 'a {b}', 'Длинное имя, с запятой'])]
        return ['3', ['1', '0', id], f'"{name}"', [str(len(loc) // 2)] + loc,
                '"%s"' % r.choice(['', 'Комментарий', 'a ""b""', 'ver', 'три слова тут', 'a\nb']), '0', '0',
                '00000000-0000-0000-0000-000000000000', '0']

    def header(self, kind, id, name):
        k = KINDS[kind]
        v = self.tuple_(id, name)
        h = k['h'][1:] if k['role'] != 'inner' else k['h'][1:]
        for depth, i in reversed(list(enumerate(h))):
            if depth == 0:
                break
            v = [self.token() for _ in range(i)] + [v] + [self.token() for _ in range(self.rng.randrange(0, 3))]
            if depth == 1:
                while len(v) < 10:
                    v.append(self.token())
                for j in (0, 1, 2, 7, 8):
                    if j != i:
                        v[j] = self.uuid()
                v[0] = str(self.rng.choice([22, 23, 30, 56]))
                if kind == 'AccountingRegister' and self.rng.random() < .5:
                    # older versions keep the name one position earlier
                    t = v[16]
                    v[15], v[16] = t, self.scalar()
                    v[0] = str(self.rng.choice([1, 20, 21]))
        if not isinstance(v, list):
            raise AssertionError(kind)
        if k['role'] == 'inner':
            return [[self.scalar(), v], '0'] if self.rng.random() < .7 else [[self.scalar(), v]]
        sl = [[KINDS[c]['uuid'], '0'] for c in k.get('subs', [])]
        for _ in range(self.rng.randrange(0, 3)):
            sl.append([self.uuid(), '0'])
        if k['role'] == 'container' and self.rng.random() < .4:
            n = self.rng.randrange(1, 3)
            sl.append([self.uuid(), str(n)] + [[self.token()] for _ in range(n)])
        self.rng.shuffle(sl)
        return [['1', v, str(len(sl))] + sl]

    def module(self):
        r = self.rng
        t = ''.join(r.choice(TEXTS) for _ in range(r.randrange(1, 3)))
        nl = r.choice(['\r\n', '\r\n', '\n'])
        data = t.replace('\n', nl).encode('utf-8')
        if r.random() < .8:
            data = b'\xef\xbb\xbf' + data
        if r.random() < .75:
            return {'info': P.emit([['3', '1', '0', '""', '0']]), 'text': data}
        return data

    def sats(self, kind):
        k, r = KINDS[kind], self.rng
        out = {}
        codes_ = ['2'] if k['role'] == 'inner' else k.get('code', [])
        for c in codes_:
            if r.random() < .6:
                out[c] = self.module()
        if 'help' in k and r.random() < .5:
            big = self.big and r.random() < self.big       # too big to be taken apart
            out[k['help']] = P.emit([['5', '1', '"ru"', ['#base64:' + 'QUJD' * (260000 if big else r.randrange(1, 5))], '0']])
        for c in k.get('bin', []):
            if r.random() < .7:
                out[c] = r.choice([b'\xef\xbb\xbf{1,2}', bytes(range(256)), b'{3,"a"}', b'a\r\nb', '{8,{"#"}}'.encode()])
        for c in k.get('brace', []):
            if r.random() < .7:
                out[c] = P.emit([['2', self.token(), ['1', self.uuid()]]])
        for c in k.get('dir', []):
            if r.random() < .7:
                out[c] = {'%d' % i: bytes([i, 255, 13, 10]) * 3 for i in range(r.randrange(1, 3))}
        return out

    def borrow(self, group):
        """(header, satellites) of a sample object: forms by layout of header, templates, pictures"""
        if Gen.POOL is None:
            Gen.POOL = {}
            for s in ('cf', 'epf803', 'epf802', 'erf'):
                a = P.sample(s)
                for e in sorted(a):
                    v = P.brace_of(a[e]) if not isinstance(a[e], dict) else None
                    for kind, sl in (slots(v) if v else ()):
                        role = KINDS[kind]['role']
                        if role not in ('form', 'template', 'picture'):
                            continue
                        for id in sl[2:]:
                            sats = {k[len(id) + 1:]: d for k, d in a.items() if k.startswith(id + '.')}
                            if any(b'includ' in x for d in sats.values() for x in (d.values() if isinstance(d, dict) else [d])):
                                continue
                            g = KINDS[kind].get('base') or kind
                            Gen.POOL.setdefault((s == 'epf802', g), []).append((a[id], sats))
        return self.rng.choice(Gen.POOL[group])

    POOL = None

    def stranger(self, form, types):
        """one element of a type the program does not know: the form is kept as it is"""
        at = [m.start() for m in re.finditer(b'|'.join(types), form)]
        if not at or self.rng.random() > .2:
            return form
        i = self.rng.choice(at)
        return form[:i] + self.uuid().encode() + form[i + 36:]

    def obj(self, kind, up, name, base):
        id = self.uuid()
        k = KINDS[kind]
        if k['role'] in ('form', 'template', 'picture'):
            old = base == 'epf802' and k['role'] == 'form'
            raw, sats = self.borrow((old, k.get('base') or kind))
            h = P.brace_of(raw)
            sats = dict(sats)
            for x in P.walk(h):
                if is_tuple(x):
                    x[1][2] = id
                    x[2] = f'"{name}"'
                    break
            if k['role'] == 'form':                     # help of the form; a form that has nothing of its own
                v = next(x for x in P.walk(h) if isinstance(x, list) and len(x) > 3 and x[0] in ('9', '12', '13', '14')
                         and isinstance(x[1], list) and x[3] in ('0', '1'))
                v[0] = self.rng.choice(['9', '12', '13', '14'])
                if v[3] == '0' and self.rng.random() < .3:
                    v[0] = self.rng.choice('57')
                    del v[3:]
                elif v[3] == '1' and self.rng.random() < .15:      # a layout the program does not know
                    t = lambda n: [self.scalar() for _ in range(n)]
                    sats['0'] = P.emit([['1', *t(3), [*t(4), [self.rng.choice(['22', '1', '2']), *t(self.rng.randrange(6, 14)), '1', '0']]]])
                if self.rng.random() < .3:
                    sats['1'] = P.emit([[self.scalar() for _ in range(self.rng.randrange(1, 5))]])
                if isinstance(sats.get('0'), dict):
                    sats['0'] = dict(sats['0'], form=self.stranger(sats['0']['form'], ORDINARY))
                elif '0' in sats:
                    sats['0'] = self.stranger(sats['0'], MANAGED)
                if self.rng.random() < .15:
                    sats.pop('0', None)
        else:
            h, sats = self.header(kind, id, name), self.sats(kind)
        return Obj(id, kind, up, name, h, sats)
