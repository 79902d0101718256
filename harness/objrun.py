"""Replaying behaviours of the Objects specification: a product is put together, extracted, its sources are worked on,
and built again; what came out is recorded for the trace specification."""
import base64
import copy
import hashlib
import json
import os
import re
import shutil

import objects as O
import products as P
from vlib import InlinePool, call, codes, digest

BSL = re.compile(r'\.bsl$')


def inline(order):
    """the code's pools of processes run in this process, in the order given; real ones if the code has no such place"""
    from v8unpack import helper
    pool = InlinePool(order)
    saved = {}
    for n, v in (('get_pool', lambda *a, **k: k.get('pool') or pool), ('Pool', lambda *a, **k: pool)):
        if hasattr(helper, n):
            saved[n] = getattr(helper, n)
            setattr(helper, n, v)
    return helper, saved


def run_inline(order, fn, *a, **k):
    helper, saved = inline(order)
    try:
        return call(fn, *a, **k)
    finally:
        for n, v in saved.items():
            setattr(helper, n, v)


def shuffler(rng):
    def order(idx):
        idx = list(idx)
        rng.shuffle(idx)
        return idx
    return order


ORDERS = dict(given=None, back=lambda x: list(x)[::-1])


class Case:
    """A behaviour of the specification made concrete"""

    def __init__(self, c, rng, beh, base=None):
        self.c, self.rng = c, rng
        self.gen = O.Gen(rng)
        self.base = base or rng.choice(['cf'] * 5 + ['cfe'] * 3 + ['epf803', 'epf802', 'erf'])
        self.p = O.Product(self.base)
        if rng.random() < .5 or self.base == 'epf802':
            self.p.furnish(rng, self.gen)
        self.stub = None
        if self.base == 'cf' and rng.random() < .25:
            self.stub = {k: v + b' ' * rng.randrange(3) if isinstance(v, bytes) else v
                         for k, v in P.stub().items() if k in ('root', 'version', 'versions') or rng.random() < .7}
            if rng.random() < .5:
                self.stub['копия.0'] = {'info': P.emit([['3', '1']]), 'text': '\ufeffА = 1;\r\n'.encode()}
        self.beh = beh
        self.auto = [s['auto'] for s in beh if s['a'] == 'extract'][0]
        self.ids = {0: ''}
        words = rng.sample(O.WORDS, len(O.WORDS))
        self.words = {}
        self.pool = words
        self.donors = 0
        self.events = []

    # -- names and kinds
    def word(self, codes_):
        k = tuple(codes_)
        if k not in self.words:
            self.words[k] = self.pool.pop() if self.pool else 'И' + '_'.join(map(str, k))
        return self.words[k]

    def fresh_name(self, up, kind, name):
        used = {o.name for o in self.p.objs.values() if o.up == up and o.kind == kind}
        while name in used:
            name += '1'
        return name

    def kind(self, abstract, up, p):
        rng, ks = self.rng, p.kinds
        if up and p.objs[up].kind == 'ExternalDataSource':
            return rng.choice(['ExternalDataSourceCube', 'ExternalDataSourceTable'])
        if up:
            subs = O.KINDS[p.objs[up].kind].get('subs', [])
            if abstract == 's':
                return 'Subsystem'
            a = [k for k in subs if O.inner(k) == (abstract == 'i')]
            return rng.choice(a or subs)
        if abstract == 's' and 'Subsystem' in ks:
            return 'Subsystem'
        c = [k for k in ks if any(O.inner(x) for x in O.KINDS[k].get('subs', []))]
        deep = [k for k in ks if O.KINDS[k]['role'] == 'container' and k != 'Subsystem' and k not in c
                and O.KINDS[k].get('subs')]
        plain = [k for k in ks if k not in c and k not in deep and k != 'Subsystem']
        if abstract in 'cs':
            return rng.choice(deep if deep and rng.random() < .12 else c or plain)
        return rng.choice(plain or ks)

    def new(self, abstract, up, name, p, ids):
        """adds to product p; None when the owner was left out or cannot own anything"""
        if up is None:
            return None
        if up and not O.KINDS[p.objs[up].kind].get('subs'):
            return None
        kind = self.kind(abstract, up, p)
        used = {o.name for o in p.objs.values() if o.up == up and o.kind == kind}
        while name in used:
            name += '1'
        o = self.gen.obj(kind, up, name, self.base)
        p.add(o)
        if kind in ('ExternalDataSourceCube', 'ExternalDataSourceTable'):
            for k in O.KINDS[kind]['subs']:
                if self.rng.random() < .4:
                    p.add(self.gen.obj(k, o.id, self.rng.choice(O.WORDS), self.base))
        return o.id

    def body_event(self, o, ev='Obj'):
        e = o.event(ev)
        e['body'] = self.body(o)
        return e

    def body(self, o):
        if self.auto and O.KINDS[o.kind]['role'] == 'form' and any(isinstance(v, dict) for v in o.sats.values()):
            # the tables of bindings of ordinary forms are written anew with auto_include
            o = O.Obj(o.id, o.kind, o.up, o.name, o.header,
                      {k: {n: x for n, x in v.items() if n != 'form'} if isinstance(v, dict) else v for k, v in o.sats.items()})
        return o.body()

    # -- making the product
    def make(self):
        for s in self.beh:
            if s['a'] == 'add':
                self.ids[s['id']] = self.new(s['kind'], self.ids.get(s['up']), self.word(s['name']), self.p, self.ids)
        for o in self.p.objs.values():
            self.events.append(self.body_event(o))
        self.events += O.rest_events('Rest', {k: v for k, v in self.p.entries().items() if k in self.p.rest}, self.p.root_id)
        self.events += O.rest_events('Rest', self.first(self.stub), '')

    def options(self):
        return {'auto_include': True} if self.auto else {}

    def extract(self, p, d, order=None):
        import v8unpack
        src = os.path.join(d, 'src')
        f = os.path.join(d, 'in.bin')
        with open(f, 'wb') as h:
            h.write(P.write_product(p.entries(), self.stub))
        r = run_inline(order, v8unpack.extract, f, src, options=self.options())
        return src, r

    def folder_events(self, src):
        ev = []
        for root, dirs, files in os.walk(src):
            rel = os.path.relpath(root, src)
            parts = [] if rel == '.' else rel.split(os.sep)
            if len(parts) >= 2 and len(parts) % 2 == 0 and all(k in O.KINDS for k in parts[::2]):
                ids = [f for f in files if f.endswith('.id.json')]
                if not ids:
                    continue
                try:
                    with open(os.path.join(root, ids[0]), encoding='utf-8') as h:
                        id = json.load(h)['uuid']
                except Exception:
                    id = 'unreadable'
                ev.append(dict(ev='Folder', path=[[k, codes(n)] for k, n in zip(parts[::2], parts[1::2])], id=id))
        return sorted(ev, key=lambda e: json.dumps(e['path']))

    def path(self, id):
        p = self.p.path(id)
        return [[k, codes(n)] for k, n in zip(p[::2], p[1::2])]

    # -- working on the sources
    def edit(self, src, d, order=None):
        ok = True
        for s in self.beh:
            if s['a'] in ('add', 'extract'):
                continue
            if s['a'] == 'put':
                up = self.ids.get(s['up'])
                if s['up'] != 0 and (up is None or up not in self.p.objs):
                    self.ids[s['id']] = None
                    continue
                self.put(src, d, s, up, order)
                continue
            id = self.ids.get(s['id'])
            if id is None or id not in self.p.objs:
                continue
            o = self.p.objs[id]
            folder = os.path.join(src, *self.p.path(id))
            path = self.path(id)
            if not os.path.isdir(folder):
                continue
            if s['a'] == 'drop':
                self.events.append(dict(ev='Drop', path=path))
                shutil.rmtree(folder)
                if self.rng.random() < .7 and not os.listdir(os.path.dirname(folder)):
                    os.rmdir(os.path.dirname(folder))
                for x in [x for x in self.p.objs if x == id or id in self.chain(x)]:
                    q = self.p.objs.pop(x)
                    self.p.lists[(q.up, q.kind)].remove(x)
            elif s['a'] == 'reid':
                new = self.gen.uuid()
                f = os.path.join(folder, f'{o.kind}.id.json')
                try:
                    with open(f, encoding='utf-8') as h:
                        data = json.load(h)
                    data['uuid'] = new
                    with open(f, 'w', encoding='utf-8') as h:
                        json.dump(data, h)
                except Exception:
                    continue
                self.p.objs = {new if k == id else k: v for k, v in self.p.objs.items()}
                self.p.lists = {(new if u == id else u, k): [new if x == id else x for x in l]
                                for (u, k), l in self.p.lists.items()}
                for q in self.p.objs.values():
                    if q.up == id:
                        q.up = new
                o.id = new
                for x in P.walk(o.header):
                    if O.is_tuple(x) and x[1][2] == id:
                        x[1][2] = new
                        break
                self.ids[s['new']] = new
                self.ids = {k: new if v == id else v for k, v in self.ids.items()}
                self.events.append(dict(ev='Reid', path=path, new=new, body=self.body(o)))
            elif s['a'] == 'edit':
                texts = {}
                for k, v in o.sats.items():
                    t = v.get('text') if isinstance(v, dict) else v
                    if (isinstance(v, dict) and 'text' not in v) or k not in (['2'] if O.inner(o.kind) else O.KINDS[o.kind].get('code', [])):
                        continue
                    texts[k] = t.decode('utf-8-sig').replace('\r\n', '\n')
                files = {}
                for f in sorted(os.listdir(folder)):
                    if BSL.search(f) and f.startswith(o.kind + '.'):
                        with open(os.path.join(folder, f), encoding='utf-8', newline='') as h:
                            files.setdefault(h.read(), []).append(f)
                for k, t in sorted(texts.items()):
                    if len(files.get(t, ())) == 1 and list(texts.values()).count(t) == 1:
                        new = t + '\n// %d изменено\n&НаСервере\n' % s['body']
                        with open(os.path.join(folder, files[t][0]), 'w', encoding='utf-8', newline='') as h:
                            h.write(new)
                        v = o.sats[k]
                        raw = v['text'] if isinstance(v, dict) else v
                        b = (b'\xef\xbb\xbf' if raw[:3] == b'\xef\xbb\xbf' else b'') + new.encode()
                        o.sats[k] = dict(v, text=b) if isinstance(v, dict) else b
                        self.events.append(dict(ev='Edit', path=path, body=self.body(o)))
                        break
        return ok

    def chain(self, id):
        out = []
        while id:
            out.append(id)
            id = self.p.objs[id].up
        return out

    def put(self, src, d, s, up, order):
        """a folder brought in from the sources of another product"""
        donor = O.Product(self.base)
        donor.rest.update({k: v for k, v in self.p.rest.items() if k in ('version', 'configinfo')})
        top = ''
        for id in reversed(self.chain(up) if up else []):
            o = self.gen.obj(self.p.objs[id].kind, top, 'Д%d' % len(donor.objs), self.base)
            donor.add(o)
            top = o.id
        self.donors += 1
        name = self.word(s['name'])
        id = self.new(s['kind'], top, name, donor, {})
        if id is None:
            self.ids[s['id']] = None
            return
        o = donor.objs[id]
        o.name = self.fresh_name(up or '', o.kind, name)
        if o.name != name:
            for x in P.walk(o.header):
                if O.is_tuple(x):
                    x[2] = f'"{o.name}"'
                    break
        for k in s['kids']:
            self.new(k, id, self.rng.choice(O.WORDS), donor, {})
        dd = os.path.join(d, f'donor{self.donors}')
        os.mkdir(dd)
        dsrc, r = self.extract(donor, dd, order)
        where = os.path.join(dsrc, *donor.path(id))
        if r[0] != 'ok' or not os.path.isdir(where):
            self.ids[s['id']] = None
            self.events.append(dict(ev='Extracted', ok=False, why='donor ' + str(r)[:300]))
            return
        dest = os.path.join(src, *(self.p.path(up) if up else []), o.kind)
        os.makedirs(dest, exist_ok=True)
        shutil.copytree(where, os.path.join(dest, o.name))
        objs = [x for x in donor.objs.values() if x.id == id or self.under(donor, x.id, id)]
        o.up = up or ''
        for x in objs:
            self.p.add(x)
        self.ids[s['id']] = id
        self.events.append(dict(ev='Put', objs=[self.body_event(x) for x in objs]))

    @staticmethod
    def under(p, x, top):
        while x:
            if x == top:
                return True
            x = p.objs[x].up
        return False

    # -- building
    def build(self, src, d, order=None, name='out.bin'):
        import v8unpack
        f = os.path.join(d, name)
        r = run_inline(order, v8unpack.build, src, f, options=self.options())
        return f, r

    def read(self, f):
        return P.read_both(open(f, 'rb').read())[1]

    def first(self, stub):
        return {'first container/' + k: v for k, v in (stub or {}).items()}

    def read_all(self, f):
        stub, out = P.read_both(open(f, 'rb').read())
        return {**self.first(stub), **out}

    def out_events(self, f, r):
        ev = []
        if r[0] == 'ok':
            try:
                stub, b = P.read_both(open(f, 'rb').read())
            except Exception as e:
                return [dict(ev='Built', ok=False, why=f'unreadable product: {e!r}'[:300])]
            lists, objs, stray = O.read_back(b, self.p.root_id, self.p.rest)
            for e, o in objs:
                e['body'] = self.body(o)
                ev.append(e)
            ev += lists
            ev += O.rest_events('RestOut', {k: v for k, v in b.items() if k in self.p.rest}, self.p.root_id)
            ev += O.rest_events('RestOut', self.first(stub), '')
            ev += [dict(ev='Stray', name=x) for x in stray]
        ev.append(dict(ev='Built', ok=r[0] == 'ok', why=str(r[1:])[:400]))
        return ev

    def manifest_events(self, f, r):
        if r[0] != 'ok':
            return [dict(ev='Built', ok=False, why=str(r[1:])[:400])]
        try:
            return self.manifest(f)
        except Exception as e:
            return [dict(ev='Built', ok=False, why=f'unreadable product: {e!r}'[:300])]

    def manifest(self, f):
        ev = []
        _, raw = P.read_raw(open(f, 'rb').read())
        b = self.read(f)
        listed, count = [], -1
        if self.base == 'cfe':
            m = P.brace_of(b.get('configinfo', b''))
            if m and len(m) == 3:
                listed = [(x.strip('"'), y) for x, y in zip(m[2][1::2], m[2][2::2])]
                count = int(m[2][0])
            for n, d in raw.items():
                if n != 'configinfo':
                    ev.append(dict(ev='Entry', name=n, sum=base64.b64encode(hashlib.sha1(d).digest()).decode()))
        else:
            m = P.brace_of(b.get('versions', b''))
            if m:
                m = m[0]
                count = int(m[1])
                listed = [(x.strip('"'), 'id' if P.UUID.fullmatch(y) else 'bad') for x, y in zip(m[2::2], m[3::2])]
            for n in [''] + list(raw):
                ev.append(dict(ev='Entry', name=n, sum='id'))
        ev += [dict(ev='Listed', name=n, sum=s_) for n, s_ in listed]
        ev.append(dict(ev='Manifest', count=count))
        return ev

    # -- the sources say the same after they were built and extracted again
    def source_events(self, src, f, d):
        import v8unpack
        again = os.path.join(d, 'again')
        r = run_inline(None, v8unpack.extract, f, again, options=self.options())
        if r[0] != 'ok':
            return [dict(ev='Extracted', ok=False, why='again ' + str(r[1:])[:300])]
        # ordinary forms are renumbered by the first build with auto_include
        skip = tuple(os.path.join(*self.p.path(o.id)) + os.sep for o in self.p.objs.values()
                     if O.KINDS[o.kind]['role'] == 'form' and any(isinstance(v, dict) for v in o.sats.values()))
        a, b = ([e for e in self.sources(x) if not (e[0].startswith(skip) and e[0].endswith('.json') and '.id.' not in e[0])]
                for x in (src, again))
        return [dict(ev='Src', name=n, sum=v) for n, v in a] + [dict(ev='SrcAgain', name=n, sum=v) for n, v in b] + [
            dict(ev='Sources', why=str(sorted(set(a) ^ set(b)))[:300])]

    @staticmethod
    def sources(top):
        kinds = {v['uuid']: k for k, v in O.KINDS.items()}

        def plain(v):
            if isinstance(v, list):
                if len(v) == 2 and v[1] == '0' and isinstance(v[0], str) and v[0] in kinds:
                    return kinds[v[0]]  # no objects of this kind: listed so before the first one is added
                return [plain(x) for x in v]
            return {k: plain(x) for k, x in v.items() if k not in ('versions', 'configinfo')} if isinstance(v, dict) else v
        out = []
        for root, dirs, files in os.walk(top):
            for n in files:
                with open(os.path.join(root, n), 'rb') as h:
                    data = h.read()
                if n.endswith('.json'):
                    try:
                        data = json.dumps(plain(json.loads(data)), sort_keys=True).encode()
                    except ValueError:
                        pass
                out.append((os.path.relpath(os.path.join(root, n), top), digest(data)))
        return sorted(out)

    def about(self):
        return dict(base=self.base, auto=self.auto, two=bool(self.stub), kinds=sorted({o.kind for o in self.p.objs.values()}),
                    steps=[s['a'] for s in self.beh if s['a'] != 'add'])


def behaviours(c, sizes, cfg='ObjectsEmit'):
    """sizes: (objects, edits, how many)"""
    out = []
    for n, e, num in sizes:
        r = c.tlc('ObjectsMC', cfg, consts=dict(MaxObjs=n, MaxEdits=e),
                  args=('-simulate', f'num={num}', '-depth', str(n + e + 3), '-seed', str(c.seed * 31 + n * 7 + e)))
        out += c.rng.sample(r.prints, min(num, len(r.prints)))
    c.rng.shuffle(out)
    return out
