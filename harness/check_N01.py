"""N01: the text of a module on its way to the sources and back."""
import os
import shutil

import objects as O
import objrun
import products as P
from modules import BOM, Module, blob_lines, code_of_form, lines_of, old_form
from vlib import call

BASES = {'cf': 'cf', 'cfe': 'cfe', 'epf803': 'epf803', 'epf802': 'epf802', 'erf': 'erf', 'cf802': 'cf', 'epf801': 'epf802'}
ROOT = dict(cf=['5', '6', '7', '0'], cfe=['5', '6', '7'], epf803=['0'], epf802=['0'], erf=['0'])
OLD = ('cf802', 'epf801', 'epf802')
VERSION = {'cf802': b'\xef\xbb\xbf{\r\n{216,0}\r\n}', 'epf801': b'\xef\xbb\xbf{\r\n{106,0}\r\n}'}


class Host:
    """a product with places for modules"""

    def __init__(self, c, base, order):
        self.c, self.rng, self.base, self.order = c, c.rng, base, order
        self.p = O.Product(BASES[base])
        if base in VERSION:
            self.p.rest['version'] = VERSION[base]
        self.gen = O.Gen(c.rng)
        self.at = {}                     # module -> (uuid | '' for the product itself, satellite)
        self.roots = list(ROOT[BASES[base]])
        c.rng.shuffle(self.roots)
        self.free = []                   # (object, slot) not used yet

    def where(self, m):
        id, slot = self.at[m]
        return f'{id or self.p.own}.{slot}'

    def place(self, m):
        r, p, cf = self.rng, self.p, BASES[self.base] in ('cf', 'cfe')
        if m.place in ('plain', 'old') and (m.place == 'old') == (self.base in OLD) and self.roots and (not cf or m.place == 'old' or r.random() < .3):
            self.at[m] = ('', self.roots.pop())
            v = self.wrap(m)
            p.rest[self.where(m)] = v
            return True
        if m.place == 'old' or (m.place == 'plain' and not cf):
            return False
        if m.place == 'plain':
            if self.free and r.random() < .6:
                o, slot = self.free.pop(r.randrange(len(self.free)))
            else:
                kind = r.choice([k for k in p.kinds if O.KINDS[k].get('code')])
                o = self.add(kind, '')
                if r.random() < .3:
                    inner = [k for k in O.KINDS[kind].get('subs', []) if O.inner(k)]
                    if inner:
                        o = self.add(r.choice(inner), o.id)
                slots = ['2'] if O.inner(o.kind) else list(O.KINDS[o.kind]['code'])
                r.shuffle(slots)
                slot = slots.pop()
                self.free += [(o, s) for s in slots]
            self.at[m] = (o.id, slot)
            o.sats[slot] = self.wrap(m)
            return True
        # forms
        up = ''
        if cf:
            kind = 'CommonForm' if m.place == 'quoted' and r.random() < .4 else 'Form'
            if kind == 'Form':
                up = self.add('DataProcessor', '').id
        else:
            kind = 'ReportForm' if self.base == 'erf' else 'Form'
        id, name = self.gen.uuid(), r.choice(O.WORDS) + str(len(p.objs))
        try:
            self.gen.borrow((False, 'Form'))
            pool = [x for x in O.Gen.POOL[(m.place == 'form' or (self.base in OLD and not cf), O.KINDS[kind].get('base') or kind)]
                    if isinstance(x[1].get('0'), dict) == (m.place == 'form')]
        except KeyError:
            pool = []
        if not pool:
            return False
        raw, sats = r.choice(pool)
        h, sats = P.brace_of(raw), dict(sats)
        for x in P.walk(h):
            if O.is_tuple(x):
                x[1][2], x[2] = id, f'"{name}"'
                break
        if m.place == 'form':
            sats['0'] = dict(sats['0'], module=m.raw(m.text) if m.blob is None else m.blob)
        else:
            v = P.brace_of(sats['0'])
            if r.random() < .4:
                v = old_form(r)
            elif v[0][0] in ('4', '3', '2'):
                v[0][0] = r.choice('432')
            code_of_form(v, m.text)
            sats['0'] = P.emit(v)
        self.p.add(O.Obj(id, kind, up, name, h, sats))
        self.at[m] = (id, '0')
        return True

    def add(self, kind, up):
        o = self.gen.obj(kind, up, self.rng.choice(O.WORDS) + str(len(self.p.objs)), BASES[self.base])
        self.p.add(o)
        return o

    def wrap(self, m):
        info = P.emit([['3', '1', '0', '""', '0']])
        if m.enc == 'image':
            return {'info': info, 'image': m.blob}
        data = m.blob if m.blob is not None else m.raw(m.text)
        return data if self.rng.random() < .25 else {'info': info, 'text': data}

    def stored(self, m, entries):
        v = entries.get(self.where(m))
        if v is None:
            return 'no entry', []
        if m.place != 'quoted':
            return m.stored(v)
        try:
            return 'utf8', lines_of(code_of_form(P.brace_of(v)))
        except (TypeError, IndexError, AttributeError):
            return 'unreadable', []


def find(src, modules):
    """module -> [(path, text or bytes)] of the files that contain it"""
    out = {m: [] for m in modules}
    by_mark = {m.mark: m for m in modules if m.blob is None}
    blobs = [m for m in modules if m.blob is not None]
    for root, dirs, files in os.walk(src):
        for n in sorted(files):
            if n.endswith('.json'):
                continue
            f = os.path.join(root, n)
            with open(f, 'rb') as h:
                data = h.read()
            for mark, m in by_mark.items():
                if mark.encode() in data:
                    out[m].append((f, data))
            for m in blobs:
                if m.token in data:
                    out[m].append((f, data))
    return out


def life(c, host, modules):
    import v8unpack
    d = c.dir()
    live = list(modules)
    f = os.path.join(d, 'in.bin')
    entries = host.p.entries()
    for m in live:
        e, l = host.stored(m, entries)
        m.events.append(dict(ev='Module', place=m.place, enc=e, lines=l))
    with open(f, 'wb') as h:
        h.write(P.write_product(entries))
    for k in range(max(len(m.rounds) for m in live)):
        if k:
            for m in live:
                m.events.append(dict(ev='Again'))
        src = os.path.join(d, f'src{k}')
        r = objrun.run_inline(host.order, v8unpack.extract, f, src)
        found = find(src, live) if r[0] == 'ok' else {}
        for m in live:
            for path, data in found.get(m, []):
                ext = path.rsplit('.', 1)[1]
                m.events.append(dict(ev='Source', file=ext, lines=blob_lines(data) if m.blob is not None else
                                     lines_of(data.decode('utf-8-sig', 'replace'))))
            m.events.append(dict(ev='Extracted', ok=r[0] == 'ok', why=str(r[1:])[:400] if r[0] != 'ok' else ''))
        if r[0] != 'ok':
            break
        for m in live:
            if k < len(m.rounds) and len(found[m]) == 1:
                for lines in m.rounds[k]:
                    t = m.make(lines, stored=False)
                    with open(found[m][0][0], 'wb') as h:
                        h.write(m.raw(t, c.rng.choice(['utf8', 'utf8', 'bom'])))
                    m.events.append(dict(ev='Edited', lines=lines_of(t)))
        f = os.path.join(d, f'out{k}.bin')
        r = objrun.run_inline(host.order, v8unpack.build, src, f)
        got, why = None, str(r[1:])[:400]
        if r[0] == 'ok':
            try:
                got = P.read_product(open(f, 'rb').read())
            except Exception as e:
                why = f'unreadable product: {e!r}'[:300]
        for m in live:
            e, l = host.stored(m, got) if got is not None else ('', [])
            m.events.append(dict(ev='Built', ok=got is not None, enc=e, lines=l, why='' if got is not None else why))
        if got is None:
            break
    shutil.rmtree(d, ignore_errors=True)


def run(c):
    rng, traces = c.rng, []
    c.model('ModulesMC', 'Modules', consts=dict(MaxEdits=c.n(1, 2)))
    r = c.tlc('ModulesMC', 'ModulesEmit', args=('-simulate', f'num={c.n(1500, 12000)}', '-depth', '14', '-seed', str(c.seed * 7 + 1)))
    by = {}
    for b in r.prints:
        by.setdefault((b['mod']['place'], b['mod']['enc']), []).append(b)
    mods = []
    for k, v in sorted(by.items()):
        mods += [Module(rng, b) for b in rng.sample(v, min(len(v), c.n(26, 200)))]
    rng.shuffle(mods)
    # those that live longer share products
    mods.sort(key=lambda m: len(m.rounds))
    k = 0
    used = {}
    while mods:
        base = list(BASES)[k % len(BASES)]
        host = Host(c, base, objrun.shuffler(rng))
        batch = [m for m in mods[:60] if len(host.at) < 10 and host.place(m)]
        k += 1
        if not batch:
            if k > 5000:
                raise RuntimeError('modules cannot be placed')
            continue
        taken = set(map(id, batch))
        mods = [m for m in mods if id(m) not in taken]
        life(c, host, batch)
        for m in batch:
            used[f'{base} {m.place} {m.enc}'] = used.get(f'{base} {m.place} {m.enc}', 0) + 1
            traces.append(dict(id=f'm{len(traces)}', events=m.events, about=dict(base=base, place=m.place, enc=m.enc, rounds=len(m.rounds),
                                                                              entry=host.at[m][1])))
    c.extra['modules'] = used
    for t in traces[-3:]:
        c.sample(t['about'])
    c.validate('ModulesTrace', traces)
