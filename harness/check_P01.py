"""P01: ordinary forms: pages, elements, anchors and attributes between the product and the sources."""
import copy
import json
import os
import shutil

import check_O01
import objects as O
import objrun
import ordforms as F
import products as P
from vlib import codes

# forms of these kinds become ordinary ones by the type told in their header
PLACES = [('Document', 'DocumentForm'), ('DataProcessor', 'Form'), ('Catalog', 'CatalogForm'), ('', 'CommonForm'), ('Enum', 'EnumForm'),
          ('Report', 'ReportForm'), ('DocumentJournal', 'DocumentJournalForm'), ('AccumulationRegister', 'AccumulationRegisterForm')]


def ordinary(h):
    """the type of the form told in its header"""
    for x in P.walk(h):
        if len(x) > 3 and isinstance(x[1], list) and O.is_tuple(x[1]) and x[3] in ('0', '1'):
            x[3] = '0'
            return True
    return False


class Life(check_O01.Life):
    def __init__(self, c, beh, no):
        super().__init__(c, beh, no)
        r = self.rng
        self.props = {n: f'{w}{n}' for n, w in zip((1, 2, 3), r.sample(['Реквизит', 'Товар', 'Ё', 'x', 'Поле', 'а_', 'Объект'], 3))}
        for f in beh['fm']:
            for e in f['els']:
                e['at'].sort(key=lambda a: (a['s'], a['k']))
                e['by'].sort(key=lambda b: b['l'])

    def place(self, p, gen, host, base):
        r = self.rng
        while True:
            owner, kind = r.choice(PLACES) if base == 'cf' else ('', 'Form')
            o = gen.obj(kind, '', f'Форма{self.no}', base)
            if ordinary(o.header) or isinstance(o.sats.get('0'), dict):
                break
        if owner:
            h = gen.obj(owner, '', f'Владелец{self.no}', base)
            p.add(h)
            o.up = h.id
        p.add(o)
        return o

    def prepare(self, ps, gen, bases, plain):
        r, fm = self.rng, self.beh['fm']
        self.plain = plain
        names = F.Names(r, self.area)
        self.version = r.choice(['27', '27', '27', '26'])
        self.o = [self.place(ps[k], gen, '', bases[k]) for k in (0, 1)]
        self.forms = [F.Form(r, names, self.props, self.ids) for _ in (0, 1)]
        raws = [f.make(fm[k], self.version) for k, f in enumerate(self.forms)]
        F.together(self.forms)
        for k, (f, raw) in enumerate(zip(self.forms, raws)):
            text = P.emit(raw)
            module = f'// модуль {self.no} {k}\r\nПроцедура А()\r\nКонецПроцедуры\r\n'.encode('utf-8-sig')
            self.o[k].sats = {'0': dict(form=text, module=module)}
            self.ev('Form', k=k + 1, f=fm[k], plain=plain, rest=f.rest(P.brace_of(text), fm[k]['known'] and not plain))

    def src_event(self, k, s):
        f, els = self.forms[k], []
        nodes = s.nodes()
        for j, n in enumerate(nodes):
            n['up'] = next((m for m in reversed(nodes[:j]) if m['d'] == n['d'] - 1), None)
            n['panel'] = n['up'] and n['up']['up']
        used = 0
        for n in nodes:
            d, x = n['data'].get(n['key']), n['x']
            e = dict(f.BAD, d=n['d'], t=x.get('type', ''), bn=0)
            els.append({a: v for a, v in e.items() if a not in ('id', 'lk')})
            if d is None:
                continue
            used += 1
            e = els[-1]
            if x['type'] == 'Page':
                no, _ = f.page_no(d['raw'], d.get('info'))
                good = f.known(no, F.sha([d['raw'], d.get('info')])) and x['name'] == f.names.of.get(no)
                e.update(n=no, t='page' if good else 'changed page', a=bool(n.get('area')))
                continue
            no = f.by_name(x['name'])
            kind = 'Panel' if d['raw'][0] == F.PANEL else F.TYPES.get(d['raw'][0])
            good = kind == x['type'] and (kind == 'Panel' or f.known(no, f.el_sha(d['raw']))) and f.all_kind.get(no) == d['raw'][0]
            e.update(n=no, t='changed element' if not good else 'panel' if kind == 'Panel' else 'el', a=bool(n.get('area')),
                     bn=next((i for i, v in self.props.items() if v == d.get('prop')), -1) if d.get('prop') else 0)
            ref = self.reader(f, n, nodes)
            e.update(at=f.read_sides(d['raw'][-3], ref), by=f.read_by(d['raw'][-3], ref))
        for data in (s.m['data'], s.a['data'] if s.a else {}):
            used += sum(1 for key in data if key.split('/')[-1] == '-pages-')
        if used != len(s.m['data']) + len(s.a['data'] if s.a else ()):
            els.append(dict(d=1, n=-2, t='data of no element', a=False, bn=0, at=[], by=[]))
        self.ev('Src', k=k + 1, els=els, props=[f.read_prop(x['raw']) for x in s.m['props'] or []])

    @staticmethod
    def rel(n):
        """the name of an element as other elements of its panel write it"""
        page = n['up']['x']['name']
        page = 'include_' + page[8:] if page.startswith('includr_') else page
        return page + '/' + n['x']['name']

    def reader(self, f, n, nodes):
        peers = {self.rel(m): m for m in nodes if m['x']['type'] != 'Page' and m['up'] and m['panel'] is n['panel']}

        def ref(v):
            if v == '0':
                return 0
            m = peers.get(v.lstrip('/'))
            return -7 if m is None else f.by_name(m['x']['name'])
        return ref

    def linked(self, s):
        nodes = s.nodes()
        for j, n in enumerate(nodes):
            n['up'] = next((m for m in reversed(nodes[:j]) if m['d'] == n['d'] - 1), None)
            n['panel'] = n['up'] and n['up']['up']
        return nodes

    def rename(self, n, nodes, new):
        """others (and itself) refer to the element by its new name"""
        for m in nodes:
            if m['x']['type'] == 'Page' or m['panel'] is not n['panel']:
                continue
            pos = m['data'][m['key']]['raw'][-3]
            for s in range(6):
                for k in (1, 2):
                    pos[6 + s][k][1] = new.get(pos[6 + s][k][1].lstrip('/'), pos[6 + s][k][1])
            o = 12
            for _ in range(4):
                for x in pos[o + 1:o + 1 + int(pos[o])]:
                    x[1] = new.get(x[1].lstrip('/'), x[1])
                o += 1 + int(pos[o])

    def edit(self, o, srcs):
        op, i, g = o['op'], o['i'], o['g']
        self.ev('Edit', op=op, i=i, g=g)
        s, d = srcs[1], srcs[0]
        s.load()
        if op == 'drop':
            s.cut(s.nodes()[i - 1])
        elif op == 'move' or op == 'el':
            src = s if op == 'move' else d
            ns = self.linked(s)
            ds = ns if op == 'move' else self.linked(src)
            n = ds[i - 1]
            to = ns[g - 1] if g else n['up'] if op == 'move' else None
            page = n['x']['type'] == 'Page'
            moved = [n] if not page else [m for m in ds if m['up'] is n]
            old = [self.rel(m) for m in moved]
            name = to and to['x']['name']
            if page:
                page_name = n['x']['name'].replace('includr_', 'include_')
            else:
                page_name = ('include_' + name[8:]) if name.startswith('includr_') else name
            new = {a: page_name + '/' + m['x']['name'] for a, m in zip(old, moved)}
            if moved:
                self.rename(moved[0], ds, new)
            x, data = src.cut(n)
            s.put(to, copy.deepcopy(x), copy.deepcopy(data))
            if op == 'el':
                d.load()
        elif op == 'noprop':
            del s.m['props'][i - 1]
        elif op == 'swap':
            s.m['props'].reverse()
        elif op == 'prop':
            s.m['props'] = (s.m['props'] or []) + [copy.deepcopy(d.m['props'][i - 1])]
        elif op == 'area':
            s.a = copy.deepcopy(d.a)
        s.save()

    def readonly(self, s):
        s.load()
        nodes = self.linked(s)
        for n in nodes:
            if n.get('area') and n['x']['type'] == 'Panel' and n['x']['name'] == 'include_' + self.area:
                old = self.rel(n)
                self.rename(n, nodes, {old: old[:-len('include_' + self.area)] + 'includr_' + self.area})
        s.save()
        super().readonly(s)

    def out_event(self, entries):
        f, e = self.forms[1], entries[self.o[1].id + '.0']
        raw = P.brace_of(e['form'])
        if self.plain or not self.beh['fm'][1]['known']:
            self.ev('Out', els=[], props=[], ix=[], rest=f.rest(raw, False))
        else:
            self.ev('Out', **dict(f.read(raw), rest=f.rest(raw, True)))


def batch(c, behs, first, base, plain):
    import v8unpack
    r, d = c.rng, c.dir()
    ps, gen = [O.Product(base), O.Product(base)], O.Gen(r)
    lives = [Life(c, b, first + k) for k, b in enumerate(behs)]
    for x in lives:
        x.prepare(ps, gen, [base, base], plain)
    srcs, ok = [], True
    opts = {} if plain else {'auto_include': True}
    for k in (0, 1):
        f, src = os.path.join(d, f'p{k}.bin'), os.path.join(d, f'p{k}', 'src')
        with open(f, 'wb') as h:
            h.write(P.write_product(ps[k].entries()))
        res = objrun.run_inline(objrun.shuffler(r), v8unpack.extract, f, src, options=dict(opts))
        srcs.append(src)
        ok = ok and res[0] == 'ok'
        why = '' if res[0] == 'ok' else str(res[1:])[:900]
        for x in lives:
            x.ev('Extracted', ok=res[0] == 'ok', why=why)
    if ok:
        for x in lives:
            try:
                if plain:
                    continue
                s = [x.sources(k, srcs[k], ps[k]) for k in (0, 1)]
                for k in (0, 1):
                    x.src_event(k, s[k])
                for o in x.beh['ops']:
                    x.edit(o, s)
                if r.random() < .3:
                    x.readonly(s[1])
            except Exception as e:
                x.ev('Extracted', ok=False, why=f'sources unusable: {e!r} {getattr(e, "filename", "")}'[:300])
        out = os.path.join(d, 'out.bin')
        res = objrun.run_inline(objrun.shuffler(r), v8unpack.build, srcs[1], out, options=dict(opts))
        good, why = res[0] == 'ok', str(res[1:])[:900]
        try:
            entries = P.read_product(open(out, 'rb').read()) if good else {}
        except Exception as e:
            good, why, entries = False, f'unreadable product: {e!r}'[:300], {}
        for x in lives:
            x.ev('Built', ok=good, why='' if good else why)
            if good:
                try:
                    x.out_event(entries)
                except Exception as e:
                    x.ev('Out', els=[], props=[], ix=[], rest=f'unreadable form: {e!r}'[:200])
    shutil.rmtree(d, ignore_errors=True)
    return lives


def run(c):
    traces = []
    c.model('OrdFormMC', 'OrdForm', consts=c.n({}, {'MaxEls': 5}))
    res = c.tlc('OrdFormMC', 'OrdFormEmit', args=('-simulate', f'num={c.n(1500, 8000)}', '-depth', '90', '-seed', str(c.seed * 3 + 1)))
    rng = c.rng
    behs = res.prints
    rng.shuffle(behs)
    by = {}
    for b in behs:
        by.setdefault((b['ok'], tuple(f['known'] for f in b['fm']), tuple(sorted({o['op'] for o in b['ops']}))), []).append(b)
    pick, want = [], c.n(170, 1500)
    while len(pick) < want and by:
        for k in sorted(by):
            if by[k]:
                pick.append(by[k].pop())
            if not by[k]:
                del by[k]
    good, bad = [b for b in pick if b['ok']][:want], [b for b in pick if not b['ok']][:c.n(10, 60)]
    rng.shuffle(good)
    plain = [dict(copy.deepcopy(b), ops=[], ok=True) for b in good[:len(good) // 5]]
    third = len(good) // 3
    groups = []
    for bs, base, pl in ((good[:third], 'epf802', False), (good[third:], 'cf', False), (plain[::2], 'epf802', True), (plain[1::2], 'cf', True)):
        groups += [(bs[i:i + 12], base, pl) for i in range(0, len(bs), 12)]
    groups += [([b], rng.choice(['epf802', 'cf']), False) for b in bad]
    n = 0
    for bs, base, pl in groups:
        for x in batch(c, bs, n, base, pl):
            about = dict(base=base, kind=x.o[1].kind, ops=[o['op'] for o in x.beh['ops']], area=x.area, plain=pl, version=x.version,
                         elements=[len(f['els']) for f in x.beh['fm']])
            traces.append(dict(id=f't{x.no}', events=x.events, about=about))
        n += len(bs)
    for t in traces[-3:]:
        c.sample(t['about'])
    c.validate('OrdFormTrace', traces)
