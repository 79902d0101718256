"""O01: managed forms: elements, attributes and commands between the product and the sources."""
import copy
import json
import os
import shutil

import forms as F
import objects as O
import objrun
import products as P
from vlib import codes

OWN = [('Document', 'DocumentForm'), ('DataProcessor', 'Form'), ('Catalog', 'CatalogForm')]
OTHER = [('', 'CommonForm'), ('Enum', 'EnumForm'), ('Report', 'ReportForm'), ('InformationRegister', 'InformationRegisterForm'),
         ('AccumulationRegister', 'AccumulationRegisterForm'), ('DocumentJournal', 'DocumentJournalForm'),
         ('ChartOfCalculationTypes', 'ChartOfCalculationTypesForm'), ('ExchangePlan', 'ExchangePlanForm'),
         ('SettingsStorage', 'SettingsStorageForm'), ('FilterCriterion', 'FilterCriterionForm')]
APART = 'В отдельном файле'


class Sources:
    """the files of a form: its own, and that of its area"""

    def __init__(self, dir, kind, area):
        self.dir, self.kind, self.area = dir, kind, area
        self.file = os.path.join(dir, f'{kind}.elem.json')
        self.load()

    def load(self):
        self.m = json.load(open(self.file, encoding='utf-8'))
        self.a = json.load(open(self.area, encoding='utf-8')) if os.path.exists(self.area) else None

    def save(self):
        for f, v in ((self.file, self.m), (self.area, self.a)):
            if v is not None:
                os.makedirs(os.path.dirname(f), exist_ok=True)
                with open(f, 'w', encoding='utf-8') as h:
                    json.dump(v, h, ensure_ascii=False, indent=2)

    def nodes(self):
        out = []

        def visit(tree, d, data, path):
            for x in tree or []:
                key = f'{path}/{x["name"]}' if path else x['name']
                out.append(dict(x=x, d=d, list=tree, data=data, key=key))
                down = path + '/' * bool(path) + ('include_' + x['name'][8:] if x['name'].startswith('includr_') else x['name'])
                if x.get('child') == APART:
                    out[-1]['area'] = True
                    if self.a:
                        visit(self.a['tree'], d + 1, self.a['data'], 'include_' + x['name'][8:])
                else:
                    visit(x.get('child'), d + 1, data, down)
        visit(self.m['tree'], 1, self.m['data'], '')
        return out

    def cut(self, n):
        n['list'][:] = [x for x in n['list'] if x is not n['x']]
        k = n['key']
        return n['x'], {x[len(k):]: n['data'].pop(x) for x in list(n['data']) if x == k or x.startswith(k + '/')}

    def put(self, g, x, data):
        if g is None:
            self.m['tree'] = self.m['tree'] or []
            tree, to, path = self.m['tree'], self.m['data'], ''
        elif g.get('area'):
            tree, to, path = self.a['tree'], self.a['data'], 'include_' + g['x']['name'][8:]
        else:
            g['x']['child'] = g['x'].get('child') or []
            tree, to, path = g['x']['child'], g['data'], g['key']
        tree.append(x)
        for k, v in data.items():
            to[(path + '/' if path else '') + x['name'] + k] = v


class Life:
    def __init__(self, c, beh, no):
        self.c, self.rng, self.beh, self.no = c, c.rng, beh, no
        r = self.rng
        self.area = f'Обл{no}' if r.random() < .5 else f'общие_Обл{no}'
        nums = r.sample(range(1, 60), 4)
        self.ids = {k + 1: str(n) for k, n in enumerate(nums)}
        self.events = []

    def ev(self, ev, **k):
        self.events.append(dict(ev=ev, **k))

    def place(self, p, gen, host, base):
        """the form among the objects of the product; returns the type of the host"""
        r = self.rng
        while True:
            owner, kind = r.choice(OWN if host else OTHER)
            if base != 'cf':
                owner, kind = '', 'Form'
            o = gen.obj(kind, '', f'Форма{self.no}', base)
            b = o.sats.get('0')
            if isinstance(b, bytes) and (P.brace_of(b) or [['']])[0][0] == '4':
                break
        u = None
        if owner:
            h = gen.obj(owner, '', f'Владелец{self.no}', base)
            u = h.header[0][1][1] if host else None
            p.add(h)
            o.up = h.id
        elif base != 'cf':
            u = p.header[0][3][1][1][1]
        p.add(o)
        return o, u

    def prepare(self, ps, gen, bases):
        r, fm = self.rng, self.beh['fm']
        self.o, hosts = [None, None], [None, None]
        for k in (0, 1):
            self.o[k], hosts[k] = self.place(ps[k], gen, fm[k]['host'], bases[k])
        no = lambda: F._uuid(r)
        self.types = dict(simple=r.choice([['"Pattern"', ['"S"']], ['"Pattern"'], ['"Pattern"', ['"N"', '10', '0', '0'], ['"S"']]]),
                          other=['"Pattern"', ['"#"', no()]], host1=['"Pattern"', ['"#"', hosts[0] or no()]],
                          host2=['"Pattern"', ['"#"', hosts[1] or no()]], own=['"Pattern"', ['"#"', 'Родитель']])
        self.forms = []
        for k in (0, 1):
            f = F.Form(r, self.types, self.ids, self.area)
            b = f.make(fm[k])
            self.o[k].sats['0'] = P.emit(b)
            self.forms.append(f)
            self.ev('Form', k=k + 1, f=fm[k], rest=f.rest(P.brace_of(self.o[k].sats['0']), fm[k]['known']))
        self.parts = {k: self.forms[0].parts.get(k, set()) | self.forms[1].parts.get(k, set())
                      for k in {**self.forms[0].parts, **self.forms[1].parts}}

    def sources(self, k, src, p):
        a = self.area.split('_')
        d = os.path.join(src, *p.path(self.o[k].id))
        return Sources(d, self.o[k].kind, os.path.join(*([os.path.dirname(src)] + a[:-1] if len(a) > 1 else [d]), a[-1] + '.elem.json'))

    def src_event(self, k, s):
        f, els = self.forms[k], []
        for n in s.nodes():
            d = n['data'].get(n['key'])
            if d is None:
                els.append(dict(d=n['d'], n=-1, t=n['x'].get('type', ''), a=False, lk=[], cm=0, bn=[], cn=''))
                continue
            e = f.read_el(n['x']['type'], d['raw'], n['x']['name'], self.parts)
            bn = d.get('ПутьКДанным')
            els.append(dict(e, d=n['d'], bn=bn.split('.') if bn else [], cn=d.get('ИмяКоманды') or ''))
        if len(s.m['data']) + len(s.a['data'] if s.a else ()) != len(els):
            els.append(dict(d=1, n=-2, t='data of no element', a=False, lk=[], cm=0, bn=[], cn=''))
        props = [f.read_prop(x['raw'], [dict_col(y) for y in x.get('child') or []], self.parts) for x in s.m['props'] or []]
        self.ev('Src', k=k + 1, els=els, props=props, cmds=[f.read_cmd(x['raw'], self.parts) for x in s.m['commands'] or []])

    def edit(self, o, srcs):
        op, i, g = o['op'], o['i'], o['g']
        self.ev('Edit', op=op, i=i, g=g)
        s, d = srcs[1], srcs[0]
        s.load()
        if op in ('drop', 'move'):
            ns = s.nodes()
            x, data = s.cut(ns[i - 1])
            if op == 'move':
                s.put(ns[g - 1] if g else None, x, data)
        elif op in ('noprop', 'nocmd'):
            del s.m['props' if op == 'noprop' else 'commands'][i - 1]
        elif op == 'nocols':
            s.m['props'][i - 1]['child'] = []
        elif op == 'swap':
            s.m['props'].reverse()
        elif op == 'prop':
            s.m['props'] = (s.m['props'] or []) + [copy.deepcopy(d.m['props'][i - 1])]
        elif op == 'el':
            x, data = Sources.cut(s, d.nodes()[i - 1])
            s.put(None, copy.deepcopy(x), copy.deepcopy(data))
            d.load()
        elif op == 'area':
            s.a = copy.deepcopy(d.a)
        elif op == 'form':
            s.m, s.a = copy.deepcopy(d.m), copy.deepcopy(d.a)
            for n in os.listdir(s.dir):
                if n.startswith(s.kind + '.') and n.endswith('.bsl'):
                    os.remove(os.path.join(s.dir, n))
            for n in os.listdir(d.dir):
                t = os.path.join(s.dir, s.kind + n[len(d.kind):])
                if n.endswith('.bsl'):   # an area next to the form goes by save()
                    shutil.copy(os.path.join(d.dir, n), t)
                elif n == d.kind + '.json':
                    a, b = (json.load(open(f, encoding='utf-8')) for f in (os.path.join(d.dir, n), t))
                    a = {k: v for k, v in a.items() if 'орм' in k or k.startswith('code') or k == 'form'}
                    with open(t, 'w', encoding='utf-8') as h:
                        json.dump(dict(b, **a), h, ensure_ascii=False, indent=2)
        s.save()

    def readonly(self, s):
        """the user declares the area to be read only: its holder is renamed"""
        s.load()
        for n in s.nodes():
            if n.get('area') and n['x']['name'] == 'include_' + self.area:
                x = n['data'].pop(n['key'])
                n['x']['name'] = 'includr_' + self.area
                n['data'][n['key'][:-len('include_' + self.area)] + 'includr_' + self.area] = x
        s.save()

    def out_event(self, entries):
        f, b = self.forms[1], P.brace_of(entries[self.o[1].id + '.0'])
        known = self.beh['fm'][0 if any(o['op'] == 'form' for o in self.beh['ops']) else 1]['known']
        e = dict(f.read(b, self.parts) if known else dict(els=[], props=[], cmds=[]), rest=f.rest(b, known))
        self.ev('Out', **e)


def dict_col(y):
    return y['raw']


def batch(c, behs, first, base2):
    import v8unpack
    r, d = c.rng, c.dir()
    bases = ['cf', base2]
    ps, gen = [O.Product(b) for b in bases], O.Gen(r)
    lives = [Life(c, b, first + k) for k, b in enumerate(behs)]
    for x in lives:
        x.prepare(ps, gen, bases)
    srcs, ok = [], True
    opts = {'auto_include': True} if r.random() < .5 else {}
    for k in (0, 1):
        f, src = os.path.join(d, f'p{k}.bin'), os.path.join(d, f'p{k}', 'src')
        with open(f, 'wb') as h:
            h.write(P.write_product(ps[k].entries()))
        res = objrun.run_inline(objrun.shuffler(r), v8unpack.extract, f, src, options=dict(opts))
        srcs.append(src)
        ok = ok and res[0] == 'ok'
        why = '' if res[0] == 'ok' else str(res[1:])[:900]
        for x in lives:
            x.ev('Extracted', ok=res[0] == 'ok', why=why)
    if ok:
        for x in lives:
            try:
                s = [x.sources(k, srcs[k], ps[k]) for k in (0, 1)]
                for k in (0, 1):
                    x.src_event(k, s[k])
                for o in x.beh['ops']:
                    x.edit(o, s)
                if r.random() < .3:
                    x.readonly(s[1])
            except Exception as e:
                x.ev('Extracted', ok=False, why=f'sources unusable: {e!r} {getattr(e, "filename", "")}'[:300])
        out = os.path.join(d, 'out.bin')
        res = objrun.run_inline(objrun.shuffler(r), v8unpack.build, srcs[1], out, options=dict(opts))
        good, why = res[0] == 'ok', str(res[1:])[:900]
        try:
            entries = P.read_product(open(out, 'rb').read()) if good else {}
        except Exception as e:
            good, why, entries = False, f'unreadable product: {e!r}'[:300], {}
        for x in lives:
            x.ev('Built', ok=good, why='' if good else why)
            if good:
                try:
                    x.out_event(entries)
                except Exception as e:
                    x.ev('Out', els=[], props=[], cmds=[], rest=f'unreadable form: {e!r}'[:200])
    shutil.rmtree(d, ignore_errors=True)
    return lives


def run(c):
    traces = []
    c.model('FormTreeMC', 'FormTree', consts=c.n({'PropNames': '{"a"}', 'Types': '{"simple", "host2"}'}, {}))
    res = c.tlc('FormTreeMC', 'FormTreeEmit', args=('-simulate', f'num={c.n(1500, 8000)}', '-depth', '70', '-seed', str(c.seed * 3 + 1)))
    behs = [b for b in res.prints if b['fm'][1]['els'] or b['ops']]
    rng = c.rng
    rng.shuffle(behs)
    by = {}
    for b in behs:
        by.setdefault((b['ok'], tuple(sorted({o['op'] for o in b['ops']}))), []).append(b)
    pick = []
    want = c.n(170, 1500)
    while len(pick) < want and by:
        for k in sorted(by):
            if by[k]:
                pick.append(by[k].pop())
            if not by[k]:
                del by[k]
    good, bad = [b for b in pick if b['ok']][:want], [b for b in pick if not b['ok']][:c.n(8, 60)]
    groups = []
    hosted = [b for b in good if b['fm'][1]['host']]
    rng.shuffle(hosted)
    ext = hosted[:len(hosted) // 4]
    for bs, base in ((ext, 'epf803'), ([b for b in good if not any(b is x for x in ext)], 'cf')):
        groups += [(bs[i:i + 12], base) for i in range(0, len(bs), 12)]
    groups += [([b], 'epf803' if b['fm'][1]['host'] and rng.random() < .7 else 'cf') for b in bad]
    n = 0
    for bs, base in groups:
        for x in batch(c, bs, n, base):
            about = dict(base=base, kinds=[o.kind for o in x.o], ops=[o['op'] for o in x.beh['ops']], area=x.area,
                         elements=[len(f['els']) for f in x.beh['fm']])
            traces.append(dict(id=f't{x.no}', events=x.events, about=about))
        n += len(bs)
    for t in traces[-3:]:
        c.sample(t['about'])
    c.validate('FormTreeTrace', traces)
