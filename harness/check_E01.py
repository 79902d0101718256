"""E01: element areas of forms are moved to files of their own and put back without losing or moving any element."""
import json
import os
import shutil

from areas import area_path
from vlib import InlinePool, call, tree, write_tree

NAMES = ['Группа', 'Группа1', 'Гр', 'include', 'Xinclude_a', 'Поле ввода', 'А', 'а', 'Страница', 'Панель1', '-', 'tree',
         'includ_y', 'Кнопка.Ок', 'Xincludr_a', 'data', 'Надпись_include_1', 'П', 'Ё1']
SHAPES = ['core_form_%s', 'core_%s', '%s', '__up_%s', 'base_%s', 'a b_%s', 'Общая_Гр_%s']
FOLDERS = ['Form/Форма1', 'Catalog/Спр/Form/Ф', '', 'Form/Форма10', 'Form/Ф.2']


class Names:
    def __init__(self, rng):
        self.rng = rng
        self.fwd, self.back = {}, {}
        self.pool = list(NAMES)
        rng.shuffle(self.pool)
        self.fwd[('pages', '')] = '-pages-'
        for k, n in enumerate(rng.sample(['Стр', 'Стр1', 'Страница1', 'Страница 2', 'Стр11'], 2)):
            self.fwd[('page', str(k + 1))] = n
        self.back = {v: k for k, v in self.fwd.items()}
        self.area = {}

    def name(self, kind, text):
        key = (kind, text)
        if key not in self.fwd:
            if kind in ('inc', 'incr'):
                if text not in self.area:
                    self.area[text] = self.rng.choice(SHAPES) % ('обл%d' % len(self.area))
                v = ('include_' if kind == 'inc' else 'includr_') + self.area[text]
            else:
                v = self.pool.pop() if self.pool else 'э' + text
            self.fwd[key], self.back[v] = v, key
        return self.fwd[key]

    def path(self, p):
        return '/'.join(self.name(k, t) for k, t in p)

    def unpath(self, s):
        return [list(self.back.get(x, ('?', x))) for x in s.split('/')]


def norm(n):
    return ['inc', n[1]] if n[0] == 'incr' else list(n)


class Form:
    """nodes: [d, kind, text, page]; ps: {node index or -1: pages}; all paths abstract"""

    def __init__(self, beh, mode, tag):
        self.mode = mode
        self.nodes = [[x['d'], x['n'][0], x['n'][1] + (tag if x['n'][0] == 'el' else ''), x['g']] for x in beh['form']]
        self.ps = [x['ps'] for x in beh['form']]
        self.tag = tag
        self.data = {}
        stack, n = [], 0
        inner = {}
        for i, (d, k, t, g) in enumerate(self.nodes):
            del stack[d - 1:]
            base = (inner[stack[-1]] if stack else []) + ([['page', g]] if g else [])
            inner[i] = base + [norm((k, t))]
            self.put(base + [[k, t]], i)
            self.pages(inner[i], self.ps[i], i)
            stack.append(i)
        self.pages([], beh['ps'], 'r')
        self.rest = tag
        self.inner = inner

    def put(self, path, what):
        self.data.setdefault(json.dumps(path, ensure_ascii=False), f'{self.tag}{what}')

    def pages(self, base, ps, i):
        if ps:
            self.data[json.dumps(base + [['pages', '']], ensure_ascii=False)] = 'pages ' + ' '.join(ps)
            for p in ps:
                self.put(base + [['page', p]], f'{i}p{p}')

    def event(self, **kw):
        return dict(nodes=self.nodes, data=[[json.loads(p), c] for p, c in self.data.items()], **kw)

    def areas(self):
        """{area index: (nodes, data)} of this form, for material of area files"""
        res = {}
        for i, (d, k, t, g) in enumerate(self.nodes):
            if k in ('inc', 'incr'):
                j = i + 1
                while j < len(self.nodes) and self.nodes[j][0] > d:
                    j += 1
                nodes = [[x[0] - d, *x[1:]] for x in self.nodes[i + 1:j]]
                b = self.inner[i]
                data = {}
                for p, c in self.data.items():
                    p = json.loads(p)
                    if len(p) > len(b) and p[:len(b)] == b:
                        data[json.dumps(p[len(b) - 1:], ensure_ascii=False)] = c
                res[t] = (nodes, data)
        return res


def to_tree(nm, nodes, mode, rng):
    root = []
    stack = [root]
    for i, (d, k, t, g) in enumerate(nodes):
        del stack[d:]
        e = {'name': nm.name(k, t), 'type': 'Group'}
        if mode == 'pages':
            e['page'] = nm.name('page', g) if g else None
        has = i + 1 < len(nodes) and nodes[i + 1][0] > d
        if has:
            e['child'] = []
        else:
            x = rng.choice([None, [], 0])
            if x != 0:
                e['child'] = x
        stack[-1].append(e)
        stack.append(e['child'] if has else [])
    return root


def from_tree(nm, tree_, d=1):
    out = []
    for e in tree_ or []:
        k, t = nm.back.get(e['name'], ('?', e['name']))
        g = e.get('page')
        out.append([d, k, t, nm.back.get(g, ('?', str(g)))[1] if g else ''])
        ch = e.get('child')
        if isinstance(ch, list):
            out += from_tree(nm, ch, d + 1)
        elif ch is not None and ch != 'В отдельном файле':
            out.append([d + 1, '?', str(ch)[:40], ''])
    return out


def content(nm, c):
    if c.startswith('pages '):
        return [nm.name('page', p) for p in c.split(' ')[1:]]
    return {'raw': [c, ['"' + c + '"', '0']], 'ver': 4}


def uncontent(nm, v):
    if isinstance(v, list):
        return ' '.join(['pages'] + [nm.back.get(x, ('?', str(x)))[1] for x in v])
    if isinstance(v, dict) and isinstance(v.get('raw'), list) and v == content(nm, str(v['raw'][0])):
        return v['raw'][0]
    return '?' + json.dumps(v, ensure_ascii=False)[:60]


def to_json(nm, nodes, data, mode, rng, rest=None):
    d = dict(tree=to_tree(nm, nodes, mode, rng),
             data={nm.path(json.loads(p)): content(nm, c) for p, c in data.items()})
    if rest is not None:
        d.update(params=None, props=[{'name': rest, 'id': '1', 'raw': ['"' + rest + '"']}], commands=[])
    return json.dumps(d, ensure_ascii=False, indent=2).encode('utf-8')


def from_json(nm, data):
    try:
        d = json.loads(data.decode('utf-8'))
        ev = dict(nodes=from_tree(nm, d['tree']),
                  data=[[nm.unpath(p), uncontent(nm, v)] for p, v in d['data'].items()])
        rest = {k: v for k, v in d.items() if k not in ('tree', 'data')}
        if rest:
            r = rest.get('props')
            r = r[0]['name'] if r else '?'
            ok = rest == dict(params=None, props=[{'name': r, 'id': '1', 'raw': ['"' + r + '"']}], commands=[])
            ev['rest'] = r if ok else '?' + str(rest)[:60]
        return ev
    except Exception as err:
        return dict(nodes=[[1, '?', str(err)[:60], '']], data=[], rest='?')


def one(c, behs, mode, tid, traces, order):
    from v8unpack.organizer_file import OrganizerFile
    from v8unpack.organizer_file_ce import OrganizerFileCE
    rng = c.rng
    nm = Names(rng)
    descent = rng.choice([None, None, None, 7, 4100200])
    cls = OrganizerFile if descent is None else OrganizerFileCE
    top = c.dir()
    root = os.path.join(top, 'u/v/root')
    src = os.path.join(root, 'src') if descent is None else os.path.join(root, 'src', 'conf')
    stage, back = os.path.join(top, 'stage'), os.path.join(top, 'back')
    os.makedirs(src)
    forms = [Form(b, mode, 'fg'[k]) for k, b in enumerate(behs[:2])]
    folders = rng.sample(FOLDERS, len(forms))
    several = len(forms) > 1
    files, evs, index, moved, renamed = {}, [], None, {}, {}
    spare = Form(behs[-1], mode, 's').areas()
    for f in forms:
        for _, k, t, g in f.nodes:
            nm.name(k, t)
    shared = len(set().union(*[f.areas() for f in forms])) < sum(len(f.areas()) for f in forms)
    if shared or any(n[1] == 'incr' for f in forms for n in f.nodes):
        for a in nm.area:                          # shared areas live outside the source folder
            if nm.area[a].count('_') == 0:
                for k in ('inc', 'incr'):
                    v = nm.fwd.pop((k, a), None)
                    nm.back.pop(v, None)
                nm.area[a] = 'core_' + nm.area[a]
    if rng.random() < 0.35:
        index = {}
        for a, n in nm.area.items():
            if rng.random() < 0.5:
                renamed[n] = rng.choice(['core_зам_%s', 'base2_%s', 'з%s'][:2 if shared or several else 3]) % a
        if renamed:
            index['Области include'] = renamed
    for f, folder in zip(forms, folders):
        p = os.path.join(folder, 'Форма.elem.json')
        f.path = p
        if index is not None and rng.random() < 0.5:
            node = index
            for part in [x for x in folder.split('/') if x]:
                node = node.setdefault(part, {})
            node['Форма.elem.json'] = moved[p] = f'base/Формы/{len(moved)}/Форма.elem.json'
        files[p] = to_json(nm, f.nodes, f.data, mode, rng, f.rest)
        evs.append(f.event(ev='Form', path=p, rest=f.rest))
    write_tree(stage, files)

    def suffixed(path):
        if descent is not None and path.startswith(src + os.sep):
            b, e = path.rsplit('.', 1)
            return f'{b}.{descent}.{e}'
        return path

    up = '..' if descent is None else '../..'
    area_at = {}
    for f in forms:
        folder = os.path.dirname(os.path.join(up, moved[f.path]) if f.path in moved else f.path)
        for a in f.areas():
            n = renamed.get(nm.area[a], nm.area[a])
            p = area_path(n, folder, descent)[:-len('.bsl')] + '.elem.json'
            area_at.setdefault(a, suffixed(os.path.normpath(os.path.join(src, p))))
    form_at = {suffixed(os.path.normpath(os.path.join(root, moved[p])) if p in moved else os.path.join(src, p)): p
               for p in files}
    need = {t for f in forms for _, k, t, g in f.nodes if k == 'incr'} - \
           {t for f in forms for _, k, t, g in f.nodes if k == 'inc'}
    first = next(iter(spare.values()), ([], {}))
    pre = {}

    def material(a):
        nodes, data = spare.get(a, first)
        out = {}
        for p, cc in data.items():
            p = json.loads(p)
            p[0] = ['inc', a]
            out[json.dumps(p, ensure_ascii=False)] = cc
        return nodes, out

    def area_file(a, ev):
        nodes, data = material(a)
        os.makedirs(os.path.dirname(area_at[a]), exist_ok=True)
        with open(area_at[a], 'wb') as h:
            h.write(to_json(nm, nodes, data, mode, rng))
        evs.append(dict(ev=ev, name=a, nodes=nodes, data=[[json.loads(p), cc] for p, cc in data.items()]))

    for a in sorted(need):
        if not area_at[a].startswith(src + os.sep):
            area_file(a, 'Pre')
            pre[a] = 1
    before = set(tree(top, read=False))
    ok = all(a in pre for a in need)
    r = call(cls.unpack, stage, src, pool=InlinePool(order), index=index, descent=descent)
    rel = {p: a for a, p in area_at.items()}
    for p, data in sorted(tree(top).items()):
        full = os.path.join(top, p)
        if data is None:
            continue
        if full in rel:
            evs.append(dict(ev='File', name=rel[full], **{k: v for k, v in from_json(nm, data).items() if k != 'rest'}))
        elif full in form_at:
            evs.append(dict(ev='Root', path=form_at[full], **{'rest': '?', **from_json(nm, data)}))
        elif p not in before:
            evs.append(dict(ev='Extra', path=p))
    evs.append(dict(ev='Split', ok=r[0] == 'ok', why=str(r[1:])[:300]))
    if r[0] == 'ok':
        for a in area_at:
            if rng.random() < 0.15 and os.path.isfile(area_at[a]):
                area_file(a, 'Change')
        r = call(cls.pack, src, back, pool=InlinePool(order), index=index, descent=descent)
        n = 0
        for p, data in sorted(tree(back).items()):
            if p in files:
                n += 1
                evs.append(dict(ev='Packed', path=p, **{'rest': '?', **from_json(nm, data)}))
        if ok:
            evs.append(dict(ev='Joined', ok=r[0] == 'ok', n=n, why=str(r[1:])[:300]))
    shutil.rmtree(top)
    traces.append(dict(id=tid, events=evs, about=dict(mode=mode, descent=descent, index=index, areas=nm.area,
                                                     names={str(k): v for k, v in nm.fwd.items()})))


def run(c):
    rng, traces = c.rng, []
    c.model('FormAreasMC', 'FormAreas', consts=dict(Mode='"managed"', MaxNodes=c.n(6, 7)))
    c.model('FormAreasMC', 'FormAreas', consts=dict(Mode='"pages"', MaxNodes=c.n(3, 4), **c.n({}, {'AreaNames': '{"A"}'})))
    c.model('FormAreasMC', 'FormAreas', consts=dict(Mode='"auto"', MaxNodes=c.n(4, 6)))

    def order(idx):
        idx = list(idx)
        rng.shuffle(idx)
        return idx

    k = 0
    for mode in ('managed', 'pages', 'auto'):
        behs = []
        for n, num in ((3, 60), (6, 200), (11, c.n(200, 1500)), (18, c.n(80, 800))):
            r = c.tlc('FormAreasMC', 'FormAreasEmit', consts=dict(Mode=f'"{mode}"', MaxNodes=n),
                      args=('-simulate', f'num={num}', '-depth', '40', '-seed', str(c.seed * 53 + n)))
            behs += rng.sample(r.prints, min(num, len(r.prints)))
        rng.shuffle(behs)
        for j in range(min(len(behs), c.n(260, 2500))):
            k += 1
            one(c, [behs[j]] + ([rng.choice(behs)] if rng.random() < 0.4 else []), mode, f'{mode[0]}{k}', traces, order)
    for t in traces[-3:]:
        c.sample(t['about'])
    c.validate('FormAreasTrace', traces)
