"""Ordinary forms: making them of the parts of sample forms, and reading them, without the code under test.

A panel's data: [.., .., four counted lists of what is anchored to the panel, two more lists, .., pages (after 4), 4 later
the counted descriptions of pages].  An element: [type, id, .., position, [.., name], [0]]; the position: six values, six
sides [x, [2, to, border, coordinate], [2, to, border, coordinate]], four counted lists of what is anchored to the element,
two more, number of the page, ...  A panel that is an element has its data in [2][1] and its elements in [-1]; the form has
its own in [1][1] and [2]."""
import copy
import hashlib
import json

import products as P

TYPES = {'381ed624-9217-4e63-85db-c4c3cb87daae': 'Field', '35af3d93-d7c7-4a2e-a8eb-bac87a1a3f26': 'CheckBox',
         '782e569a-79a7-4a4f-a936-b48d013936ec': 'RadioBtn', '64483e7f-3833-48e2-8c75-2c31aac49f6e': 'SelectField',
         'e69bf21d-97b2-4f37-86db-675aea9ec2cb': 'CommandPanel', '6ff79819-710e-4145-97cd-1618da79e3e2': 'Button',
         '151ef23e-6bb2-4681-83d0-35bc2217230c': 'Image', '90db814a-c75f-4b54-bc96-df62e554d67d': 'Group',
         'ea83fe3a-ac3c-4cce-8045-3dddf35b28b1': 'Table', '236a17b3-7f44-46d9-a907-75f9cdc61ab5': 'TableField',
         '0fc7e20d-f241-460c-bdf4-5ad88e5474a5': 'Label', '19f8b798-314e-4b4e-8121-905b2a7a03f5': 'ListField',
         '36e52348-5d60-4770-8e89-a16ed50a2006': 'Separator', 'd92a805c-98ae-4750-9158-d9ce7cec2f20': 'FieldHtml',
         'b1db1f86-abbb-4cf0-8852-fe6ae21650c2': 'Indicator', 'e3c063d8-ef92-41be-9c89-b70290b5368b': 'CalendarBox',
         '6c06cd5d-8481-4b6f-a90a-7a97a8bb8bef': 'TrackBar', '14c4a229-bfc3-42fe-9ce1-2da049fd0109': 'TextDocumentField',
         '42248403-7748-49da-b782-e4438fd7bff3': 'GraphicalSchemaField', 'ad37194e-555e-4305-b718-5dca84baf145': 'GeographicalSchemaField',
         'a8b97779-1a4b-4059-b09c-807f86d2a461': 'Chart', 'e5fdc112-5c84-4a16-9728-72b85692b6e2': 'GanttChart',
         'a26da99e-184a-4823-b0d6-62816d38dc4e': 'PivotChart', '984981b1-622d-4ebc-94f7-885f0cdfb59a': 'Dendrogram'}
PANEL = '09ccdc77-ea1a-4a6d-ab1c-3435eada2433'
WORDS = ['Поле', 'Панель', 'Кнопка', 'Страница', 'x_', 'Ё', 'Моё', 'include', 'pages', 'Page', 'а', '_', 'Товары_', 'вinclude_', 'Page1']


def sha(v):
    # base64 data may be wrapped and marked; {} may be read as one empty value
    return hashlib.sha1(json.dumps(v, ensure_ascii=False).replace('\\r', '').replace('\\n', '').replace('[""]', '[]').replace('##base64', '#base64').encode()).hexdigest()[:12]


def num(v):
    try:
        return int(v) if isinstance(v, str) else -9
    except ValueError:
        return -9


_T = {}


def templates():
    """skeletons of forms and panels, samples of elements, pages, attributes"""
    if not _T:
        forms = [P.brace_of(x['form']) for _, x in sorted(P.sample('epf802').items()) if isinstance(x, dict) and 'form' in x]
        _T.update(forms=[], panels=[], els=[], pages=[], props=[])

        def visit(kids):
            for e in kids[1:]:
                if e[0] == PANEL:
                    visit(e[-1])
                    cut = copy.deepcopy(e)
                    cut[2][1] = strip(cut[2][1])
                    cut[-1] = ['0']
                    _T['panels'].append(cut)
                else:
                    _T['els'].append(e)
        for f in forms:
            visit(f[0][1][2][2])
            _T['props'] += f[0][2][2][1:]
            g = copy.deepcopy(f)
            g[0][1][2][1][1] = strip(g[0][1][2][1][1])
            g[0][1][2][2] = ['0']
            g[0][2][2], g[0][2][3] = ['0'], ['0']
            _T['forms'].append(g)
    return _T


def offsets(d):
    """where the lists of anchors, the pages and their descriptions begin"""
    o, lists = 2, []
    for k in range(6):
        lists.append(o)
        o += 1 + int(d[o])
    return lists, o + 3, o + 7


def strip(d):
    lists, pages, info = offsets(d)
    _T['pages'] += d[pages][2:]
    n = int(d[info])
    return d[:2] + ['0'] * 6 + d[lists[5] + 1 + int(d[lists[5]]):pages] + [[d[pages][0], '0']] + d[pages + 1:info] + ['0'] + d[info + 1 + n:]


class Names:
    """names of the nodes: those of elements differ in all forms, those of pages in their panel"""

    def __init__(self, rng, area):
        self.rng, self.area, self.of, self.pages = rng, area, {}, set()

    def node(self, n, t, used, a, nested=False):
        if n not in self.of:
            if a:
                self.of[n] = 'include_' + self.area
            else:
                w = self.rng.choice(WORDS)
                if t == 'page' and self.of and self.rng.random() < .3:      # as an element or a page of another panel
                    w = self.rng.choice(sorted(self.of.values())).replace('include_', 'in_')
                    if w in used or (w in self.pages and not nested):      # pages of the donor come to the form itself
                        w += str(n)
                else:
                    w += str(n)
                self.of[n] = w
            if t == 'page':
                self.pages.add(self.of[n])
        return self.of[n]


class Form:
    def __init__(self, rng, names, props, ids):
        self.rng, self.names, self.props, self.ids = rng, names, props, ids
        self.t = templates()
        self.parts, self.kind, self.size = {}, {}, {}
        self.prop_part = {}

    # ---- making ----
    def mark(self):
        return str(self.rng.randrange(10, 2000))

    def make(self, fm, version='27'):
        r = self.rng
        self.version = version
        f = copy.deepcopy(r.choice(self.t['forms']))
        f[0][0] = version
        els = fm['els']
        ids = {0: '0', 99: str(r.choice([60, 77, 1000]))}
        for e in els:
            ids[e['id']] = str(e['id']) if e['id'] else '0'
        f[0][2][2] = [str(len(fm['props']))] + [self.prop(p) for p in fm['props']]
        bound = [e for e in els if e['lk']]
        r.shuffle(bound)
        f[0][2][3] = [str(len(bound))] + [[str(e['id']), ['1', [self.ids[e['lk']]]]] for e in bound]
        root = f[0][1][2]
        root[1][1], root[2] = self.panel(root[1][1], els, -1, ids)
        if not fm['known']:
            k = r.choice([j for j, e in enumerate(els) if e['t'] != 'page'])
            self.find(f, els[k]['id'])[0] = '00000000-1111-2222-3333-444444444444'
        return f

    def find(self, f, id):
        def visit(kids):
            for e in kids[1:]:
                if e[1] == str(id):
                    return e
                x = visit(e[-1]) if e[0] == PANEL else None
                if x:
                    return x
        return visit(f[0][1][2][2])

    def prop(self, p):
        x = copy.deepcopy(self.rng.choice(self.t['props']))
        x[0] = [self.ids[p['id']]]
        x[4] = f'"{self.props[p["n"]]}"'
        if self.version == '26':
            del x[1]
        self.prop_part.setdefault(p['n'], set()).add(self.prop_sha(x))
        return x

    def below(self, els, i):
        d = els[i]['d'] if i >= 0 else 0
        out = []
        for j in range(i + 1, len(els)):
            if els[j]['d'] <= d:
                break
            if els[j]['d'] == d + 1:
                out.append(j)
        return out

    def panel(self, d, els, i, ids):
        r = self.rng
        d = list(d)
        pages, infos, kids, index = [], [], [], [[], [], [], []]
        extra = r.choice([0, 0, 0, 4, 1])
        for no, j in enumerate(self.below(els, i)):
            e = els[j]
            p = copy.deepcopy(r.choice(self.t['pages']))
            used = [self.names.of.get(els[x]['n']) for x in self.below(els, i)]
            p[6] = f'"{self.names.node(e["n"], "page", used, e["a"], e["d"] > 1 and e["n"] >= 200)}"'
            p[1] = ['1', '1', ['"ru"', f'"стр {e["n"]}"']]
            info = [['2', self.mark(), '0', '1', str(4 * no + k + 1), '0', '0'] for k in range(4 + (extra if no == 0 else 0))]
            pages.append(p)
            infos += info
            self.size[e['n']] = len(info)
            self.parts.setdefault(e['n'], set()).add(sha([p, info]))
            for x in self.below(els, j):
                kids.append((no, x))
        for no, x in kids:
            for a in els[x]['at']:
                if a['r'] == 0:
                    b, s = (v if v < 4 else 1 for v in (a['b'], a['s'] - 1))
                    index[b].append(['0', ids[els[x]['id']], str(s)])
        per = {}
        for no, x in kids:
            per.setdefault(no, []).append(x)
        order = []                      # in the file elements of different pages may alternate
        while per:
            no = r.choice(sorted(per))
            order.append((no, per[no].pop(0)))
            if not per[no]:
                del per[no]
        raws = [self.element(els, x, no, ids) for no, x in order]
        lists, po, io = offsets(d)
        d[io:io + 1] = [str(len(infos))] + infos
        d[po] = [d[po][0], str(len(pages))] + pages
        d[2:6] = [v for b in index for v in [str(len(b))] + b]
        return d, [str(len(raws))] + raws

    def element(self, els, x, no, ids):
        r, n = self.rng, els[x]
        e = copy.deepcopy(r.choice(self.t['panels' if n['t'] == 'panel' else 'els']))
        if n['t'] == 'el':
            e[0] = r.choice(sorted(TYPES))
        self.kind[n['n']] = e[0]
        e[1] = str(n['id'])
        e[-2][1] = f'"{self.names.node(n["n"], "el", [], n["a"])}"'
        pos = e[-3]
        pos[1:5] = [self.mark() for _ in range(4)]
        sides = [['0', ['2', '-1', '6', '0'], ['2', '-1', '6', '0']] for _ in range(6)]
        for a in n['at']:
            sides[a['s'] - 1][a['k']] = ['2', ids[a['r']], str(a['b']), self.mark()]
        o = 12
        for k in range(4):
            o += 1 + int(pos[o])
        by = []
        for k in range(4):
            own = [['0', ids[b['r']], str(b['b'])] for b in n['by'] if b['l'] == k + 1]
            by += [str(len(own))] + own
        e[-3] = pos = pos[:6] + sides + by + pos[o:]
        pos[-5] = str(no)
        self.parts.setdefault(n['n'], set()).add(self.el_sha(e))
        if n['t'] == 'panel':
            e[2][1], e[-1] = self.panel(e[2][1], els, x, ids)
        return e

    # ---- reading ----
    def el_sha(self, e):
        """of everything that is not told in the trace"""
        e = copy.deepcopy(e)
        pos = e[-3]
        o = 12
        for k in range(4):
            o += 1 + int(pos[o])
        sides = [[s[0]] + [[x[0], '', x[2], x[3]] for x in s[1:]] for s in pos[6:12]]
        e[-3] = pos[:6] + sides + pos[o:]
        e[-3][-5] = ''
        e[1] = ''
        if e[0] == PANEL:
            e[2][1] = self.skeleton(e[2][1])
            e[-1] = ''
        return sha(e)

    def skeleton(self, d):
        """of the data of a panel: without anchors, pages and their descriptions (as they are in the product)"""
        lists, po, io = offsets(d)
        n = int(d[io]) if num(d[io]) >= 0 else 0
        return d[:2] + d[lists[4]:po] + [d[po][0]] + d[po + 1:io] + d[io + 1 + n:]

    def prop_sha(self, x):
        return sha(x[1:])

    def read_prop(self, raw):
        name = raw[3 if self.version == '26' else 4].strip('"')
        n = next((k for k, v in self.props.items() if v == name), -1)
        id = next((k for k, v in self.ids.items() if v == raw[0][0]), -num(raw[0][0]) - 100)
        return dict(n=n if self.prop_sha(raw) in self.all_props.get(n, ()) else -n, id=id)

    def known(self, n, digest):
        return digest in self.all_parts.get(n, ())

    def read_sides(self, pos, ref):
        return [dict(s=s + 1, k=k, r=ref(pos[6 + s][k][1]), b=num(pos[6 + s][k][2])) for s in range(6) for k in (1, 2) if pos[6 + s][k][1] != '-1']

    def read_by(self, pos, ref):
        out, o = [], 12
        for l in range(4):
            n = int(pos[o])
            out += [dict(l=l + 1, r=ref(x[1]), b=num(x[2])) for x in pos[o + 1:o + 1 + n]]
            o += 1 + n
        return out

    def page_no(self, raw, info):
        """n of the page"""
        try:
            n = num(raw[1][2][1].strip('"').split(' ')[1])
        except (IndexError, TypeError, AttributeError):
            return -1, False
        return n, self.known(n, sha([raw, info])) and raw[6] in (f'"{self.names.of.get(n)}"', f'"{self.names.of.get(n)}"'.replace('include_', 'includr_'))

    def read(self, f):
        """(els, props, ix) of a built form"""
        f = f[0]
        root, els, ix = f[1][2], [], []
        bind = {}
        for x in f[2][3][1:]:
            if x[0] in bind or len(x) != 2 or x[1][0] != '1' or len(x[1][1]) != 1:
                els.append(dict(self.BAD, t='strange binding'))
            bind[x[0]] = x[1][1][0]
        if num(f[2][3][0]) != len(f[2][3]) - 1 or num(f[2][2][0]) != len(f[2][2]) - 1:
            els.append(dict(self.BAD, t='wrong count'))
        back = {v: k for k, v in self.ids.items()}

        def panel(d, kids, depth, of):
            lists, po, io = offsets(d)
            pages, infos, k = d[po][2:], d[io + 1:io + 1 + int(d[io])], 0
            if num(d[po][1]) != len(pages) or num(kids[0]) != len(kids) - 1:
                els.append(dict(self.BAD, t='wrong count'))
            name = {e[1]: self.el_no(e)[0] for e in kids[1:]}
            for l in range(4):
                for x in d[lists[l] + 1:lists[l] + 1 + int(d[lists[l]])]:
                    ix.append(dict(p=of, l=l + 1, n=name.get(x[1], -1), b=num(x[2])))
            left = list(kids[1:])
            for no, p in enumerate(pages):
                n = self.page_no(p, [])[0]
                size = self.all_size.get(n, 4)
                n, good = self.page_no(p, infos[k:k + size])
                k += size
                els.append(dict(self.BAD, d=depth, n=n, t='page' if good else 'changed page', a=self.is_area(p[6])))
                for e in [e for e in left if e[-3][-5] == str(no)]:
                    left = [x for x in left if x is not e]
                    n, good = self.el_no(e)
                    t = ('panel' if e[0] == PANEL else 'el') if good else 'changed element'
                    els.append(dict(d=depth + 1, n=n, t=t, a=e[0] == PANEL and self.is_area(e[-2][1]), id=num(e[1]),
                                    lk=back.get(bind.pop(e[1]), -1) if e[1] in bind else 0, at=self.read_sides(e[-3], num), by=self.read_by(e[-3], num)))
                    if e[0] == PANEL:
                        panel(e[2][1], e[-1], depth + 2, n)
            if left or k != len(infos):
                els.append(dict(self.BAD, t='elements on no page' if left else 'more descriptions of pages'))
        panel(root[1][1], root[2], 1, 0)
        if bind:
            els.append(dict(self.BAD, t='binding of no element'))
        return dict(els=els, props=[self.read_prop(x) for x in f[2][2][1:]], ix=ix)

    BAD = dict(d=1, n=-3, t='?', a=False, id=0, lk=0, at=[], by=[])

    def is_area(self, name):
        return name.strip('"')[:8] in ('include_', 'includr_')

    def by_name(self, name):
        """the element of this name (areas of both forms are called the same: its own rather than the other's)"""
        found = [k for k, v in self.names.of.items() if v == name and k in self.all_kind]
        return min(found, key=lambda k: k not in self.kind, default=-1)

    def el_no(self, e):
        name = e[-2][1].strip('"')
        n = self.by_name(name)
        if n == -1:
            n = self.by_name(name.replace('includr_', 'include_'))
        try:
            e = copy.deepcopy(e)
            e[-2][1] = f'"{self.names.of.get(n)}"'
            good = self.known(n, self.el_sha(e))
        except (IndexError, TypeError, ValueError):
            good = False
        return n, good

    def rest(self, f, known):
        """of everything that is not told in the trace"""
        if not known:
            return sha(f)
        f = copy.deepcopy(f)
        root = f[0][1][2]
        root[1][1] = self.skeleton(root[1][1])
        root[2] = ''
        f[0][2][2] = f[0][2][3] = ''
        return sha(f)


def together(forms):
    """what is made for one form may be found in the other"""
    for a in ('parts', 'kind', 'size', 'prop_part'):
        both = {}
        for f in forms:
            for k, v in getattr(f, a).items():
                if isinstance(v, set):
                    both.setdefault(k, set()).update(v)
                else:
                    both[k] = v
        for f in forms:
            setattr(f, {'prop_part': 'all_props'}.get(a, 'all_' + a), both)
