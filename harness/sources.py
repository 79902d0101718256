"""Replays behaviours of spec/Sources.tla into OrganizerFile / OrganizerFileCE (unpack, hand edits, pack)."""
import json
import os
import shutil

from vlib import InlinePool, call, tree, write_tree

BIN = ['Форма.json', 'Форма2.json', 'Форма.id.json', 'a.b.json', 'Картинка.png', 'x.c1b64', 'a b.txt', 'Форма.v2.json',
       'Форма.1a.json', 'Форм.json', '-.bin', 'Form.elem', 'bsl.json', 'ФОРМА.json', 'Форма.jso', 'Форма.обр.json',
       'Role.0.c1brace', 'Role.0.c1brace', 'Role.c1brace']
CODE = ['Form.obj.bsl', 'Form.bsl', 'Form2.bsl', 'Form.mgr.bsl', 'М.bsl', 'Form.obj2.bsl', 'obj.bsl', 'М 1.con.bsl']
ELEM = ['Форма.elem.json', 'Форма2.elem.json', 'Форма.а.elem.json', 'Form.elem.json', 'elem.elem.json']
DIRS = [('', 'CommonModule/М', 'Catalog'), ('', 'Form', 'Form/Форма1'), ('', 'Form/Форма1', 'Form/Форма2'),
        ('', 'src', 'src/src'), ('', 'Form/Ф', 'Form/Ф/Картинки'), ('', 'A.5.b', 'A')]
OUTS = ['core', 'base/Форма1', 'core/Form', 'src2', 'srcx/core', '../shared', 'a b/c', 'core/src', 'sr', 'base.3.x']
NUMS = [1, 2, 3, 9, 10, 99, 100, 3000075, 3000076, 4100200, 30000750, 3000075100]


class World:
    def __init__(self, rng, plain):
        self.rng, self.plain = rng, plain
        a, b, c = rng.choice(DIRS)
        self.dirs = {'': a, 'A': b, 'B': c}
        outs = rng.sample(OUTS, 3)
        if not plain and rng.random() < 0.4:      # next to the folder of one configuration, within src of the others
            outs[0] = rng.choice(['src/conf2', 'src/общее', 'src/con'])
        self.outs = {'c': outs[0], 'd': outs[1]}
        kinds = [[BIN], [CODE], [ELEM], [BIN, CODE, ELEM]][rng.choice([0, 1, 2, 3, 3])]
        pool = list(dict.fromkeys(rng.choice(rng.choice(kinds)) for _ in range(40)))
        for k in BIN + CODE + ELEM:
            if k not in pool:
                pool.append(k)
        self.names = dict(zip(['x', 'y', 'z', 'w', 'q'], pool))
        if plain and rng.random() < 0.15:
            self.names['z'] = rng.choice(['version', 'Форма.5.json', 'Форма'])
        self.rev = {v: k for k, v in self.names.items()}
        nums = sorted(rng.sample(NUMS, 3))
        self.vers = {-1: -1, 0: 0, 3: nums[0], 5: nums[1], 12: nums[2]}
        base = {'tree': [{'name': 'Кнопка', 'type': 'Button'}], 'data': {'Кнопка': ['1', '"а"']}, 'props': ''}
        cs, how = {}, rng.randrange(4)
        for n, c in enumerate('pqr'):
            d = json.loads(json.dumps(base))
            d['props'] = ['x' * 70000 + c, c + ' ' * 5, 'Ё' + c, c][how]
            if how == 3 and n:
                d['tree'].append({'name': 'Поле%d' % n, 'child': [{'name': 'ы'}]})
                d['data']['Поле%d' % n] = d['data']['Поле%d/ы' % n] = ''
            cs[c] = json.dumps(d, ensure_ascii=False, indent=2).encode('utf-8')
        if all(n.endswith('.bsl') for n in list(self.names.values())[:5]):
            cs = dict(zip('pqr', rng.sample([b'A = 1;\n', b'A = 1;', b'', b'\n', 'Ё\n\n'.encode(), b'a = 1;\n', b' A = 1;\n'], 3)))
        elif not any(n.endswith(('.bsl', '.elem.json')) for n in list(self.names.values())[:5]):
            cs = dict(zip('pqr', rng.sample([b'', b'\0', b'\xff\xfe', b'a\r\n', b'a\n', b'x' * 5000, b'x' * 4999 + b'y'], 3)))
        self.content = cs
        self.crev = {v: k for k, v in cs.items()}

    def index(self, entries, stay):
        """the JSON index: entries in any order"""
        es = list(entries)
        self.rng.shuffle(es)
        root = {}
        for e in es:
            node = root
            for part in [x for x in self.dirs[e['d']].split('/') if x]:
                node = node.setdefault(part, {})
            if e['n'] == '*':
                node['*'] = self.outs[e['td']]
            elif e['td'] == '':
                node[self.names[e['n']]] = stay
            else:
                node[self.names[e['n']]] = self.outs[e['td']] + '/' + self.names[e['tn']]
        return root

    def versioned(self, name, v):
        if v <= 0:
            return name
        parts = name.rsplit('.', 1)
        return f'{parts[0]}.{self.vers[v]}.{parts[1]}'

    def where(self, src, root, path):
        """absolute file path -> abstract place"""
        if path.startswith(src + os.sep):
            d, n = os.path.split(os.path.relpath(path, src))
            for k, c in self.dirs.items():
                if c == d:
                    for m, cn in self.names.items():
                        for v in ((0,) if self.plain else (0, 3, 5, 12)):
                            if self.versioned(cn, v) == n:
                                return ['src', k, m, v]
        else:
            d, n = os.path.split(os.path.relpath(path, root))
            for k, c in self.outs.items():
                if os.path.normpath(c) == d and n in self.rev:
                    return ['out', k, self.rev[n], 0]
        return ['?', path, '', 0]

    def path(self, src, root, place):
        kind, d, n, v = place
        if kind == 'src':
            return os.path.join(src, self.dirs[d], self.versioned(self.names[n], v))
        return os.path.normpath(os.path.join(root, self.outs[d], self.names[n]))


def replay(c, behaviour, tid, plain, order):
    from v8unpack.organizer_file import OrganizerFile
    from v8unpack.organizer_file_ce import OrganizerFileCE
    rng = c.rng
    w = World(rng, plain)
    top = c.dir()
    root = os.path.join(top, 'u', 'root')
    src = os.path.join(root, 'src') if plain else os.path.join(root, 'src', 'conf')
    os.makedirs(src)       # the folder of sources exists, perhaps empty
    index = w.index(behaviour['idx'], rng.choice(['', None]))
    if not index:
        index = rng.choice([None, {}])
    evs = [dict(ev='Index', entries=behaviour['idx'])]
    cls = OrganizerFile if plain else OrganizerFileCE
    vs = [-1] if plain else [0, 3, 5, 12]
    seen = set()
    pool = lambda: InlinePool(order)

    def listing():
        fs = []
        for p, data in sorted(tree(top).items()):
            if data is None or p.startswith('stage') or p.startswith('back'):
                continue
            fs.append(w.where(src, root, os.path.join(top, p)) + [w.crev.get(data, '?')])
        evs.append(dict(ev='Listing', files=fs))

    def build(v):
        back = os.path.join(top, 'back')
        r = call(cls.pack, src, back, pool=pool(), index=index, descent=None if plain else w.vers[v])
        fs = []
        for p, data in sorted(tree(back).items()):
            if data is not None:
                place = w.where(back, top, os.path.join(back, p))
                fs.append([place[1], place[2] if place[0] == 'src' and place[3] == 0 else '?' + p, w.crev.get(data, '?')])
        evs.append(dict(ev='Build', v=v, ok=r[0] == 'ok', files=fs if r[0] == 'ok' else [], why=str(r[1:])[:300]))
        shutil.rmtree(back, ignore_errors=True)

    for op in behaviour['ops']:
        if op['op'] == 'unpack':
            stage = os.path.join(top, 'stage')
            files = [[f[0], f[1], cc] for f, cc in op['p']]
            write_tree(stage, {os.path.join(w.dirs[d], w.names[n]): w.content[cc] for d, n, cc in files})
            r = call(cls.unpack, stage, src, pool=pool(), index=index, descent=None if plain else w.vers[op['v']])
            evs.append(dict(ev='Unpack', v=op['v'], files=files, ok=r[0] == 'ok', why=str(r[1:])[:300]))
            shutil.rmtree(stage)
            seen.add(op['v'])
            listing()
        elif op['op'] == 'edit':
            p = w.path(src, root, op['k'])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(w.content[op['c']])
            evs.append(dict(ev='Edit', file=[*op['k'], op['c']]))
        else:
            p = w.path(src, root, op['k'])
            if os.path.isfile(p):
                os.remove(p)
            evs.append(dict(ev='Remove', file=[*op['k'], '']))
        for v in vs if plain else ([op['v']] if op['op'] == 'unpack' else [rng.choice(vs)]):
            build(v)
    if not plain:
        for v in vs:
            build(v)
    shutil.rmtree(top)
    return dict(id=tid, events=evs, about=dict(index=index, dirs=w.dirs, names=w.names, vers=w.vers))


def run(c, plain):
    c.model('SourcesMC', 'SourcesPlain' if plain else 'Sources')
    rng, traces = c.rng, []

    def order(idx):
        idx = list(idx)
        rng.shuffle(idx)
        return idx

    k = 0
    for depth, num in ((2, c.n(150, 3000)), (4, c.n(250, 5000)), (7, c.n(150, 3000))):
        r = c.tlc('SourcesMC', 'SourcesEmit' if plain else 'SourcesEmitV', consts={'MaxOps': depth},
                  args=('-simulate', f'num={num}', '-depth', '30', '-seed', str(c.seed * 97 + depth)))
        for b in rng.sample(r.prints, min(num, len(r.prints))):
            k += 1
            traces.append(replay(c, b, f's{k}', plain, order))
    for t in traces[-3:]:
        c.sample(dict(about=t['about'], ops=[e['ev'] for e in t['events']]))
    c.validate('SourcesTrace', traces)
