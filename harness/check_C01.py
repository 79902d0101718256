"""C01: splitting modules into include areas and assembling them again loses, duplicates or moves nothing."""
import os
import shutil

from areas import DIRS, Concrete, area_files, vary
from vlib import InlinePool, call, tree, write_tree

FOLDERS = ['', 'CommonModule', 'Form/Форма1', 'Catalog/Спр/Form/Ф', 'a/b c']


def one(c, OrganizerFile, product, pre_names, cx, tid, traces, order):
    """product: [(folder, file, tokens)]; pre_names: names whose files must exist beforehand."""
    rng, d = c.rng, c.dir()
    stage, src, back = os.path.join(d, 'stage'), os.path.join(d, 'u/v/w/src'), os.path.join(d, 'back')
    os.makedirs(os.path.join(d, 'u/v/w'))
    evs, areas = [], {}
    files, moved = {}, {}
    index, renamed = None, {}
    if rng.random() < 0.35:          # the index of the product renames areas and moves modules
        index = {}
        names = sorted({t[1] for _, _, toks in product for t in toks if t[0] in ('inc', 'incr')})
        renamed = {cx.area(n): rng.choice(['core_замена_%s', 'base_%s', '__up_%s', 'з%s'][:4 if len(product) == 1 else 3]) % n for n in names
                   if rng.random() < 0.5 and n not in pre_names}
        if renamed or rng.random() < 0.5:
            index['Области include'] = renamed
        for folder, fn, _ in product:
            if rng.random() < 0.5:
                node = index
                for part in [x for x in folder.split('/') if x]:
                    node = node.setdefault(part, {})
                node[fn] = moved[os.path.join(folder, fn)] = f'base/Модули/{len(moved)}/{fn}'
    for folder, fn, toks in product:
        text = ''.join(cx.line(t) for t in toks)
        files[os.path.join(folder, fn)] = text
        evs.append(dict(ev='Module', path=os.path.join(folder, fn), lines=toks))
        for n, p in area_files(cx, toks, os.path.dirname('../' + moved[os.path.join(folder, fn)])
                               if os.path.join(folder, fn) in moved else folder, renamed=renamed).items():
            areas.setdefault(n, os.path.normpath(os.path.join(src, p)))
    write_tree(stage, files)
    write_tree(stage, {'Form/Форма1/Форма1.json': b'{"a": 1}', 'x.id.json': b'{"b": "\xd1\x8f"}'})
    for n in pre_names:
        if not areas[n].startswith(src + os.sep):
            toks = [['code', 'x', ''], ['dyn', 'y', '']]
            for dd in DIRS:
                cx.line(['dyn', 'y', dd])
            os.makedirs(os.path.dirname(areas[n]), exist_ok=True)
            with open(areas[n], 'w', encoding='utf-8') as f:
                f.write(''.join(cx.line(t) for t in toks))
            evs.append(dict(ev='Pre', name=n, lines=toks))
    before = set(tree(d, read=False))
    r = call(OrganizerFile.unpack, stage, src, pool=InlinePool(order), index=index)
    place = {'u/v/w/' + (moved[p] if p in moved else 'src/' + p): p for p in files}
    rel = {os.path.relpath(p, d): n for n, p in areas.items()}
    got = tree(d)
    for p, data in sorted(got.items()):
        if p in rel:
            evs.append(dict(ev='File', name=rel[p], lines=cx.lines(data.decode('utf-8'))))
        elif p in place:
            evs.append(dict(ev='Src', path=place[p], lines=cx.lines(data.decode('utf-8'))))
        elif p not in before and data is not None and p not in ('u/v/w/src/Form/Форма1/Форма1.json', 'u/v/w/src/x.id.json'):
            evs.append(dict(ev='Extra', path=p))
    evs.append(dict(ev='Split', ok=r[0] == 'ok', why=str(r[1:])[:200]))
    if r[0] == 'ok':
        for p in sorted(got):            # some editors save with a mark of the encoding
            if p.endswith('.bsl') and not p.startswith('stage') and rng.random() < .15 and got[p] is not None:
                with open(os.path.join(d, p), 'wb') as f:
                    f.write(b'\xef\xbb\xbf' + got[p])
        r = call(OrganizerFile.pack, src, back, pool=InlinePool(order), index=index)
        for p, data in sorted(tree(back).items()):
            if p in files:
                evs.append(dict(ev='Packed', path=p, lines=cx.lines(data.decode('utf-8'))))
        evs.append(dict(ev='Joined', ok=r[0] == 'ok', why=str(r[1:])[:300]))
    traces.append(dict(id=tid, events=evs, about={'index': index, **{k: v[:300] for k, v in files.items()}}))
    shutil.rmtree(d)


def sequences(c):
    cases = []
    r = c.tlc('Areas', 'AreasEmit', consts={'MaxLines': c.n(5, 6), 'Names': '{"a", "b"}', 'Codes': '{"x"}',
                                            'Dirs': '{"", "K"}'})
    small = [x['lines'] for x in r.prints]
    for n, num in ((9, c.n(250, 2500)), (14, c.n(400, 4000)), (22, c.n(250, 2500))):
        r = c.tlc('Areas', 'AreasEmit', consts={'MaxLines': n},
                  args=('-simulate', f'num={num}', '-depth', '200', '-seed', str(c.seed * 31 + n)))
        cases += [x['lines'] for x in r.prints]
    return small, cases


def run(c):
    from v8unpack.organizer_file import OrganizerFile
    c.model('Areas', 'Areas')
    rng, traces = c.rng, []

    def order(idx):
        idx = list(idx)
        rng.shuffle(idx)
        return idx

    small, cases = sequences(c)
    rng.shuffle(small)
    k = 0
    for ls in small[:c.n(350, 3000)] + cases:
        k += 1
        cx = Concrete(rng)
        toks = vary(rng, ls)
        folder = rng.choice(FOLDERS)
        fn = rng.choice(['М.bsl', 'Form.obj.bsl', 'Модуль 1.mgr.bsl'])
        if rng.random() < 0.3:     # the module's last line may lack its line end
            toks[-1] = [toks[-1][0], toks[-1][1] + '!', toks[-1][2]]
            cx.line([toks[-1][0], toks[-1][1][:-1], toks[-1][2]])
            if not cx.line(toks[-1]):
                toks.pop()
        product, pre = [(folder, fn, toks)], []
        if rng.random() < 0.35:    # some areas are read-only
            names = sorted({t[1] for t in toks if t[0] == 'inc'})
            ro = {n for n in names if rng.random() < 0.6}
            for n in ro:
                cx.names[n] = 'core_ro_' + n      # outside the source folder: its file is maintained elsewhere
            toks = [['incr' if t[0] == 'inc' and t[1] in ro else t[0], t[1], t[2]] for t in toks]
            product = [(folder, fn, toks)]
            # a read-only area hides the areas inside it; all their files exist already
            pre = sorted({t[1] for t in toks if t[0] == 'incr'})
        elif rng.random() < 0.3:   # several modules, areas of the second renamed or shared
            ls2 = rng.choice(cases)
            share = rng.random() < 0.4
            t2 = vary(rng, ls2)
            if share:              # shared areas live outside the source folder
                for t in toks + t2:
                    if t[0] == 'inc':
                        cx.names.setdefault(t[1], 'core_sh_' + t[1])
            else:
                t2 = [[t[0], t[1] + 'q' if t[0] == 'inc' else t[1], t[2]] for t in t2]
            product.append((rng.choice(FOLDERS), 'Второй.bsl', t2))
        one(c, OrganizerFile, product, pre, cx, f'a{k}', traces, order)
    for t in traces[-3:]:
        c.sample(t['about'])
    c.validate('AreasTrace', traces)
