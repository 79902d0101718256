"""G01: what comes out does not depend on the number of processes or the order in which they happen to work."""
import contextlib
import os
import re
import shutil
import time

from objrun import Case, behaviours, run_inline, shuffler
import objects as O
import products as P
from vlib import call, digest, tree, write_tree

LEFT = {'decode_stage_0/1/x': b'{1}', 'decode_stage_1/1/x': b'{1}', 'encode_stage_1/1/x': b'{1}', 'encode_stage_0/1/x': b'',
        'encode_stage_3/version.bin': b'9', 'decode_stage_3/dummy.zip': b'', 'encode_stage_3/dummy.zip': b'',
        'decode_stage_3/old/x': b'', 'encode_stage_1/0/left': b'{1}', 'encode_stage_3/Form/x/y': b''}


def built(case, f):
    try:
        return entries(case, f)
    except Exception as e:
        return {'': f'unreadable product: {e!r}'}


def entries(case, f):
    """entries of a product; its list of itself without order, and without the identifiers that are made up anew"""
    out, all = {}, case.read_all(f)
    # their sums depend on the time (containers keep it) or on the identifiers
    vary = {f'"{n}"' for n, v in all.items() if isinstance(v, dict)} | {'"versions"'}
    for n, v in all.items():
        if n == 'versions':
            m = P.brace_of(v)
            v = repr((m[0][:2], sorted(m[0][2::2]))).encode()
        elif n == 'configinfo':
            m = P.brace_of(v)
            if len(m) == 3:
                v = repr((m[:2], m[2][0], sorted((x, '' if x in vary else y) for x, y in zip(m[2][1::2], m[2][2::2])))).encode()
        out[n] = v if isinstance(v, dict) else digest(v)
    return out


@contextlib.contextmanager
def listing(order):
    """a file system that lists its folders in another order"""
    real = os.listdir
    if order:
        os.listdir = lambda *a: order(sorted(real(*a)))
    try:
        yield
    finally:
        os.listdir = real


AREA = '\n#Область include_{}\n// {} {}\n#КонецОбласти // include_{}\n'
FORM_AREA = '"include_общее_Область"'


def area_in_form(v):
    """a group or a page of the form becomes an area"""
    form = v['form'] if isinstance(v, dict) and 'form' in v else v
    old = isinstance(form, bytes) and re.search('"(Группа[^"]*|Страница1)"'.encode(), form)
    if not old:
        return v, 0
    form = form.replace(old.group(0), FORM_AREA.encode(), 1)
    return (dict(v, form=form) if isinstance(v, dict) else form), 1


def share(case, rng):
    """areas that several modules (forms) have, each with contents of its own; number of modules and of forms"""
    n = m = 0
    for o in case.p.objs.values():
        for k, v in o.sats.items():
            if k in (['2'] if O.KINDS[o.kind]['role'] == 'inner' else O.KINDS[o.kind].get('code', [])) and rng.random() < .7:
                name = rng.choice(['общее_Область', 'общее_под_Область', 'Рядом'])
                text = AREA.format(name, n, 'текст ' * rng.randrange(1, 4), name).encode()
                if isinstance(v, dict):
                    v['text'] += text
                else:
                    o.sats[k] = v + text
                n += 1
            if case.auto and k == '0' and rng.random() < .5:
                o.sats[k], x = area_in_form(v)
                m += x
    return n, m


def view(src):
    """the sources and the areas outside of them"""
    out = dict(tree(src))
    for k, v in tree(os.path.join(os.path.dirname(src), 'общее')).items():
        out['../общее/' + k] = v
    return out


def diff(a, b):
    return sorted(str(k) for k in set(a) | set(b) if a.get(k) != b.get(k))


def run(c):
    import v8unpack
    rng, traces = c.rng, []
    c.model('ObjectsMC', 'Objects', consts=dict(MaxObjs=3, MaxEdits=0))
    behs = behaviours(c, [(1, 0, 4), (3, 0, 10), (6, 0, 16), (9, 0, 20), (14, 0, 20), (24, 0, 8), (40, 0, 3)])
    modes, areas = {}, []

    def runs(k):
        yield 'back', lambda x: list(x)[::-1]
        yield 'shuffled', shuffler(rng)
        if k % 3 == 0:
            yield 'twice', None
        if k % 6 == 0:
            yield 'processes %d' % rng.choice([2, 3, 5]), 'real'
        if k % 6 == 3:
            yield 'processes 1', 'real'

    for k, b in enumerate(behs[:c.n(50, 400)]):
        case = Case(c, rng, b)
        d = c.dir()
        case.make()
        shared = share(case, rng) if k % 2 else (0, 0)
        areas.append(shared)
        src, r = case.extract(case.p, d)
        ev = []
        first = view(src) if r[0] == 'ok' else None
        ev.append(dict(ev='Again', ok=r[0] == 'ok', same=True, why=str(r[1:])[:300]))
        out = None
        if first is not None and not shared[1]:   # a form may not be built with what another one has in the area
            f, r = case.build(src, d)
            out = built(case, f) if r[0] == 'ok' else None
            ev.append(dict(ev='Again', ok=r[0] == 'ok', same=True, why=str(r[1:])[:300]))
        for name, order in runs(k) if first is not None and (out is not None or shared[1]) else ():
            modes[name] = modes.get(name, 0) + 1
            if case.stub and modes[name] < 3:
                time.sleep(2)
            src2, f2 = os.path.join(d, 'second', 'src'), os.path.join(d, 'two', 'out')
            shutil.rmtree(os.path.dirname(src2), ignore_errors=True)
            os.makedirs(os.path.dirname(f2), exist_ok=True)
            if rng.random() < .5:  # the folder is not empty: what an earlier extraction left is not kept
                write_tree(src2, {'Form/old/Form.json': b'{}', 'old.bsl': b'', 'dummy.zip': b'', 'Catalog/x': b'x'})
            t = os.path.join(d, 't') if rng.random() < .5 else None
            if t:
                write_tree(t, LEFT)
            if order == 'real':
                go = lambda fn, *a, **kw: call(fn, *a, processes=int(name.split()[1]), temp_dir=t, **kw)
            else:
                def go(fn, *a, **kw):
                    with listing(order):
                        return run_inline(order, fn, *a, temp_dir=t, **kw)
            r = go(v8unpack.extract, os.path.join(d, 'in.bin'), src2, options=case.options())
            x = diff(first, view(src2)) if r[0] == 'ok' else []
            ev.append(dict(ev='Again', ok=r[0] == 'ok', same=not x, why=f'extract {name}: {x[:5]} {r[1:]}'[:400]))
            if shared[1]:
                continue
            if t:
                write_tree(t, LEFT)
            r = go(v8unpack.build, src, f2, options=case.options())
            x = diff(out, built(case, f2)) if r[0] == 'ok' else []
            ev.append(dict(ev='Again', ok=r[0] == 'ok', same=not x, why=f'build {name}: {x[:5]} {r[1:]}'[:400]))
            if r[0] == 'ok':
                x = diff(first, view(src))
                ev.append(dict(ev='Again', ok=True, same=not x, why=f'building changed the sources {x[:5]}'))
        shutil.rmtree(d, ignore_errors=True)
        traces.append(dict(id=f'p{k}', events=ev, about=case.about(), init=dict(auto=case.auto)))
    # forms of the samples that have an area in common
    import v8unpack
    for k, base in enumerate(['epf802', 'cf']):
        d, ev, m, first = c.dir(), [], 0, None
        e = dict(P.sample(base))
        for n in e:
            if n.endswith('.0'):
                e[n], x = area_in_form(e[n])
                m += x
        with open(os.path.join(d, 'in.bin'), 'wb') as h:
            h.write(P.write_product(e))
        for order in (None, lambda x: list(x)[::-1], shuffler(rng), shuffler(rng)):
            shutil.rmtree(os.path.join(d, 'x'), ignore_errors=True)
            r = run_inline(order, v8unpack.extract, os.path.join(d, 'in.bin'), os.path.join(d, 'x', 'src'), options={'auto_include': True})
            now = view(os.path.join(d, 'x', 'src')) if r[0] == 'ok' else {}
            first = now if first is None else first
            x = diff(first, now)
            ev.append(dict(ev='Again', ok=r[0] == 'ok', same=not x, why=f'{x[:5]} {r[1:]}'[:400]))
        shutil.rmtree(d, ignore_errors=True)
        areas.append((0, m))
        traces.append(dict(id=f's{k}', events=ev, about=dict(base=base, kinds=['sample'], steps=['extract']), init=dict(auto=True)))
    c.extra['runs'] = modes
    c.extra['shared'] = dict(modules=sum(a for a, _ in areas), forms=sum(b for _, b in areas))
    for t in traces[-3:]:
        c.sample(t['about'])
    c.validate('ObjectsTrace', traces)
