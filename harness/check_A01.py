"""A01: what the container writer produces is a well-formed container that reads back as exactly what was put in."""
import os
import shutil

import v8fmt
from containers import content, esc, layout_event, read_events
from vlib import call, digest, write_tree


def one(c, extract, build, sets, tid, traces, samples=None):
    """sets: list of {name: bytes}, one per container of the file ('0' is 32-bit, '1' is 64-bit)."""
    d = c.dir()
    src = os.path.join(d, 'src')
    evs = []
    for ci, ent in enumerate(sets):
        write_tree(os.path.join(src, str(ci)), ent)
        for nm, ct in ent.items():
            evs.append(dict(ev='Put', c=str(ci), name=esc(nm), dig=digest(ct)))
    fn = os.path.join(d, 'out', 'built.cf')
    res = call(build, src, fn, True)
    if res[0] == 'ok' and os.path.isfile(fn):
        data = open(fn, 'rb').read()
        base = 0
        for ci in range(len(sets)):
            bits = 32 if ci == 0 else 64
            try:
                ev, p = layout_event(data, base, bits, str(ci))
                evs.append(ev)
                base += v8fmt.extents(p, bits)[-1][1]
                # a following container starts right after the last block of this one
            except (v8fmt.BadContainer, ValueError, UnicodeDecodeError) as e:
                evs.append(dict(ev='Bad', c=str(ci), why=str(e)))
                break
        out = os.path.join(d, 'back')
        r2 = call(extract, fn, out, False, False)
        evs += read_events(out)
        evs.append(dict(ev='End', ok=r2[0] == 'ok', why=str(r2[1:])[:300]))
    else:
        evs.append(dict(ev='End', ok=False, why=str(res[1:])[:300]))
    about = [dict(n=len(s), sizes=[len(x) for x in list(s.values())[:12]]) for s in sets]
    traces.append(dict(id=tid, events=evs, about=about))
    shutil.rmtree(d)


def run(c):
    from v8unpack.container_reader import extract
    from v8unpack.container_writer import build
    c.model('ContainerWriter', 'ContainerWriter')
    traces, rng = [], c.rng
    edge = [0, 1, 2, 30, 31, 510, 511, 512, 513, 514, 1023, 1024, 1025, 8191, 8192, 8193, 20000]

    def names(n):
        base = ['root', 'version', 'versions', 'copyinfo', 'Ёж', 'файл с пробелом', 'configinfo', 'A.0', 'a.0.1',
                '\U0001F600', 'UPPER', 'x' * 60]
        res = base[:]
        rng.shuffle(res)
        k = 0
        while len(res) < n:
            res.append('%08x-%04x.%d' % (rng.getrandbits(32), k, k % 10))
            k += 1
        return res[:n]

    # every edge size alone and in pairs: the data block's minimum capacity, single-block documents
    for s in edge:
        one(c, extract, build, [{'data': content(rng, s)}], f'size{s}', traces)
    # numbers of entries around every TOC block boundary (512 bytes / 12 per entry)
    counts = [1, 2, 3, 41, 42, 43, 44, 84, 85, 86, 127, 128, 129, 170, 171, 213, 214, 256]
    for n in counts:
        ent = {nm: content(rng, rng.choice([0, 1, 5, 40])) for nm in names(n)}
        one(c, extract, build, [ent], f'count{n}', traces)
    # files of two containers: the 32-bit one followed by a 64-bit one
    for k in range(c.n(60, 400)):
        n0 = rng.choice([1, 2, 5, 42, 43, 90])
        n1 = rng.choice([1, 2, 3, 7, 17, 63])
        sets = [{nm: content(rng, rng.choice(edge)) for nm in names(n0)} if n0 < 10 else
                {nm: content(rng, rng.randrange(40)) for nm in names(n0)},
                {nm: content(rng, rng.choice(edge)) for nm in names(n1)}]
        one(c, extract, build, sets, f'two{k}', traces)
    big = [2730, 2731] if not c.thorough else [2729, 2730, 2731, 5461, 5462]
    for n in big:   # 65536 / 24: the TOC of a 64-bit container takes a second block
        one(c, extract, build, [{'a': b'1'}, {'%05d' % i: b'%d' % i for i in range(n)}], f'big{n}', traces)
    for k in range(c.n(120, 1500)):
        n = rng.randrange(1, 12)
        one(c, extract, build, [{nm: content(rng, rng.choice(edge + [rng.randrange(3000)])) for nm in names(n)}],
            f'rnd{k}', traces)
    for t in traces[:2] + traces[-2:]:
        c.sample(t['about'])
    c.validate('ContainerTrace', traces)
