"""A03: compression and nested containers of any depth are inverse on writing and reading, in any task order."""
import os
import shutil
import zlib

import v8fmt
from containers import content, esc, pack_simple
from vlib import InlinePool, call, digest, tree, write_tree

MAGIC = b'\xff\xff\xff\x7f'


def nested(data, path, evs):
    if data[:4] != MAGIC:
        evs.append(dict(ev='Stored', path=path, dig=digest(data)))
        return
    for e in v8fmt.parse(data, 0, 32)['entries']:
        nested(e['data'], path + [esc(e['name'])], evs)


def leaves(folder):
    for rel, data in sorted(tree(folder).items()):
        p = [esc(x) for x in rel.split(os.sep)]
        yield p, ('directory' if data is None else digest(data))


def deflate(rng, data):
    """Some legal raw-deflate encoding of data."""
    z = zlib.compressobj(rng.choice([0, 1, 6, 9]), zlib.DEFLATED, -15, rng.choice([1, 8, 9]),
                         rng.choice([zlib.Z_DEFAULT_STRATEGY, zlib.Z_FIXED, zlib.Z_HUFFMAN_ONLY, zlib.Z_RLE]))
    out, k = b'', 0
    step = rng.choice([1 << 30, 100, 4096, 5000])
    while k < len(data):
        out += z.compress(data[k:k + step])
        if rng.random() < 0.2:
            out += z.flush(rng.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH]))
        k += step
    return out + z.flush()


def build_tree(files):
    """{tuple path: bytes} -> nested dict"""
    root = {}
    for p, data in files.items():
        d = root
        for x in p[:-1]:
            d = d.setdefault(x, {})
        d[p[-1]] = data
    return root


def pack(node):
    return pack_simple({k: (pack(v) if isinstance(v, dict) else v) for k, v in sorted(node.items())})


def one(c, api, files_by_c, tid, traces, rng, foreign=False, pool=None):
    d = c.dir()
    src, z0, fn = os.path.join(d, 'src'), os.path.join(d, 'z'), os.path.join(d, 'o', 'f.cf')
    evs = []
    for ci, files in enumerate(files_by_c):
        write_tree(os.path.join(src, str(ci)), {os.path.join(*p): b for p, b in files.items()})
        for p, b in files.items():
            evs.append(dict(ev='Put', path=[str(ci)] + [esc(x) for x in p], dig=digest(b)))
    err = None
    if foreign:   # the compressed entries come from another writer: only the reader is judged
        data = b''
        for ci, files in enumerate(files_by_c):
            node = build_tree(files)
            data += pack_simple({k: deflate(rng, pack(v) if isinstance(v, dict) else v) for k, v in sorted(node.items())},
                                32 if ci == 0 else 64)
        os.makedirs(os.path.dirname(fn))
        with open(fn, 'wb') as f:
            f.write(data)
    else:
        r = call(api['compress'], src, z0, pool=None)
        if r[0] == 'ok':
            for p, _ in leaves(z0):
                raw = open(os.path.join(z0, *[x.encode().decode('unicode_escape') for x in p]), 'rb').read()
                z = zlib.decompressobj(-15)
                try:
                    body = z.decompress(raw)
                    evs.append(dict(ev='Stream', c=p[0], name=p[1] if len(p) > 1 else '', eof=z.eof,
                                    rest=len(z.unused_data)))
                    nested(body, p, evs)
                except (zlib.error, v8fmt.BadContainer) as e:
                    evs.append(dict(ev='Bad', why=str(e)))
            evs.append(dict(ev='AllStored'))
            r = call(api['build'], z0, fn, True)
        if r[0] != 'ok':
            err = r
    if err is None:
        x0, x1 = os.path.join(d, 'x0'), os.path.join(d, 'x1')
        r = call(api['extract'], fn, x0, False, False)
        if r[0] == 'ok':
            r = call(api['inflate'], x0, x1, pool=pool)
        if r[0] != 'ok':
            err = r
        elif os.path.isdir(x1):
            for p, dg in leaves(x1):
                evs.append(dict(ev='Read', path=p, dig=dg))
    evs.append(dict(ev='End', ok=err is None, why=str(err)[:300]))
    traces.append(dict(id=tid, events=evs, about=[{'/'.join(p): len(b) for p, b in list(f.items())[:10]}
                                                  for f in files_by_c]))
    shutil.rmtree(d)


def run(c):
    from v8unpack.container_reader import extract, decompress_and_extract
    from v8unpack.container_writer import build, compress_and_build
    from v8unpack import helper
    api = dict(extract=extract, inflate=decompress_and_extract, build=build, compress=compress_and_build)
    c.model('Nesting', 'Nesting')
    rng, traces = c.rng, []
    trees = []
    for n in (1, 2, 3, 5, 7):
        r = c.tlc('Nesting', 'NestingEmit', consts={'MaxNodes': n}, args=(
            '-simulate', f'num={c.n(40, 600)}', '-depth', '40', '-seed', str(c.seed * 100 + n)))
        trees += [x['tree'][0] for x in r.prints]
    names = {'a': ['root', 'Модуль', 'a.0'], 'b': ['version', 'имя с пробелом', 'b.1'], 'c': ['text', 'info', '\U0001F600']}

    def body(kind):
        if kind == 'e':
            return b''
        if kind == 's':
            return content(rng, rng.choice([1, 3, 4, 5, 17, 510, 512, 514]))
        if kind == 'm':
            return content(rng, rng.randrange(1000, 9000))
        if kind == 'l':     # incompressible: the compressed form crosses the reader's 8192-byte chunks
            return content(rng, rng.choice([8187, 8186, 8188, 8192, 16372, 16377, 16384, 30000]), 'rand')
        return content(rng, rng.choice([70000, 200000]), rng.choice(['zero', 'text', 'rn']))

    def order(idx):
        idx = list(idx)
        rng.shuffle(idx)
        return idx

    def files_of(t):
        ren = {k: rng.choice(v) for k, v in names.items()}
        return {tuple(ren[x] for x in p): body(k) for p, k in t}

    for k, t in enumerate(trees):
        sets = [files_of(t)]
        if rng.random() < 0.3:
            sets.append(files_of(rng.choice(trees)))
        one(c, api, sets, f'w{k}', traces, rng, pool=InlinePool(order))
        one(c, api, sets, f'r{k}', traces, rng, foreign=True, pool=InlinePool(order))
    # compressed sizes swept over the chunk boundary byte by byte; the real process pool runs one of them
    for base in (8192, 16384):
        for dlt in range(-8, 9):
            files = {('f%d' % j,): content(rng, base + dlt - 5 + j, 'rand') for j in (0, 1)}
            one(c, api, [files], f'chunk{base + dlt}', traces, rng, pool=InlinePool(order))
            one(c, api, [files], f'fchunk{base + dlt}', traces, rng, foreign=True, pool=InlinePool(order))
    # very repetitive data of every size around a power of two (a decompressor may hold output when its input ends)
    for e in range(8, c.n(19, 22)):
        files = {('z%d' % j,): bytes([e]) * ((1 << e) + j) for j in range(-1, 5)}
        files[('zz',)] = bytes((1 << e) + 258)
        one(c, api, [files], f'rep{e}', traces, rng, pool=InlinePool(order))
    pool = helper.get_pool(processes=3)
    try:
        one(c, api, [{('e%03d' % j,): content(rng, j * 7) for j in range(150)}], 'pool', traces, rng, pool=pool)
    finally:
        helper.close_pool(pool)
    for t in traces[:3]:
        c.sample(t['about'])
    c.validate('NestingTrace', traces)
