"""Rendering / recording of container files (shared by the container checks)."""
import os
import struct

import v8fmt
from vlib import call, digest, tree


def esc(name):
    return name.encode('unicode_escape').decode('ascii')


def content(rng, n, kind=None):
    kind = kind or rng.choice(['text', 'rand', 'zero', 'rn'])
    if kind == 'rand':
        return rng.randbytes(n)
    if kind == 'zero':
        return b'\0' * n
    if kind == 'rn':
        return (b'\r\n00000200 00000200 7fffffff \r\n' * (n // 31 + 1))[:n]
    return (('{%d,"Строка",}\n' % rng.randrange(1000)).encode() * (n // 16 + 1))[:n]


def layout_event(data, base, bits, c):
    f = v8fmt.FMT[bits]
    p = v8fmt.parse(data, base, bits)

    def bl(bs):
        return [[b[0], b[1], b[2], -1 if b[3] == f['end'] else b[3]] for b in bs]

    return dict(ev='File', c=c, bits=bits, base=base, len=len(data), bh=f['bh'], hdr=f['hdr'], ent=f['entsz'],
                count=p['count'], toc=bl(p['toc']),
                entries=[dict(name=esc(e['name']), attr=bl(e['attr']), data=bl(e['body']), dig=digest(e['data']))
                         for e in p['entries']]), p


def read_events(folder):
    """What the real reader left on disk: folder/<container index>/<entry>."""
    evs = []
    for rel, data in sorted(tree(folder).items()):
        c, _, name = rel.partition(os.sep)
        if not name or data is None:
            if data is None and name:
                evs.append(dict(ev='Read', c=c, name=esc(name), dig='directory'))
            continue
        evs.append(dict(ev='Read', c=c, name=esc(name), dig=digest(data)))
    return evs


def render(case, bits, rng, contents, names, base=b'', straddle=0, tails=None):
    """Bytes of one container laid out exactly as the specification's terminal state `case` says.
    contents/names: per entry."""
    f = v8fmt.FMT[bits]
    bh = f['bh']
    n = len(contents)
    blocks = case['blocks']
    docs = {}
    for i in range(n):
        t = (tails or [b'\0\0\0\0'] * n)[i]
        big = rng.choice([638000000000000, 0, 2 ** 63, 2 ** 64 - 1, 315537897599999999])
        docs[2 * i + 1] = v8fmt.attr_doc(names[i], t, created=big, modified=big)
        docs[2 * i + 2] = contents[i]
    toc_len = n * f['entsz']
    size = {d: len(b) for d, b in docs.items()}
    size[0] = toc_len

    def pos(d, unit, total_units):
        if unit <= 0:
            return 0
        if unit >= total_units:
            return size[d]
        p = unit * (size[d] // total_units) - (straddle if size[d] // total_units > straddle else 0)
        return max(0, min(size[d], p))

    # first pass: byte extents
    off = f['hdr']
    filled = {}
    lay = []
    for k, b in enumerate(blocks):
        d, tu = b['o'], b['doc']
        fr = filled.get(d, 0)
        a, z = pos(d, fr, tu), pos(d, fr + b['len'], tu)
        cap = (z - a) + (b['cap'] - b['len']) * 13
        if k:
            off += case['gap'] * 17
        lay.append(dict(d=d, off=off, cap=cap, a=a, z=z, first=d not in filled, nxt=f['end']))
        filled[d] = fr + b['len']
        off += bh + cap
    last = {}
    for b in lay:
        if b['d'] in last:
            last[b['d']]['nxt'] = b['off']
        last[b['d']] = b
    first = {b['d']: b['off'] for b in lay if b['first']}
    toc = b''.join(struct.pack(f['ent'], first[2 * i + 1], first[2 * i + 2], f['end']) for i in range(n))
    docs[0] = toc
    out = bytearray()
    if bits == 32:
        out += struct.pack('<4i', f['end'], 512, n, 0)
    else:
        out += struct.pack('<Q3i', f['end'], 512, n, 0)
    for b in lay:
        out += b'\xee' * (b['off'] - len(out))
        out += v8fmt.block_header(size[b['d']] if b['first'] else 0, b['cap'], b['nxt'], bits)
        body = docs[b['d']][b['a']:b['z']]
        out += body + b'\0' * (b['cap'] - len(body))
    return bytes(out)


def pack_simple(entries, bits=32, magic_first=True):
    """A tightly packed container of {name: bytes}: what the platform itself writes for a nested container."""
    f = v8fmt.FMT[bits]
    bh, n = f['bh'], len(entries)
    off = f['hdr'] + bh + max(f['idx'], n * f['entsz'])
    toc, body = b'', b''
    for name, data in entries.items():
        a = v8fmt.attr_doc(name)
        toc += struct.pack(f['ent'], off, off + bh + len(a), f['end'])
        part = v8fmt.block_header(len(a), len(a), f['end'], bits) + a
        cap = max(len(data), 512)
        part += v8fmt.block_header(len(data), cap, f['end'], bits) + data + b'\0' * (cap - len(data))
        body += part
        off += len(part)
    head = struct.pack('<4i', f['end'], 512, n, 0) if bits == 32 else struct.pack('<Q3i', f['end'], 512, n, 0)
    room = max(f['idx'], n * f['entsz'])
    return head + v8fmt.block_header(n * f['entsz'], room, f['end'], bits) + toc + b'\0' * (room - len(toc)) + body
