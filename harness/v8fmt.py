"""Independent (harness-side) parser and renderer of the 1C v8 container byte format.

Nothing here imports the code under test: it is the projection function between bytes on disk and the
abstract container state of spec/Container.tla (blocks, chains, table of contents, documents).
"""
import struct

FMT = {
    32: dict(hdr=16, bh=31, idx=0x200, ent='<3i', entsz=12, end=0x7fffffff, hex=8, magic=struct.pack('<i', 0x7fffffff)),
    64: dict(hdr=20, bh=55, idx=0x10000, ent='<3Q', entsz=24, end=0xffffffffffffffff, hex=16, magic=b'\xff' * 8),
}


class BadContainer(Exception):
    pass


def block_at(data, base, off, bits):
    f = FMT[bits]
    p = base + off
    h = data[p:p + f['bh']]
    if len(h) != f['bh']:
        raise BadContainer(f'block header at {off} is cut short')
    n = f['hex']
    if h[:2] != b'\r\n' or h[2 + n:3 + n] != b' ' or h[3 + 2 * n:4 + 2 * n] != b' ' or h[4 + 3 * n:] != b' \r\n':
        raise BadContainer(f'block header at {off} is malformed: {h!r}')
    try:
        doc = int(h[2:2 + n], 16)
        blk = int(h[3 + n:3 + 2 * n], 16)
        nxt = int(h[4 + 2 * n:4 + 3 * n], 16)
    except ValueError:
        raise BadContainer(f'block header at {off} is not hexadecimal: {h!r}')
    return doc, blk, nxt


def chain(data, base, off, bits):
    """All blocks of the document at off: [(off, doc, blk, next)], and the document's bytes."""
    f = FMT[bits]
    res, out, seen = [], b'', set()
    total = None
    while True:
        if off in seen:
            raise BadContainer(f'block chain loops at {off}')
        seen.add(off)
        doc, blk, nxt = block_at(data, base, off, bits)
        if total is None:
            total = doc
        body = data[base + off + f['bh']: base + off + f['bh'] + blk]
        if len(body) != blk:
            raise BadContainer(f'block at {off} runs past the end of the file')
        res.append((off, doc, blk, nxt))
        out += body
        if nxt == f['end']:
            break
        off = nxt
    if len(out) < total:
        raise BadContainer(f'document of {total} bytes has only {len(out)} bytes of blocks')
    return res, out[:total]


def parse(data, base=0, bits=32):
    """-> dict(header, toc=[blocks], entries=[dict(name, attr=[blocks], body=[blocks], data, attr_raw)])"""
    f = FMT[bits]
    if data[base:base + len(f['magic'])] != f['magic']:
        raise BadContainer('no container signature')
    if bits == 32:
        free, dflt, cnt, z = struct.unpack('<4i', data[base:base + 16])
    else:
        free, dflt, cnt, z = struct.unpack('<Q3i', data[base:base + 20])
    toc, tocdata = chain(data, base, f['hdr'], bits)
    if len(tocdata) % f['entsz']:
        raise BadContainer('table of contents is not a whole number of records')
    entries = []
    for i in range(0, len(tocdata), f['entsz']):
        a, d, e = struct.unpack(f['ent'], tocdata[i:i + f['entsz']])
        if e != f['end']:
            raise BadContainer('table of contents record without end mark')
        ab, araw = chain(data, base, a, bits)
        db, draw = (None, None) if d == f['end'] else chain(data, base, d, bits)
        if len(araw) < 22:
            raise BadContainer('attribute document too short')
        name = araw[20:].decode('utf-16-le').partition('\0')[0]
        entries.append(dict(name=name, attr=ab, body=db, data=draw, attr_raw=araw, a=a, d=d))
    return dict(free=free, dflt=dflt, count=cnt, toc=toc, entries=entries)


def extents(p, bits):
    bh = FMT[bits]['bh']
    ext = [(0, FMT[bits]['hdr'])]
    for b in p['toc']:
        ext.append((b[0], b[0] + bh + b[2]))
    for e in p['entries']:
        for b in e['attr'] + (e['body'] or []):
            ext.append((b[0], b[0] + bh + b[2]))
    return sorted(ext)


def hexn(v, bits):
    n = FMT[bits]['hex']
    s = '%0*x' % (n, v)
    return s.upper() if bits == 64 else s


def block_header(doc, blk, nxt, bits):
    return ('\r\n%s %s %s \r\n' % (hexn(doc, bits), hexn(blk, bits), hexn(nxt, bits))).encode()


def attr_doc(name, tail=b'\0\0\0\0', created=638000000000000, modified=638000000000001):
    return struct.pack('<QQi', created, modified, 0) + name.encode('utf-16-le') + tail
