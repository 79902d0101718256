"""Whole products (.cf, .cfe, .epf): reading and writing them without the code under test, and products made of parts
of the sample files.  A product is {entry name: bytes | {name: bytes}} - the entries of its container."""
import base64
import functools
import hashlib
import os
import re
import zlib

import v8fmt
from containers import pack_simple

REPO = '/repo'
MAGIC = b'\xff\xff\xff\x7f'
UUID = re.compile('[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}')
SAMPLES = dict(cf='tests/Configuration803/1Cv8.cf', cfe='tests/ConfigurationExtension803/Расширение1.cfe',
               epf803='tests/ExternalDataProcessor803/ВнешняяОбработка803.epf',
               epf802='tests/ExternalDataProcessor802/ВнешняяОбработка802.epf',
               erf='tests/ExternalReport803/ВнешнийОтчёт803.erf')


def sample(name):
    return read_product(open(os.path.join(REPO, SAMPLES[name]), 'rb').read())


@functools.cache
def stub():
    return inflated(read_raw(open(os.path.join(REPO, 'tests/data/apam.cf'), 'rb').read())[0])


def inflate(data):
    d = zlib.decompressobj(-15)
    out = d.decompress(data) + d.flush()
    if d.unused_data:
        raise v8fmt.BadContainer('data after the deflated stream')
    return out


def read_one(data, base=0, bits=32):
    """({name: content as stored}, where the container ends)"""
    out, p = {}, v8fmt.parse(data, base, bits)
    for e in p['entries']:
        if e['name'] in out:
            raise v8fmt.BadContainer(f'two entries {e["name"]}')
        out[e['name']] = e['data']
    return out, base + max(b for _, b in v8fmt.extents(p, bits))


def read_raw(data):
    """(entries of the first of two containers or None, entries of the product), as stored"""
    out, end = read_one(data)
    if end >= len(data):
        return None, out
    main, end = read_one(data, end, 64)
    if end < len(data):
        raise v8fmt.BadContainer('data after the container')
    return out, main


def inflated(raw):
    out = {}
    for n, x in raw.items():
        x = inflate(x)
        out[n] = {e['name']: e['data'] for e in v8fmt.parse(x)['entries']} if x[:4] == MAGIC else x
    return out


def read_both(data):
    stub, main = read_raw(data)
    return None if stub is None else inflated(stub), inflated(main)


def read_product(data):
    stub, main = read_raw(data)
    if stub is not None:
        raise v8fmt.BadContainer('data after the container')
    return inflated(main)


def write_product(entries, stub=None):
    """the file of a product; with what programs of old versions see in front of it"""
    def packed(entries):
        out = {}
        for name, data in entries.items():
            if isinstance(data, dict):
                data = pack_simple(data)
            z = zlib.compressobj(9, zlib.DEFLATED, -15)
            out[name] = z.compress(data) + z.flush()
        return out
    if stub is None:
        return pack_simple(packed(entries))
    return pack_simple(packed(stub)) + pack_simple(packed(entries), 64)


# ---- brace values: lists of str ----
class NotBrace(Exception):
    pass


def parse(text):
    """text of brace data -> list of roots; strings keep their quotes; white space outside strings is dropped"""
    i, n = 0, len(text)
    root, stack = [], []
    cur = root
    need = True                      # a value may begin here

    while i < n:
        ch = text[i]
        if ch in ' \r\n\t\ufeff':
            i += 1
        elif ch == '{':
            if not need:
                raise NotBrace()
            new = []
            cur.append(new)
            stack.append(cur)
            cur = new
            i += 1
        elif ch == '}':
            if not stack:
                return root                  # the platform writes spare closers after some forms
            if need and cur:
                cur.append('')
            cur = stack.pop()
            need = False
            i += 1
        elif ch == ',':
            if need:
                cur.append('')
            need = True
            i += 1
        elif ch == '"':
            if not need:
                raise NotBrace()
            j = i + 1
            while True:
                j = text.find('"', j)
                if j < 0:
                    raise NotBrace()
                if text[j + 1:j + 2] == '"':
                    j += 2
                    continue
                break
            cur.append(text[i:j + 1].replace('\r\n', '\n'))
            need = False
            i = j + 1
        else:
            j = i
            while j < n and text[j] not in ',}{"':
                j += 1
            if not need:
                raise NotBrace()
            cur.append(re.sub('[\r\n\t ]', '', text[i:j]))
            need = False
            i = j
        if stack == [] and ch not in '},' and cur is root and ch not in ' \r\n\t\ufeff':
            raise NotBrace()
    if stack:
        raise NotBrace()
    return root


def text_of(data):
    """(text, encoding) or (None, None)"""
    for enc in ('utf-8-sig' if data[:3] == b'\xef\xbb\xbf' else 'utf-8',):
        try:
            return data.decode(enc), enc
        except UnicodeDecodeError:
            pass
    return None, None


def brace_of(data):
    t, _ = text_of(data)
    if t is None or not t.lstrip().startswith('{'):
        return None
    try:
        return parse(t)
    except NotBrace:
        return None


def emit(value, nl='\r\n'):
    def lst(v):
        s = '{'
        for k, x in enumerate(v):
            if k:
                s += ','
            s += (nl + lst(x)) if isinstance(x, list) else x.replace('\n', nl)
        if v and isinstance(v[-1], list):
            s += nl
        return s + '}'
    return ('\ufeff' + (',' + nl).join(lst(v) for v in value)).encode('utf-8')


def canon(data):
    """what an entry says, free of layout: brace data by value, text up to its line ends, anything else as it is"""
    if isinstance(data, dict):
        return {k: canon(v) for k, v in sorted(data.items())}
    b = brace_of(data)
    if b is not None:
        return ['brace', b]
    t, enc = text_of(data)
    if t is not None:
        return ['text', enc, t.replace('\r\n', '\n')]
    return ['bin', hashlib.sha1(data).hexdigest(), len(data)]


def walk(v):
    yield v
    if isinstance(v, list):
        for x in v:
            yield from walk(x)
