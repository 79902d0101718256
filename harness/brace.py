"""Values and texts of the brace format (harness side, independent of the code under test)."""
import base64

from vlib import codes, uncodes


def to_tokens(value):
    """nested lists -> [[kind, codes]]; None is an empty parameter, [] has one empty parameter"""
    out = []

    def one(v):
        if isinstance(v, list):
            out.append(['open', []])
            for x in (v or ['']):
                one(x)
            out.append(['close', []])
        else:
            out.append(['val', codes('' if v is None else v)])

    for v in value:
        one(v)
    return out


def from_tokens(toks):
    root, stack = [], []
    cur = root
    for k, t in toks:
        if k == 'open':
            stack.append(cur)
            new = []
            cur.append(new)
            cur = new
        elif k == 'close':
            cur = stack.pop()
        else:
            cur.append(uncodes(t))
    return root


def layout(value, nl='\n', wrap=True):
    """The platform's layout of a value (roots separated by ',' newline); base64 data in lines of 64."""
    def param(v):
        if v is None:
            return ''
        if v.startswith('##base64:'):
            return v[1:]
        if v.startswith('#base64:'):
            return nl.join([v[:72]] + [v[k:k + 64] for k in range(72, len(v) + 1, 64)])
        if wrap and len(v) > 64 and is_b64(v):
            return nl.join(v[k:k + 64] for k in range(0, len(v), 64))
        return v.replace('\n', nl)

    def lst(v, first):
        s = '{' if first else nl + '{'
        v = v or ['']
        for k, x in enumerate(v):
            if k:
                s += ','
            if isinstance(x, list):
                s += lst(x, False)
                if k == len(v) - 1:
                    s += nl
            else:
                s += param(x)
        return s + '}'

    return (',' + nl).join(lst(v, True) for v in value)


def is_b64(v):
    if v.startswith('"') or not all(c.isascii() and (c.isalnum() or c in '+/=') for c in v):
        return False
    try:
        base64.b64decode(v, validate=True)
        return True
    except ValueError:
        return False


WORDS = ['Процедура', 'a', 'Z9', 'ё', ' ', '\t', 'ΩЖ', '\U0001F600', '#base64:', '//', ';', "'", 'x' * 70, 'ab ' * 30,
         'Select * From Table ', '=', '==', '+/', '0', '\u2028', '\x0b', '\x85', '\ufeff', '|', '&НаКлиенте', 'rn']
BARE = ['0', '1', '-1', '20200101000000', '00000000-0000-0000-0000-000000000000', '1e-9', 'ffff', '3.14', '4294967295', '#',
        'bd4ef0d1-5d3c-4e45-9d3b-6c1c8a7a2f0e', 'U', 'S', '1' * 63, '1' * 64, '1' * 66]


def fill(rng, toks, words=WORDS, bare=BARE):
    """Replace the model's letter classes by concrete text."""
    out = []
    for k, t in toks:
        if k == 'val' and t:
            if t[0] != 34:
                t = codes(rng.choice(bare))
            else:
                r = []
                for ch in t:
                    r += codes(rng.choice(words)) if ch == 97 else [ch]
                t = r
        out.append([k, t])
    return out


def b64(rng, n):
    s = base64.b64encode(rng.randbytes(n * 3 // 4 + 3)).decode()[:n]
    s = s[:n - n % 4]
    return s.replace('=', 'A')
