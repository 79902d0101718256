"""B01: what is written to a brace file is a legal brace text of exactly that value and reads back as it."""
import os

from brace import BARE, b64, fill, from_tokens, to_tokens
from vlib import call, codes


def one(c, helper, value, tid, traces, d):
    evs = [dict(ev='Value', toks=to_tokens(value))]
    name = 'v'
    r = call(helper.brace_file_write, value, d, name)
    if r[0] == 'ok':
        raw = open(os.path.join(d, name), 'rb').read()
        try:
            text = raw.decode('utf-8-sig')
        except UnicodeDecodeError as e:
            text = None
            evs.append(dict(ev='Fail', op='encoding', why=str(e)))
        if text is not None:
            evs.append(dict(ev='Text', text=codes(text)))
        r = call(helper.brace_file_read, d, name)
        if r[0] == 'ok':
            evs.append(dict(ev='Back', toks=to_tokens(r[1])))
            r = call(helper.brace_file_write, r[1], d, name + '2')
            if r[0] == 'ok':
                evs.append(dict(ev='Again', same=open(os.path.join(d, name + '2'), 'rb').read() == raw))
    if r[0] != 'ok':
        evs.append(dict(ev='Fail', op='', why=str(r[1:])[:300]))
    traces.append(dict(id=tid, events=evs, about=str(value)[:300]))


def values(c):
    """Concrete values from the specification's behaviours: every string of up to 4 special characters, and trees."""
    r = c.model('BraceMC', 'BraceAll')
    cases = [x['toks'] for x in r.prints]
    for n, num in ((6, c.n(300, 3000)), (12, c.n(300, 3000)), (24, c.n(150, 2000))):
        r = c.tlc('BraceMC', 'BraceEmit', consts={'MaxTokens': n, 'MaxDepth': min(n // 2, 5)},
                  args=('-simulate', f'num={num}', '-depth', '900', '-seed', str(c.seed * 77 + n)))
        cases += [x['toks'] for x in r.prints]
    return cases


def run(c):
    from v8unpack import helper
    c.model('BraceMC', 'Brace')
    rng, traces, d = c.rng, [], c.dir()
    cases = values(c)
    for k, toks in enumerate(cases):
        one(c, helper, from_tokens(fill(rng, toks)), f'm{k}', traces, d)
    # ASCII strings and binary data around the writer's line length, at every position of the list
    for n in list(range(60, 70)) + [72, 76, 100, 124, 127, 128, 129, 130, 192, 193, 256, 300, 1000]:
        for fmt in (lambda n: '"' + 'a' * (n - 2) + '"', lambda n: '"' + 'word ' * (n // 5) + 'x' * (n % 5) + '"',
                    lambda n: '"' + 'q=' * (n // 2) + '"', lambda n: '7' * n):
            s = fmt(n)
            for v in ([s], ['1', s], [s, '1'], [['2'], s], [s, ['3']], [s, s]):
                one(c, helper, [v], f's{n}', traces, d)
    for n in list(range(4, 300, 4)) + [1024, 4096]:
        s = b64(rng, n)
        for v in ([s], ['1', s], [s, ''], ['0', s, '0'], [['1', s], s], [s, ['4', s]], [s, s, s]):
            one(c, helper, [v], f'b{n}', traces, d)
        one(c, helper, [['0', ['#base64:' + s]]], f'p{n}', traces, d)
        one(c, helper, [['"#"', 'abc', ['2', ['#base64:' + s], ['##base64:' + s], '5']]], f'q{n}', traces, d)
        one(c, helper, [['2', ['##base64:' + s], '1']], f'r{n}', traces, d)
    one(c, helper, [[rng.choice(BARE) for _ in range(3000)]], 'long', traces, d)
    deep = ['1']
    for _ in range(60):
        deep = ['0', deep, '"x"']
    one(c, helper, [deep], 'deep', traces, d)
    for t in traces[:2] + traces[-2:]:
        c.sample(t['about'])
    c.validate('BraceTrace', traces)
