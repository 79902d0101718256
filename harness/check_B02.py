"""B02: a brace text laid out by the platform is read as its value and is written back with the same bytes."""
import os

from brace import b64, fill, from_tokens, layout, to_tokens
from check_B01 import values
from vlib import call, codes


def one(c, helper, value, tid, traces, d, rng):
    nl = rng.choice(['\n', '\r\n'])
    text = layout(value, nl)
    enc, bom = rng.choice([('utf-8', b'\xef\xbb\xbf'), ('utf-8', b'')])
    if rng.random() < 0.2:
        try:
            raw = text.encode('cp1251')
            try:
                raw.decode('utf-8')
            except UnicodeDecodeError:
                enc, bom = 'cp1251', b''
        except UnicodeEncodeError:
            pass
    raw = bom + text.encode(enc)
    with open(os.path.join(d, 'v'), 'wb') as f:
        f.write(raw)
    shown = text.replace('\r\n', '\n')
    evs = [dict(ev='Given', text=codes(shown))]
    r = call(helper.brace_file_read, d, 'v')
    if r[0] == 'ok':
        evs.append(dict(ev='Back', toks=to_tokens(r[1])))
        r = call(helper.brace_file_write, r[1], d, 'w')
        if r[0] == 'ok':
            back = open(os.path.join(d, 'w'), 'rb').read().decode('utf-8-sig').replace('\r\n', '\n')
            evs.append(dict(ev='Bytes', same=back == shown))
    if r[0] != 'ok':
        evs.append(dict(ev='Fail', op='', why=str(r[1:])[:300]))
    traces.append(dict(id=tid, events=evs, about=text[:200]))


def run(c):
    from v8unpack import helper
    c.model('BraceMC', 'Brace')
    rng, traces, d = c.rng, [], c.dir()
    for k, toks in enumerate(values(c)):
        one(c, helper, from_tokens(fill(rng, toks)), f'm{k}', traces, d, rng)
    for n in range(4, 300, 4):
        s = b64(rng, n)
        for v in ([s], ['1', s], ['1', s, '2'], [['1', s], s, '0', ['3']], [['#base64:' + s], ['##base64:' + s]],
                  ['"#"', 'abc', ['2', ['#base64:' + s]]]):
            one(c, helper, [v], f'b{n}', traces, d, rng)
    for t in traces[:3]:
        c.sample(t['about'])
    c.validate('BraceTrace', traces)
