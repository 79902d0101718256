"""A02: any legal block allocation is read back whole; every container of a multi-container file is found."""
import os

from containers import content, esc, read_events, render
from vlib import call, digest


def run(c):
    from v8unpack.container_reader import extract
    c.model('Container', 'Container')
    one = c.model('Container', 'ContainerEmit1')
    cases = [(1, x) for x in one.prints]
    # larger allocations are sampled from the specification's behaviours by TLC's simulator
    for n, num in ((2, c.n(500, 3000)), (3, c.n(300, 3000)), (5, c.n(60, 1000))):
        r = c.tlc('Container', 'ContainerEmit1', consts={'NEntries': n, **({'Splits': '{"slack", "two", "exact"}', 'Sizes': '{0, 3}', 'Gaps': '{%d}' % (c.seed % 2)} if n > 2 else {})}, workers=1,
                 
                  args=('-simulate', f'num={num}', '-depth', '60', '-seed', str(c.seed * 1000 + n)))
        seen = set()
        for x in r.prints:
            k = repr(x)
            if k not in seen:
                seen.add(k)
                cases.append((n, x))
    c.extra['layout_cases'] = len(cases)
    traces = []
    names_pool = ['root', 'version', 'a', 'Модуль', '9b0a.0', 'имя с пробелом', '\U0001F600x', 'copyinfo', 'x' * 40]
    sizes = [0, 1, 2, 3, 5, 30, 31, 255, 511, 512, 513, 700, 1024, 5000]
    k = 0
    rng = c.rng
    while k < len(cases):
        # one file = 1..3 consecutive cases, each rendered as a container of either format
        m = 1 if rng.random() < 0.6 else rng.choice([2, 3])
        group = cases[k:k + m]
        k += m
        data, evs, about = b'', [], []
        for ci, (n, case) in enumerate(group):
            bits = rng.choice([32, 64]) if not (m == 1 and rng.random() < 0.5) else 32
            names = rng.sample(names_pool, n)
            scale = rng.choice(sizes[1:])
            conts = []
            for i in range(n):
                units = next((b['doc'] for b in case['blocks'] if b['o'] == 2 * i + 2), 0)
                conts.append(content(rng, 0 if not units else max(units, units * scale + rng.randrange(0, 7))))
            tails = [rng.choice([b'\0\0\0\0', b'\0\0\0\0', b'', b'\0\0a\0b\0', b'\0' * 10]) for _ in range(n)]
            data += render(case, bits, rng, conts, names, straddle=rng.choice([0, 5]), tails=tails)
            for nm, ct in zip(names, conts):
                evs.append(dict(ev='Put', c=str(ci), name=esc(nm), dig=digest(ct)))
            about.append(dict(bits=bits, gap=case['gap'], blocks=[[b['o'], b['cap'], b['len']] for b in case['blocks']]))
        d = c.dir()
        fn = os.path.join(d, 'in.cf')
        with open(fn, 'wb') as f:
            f.write(data)
        out = os.path.join(d, 'out')
        res = call(extract, fn, out, False, False)
        evs += read_events(out)
        evs.append(dict(ev='End', ok=res[0] == 'ok', why='' if res[0] == 'ok' else res[1] + ' ' + res[2]))
        traces.append(dict(id=f'L{len(traces)}', events=evs, about=about))
        import shutil
        shutil.rmtree(d)
    for t in traces[:3]:
        c.sample(t['about'])
    c.validate('ContainerTrace', traces)
