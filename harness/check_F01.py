"""F01: a product that is extracted and built again is the same product."""
import shutil

from objrun import Case, behaviours, shuffler


def run(c):
    rng, traces = c.rng, []
    c.model('ObjectsMC', 'Objects', consts=dict(MaxObjs=c.n(3, 4), MaxEdits=c.n(0, 1)))
    behs = behaviours(c, [(1, 0, 10), (3, 0, 20), (6, 0, 30), (9, 0, 30), (14, 0, 20), (6, 2, 25), (24, 1, 8)])
    kinds = set()
    for k, b in enumerate(behs[:c.n(110, 900)]):
        if any(s['a'] in ('drop', 'put', 'reid') for s in b):
            b = [s for s in b if s['a'] not in ('drop', 'put', 'reid')]
        case = Case(c, rng, b)
        d = c.dir()
        case.make()
        src, r = case.extract(case.p, d, shuffler(rng))
        if r[0] == 'ok':
            case.events += case.folder_events(src)
        case.events.append(dict(ev='Extracted', ok=r[0] == 'ok', why=str(r[1:])[:400]))
        if r[0] == 'ok':
            case.edit(src, d)
            case.events += case.out_events(*case.build(src, d, shuffler(rng)))
        shutil.rmtree(d, ignore_errors=True)
        kinds |= {o.kind for o in case.p.objs.values()}
        traces.append(dict(id=f'p{k}', events=case.events, about=case.about(), init=dict(auto=case.auto)))
    c.extra['kinds'] = sorted(kinds)
    for t in traces[-3:]:
        c.sample(t['about'])
    c.validate('ObjectsTrace', traces)
