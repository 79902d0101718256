"""L01: a built product's list of its own entries is exact."""
import shutil

import objects as O
from objrun import Case, behaviours, shuffler


def run(c):
    rng, traces = c.rng, []
    c.model('ObjectsMC', 'Objects', consts=dict(MaxObjs=2, MaxEdits=1))
    behs = behaviours(c, [(1, 0, 10), (3, 0, 15), (9, 0, 20), (14, 2, 20), (6, 3, 20)])
    behs += behaviours(c, [(2, 2, 10), (6, 3, 15), (8, 6, 15), (20, 8, 6)], 'ObjectsEmitS')
    rng.shuffle(behs)
    bases = ['cf', 'cfe', 'cfe', 'epf803', 'epf802', 'erf']
    entries = 0
    for k, b in enumerate(behs[:c.n(90, 700)]):
        O.Gen.big = .5 if k % 6 == 0 else .1
        case = Case(c, rng, b, base=bases[k % len(bases)])
        d = c.dir()
        case.make()
        case.events = []
        src, r = case.extract(case.p, d, shuffler(rng))
        if r[0] == 'ok':
            case.edit(src, d)
            case.events = case.manifest_events(*case.build(src, d, shuffler(rng)))
        else:
            case.events.append(dict(ev='Built', ok=False, why=str(r[1:])[:400]))
        shutil.rmtree(d, ignore_errors=True)
        entries += sum(e['ev'] == 'Entry' for e in case.events)
        traces.append(dict(id=f'p{k}', events=case.events, about=case.about(), init=dict(auto=case.auto)))
    O.Gen.big = .5 if k % 6 == 0 else .1
    c.extra['entries'] = entries
    for t in traces[-3:]:
        c.sample(t['about'])
    c.validate('ObjectsTrace', traces)
