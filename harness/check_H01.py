"""H01: with auto_include a product is built from whatever folders there are."""
import shutil

from objrun import Case, behaviours, shuffler


def run(c):
    rng, traces = c.rng, []
    c.model('ObjectsMC', 'Objects', consts=dict(MaxObjs=c.n(2, 3), MaxEdits=c.n(1, 2)))
    behs = behaviours(c, [(2, 2, 10), (6, 2, 20), (8, 6, 20)])
    behs += behaviours(c, [(1, 1, 10), (2, 2, 20), (3, 3, 20), (6, 3, 20), (8, 6, 20), (14, 4, 20), (20, 8, 8)],
                       'ObjectsEmitS')
    rng.shuffle(behs)
    kinds, steps = set(), {}
    for k, b in enumerate(behs[:c.n(110, 900)]):
        for s in b:
            if s['a'] == 'extract':
                s['auto'] = True
            steps[s['a']] = steps.get(s['a'], 0) + 1
        case = Case(c, rng, b)
        d = c.dir()
        case.make()
        src, r = case.extract(case.p, d, shuffler(rng))
        if r[0] == 'ok':
            case.events += case.folder_events(src)
        case.events.append(dict(ev='Extracted', ok=r[0] == 'ok', why=str(r[1:])[:400]))
        if r[0] == 'ok':
            case.edit(src, d)
            f, r = case.build(src, d, shuffler(rng))
            case.events += case.out_events(f, r)
            if r[0] == 'ok':
                case.events += case.source_events(src, f, d)
        shutil.rmtree(d, ignore_errors=True)
        kinds |= {o.kind for o in case.p.objs.values()}
        traces.append(dict(id=f'p{k}', events=case.events, about=case.about(),
                           init=dict(auto=True)))
    c.extra['kinds'] = sorted(kinds)
    c.extra['steps'] = steps
    for t in traces[-3:]:
        c.sample(t['about'])
    c.validate('ObjectsTrace', traces)
