"""Shared machinery of the checks: scratch space, TLC runs, trace validation, verdicts, evidence.

Every check is a Python module `check_<ID>.py` with a function `run(c)`; `python harness/run.py <ID>` runs it.
A check (1) model-checks its TLA+ specification, (2) obtains behaviours from the specification and replays them
into the real code and/or records executions of the real code, (3) hands everything that was recorded to TLC,
which decides, event by event, whether the specification allows it.
"""
import contextlib
import hashlib
import io
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        self.generated = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct = int(m[-1][1].replace(',', '')) if m else 0
        self.prints = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                try:
                    self.prints.append(json.loads(json.loads(line)[2:]))
                except ValueError:
                    pass
        m = re.search(r'(?:Invariant|Action property|Property|Postcondition|Temporal propert\w+) ?(\S*) (?:is|was|were) violated', out)
        self.violated = m.group(1) if m else None


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random(f'{pid}-{self.seed}')
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known_hit = {}
        self.scratch = tempfile.mkdtemp(prefix=f'vp_{pid}_')
        self.tmpdir = os.path.join(self.scratch, 'tmp')
        os.mkdir(self.tmpdir)
        self._n = 0
        self.known = []
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p, encoding='utf-8'):
                line = line.strip()
                if line.startswith('{'):
                    k = json.loads(line)
                    if k.get('property') == pid and k.get('status') == 'known':
                        self.known.append(k)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def dir(self, name=''):
        self._n += 1
        d = os.path.join(self.scratch, f'{self._n}{("_" + name) if name else ""}')
        os.makedirs(d)
        return d

    # ---- TLC -----------------------------------------------------------------------------------------
    def tlc(self, module, cfg, *, files=None, consts=None, workers=None, timeout=None, args=(), heap='6g', ok=(0,),
            count=True):
        """Run TLC on spec/<module>.tla with spec/<cfg>.cfg (or cfg text). files: {name: text|list-of-events}."""
        d = self.dir('tlc_' + module)
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), d)
        if '\n' not in cfg:
            cfg = open(os.path.join(SPEC, cfg + '.cfg'), encoding='utf-8').read()
        for k, v in (consts or {}).items():
            cfg, cnt = re.subn(rf'(?m)^(\s*(?:CONSTANTS?\s+)?){k}\s*=.*$', rf'\g<1>{k} = {v}', cfg)
            if not cnt:
                cfg += f'\nCONSTANT {k} = {v}\n'
        with open(os.path.join(d, 'run.cfg'), 'w', encoding='utf-8') as f:
            f.write(cfg)
        for name, content in (files or {}).items():
            with open(os.path.join(d, name), 'w', encoding='utf-8') as f:
                if isinstance(content, str):
                    f.write(content)
                else:
                    for ev in content:
                        f.write(json.dumps(ev, ensure_ascii=False) + '\n')
        if workers is None:
            workers = '1' if any(a.startswith('-simulate') for a in args) else 'auto'
        cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8',
               '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', os.path.join(d, 'meta'), '-workers', str(workers),
               '-fpmem', '0.2', '-config', 'run.cfg', *args, module + '.tla']
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout or 800)
            rc, out = p.returncode, p.stdout.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired as e:
            raise MachineryError(f'TLC timed out on {module}') from e
        r = TlcResult(rc, out, time.time() - t)
        r.dir = d
        if count:
            self.states += r.distinct
            self.transitions += r.generated
        if rc not in ok:
            raise MachineryError(f'TLC exit {rc} on {module}\n' + out[-4000:])
        shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
        return r

    def model(self, module, cfg, **kw):
        """Exhaustive check of the design itself. A failure here is a failure of the specification, not the code."""
        r = self.tlc(module, cfg, **kw)
        self.extra.setdefault('models', []).append(
            dict(module=module, cfg=cfg if '\n' not in cfg else 'inline', distinct=r.distinct, generated=r.generated,
                 wall_s=round(r.wall, 1)))
        return r

    def validate(self, module, traces, *, cfg=None, consts=None, files=None, timeout=None, describe=None):
        """traces: list of dict(id=..., events=[...], about=...). TLC (module) reads trace.ndjson and accumulates rejected
        events in `fails`, printed at the end as @@{"fails": [[index, clause, detail]..], "n": consumed}."""
        events, where = [], []
        for t in traces:
            events.append({'ev': 'New', 'id': t['id'], **t.get('init', {})})
            where.append((t, -1))
            for j, e in enumerate(t['events']):
                events.append(e)
                where.append((t, j))
        if not events:
            raise MachineryError(f'no events recorded for {module}')
        if cfg is None:
            cfg = 'SPECIFICATION TraceSpec\nINVARIANT Verdict\nCHECK_DEADLOCK FALSE\n'
        r = self.tlc(module, cfg, files={'trace.ndjson': events, **(files or {})}, consts=consts, workers=1, timeout=timeout)
        fin = [p for p in r.prints if isinstance(p, dict) and 'fails' in p]
        if not fin:
            raise MachineryError(f'{module}: no verdict printed\n' + r.out[-3000:])
        fin = fin[-1]
        if fin['n'] != len(events):
            raise MachineryError(f'{module}: consumed {fin["n"]} of {len(events)} events\n' + r.out[-3000:])
        self.events += len(events)
        bad = set()
        for f in fin['fails']:
            t, j = where[f[0] - 1]
            key = (t['id'], f[1])
            if key in bad:
                continue
            bad.add(key)
            ev = events[f[0] - 1]
            self.violation(clause=f[1], trace=t, event_index=j, event=ev, module=module)
        self.traces += len(traces) - len({b[0] for b in bad})
        return fin

    # ---- verdicts ------------------------------------------------------------------------------------
    def violation(self, clause, trace=None, event_index=None, event=None, module=None, what=None):
        key = f'{clause}'
        about = (trace or {}).get('about')
        sig = (trace or {}).get('sig') or ''
        for k in self.known:
            if k['clause'] == clause and k.get('sig', '') == sig:
                self.known_hit.setdefault(k['id'], k)
                return
        self.violations.append(dict(property=self.pid, clause=key, module=module, event_index=event_index, event=event,
                                    trace_id=(trace or {}).get('id'), about=about, what=what,
                                    events=((trace or {}).get('events') or [])[:400]))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   events_validated=self.events, samples=self.samples or ['(none)'], **self.extra)
        ev = dict(property=self.pid, tier=self.tier if self.tier in ('quick', 'thorough') else 'quick', seed=self.seed,
                  level='model_checking', coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(EVIDENCE, f'{self.pid}.json'), 'w', encoding='utf-8') as f:
            json.dump(ev, f, ensure_ascii=False, indent=1, default=str)
        for k in self.known_hit.values():
            print(f'KNOWN-FINDING: property={self.pid} {k["id"]}: {k["what"]}')
        if self.violations:
            rp = os.path.join(EVIDENCE, f'{self.pid}.violation.json')
            with open(rp, 'w', encoding='utf-8') as f:
                json.dump(self.violations[:20], f, ensure_ascii=False, indent=1, default=str)
            for v in self.violations[:5]:
                print(f'  rejected: clause={v["clause"]} trace={v["trace_id"]} event#{v["event_index"]} '
                      f'{short(v["event"], 160)} {short(v["about"], 160)} {v["what"] or ""}')
            print(f'VIOLATION property={self.pid} replay={rp}')
            return 1
        print(f'OK property={self.pid} states={self.states} transitions={self.transitions} traces={self.traces} '
              f'events={self.events} wall={time.time() - self.t0:.1f}s')
        return 0


def short(x, n=300):
    s = json.dumps(x, ensure_ascii=False, default=str) if not isinstance(x, str) else x
    return s if len(s) <= n else s[:n] + '…'


def setup_repo():
    src = os.path.join(REPO, 'src')
    if src not in sys.path:
        sys.path.insert(0, src)
    sys.dont_write_bytecode = True


class DevNull(io.StringIO):
    def write(self, s):
        return len(s)


@contextlib.contextmanager
def quiet():
    """The code under test prints progress; keep it out of the verdict stream."""
    with contextlib.redirect_stdout(DevNull()), contextlib.redirect_stderr(DevNull()):
        yield


class InlinePool:
    """Stands in for multiprocessing.Pool: runs tasks in this process, delivering results in an order chosen by `order`
    (a function list->list applied to the finished tasks), which is what imap_unordered leaves open."""

    def __init__(self, order=None, log=None):
        self.order = order
        self.log = log

    def _run(self, fn, args):
        args = list(args)
        idx = list(range(len(args)))
        if self.order:
            idx = self.order(idx)
        for i in idx:
            if self.log is not None:
                self.log.append((getattr(fn, '__name__', str(fn)), args[i]))
            yield fn(args[i])

    def imap_unordered(self, fn, args, chunksize=1):
        return self._run(fn, args)

    def imap(self, fn, args, chunksize=1):
        args = list(args)
        return (fn(a) for a in args)

    def map(self, fn, args, chunksize=1):
        return [fn(a) for a in args]

    def apply(self, fn, args=(), kwds=None):
        return fn(*args, **(kwds or {}))

    def starmap(self, fn, args, chunksize=1):
        return [fn(*a) for a in args]

    def close(self):
        pass

    def join(self):
        pass

    def terminate(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class CallTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CallTimeout()


def call(fn, *a, timeout_=60, **k):
    """Outcome of a call into the code under test: ('ok', value) or ('error', type name, text). Never hangs."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout_)
    try:
        with quiet():
            return ('ok', fn(*a, **k))
    except CallTimeout:
        return ('error', 'Timeout', f'no answer in {timeout_}s')
    except (Exception, SystemExit) as e:
        try:
            text = str(e)
        except Exception as e2:
            text = f'unprintable {type(e2).__name__}'
        return ('error', type(e).__name__, text[:400])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def codes(s):
    return [ord(c) for c in s]


def uncodes(a):
    return ''.join(map(chr, a))


def digest(b):
    if isinstance(b, str):
        b = b.encode('utf-8', 'surrogatepass')
    return hashlib.sha1(b).hexdigest()[:16] + f'.{len(b)}'


def tree(path, read=True):
    """{relative path: bytes} of every file below path; directories as 'name/': None when empty."""
    res = {}
    for root, dirs, files in os.walk(path):
        rel = os.path.relpath(root, path)
        rel = '' if rel == '.' else rel
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as h:
                res[os.path.join(rel, f)] = h.read() if read else None
        if not files and not dirs and rel:
            res[rel + '/'] = None
    return res


def write_tree(path, files):
    for name, data in files.items():
        p = os.path.join(path, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(data, str):
            data = data.encode('utf-8')
        with open(p, 'wb') as f:
            f.write(data)


def main(pid):
    import importlib
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    setup_repo()
    c = Check(pid)
    old = os.environ.get('TMPDIR')
    os.environ['TMPDIR'] = c.tmpdir
    tempfile.tempdir = c.tmpdir
    cwd = os.getcwd()
    os.chdir(c.scratch)
    rc = 2
    try:
        mod = importlib.import_module(f'check_{pid}')
        mod.run(c)
        rc = c.finish()
    except MachineryError as e:
        print(f'MACHINERY ERROR {pid}: {e}')
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        os.chdir(cwd)
        if os.environ.get('VERIF_KEEP') != '1':
            shutil.rmtree(c.scratch, ignore_errors=True)
        else:
            print('kept', c.scratch)
    sys.stdout.flush()
    return rc
