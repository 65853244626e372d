"""Runner: facets (generators + oracles), sharded execution, shrinking, replays, evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import resource
import signal
import sys
import time
import traceback
from collections import Counter

_HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _HYP not in sys.path:
    sys.path.append(_HYP)

import hypothesis                                   # noqa: E402
from hypothesis import HealthCheck, Phase, settings  # noqa: E402
from hypothesis import given, seed as hseed          # noqa: E402
from hypothesis import strategies as _st             # noqa: E402,F401

# third-party libraries pycaption imports, loaded once here so that every forked shard
# (a process that imports pycaption itself from /repo) starts quickly
for _m in ('bs4', 'cssutils', 'nltk.data', 'lxml.etree'):
    try:
        importlib.import_module(_m)
    except ImportError:
        pass

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PKG = os.path.join(REPO, 'pycaption') + os.sep
JOBS = int(os.environ.get('VERIF_JOBS') or min(8, os.cpu_count() or 1))

hypothesis.configuration.set_hypothesis_home_dir('/tmp/.hypothesis-unused')


class Violation(Exception):
    """The property does not hold on this case."""


class Skip(Exception):
    """The case lies outside the property's domain (counted, not judged)."""


class HarnessError(Exception):
    pass


class Hang(BaseException):
    pass


class Ctx:
    """Collects what one case exercised."""

    def __init__(self):
        self.labels = []
        self.nontrivial = True

    def label(self, *names):
        self.labels.extend(names)

    def trivial(self):
        self.nontrivial = False

    def require(self, cond, reason):
        if not cond:
            raise Skip(reason)


def fail(msg, **detail):
    text = msg
    for k, v in detail.items():
        r = v if isinstance(v, str) and '\n' in v else repr(v)
        if len(r) > 900:
            r = r[:900] + '...'
        text += f'\n    {k}: {r}'
    raise Violation(text)


def check(cond, msg, **detail):
    if not cond:
        fail(msg, **detail)


class Facet:
    """A randomly generated facet of a property."""
    kind = 'random'

    def __init__(self, name, strategy, run, quick, thorough=None, hang_s=20):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough or quick * 12
        self.hang_s = hang_s


class Enum:
    """An exhaustively enumerated facet: cases(tier) yields JSON cases."""
    kind = 'enum'

    def __init__(self, name, cases, run, hang_s=20):
        self.name, self.cases, self.run = name, cases, run
        self.hang_s = hang_s


def digest(case):
    return hashlib.sha256(
        json.dumps(case, sort_keys=True, ensure_ascii=True).encode()).digest()[:8]


def case_size(case):
    s = json.dumps(case, sort_keys=True)
    return (len(s), s)


def derive_seed(*parts):
    h = hashlib.sha256('/'.join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def load(prop):
    mod = importlib.import_module(f'pbt.props.{prop.lower()}')
    import pycaption
    if not os.path.realpath(pycaption.__file__).startswith(PKG):
        raise HarnessError(f'pycaption imported from {pycaption.__file__}')
    return mod


def _alarm(signum, frame):
    raise Hang()


def _in_pkg(exc):
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
            if fn.startswith(PKG):
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False


def judge(facet, case, ctx):
    """Run one case; raises Violation, Skip or HarnessError."""
    old = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, facet.hang_s)
    try:
        try:
            facet.run(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except (Violation, Skip):
        raise
    except Hang:
        raise Violation(f'no answer after {facet.hang_s} s of CPU time (hang)')
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa: B902
        if _in_pkg(e):
            tail = traceback.format_exception(type(e), e, e.__traceback__)[-3:]
            raise Violation(
                f'unexpected exception {type(e).__name__}: {str(e)[:300]}\n'
                + ''.join(tail)) from None
        if isinstance(e, (AttributeError, TypeError, LookupError, ValueError)) and not isinstance(e, UnicodeError):
            # on the tree these checks were written for this does not happen: the code returned something (None,
            # another type, another shape) that is not what its users get
            raise Violation(f'what the code under test returned cannot be judged: {type(e).__name__}: {str(e)[:300]}\n'
                            + ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-3:])) from None
        raise HarnessError(''.join(
            traceback.format_exception(type(e), e, e.__traceback__))) from None
    finally:
        signal.signal(signal.SIGPROF, old)


class Result:
    def __init__(self, facet):
        self.facet = facet
        self.evaluations = 0
        self.excluded = Counter()
        self.labels = Counter()
        self.digests = set()
        self.samples = []
        self.known = Counter()
        self.failure = None       # (case, message)
        self.harness_error = None
        self.truncated = False
        self.shard = None
        self.wall = 0.0


def _known_match(mod, case, msg, facet_name):
    for f in known_findings(mod.PROPERTY):
        pred = getattr(mod, 'KNOWN', {}).get(f.get('matcher'))
        if pred and pred(facet_name, case, msg):
            return f['id']
    return None


_KF = {}


def known_findings(prop):
    if prop not in _KF:
        out = []
        path = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(path):
            for line in open(path, encoding='utf-8'):
                line = line.strip()
                if line.startswith('{'):
                    d = json.loads(line)
                    if d['property'] == prop and d['status'] == 'known':
                        out.append(d)
        _KF[prop] = out
    return _KF[prop]


def run_shard(prop, fname, shard, nshards, count, seed, tier, deadline, shrink_s):
    t0 = time.time()
    mod = load(prop)
    facet = next(f for f in mod.FACETS if f.name == fname)
    res = Result(fname)
    res.shard = (shard, nshards, count, seed, tier)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    state = {'stop': None}

    def one(case):
        if state['stop'] and time.time() > state['stop']:
            return                      # shrinking budget used up
        if time.time() > deadline:
            res.truncated = True
            return
        ctx = Ctx()
        if res.failure is None:
            res.evaluations += 1
        try:
            judge(facet, case, ctx)
        except Skip as s:
            if res.failure is None:
                res.excluded[str(s)] += 1
            return
        except Violation as v:
            msg = str(v)
            kid = _known_match(mod, case, msg, fname)
            if kid:
                res.known[kid] += 1
                return
            if res.failure is None:
                hang = 'hang' in msg.splitlines()[0]
                state['stop'] = time.time() + (0 if hang else shrink_s)
            if res.failure is None or case_size(case) < case_size(res.failure[0]):
                res.failure = (json.loads(json.dumps(case)), msg)
            raise
        except HarnessError as e:
            if res.harness_error is None:
                res.harness_error = f'case: {json.dumps(case)[:2000]}\n{e}'
            return
        if res.failure is None:
            for lb in ctx.labels:
                res.labels[lb] += 1
            if ctx.nontrivial:
                d = digest(case)
                if d not in res.digests:
                    res.digests.add(d)
                    n = len(res.digests)
                    if n <= 2 or (n & (n - 1)) == 0:
                        res.samples = (res.samples + [case])[-4:]

    if facet.kind == 'enum':
        for i, case in enumerate(facet.cases(tier)):
            if i % nshards != shard:
                continue
            try:
                one(case)
            except Violation:
                pass
            if state['stop'] and time.time() > min(state['stop'], t0 + 60):
                break
    else:
        strat = facet.strategy
        if not hasattr(strat, 'example'):
            strat = strat()

        @hseed(derive_seed(seed, prop, fname, shard))
        @settings(max_examples=count, database=None, deadline=None,
                  phases=(Phase.generate, Phase.shrink),
                  suppress_health_check=list(HealthCheck),
                  print_blob=False, report_multiple_bugs=False)
        @given(strat)
        def test(case):
            one(case)

        try:
            test()
        except Exception:
            if res.failure is None and res.harness_error is None:
                res.harness_error = traceback.format_exc()
    res.wall = time.time() - t0
    return res


def replay_case(prop, fname, case):
    """(ok, message) for one case, run in this process."""
    mod = load(prop)
    facet = next((f for f in mod.FACETS if f.name == fname), None)
    if facet is None:
        raise HarnessError(f'no facet {fname}')
    try:
        judge(facet, case, Ctx())
    except Violation as v:
        return False, str(v)
    except Skip as s:
        return True, f'skipped: {s}'
    return True, ''


def replay_many(prop, cases):
    return [replay_case(prop, f, c) for f, c in cases]


def _child(conn, fn, args):
    try:
        out = ('ok', fn(*args))
    except HarnessError as e:
        out = ('harness', str(e))
    except BaseException:  # noqa: B902
        out = ('harness', traceback.format_exc())
    try:
        conn.send(out)
    except BaseException:  # noqa: B902
        conn.send(('harness', traceback.format_exc()))
    conn.close()
    sys.stdout.flush()
    os._exit(0)


def run_tasks(tasks, jobs=None):
    """Run (fn, args) tasks, each in its own forked child of this process (which never
    imports pycaption); returns [(status, value)] in task order."""
    ctx = mp.get_context('fork')
    out = [None] * len(tasks)
    live, nxt = {}, 0
    while nxt < len(tasks) or live:
        while nxt < len(tasks) and len(live) < (jobs or JOBS):
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(w,) + tuple(tasks[nxt]))
            p.start()
            w.close()
            live[r] = (p, nxt)
            nxt += 1
        for r in mp.connection.wait(list(live)):
            p, i = live.pop(r)
            try:
                out[i] = r.recv()
            except EOFError:
                p.join()
                out[i] = ('harness', f'worker died with exit code {p.exitcode}')
            r.close()
            p.join()
    return out


def _fresh(fn, *args):
    status, value = run_tasks([(fn, args)])[0]
    if status != 'ok':
        raise HarnessError(value)
    return value


def write_replay(prop, payload):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    name = f"{prop}-{payload['facet']}-{digest(payload).hex()}.json"
    path = os.path.join(d, name)
    with open(path, 'w', encoding='utf-8') as f:
        json.dump(payload, f, indent=1, ensure_ascii=True, sort_keys=True)
        f.write('\n')
    return path


def do_replay(prop, path):
    p = json.load(open(path, encoding='utf-8'))
    if 'shard' in p:
        r = _fresh(run_shard, prop, p['facet'], *p['shard'], time.time() + 600, 5)
        ok, msg = r.failure is None, (r.failure or (0, ''))[1]
    else:
        ok, msg = _fresh(replay_case, prop, p['facet'], p['case'])
    if not ok:
        print(msg)
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    print('replay: property holds', msg)
    return 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--facet', action='append')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    prop = a.prop.upper()
    try:
        if a.replay:
            return do_replay(prop, a.replay)
        return run_property(prop, a)
    except HarnessError as e:
        print(f'HARNESS ERROR: {e}', file=sys.stderr)
        return 2


def run_property(prop, a):
    t0 = time.time()
    tier = a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = _fresh(_describe, prop)
    budget = a.budget or (540 if tier == 'quick' else 6 * 3600)
    deadline = t0 + budget
    shrink_s = 20 if tier == 'quick' else 120
    facets = [f for f in mod['facets'] if not a.facet or f['name'] in a.facet]
    violations = []       # (payload, message)
    herr = []

    tasks = []
    for f in facets:
        n = JOBS
        if f['kind'] == 'random':
            total = max(n, int(f[tier] * a.scale))
            per = -(-total // n)
            if tier != 'quick':        # more shards: better load balance
                k = max(1, min(16, per // 400))
                n, per = n * k, -(-per // k)
        else:
            per = 0
        for s in range(n):
            tasks.append((f['name'], s, n, per))
    # interleave so that different facets run side by side
    tasks.sort(key=lambda t: (t[1], t[0]))

    regress = []
    rdir = os.path.join(VERIF, 'regress', prop)
    if os.path.isdir(rdir):
        for fn in sorted(os.listdir(rdir)):
            if fn.endswith('.json'):
                regress.append(os.path.join(rdir, fn))
    known_lines = []
    results = []
    known = known_findings(prop)
    rdata = [json.load(open(p, encoding='utf-8')) for p in regress]
    work = [(replay_many, (prop, [(d['facet'], d['case']) for d in rdata]))]
    work += [(replay_case, (prop, k['facet'], k['case'])) for k in known]
    work += [(run_shard, (prop, nm, s, n, per, seed, tier, deadline, shrink_s))
             for nm, s, n, per in tasks]
    done = run_tasks(work)
    for status, value in done:
        if status != 'ok':
            herr.append(value)
    if done[0][0] == 'ok':
        for (ok, msg), p, d in zip(done[0][1], regress, rdata):
            if not ok and not _known_in_parent(prop, d['facet'], d['case'], msg):
                violations.append(({'property': prop, 'facet': d['facet'],
                                    'case': d['case'], 'from': os.path.basename(p)}, msg))
    for k, (status, value) in zip(known, done[1:]):
        if status == 'ok' and not value[0]:
            known_lines.append(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']}")
    results = [v for st, v in done[1 + len(known):] if st == 'ok']

    agg = {}
    for r in results:
        g = agg.setdefault(r.facet, Result(r.facet))
        g.evaluations += r.evaluations
        g.excluded.update(r.excluded)
        g.labels.update(r.labels)
        g.digests |= r.digests
        g.known.update(r.known)
        g.truncated |= r.truncated
        g.wall += r.wall
        g.samples = (g.samples + r.samples)[:3]
        if r.harness_error:
            herr.append(f'facet {r.facet}: {r.harness_error}')
        if r.failure and (g.failure is None or
                          case_size(r.failure[0]) < case_size(g.failure[0])):
            g.failure, g.shard = r.failure, r.shard
    for name, g in agg.items():
        if not g.failure:
            continue
        case, msg = g.failure
        ok, msg2 = _fresh(replay_case, prop, name, case)
        if not ok:
            payload = {'property': prop, 'facet': name, 'case': case, 'message': msg2}
        else:   # depends on what ran before in the same process: replay the shard
            payload = {'property': prop, 'facet': name, 'shard': list(g.shard),
                       'case_seen': case, 'message': msg}
            msg = '[needs the history of its shard] ' + msg
        violations.append((payload, msg))

    for line in known_lines:
        print(line)
    for payload, msg in violations:
        path = write_replay(prop, payload)
        print(f"--- {prop}/{payload['facet']}: {msg}")
        print('    case: ' + json.dumps(payload.get('case', payload.get('case_seen')))[:1500])
        print(f'VIOLATION property={prop} replay={path}')
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick',
        'seed': seed, 'level': mod['level'],
        'coverage': {
            'evaluations': sum(g.evaluations for g in agg.values()) + len(regress),
            'distinct_nontrivial': sum(len(g.digests) for g in agg.values()),
            'rule': mod['rule'],
            'samples': [{'facet': n, 'case': _clip(c)} for n, g in sorted(agg.items())
                        for c in g.samples],
            'facets': {n: {'kind': next(f['kind'] for f in facets if f['name'] == n),
                           'evaluations': g.evaluations,
                           'distinct_nontrivial': len(g.digests),
                           'excluded': dict(g.excluded),
                           'known_finding_hits': dict(g.known),
                           'cut_by_time_budget': g.truncated,
                           'cpu_s': round(g.wall, 1),
                           'labels': dict(sorted(g.labels.items()))}
                       for n, g in sorted(agg.items())},
            'regression_cases': len(regress),
        },
        'assumptions': mod['assumptions'],
        'wall_s': round(wall, 2), 'violations': len(violations),
    }
    if not a.no_evidence and not a.facet:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w', encoding='utf-8') as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write('\n')
    cov = ev['coverage']
    print(f"{prop} {tier} seed={seed}: {cov['evaluations']} cases, "
          f"{cov['distinct_nontrivial']} distinct non-trivial, "
          f"{len(violations)} violations, {wall:.1f}s")
    if a.facet or os.environ.get('PBT_VERBOSE'):
        for n, d in cov['facets'].items():
            print('  ', n, {k: v for k, v in d.items() if v})
    if violations:
        return 1
    if herr:
        print('HARNESS ERROR: ' + herr[0][:4000], file=sys.stderr)
        print(f'({len(herr)} harness errors)', file=sys.stderr)
        return 2
    return 0


def _clip(case):
    s = json.dumps(case)
    return case if len(s) < 1500 else s[:1500] + '...'


def _known_in_parent(prop, fname, case, msg):
    return _fresh(_known_child, prop, fname, case, msg)


def _known_child(prop, fname, case, msg):
    return _known_match(load(prop), case, msg, fname)


def _describe(prop):
    mod = load(prop)
    return {
        'level': getattr(mod, 'LEVEL', 'exploration'),
        'rule': mod.RULE,
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'facets': [{'name': f.name, 'kind': f.kind,
                    'quick': getattr(f, 'quick', 0),
                    'thorough': getattr(f, 'thorough', 0)} for f in mod.FACETS],
    }
