"""Runs the sub-checks of one property on all cores and writes its evidence file."""
import argparse
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, 'checks'))
sys.dont_write_bytecode = True

import harness  # noqa: E402
import hypothesis  # noqa: E402
import numpy as np  # noqa: E402
from hypothesis import HealthCheck, Phase, Verbosity, given, settings  # noqa: E402
import hypothesis.internal.conjecture.engine as _engine  # noqa: E402

_engine.MAX_SHRINKING_SECONDS = 40
# Independent cases: the engine's span-copying mutator would make five of six cases near-copies of
# the sixth, with everything drawn last at its simplest value.
_engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
SOFT = {'quick': 420, 'thorough': 720}
SHARD = {'quick': 8, 'thorough': 32}
STUCK = 120  # s of processor time for one case; the slowest one takes a few


class Stuck(BaseException):
    pass


def stuck(*_):
    raise Stuck()


def case_json(case):
    return json.dumps(case, sort_keys=True)


def np_seed(case):
    return int(hashlib.sha256(case_json(case).encode()).hexdigest()[:8], 16)


def evaluate(s, case):
    """One case: fresh scratch state, seeded numpy generator (a function of the case)."""
    ev = harness.Ev()
    np.random.seed(np_seed(case))
    with np.errstate(all='ignore'):
        try:
            signal.signal(signal.SIGPROF, stuck)
            signal.setitimer(signal.ITIMER_PROF, STUCK)
            try:
                s.check(case, ev)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
        except (ArithmeticError, AssertionError, AttributeError, LookupError, TypeError, ValueError) as e:
            if os.environ.get('VERIF_STRICT'):
                raise
            # the oracles accept every well-formed result, so the result is malformed
            at = traceback.extract_tb(e.__traceback__)[-1]
            raise harness.Violation('result cannot be examined: %s: %s (%s:%d)' % (
                type(e).__name__, str(e)[:300], os.path.basename(at.filename), at.lineno)) from e
    return ev


def task(args):
    """One shard of one sub-check in a worker process."""
    idx, shard, n, seed, deadline = args
    s = harness.SUBS[idx]
    st = dict(sub=s.name, evals=0, skipped=0, nt=set(), labels={}, samples=[], violation=None,
              error=None, ids=set(), slow=0.0)

    @hypothesis.seed(seed)
    @settings(max_examples=n, deadline=None, database=None, phases=[Phase.generate, Phase.shrink],
              suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
              verbosity=Verbosity.quiet, print_blob=False)
    @given(s.strategy)
    def test(case):
        if st['violation'] is None and time.time() > deadline:
            st['skipped'] += 1
            return
        st['evals'] += 1
        t0 = time.process_time()
        try:
            ev = evaluate(s, case)
        except harness.Violation as v:
            st['violation'] = (case, str(v))
            raise
        except Stuck:
            st['violation'] = (case, 'no result within %d s of processor time' % STUCK)
            raise
        finally:
            st['slow'] = max(st['slow'], time.process_time() - t0)
        if st['violation'] is not None:
            return
        h = hashlib.sha1(case_json(case).encode()).digest()[:8]
        st['ids'].add(h)
        for lab in set(ev.labels):
            st['labels'][lab] = st['labels'].get(lab, 0) + 1
        if ev.nt:
            st['nt'].add(h)
            if len(st['samples']) < 2:
                st['samples'].append(case)

    try:
        test()
    except (harness.Violation, Stuck):
        pass
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, hypothesis.errors.HypothesisException) and st['violation'] is not None:
            pass  # not reproducible in isolation (state kept between calls): still observed
        elif isinstance(e, BaseExceptionGroup) and st['violation'] is not None:
            pass
        else:
            st['error'] = traceback.format_exc()
    return st


def run_replay(prop, path):
    rep = json.load(open(path))
    s = next(x for x in harness.SUBS if x.name == rep['sub'])
    try:
        evaluate(s, rep['case'])
    except (harness.Violation, Stuck) as v:
        print('violated: %s' % (str(v) or 'no result within %d s of processor time' % STUCK))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('held')
    return 0


def short(x, n=600):
    t = case_json(x)
    return x if len(t) <= n else t[:n] + ' ...'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=float(os.environ.get('VERIF_SCALE', '1')))
    a = ap.parse_args()
    prop = a.prop
    seed0 = int(os.environ.get('VERIF_SEED', '1') or 1)
    importlib.import_module(prop.lower())
    if a.replay:
        return run_replay(prop, a.replay)
    t0 = time.time()
    deadline = t0 + SOFT[a.tier]

    # pinned cases first: known findings, then the committed corpus
    known, pinned, violations = 0, 0, []
    for k in harness.load_known(prop):
        s = next(x for x in harness.SUBS if x.name == k['sub'])
        try:
            evaluate(s, k['case'])
        except harness.Violation:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            known += 1
    for path in sorted(glob.glob(os.path.join(ROOT, 'corpus', prop, '*.json'))):
        rep = json.load(open(path))
        s = next(x for x in harness.SUBS if x.name == rep['sub'])
        pinned += 1
        try:
            evaluate(s, rep['case'])
        except (harness.Violation, Stuck) as v:
            violations.append((s.name, rep['case'], str(v) or 'no result'))

    tasks = []
    for i, s in enumerate(harness.SUBS):
        if a.only and a.only != s.name:
            continue
        n = max(1, int(round((s.quick if a.tier == 'quick' else s.thorough) * a.scale)))
        k = min(SHARD[a.tier], max(1, n // 4))
        for j in range(k):
            m = n // k + (1 if j < n % k else 0)
            h = hashlib.sha256(('%s/%s/%d/%d' % (prop, s.name, j, seed0)).encode()).hexdigest()
            tasks.append((i, j, m, int(h[:12], 16), deadline))
    # spread the shards of one sub-check over the workers
    tasks.sort(key=lambda t: (t[1], t[0]))

    stats, errors = {}, []
    if not violations:
        ctx = mp.get_context('fork')
        with ctx.Pool(min(os.cpu_count() or 1, 8)) as pool:
            for st in pool.imap_unordered(task, tasks):
                d = stats.setdefault(st['sub'], dict(evals=0, skipped=0, nt=set(), labels={},
                                                     samples=[], ids=set(), slow=0.0))
                d['evals'] += st['evals']
                d['skipped'] += st['skipped']
                d['slow'] = max(d['slow'], st['slow'])
                d['nt'] |= st['nt']
                d['ids'] |= st['ids']
                for lab, c in st['labels'].items():
                    d['labels'][lab] = d['labels'].get(lab, 0) + c
                if len(d['samples']) < 2:
                    d['samples'] += st['samples'][:2 - len(d['samples'])]
                if st['error']:
                    errors.append((st['sub'], st['error']))
                if st['violation']:
                    violations.append((st['sub'],) + st['violation'])
                    pool.terminate()
                    break

    out = os.path.join(ROOT, 'out')
    os.makedirs(out, exist_ok=True)
    for name, case, msg in violations:
        path = os.path.join(out, '%s-%s.json' % (prop, name))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, sub=name, case=case, message=msg), f, indent=1)
        print('%s/%s: %s' % (prop, name, msg))
        print('VIOLATION property=%s replay=%s' % (prop, path))

    level = 'exploration'
    evid = dict(
        property=prop, tier=a.tier, seed=seed0, level=level,
        coverage=dict(
            evaluations=sum(d['evals'] for d in stats.values()) + pinned,
            distinct_nontrivial=sum(len(d['nt']) for d in stats.values()),
            rule='; '.join('%s: %s' % (s.name, s.rule) for s in harness.SUBS),
            samples=[dict(sub=n, case=short(c)) for n, d in sorted(stats.items()) for c in d['samples']],
            pinned_cases=pinned,
            known_findings_reproduced=known,
            per_subcheck={n: dict(evaluations=d['evals'], distinct=len(d['ids']),
                                  distinct_nontrivial=len(d['nt']),
                                  not_run_for_time=d['skipped'], slowest_case_s=round(d['slow'], 2), classes=d['labels'])
                          for n, d in sorted(stats.items())},
        ),
        assumptions=['the reference oracles in /verif/lib and /verif/checks state the intended behaviour',
                     'sampling: holds on the generated cases, nothing is proved about the others'],
        wall_s=round(time.time() - t0, 2), violations=len(violations),
    )
    ev_dir = os.path.join(ROOT, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    with open(os.path.join(ev_dir, '%s.json' % prop), 'w') as f:
        json.dump(evid, f, indent=1)

    for name, d in sorted(stats.items()):
        print('%s/%s: %d cases, %d distinct non-trivial, %d not run for time; %s'
              % (prop, name, d['evals'], len(d['nt']), d['skipped'],
                 ' '.join('%s=%d' % kv for kv in sorted(d['labels'].items()))))
    if violations:
        return 1
    if errors:
        for name, e in errors[:3]:
            print('HARNESS ERROR in %s/%s:\n%s' % (prop, name, e), file=sys.stderr)
        return 2
    print('%s held on everything explored (%.1f s)' % (prop, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
