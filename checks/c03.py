"""C03: cascade calibration yields the empirical branching statistics."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import casc
import gens
from harness import call, close, frame_state, melodist, require, sub, values

# documented defaults for records too short for branching probabilities
DEF_P01 = [[0.576724636119866, 0.238722774405744, 0.166532122130638, 0.393474644666218],
           [0.303345245644811, 0.0490956843857575, 0.0392403031072856, 0.228441890034704]]
DEF_P10 = [[0.158217002255554, 0.256581140990052, 0.557852226779526, 0.422638238585814],
           [0.0439831163244427, 0.0474928027621488, 0.303675296728195, 0.217512052135178]]
DEF_PXX = [[0.265058361624580, 0.504696084604205, 0.275615651089836, 0.183887116747968],
           [0.652671638030746, 0.903411512852094, 0.657084400164519, 0.554046057830118]]
DEF_WXX = [
    [[0.188389148850583, 0.0806836453984190, 0.0698113025807722, 0.0621499191745602],
     [0.240993281622128, 0.0831019646519721, 0.0415130545715575, 0.155284541403192]],
    [[0.190128959522795, 0.129220679033862, 0.0932213021787505, 0.193080698516532],
     [0.196379692358065, 0.108549414860949, 0.0592714297292217, 0.0421945385836429]],
    [[0.163043672107111, 0.152063537378127, 0.102823783410167, 0.0906028835221283],
     [0.186579466868095, 0.189705690316132, 0.0990207345993082, 0.107831389238912]],
    [[0.197765724699431, 0.220046257566978, 0.177876233348082, 0.261288786454262],
     [0.123823472714948, 0.220514673922285, 0.102486496386323, 0.101975538893918]],
    [[0.114435243444815, 0.170857634762767, 0.177327072603662, 0.135362730582518],
     [0.0939211776723413, 0.174291820501902, 0.125275822078525, 0.150842841725936]],
    [[0.0988683809545079, 0.152323481100248, 0.185606883566286, 0.167242856061538],
     [0.0760275616817939, 0.127275603247149, 0.202466168603738, 0.186580243138018]],
    [[0.0473688704207573, 0.0948047647595988, 0.193333422312280, 0.0902721256884624],
     [0.0822753470826286, 0.0965608324996108, 0.369966294031327, 0.255290907016382]],
]


class Ambiguous(Exception):
    """Outside the domain, or the outcome hinges on rounding."""


def level_stats(x, percentile):
    """Empirical statistics of one aggregation: x -> boxes of two; returns (stats, boxes)."""
    n = len(x) // 2
    a, b = x[:2 * n:2], x[1:2 * n:2]
    v = a + b
    if n < 2:
        raise Ambiguous
    if not (v > 0).any():  # no rain: defaults, the threshold is open
        return dict(p=np.array([DEF_P01, DEF_P10, DEF_PXX]), w=np.array(DEF_WXX), thr=None, n=n, fallback=True, unseen=True), v
    thr = np.percentile(v[v > 0], percentile)
    near = (v > 0) & (np.abs(v - thr) <= 1e-9 * (1 + thr))
    if np.any(v[near] != thr):
        raise Ambiguous
    t = casc.box_types(v)
    above = (v > thr).astype(int)
    p = np.zeros((3, 2, 4))
    w = np.zeros((7, 2, 4))
    for i in np.flatnonzero(t >= 0):
        o = 2 if a[i] > 0 and b[i] > 0 else 1 if a[i] > 0 else 0
        p[o, above[i], t[i]] += 1
        if o == 2:
            share = a[i] / (a[i] + b[i])
            if np.abs(share - casc.BOUNDS[1:-1]).min() < 1e-12:
                raise Ambiguous
            w[np.searchsorted(casc.BOUNDS[1:], share), above[i], t[i]] += 1
    nb, nbxx = p.sum(axis=0), w.sum(axis=0)
    fallback = (nb == 0).any()
    if fallback:
        p, w = np.array([DEF_P01, DEF_P10, DEF_PXX]), np.array(DEF_WXX)
    else:
        p = p / nb
        w = np.where(nbxx > 0, w / np.where(nbxx > 0, nbxx, 1), 1 / 7)
    return dict(p=p, w=w, thr=thr, n=n, fallback=fallback, unseen=(nbxx == 0).any()), v


def reference(x, percentile, levels=5):
    out = []
    for _ in range(levels):
        s, x = level_stats(x, percentile)
        out.append(s)
    return out


def compare(got, p, w, thr, percentile, what):
    close(got.p01, p[0], what + ': P(0/1)', rtol=1e-9)
    close(got.p10, p[1], what + ': P(1/0)', rtol=1e-9)
    close(got.pxx, p[2], what + ': P(x/x)', rtol=1e-9)
    close(got.wxx, w, what + ': weight probabilities', rtol=1e-9)
    require(got.percentile == percentile, '%s: percentile %s', what, got.percentile)
    close(values(got.p01) + values(got.p10) + values(got.pxx), np.ones((2, 4)), what + ': sum of branching probabilities')
    close(values(got.wxx).sum(axis=0), np.ones((2, 4)), what + ': sum of weight probabilities')
    if any(t is None for t in thr):
        require(np.isfinite(values(got.threshold)).all(), '%s: thresholds %s', what, got.threshold)
        return
    close(np.asarray(got.threshold), thr, what + ': thresholds', rtol=1e-9)


@st.composite
def rain(draw, lo, hi):
    """Recipe of a rain record with wet spells."""
    return dict(n=draw(st.one_of(st.integers(lo, min(hi, lo + 200)), st.integers(lo, hi))), seed=draw(gens.SEEDS),
                start_p=draw(st.sampled_from([0.2, 0.1, 0.3, 0.05, 0.9])),
                stop_p=draw(st.sampled_from([0.35, 0.5, 0.2])), q=draw(st.sampled_from([8, 64, 2**20])),
                scale=draw(st.sampled_from([0.3, 2.0, 30.0])),
                nan=draw(st.sampled_from([0.0, 0.0, 0.02, 0.3])))


def rain_values(c):
    r = np.random.RandomState(c['seed'])
    n = c['n']
    wet = np.zeros(n, bool)
    state = r.uniform() < 0.5
    u = r.uniform(size=n)
    for i in range(n):
        state = (u[i] > c['stop_p']) if state else (u[i] < c['start_p'])
        wet[i] = state
    v = np.round(r.exponential(c['scale'], n) * c['q']) / c['q'] * wet  # sums are exact
    v[r.uniform(size=n) < c['nan']] = np.nan
    return v


@st.composite
def calib_case(draw):
    k = draw(st.sampled_from([0, 1, 2, 2, 3]))
    start = draw(gens.starts())
    days = draw(st.integers(25, 70)) * max(k, 1)
    seasons = None
    if k:
        # the months of the record are dealt to the seasons, in calendar order or interleaved
        first = int(start[5:7])
        covered = [(first - 1 + i) % 12 + 1 for i in range(min(12, max(k, days // 31 + 1)))]
        rest = [m for m in range(1, 13) if m not in covered]
        deal = draw(st.sampled_from(['mod', 'block']))
        seasons = [[m for i, m in enumerate(covered)
                    if (i % k if deal == 'mod' else i * k // len(covered)) == j] for j in range(k)]
        if draw(st.booleans()):
            seasons[draw(st.integers(0, k - 1))] += rest
        if draw(st.booleans()):
            seasons = [s[::-1] for s in seasons]
    pct = draw(st.sampled_from([50, 50, 50, 0, 100, 25, 90, 33.3]))
    if draw(st.integers(0, 39)) == 39:
        days = draw(st.integers(750, 1150))
    r = draw(rain(64, 900))
    r['n'] = 24 * days + draw(st.integers(0, 23)) if k or draw(st.booleans()) else r['n']
    return dict(rain=r, start=start, hour=draw(st.integers(0, 23)),
                seasons=seasons, avg=draw(st.booleans()), pct=pct,
                gap=draw(st.booleans()), via=draw(st.sampled_from(['build', 'stats'])),
                dry=draw(st.sampled_from([None] * 9 + [0, 1, 2])), arr=draw(st.booleans()), extra=draw(st.booleans()), default=draw(st.booleans()))


@sub('hourly', calib_case(), quick=400,
     rule='at least one level and season calibrated without falling back to defaults, or missing records')
def hourly(c, ev):
    v = rain_values(c['rain'])
    idx = gens.hourly_range(pd.Timestamp(c['start']) + pd.Timedelta(hours=c['hour']), len(v))
    if c['dry'] is not None and c['seasons']:
        v[np.isin(idx.month, c['seasons'][c['dry'] % len(c['seasons'])])] = 0.0
        ev.label('dry_season')
    df = gens.frame(idx, precip=v)
    if c['gap'] and len(v) > 200:
        df = df.drop(df.index[100:131])
        v = df.precip.values
        ev.label('gap')
    if c['extra']:
        df['temp'] = 280.0 + np.arange(len(df)) % 7
    pct, avg = c['pct'], c['avg']
    seasons = c['seasons'] or [list(range(1, 13))]
    month = df.index.month
    refs = []
    try:
        for s in seasons:
            x = np.nan_to_num(v[np.isin(month, s)])
            refs.append(reference(x, pct))
    except Ambiguous:
        ev.label('ambiguous')
        return
    arg = None if c['seasons'] is None else [np.array(s) if c['arr'] else list(s) for s in seasons]
    kw = dict(avg_stats=avg, percentile=pct)
    if c['default'] and avg:
        del kw['avg_stats']
    if c['default'] and pct == 50:
        del kw['percentile']
    before = frame_state(df)
    if c['via'] == 'build':
        got = call(melodist.build_casc, df, months=arg, **kw)
    else:
        ss = call(melodist.StationStatistics, data=df)
        call(ss.calc_precipitation_stats, months=arg, **kw)
        require(frame_state(ss.data) == before, 'calibration changed the stored observations')
        got = ss.precip.stats
        require(ss.precip.months is not None and [sorted(int(q) for q in m) for m in ss.precip.months]
                == [sorted(s) for s in seasons], 'seasons stored as %s', ss.precip.months)
    require(frame_state(df) == before, 'calibration changed the record it was given')
    require(len(got) == len(seasons), '%d results for %d seasons', len(got), len(seasons))
    for g, ref, s in zip(got, refs, seasons):
        if avg:
            n = np.array([q['n'] for q in ref], dtype=float)
            p = sum(q['p'] * q['n'] for q in ref) / n.sum()
            w = sum(q['w'] * q['n'] for q in ref) / n.sum()
            compare(g, p, w, [q['thr'] for q in ref], pct, 'season %s' % s)
        else:
            require(isinstance(g, list) and len(g) == 5, 'season %s: not one statistics object per level', s)
            for l, (gl, q) in enumerate(zip(g, ref)):
                compare(gl, q['p'], q['w'], [q['thr']], pct, 'season %s, level %d' % (s, l + 1))
    real = any(not q['fallback'] for ref in refs for q in ref)
    ev.label('avg' if avg else 'per_level', c['via'], 'seasons%d' % len(seasons), 'empirical' if real else 'defaults_only',
             *(['unseen_weights'] if any(q['unseen'] and not q['fallback'] for ref in refs for q in ref) else []),
             *(['missing'] if np.isnan(v).any() else []))
    ev.nontrivial(real or np.isnan(v).any())


@st.composite
def one_level_case(draw):
    return dict(rain=draw(rain(40, 1500)), pct=draw(st.sampled_from([50, 50, 20, 80])))


@sub('one_level', one_level_case(), quick=400, rule='no fall-back to default branching probabilities')
def one_level(c, ev):
    v = np.nan_to_num(rain_values(c['rain']))
    try:
        q, boxes = level_stats(v, c['pct'])
    except Ambiguous:
        return
    df = gens.frame(gens.hourly_range('2001-01-01', len(v)), precip=v)
    got, vdn = call(melodist.aggregate_precipitation, df, percentile=c['pct'])
    compare(got, q['p'], q['w'], [q['thr']], c['pct'], 'one aggregation')
    close(values(vdn['precip']), boxes, 'aggregated series')
    ev.label('fallback' if q['fallback'] else 'empirical', 'odd' if len(v) % 2 else 'even')
    ev.nontrivial(not q['fallback'])


@st.composite
def fine_case(draw):
    level = draw(st.sampled_from([9, 9, 10, 11]))
    return dict(rain=draw(rain(2 * 2**level, 2 * 2**level + 600)), level=level, avg=draw(st.booleans()),
                pct=draw(st.sampled_from([50, 70])), default=draw(st.booleans()))


@sub('five_minutes', fine_case(), quick=40, rule='at least one level calibrated without falling back to defaults')
def five_minutes(c, ev):
    v = rain_values(c['rain'])
    idx = pd.date_range('2003-05-05', periods=len(v), freq='5min')
    try:
        ref = reference(np.nan_to_num(v), c['pct'], c['level'])
    except Ambiguous:
        return
    got = call(melodist.build_casc, gens.frame(idx, precip=v), hourly=False, **({} if c['default'] and c['level'] == 9 else dict(level=c['level'])),
               avg_stats=c['avg'], percentile=c['pct'])[0]
    if c['avg']:
        n = sum(q['n'] for q in ref)
        compare(got, sum(q['p'] * q['n'] for q in ref) / n, sum(q['w'] * q['n'] for q in ref) / n,
                [q['thr'] for q in ref], c['pct'], '5 min record')
    else:
        require(len(got) == c['level'], '%d level statistics, expected %d', len(got), c['level'])
        for l, (g, q) in enumerate(zip(got, ref)):
            compare(g, q['p'], q['w'], [q['thr']], c['pct'], '5 min record, level %d' % (l + 1))
    ev.label('level%d' % c['level'])
    ev.nontrivial(any(not q['fallback'] for q in ref))
