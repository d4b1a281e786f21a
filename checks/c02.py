"""C02: cascade branching obeys the supplied statistics."""
import numpy as np
import pandas as pd
import scipy.stats
from hypothesis import strategies as st

import casc
import gens
from harness import call, close, melodist, rejects, require, sub, values

THR = [0.0, 0.02, 0.1, 0.31, 0.77, 1.3, 2.7, 6.1, 1e6]


@st.composite
def det_case(draw, fine=False):
    level = draw(st.sampled_from([9, 10, 11])) if fine else 5
    d = draw(gens.days_spec(lo=2, small=8 if not fine else 4, mid=40 if not fine else 5, gaps=True))
    per_level = draw(st.booleans())
    return dict(d=d, p=draw(gens.precip_spec(gens.n_days(d), nan=0.25)), level=level, per_level=per_level,
                stats=[draw(casc.one_hot()) for _ in range(level if per_level else 1)],
                thr=[draw(st.sampled_from(THR)) for _ in range(level)],
                tie=draw(st.booleans()))


def setup(c, hot=True):
    """Daily values, options for the code, tables and thresholds from the coarsest level on."""
    idx = gens.calendar(c['d'])
    daily = gens.mat(c['p'], len(idx))
    level = c['level']
    thr = list(c['thr'])
    wet = daily[daily > 0]
    if c.get('tie') and len(wet):
        thr[level - 1] = float(wet[0])  # coarsest split: total exactly at the threshold
    if c['per_level']:
        opts = [casc.build(s, [t]) for s, t in zip(c['stats'], thr)]
        tabs = [casc.tables(s) for s in c['stats']][::-1]
    else:
        opts = casc.build(c['stats'][0], thr)
        tabs = [casc.tables(c['stats'][0])] * level
    return idx, daily, opts, tabs, thr[::-1]


def near_tie(boxes, thrs):
    return any(np.any((b > 0) & (np.abs(b - t) <= 1e-9 * (1 + t))) for b, t in zip(boxes[:-1], thrs[1:]))


def used_classes(daily, boxes, thrs):
    seen = set()
    for v, t in zip([daily] + boxes[:-1], thrs):
        bt = casc.box_types(v)
        for i in np.flatnonzero(bt >= 0):
            seen.add((int(bt[i]), bool(v[i] > t)))
    return seen


RULE = 'wet boxes of at least three of the eight position/intensity classes'


@sub('deterministic_hourly', det_case(), quick=2100, rule=RULE)
def deterministic_hourly(c, ev):
    idx, daily, opts, tabs, thrs = setup(c)
    d0 = np.nan_to_num(daily)
    boxes = casc.predict(d0, tabs, thrs)
    if near_tie(boxes, thrs):
        ev.label('near_tie')
        return
    res = call(melodist.disagg_prec_cascade, pd.Series(daily, idx), opts)
    exp = casc.to_hours(boxes[-1])
    exp[np.repeat(np.isnan(daily), 24)] = np.nan
    close(values(res), exp, 'hourly cascade', rtol=1e-9, atol=1e-10 * (1 + d0.sum()))
    levels = call(melodist.disagg_prec_cascade, pd.Series(daily, idx), opts, test=True)
    for l in range(5):
        close(values(levels[l]), boxes[l], 'boxes of cascade level %d' % (l + 1), rtol=1e-9, atol=1e-12)
    close(values(levels[-1]), exp, 'last element in test mode', rtol=1e-9, atol=1e-10 * (1 + d0.sum()))
    cl = used_classes(d0, boxes, thrs)
    ev.label('per_level' if c['per_level'] else 'one_object', *['class_%d%d' % k for k in cl])
    ev.nontrivial(len(cl) >= 3)


@sub('deterministic_5min', det_case(fine=True), quick=360, rule=RULE)
def deterministic_5min(c, ev):
    idx, daily, opts, tabs, thrs = setup(c)
    d0 = np.nan_to_num(daily)
    boxes = casc.predict(d0, tabs, thrs)
    if near_tie(boxes, thrs):
        ev.label('near_tie')
        return
    L = c['level']
    res = call(melodist.disagg_prec_cascade, pd.Series(daily, idx), opts, hourly=False, **({} if L == 9 and len(idx) % 2 else dict(level=L)))
    k = np.arange(2**L)
    step = (k * 675 * 2**(11 - L)) // (16 * 300)  # boxes of 675/16 s * 2**(11-L), by their start
    exp = np.zeros((len(idx), 288))
    for day in range(len(idx)):
        np.add.at(exp[day], step, boxes[-1].reshape(len(idx), -1)[day])
    exp[np.isnan(daily)] = np.nan
    close(values(res), exp.ravel(), '5 min cascade', rtol=1e-9, atol=1e-10 * (1 + d0.sum()))
    levels = call(melodist.disagg_prec_cascade, pd.Series(daily, idx), opts, hourly=False, level=L, test=True)
    for l in range(L):
        close(values(levels[l]), boxes[l], 'boxes of cascade level %d' % (l + 1), rtol=1e-9, atol=1e-12)
    cl = used_classes(d0, boxes, thrs)
    ev.label('level%d' % L)
    ev.nontrivial(len(cl) >= 3)


@st.composite
def season_case(draw):
    d = draw(gens.days_spec(lo=20, small=60, mid=120, big=500, gaps=True))
    k = draw(st.integers(2, 4))
    which = draw(st.lists(st.integers(0, k - 1), min_size=12, max_size=12))
    seasons = [q for q in ([m + 1 for m in range(12) if which[m] == j] for j in range(k)) if q]
    if draw(st.booleans()):
        seasons = [q[::-1] for q in seasons]
    per_level = draw(st.booleans())
    n = 5 if per_level else 1
    return dict(d=d, p=draw(gens.precip_spec(gens.n_days(d), nan=0.25)), level=5, per_level=per_level, seasons=seasons,
                stats=[[draw(casc.one_hot()) for _ in range(n)] for _ in seasons],
                thr=[[draw(st.sampled_from(THR)) for _ in range(5)] for _ in seasons],
                as_array=draw(st.booleans()))


@sub('seasons', season_case(), quick=480, rule='at least two seasons with two or more days and a wet day in the record')
def seasons(c, ev):
    """A station applies to each day the statistics of the season of its month."""
    per = [setup(dict(c, stats=q, thr=t)) for q, t in zip(c['stats'], c['thr'])]
    idx, daily = per[0][:2]
    full = gens.calendar(c['d'], full=True)
    total = pd.Series(daily, idx).reindex(full)
    exp = np.full((len(full), 24), np.nan)
    judged = np.zeros(len(full), dtype=bool)
    used = 0
    for months, (_, _, _, tabs, thrs) in zip(c['seasons'], per):
        own = full.month.isin(months)
        if own.sum() < 2:
            continue  # the cascade needs two days
        t = total[own].values
        d0 = np.nan_to_num(t)
        boxes = casc.predict(d0, tabs, thrs)
        if near_tie(boxes, thrs):
            ev.label('near_tie')
            continue
        judged |= own
        e = casc.to_hours(boxes[-1]).reshape(-1, 24)
        e[np.isnan(t)] = np.nan
        exp[own] = e
        used += bool((d0 > 0).any())
    s = call(melodist.Station, data_daily=gens.frame(idx, precip=daily))
    s.statistics.precip.months = [np.array(m) if c['as_array'] else m for m in c['seasons']]
    s.statistics.precip.stats = [p[2] for p in per]
    call(s.disaggregate_precipitation, method='cascade')
    res = values(s.data_disagg.precip)
    require(len(res) == exp.size, 'station cascade: %d values for %d days', len(res), len(full))
    close(res.reshape(-1, 24)[judged].ravel(), exp[judged].ravel(), 'station with statistics per season', rtol=1e-9,
          atol=1e-10 * (1 + np.nansum(daily)))
    ev.label('per_level' if c['per_level'] else 'one_object', 'seasons_%d' % min(used, 3))
    ev.nontrivial(used >= 2)


@st.composite
def support_case(draw):
    d = draw(gens.days_spec(lo=2, small=8, mid=80, gaps=False))
    per_level = draw(st.booleans())
    return dict(d=d, p=draw(gens.precip_spec(gens.n_days(d), nan=0.2)), level=5, per_level=per_level,
                stats=[draw(st.one_of(casc.random_stats(), casc.one_hot())) for _ in range(5 if per_level else 1)],
                thr=[draw(st.sampled_from(THR)) for _ in range(5)], tie=False)


def outcomes(v, out):
    """Per wet box: 0 (0/1), 1 (1/0), 2+k (weight class k), -1 none of these."""
    i = np.flatnonzero(v > 0)
    a, b = out[0::2][i], out[1::2][i]
    require(np.all(np.abs(a + b - v[i]) <= 1e-9 * v[i]), 'a box is split into parts that do not add up')
    w = a / v[i]
    k = np.argmin(np.abs(w[:, None] - casc.CENTRES[None, :]), axis=1)
    o = np.where(np.abs(w - casc.CENTRES[k]) <= 1e-9, k + 2, -1)
    o = np.where(a == 0, 0, np.where(b == 0, 1, o))
    return i, o, w


@sub('support', support_case(), quick=1500,
     rule='a class with a wet box has both possible and impossible outcomes')
def support(c, ev):
    idx, daily, opts, tabs, thrs = setup(c)
    v = np.nan_to_num(daily)
    levels = call(melodist.disagg_prec_cascade, pd.Series(daily, idx), opts, test=True)
    nt = False
    for l in range(5):
        out = values(levels[l])
        require(out.shape == (2 * len(v),), 'level %d has %s boxes', l + 1, out.shape)
        require(np.all(out[np.repeat(v == 0, 2)] == 0), 'level %d: a dry box becomes wet', l + 1)
        bt = casc.box_types(v)
        i, o, w = outcomes(v, out)
        p01, p10, pxx, wxx = tabs[l]
        for j, oc, wj in zip(i, o, w):
            if l and abs(v[j] - thrs[l]) <= 1e-9 * (1 + thrs[l]):
                continue
            a = int(v[j] > thrs[l])
            t = bt[j]
            what = 'level %d, box type %d, above=%d' % (l + 1, t, a)
            require(oc >= 0, '%s: weight %r is no class centre', what, float(wj))
            p = p01[a, t] if oc == 0 else p10[a, t] if oc == 1 else pxx[a, t] * wxx[oc - 2, a, t]
            require(p > 0, '%s: outcome %s has probability 0', what, oc)
            nt = nt or min(p01[a, t], p10[a, t], pxx[a, t], wxx[:, a, t].min()) == 0
        v = out
    ev.label('per_level' if c['per_level'] else 'one_object')
    ev.nontrivial(nt)


@st.composite
def freq_case(draw):
    per_level = draw(st.booleans())
    return dict(seed=draw(gens.SEEDS), n=draw(st.integers(300, 500)), per_level=per_level,
                wet=draw(st.sampled_from([0.4, 0.7, 1.0])),
                stats=[draw(st.one_of(casc.random_stats(), casc.random_stats(), st.just(casc.sample())))
                       for _ in range(5 if per_level else 1)])


@sub('frequencies', freq_case(), quick=80,
     rule='at least 10 groups of a level, position and intensity class with 30 or more boxes each')
def frequencies(c, ev):
    r = np.random.RandomState(c['seed'])
    n = c['n']
    daily = r.exponential(5, n) * (r.uniform(size=n) < c['wet'])
    thr = [5 * 0.75**(5 - k) for k in range(5)]  # last = coarsest
    cc = dict(c, d=dict(start='2001-01-01', n=n, absent=[], freq=True), level=5, thr=thr,
              p=dict(v=list(daily)), tie=False)
    idx, _, opts, tabs, thrs = setup(cc)
    levels = call(melodist.disagg_prec_cascade, pd.Series(daily, idx), opts, test=True)
    again = call(melodist.disagg_prec_cascade, pd.Series(daily, idx), opts, test=True)
    v = daily
    groups = 0
    for l in range(5):
        out = values(levels[l])
        bt = casc.box_types(v)
        i, o, w = outcomes(v, out)
        p01, p10, pxx, wxx = tabs[l]
        for a in (0, 1):
            for t in range(4):
                sel = (bt[i] == t) & ((v[i] > thrs[l]) == a)
                m = int(sel.sum())
                if m < 30:
                    continue
                groups += 1
                what = 'level %d, box type %d, above=%d, %d boxes' % (l + 1, t, a, m)
                for name, p, k in [('0/1', p01[a, t], (o[sel] == 0).sum()), ('1/0', p10[a, t], (o[sel] == 1).sum())] + [
                        ('x/x weight class %d' % q, pxx[a, t] * wxx[q, a, t], (o[sel] == 2 + q).sum()) for q in range(7)]:
                    k, p = int(k), min(max(float(p), 0.0), 1.0)
                    tail = min(scipy.stats.binom.cdf(k, m, p), scipy.stats.binom.sf(k - 1, m, p))
                    require(tail > 1e-12, '%s: outcome %s %d times, probability %.4f', what, name, k, p)
        v = out
    if groups >= 10 and min(tabs[0][0].min(), tabs[0][1].min()) > 0.05:
        require(not np.array_equal(values(levels[4]), values(again[4])), 'all draws are those of the request before')
        ev.label('repeated')
    ev.label('per_level' if c['per_level'] else 'one_object', 'groups>=10' if groups >= 10 else 'groups<10')
    ev.nontrivial(groups >= 10)


@st.composite
def bad_case(draw):
    kind = draw(st.sampled_from(['length', 'type', 'short']))
    return dict(kind=kind, fine=draw(st.booleans()), k=draw(st.integers(0, 12)), n=draw(st.integers(2, 5)),
                what=draw(st.sampled_from(['none', 'dict', 'tuple', 'string', 'array', 'number'])),
                p=[draw(st.sampled_from([0.0, 1.0, 5.5])) for _ in range(5)],
                single=draw(st.booleans()), days=draw(st.integers(0, 1)))


@sub('rejected', bad_case(), quick=360, rule='every case (an argument that must be rejected)')
def rejected(c, ev):
    level = 9 if c['fine'] else 5
    kw = dict(hourly=False, level=9) if c['fine'] else {}
    good = casc.build(casc.sample(), [1.0] * 11)
    n = c['n']
    opts = good
    if c['kind'] == 'length':
        if c['k'] == level:
            return
        opts = [casc.build(casc.sample(), [1.0]) for _ in range(c['k'])]
    elif c['kind'] == 'type':
        opts = dict(none=None, dict=good.__dict__, tuple=(good,) * level, string='x', array=np.zeros(5), number=1)[c['what']]
    else:
        n = c['days']
        if c['single']:
            opts = [casc.build(casc.sample(), [1.0]) for _ in range(level)]
    ser = pd.Series(c['p'][:n], pd.date_range('2001-03-01', periods=n, freq='D'), dtype=float)
    rejects(lambda: melodist.disagg_prec_cascade(ser, opts, **kw),
            'cascade with %s (%s)' % (c['kind'], c['k'] if c['kind'] == 'length' else c['what'] if c['kind'] == 'type' else n))
    ev.label(c['kind'])
    ev.nontrivial()
