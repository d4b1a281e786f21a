"""C01: precipitation disaggregation conserves every daily total."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import casc
import gens
from harness import call, close, hours_of, melodist, mutil, require, same_index, sub, values

LEVEL_STEPS = 288


def check_days(res, idx, daily, what, steps=24):
    """Non-negative, adds up, dry stays dry, missing stays missing; day by day."""
    v = values(res)
    require(v.shape == (len(idx) * steps,), '%s: %s values for %d days', what, v.shape, len(idx))
    v = v.reshape(len(idx), steps)
    for day, total, x in zip(idx, daily, v):
        if np.isnan(total):
            require(np.isnan(x).all(), '%s: values on %s although its total is missing', what, day.date())
            continue
        require(not np.isnan(x).any(), '%s: missing values on %s (total %s)', what, day.date(), total)
        require((x >= 0).all(), '%s: negative value %s on %s', what, x.min(), day.date())
        if total == 0:
            require((x == 0).all(), '%s: rain %s on dry day %s', what, x.max(), day.date())
        require(abs(x.sum() - total) <= 1e-9 * (1 + np.nansum(daily)),
                '%s: %s adds up to %r, not %r', what, day.date(), float(x.sum()), float(total))


def classify(daily, ev):
    wet = daily > 0
    miss = np.isnan(daily)
    ev.label(*(['missing'] if miss.any() else []), *(['dry'] if (daily == 0).any() else []))
    if len(daily) > 60:
        ev.label('long')
    ev.nontrivial(wet.sum() >= 1 and (wet.sum() >= 2 or miss.any() or (daily == 0).any()))


RULE = 'at least one wet day together with a second wet, a dry or a missing day'


@st.composite
def equal_case(draw):
    d = draw(gens.days_spec(mid=120, big=800, gaps=True))
    return dict(d=d, p=draw(gens.precip_spec(gens.n_days(d))),
                via=draw(st.sampled_from(['disagg_prec', 'series', 'station', 'distribute'])))


@sub('equal', equal_case(), quick=600, rule=RULE)
def equal(c, ev):
    idx = gens.calendar(c['d'])
    daily = gens.mat(c['p'], len(idx))
    df = gens.frame(idx, precip=daily)
    ev.label(c['via'])
    if c['via'] == 'station':
        s = call(melodist.Station, data_daily=df)
        call(s.disaggregate_precipitation, method='equal')
        idx = gens.calendar(c['d'], full=True)
        daily = pd.Series(daily, df.index).reindex(idx).values
        res = s.data_disagg.precip
    elif c['via'] == 'distribute':
        res = call(melodist.distribute_equally, df.precip, divide=True)
    else:
        res = call(melodist.disagg_prec, df.precip if c['via'] == 'series' else df, method='equal')
    same_index(res, hours_of(idx), 'equal')
    check_days(res, idx, daily, 'equal')
    close(values(res), np.repeat(daily / 24, 24), 'equal share', atol=1e-12)
    classify(daily, ev)


@st.composite
def casc_case(draw):
    d = draw(gens.days_spec(lo=2, mid=70, big=420, gaps=True))
    per_level = draw(st.booleans())
    k = 5 if per_level else 1
    return dict(d=d, p=draw(gens.precip_spec(gens.n_days(d))),
                stats=[draw(casc.any_stats()) for _ in range(k)],
                thr=[draw(st.sampled_from([0.0, 0.05, 0.5, 2.0, 10.0, 1e6])) for _ in range(5)],
                per_level=per_level, via=draw(st.sampled_from(['cascade', 'disagg_prec'])))


def options(c, levels):
    if c['per_level']:
        return [casc.build(s, [t]) for s, t in zip(c['stats'], c['thr'])]
    return casc.build(c['stats'][0], (c['thr'] * 3)[:levels])


@sub('cascade_hourly', casc_case(), quick=900, rule=RULE)
def cascade_hourly(c, ev):
    idx = gens.calendar(c['d'])
    daily = gens.mat(c['p'], len(idx))
    ser = pd.Series(daily, idx)
    opts = options(c, 5)
    if c['via'] == 'cascade':
        res = call(melodist.disagg_prec_cascade, ser, opts)
    else:
        res = call(melodist.disagg_prec, ser, method='cascade', cascade_options=opts)
    same_index(res, hours_of(idx), 'cascade')
    check_days(res, idx, daily, 'cascade')
    ev.label('per_level' if c['per_level'] else 'one_object', *(['gaps'] if c['d']['absent'] else []))
    classify(daily, ev)


@st.composite
def fine_case(draw):
    level = draw(st.sampled_from([9, 9, 10, 11]))
    d = draw(gens.days_spec(lo=2, small=4, mid=8 if level == 9 else 4, gaps=True))
    per_level = draw(st.booleans())
    k = level if per_level else 1
    return dict(d=d, p=draw(gens.precip_spec(gens.n_days(d))), level=level,
                stats=[draw(st.one_of(casc.random_stats(), casc.random_stats(), casc.one_hot(),
                                      st.just(casc.sample()))) for _ in range(k)],
                thr=[draw(st.sampled_from([0.0, 0.05, 0.5, 2.0])) for _ in range(k if per_level else 5)],
                per_level=per_level, default=draw(st.booleans()))


@sub('cascade_5min', fine_case(), quick=160, rule=RULE)
def cascade_5min(c, ev):
    idx = gens.calendar(c['d'])
    daily = gens.mat(c['p'], len(idx))
    res = call(melodist.disagg_prec_cascade, pd.Series(daily, idx), options(c, c['level']),
               hourly=False,
               **({} if c['default'] and c['level'] == 9 else dict(level=c['level'])))
    steps = pd.DatetimeIndex(np.concatenate(
        [pd.date_range(d, periods=LEVEL_STEPS, freq='5min').values for d in idx]))
    same_index(res, steps, '5 min cascade')
    check_days(res, idx, daily, '5 min cascade', LEVEL_STEPS)
    ev.label('level%d' % c['level'])
    classify(daily, ev)


@st.composite
def season_case(draw):
    d = draw(gens.days_spec(lo=2, mid=120, big=800, gaps=True))
    k = draw(st.integers(1, 5))
    which = draw(st.lists(st.integers(0, k - 1), min_size=12, max_size=12))
    seasons = [[m + 1 for m in range(12) if which[m] == j] for j in range(k)]
    seasons = [s for s in seasons if s]
    if draw(st.booleans()):
        seasons = [s[::-1] for s in seasons]
    per_level = draw(st.booleans())
    return dict(d=d, p=draw(gens.precip_spec(gens.n_days(d))), seasons=seasons,
                as_array=draw(st.booleans()), per_level=per_level,
                stats=[[draw(casc.any_stats()) for _ in range(5 if per_level else 1)] for _ in seasons],
                thr=[draw(st.sampled_from([0.0, 0.5, 2.0])) for _ in range(5)])


@sub('station_seasons', season_case(), quick=300,
     rule='at least two seasons with two or more days in the record, and a wet day')
def station_seasons(c, ev):
    idx = gens.calendar(c['d'])
    daily = gens.mat(c['p'], len(idx))
    s = call(melodist.Station, data_daily=gens.frame(idx, precip=daily))
    s.statistics.precip.months = [np.array(m) if c['as_array'] else m for m in c['seasons']]
    s.statistics.precip.stats = [
        options(dict(c, stats=st_), 5) for st_ in c['stats']]
    call(s.disaggregate_precipitation, method='cascade')
    full = gens.calendar(c['d'], full=True)
    res = s.data_disagg.precip
    same_index(res, hours_of(full), 'station cascade')
    total = pd.Series(daily, idx).reindex(full)
    v = pd.Series(values(res), hours_of(full))
    used = 0
    for m in c['seasons']:
        in_season = full.month.isin(m)
        if in_season.sum() < 2:
            continue  # the cascade needs two days
        used += 1
        check_days(v[v.index.month.isin(m)], full[in_season], total[in_season].values, 'season %s' % m)
    ev.label('seasons_used_%d' % min(used, 3))
    ev.nontrivial(used >= 2 and (daily > 0).any())


@st.composite
def master_case(draw):
    d = draw(gens.days_spec(mid=40, big=0, gaps=True))
    n = gens.n_days(d)
    return dict(d=d, p=draw(gens.precip_spec(n)), via=draw(st.sampled_from(['station', 'direct', 'disagg_prec'])),
                mseed=draw(gens.SEEDS), wet=draw(st.sampled_from([0.0, 0.03, 0.1, 0.5, 1.0])))


def master_series(seed, wet, full):
    """Hourly record of the master station: rain in a fraction of the hours."""
    r = np.random.RandomState(seed)
    n = len(full) * 24
    v = np.round(r.exponential(1.5, n), 1) * (r.uniform(size=n) < wet)
    return pd.Series(v, hours_of(full))


@sub('master_uniform', master_case(), quick=400, rule=RULE)
def master_uniform(c, ev):
    idx = gens.calendar(c['d'])
    full = gens.calendar(c['d'], full=True)
    daily = gens.mat(c['p'], len(idx))
    master = master_series(c['mseed'], c['wet'], full)
    ser = pd.Series(daily, idx)
    if c['via'] == 'station':
        s = call(melodist.Station, data_daily=gens.frame(idx, precip=daily))
        call(s.disaggregate_precipitation, method='masterstation', master_precip=master)
        res, idx, daily = s.data_disagg.precip, full, ser.reindex(full).values
    elif c['via'] == 'direct':
        res = call(melodist.precip_master_station, ser, master, 'uniform')
    else:
        res = call(melodist.disagg_prec, ser, method='masterstation', hourly_data_obs=master)
    same_index(res, hours_of(idx), 'master station')
    check_days(res, idx, daily, 'master station')
    classify(daily, ev)


@st.composite
def shift_case(draw):
    d = draw(gens.days_spec(lo=2, small=6, mid=30, gaps=True))
    via = draw(st.sampled_from(['cascade', 'disagg_prec', 'station', 'station', 'fine']))
    k = 1
    if via == 'station' and draw(st.booleans()):  # several seasons, several years
        d = draw(gens.days_spec(lo=20, small=60, mid=120, big=800, gaps=True))
        k = draw(st.integers(2, 4))
    which = draw(st.lists(st.integers(0, k - 1), min_size=12, max_size=12))
    seasons = [q for q in ([m + 1 for m in range(12) if which[m] == j] for j in range(k)) if q]
    return dict(d=d, p=draw(gens.precip_spec(gens.n_days(d))), stats=[draw(casc.one_hot()) for _ in seasons], per_level=False,
                thr=[draw(st.sampled_from([0.0, 0.3, 2.0])) for _ in range(5)], seasons=seasons,
                shift=draw(st.one_of(st.integers(-30, 30), st.sampled_from([7, 6, -7, 1, -1, 24, 100, -100]))), via=via)


@sub('shift', shift_case(), quick=500, rule='non-zero shift that leaves values in the record, and a wet day')
def shift(c, ev):
    idx = gens.calendar(c['d'])
    if c['via'] == 'fine':
        idx = idx[:3]
    daily = gens.mat(c['p'], gens.n_days(c['d']))[:len(idx)]
    ser = pd.Series(daily, idx)
    opts = [options(dict(c, stats=[q]), 9) for q in c['stats']]
    k = c['shift']
    if c['via'] == 'cascade':
        a = call(melodist.disagg_prec_cascade, ser, opts[0])
        b = call(melodist.disagg_prec_cascade, ser, opts[0], shift=k)
    elif c['via'] == 'fine':
        a = call(melodist.disagg_prec_cascade, ser, opts[0], hourly=False, level=9)
        b = call(melodist.disagg_prec_cascade, ser, opts[0], hourly=False, level=9, shift=k)
    elif c['via'] == 'disagg_prec':
        a = call(melodist.disagg_prec, ser, method='cascade', cascade_options=opts[0])
        b = call(melodist.disagg_prec, ser, method='cascade', cascade_options=opts[0], shift=k)
    else:
        s = call(melodist.Station, data_daily=ser.to_frame('precip'))
        s.statistics.precip.months = c['seasons']
        s.statistics.precip.stats = opts
        call(s.disaggregate_precipitation, method='cascade')
        a = s.data_disagg.precip.copy()
        call(s.disaggregate_precipitation, method='cascade', shift=k)
        b = s.data_disagg.precip
    same_index(b, a.index, 'shifted series')
    x = dict(zip(a.index, values(a)))
    step = pd.Timedelta(minutes=5 if c['via'] == 'fine' else 60)
    exp = np.array([x.get(t - k * step, np.nan) for t in a.index])
    close(values(b), exp, 'series shifted by %d' % k, rtol=0, atol=0, labels=a.index)
    ev.label(c['via'], 'shift+' if k > 0 else 'shift-' if k < 0 else 'shift0', *(['seasons'] if len(c['seasons']) > 1 else []))
    ev.nontrivial(k != 0 and abs(k) < len(x) and (daily > 0).any())
