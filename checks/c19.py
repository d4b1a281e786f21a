"""C19: daily aggregation is the inverse of equal distribution."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gens
from harness import call, close, frame_state, hours_of, melodist, mutil, require, same_index, sub, values

VARS = ['temp', 'precip', 'glob', 'hum', 'wind', 'ssd']
RANGE = dict(temp=(240, 310), precip=(0, 20), glob=(-5, 1000), hum=(0, 103), wind=(0, 30), ssd=(0, 60))


@st.composite
def agg_case(draw):
    n = draw(st.one_of(st.integers(1, 60), st.integers(24, 24 * 40)))
    if draw(st.integers(0, 14)) == 14:  # more than a year
        n = draw(st.integers(24 * 366, 24 * 800))
    cols = draw(st.lists(st.sampled_from(VARS), min_size=1, max_size=6, unique=True))
    return dict(start=draw(gens.starts()), hour=draw(st.one_of(st.just(0), st.integers(0, 23))), n=n, cols=cols, seed=draw(gens.SEEDS),
                nan=draw(st.sampled_from([0, 0, 0.05, 0.6])), drop=draw(st.sampled_from([0, 0, 0.1, 0.7])),
                hole=draw(st.booleans()), extra=draw(st.booleans()), name=draw(st.sampled_from([None, 'time'])),
                ties=draw(st.booleans()), celsius=draw(st.booleans()))


@sub('aggregate', agg_case(), quick=2700, rule='two or more days, one of them incomplete, or missing values')
def aggregate(c, ev):
    r = np.random.RandomState(c['seed'])
    idx = gens.hourly_range(pd.Timestamp(c['start']) + pd.Timedelta(hours=c['hour']), c['n'])
    keep = r.uniform(size=len(idx)) >= c['drop']
    keep[0] = True
    if c['hole'] and len(idx) > 80:
        a = r.randint(1, len(idx) - 30)
        keep[a:a + r.randint(20, 120)] = False
    df = pd.DataFrame(index=idx[keep])
    for v in VARS:
        x = np.round(r.uniform(*RANGE[v], len(idx)), 0 if c['ties'] else 2) - (273 if v == 'temp' and c['celsius'] else 0)
        x[r.uniform(size=len(idx)) < c['nan']] = np.nan
        if v in c['cols']:
            df[v] = x[keep]
    df = df[c['cols']]
    if c['extra']:
        df['other'] = 1.0
    df.index.name = c['name']
    before = frame_state(df)
    got = call(mutil.daily_from_hourly, df)
    require(frame_state(df) == before, 'the hourly record was changed')
    day = df.index.normalize()
    days = pd.date_range(day[0], day[-1], freq='D')
    same_index(got, days, 'daily record')
    exp = {}
    for v in c['cols']:
        f = dict(zip(days, [[] for _ in days]))
        for d, x in zip(day, df[v].values):
            if not np.isnan(x):
                f[d].append(x)
        lists = [f[d] for d in days]
        if v in ('precip', 'ssd'):
            exp[v] = [sum(q) / (60 if v == 'ssd' else 1) if q else None for q in lists]
        else:
            exp[v] = [sum(q) / len(q) if q else np.nan for q in lists]
        if v == 'temp':
            exp['tmin'] = [min(q) if q else np.nan for q in lists]
            exp['tmax'] = [max(q) if q else np.nan for q in lists]
        if v == 'hum':
            exp['hum_min'] = [min(q) if q else np.nan for q in lists]
            exp['hum_max'] = [max(q) if q else np.nan for q in lists]
    require(sorted(map(str, got.columns)) == sorted(exp), 'columns %s, expected %s', list(got.columns), sorted(exp))
    for v, e in exp.items():
        ok = np.array([q is not None for q in e])  # totals of days without records: not promised
        close(values(got[v])[ok], np.array([q for q in e if q is not None], dtype=float), v, labels=days[ok], atol=1e-9)
    ev.label(*c['cols'])
    ev.nontrivial(len(days) >= 2 and (c['nan'] > 0 or len(df) < 24 * len(days)))


@st.composite
def dist_case(draw):
    d = draw(gens.days_spec(mid=120, big=800, gaps=True))
    return dict(d=d, v=draw(gens.spec(gens.n_days(d), -50, draw(st.sampled_from([500, 500, 5000])), nan=0.5, special=[0.0, 24.0, 1e-6], dec=3)),
                divide=draw(st.one_of(st.none(), st.booleans())), int=draw(st.integers(0, 9)) == 9)


@sub('distribute', dist_case(), quick=3600, rule='two or more days with a value and a missing or an absent day')
def distribute(c, ev):
    idx = gens.calendar(c['d'])
    v = gens.mat(c['v'], len(idx))
    ser = pd.Series(v, idx)
    if c['int'] and not np.isnan(v).any():
        ser = ser.astype(int)
        v = ser.values.astype(float)
    kw = {} if c['divide'] is None else dict(divide=c['divide'])
    before = frame_state(ser)
    got = call(melodist.distribute_equally, ser, **kw)
    require(frame_state(ser) == before, 'the daily record was changed')
    same_index(got, hours_of(idx), 'distributed series')
    close(values(got), np.repeat(v / (24 if c['divide'] else 1), 24), 'distributed series', labels=got.index, atol=1e-12)
    # aggregation restores the series (totals only for days that have values)
    hourly = pd.Series(values(got), hours_of(idx))
    if c['divide']:
        back = call(mutil.daily_from_hourly, hourly.to_frame('precip')).precip.reindex(idx)
        ok = ~np.isnan(v)
    else:
        back = call(mutil.daily_from_hourly, hourly.to_frame('wind')).wind.reindex(idx)
        ok = np.ones(len(v), bool)
    close(values(back)[ok], v[ok], 'aggregated again', labels=idx[ok], atol=1e-9)
    ev.label('divide' if c['divide'] else 'repeat', *(['gaps'] if c['d']['absent'] else []), *(['missing'] if np.isnan(v).any() else []))
    ev.nontrivial((~np.isnan(v)).sum() >= 2 and (np.isnan(v).any() or bool(c['d']['absent'])))
