"""C13: humidity calibration and vapour pressure formulas are exact."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gens
import vapour
from harness import call, close, frame_state, melodist, mutil, require, same_index, sub, values

TEMPS = st.one_of(st.floats(205, 330).map(lambda v: round(v, 3)), st.sampled_from([273.15, 273.14999, 273.16, 273.15 - 1e-9, 273.11, 273.14, 273.19, 273.3, 250.0, 300.0]))
HUMS = st.one_of(st.floats(0.1, 100).map(lambda v: round(v, 2)), st.sampled_from([100.0, 50.0, 1.0]))


@st.composite
def formula_case(draw):
    n = draw(st.integers(1, 12))
    return dict(t=draw(st.lists(TEMPS, min_size=n, max_size=n)), h=draw(st.lists(HUMS, min_size=n, max_size=n)),
                kind=draw(st.sampled_from(['array', 'series', 'hourly', 'integers'])), miss=draw(st.lists(st.integers(0, n - 1), max_size=3)),
                mh=draw(st.lists(st.integers(0, n - 1), max_size=3)), scalar=draw(st.booleans()), f=draw(st.floats(0.05, 0.95)))


@sub('formulas', formula_case(), quick=3000, rule='temperatures on both sides of 273.15 K, not all missing')
def formulas(c, ev):
    t, h = np.array(c['t'], dtype=float), np.array(c['h'], dtype=float)
    if c['scalar']:
        h[:] = h[0]
    else:
        h[c['mh']] = np.nan
    if c['kind'] == 'integers':
        t = np.round(t)
    else:
        t[c['miss']] = np.nan
    if c['kind'] in ('array', 'integers'):
        wrap = np.array
    elif c['kind'] == 'series':
        wrap = pd.Series
    else:
        wrap = lambda v: pd.Series(v, gens.hourly_range('2001-01-01', len(v)))
    tt = t.astype(int) if c['kind'] == 'integers' else wrap(t)
    hum = float(h[0]) if c['scalar'] else wrap(h)
    exp = vapour.pressures(t, h)
    e = values(call(mutil.vapor_pressure, tt, hum))
    close(e, exp, 'vapour pressure', rtol=1e-10, atol=0)
    close(values(tt), t, 'temperature handed in', rtol=0, atol=0)
    td = values(call(mutil.dewpoint_temperature, tt, wrap(h)))
    close(td, vapour.dewpoints(t, h), 'dew point', rtol=1e-10, atol=1e-8)
    ok = ~np.isnan(td)
    require((td[ok] <= t[ok] + 1e-9).all(), 'dew point above temperature')
    # metamorphic relations
    close(values(call(mutil.vapor_pressure, tt, wrap(h * c['f']))), e * c['f'], 'vapour pressure in proportion to humidity', rtol=1e-9)
    close(values(call(mutil.dewpoint_temperature, tt, wrap(np.full(len(t), 100.0)))), t, 'dew point at saturation', rtol=0, atol=1e-8)
    lower = values(call(mutil.dewpoint_temperature, tt, wrap(h * c['f'])))
    require((lower[ok] < td[ok]).all(), 'dew point does not increase with humidity')
    u = np.unique(t[~np.isnan(t)])
    sat = values(call(mutil.vapor_pressure, wrap(u), 100))
    require((np.diff(sat)[np.diff(u) > 1e-6] > 0).all(), 'saturation vapour pressure does not increase with temperature')
    ev.label(c['kind'], 'scalar' if c['scalar'] else 'elementwise', *(['missing'] if np.isnan(t).any() else []))
    ev.nontrivial((t[~np.isnan(t)] < 273.15).any() and (t[~np.isnan(t)] >= 273.15).any())


@st.composite
def calib_case(draw):
    return dict(start=draw(gens.starts()), hour=draw(st.sampled_from([0, 0, 0, 7])), days=draw(st.one_of(st.integers(3, 12), st.integers(20, 90), st.integers(380, 800))),
                seed=draw(gens.SEEDS), base=draw(st.sampled_from([262.0, 273.0, 285.0])), nan=draw(st.sampled_from([0.0, 0.05, 0.4])),
                dry=draw(st.sampled_from([0.3, 0.7, 0.97])), fine=draw(st.sampled_from([1, 1, 10, 100])), blank=draw(st.booleans()), absent=draw(st.sampled_from([0.0, 0.0, 0.1])),
                via=draw(st.sampled_from(['statistics', 'direct'])), extra=draw(st.booleans()))


def observations(c):
    r = np.random.RandomState(c['seed'])
    idx = pd.date_range(pd.Timestamp(c['start']) + pd.Timedelta(hours=c['hour']), periods=24 * c['days'], freq='h')
    n = len(idx)
    day = (idx.normalize() - idx[0].normalize()).days.values
    nd = day[-1] + 1
    temp = np.round(c['base'] + r.uniform(-8, 8, nd)[day] + 5 * np.sin(2 * np.pi * (idx.hour - 9) / 24) + r.normal(0, 0.5, n), 2)
    hum = np.round(np.clip(60 + 25 * np.cos(2 * np.pi * idx.hour / 24) + r.normal(0, 8, n), 3, 100), 1 if c['fine'] == 1 else 3)
    wet = r.uniform(size=nd) >= c['dry']
    # a wet day may have rain in a single hour only
    rain = np.round(r.exponential(0.6, n), 1) / c['fine'] * (r.uniform(size=n) < np.where(r.uniform(size=nd) < 0.5, 0.05, 0.5)[day]) * wet[day]
    df = pd.DataFrame(dict(temp=temp, hum=hum, precip=rain), index=idx)
    if c['nan']:
        df = df.mask(r.uniform(size=df.shape) < c['nan'])
    if c['blank']:  # whole days without one of the variables
        for col in df.columns:
            gone = r.uniform(size=nd) < 0.2
            df.loc[gone[day], col] = np.nan
    if c['absent']:
        keep = r.uniform(size=n) >= c['absent']
        keep[[0, -1]] = True
        df = df[keep]
    if c['extra']:
        df['wind'] = 3.0
    return df


@sub('calibration', calib_case(), quick=400, rule='wet and dry days, and the regression has three or more days')
def calibration(c, ev):
    df = observations(c)
    idx = df.index
    before = frame_state(df)
    dates = idx.normalize()
    # regression
    td = vapour.dewpoints(df.temp.values, df.hum.values)
    xs, ys = [], []
    for day in dates.unique():
        k = np.asarray(dates == day)
        a, b = df.temp.values[k], td[k]
        if not np.isnan(a).all() and not np.isnan(b).all():
            xs.append(np.nanmin(a))
            ys.append(np.nanmean(b))
    x, y = np.array(xs), np.array(ys)
    fit = len(x) >= 3 and np.std(x) > 0.3
    if not fit:
        return
    a1 = np.mean((x - x.mean()) * (y - y.mean())) / np.mean((x - x.mean())**2)
    a0 = y.mean() - a1 * x.mean()
    # categorical means
    groups = {}
    rain_on = {}
    for q, p in zip(dates, df.precip.values):
        rain_on[q] = rain_on.get(q, False) or bool(p > 0)
    for i, v in zip(range(len(idx)), df.hum.values):
        if not np.isnan(v):
            groups.setdefault((idx[i].month, idx[i].hour, rain_on[dates[i]]), []).append(v)
    if c['via'] == 'statistics':
        s = call(melodist.StationStatistics, data=df)
        call(s.calc_humidity_stats)
        g1, g0, mhp = s.hum.a1, s.hum.a0, s.hum.month_hour_precip_mean
        require(s.hum.kr in (6, 12), 'kr is %r', s.hum.kr)
        require(frame_state(s.data) == before, 'calibration changed the observations of the statistics object')
    else:
        g1, g0 = call(melodist.calculate_dewpoint_regression, df)[:2]
        more = call(melodist.calculate_dewpoint_regression, df, return_stats=True)
        require(len(more) > 2, 'no statistics of the regression returned')
        close(np.array(more[:2], dtype=float), [g1, g0], 'parameters when statistics are returned', rtol=1e-6, atol=1e-6)
        mhp = call(melodist.calculate_month_hour_precip_mean, df)
    require(frame_state(df) == before, 'calibration changed the observations handed in')
    close(np.array([g1, g0], dtype=float), [a1, a0], 'dew point regression (slope, intercept)', rtol=1e-6, atol=1e-6)
    got = {}
    for key, v in mhp.items():
        if not np.isnan(v):
            got[(int(key[0]), int(key[1]), bool(key[2]))] = float(v)
    require(set(got) == set(groups), 'categories differ: %s', sorted(set(got) ^ set(groups))[:3])
    for key, v in groups.items():
        require(abs(got[key] - np.mean(v)) < 1e-8, 'mean humidity of (month, hour, wet) %s is %r instead of %r', key, got[key], float(np.mean(v)))
    ev.label(c['via'], *(['missing'] if c['nan'] or c['blank'] else []), *(['absent_hours'] if c['absent'] else []),
             *(['ice'] if (df.temp < 273.15).any() else []))
    ev.nontrivial(len({k[2] for k in groups}) == 2)
