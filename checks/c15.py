"""C15: temperature calibration equals the observed diurnal features."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gens
import sun
from harness import call, close, frame_state, melodist, mutil, require, sub, values


@st.composite
def case(draw):
    return dict(start=draw(gens.starts()), hour=draw(st.sampled_from([0, 0, 0, 9])), days=draw(st.one_of(st.integers(1, 10), st.integers(25, 100), st.integers(360, 1100))),
                cut=draw(st.sampled_from([0, 0, 5])), seed=draw(gens.SEEDS), place=draw(gens.places(-70, 70)), nan=draw(st.sampled_from([0.0, 0.0, 0.05, 0.5])),
                blank=draw(st.booleans()), absent=draw(st.sampled_from(['none', 'none', 'hours', 'days', 'months'])),
                dec=draw(st.sampled_from([0, 1, 6])), base=draw(st.sampled_from([280, 280, 0])), swap=draw(st.booleans()), name=draw(st.sampled_from([None, 'time'])))


def observed(c):
    r = np.random.RandomState(c['seed'])
    n = max(1, 24 * c['days'] - c['cut'])
    idx = pd.date_range(pd.Timestamp(c['start']) + pd.Timedelta(hours=c['hour']), periods=n, freq='h')
    day = (idx.normalize() - idx[0].normalize()).days.values
    nd = day[-1] + 1
    peak = r.uniform(9, 20, nd)[day]
    v = c['base'] + r.uniform(-5, 5, nd)[day] + r.uniform(1, 8, nd)[day] * np.cos(np.pi * (idx.hour.values - peak) / 12) + r.normal(0, 0.3, n)
    v = np.round(v, c['dec'])
    v[r.uniform(size=n) < c['nan']] = np.nan
    if c['blank']:
        v[(r.uniform(size=nd) < 0.2)[day]] = np.nan
    s = pd.Series(v, idx, name='temp')
    keep = np.ones(n, bool)
    if c['absent'] == 'hours':
        keep = r.uniform(size=n) >= 0.1
    elif c['absent'] == 'days':
        keep = (r.uniform(size=nd) >= 0.2)[day]
    elif c['absent'] == 'months':
        keep = ~np.isin(idx.month, r.randint(1, 13, 4))
    keep[[0, -1]] = True
    s = s[keep] if not keep.all() else s
    s.index.name = c['name']
    return s


@sub('calibration', case(), quick=700, rule='two or more months, or missing observations')
def calibration(c, ev):
    s = observed(c)
    p = c['place']
    idx = s.index
    ok = ~np.isnan(s.values)
    if not ok.any():
        return
    sums = {}
    best = {}
    for ts, v in zip(idx, s.values):
        cell = sums.setdefault((ts.month, ts.hour), [])
        if not np.isnan(v):
            cell.append(v)
            d = ts.normalize()
            if d not in best or v > best[d][0]:
                best[d] = (v, ts.hour)
    months = sorted({m for m, _ in sums})
    before = frame_state(s)
    plain = call(mutil.calculate_mean_daily_course_by_month, s)
    norm = call(mutil.calculate_mean_daily_course_by_month, s, normalize=True)
    df = s.to_frame()
    df['wind'] = np.arange(len(s)) % 7.0
    df['precip'] = np.nan
    ss = call(melodist.StationStatistics, data=df, lon=p['lon'], lat=p['lat'], timezone=p['tz'])
    call(ss.calc_temperature_stats)
    require(frame_state(s) == before and frame_state(ss.data.temp) == before, 'calibration changed the observations')

    def cell(m, h):
        x = sums.get((m, h))
        return np.mean(x) if x else np.nan

    for m in months:
        e = np.array([cell(m, h) for h in range(24)])
        have = sorted({h for q, h in sums})

        def col(frame):
            require(m in frame.columns, 'month %d is missing from the mean course', m)
            return values(frame[m].reindex(range(24)))

        close(col(plain), e, 'mean course of month %d' % m, rtol=0, atol=1e-7, labels=range(24))
        if np.isnan(e).all() or np.nanmax(e) - np.nanmin(e) < 1e-3:
            continue  # nothing to normalise
        en = (e - np.nanmin(e)) / (np.nanmax(e) - np.nanmin(e))
        close(col(norm), en, 'normalised mean course of month %d' % m, rtol=0, atol=1e-6, labels=range(24))
        close(col(ss.temp.mean_course), en, 'calibrated mean course of month %d' % m, rtol=0, atol=1e-6, labels=range(24))
        ev.label('%d_hours' % (len(have) if len(have) == 24 else 0))
    # shift of the maximum
    days = pd.DatetimeIndex(sorted(best))
    noon = sun.sun_table(days, p['lon'], p['lat'], p['tz']).sunnoon.values
    delta = np.array([best[d][1] for d in days]) - noon
    for got, what in [(ss.temp.max_delta, 'calibrated shift'), (call(melodist.get_shift_by_data, s, p['lon'], p['lat'], p['tz']), 'shift')]:
        for m in months:
            k = days.month == m
            g = float(got.get(m, np.nan))
            if not k.any():
                require(np.isnan(g), '%s of month %d without observations is %r', what, m, g)
                continue
            require(abs(g - delta[k].mean()) < 1e-5, '%s of month %d: %r instead of %r', what, m, g, float(delta[k].mean()))
        require(set(got.dropna().index) <= set(months), '%s for months without record: %s', what, list(got.index))
    if c['swap']:
        # exchanging whole years (28 years apart: same calendar) or other variables changes nothing
        df2 = df.copy()
        df2['wind'] = 1.0
        df2.index = df2.index + pd.Timedelta(days=28 * 365 + 7)
        if (df2.index.month == idx.month).all() and (df2.index.hour == idx.hour).all():
            s2 = call(melodist.StationStatistics, data=df2, lon=p['lon'], lat=p['lat'], timezone=p['tz'])
            call(s2.calc_temperature_stats)
            close(values(s2.temp.mean_course), values(ss.temp.mean_course), 'mean course in other years', rtol=0, atol=1e-9)
    ev.label(c['absent'], *(['missing'] if not ok.all() else []), 'months%d' % min(len(months), 3))
    ev.nontrivial(len(months) >= 2 or not ok.all())
