"""C14: wind disaggregation follows its method and its calibration."""
import numpy as np
import pandas as pd
import scipy.stats
from hypothesis import strategies as st

import gens
from harness import call, close, frame_state, hours_of, melodist, require, same_index, sub, values


@st.composite
def case(draw):
    d = draw(gens.days_spec(mid=60, big=800, gaps=True))
    n = gens.n_days(d)
    return dict(d=d, w=draw(gens.spec(n, 0, 30, nan=0.4, dec=2, special=[0.0, 1.0])), method=draw(st.sampled_from(['equal', 'cosine', 'cosine', 'random'])),
                via=draw(st.sampled_from(['station', 'direct'])), a=draw(st.floats(-0.8, 0.8)), b=draw(st.floats(0.2, 1.5)),
                t=draw(st.one_of(st.floats(-30, 30), st.integers(0, 23).map(float))), seed=draw(st.integers(0, 2**32 - 1)), default=draw(st.booleans()),
                loc=draw(st.booleans()))


@sub('methods', case(), quick=3000, rule='two or more different positive daily means')
def methods(c, ev):
    m = c['method']
    idx = gens.calendar(c['d'])
    full = gens.calendar(c['d'], full=True)
    w = gens.mat(c['w'], len(idx))
    ser = pd.Series(w, idx, name='wind')
    kw = {} if m == 'equal' and c['default'] else dict(method=m)
    np.random.seed(c['seed'])
    if c['via'] == 'station':
        place = dict(lon=10.0, lat=47.0, timezone=1) if c['loc'] else {}
        s = call(melodist.Station, data_daily=ser.to_frame(), **place)
        if m == 'cosine' or c['default']:
            s.statistics.wind.update(a=c['a'], b=c['b'], t_shift=c['t'])
        call(s.disaggregate_wind, **kw)
        res, days, w = s.data_disagg.wind, full, ser.reindex(full).values
    else:
        days = idx
        before = frame_state(ser)
        if m == 'cosine':
            kw.update(a=c['a'], b=c['b'], t_shift=c['t'])
        res = call(melodist.disaggregate_wind, ser, **kw)
        require(frame_state(ser) == before, 'the daily record was changed')
    if hasattr(res, 'index'):
        same_index(res, hours_of(days), 'wind')
    v = values(res)
    require(v.shape == (24 * len(days),), '%d values for %d days', v.size, len(days))
    v = v.reshape(-1, 24)
    require((np.isnan(v) == np.isnan(w)[:, None]).all(), '%s: missing values are not those of the missing days', m)
    lab = days
    if m == 'equal':
        close(v, np.repeat(w[:, None], 24, axis=1), 'equal', rtol=0, atol=0, labels=lab)
    elif m == 'cosine':
        exp = np.array([[x * (c['a'] * np.cos(np.pi * (h - c['t']) / 12) + c['b']) for h in range(24)] for x in w])
        close(v, exp, 'cosine', rtol=1e-9, atol=1e-9, labels=lab)
        close(v.mean(axis=1), c['b'] * w, 'daily mean of the cosine', rtol=1e-9, atol=1e-9, labels=lab)
    else:
        ok = ~np.isnan(w)
        require((v[ok] >= 0).all() and np.isfinite(v[ok]).all(), 'random: negative or infinite wind')
        require((v[ok & (w == 0)] == 0).all(), 'random: wind on a calm day')
        pos = ok & (w > 0)
        u = np.exp(-(v[pos] / w[pos][:, None])**(1 / 0.3)).ravel()
        if u.size >= 24:
            require(len(np.unique(u)) > 0.99 * u.size, 'random: values repeat')
        if u.size >= 24 * 20:
            p = scipy.stats.kstest(u, 'uniform').pvalue
            require(p > 1e-12, 'random: not distributed as (-ln u)^0.3 (p=%g)', p)
            for lag in (1, 24):
                rho = scipy.stats.pearsonr(u[lag:], u[:-lag])
                require(rho.pvalue > 1e-12, 'random: values %d h apart are correlated (%.3f)', lag, rho.statistic)
            ev.label('distribution_tested')
    ev.label(m, c['via'], *(['missing'] if np.isnan(w).any() else []))
    ev.nontrivial(len(np.unique(w[w > 0])) >= 2)


@st.composite
def many_case(draw):
    return dict(start=draw(gens.starts()), n=draw(st.integers(3000, 8000)), w=draw(st.lists(st.floats(0.1, 30), min_size=1, max_size=5)), seed=draw(st.integers(0, 2**32 - 1)),
                via=draw(st.sampled_from(['station', 'direct'])))


@sub('random_distribution', many_case(), quick=40, rule='always')
def random_distribution(c, ev):
    """Long records: the whole distribution including both tails, and independence."""
    days = pd.date_range(c['start'], periods=c['n'], freq='D')
    w = np.resize(c['w'], c['n'])
    np.random.seed(c['seed'])
    if c['via'] == 'station':
        s = call(melodist.Station, data_daily=pd.DataFrame(dict(wind=w), index=days))
        call(s.disaggregate_wind, method='random')
        v = values(s.data_disagg.wind)
    else:
        v = values(call(melodist.disaggregate_wind, pd.Series(w, days), method='random'))
    require(v.shape == (24 * c['n'],) and np.isfinite(v).all() and (v >= 0).all(), 'random: missing, infinite or negative values')
    again = values(call(melodist.disaggregate_wind, pd.Series(w, days), method='random'))
    require((again == v).mean() < 0.01, 'random: the values of one request are those of the request before')
    x = v / np.repeat(w, 24)
    u = np.exp(-x**(1 / 0.3))
    n = u.size
    p = scipy.stats.kstest(u, 'uniform').pvalue
    require(p > 1e-12, 'random: not distributed as (-ln u)^0.3 (p=%g)', p)
    require(u.min() < 35 / n, 'random: the largest of %d values is %g times the daily mean', n, x.max())
    require(u.max() > 1 - 35 / n, 'random: the smallest of %d values is %g times the daily mean', n, x.min())
    for lag in (1, 2, 3, 6, 8, 12, 23, 24, 25, 48):
        rho = scipy.stats.pearsonr(u[lag:], u[:-lag])
        require(rho.pvalue > 1e-12, 'random: values %d h apart are correlated (%.4f)', lag, rho.statistic)
    ev.label(c['via'])
    ev.nontrivial()


@st.composite
def fit_case(draw):
    return dict(start=draw(gens.starts()), hour=draw(st.sampled_from([0, 0, 5])), days=draw(st.one_of(st.integers(3, 20), st.integers(60, 500))), seed=draw(gens.SEEDS),
                a=draw(st.floats(0.05, 0.7)), b=draw(st.sampled_from([1.0, 1.0, 0.8, 1.2])), t=draw(st.floats(0, 24)), noise=draw(st.sampled_from([0.0, 0.0, 0.05, 0.4])),
                nan=draw(st.sampled_from([0.0, 0.0, 0.1, 0.5])), blank=draw(st.booleans()), absent=draw(st.booleans()), calm=draw(st.sampled_from([0.0, 0.3])),
                via=draw(st.sampled_from(['statistics', 'direct'])), name=draw(st.booleans()))


@sub('calibration', fit_case(), quick=1600, rule='a course with noise or a record with missing values')
def calibration(c, ev):
    r = np.random.RandomState(c['seed'])
    idx = pd.date_range(pd.Timestamp(c['start']) + pd.Timedelta(hours=c['hour']), periods=24 * c['days'], freq='h')
    n = len(idx)
    day = (idx.normalize() - idx[0].normalize()).days.values
    w = r.uniform(1, 9, day[-1] + 1)
    w[r.uniform(size=len(w)) < c['calm']] = 0.15
    w = w[day]
    v = w * (c['a'] * np.cos(np.pi * (idx.hour.values - c['t']) / 12) + c['b'])
    v = np.maximum(0.0, v + c['noise'] * w * r.normal(0, 1, n))
    v[r.uniform(size=n) < c['nan']] = np.nan
    if c['blank']:
        v[(r.uniform(size=day[-1] + 1) < 0.2)[day]] = np.nan
    s = pd.Series(v, idx, name='wind' if c['name'] or c['via'] == 'statistics' else None)
    if c['absent']:
        keep = r.uniform(size=n) > 0.1
        keep[0] = True
        s = s[keep]
    daily = {d: np.nanmean(g.values) if g.notnull().any() else np.nan for d, g in s.groupby(s.index.normalize())}
    m = np.array([daily[d] for d in s.index.normalize()])
    ok = ~np.isnan(s.values)
    if ok.sum() < 40:
        return
    h = s.index.hour.values
    X = np.array([m * np.cos(np.pi * h / 12), m * np.sin(np.pi * h / 12), m]).T[ok]
    sol = np.linalg.lstsq(X, s.values[ok], rcond=None)[0]
    if np.hypot(*sol[:2]) < 0.02:
        return  # no diurnal course to speak of
    before = frame_state(s)
    if c['via'] == 'statistics':
        df = s.to_frame()
        df['temp'] = np.nan  # other variables do not matter
        ss = call(melodist.StationStatistics, data=df)
        call(ss.calc_wind_stats)
        a, b, t = ss.wind.a, ss.wind.b, ss.wind.t_shift
        require(frame_state(ss.data.wind) == before, 'calibration changed the observations')
    else:
        a, b, t = call(melodist.fit_cosine_function, s)
    require(frame_state(s) == before, 'calibration changed the observations handed in')
    hh = np.arange(24)
    got = a * np.cos(np.pi * (hh - t) / 12) + b
    exp = sol[0] * np.cos(np.pi * hh / 12) + sol[1] * np.sin(np.pi * hh / 12) + sol[2]
    close(got, exp, 'calibrated course (factor by hour)', rtol=0, atol=1e-4)
    if c['noise'] == 0 and not c['absent'] and not c['blank'] and c['nan'] == 0 and c['hour'] == 0 and c['b'] == 1.0:
        close(got, c['a'] * np.cos(np.pi * (hh - c['t']) / 12) + c['b'], 'calibrated course of a record that follows one', rtol=0, atol=1e-4)
        ev.label('exact')
    ev.label(c['via'], 'noise%g' % c['noise'], *(['missing'] if np.isnan(s.values).any() else []))
    ev.nontrivial(c['noise'] > 0 or np.isnan(s.values).any() or c['absent'])
