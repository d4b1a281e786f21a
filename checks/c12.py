"""C12: humidity disaggregation stays physical and follows its method."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gens
import stations
import vapour
from harness import call, close, frame_state, hours_of, melodist, require, same_index, sub, values

METHODS = ['equal', 'minimal', 'dewpoint_regression', 'linear_dewpoint_variation', 'min_max', 'month_hour_precip_mean']


@st.composite
def case(draw):
    gaps = draw(st.booleans())
    d = draw(gens.days_spec(mid=40, big=400 if draw(st.integers(0, 9)) == 0 else 0, gaps=gaps))
    n = gens.n_days(d)
    return dict(d=d, method=draw(st.sampled_from(METHODS)), keep=draw(st.booleans()), via=draw(st.sampled_from(['station', 'direct'])),
                place=draw(gens.places(-59, 59, slack=10)), t=draw(gens.temp_specs(n, nan=0.25)),
                hum=draw(gens.spec(n, 0, 100, nan=0.4, dec=1, special=[0.0, 100.0, 50.0])),
                lo=draw(gens.spec(n, 0, 100, nan=0.2, dec=1, special=[0.0, 100.0])),
                width=draw(gens.spec(n, 0, 1, nan=0.2, dec=3, special=[0.0, 1.0])),
                precip=draw(gens.precip_spec(n, nan=0.3)), seed=draw(gens.SEEDS),
                a0=draw(st.one_of(st.floats(-8, 8), st.just(0.0)).map(lambda v: round(v, 3))), a1=draw(st.floats(0.95, 1.02).map(lambda v: round(v, 4))),
                kr=draw(st.sampled_from([6, 12])), tnan=draw(st.sampled_from([0.0, 0.0, 0.05, 0.3])), default=draw(st.booleans()))


def tdew_of(method, days, tmin, a0, a1, kr):
    """Hourly dew point, hour by hour."""
    daily = tmin.copy() if method == 'minimal' else a0 + a1 * tmin
    out = np.empty((len(days), 24))
    for i in range(len(days)):
        if i + 1 == len(days):
            nxt = daily[i]
        else:  # unknown if the next day is absent from the record
            nxt = daily[i + 1] if (days[i + 1] - days[i]).days == 1 else np.nan
        for h in range(24):
            out[i, h] = daily[i]
            if method == 'linear_dewpoint_variation':
                out[i, h] += h / 24 * (nxt - daily[i]) + 0.5 * np.sin((h + 1) * np.pi / kr - 3 * np.pi / 4)
    return out


@sub('methods', case(), quick=4000, rule='two or more days with values and at least two different hourly values (days for the equal method)')
def methods(c, ev):
    m = c['method']
    d = c['d']
    idx = gens.calendar(d)
    n = len(idx)
    r = np.random.RandomState(c['seed'])
    t = gens.temp_columns(c['t'], n)
    lo = gens.mat(c['lo'], n)
    hi = lo + gens.mat(c['width'], n) * (100 - lo)
    df = gens.frame(idx, tmin=t['tmin'], tmax=t['tmax'], temp=t['temp'], hum=gens.mat(c['hum'], n), hum_min=lo, hum_max=hi,
                    precip=gens.mat(c['precip'], n))
    mhp = pd.Series(np.round(r.uniform(5, 100, 576), 2), index=pd.MultiIndex.from_product([np.arange(1, 13), np.arange(24), [False, True]]))
    if c['via'] == 'station':
        p = c['place']
        s = call(melodist.Station, lon=p['lon'], lat=p['lat'], timezone=p['tz'], data_daily=df)
        s.statistics.hum.update(a0=c['a0'], a1=c['a1'], kr=c['kr'], month_hour_precip_mean=mhp)
        call(s.disaggregate_temperature, method='sine_min_max')
        temp = values(s.data_disagg.temp).copy()
        days = gens.calendar(d, full=True)
        df = df.reindex(days)
        kw = {} if c['default'] and not c['keep'] else dict(preserve_daily_mean=c['keep'])
        if not (c['default'] and m == 'equal'):
            kw['method'] = m
        call(s.disaggregate_humidity, **kw)
        res = s.data_disagg.hum
        close(values(s.data_disagg.temp), temp, 'temperature after humidity disaggregation', rtol=0, atol=0)
    else:
        days = idx
        hours = hours_of(days)
        w = 0.5 - 0.5 * np.cos(2 * np.pi * (np.arange(24) - 3) / 24)
        temp = (t['tmin'][:, None] + (t['tmax'] - t['tmin'])[:, None] * w[None, :]).ravel() + np.round(r.uniform(-0.5, 0.5, len(hours)), 2)
        temp[r.uniform(size=len(temp)) < c['tnan']] = np.nan
        before = frame_state(df)
        kw = dict(temp=pd.Series(temp.copy(), hours))
        if c['keep'] or not c['default']:
            kw['preserve_daily_mean'] = c['keep']
        if m in ('dewpoint_regression', 'linear_dewpoint_variation'):
            kw.update(a0=c['a0'], a1=c['a1'])
        if m == 'linear_dewpoint_variation':
            kw.update(kr=c['kr'])
        if m == 'month_hour_precip_mean':
            kw.update(month_hour_precip_mean=mhp)
        if m in ('equal', 'month_hour_precip_mean') and c['default']:
            del kw['temp']
        res = call(melodist.disaggregate_humidity, df, method=m, **kw)
        require(frame_state(df) == before, 'the daily record was changed')
        if 'temp' in kw:
            close(kw['temp'], temp, 'temperature handed in', rtol=0, atol=0)
    hours = hours_of(days)
    same_index(res, hours, 'humidity')
    v = values(res).reshape(-1, 24)
    require(not ((v < 0) | (v > 100)).any(), 'humidity outside 0..100: %s', v[(v < 0) | (v > 100)][:3])
    T = temp.reshape(-1, 24)
    obs = df.hum.values
    skip = np.zeros(len(days), bool)
    if m == 'equal':
        exp = np.repeat(obs, 24).reshape(-1, 24)
    elif m in ('minimal', 'dewpoint_regression', 'linear_dewpoint_variation'):
        td = tdew_of(m, days, df.tmin.values, c['a0'], c['a1'], c['kr'])
        exp = 100 * vapour.pressures(td) / vapour.pressures(T)
    elif m == 'min_max':
        with np.errstate(all='ignore'):
            f = (T - df.tmin.values[:, None]) / (df.tmax.values - df.tmin.values)[:, None]
        exp = df.hum_max.values[:, None] + f * (df.hum_min.values - df.hum_max.values)[:, None]
        skip = df.tmax.values - df.tmin.values < 1e-6  # no temperature range to map from
    else:
        exp = np.array([[mhp.loc[(q.month, h, bool(x > 0))] for h in range(24)] for q, x in zip(days, df.precip.values)]).reshape(-1, 24)
        skip = np.isnan(df.precip.values) & np.isnan(v).all(axis=1)  # not known to be wet
    free = 0
    for i in np.flatnonzero(~skip):
        e = exp[i]
        if c['keep'] and not np.isnan(obs[i]) and not np.isnan(e).all():
            e = e - (np.nanmean(e) - obs[i])
            if not ((e < -1e-9) | (e > 100 + 1e-9)).any():
                free += 1
                require(abs(np.nanmean(v[i]) - obs[i]) < 1e-7, '%s %s: daily mean %r instead of the observed %r', m, days[i].date(),
                        float(np.nanmean(v[i])), float(obs[i]))
        close(v[i], np.clip(e, 0, 100), '%s%s %s' % (m, ' with daily mean' if c['keep'] else '', days[i].date()), rtol=1e-8, atol=1e-7)
    ok = ~np.isnan(v).all(axis=1) & ~skip
    ev.label(m, c['via'], *(['daily_mean_kept'] if free else []), *(['ice'] if (T < 273.15).any() else []),
             *(['missing_mean'] if c['keep'] and np.isnan(obs).any() else []))
    ev.nontrivial(ok.sum() >= 2 and len(np.unique(v[ok][~np.isnan(v[ok])])) >= 2)
