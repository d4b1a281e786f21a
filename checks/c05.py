"""C05: sine temperature methods preserve what they promise."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gens
import sun
import temps
from harness import call, close, hours_of, melodist, require, same_index, sub, values

METHODS = ['sine_min_max', 'sine', 'sine_mean']
HOWS = ['fix', 'sun_loc', 'sun_loc_shift']


@st.composite
def options(draw):
    return dict(method=draw(st.sampled_from(METHODS)), how=draw(st.sampled_from(HOWS)), night=draw(st.booleans()))


@st.composite
def deltas(draw, lo=-4.0, hi=8.0):
    return [draw(st.floats(lo, hi).map(lambda v: round(v, 2))) for _ in range(12)]


def verify(res, days, tmin, tmax, mean, o, lo, hi, ev):
    """Compare with the reference curve, and the promises directly."""
    same_index(res, hours_of(days), 'temperature')
    night = o['night'] and o['method'] != 'sine_mean'
    exp = temps.curve(o['method'], night, days, tmin, tmax, mean, lo, hi)
    close(values(res), exp.ravel(), 'temperature (%s, %s, night %s)' % (o['method'], o['how'], o['night']),
          labels=res.index, atol=1e-8)
    v = values(res).reshape(-1, 24)
    min_before, min_next = temps.neighbours(days, tmin)
    max_before, max_next = temps.neighbours(days, tmax)
    complete = ~np.isnan(tmin) & ~np.isnan(tmax) & ~np.isnan(min_next) & ~np.isnan(max_before)
    complete &= ~np.isnan(min_before) & ~np.isnan(max_next)
    if o['method'] == 'sine_mean':
        complete &= ~np.isnan(mean)
    for i in np.flatnonzero(complete):
        if not (lo[i] < hi[i] and 12 <= hi[i] <= 23):
            continue
        day = days[i].date()
        if o['method'] == 'sine_mean':
            require(abs(v[i].mean() - mean[i]) < 1e-8, '%s: mean %r, expected %r', day, float(v[i].mean()), float(mean[i]))
            r = v[i].max() - v[i].min()
            require(abs(r - (tmax[i] - tmin[i])) < 1e-8, '%s: range %r, expected %r', day, float(r), float(tmax[i] - tmin[i]))
            continue
        low = lo[i] if night else hi[i] - 12
        require(abs(v[i, hi[i]] - tmax[i]) < 1e-8, '%s: %r at the hour of maximum, expected %r', day, float(v[i, hi[i]]), float(tmax[i]))
        require(abs(v[i, low] - tmin[i]) < 1e-8, '%s: %r at the hour of minimum, expected %r', day, float(v[i, low]), float(tmin[i]))
        bottom = min(tmin[i], min_next[i], min_before[i]) - 1e-8
        top = max(tmax[i], max_before[i], max_next[i]) + 1e-8
        if max(min_next[i], tmin[i]) <= min(max_before[i], tmax[i]):
            require(v[i].min() >= bottom and v[i].max() <= top, '%s: values %r..%r outside the extremes %r..%r', day,
                    float(v[i].min()), float(v[i].max()), float(bottom), float(top))
    ev.label(o['method'], o['how'], 'night' if night else 'plain', *(['missing'] if not complete.all() else []))
    return complete


RULE = 'two or more complete days with differing extremes'


def nontrivial(tmin, tmax, complete):
    return complete.sum() >= 2 and len(set(tmin[complete])) > 1 and len(set(tmax[complete])) > 1


@st.composite
def direct_case(draw):
    """Sun times made up, so that every combination of hours occurs."""
    d = draw(gens.days_spec(mid=60, big=420, gaps=True))
    n = gens.n_days(d)
    return dict(d=d, t=draw(gens.temp_specs(n, nan=0.3)), o=draw(options()), delta=draw(deltas()),
                rise=draw(gens.spec(n, 0.0, 11.0, nan=0, dec=2)), noon=draw(gens.spec(n, 11.0, 13.4, nan=0, dec=2)),
                mean=draw(st.booleans()), late=draw(st.sampled_from([0, 0, 0, 2, 5])))


@sub('given_sun_times', direct_case(), quick=1800, rule=RULE)
def given_sun_times(c, ev):
    idx = gens.calendar(c['d'])
    n = len(idx)
    t = gens.temp_columns(c['t'], n)
    o = c['o']
    if not (o['method'] == 'sine_mean' or c['mean']):
        t.pop('temp')
    df = gens.frame(idx, **t)
    rise, noon = gens.mat(c['rise'], n) + 0.003 + c['late'], gens.mat(c['noon'], n) + 0.003 + c['late']  # no rounding ties
    st_ = pd.DataFrame(dict(sunrise=rise, sunnoon=noon, sunset=2 * noon - rise, daylength=np.maximum(2 * (noon - rise), 3.5)), index=idx)
    delta = pd.Series(c['delta'], index=np.arange(1, 13))
    try:
        lo, hi = temps.hours_of_extremes(o['how'], st_, delta, idx.month)
    except temps.Tie:
        return
    if (hi > 23).any() or (hi < 0).any():
        ev.label('hour_outside_day')
        return
    res = call(melodist.disaggregate_temperature, df, method=o['method'], min_max_time=o['how'], mod_nighttime=o['night'],
               max_delta=delta, sun_times=st_)
    complete = verify(res, idx, t['tmin'], t['tmax'], t.get('temp'), o, lo, hi, ev)
    ev.nontrivial(nontrivial(t['tmin'], t['tmax'], complete))


@st.composite
def bright(draw):
    """High latitude in summer."""
    south = draw(st.booleans())
    p = draw(gens.places(-89 if south else 60, -60 if south else 89))
    return p, '%d-%02d-%02d' % (draw(st.integers(1990, 2030)), 12 if south else 6, draw(st.integers(1, 28)))


@st.composite
def station_case(draw):
    place = start = None
    if draw(st.integers(0, 3)) == 3:
        place, start = draw(bright())
    d = draw(gens.days_spec(mid=60, big=0 if start else 420, gaps=True, start=start))
    n = gens.n_days(d)
    return dict(d=d, t=draw(gens.temp_specs(n, nan=0.3)), o=draw(options()), delta=draw(deltas()),
                place=place or draw(st.one_of(gens.places(-66, 66, slack=12), gens.places(-66, 66, slack=12), gens.places(-89, 89))),
                months=draw(st.booleans()), default=draw(st.booleans()))


@sub('station', station_case(), quick=1800, rule=RULE + ', no day in polar night')
def station(c, ev):
    idx = gens.calendar(c['d'])
    full = gens.calendar(c['d'], full=True)
    p, o = c['place'], c['o']
    table = sun.sun_table(full, p['lon'], p['lat'], p['tz'])
    if (table.daylength < 3 + 1e-6).any():
        ev.label('polar')
        return
    if (np.abs(table.sunrise) < 1e-6).any() or (np.abs(table.sunrise - 24) < 1e-6).any():
        return
    delta = pd.Series(c['delta'], index=np.arange(1, 13))
    try:
        lo, hi = temps.hours_of_extremes(o['how'], table, delta, full.month)
    except temps.Tie:
        return
    if (hi > 23).any() or (hi < 0).any():
        ev.label('hour_outside_day')
        return
    df = gens.frame(idx, **gens.temp_columns(c['t'], len(idx)))
    s = call(melodist.Station, lon=p['lon'], lat=p['lat'], timezone=p['tz'], data_daily=df)
    used = sorted(set(full.month))
    s.statistics.temp.max_delta = delta[used] if c['months'] else delta  # calibrated months only
    kw = dict(method=o['method'], min_max_time=o['how'], mod_nighttime=o['night'])
    if c['default'] and kw == dict(method='sine_min_max', min_max_time='fix', mod_nighttime=False):
        kw = {}
    call(s.disaggregate_temperature, **kw)
    df = df.reindex(full)
    complete = verify(s.data_disagg.temp, full, df.tmin.values, df.tmax.values, df.temp.values, o, lo, hi, ev)
    if (table.sunrise > table.sunnoon).any():
        ev.label('risen_before_midnight')
    ev.nontrivial(nontrivial(df.tmin.values, df.tmax.values, complete))
