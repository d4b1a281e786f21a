"""C07: polar-night temperature is a gap-free piecewise linear course."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gens
import sun
import temps
from harness import call, close, hours_of, melodist, require, same_index, sub, values


@st.composite
def case(draw):
    lat = draw(st.floats(62, 85).map(lambda v: round(v, 2)))
    south = draw(st.booleans())
    year = draw(st.sampled_from([1999, 2000, 2003, 2004, 2019]))
    # starts before, in or at the end of the dark season
    month, day = draw(st.sampled_from([(9, 25), (10, 20), (11, 10), (11, 25), (12, 10), (1, 5), (1, 20), (2, 5), (2, 25)]))
    if south:
        month = (month + 5) % 12 + 1
    n = draw(st.one_of(st.integers(2, 8), st.integers(20, 150), st.integers(20, 150), st.integers(380, 560)))
    off = draw(st.integers(-5, 5))
    start = str((pd.Timestamp(year, month, min(day, 28)) + pd.Timedelta(days=off)).date())
    tz = draw(st.sampled_from([0, 1, -8, 5.5, 12]))
    few = 0 if draw(st.integers(0, 5)) else draw(st.integers(1, 3))  # few dark days around the solstice
    if few:
        start, n = '%d-%02d-%02d' % (year, 6 if south else 12, draw(st.integers(1, 15))), draw(st.integers(25, 40))
    return dict(few=few, d=dict(start=start, n=n, absent=[], freq=draw(st.booleans())), t=draw(gens.temp_specs(n)),
                place=dict(lat=-lat if south else lat, lon=round(15 * tz + draw(st.floats(-12, 12)), 2), tz=tz),
                method=draw(st.sampled_from(['sine_min_max', 'sine', 'sine_mean'])),
                how=draw(st.sampled_from(['fix', 'sun_loc', 'sun_loc_shift'])), night=draw(st.booleans()),
                delta=draw(st.lists(st.floats(0, 6).map(lambda v: round(v, 2)), min_size=12, max_size=12)),
                via=draw(st.sampled_from(['station', 'direct'])), flat=draw(st.integers(0, 4)) == 0)


@sub('polar', case(), quick=2700, rule='the record contains polar-night days and a change between polar night and normal days')
def polar(c, ev):
    idx = gens.calendar(c['d'])
    p = dict(c['place'])
    if c['few']:
        lo, hi = 60.0, 70.0
        for _ in range(40):
            mid = (lo + hi) / 2
            dark = (sun.sun_table(idx, p['lon'], np.copysign(mid, p['lat']), p['tz']).daylength < 3).sum()
            lo, hi = (lo, mid) if dark >= c['few'] else (mid, hi)
            if dark == c['few']:
                break
        p['lat'] = float(np.copysign(mid, p['lat']))
    table = sun.sun_table(idx, p['lon'], p['lat'], p['tz'])
    dl = table.daylength.values
    if np.any(np.abs(dl - 3) < 1e-6) or np.any((np.abs(table.sunrise) < 1e-6) & (dl > 0)):
        return
    is_polar = dl < 3
    t = gens.temp_columns(c['t'], len(idx))
    if c['flat']:
        t['tmin'] = np.full(len(idx), 250.0)  # equal days: not colder than the day before
        t['tmax'] = np.full(len(idx), 256.0)
        t['temp'] = np.full(len(idx), 253.0)
    delta = pd.Series(c['delta'], index=np.arange(1, 13))
    try:
        lo, hi = temps.hours_of_extremes(c['how'], table, delta, idx.month)
        if (hi > 23).any():
            return
        base = temps.curve(c['method'], c['night'] and c['method'] != 'sine_mean', idx, t['tmin'], t['tmax'], t['temp'], lo, hi)
        exp, touched = temps.polar_course(base, idx, is_polar, t['tmin'], t['tmax'], lo, hi)
    except temps.Tie:
        return
    df = gens.frame(idx, **t)
    kw = dict(method=c['method'], min_max_time=c['how'], mod_nighttime=c['night'])
    if c['via'] == 'station':
        s = call(melodist.Station, lon=p['lon'], lat=p['lat'], timezone=p['tz'], data_daily=df)
        s.statistics.temp.max_delta = delta
        call(s.disaggregate_temperature, **kw)
        res = s.data_disagg.temp
    else:
        res = call(melodist.disaggregate_temperature, df, max_delta=delta, sun_times=table, **kw)
    same_index(res, hours_of(idx), 'temperature')
    close(values(res), exp.ravel(), 'temperature (%s, %s)' % (c['method'], c['how']), labels=res.index, atol=1e-7)
    v = values(res)
    lead = 6 if is_polar[0] else 0
    require(not np.isnan(v[lead:]).any(), 'missing hours')
    changes = int((is_polar[1:] != is_polar[:-1]).sum())
    ev.label('polar_days' if is_polar.any() else 'no_polar_day', 'changes%d' % min(changes, 3), c['how'], c['via'],
             *(['starts_polar'] if is_polar[0] else []), *(['ends_polar'] if is_polar[-1] else []))
    ev.nontrivial(changes > 0)
