"""C08: sun times are astronomically consistent everywhere on earth."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gens
import sun
from harness import call, close, melodist, mutil, require, same_index, sub, values

COLS = ['sunrise', 'sunnoon', 'sunset', 'daylength']


@st.composite
def case(draw):
    return dict(d=draw(gens.days_spec(mid=90, big=800, gaps=True)),
                place=draw(st.one_of(gens.places(-90, 90), gens.places(-90, 90, slack=100), gens.places(-90, 90, tz_match=False),
                                     st.fixed_dictionaries(dict(lon=st.just(0.0), lat=st.sampled_from([0.0, 66.5, -66.5, 89.99, 90.0, -90.0, 23.45]), tz=st.just(0))))),
                via=draw(st.sampled_from(['function', 'station'])), dlon=draw(st.integers(-20, 20)), dtz=draw(st.sampled_from([1, -1, 0.5, 3])),
                pick=draw(gens.SEEDS))


@sub('sun_times', case(), quick=4500, rule='two or more days; day length neither 0 nor 24 h on at least one')
def sun_times(c, ev):
    idx = gens.calendar(c['d'])
    p = c['place']
    if c['via'] == 'station':
        s = call(melodist.Station, lon=p['lon'], lat=p['lat'], timezone=p['tz'], data_daily=gens.frame(idx, precip=np.zeros(len(idx))))
        got = s.sun_times
        idx = gens.calendar(c['d'], full=True)
    else:
        got = call(mutil.get_sun_times, idx, p['lon'], p['lat'], p['tz'])
    require(got is not None and sorted(got.columns) == sorted(COLS), 'columns %s', None if got is None else list(got.columns))
    same_index(got, idx, 'sun times')
    raw = np.array([sun.sun_day(d, p['lon'], p['lat'], p['tz']) for d in idx])
    near = (np.abs(raw[:, 0]) < 1e-6) | (np.abs(raw[:, 2] - 24) < 1e-6)  # wrap-around too close to call
    ref = sun.sun_table(idx, p['lon'], p['lat'], p['tz'])
    far = abs(p['lon'] - 15 * p['tz']) > 150  # sunrise and sunset of another day
    for k in ['sunnoon', 'daylength'] if far else COLS:
        close(values(got[k])[~near], ref[k].values[~near], '%s at %s' % (k, p), atol=1e-5, rtol=0, labels=idx[~near])
    g = {k: values(got[k]) for k in COLS}
    require(all(np.isfinite(v).all() for v in g.values()), 'sun times are not finite')
    dl = g['daylength']
    require(((dl >= 0) & (dl <= 24 + 1e-9)).all(), 'day length outside 0..24')
    if not far:
        require((g['sunrise'] >= 0).all() and (g['sunset'] <= 24).all(), 'sunrise negative or sunset above 24')
    plain = (raw[:, 0] >= 0) & (raw[:, 2] <= 24) & ~near & (not far)
    close((g['sunrise'] + g['sunset'])[plain] / 2, g['sunnoon'][plain], 'solar noon between sunrise and sunset', atol=1e-9, rtol=0)
    close((g['sunset'] - g['sunrise'])[plain], dl[plain], 'day length', atol=1e-9, rtol=0)
    # shifting the place or the clock
    a = call(mutil.get_sun_times, idx, p['lon'] + c['dlon'], p['lat'], p['tz'])
    close(values(a.sunnoon), g['sunnoon'] - c['dlon'] / 15.0, 'solar noon %d degrees further east' % c['dlon'], atol=1e-7, rtol=0)
    close(values(a.daylength), dl, 'day length %d degrees further east' % c['dlon'], atol=1e-7, rtol=0)
    b = call(mutil.get_sun_times, idx, p['lon'], p['lat'], p['tz'] + c['dtz'])
    close(values(b.sunnoon), g['sunnoon'] + c['dtz'], 'solar noon with the clock advanced by %s h' % c['dtz'], atol=1e-7, rtol=0)
    # one day alone
    i = c['pick'] % len(idx)
    one = call(mutil.get_sun_times, idx[i:i + 1], p['lon'], p['lat'], p['tz'])
    close(np.array([float(one[k].iloc[0]) for k in COLS]), np.array([g[k][i] for k in COLS]), 'the same day alone', atol=1e-9)
    ev.label(*(['midnight_sun'] if (dl >= 24 - 1e-9).any() else []), *(['polar_night'] if (dl == 0).any() else []),
             *(['rise_wrapped'] if (raw[:, 0] < 0).any() else []), *(['set_wrapped'] if (raw[:, 2] > 24).any() else []))
    ev.nontrivial(len(idx) >= 2 and ((dl > 0) & (dl < 24 - 1e-9)).any())


@st.composite
def season_case(draw):
    return dict(lat=draw(st.floats(1, 90).map(lambda v: round(v, 2))), lon=draw(st.integers(-170, 170)),
                year=draw(st.integers(1950, 2090)))


@sub('seasons', season_case(), quick=900, rule='every case (one year at one latitude and its mirror image)')
def seasons(c, ev):
    """Independent of the formulas: solstices, equinoxes, hemispheres."""
    days = pd.date_range('%d-01-01' % c['year'], '%d-12-31' % c['year'], freq='D')
    tz = round(c['lon'] / 15)
    n = values(call(mutil.get_sun_times, days, c['lon'], c['lat'], tz).daylength)
    s = values(call(mutil.get_sun_times, days, c['lon'], -c['lat'], tz).daylength)
    close(n + s, np.full(len(days), 24.0), 'day lengths of opposite latitudes add up to 24 h', atol=1e-7, rtol=0)
    summer = (days >= '%d-03-24' % c['year']) & (days <= '%d-09-19' % c['year'])
    winter = (days <= '%d-03-17' % c['year']) | (days >= '%d-09-27' % c['year'])
    require((n[summer] > 12).all(), 'day length in northern summer not above 12 h')
    require((n[winter] < 12).all(), 'day length in northern winter not below 12 h')
    i, j = int(np.argmax(n)), int(np.argmin(n))
    if c['lat'] < 66:
        require(168 <= i <= 176, 'longest day is %s', days[i].date())
        require(j >= 351 or j <= 1, 'shortest day is %s', days[j].date())
    noon = values(call(mutil.get_sun_times, days, tz * 15.0, c['lat'], tz).sunnoon)
    require(np.abs(noon - 12).max() < 0.3, 'equation of time above 18 minutes')
    require(38 <= int(np.argmax(noon)) + 1 <= 48 and 300 <= int(np.argmin(noon)) + 1 <= 312,
            'latest/earliest solar noon on day %d/%d of the year', int(np.argmax(noon)) + 1, int(np.argmin(noon)) + 1)
    ev.label('polar' if c['lat'] > 66.6 else 'temperate')
    ev.nontrivial()
