"""C23: interpolation passes through the given observations."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gens
from harness import call, close, hours_of, melodist, mutil, require, same_index, sub, values


@st.composite
def case(draw):
    d = draw(gens.days_spec(mid=40, big=draw(gens.seldom(800, 6)), gaps=True))
    n = gens.n_days(d)
    hours = draw(st.lists(st.integers(0, 23), min_size=1, max_size=5, unique=True))
    lo, hi = draw(st.sampled_from([(250, 300), (-20, 20), (0, 5)]))
    return dict(d=d, hours=hours, v=[draw(gens.spec(n, lo, hi, nan=0.6, dec=2, special=[0.0])) for _ in hours],
                limit=draw(st.sampled_from([None, None, 1, 3, 6, 11, 12, 24, 30, 48, 75, 200])),
                method=draw(st.sampled_from(['linear', 'linear', 'linear', None, None, 'nearest', 'cubic', 'quadratic', 'time', 'slinear', 'polynomial'])),
                direction=draw(st.sampled_from([None, None, None, 'both', 'forward', 'backward'])), area=draw(st.sampled_from([None, None, None, 'inside', 'outside'])),
                perm=draw(st.permutations(list(range(len(hours))))))


def reference(obs, limit):
    """obs: hourly array with nan; straight lines between observations, nearest value outside."""
    n = len(obs)
    pos = np.flatnonzero(~np.isnan(obs))
    out = np.full(n, np.nan)
    if not len(pos):
        return out
    at = np.arange(n)
    right = np.searchsorted(pos, at).clip(max=len(pos) - 1)
    dist = np.minimum(np.abs(pos[right] - at), np.abs(pos[(right - 1).clip(min=0)] - at))
    lin = np.interp(np.arange(n), pos, obs[pos])
    out[dist <= limit] = lin[dist <= limit]
    return out


@sub('interpolate', case(), quick=3000, rule='two or more observation hours per day or missing observations, and two or more observations')
def interpolate(c, ev):
    idx = gens.calendar(c['d'])
    full = gens.calendar(c['d'], full=True)
    cols = {'obs%d' % h: gens.mat(v, len(idx)) for h, v in zip(c['hours'], c['v'])}
    df = gens.frame(idx, **cols)
    s = call(melodist.Station, data_daily=df)
    ch = {'obs%d' % h: h for h in c['hours']}
    ch2 = {'obs%d' % c['hours'][i]: c['hours'][i] for i in c['perm']}
    kw = {} if c['limit'] is None else dict(limit=c['limit'])
    method = c['method']
    if method:
        kw['method'] = method
    if method == 'polynomial':
        kw['order'] = 2
    if c['direction']:
        kw['limit_direction'] = c['direction']
    if c['area']:
        kw['limit_area'] = c['area']
    index = hours_of(full)
    obs = pd.Series(np.nan, index)
    for h in c['hours']:
        obs[idx + pd.Timedelta(hours=h)] = cols['obs%d' % h]
    obs = obs.values
    have = ~np.isnan(obs)
    if method not in (None, 'linear', 'time') and have.sum() < 5:
        return
    got = call(s.interpolate, ch, **kw)
    same_index(got, index, 'interpolated series')
    close(values(got)[have], obs[have], 'observations', labels=index[have], atol=1e-9 if method in (None, 'linear', 'time') else 1e-6)
    if method in (None, 'linear') and c['direction'] in (None, 'both') and not c['area']:
        limit = c['limit'] or 24
        close(values(got), reference(obs, limit), 'interpolated series', labels=index, atol=1e-7)
        ev.label('unfilled' if np.isnan(values(got)).any() else 'filled')
    own = dict(dict(method='linear', limit=24, limit_direction='both'), **kw)
    close(values(got), values(pd.Series(obs, index).interpolate(**own)), 'interpolation by pandas', labels=index, atol=1e-6)
    got2 = call(s.interpolate, ch2, **kw)
    close(values(got2), values(got), 'columns listed in another order', labels=index)
    ev.label('method_%s' % method, *(['direction'] if c['direction'] else []), *(['area'] if c['area'] else []))
    ev.nontrivial(have.sum() >= 2 and (len(c['hours']) >= 2 or np.isnan(np.array(list(cols.values()))).any()))
