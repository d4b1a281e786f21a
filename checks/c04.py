"""C04: master-station precipitation follows the mass curve of the master."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gens
from harness import call, close, hours_of, melodist, require, same_index, sub, values


@st.composite
def case(draw):
    d = draw(gens.days_spec(mid=30, big=draw(gens.seldom(800, 6)), gaps=True))
    n = gens.n_days(d)
    explicit = d['n'] <= 2 and draw(st.booleans())
    m = dict(v=draw(st.lists(st.one_of(st.just(0.0), st.floats(0, 30).map(lambda x: round(x, 2))),
                             min_size=24 * d['n'], max_size=24 * d['n']))) if explicit else dict(
        seed=draw(gens.SEEDS), wet=draw(st.sampled_from([0.02, 0.06, 0.3, 1.0])),
        dry=draw(st.sampled_from([0.0, 0.3, 0.7])))
    return dict(d=d, p=draw(gens.precip_spec(n)), m=m, zero=draw(st.sampled_from(['uniform', 'uniform', 'zero', 'none', ''])),
                via=draw(st.sampled_from(['direct', 'station', 'disagg_prec'])),
                factor=draw(st.sampled_from([0.5, 2.0, 8.0, 0.1, 3.7, 1000.0])),
                pad=draw(st.integers(0, 2)), spread=draw(st.booleans()),
                hole=draw(st.sampled_from([None, None, 'absent', 'missing'])), hole_seed=draw(gens.SEEDS))


def master(m, full, pad):
    n = 24 * len(full)
    if 'v' in m:
        v = np.array(m['v'])
    else:
        r = np.random.RandomState(m['seed'])
        v = np.round(r.exponential(2.0, n), 1) * (r.uniform(size=n) < m['wet'])
        v *= np.repeat(r.uniform(size=len(full)) >= m['dry'], 24)
    # the master's record may be longer than the daily record
    v = np.concatenate([np.full(24 * pad, 1.5), v, np.full(24 * pad, 2.5)])
    days = pd.date_range(full[0] - pd.Timedelta(days=pad), periods=len(full) + 2 * pad, freq='D')
    return pd.Series(v, hours_of(days))


def run(via, ser, m, zero):
    if via == 'station':
        s = call(melodist.Station, data_daily=ser.to_frame('precip'))
        call(s.disaggregate_precipitation, method='masterstation', master_precip=m, zerodiv=zero)
        return s.data_disagg.precip
    if via == 'direct':
        return call(melodist.precip_master_station, ser, m, zero)
    return call(melodist.disagg_prec, ser, method='masterstation', hourly_data_obs=m, zerodiv=zero)


@sub('shares', case(), quick=3600, rule='a wet day with a wet master day whose rain falls in two or more hours')
def shares(c, ev):
    idx = gens.calendar(c['d'])
    full = gens.calendar(c['d'], full=True)
    ser = pd.Series(gens.mat(c['p'], len(idx)), idx)
    m = master(c['m'], full, c['pad'])
    if c['hole']:  # hours without a record at the master
        r = np.random.RandomState(c['hole_seed'])
        gone = (r.uniform(size=len(m)) < r.choice([0.03, 0.3])) & (m.index.hour != r.randint(24))
        if c['pad']:  # whole days, too, but not at the ends of the master's record
            gone |= np.isin(m.index.normalize(), full[r.uniform(size=len(full)) < 0.15])
        if c['hole'] == 'absent':
            m = m[~gone]
        else:
            m[gone] = np.nan
    res = run(c['via'], ser, m, c['zero'])
    days = full if c['via'] == 'station' else idx
    same_index(res, hours_of(days), 'master station')
    daily = ser.reindex(days).values
    curve = m.reindex(hours_of(days)).values.reshape(-1, 24)
    total = np.nansum(curve, axis=1)
    exp = np.empty_like(curve)
    open_ = np.zeros(len(days), bool)
    for i in range(len(days)):
        if total[i] > 0:
            exp[i] = curve[i] / total[i] * daily[i]
        elif c['zero'] == 'uniform':
            exp[i] = daily[i] / 24
        else:
            exp[i] = 0
            open_[i] = np.isnan(daily[i])  # missing total, dry master, no rule: nothing is promised
    keep = np.repeat(~open_, 24) & ~(np.isnan(curve) & (total > 0)[:, None]).ravel()  # the share of an hour without a record is unknown
    close(values(res)[keep], exp.ravel()[keep], 'master station', labels=res.index[keep], atol=1e-12)
    hours = values(res).reshape(-1, 24)
    for i in np.flatnonzero((total > 0) & ~np.isnan(daily)):
        require(abs(np.nansum(hours[i]) - daily[i]) <= 1e-9 * (1 + daily[i]), '%s adds up to %r, not %r', days[i].date(), float(np.nansum(hours[i])), float(daily[i]))
    scaled = run(c['via'], ser, m * c['factor'], c['zero'])
    close(values(scaled)[keep], exp.ravel()[keep], 'master record times %s' % c['factor'], labels=res.index[keep], atol=1e-12)
    ev.label(c['via'], 'rule_' + c['zero'], *(['dry_master_day'] if (total == 0).any() else []),
             *(['missing'] if np.isnan(daily).any() else []), *(['master_' + c['hole']] if c['hole'] else []))
    ev.nontrivial(((daily > 0) & ((curve > 0).sum(axis=1) >= 2)).any())
