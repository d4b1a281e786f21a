"""C10: radiation disaggregation reproduces the daily mean in the right shape."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gens
import sun
from harness import call, close, hours_of, melodist, require, same_index, sub, values

METHODS = ['pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course']


@st.composite
def case(draw):
    gaps = draw(st.booleans())
    d = draw(gens.days_spec(mid=60, big=420, gaps=gaps))
    n = gens.n_days(d)
    return dict(d=d, method=draw(st.sampled_from(METHODS)), via=draw(st.sampled_from(['station', 'station', 'direct'])),
                place=draw(st.one_of(gens.places(-60, 60, slack=12), gens.places(-60, 60, slack=12), gens.places(-90, 90))),
                glob=draw(gens.spec(n, 0, 350, nan=0.4, dec=1, special=[0.0, 0.02, 0.5, 100.0])),
                ssd=draw(gens.spec(n, 0, 1, nan=0.4, dec=3, special=[0.0, 1.0, 1.05])),
                t=draw(gens.temp_specs(n, nan=0.25, dtr_zero=False)), pars=draw(st.sampled_from(['default', 'months', 'scalar'])),
                seed=draw(gens.SEEDS), own_pot=draw(st.integers(0, 3)) == 3, labels=draw(st.sampled_from(['all', 'all', 'needed', 'shuffled'])))


@sub('methods', case(), quick=3000, rule='a day with positive daily mean, and either another such day or a zero or missing day')
def methods(c, ev):
    idx = gens.calendar(c['d'])
    p, m = c['place'], c['method']
    r = np.random.RandomState(c['seed'])
    n = len(idx)
    t = gens.temp_columns(c['t'], n)
    full = gens.calendar(c['d'], full=True)
    table = sun.sun_table(idx, p['lon'], p['lat'], p['tz'])
    df = gens.frame(idx, tmin=t['tmin'], tmax=t['tmax'], glob=gens.mat(c['glob'], n), ssd=gens.mat(c['ssd'], n) * table.daylength.values)
    days = full if c['via'] == 'station' else idx
    hours = hours_of(days)
    months = np.arange(1, 13)
    ang = pd.DataFrame(dict(a=np.round(r.uniform(0.1, 0.3, 12), 3), b=np.round(r.uniform(0.3, 0.7, 12), 3)), index=months)
    bc = pd.DataFrame(dict(a=np.round(r.uniform(0.5, 0.9, 12), 3), c=np.round(r.uniform(1.2, 2.8, 12), 3)), index=months)
    course = np.maximum(0, np.sin(np.pi * (np.arange(24)[:, None] - 6) / 12 + r.uniform(-0.3, 0.3, (1, 12)))) * r.uniform(50, 700, (1, 12))
    course = course + (r.uniform(0, 30, (24, 12)) if c['seed'] % 2 else 0)
    course = pd.DataFrame(course, index=np.arange(24), columns=months)
    if c['labels'] == 'needed':  # parameters are looked up by month
        need = sorted(set(days.month))
        ang, bc, course = ang.loc[need], bc.loc[need], course[need]
    elif c['labels'] == 'shuffled':
        o = r.permutation(months)
        ang, bc, course = ang.loc[o], bc.loc[o], course[list(o)].loc[r.permutation(24)]
    if c['own_pot']:
        pot = r.uniform(0, 800, len(hours)) * (r.uniform(size=len(hours)) < 0.6)
        pot = pot.reshape(-1, 24)
        pot[:, 12] = 500.0
        pot = pot.ravel()
    else:
        pot = sun.pot_rad_hourly(hours, p['lon'], p['lat'], p['tz'])
    pot_given = pd.Series(pot, hours)
    if c['via'] == 'station':
        s = call(melodist.Station, lon=p['lon'], lat=p['lat'], timezone=p['tz'], data_daily=df)
        g = s.statistics.glob
        g.mean_course = course
        A, B, Ab, Cb = 0.25, 0.75, 0.75, 2.4
        if c['pars'] != 'default':
            g.angstroem, g.bristcamp = ang, bc
            A, B, Ab, Cb = ang.a, ang.b, bc.a, bc.c
        call(s.disaggregate_radiation, method=m, **(dict(pot_rad=pot_given) if c['own_pot'] else {}))
        res = s.data_disagg.glob
        df = df.reindex(full)
        table = sun.sun_table(full, p['lon'], p['lat'], p['tz'])
    else:
        A, B, Ab, Cb = 0.25, 0.5, 0.75, 2.4
        kw = {}
        if c['pars'] == 'months':
            A, B, Ab, Cb = ang.a, ang.b, bc.a, bc.c
        elif c['pars'] == 'scalar':
            A, B, Ab, Cb = [float(x) for x in (ang.a.iloc[0], ang.b.iloc[0], bc.a.iloc[0], bc.c.iloc[0])]
        if c['pars'] != 'default':
            kw = dict(angstr_a=A, angstr_b=B, bristcamp_a=Ab, bristcamp_c=Cb)
        res = call(melodist.disaggregate_radiation, df, sun_times=table, pot_rad=pot_given, method=m, mean_course=course, **kw)
    same_index(res, hours, 'radiation')
    shape = pot.reshape(-1, 24) if m != 'mean_course' else course.loc[list(range(24)), list(days.month)].values.T
    mean = shape.mean(axis=1)
    skip = np.zeros(len(days), bool)
    if m in ('pot_rad', 'mean_course'):
        target = df.glob.values
    elif m == 'pot_rad_via_ssd':
        a = np.array([A[q] for q in days.month]) if np.ndim(A) else A
        b = np.array([B[q] for q in days.month]) if np.ndim(B) else B
        dl = table.daylength.values
        with np.errstate(all='ignore'):
            target = np.where(dl > 0, (a + b * df.ssd.values / dl) * mean, 0.0)
        skip |= (dl > 0) & (dl < 1e-3)
        skip |= (dl == 0) & np.isnan(df.ssd.values)  # polar night without observation: nothing promised
    else:
        target, dT = sun.bristow_campbell(days, df.tmin.values, df.tmax.values, mean, Ab, Cb)
        skip |= dT < 1e-6  # the model is defined for positive temperature ranges
    top = shape.max(axis=1)
    skip |= (top > 0) & (top < 1e-3)
    skip |= (top == 0) & (np.nan_to_num(target) != 0)  # radiation without potential radiation: contradictory input
    with np.errstate(all='ignore'):
        exp = np.where((target == 0)[:, None], 0.0, shape / mean[:, None] * target[:, None])
    exp = np.where(np.isnan(target)[:, None], np.nan, exp)
    v = values(res).reshape(-1, 24)
    require(not (v < 0).any(), 'negative radiation')
    for i in np.flatnonzero(~skip):
        day, x, e = days[i].date(), v[i], exp[i]
        if np.isnan(target[i]):
            require(np.isnan(x).all(), '%s %s: values although the input is missing', m, day)
            continue
        require(not np.isnan(x).any(), '%s %s: missing values (daily mean %r)', m, day, float(target[i]))
        if target[i] == 0:
            require((x == 0).all(), '%s %s: radiation on a day with zero mean', m, day)
            continue
        near = np.abs(e - 0.01) < 1e-5 * (1 + target[i])
        e = np.where(e < 0.01, 0.0, e)
        bad = (np.abs(x - e) > 1e-3 + 1e-6 * np.abs(e)) & ~near
        require(not bad.any(), '%s %s: %s instead of %s at hours %s', m, day, x[bad][:3], e[bad][:3], np.flatnonzero(bad)[:3])
        require(abs(x.mean() - target[i]) <= 0.0101 + 1e-6 * target[i], '%s %s: daily mean %r instead of %r', m, day, float(x.mean()), float(target[i]))
    good = (~skip) & (np.nan_to_num(target) > 0)
    ev.label(m, c['via'], c['pars'], *(['missing'] if np.isnan(target).any() else []), *(['polar_night'] if (top == 0).any() else []))
    ev.nontrivial(good.sum() >= 1 and (good.sum() >= 2 or np.isnan(target).any() or (target == 0).any()))
