"""C11: radiation models and their calibration are consistent."""
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gens
import sun
from harness import call, close, frame_state, hours_of, melodist, require, same_index, sub, values

bristow = sun.bristow_campbell

PAR = st.sampled_from(['scalar', 'months'])


@st.composite
def model_case(draw):
    d = draw(gens.days_spec(lo=2, mid=90, big=800, gaps=True))
    n = gens.n_days(d)
    return dict(d=d, t=draw(gens.temp_specs(n, nan=0.3, dtr_zero=False)), ssd=draw(gens.spec(n, 0, 1, nan=0.3, dec=3, special=[0.0, 1.0])),
                dl=draw(gens.spec(n, 0.5, 24, nan=0, dec=2)), pot=draw(gens.spec(n, 0, 480, nan=0.2, dec=2, special=[0.0])),
                par=draw(PAR), seed=draw(gens.SEEDS), some=draw(st.booleans()))


@sub('models', model_case(), quick=900, rule='two or more days with an estimate')
def models(c, ev):
    idx = gens.calendar(c['d'])
    n = len(idx)
    r = np.random.RandomState(c['seed'])
    t = gens.temp_columns(c['t'], n)
    dl, pot = gens.mat(c['dl'], n), gens.mat(c['pot'], n)
    ssd = gens.mat(c['ssd'], n) * dl
    months = np.arange(1, 13)
    used = sorted(set(idx.month)) if c['some'] else list(months)
    par = {k: pd.Series(np.round(r.uniform(lo, hi, 12), 3), index=months)[used]
           for k, lo, hi in [('a', 0.1, 0.3), ('b', 0.3, 0.8), ('A', 0.5, 0.9), ('C', 1.2, 2.8)]}
    if c['par'] == 'scalar':
        par = {k: float(v.iloc[0]) for k, v in par.items()}
    S = lambda v: pd.Series(v, idx)
    at = lambda k: np.array([par[k][q] for q in idx.month]) if c['par'] == 'months' else par[k]
    got = call(melodist.angstroem, S(ssd), S(dl), S(pot), par['a'], par['b'])
    same_index(got, idx, 'Angstroem estimate')
    close(values(got), (at('a') + at('b') * ssd / dl) * pot, 'Angstroem estimate', labels=idx)
    exp, dT = bristow(idx, t['tmin'], t['tmax'], pot, par['A'], par['C'])
    got = call(melodist.bristow_campbell, S(t['tmin']), S(t['tmax']), S(pot), par['A'], par['C'])
    same_index(got, idx, 'Bristow-Campbell estimate')
    ok = ~(dT < 1e-6)
    close(values(got)[ok], exp[ok], 'Bristow-Campbell estimate', labels=idx[ok], rtol=1e-8)
    ev.label(c['par'], *(['gaps'] if c['d']['absent'] else []), 'months%d' % min(3, len(set(idx.month))))
    ev.nontrivial((~np.isnan(exp[ok])).sum() >= 2)


@st.composite
def fit_case(draw):
    return dict(n=draw(st.integers(8, 400)), seed=draw(gens.SEEDS), a=draw(st.floats(0.05, 0.45)), b=draw(st.floats(0.1, 0.8)),
                noise=draw(st.sampled_from([0.0, 5.0, 40.0])), nan=draw(st.sampled_from([0.0, 0.1, 0.4])), extra=draw(st.booleans()))


@sub('fit_angstroem', fit_case(), quick=500, rule='six or more complete days; observations with noise or missing values')
def fit_angstroem(c, ev):
    r = np.random.RandomState(c['seed'])
    n = c['n']
    idx = pd.date_range('2001-01-01', periods=n, freq='D')
    dl = 12 + 4 * np.sin(np.arange(n) / 58.0)
    ssd = np.clip(r.uniform(-0.2, 1.1, n), 0, 1) * dl  # overcast and cloudless days, too
    pot = 250 + 180 * np.sin(np.arange(n) / 58.0 - 1) * r.uniform(0.9, 1, n)
    obs = (c['a'] + c['b'] * ssd / dl) * pot + r.normal(0, 1, n) * c['noise']
    S = {k: pd.Series(np.where(r.uniform(size=n) < c['nan'], np.nan, v), idx) for k, v in
         [('ssd', ssd), ('dl', dl), ('pot', pot), ('obs', obs)]}
    ok = ~np.isnan(np.array([s.values for s in S.values()])).any(axis=0)
    if ok.sum() < 6 or np.std(ssd[ok] / dl[ok]) < 0.05:
        return
    X = np.array([pot[ok], pot[ok] * ssd[ok] / dl[ok]]).T
    exp = np.linalg.lstsq(X, obs[ok], rcond=None)[0]
    if c['extra']:  # records of different length are matched by day
        S['obs'] = pd.concat([S['obs'], pd.Series([1e4, 2e4], pd.date_range('2010-01-01', periods=2, freq='D'))])
    got = call(melodist.fit_angstroem_params, S['ssd'], S['dl'], S['pot'], S['obs'])
    close(np.asarray(got, dtype=float), exp, 'fitted Angstroem parameters', rtol=1e-4, atol=1e-5)
    ev.label('noise%g' % c['noise'], 'nan%g' % c['nan'])
    ev.nontrivial(c['noise'] > 0 or c['nan'] > 0)


@st.composite
def fit_bc_case(draw):
    return dict(n=draw(st.integers(10, 200)), seed=draw(gens.SEEDS), scale=draw(st.sampled_from([0.5, 0.8, 1.0, 1.2])),
                noise=draw(st.sampled_from([0.0, 20.0])), nan=draw(st.sampled_from([0.0, 0.0, 0.1])))


@sub('fit_bristow_campbell', fit_bc_case(), quick=160, rule='the defaults have a bias of at least 1 W/m2')
def fit_bristow_campbell(c, ev):
    r = np.random.RandomState(c['seed'])
    n = c['n']
    idx = pd.date_range('2001-03-01', periods=n, freq='D')
    tmin = 280 + r.uniform(-3, 3, n)
    tmax = tmin + 8 + r.uniform(0, 10, n)
    pot = 250 + 100 * np.sin(np.arange(n) / 58.0)
    obs = bristow(idx, tmin, tmax, pot, 0.75, 2.4)[0] * c['scale'] + r.normal(0, 1, n) * c['noise']
    miss = r.uniform(size=n) < c['nan']
    miss[0] = False
    S = lambda v: pd.Series(v, idx)
    o = np.where(miss, np.nan, obs)
    got = np.asarray(call(melodist.fit_bristow_campbell_params, S(tmin), S(tmax), S(pot), S(o)), dtype=float)
    require(got.shape == (2,) and np.isfinite(got).all(), 'fitted Bristow-Campbell parameters %s', got)
    k = ~miss
    # the next day's minimum is known only if that day is complete
    b0, _ = bristow(idx[k], tmin[k], tmax[k], pot[k], 0.75, 2.4)
    b1, _ = bristow(idx[k], tmin[k], tmax[k], pot[k], got[0], got[1])
    ref, fit = abs(np.nanmean(b0 - obs[k])), abs(np.nanmean(b1 - obs[k]))
    require(fit <= ref + 1e-6, 'absolute bias %r of the fitted parameters %s, %r of the defaults', float(fit), got, float(ref))
    ev.label('bias_removed' if fit < 0.01 * ref else 'bias_reduced' if fit < ref else 'same')
    ev.nontrivial(ref >= 1)


@st.composite
def stats_case(draw, hows):
    return dict(how=draw(st.sampled_from(hows)), seed=draw(gens.SEEDS), start=draw(st.sampled_from(['2001-01-01', '2003-07-01', '2004-02-29'])),
                years=draw(st.sampled_from([1, 1, 2])) if hows != ['monthly'] else 1, nan=draw(st.sampled_from([0.0, 0.02])), place=draw(gens.places(-50, 50, slack=10)),
                cols=draw(st.sampled_from(['both', 'both', 'ssd', 'temp', 'none'])), dl=draw(st.sampled_from([1, 1, 1, 0])), dl_all=draw(st.booleans()),
                dark=draw(st.sampled_from([0, 0.05])), part=draw(st.sampled_from([0, 0, 70, 150])) if hows != ['monthly'] else 0, again=draw(st.booleans()), **{k: draw(st.sampled_from([0, 0, 0, 5, 12])) for k in ('daily_from', 'daily_to', 'obs_from', 'obs_to')})


MONTHS = dict(all=[list(range(1, 13))], seasonal=[[3, 4, 5], [6, 7, 8], [9, 10, 11], [12, 1, 2]], monthly=[[m] for m in range(1, 13)])


def stats_check(c, ev):
    r = np.random.RandomState(c['seed'])
    start, n = c['start'], 366 * c['years']
    if c['part']:  # not all months have records
        start, n = (c['start'], c['part']) if c['how'] == 'all' else ('%s-03-08' % c['start'][:4], 285)
    idx = pd.date_range(start, periods=n, freq='D')
    p = c['place']
    table = sun.sun_table(idx, p['lon'], p['lat'], p['tz'])
    dl = table.daylength.values
    ssd = np.clip(r.uniform(-0.2, 1.1, n), 0, 1) * dl
    hours = hours_of(idx)
    pot_h = sun.pot_rad_hourly(hours, p['lon'], p['lat'], p['tz'])
    pot = pot_h.reshape(-1, 24).mean(axis=1)
    a_m, b_m = r.uniform(0.1, 0.35, 13), r.uniform(0.3, 0.7, 13)
    mo = idx.month.values
    glob = np.maximum(0.0, ((a_m[mo] + b_m[mo] * ssd / dl) * pot + r.normal(0, 4, n)))
    glob[r.uniform(size=n) < c['dark']] *= 0.01  # hardly any light under thick clouds
    hourly = pot_h * np.repeat(glob / pot, 24)
    hourly[r.uniform(size=len(hourly)) < c['nan']] = np.nan
    tmin = 280 + r.uniform(-3, 3, n)
    tmax = tmin + 8 + r.uniform(0, 10, n)
    df = gens.plain_frame(idx, ssd=ssd, tmin=tmin, tmax=tmax)
    miss = r.uniform(size=(n, 3)) < c['nan']
    df = df.mask(miss)
    # the daily and the hourly record need not cover the same days
    common = np.ones(n, bool)
    if c['daily_from'] or c['daily_to']:
        df = df.iloc[c['daily_from']:n - c['daily_to']]
        common &= np.isin(idx, df.index)
    if c['cols'] == 'ssd':
        df = df[['ssd']]
    elif c['cols'] == 'temp':
        df = df[['tmin', 'tmax']]
    obs = pd.DataFrame(dict(glob=hourly), index=pd.date_range(hours[0], periods=len(hours), freq='h'))
    if c['obs_from'] or c['obs_to']:
        obs = obs.iloc[24 * c['obs_from']:24 * (n - c['obs_to'])]
        common &= np.isin(idx, obs.index.normalize())
        hourly[:24 * c['obs_from']] = np.nan
        hourly[24 * (n - c['obs_to']):] = np.nan
    ss = call(melodist.StationStatistics, data=obs, lon=p['lon'], lat=p['lat'], timezone=p['tz'])
    kw = {} if c['cols'] == 'none' else dict(data_daily=df)
    if c['dl']:
        kw['day_length'] = table.daylength if c['dl_all'] else table.daylength.loc[df.index]
    if c['how'] != 'all' or r.randint(2):
        kw['how'] = c['how']
    before = frame_state(df), frame_state(obs)
    if c['again']:  # calibrated on other observations before
        call(setattr, ss, 'data', 0.6 * obs)
        call(ss.calc_radiation_stats, **dict(kw, how='all'))
        call(setattr, ss, 'data', obs)
    call(ss.calc_radiation_stats, **kw)
    require((frame_state(df), frame_state(obs)) == before and frame_state(ss.data) == before[1], 'calibration changed its input')
    # mean course
    mc = ss.glob.mean_course
    for m in np.unique(obs.index.month):
        x = hourly[hours.month == m].reshape(-1, 24)
        x = x[~np.isnan(x).all(axis=1)]
        close(values(mc[m].loc[list(range(24))]), np.nanmean(x, axis=0), 'mean course of month %d' % m)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        obs_d = np.nanmean(hourly.reshape(-1, 24), axis=1)
    full = df.reindex(idx)
    months = ss.glob.angstroem
    if c['cols'] in ('both', 'ssd') and c['dl']:
        for period in MONTHS[c['how']]:
            sel = np.isin(mo, period) & ~full.ssd.isnull().values & ~np.isnan(obs_d) & common
            X = np.array([pot[sel], pot[sel] * ssd[sel] / dl[sel]]).T
            exp = np.linalg.lstsq(X, obs_d[sel], rcond=None)[0]
            for m in period:
                close(np.array([months.a[m], months.b[m]], dtype=float), exp, 'Angstroem parameters of month %d' % m, rtol=1e-3, atol=1e-4)
        ev.label('angstroem')
    else:
        close(values(months[['a', 'b']]), np.array([[0.25, 0.75]] * 12), 'Angstroem parameters not calibrated')
    bc = ss.glob.bristcamp
    if c['cols'] in ('both', 'temp'):
        ok = ~full.tmin.isnull().values & ~full.tmax.isnull().values & ~np.isnan(obs_d) & common
        for period in MONTHS[c['how']]:
            k = np.isin(mo, period) & ok
            got = [(float(bc.a[m]), float(bc.c[m])) for m in period]
            require(len(set(got)) == 1, 'Bristow-Campbell parameters differ within months %s', period)
            b0, _ = bristow(idx[k], tmin[k], tmax[k], pot[k], 0.75, 2.4)
            b1, _ = bristow(idx[k], tmin[k], tmax[k], pot[k], *got[0])
            ref, fit = abs(np.nanmean(b0 - obs_d[k])), abs(np.nanmean(b1 - obs_d[k]))
            require(fit <= ref + 1e-6, 'months %s: absolute bias %r with the fitted parameters, %r with the defaults', period, float(fit), float(ref))
            S = lambda v: pd.Series(v[k], idx[k])
            direct = np.asarray(call(melodist.fit_bristow_campbell_params, S(tmin), S(tmax), S(pot), S(obs_d)))
            if np.abs(np.array(got[0]) - direct).max() > 1e-4:
                # the minimum is a valley: judged only where the search does not hinge on rounding
                near = [np.asarray(call(melodist.fit_bristow_campbell_params, S(tmin), S(tmax), S(pot * (1 + e * r.normal(0, 1, n))), S(obs_d)))
                        for e in (1e-15, 1e-14, 1e-13, 1e-12, 1e-11, 1e-10)]
                require(max(np.abs(x - direct).max() for x in near) > 1e-4, 'Bristow-Campbell parameters of months %s: %s, expected %s', period, got[0], direct)
                ev.label('search_hinges_on_rounding')
        ev.label('bristow_campbell')
    else:
        close(values(bc[['a', 'c']]), np.array([[0.75, 2.4]] * 12), 'Bristow-Campbell parameters not calibrated')
    ev.label(c['how'], 'cols_' + c['cols'], *(['other_period'] if not common.all() else []), *(['part'] if c['part'] else []), *(['again'] if c['again'] else []), *(['years'] if c['years'] > 1 else []))
    ev.nontrivial(c['cols'] != 'none')


RULE = 'parameters of at least one model were calibrated'
sub('calibration', stats_case(['all', 'seasonal']), quick=24, rule=RULE)(stats_check)
sub('calibration_monthly', stats_case(['monthly']), quick=16, rule=RULE)(stats_check)
