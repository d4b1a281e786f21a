"""C06: mean-course temperature methods preserve what they promise."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gens
from harness import call, close, hours_of, melodist, require, same_index, sub, values


@st.composite
def case(draw):
    d = draw(gens.days_spec(mid=90, big=420, gaps=True))
    n = gens.n_days(d)
    return dict(d=d, t=draw(gens.temp_specs(n, nan=0.3)), method=draw(st.sampled_from(['mean_course_min_max', 'mean_course_mean'])),
                course=draw(gens.SEEDS), shape=draw(st.sampled_from(['noise', 'wave', 'steps'])),
                via=draw(st.sampled_from(['station', 'direct'])), months=draw(st.booleans()), drop=draw(st.booleans()),
                place=draw(gens.places(-80, 80)))


def course(seed, shape):
    """Normalised course, hours x months."""
    r = np.random.RandomState(seed)
    h = np.arange(24)[:, None]
    if shape == 'noise':
        x = r.uniform(size=(24, 12))
    elif shape == 'wave':
        x = np.cos(2 * np.pi / 24 * (h - r.uniform(11, 17, (1, 12)))) + r.uniform(0, 0.2, (24, 12))
    else:
        x = np.round(r.uniform(size=(24, 12)) * 3)
        x[3], x[15] = 0, 3
    return (x - x.min(axis=0)) / (x.max(axis=0) - x.min(axis=0))


@sub('mean_course', case(), quick=3600, rule='two or more complete days with differing values')
def mean_course(c, ev):
    idx = gens.calendar(c['d'])
    t = gens.temp_columns(c['t'], len(idx))
    m = c['method']
    if m == 'mean_course_min_max' and c['drop']:
        t.pop('temp')
    df = gens.frame(idx, **t)
    mc = pd.DataFrame(course(c['course'], c['shape']), index=np.arange(24), columns=np.arange(1, 13))
    given = mc
    if c['months']:
        given = mc[sorted(set(pd.date_range(idx[0], idx[-1], freq='D').month))]
    if c['via'] == 'station':
        s = call(melodist.Station, lon=c['place']['lon'], lat=c['place']['lat'], timezone=c['place']['tz'], data_daily=df)
        s.statistics.temp.mean_course = given
        call(s.disaggregate_temperature, method=m)
        res = s.data_disagg.temp
        idx = gens.calendar(c['d'], full=True)
        df = df.reindex(idx)
    else:
        res = call(melodist.disaggregate_temperature, df, method=m, mean_course=given)
    same_index(res, hours_of(idx), m)
    tmin, tmax = df.tmin.values, df.tmax.values
    shape = mc[list(idx.month)].values.T
    if m == 'mean_course_min_max':
        exp = tmin[:, None] + shape * (tmax - tmin)[:, None]
    else:
        exp = df.temp.values[:, None] + (shape - shape.mean(axis=1)[:, None]) * (tmax - tmin)[:, None]
    close(values(res), exp.ravel(), m, labels=res.index, atol=1e-8)
    v = values(res).reshape(-1, 24)
    ok = ~np.isnan(exp).any(axis=1)
    for i in np.flatnonzero(ok):
        if m == 'mean_course_min_max':
            require(abs(v[i].min() - tmin[i]) < 1e-8 and abs(v[i].max() - tmax[i]) < 1e-8, '%s: extremes %r, %r instead of %r, %r',
                    idx[i].date(), float(v[i].min()), float(v[i].max()), float(tmin[i]), float(tmax[i]))
        else:
            require(abs(v[i].mean() - df.temp.values[i]) < 1e-8, '%s: mean %r instead of %r', idx[i].date(), float(v[i].mean()), float(df.temp.values[i]))
            require(abs(v[i].max() - v[i].min() - (tmax[i] - tmin[i])) < 1e-8, '%s: range %r instead of %r', idx[i].date(),
                    float(v[i].max() - v[i].min()), float(tmax[i] - tmin[i]))
    ev.label(m, c['via'], *(['missing'] if not ok.all() else []), 'months%d' % min(3, len(set(idx.month))))
    ev.nontrivial(ok.sum() >= 2 and len(set(tmin[ok])) > 1)
