"""Complete daily records, synthetic statistics and the list of documented disaggregation requests."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import casc
import gens
from harness import call, hours_of, melodist

COLUMNS = ['tmin', 'tmax', 'temp', 'precip', 'glob', 'ssd', 'hum', 'hum_min', 'hum_max', 'wind']

# (variable, keyword arguments of Station.disaggregate_<variable>)
TEMP_OPS = [('temperature', dict(method=m, min_max_time=t, mod_nighttime=n))
            for m in ('sine_min_max', 'sine', 'sine_mean') for t in ('fix', 'sun_loc', 'sun_loc_shift')
            for n in (False, True)]
TEMP_OPS += [('temperature', dict(method='mean_course_min_max')), ('temperature', dict(method='mean_course_mean')),
             ('temperature', {})]
HUM_OPS = [('humidity', dict(method=m, preserve_daily_mean=p))
           for m in ('equal', 'minimal', 'dewpoint_regression', 'linear_dewpoint_variation', 'min_max', 'month_hour_precip_mean')
           for p in (False, True)] + [('humidity', {})]
WIND_OPS = [('wind', dict(method='equal')), ('wind', dict(method='cosine')), ('wind', {})]
RAIN_OPS = [('precipitation', dict(method='equal')), ('precipitation', {}), ('precipitation', dict(method='cascade')),
            ('precipitation', dict(method='masterstation')), ('precipitation', dict(method='masterstation', zerodiv='zero'))]
RAD_OPS = [('radiation', dict(method=m)) for m in ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course')] + [('radiation', {})]
OPS = TEMP_OPS + HUM_OPS + WIND_OPS + RAIN_OPS + RAD_OPS
RESULT = dict(temperature='temp', humidity='hum', wind='wind', precipitation='precip', radiation='glob')


def op_name(op):
    return op[0] + ''.join(':%s' % v for v in op[1].values() if isinstance(v, str))


@st.composite
def record(draw, n, nan=0.3):
    """Recipe of a complete daily record of n days."""
    return dict(seed=draw(gens.SEEDS), nan=draw(st.sampled_from([0.0, 0.05, 0.3])) if draw(st.integers(0, 99)) < nan * 100 else 0.0,
                cold=draw(st.booleans()))


def record_frame(rec, idx, nan=True):
    n = len(idx)
    r = np.random.RandomState(rec['seed'])
    base = 265.0 if rec['cold'] else 283.0
    tmin = np.round(base + r.uniform(-8, 8, n), 2)
    dtr = np.round(r.uniform(2, 16, n), 2)
    hum = np.round(r.uniform(20, 95, n), 1)
    cols = dict(
        tmin=tmin, tmax=tmin + dtr, temp=tmin + dtr * np.round(r.uniform(0.3, 0.7, n), 2),
        precip=np.round(r.exponential(4, n), 1) * (r.uniform(size=n) < 0.5),
        glob=np.round(r.uniform(5, 300, n), 1) * (r.uniform(size=n) < 0.95),
        ssd=np.round(r.uniform(0, 8, n), 1), hum=hum,
        hum_min=np.round(hum * r.uniform(0.3, 0.9, n), 1), hum_max=np.round(hum + (100 - hum) * r.uniform(0.1, 1, n), 1),
        wind=np.round(r.uniform(0, 12, n), 1))
    if nan and rec['nan']:
        for k in cols:
            cols[k] = np.where(r.uniform(size=n) < rec['nan'], np.nan, cols[k])
    return gens.plain_frame(idx, **cols)


def synth_stats(seed, hot=None):
    """Synthetic, complete statistics (deterministic cascade)."""
    r = np.random.RandomState(seed)
    months, hours = np.arange(1, 13), np.arange(24)
    mc = r.uniform(0, 1, (24, 12))
    mc = (mc - mc.min(axis=0)) / (mc.max(axis=0) - mc.min(axis=0))
    sun = np.maximum(0, np.sin(np.pi * (hours[:, None] - 6 + r.uniform(-1, 1, (1, 12))) / 12)) * 600 * r.uniform(0.2, 1, (1, 12))
    mhp = pd.Series(np.round(r.uniform(20, 98, 12 * 24 * 2), 2),
                    index=pd.MultiIndex.from_product([months, hours, [False, True]]))
    hot = hot or dict(hot=r.randint(0, 9, (2, 4)).tolist())
    thr = np.round(r.uniform(0.1, 4, 5), 3)
    return dict(
        temp=dict(max_delta=pd.Series(np.round(r.uniform(0.2, 5.0, 12), 3), index=months),
                  mean_course=pd.DataFrame(mc, index=hours, columns=months)),
        wind=dict(a=float(r.uniform(0.05, 0.5)), b=float(r.uniform(0.8, 1.1)), t_shift=float(r.uniform(0, 24))),
        hum=dict(a0=float(r.uniform(-5, 5)), a1=float(r.uniform(0.97, 1.01)), kr=int(r.choice([6, 12])), month_hour_precip_mean=mhp),
        precip=dict(months=[np.arange(12) + 1], stats=[casc.build(hot, thr)]),
        glob=dict(angstroem=pd.DataFrame(dict(a=np.round(r.uniform(0.15, 0.3, 12), 3), b=np.round(r.uniform(0.4, 0.7, 12), 3)), index=months),
                  bristcamp=pd.DataFrame(dict(a=np.round(r.uniform(0.6, 0.8, 12), 3), c=np.round(r.uniform(1.5, 2.6, 12), 3)), index=months),
                  mean_course=pd.DataFrame(sun, index=hours, columns=months)))


def set_stats(station, st_):
    for var, d in st_.items():
        getattr(station.statistics, var).update(d)


def master_record(seed, idx):
    r = np.random.RandomState(seed)
    n = 24 * len(idx)
    return pd.Series(np.round(r.exponential(1, n), 1) * (r.uniform(size=n) < 0.2), hours_of(idx))


def own_pot_rad(seed, idx):
    """Some other potential radiation (positive around noon on every day)."""
    r = np.random.RandomState(seed)
    h = hours_of(idx)
    x = np.maximum(0, np.sin(np.pi * (h.hour.values - 5.5) / 13)) * np.round(r.uniform(100, 900, len(idx)), 1).repeat(24)
    return pd.Series(x, h)


def station(df, place, seed):
    s = call(melodist.Station, lon=place['lon'], lat=place['lat'], timezone=place['tz'], data_daily=df)
    set_stats(s, synth_stats(seed))
    return s


def run_op(s, op, master=None, **extra):
    var, kw = op
    kw = dict(kw, **extra)
    if kw.get('method') == 'masterstation':
        kw['master_precip'] = master
    call(getattr(s, 'disaggregate_' + var), **kw)
    return s.data_disagg[RESULT[var]]
