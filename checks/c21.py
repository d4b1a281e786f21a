"""C21: hourly results cover exactly the days of the daily record."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import casc
import gens
import stations
from harness import call, close, hours_of, melodist, mutil, require, same_index, sub, values


@st.composite
def index_case(draw):
    return dict(d=draw(gens.days_spec(mid=90, big=500, gaps=True)), fill=draw(st.one_of(st.none(), st.booleans())),
                level=draw(st.sampled_from([9, 10, 11])))


def steps(days, us):
    """Time stamps every `us` microseconds from midnight of each day."""
    per_day = 86400 * 10**6 // us
    d = pd.DatetimeIndex(days).as_unit('ns').asi8
    return pd.DatetimeIndex((d[:, None] + (np.arange(per_day) * us * 1000)[None, :]).ravel())


@sub('index', index_case(), quick=1200, rule='a record that skips days')
def index(c, ev):
    idx = gens.calendar(c['d'])
    full = gens.calendar(c['d'], full=True)
    kw = {} if c['fill'] is None else dict(fill_gaps=c['fill'])
    days = full if c['fill'] else idx
    same_index(call(mutil.hourly_index, idx, **kw), hours_of(days), 'hourly_index')
    same_index(call(melodist.precipitation.fmin_index, idx, **kw), steps(days, 300 * 10**6), 'fmin_index')
    if c['d']['n'] < 40:
        same_index(call(melodist.precipitation.sub_level_index, idx, level=c['level'], **kw),
                   steps(days, 42187500 * 2**(11 - c['level'])), 'sub_level_index')
    ev.label('gaps' if c['d']['absent'] else 'contiguous', 'fill' if c['fill'] else 'nofill')
    ev.nontrivial(bool(c['d']['absent']))


@st.composite
def assign_case(draw):
    d = draw(gens.days_spec(mid=90, big=500, gaps=True))
    return dict(d=d, rec=draw(stations.record(d['n'])), place=draw(gens.places(-59, 59)), loc=draw(st.booleans()),
                later=draw(st.booleans()), every=draw(st.sampled_from([1, 1, 1, 2, 3, 7])),
                cols=draw(st.lists(st.sampled_from(stations.COLUMNS), min_size=1, max_size=10, unique=True)))


@sub('assign', assign_case(), quick=800, rule='a record that skips days or has missing values')
def assign(c, ev):
    idx = gens.calendar(c['d'])
    df = stations.record_frame(c['rec'], idx)[c['cols']]
    if c['every'] > 1:
        df = df.iloc[::c['every']]  # keeps a frequency of several days if there was one
    full = pd.date_range(df.index[0], df.index[-1], freq='D')
    kw = dict(lon=c['place']['lon'], lat=c['place']['lat'], timezone=c['place']['tz']) if c['loc'] else {}
    if c['later']:
        s = call(melodist.Station, **kw)
        call(setattr, s, 'data_daily', df)
    else:
        s = call(melodist.Station, data_daily=df, **kw)
    same_index(s.data_daily, full, 'daily record of the station')
    require(list(s.data_daily.columns) == list(df.columns), 'columns of the daily record changed')
    close(values(s.data_daily), df.reindex(full).values, 'daily record of the station', rtol=0, atol=0, labels=full)
    same_index(s.data_disagg, hours_of(full), 'hourly record of the station')
    require(sorted(s.data_disagg.columns) == ['glob', 'hum', 'precip', 'temp', 'wind'], 'hourly columns %s', list(s.data_disagg.columns))
    require(np.isnan(values(s.data_disagg)).all(), 'hourly values before disaggregation')
    ev.label('every%d' % c['every'], 'location' if c['loc'] else 'no_location')
    ev.nontrivial(len(df) < len(full) or np.isnan(values(df)).any())


@st.composite
def station_case(draw):
    d = draw(gens.days_spec(lo=2, mid=60, big=draw(gens.seldom(460, 5)), gaps=True))
    return dict(d=d, rec=draw(stations.record(d['n'])), place=draw(gens.places(-85, 85)), seed=draw(gens.SEEDS),
                temp=draw(st.integers(0, len(stations.TEMP_OPS) - 1)),
                ops=draw(st.lists(st.integers(0, len(stations.OPS) - 1), min_size=1, max_size=5, unique=True)))


# daily columns a request needs on the day itself
NEEDS = dict(sine=['tmin', 'tmax'], sine_min_max=['tmin', 'tmax'], sine_mean=['tmin', 'tmax', 'temp'],
             mean_course_min_max=['tmin', 'tmax'], mean_course_mean=['tmin', 'tmax', 'temp'])


@sub('no_values_on_absent_days', station_case(), quick=1200, rule='a day is absent from the record')
def no_values_on_absent_days(c, ev):
    idx = gens.calendar(c['d'])
    full = gens.calendar(c['d'], full=True)
    df = stations.record_frame(c['rec'], idx)
    s = stations.station(df, c['place'], c['seed'])
    m = stations.master_record(c['seed'], full)
    absent = np.repeat(~full.isin(idx), 24)
    stations.run_op(s, stations.TEMP_OPS[c['temp']])
    for k in [None] + c['ops']:
        op = stations.TEMP_OPS[c['temp']] if k is None else stations.OPS[k]
        if op[1].get('zerodiv') or op[1].get('method') == 'month_hour_precip_mean':
            continue  # the rule / the categorical mean for dry days applies without a total
        res = stations.run_op(s, op, m)
        same_index(res, hours_of(full), stations.op_name(op))
        v = values(res)
        bad = absent & ~np.isnan(v)
        if op[1].get('method') == 'pot_rad_via_ssd':
            bad &= v != 0  # no radiation in polar night, whatever the sunshine duration
        require(not bad.any(), '%s: value on absent day %s', stations.op_name(op), res.index[bad][:1])
        ev.label(stations.op_name(op))
    ev.nontrivial(absent.any())


@st.composite
def direct_case(draw):
    d = draw(gens.days_spec(lo=2, mid=60, big=draw(gens.seldom(460, 5)), gaps=True))
    return dict(d=d, rec=draw(stations.record(d['n'], nan=0.2)), place=draw(gens.places(-59, 59)), seed=draw(gens.SEEDS))


@sub('direct', direct_case(), quick=500, rule='a record that skips days')
def direct(c, ev):
    """Every function called with the record itself: 24 hours for each day in it."""
    idx = gens.calendar(c['d'])
    df = stations.record_frame(c['rec'], idx)
    p = c['place']
    st_ = stations.synth_stats(c['seed'])
    sun = call(mutil.get_sun_times, idx, p['lon'], p['lat'], p['tz'])
    hours = hours_of(idx)
    pot = call(melodist.potential_radiation, hours, p['lon'], p['lat'], p['tz'])
    temp = None
    for op in stations.TEMP_OPS[:-1]:
        temp = call(melodist.disaggregate_temperature, df, sun_times=sun, **st_['temp'], **op[1])
        same_index(temp, hours, stations.op_name(op))
    temp = pd.Series(280 + np.arange(len(hours)) % 24 / 3.0, hours)
    for op in stations.HUM_OPS[:-1]:
        same_index(call(melodist.disaggregate_humidity, df, temp=temp, **st_['hum'], **op[1]), hours, stations.op_name(op))
    for m in ('equal', 'cosine', 'random'):
        n = len(np.asarray(call(melodist.disaggregate_wind, df.wind, method=m, **st_['wind'])))
        require(n == len(hours), 'wind %s: %d values for %d days', m, n, len(idx))
    for m in ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course'):
        g = st_['glob']
        res = call(melodist.disaggregate_radiation, df, sun_times=sun, pot_rad=pot, method=m, angstr_a=g['angstroem'].a,
                   angstr_b=g['angstroem'].b, bristcamp_a=g['bristcamp'].a, bristcamp_c=g['bristcamp'].c, mean_course=g['mean_course'])
        same_index(res, hours, 'radiation ' + m)
    ev.nontrivial(bool(c['d']['absent']))


@st.composite
def direct_local_case(draw):
    d = draw(gens.days_spec(lo=4, small=10, mid=40, big=draw(gens.seldom(460, 5)), gaps=True))
    return dict(d=d, rec=draw(stations.record(d['n'], nan=0.1)), place=draw(gens.places(-59, 59)), seed=draw(gens.SEEDS),
                at=draw(st.integers(0, 60)), rec2=draw(gens.SEEDS), change=draw(st.sampled_from(['values', 'missing', 'remove', 'remove'])),
                temp=draw(st.integers(0, len(stations.TEMP_OPS) - 1)),
                hum=draw(st.integers(0, len(stations.HUM_OPS) - 1)), rad=draw(st.integers(0, len(stations.RAD_OPS) - 1)))


@sub('direct_locality', direct_local_case(), quick=1200, rule='a record that skips days, and the change altered some result')
def direct_locality(c, ev):
    """The same for functions called with the record itself, whose days need not be consecutive."""
    idx = gens.calendar(c['d'])
    a = stations.record_frame(c['rec'], idx)
    day = idx[c['at'] % len(idx)]
    b = a.copy()
    if c['change'] == 'values':
        b.loc[day] = stations.record_frame(dict(c['rec'], seed=c['rec2']), idx).loc[day]
    elif c['change'] == 'missing' or len(idx) < 4 or day in (idx[0], idx[-1]):
        b.loc[day] = np.nan
    else:
        b = b.drop(index=day)
    p = c['place']
    st_ = stations.synth_stats(c['seed'])
    g = st_['glob']
    top, hop, rop = stations.TEMP_OPS[c['temp']], stations.HUM_OPS[c['hum']], stations.RAD_OPS[c['rad']]
    out = []
    for df in (a, b):
        hours = hours_of(df.index)
        sun = call(mutil.get_sun_times, df.index, p['lon'], p['lat'], p['tz'])
        pot = call(melodist.potential_radiation, hours, p['lon'], p['lat'], p['tz'])
        temp = pd.Series(280 + (np.arange(len(hours)) % 24) / 3.0, hours)
        res = {'temperature': call(melodist.disaggregate_temperature, df, sun_times=sun, **st_['temp'], **top[1])}
        res['humidity'] = call(melodist.disaggregate_humidity, df, temp=temp, **dict(st_['hum'], **hop[1]))
        res['wind'] = call(melodist.disaggregate_wind, df.wind, method='cosine', **st_['wind'])
        res['radiation'] = call(melodist.disaggregate_radiation, df, sun_times=sun, pot_rad=pot, angstr_a=g['angstroem'].a, angstr_b=g['angstroem'].b,
                                bristcamp_a=g['bristcamp'].a, bristcamp_c=g['bristcamp'].c, mean_course=g['mean_course'], **rop[1])
        out.append({k: pd.Series(values(v), hours) for k, v in res.items()})
    dist = np.abs((idx - day) // pd.Timedelta(days=1))
    changed = False
    for k, op in [('temperature', top), ('humidity', hop), ('wind', ('wind', {})), ('radiation', rop)]:
        far = np.asarray(dist > 1)
        if op[1].get('method') == 'pot_rad_via_bc':
            far &= ~idx.month.isin({day.month, (day - pd.Timedelta(days=1)).month})
        sel, near = hours_of(idx[far]), hours_of(idx[~far])
        close(out[1][k].reindex(sel), out[0][k].reindex(sel).values, '%s, %s at %s' % (stations.op_name(op), c['change'], day.date()))
        changed = changed or not np.array_equal(out[0][k].reindex(near).values, out[1][k].reindex(near).values, equal_nan=True)
        ev.label(stations.op_name(op))
    ev.label(c['change'])
    ev.nontrivial(bool(c['d']['absent']) and changed)


@st.composite
def local_case(draw):
    d = draw(gens.days_spec(lo=5, small=12, mid=50, big=draw(gens.seldom(460, 5)), gaps=False))
    return dict(d=d, rec=draw(stations.record(d['n'], nan=0.2)), place=draw(gens.places(-59, 59)), seed=draw(gens.SEEDS),
                change=draw(st.sampled_from(['values', 'missing', 'cut_end', 'cut_start', 'column'])),
                at=draw(st.integers(0, d['n'] - 1)), rec2=draw(gens.SEEDS), col=draw(st.sampled_from(stations.COLUMNS)),
                temp=draw(st.integers(0, len(stations.TEMP_OPS) - 1)),
                ops=draw(st.lists(st.integers(0, len(stations.OPS) - 1), min_size=1, max_size=6, unique=True)))


@sub('locality', local_case(), quick=1200, rule='values of unaffected days were compared, and the change altered some result')
def locality(c, ev):
    idx = gens.calendar(c['d'])
    n = len(idx)
    a = stations.record_frame(c['rec'], idx)
    other = stations.record_frame(dict(c['rec'], seed=c['rec2']), idx)
    b = a.copy()
    at = c['at']
    if c['change'] == 'values':
        b.iloc[at] = other.iloc[at]
    elif c['change'] == 'column':
        b.loc[b.index[at], c['col']] = other.loc[b.index[at], c['col']]
    elif c['change'] == 'missing':
        b.iloc[at] = np.nan
    elif c['change'] == 'cut_end':
        at = max(at, 2)
        b = b.iloc[:at]
    else:
        at = min(at, n - 3)
        b = b.iloc[at + 1:]
    dist = np.abs(np.arange(n) - at)
    m = stations.master_record(c['seed'], idx)
    sa, sb = stations.station(a, c['place'], c['seed']), stations.station(b, c['place'], c['seed'])
    changed = False
    for k in [-1] + c['ops']:
        op = stations.TEMP_OPS[c['temp']] if k < 0 else stations.OPS[k]
        # the random branching of the cascade looks at neighbouring boxes, which reaches into the second day
        reach = 2 if op[1].get('method') == 'cascade' else 1
        far = dist > reach
        if op[1].get('method') == 'pot_rad_via_bc':
            # monthly mean of the temperature range, which of a day uses the next day's minimum
            touched = {idx[at].month, idx[max(at - 1, 0)].month}
            far &= ~idx.month.isin(touched) if c['change'] not in ('cut_end', 'cut_start') else False
        ra = pd.Series(values(stations.run_op(sa, op, m)), hours_of(idx))
        rb = pd.Series(values(stations.run_op(sb, op, m)), hours_of(b.index))
        sel = hours_of(idx[far & idx.isin(b.index)])
        close(rb.reindex(sel), ra.reindex(sel).values, '%s, %s at %s' % (stations.op_name(op), c['change'], idx[at].date()))
        near = hours_of(idx[~far & idx.isin(b.index)])
        changed = changed or (len(sel) > 0 and not np.array_equal(ra.reindex(near).values, rb.reindex(near).values, equal_nan=True))
        ev.label(stations.op_name(op))
    ev.label(c['change'])
    ev.nontrivial(changed)
