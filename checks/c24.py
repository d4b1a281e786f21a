"""C24: invalid requests are rejected without side effects."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gens
import stations
from state import diff, observations, snap
from harness import call, frame_state, melodist, rejects, require, sub, values

VALID = dict(wind=['equal', 'cosine', 'random'], humidity=['equal', 'minimal', 'dewpoint_regression', 'linear_dewpoint_variation', 'min_max', 'month_hour_precip_mean'],
             temperature=['sine_min_max', 'sine_mean', 'sine', 'mean_course_min_max', 'mean_course_mean'], precipitation=['equal', 'cascade', 'masterstation'],
             radiation=['pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course'])
EVERY = sorted({m for v in VALID.values() for m in v})
UNCALIBRATED = [('wind', dict(method='cosine'), 'wind'), ('humidity', dict(method='dewpoint_regression'), 'hum'),
                ('humidity', dict(method='linear_dewpoint_variation'), 'hum'), ('humidity', dict(method='month_hour_precip_mean'), 'hum'),
                ('temperature', dict(method='mean_course_min_max'), 'temp'), ('temperature', dict(method='mean_course_mean'), 'temp'),
                ('temperature', dict(min_max_time='sun_loc_shift'), 'temp'), ('temperature', dict(method='sine_mean', min_max_time='sun_loc_shift'), 'temp'),
                ('precipitation', dict(method='cascade'), 'precip'), ('radiation', dict(method='mean_course'), 'glob')]


@st.composite
def base(draw):
    d = draw(gens.days_spec(lo=2, small=6, mid=20, gaps=True))
    return dict(d=d, rec=draw(stations.record(gens.n_days(d), nan=0.2)), place=draw(gens.places(-60, 60, slack=10)), seed=draw(gens.SEEDS),
                done=draw(st.lists(st.integers(0, len(stations.OPS) - 1), max_size=3)), obs=draw(st.booleans()))


def prepared(c):
    """A station with some results."""
    df = stations.record_frame(c['rec'], gens.calendar(c['d']))
    s = stations.station(df, c['place'], c['seed'])
    master = stations.master_record(c['seed'], gens.calendar(c['d'], full=True))
    if c['obs']:
        s.statistics.data = observations(c['seed'], 4)
    for k in c['done']:
        stations.run_op(s, stations.OPS[k], master)
    return s, df


def rejected(s, f, what):
    before = snap(s)
    rejects(f, what)
    d = diff(before, snap(s))
    require(not d, '%s was rejected but changed %s', what, ', '.join(d))


@st.composite
def method_case(draw):
    var = draw(st.sampled_from(sorted(VALID)))
    name = draw(st.one_of(st.sampled_from([m for m in EVERY if m not in VALID[var]] + ['', 'none', 'Equal', 'EQUAL', 'equal ', 'linear', 'uniform', 'all']),
                          st.text(alphabet='abcdefghijklmnopqrstuvwxyz_', min_size=1, max_size=12)))
    return dict(b=draw(base()), var=var, name=name if name not in VALID[var] else name + 'x', none=draw(st.integers(0, 9)) == 0, calibrated=draw(st.booleans()))


@sub('unknown_method', method_case(), quick=1200, rule='the station already holds results')
def unknown_method(c, ev):
    s, _ = prepared(c['b'])
    if not c['calibrated']:
        s.statistics = melodist.StationStatistics()
    name = None if c['none'] else c['name']
    rejected(s, lambda: getattr(s, 'disaggregate_' + c['var'])(method=name), '%s method %r' % (c['var'], name))
    ev.label(c['var'])
    ev.nontrivial(not np.isnan(values(s.data_disagg)).all())


@st.composite
def missing_case(draw):
    return dict(b=draw(base()), k=draw(st.integers(0, len(UNCALIBRATED) - 1)), partly=draw(st.booleans()))


@sub('missing_calibration', missing_case(), quick=1000, rule='the station already holds results')
def missing_calibration(c, ev):
    s, _ = prepared(c['b'])
    var, kw, key = UNCALIBRATED[c['k']]
    if c['partly']:  # only what this request needs is missing
        b = getattr(s.statistics, key)
        if key == 'glob':
            b['mean_course'] = None
        else:
            for k in b:
                b[k] = None
    else:
        s.statistics = melodist.StationStatistics()
    rejected(s, lambda: getattr(s, 'disaggregate_' + var)(**kw), '%s %s without calibration' % (var, kw))
    ev.label(var + ':' + '/'.join(kw.values()))
    ev.nontrivial(not np.isnan(values(s.data_disagg)).all())


FRAMES = ['series', 'array', 'list', 'dict', 'none', 'int_index', 'str_index', 'hourly', 'shifted', 'minutes', 'descending', 'unsorted', 'duplicate', 'period_index', 'cold', 'cold']


@st.composite
def frame_case(draw):
    return dict(b=draw(base()), kind=draw(st.sampled_from(FRAMES)), col=draw(st.sampled_from(['tmin', 'tmax', 'tmean'])), at=draw(st.integers(0, 50)),
                value=draw(st.one_of(st.floats(-80, 60), st.sampled_from([199.99, 0.0, -0.01, 199.999999]))), new=draw(st.booleans()),
                days=draw(st.integers(2, 40)), start=draw(gens.starts()))


def bad_frame(c):
    idx = pd.date_range(c['start'], periods=c['days'], freq='D')
    df = stations.record_frame(dict(c['b']['rec'], nan=0.0), idx)
    k = c['kind']
    if k == 'series':
        return df.tmin
    if k == 'array':
        return df.values
    if k == 'list':
        return [1.0, 2.0]
    if k == 'dict':
        return {x: df[x] for x in df}
    if k == 'none':
        return 5
    if k == 'int_index':
        return df.reset_index(drop=True)
    if k == 'str_index':
        return df.set_axis([str(d.date()) for d in df.index])
    if k == 'hourly':
        return df.set_axis(pd.date_range(c['start'], periods=c['days'], freq='h'))
    if k == 'shifted':
        return df.set_axis(df.index + pd.Timedelta(hours=1 + c['at'] % 23))
    if k == 'minutes':
        return df.set_axis(pd.date_range(c['start'], periods=c['days'], freq='30min'))
    if k == 'descending':
        return df.iloc[::-1]
    if k == 'unsorted':
        i = c['at'] % (len(df) - 1)
        o = list(range(len(df)))
        o[i], o[i + 1] = o[i + 1], o[i]
        return df.iloc[o]
    if k == 'duplicate':
        i = c['at'] % len(df)
        return df.iloc[sorted(list(range(len(df))) + [i])]
    if k == 'period_index':
        return df.set_axis(df.index.to_period('D'))
    if c['col'] not in df:
        df[c['col']] = 280.0
    df.iloc[c['at'] % len(df), df.columns.get_loc(c['col'])] = c['value']
    return df


@sub('daily_record', frame_case(), quick=1600, rule='a data frame, set on a station that already has a record')
def daily_record(c, ev):
    df = bad_frame(c)
    what = 'daily record (%s)' % c['kind']
    copy_ = df.copy() if isinstance(df, (pd.DataFrame, pd.Series)) else None
    if c['new']:
        p = c['b']['place']
        rejects(lambda: melodist.Station(lon=p['lon'], lat=p['lat'], timezone=p['tz'], data_daily=df), what)
    else:
        s, _ = prepared(c['b'])
        rejected(s, lambda: setattr(s, 'data_daily', df), what)
    if copy_ is not None:
        require(frame_state(df) == frame_state(copy_), 'the rejected record was changed')
    ev.label(c['kind'])
    ev.nontrivial(isinstance(df, pd.DataFrame) and not c['new'])


@st.composite
def calib_case(draw):
    return dict(b=draw(base()), kind=draw(st.sampled_from(['series', 'dict', 'int_index', 'str_index', 'period_index', 'daily', 'half_hourly', 'how', 'how', 'statistics'])),
                how=draw(st.one_of(st.sampled_from(['', 'daily', 'month', 'All', 'yearly', 'season', 'weekly']), st.text(alphabet='abcdefgs', min_size=1, max_size=8))),
                daily=draw(st.booleans()), seed=draw(gens.SEEDS), new=draw(st.booleans()))


@sub('calibration', calib_case(), quick=1000, rule='the statistics object already has observations')
def calibration(c, ev):
    s, df = prepared(c['b'])
    k = c['kind']
    obs = observations(c['seed'], 3)
    ss = s.statistics
    if k == 'statistics':
        rejected(s, lambda: setattr(s, 'statistics', [None, {}, 5, obs][c['seed'] % 4]), 'statistics that are none')
    elif k == 'how':
        ss.data = obs
        kw = dict(data_daily=s.data_daily, day_length=s.sun_times.daylength) if c['daily'] else {}
        rejected(s, lambda: ss.calc_radiation_stats(how=c['how'], **kw), 'radiation calibration period %r' % c['how'])
    else:
        bad = dict(series=lambda: obs.temp, dict=lambda: dict(obs), int_index=lambda: obs.reset_index(drop=True),
                   str_index=lambda: obs.set_axis([str(t) for t in obs.index]),
                   period_index=lambda: obs.set_axis(obs.index.to_period('h')),
                   daily=lambda: obs.set_axis(pd.date_range('2001-01-01', periods=len(obs), freq='D')),
                   half_hourly=lambda: obs.set_axis(pd.date_range('2001-01-01', periods=len(obs), freq='30min')))[k]()
        if c['new']:
            rejects(lambda: melodist.StationStatistics(data=bad), 'hourly record (%s)' % k)
        else:
            rejected(s, lambda: setattr(ss, 'data', bad), 'hourly record (%s)' % k)
    ev.label(k)
    ev.nontrivial(c['b']['obs'])


@st.composite
def direct_case(draw):
    return dict(b=draw(base()), var=draw(st.sampled_from(['wind', 'humidity', 'temperature', 'precipitation', 'radiation', 'kr', 'no_regression', 'no_course', 'no_minmax'])),
                name=draw(st.text(alphabet='abcdefghijklm_', min_size=1, max_size=10)), kr=draw(st.sampled_from([0, 3, 5, 7, 11, 13, 24])))


@sub('direct', direct_case(), quick=600, rule='every case')
def direct(c, ev):
    """The functions behind the station methods reject the same requests and leave their input alone."""
    df = stations.record_frame(c['b']['rec'], gens.calendar(c['b']['d']))
    hours = gens.calendar(c['b']['d'])
    temp = melodist.util.distribute_equally(df.temp)
    before = frame_state(df), frame_state(temp)
    v = c['var']
    p = c['b']['place']
    sun = melodist.util.get_sun_times(df.index, p['lon'], p['lat'], p['tz'])
    f = dict(
        wind=lambda: melodist.disaggregate_wind(df.wind, method=c['name']),
        humidity=lambda: melodist.disaggregate_humidity(df, temp=temp, method=c['name']),
        temperature=lambda: melodist.disaggregate_temperature(df, sun_times=sun, method=c['name']),
        precipitation=lambda: melodist.disagg_prec(df.precip, method=c['name']),
        radiation=lambda: melodist.disaggregate_radiation(df, sun_times=sun, pot_rad=temp, method=c['name']),
        kr=lambda: melodist.disaggregate_humidity(df, temp=temp, method='linear_dewpoint_variation', a0=0.0, a1=1.0, kr=c['kr']),
        no_regression=lambda: melodist.disaggregate_humidity(df, temp=temp, method='dewpoint_regression', a0=None, a1=1.0),
        no_course=lambda: melodist.disaggregate_radiation(df, sun_times=sun, pot_rad=temp, method='mean_course'),
        no_minmax=lambda: melodist.disaggregate_humidity(df.drop(columns=['hum_min']), temp=temp, method='min_max'))[v]
    rejects(f, '%s (%s)' % (v, c['name']))
    require((frame_state(df), frame_state(temp)) == before, '%s: rejected but the input was changed', v)
    ev.label(v)
    ev.nontrivial()


@st.composite
def valid_case(draw):
    return dict(b=draw(base()), ops=draw(st.lists(st.integers(0, len(stations.OPS)), min_size=1, max_size=6)), temp=draw(st.integers(0, len(stations.TEMP_OPS) - 1)),
                edge=draw(st.booleans()))


@sub('valid', valid_case(), quick=1200, rule='two or more requests')
def valid(c, ev):
    """Every documented request is accepted and yields values."""
    b = dict(c['b'], rec=dict(c['b']['rec'], nan=0.0), d=dict(c['b']['d'], absent=[]))
    s, df = prepared(b)
    if c['edge']:  # the coldest plausible temperature
        df = df.copy()
        df.iloc[0, df.columns.get_loc('tmin')] = 200.0
        call(setattr, s, 'data_daily', df)
    master = stations.master_record(b['seed'], gens.calendar(b['d'], full=True))
    stations.run_op(s, stations.TEMP_OPS[c['temp']], master)
    for k in c['ops']:
        op = stations.OPS[k] if k < len(stations.OPS) else ('wind', dict(method='random'))
        v = values(stations.run_op(s, op, master))
        if op[1].get('method') != 'pot_rad_via_bc':  # not defined for every temperature range
            require(not np.isnan(v).any(), '%s: missing values for complete input', stations.op_name(op))
        ev.label(stations.op_name(op))
    ev.nontrivial(len(c['ops']) >= 2)
