"""C16: station statistics survive the JSON round trip."""
import copy
import json
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import casc
import gens
import stations
from harness import call, close, melodist, repeatable, require, scratch, sub, values

VARS = ['temp', 'wind', 'hum', 'precip', 'glob_course', 'glob_params']
SEASONS = [[list(range(1, 13))], [[12, 1, 2], [3, 4, 5], [6, 7, 8], [9, 10, 11]], [[4, 5, 6, 7, 8, 9], [10, 11, 12, 1, 2, 3]],
           [[m] for m in range(1, 13)], [[1, 2, 3, 4, 5, 6, 7, 8], [9, 10, 11, 12]]]


@st.composite
def synth_case(draw):
    return dict(kind='synth', seed=draw(gens.SEEDS), vars=draw(st.lists(st.sampled_from(VARS), max_size=6, unique=True)),
                months=draw(st.one_of(st.just(list(range(1, 13))), st.sets(st.integers(1, 12), min_size=1).map(sorted))),
                seasons=draw(st.integers(0, len(SEASONS) - 1)), levels=draw(st.booleans()), as_array=draw(st.booleans()),
                hole=draw(st.booleans()), hot=draw(st.booleans()), zero=draw(st.booleans()), thresholds=draw(st.sampled_from([5, 5, 9, 10, 11])), percentile=draw(st.sampled_from([50, 20, 75, 12.5])))


@st.composite
def calib_case(draw):
    return dict(kind='calibrated', seed=draw(gens.SEEDS), vars=draw(st.lists(st.sampled_from(VARS[:5]), min_size=1, max_size=5, unique=True)),
                start=draw(gens.starts()), days=draw(st.sampled_from([20, 45, 100, 366, 400])), seasons=draw(st.integers(0, 2)), levels=draw(st.booleans()),
                as_array=draw(st.booleans()), name=draw(st.sampled_from([None, 'time', 'date'])), nan=draw(st.sampled_from([0.0, 0.0, 0.02, 0.5])),
                percentile=draw(st.sampled_from([50, 20, 75, 12.5])))


def seasons_of(c):
    months = SEASONS[c['seasons']]
    return [np.array(m) if c['as_array'] else m for m in months]


def synth(c):
    r = np.random.RandomState(c['seed'])
    full = stations.synth_stats(c['seed'])
    ss = melodist.StationStatistics()
    m = c['months']
    if 'temp' in c['vars']:
        ss.temp.max_delta = full['temp']['max_delta'].loc[m]
        mc = full['temp']['mean_course'][m].copy()
        if c['hole']:
            mc.iloc[r.randint(24), r.randint(len(m))] = np.nan
        ss.temp.mean_course = mc
        if c['hole'] and len(m) > 1:  # a month of the record without any observation
            ss.temp.max_delta = ss.temp.max_delta.where(np.arange(len(m)) != r.randint(1, len(m)))
        if c['zero']:
            ss.temp.max_delta = ss.temp.max_delta.where(r.uniform(size=len(m)) < 0.6, 0.0)
    if 'wind' in c['vars']:
        ss.wind.update(full['wind'])
        if c['zero']:
            ss.wind[['a', 'b', 't_shift'][r.randint(3)]] = 0.0
    if 'hum' in c['vars']:
        h = full['hum']
        ss.hum.update(a0=np.float64(0.0 if c['zero'] else h['a0']), a1=np.float64(h['a1']), kr=h['kr'])
        x = h['month_hour_precip_mean'] + r.uniform(size=576) / 7
        x = x[x.index.get_level_values(0).isin(m)]
        if c['hole']:
            x = x[r.uniform(size=len(x)) < 0.9]
            x = x.mask(r.uniform(size=len(x)) < 0.1)  # e.g. no humidity was ever observed on a wet day at that hour
        if c['zero']:
            x = x.where(r.uniform(size=len(x)) < 0.9, 0.0)
        x.name = 'hum' if r.randint(2) else None
        ss.hum.month_hour_precip_mean = x
    if 'precip' in c['vars']:
        seasons = seasons_of(c)
        ss.precip.months = seasons

        def one():
            s = dict(hot=r.randint(0, 9, (2, 4)).tolist()) if c['hot'] else dict(seed=int(r.randint(2**31)), zero=0.3)
            o = casc.build(s, r.uniform(0.01, 9, c['thresholds']))
            o.percentile = c['percentile']
            return o

        ss.precip.stats = [[one() for _ in range(c['thresholds'])] if c['levels'] else one() for _ in seasons]
    if 'glob_course' in c['vars']:
        ss.glob.mean_course = full['glob']['mean_course'][m].copy()
    if 'glob_params' in c['vars']:
        ss.glob.angstroem = full['glob']['angstroem'] + 1e-7 / 3
        ss.glob.bristcamp = full['glob']['bristcamp'] + 1e-7 / 3
    return ss


def calibrated(c):
    r = np.random.RandomState(c['seed'])
    idx = pd.date_range(c['start'], periods=24 * c['days'], freq='h', name=c['name'])
    n = len(idx)
    h = idx.hour.values
    day = np.arange(n) // 24
    w = r.uniform(1, 8, c['days'])[day]
    df = pd.DataFrame(dict(
        temp=np.round(280 + r.uniform(-6, 6, c['days'])[day] + 5 * np.sin(np.pi * (h - 9) / 12) + r.normal(0, 0.5, n), 2),
        hum=np.round(np.clip(60 + 20 * np.cos(np.pi * h / 12) + r.normal(0, 8, n), 1, 100), 1),
        wind=np.round(w * (1 + 0.4 * np.cos(np.pi * (h - 14) / 12)) + r.uniform(0, 0.2, n), 2),
        glob=np.round(np.maximum(0, 600 * np.sin(np.pi * (h - 6) / 12)), 1),
        precip=np.round(r.exponential(1, n), 2) * (r.uniform(size=n) < 0.3)), index=idx)
    if c['nan']:
        df = df.mask(r.uniform(size=df.shape) < c['nan'])
    ss = melodist.StationStatistics(data=df, lon=10.0, lat=47.0, timezone=1)
    if 'temp' in c['vars']:
        call(ss.calc_temperature_stats)
    if 'wind' in c['vars']:
        call(ss.calc_wind_stats)
    if 'hum' in c['vars']:
        call(ss.calc_humidity_stats)
    if 'glob_course' in c['vars']:
        call(ss.calc_radiation_stats)
    if 'precip' in c['vars']:
        months = seasons_of(c)
        # a season needs some days of record
        months = [m for m in months if np.isin(idx.month, m).sum() >= 24 * 10]
        call(ss.calc_precipitation_stats, months=months, avg_stats=not c['levels'], percentile=c['percentile'])
    return ss


def cascs(x):
    return x if isinstance(x, list) else [x]


def compare(a, b, what):
    """b has everything a has."""
    for var, keys in [('temp', ['max_delta', 'mean_course']), ('wind', ['a', 'b', 't_shift']), ('hum', ['a0', 'a1', 'kr', 'month_hour_precip_mean']),
                      ('precip', ['months', 'stats']), ('glob', ['angstroem', 'bristcamp', 'mean_course'])]:
        for k in keys:
            x, y = getattr(a, var)[k], getattr(b, var)[k]
            name = '%s: %s.%s' % (what, var, k)
            if x is None or y is None:
                require(x is None and y is None, '%s is %s, was %s', name, type(y).__name__, type(x).__name__)
            elif var == 'precip' and k == 'months':
                require([[int(m) for m in s] for s in x] == [[int(m) for m in s] for s in y], '%s is %r, was %r', name, y, x)
            elif var == 'precip':
                require(len(x) == len(y), '%s: %d seasons, were %d', name, len(y), len(x))
                for i, (p, q) in enumerate(zip(x, y)):
                    require(isinstance(p, list) == isinstance(q, list) and len(cascs(p)) == len(cascs(q)), '%s: levels of season %d differ', name, i)
                    for p1, q1 in zip(cascs(p), cascs(q)):
                        for t in ('p01', 'p10', 'pxx', 'wxx', 'threshold'):
                            close(getattr(q1, t), getattr(p1, t), '%s season %d %s' % (name, i, t), rtol=0, atol=1e-9)
                        require(p1.percentile == q1.percentile, '%s season %d percentile %r, was %r', name, i, q1.percentile, p1.percentile)
            elif isinstance(x, pd.DataFrame):
                require([int(v) for v in x.index] == [int(v) for v in y.index], '%s: rows %s, were %s', name, list(y.index), list(x.index))
                require([str(v) for v in x.columns] == [str(v) for v in y.columns], '%s: columns %s, were %s', name, list(y.columns), list(x.columns))
                for col in x.columns:
                    require(col in y.columns, '%s: column %r not found by its label', name, col)
                    for row in (x.index[0], x.index[-1]):
                        require(row in y.index, '%s: row %r not found by its label', name, row)
                close(values(y), values(x), name, rtol=0, atol=1e-9)
            elif isinstance(x, pd.Series):
                kx = [tuple(int(q) for q in np.atleast_1d(v)) for v in x.index]
                ky = [tuple(int(q) for q in np.atleast_1d(v)) for v in y.index]
                require(kx == ky, '%s: labels %s, were %s', name, ky[:3], kx[:3])
                close(values(y), values(x), name, rtol=0, atol=1e-9)
                if k == 'max_delta':
                    close(values(y.loc[list(x.index)]), values(x), name + ' by label', rtol=0, atol=1e-9)
            else:
                require(abs(float(x) - float(y)) <= 1e-9 * max(1.0, abs(float(x))), '%s is %r, was %r', name, y, x)


def disagg(c, ss, df, place):
    s = call(melodist.Station, lon=place['lon'], lat=place['lat'], timezone=place['tz'], data_daily=df)
    s.statistics = ss
    out = {}
    ops = [('temperature', dict(method='sine_min_max', min_max_time='fix')), ('radiation', dict(method='pot_rad_via_bc')), ('radiation', dict(method='pot_rad_via_ssd'))]
    if 'wind' in c['vars']:
        ops.append(('wind', dict(method='cosine')))
    if 'hum' in c['vars']:
        ops += [('humidity', dict(method='dewpoint_regression')), ('humidity', dict(method='linear_dewpoint_variation'))]
        if c['kind'] == 'synth' and not c['hole']:
            ops.append(('humidity', dict(method='month_hour_precip_mean')))
    if 'temp' in c['vars']:
        ops += [('temperature', dict(method='sine_mean', min_max_time='sun_loc_shift')), ('temperature', dict(method='mean_course_mean'))]
    if 'glob_course' in c['vars']:
        ops.append(('radiation', dict(method='mean_course')))
    if 'precip' in c['vars'] and c.get('days', 366) >= 366 and not (c['levels'] and (c['kind'] == 'calibrated' or c['thresholds'] != 5)):
        ops.append(('precipitation', dict(method='cascade')))
    for op in ops:
        if not repeatable(op[1]['method']):
            continue
        np.random.seed(c['seed'] % 2**31)
        out[stations.op_name(op)] = values(stations.run_op(s, op)).copy()
    return out


def round_trip(c, ev):
    ss = synth(c) if c['kind'] == 'synth' else calibrated(c)
    kept = copy.deepcopy(ss)
    with scratch() as d:
        f1, f2 = os.path.join(d, 'a.json'), os.path.join(d, 'b.json')
        text = call(ss.to_json)
        require(isinstance(text, str), 'to_json returned %s', type(text).__name__)
        if c['seed'] % 2:  # the file exists already
            with open(f1, 'w') as f:
                f.write('{"temp": null}\n' * 9000)
        call(ss.to_json, f1)
        with open(f1) as f:
            require(f.read() == text, 'file and string differ')
        compare(kept, ss, 'object saved')
        try:
            json.loads(text)
        except ValueError as e:
            require(False, 'not JSON: %s', e)
        back = call(melodist.StationStatistics.from_json, f1)
        compare(ss, back, 'loaded')
        call(back.to_json, f2)
        again = call(melodist.StationStatistics.from_json, f2)
        compare(back, again, 'second round trip')
        require(call(back.to_json) == call(again.to_json), 'second round trip changes the text')
        call(call(melodist.StationStatistics).to_json, f2)
        compare(call(melodist.StationStatistics), call(melodist.StationStatistics.from_json, f2), 'nothing calibrated')
        compare(ss, back, 'loaded before another file')
    # the loaded statistics are as usable as the original
    months = c.get('months') or sorted(set(pd.date_range(c['start'], periods=c['days'], freq='D').month))
    r = np.random.RandomState(c['seed'])
    first = pd.Timestamp(2004, int(months[0]), 1)
    idx = pd.date_range(first, periods=28, freq='D')
    df = stations.record_frame(dict(seed=c['seed'], nan=0.0, cold=False), idx)
    place = dict(lon=11.0, lat=47.0, tz=1)
    x, y = disagg(c, ss, df, place), disagg(c, back, df, place)
    for k in x:
        close(y[k], x[k], 'disaggregation with the loaded statistics: ' + k, rtol=1e-6, atol=1e-5)
    ev.label(*c['vars'], *(['levels'] if c['levels'] and 'precip' in c['vars'] else []), 'all_months' if len(months) == 12 else 'some_months')
    ev.nontrivial(len(c['vars']) >= 1)


RULE = 'at least one variable is calibrated'
sub('synthetic', synth_case(), quick=400, rule=RULE)(round_trip)
sub('calibrated', calib_case(), quick=120, rule=RULE)(round_trip)
