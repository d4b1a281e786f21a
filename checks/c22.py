"""C22: a station depends on its current state only, never on its history."""
import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gens
import stations
import sun
from state import diff, observations, snap, state_of, stats_state
from harness import call, close, frame_state, hours_of, melodist, repeatable, require, same_index, sub, values

OPS = stations.OPS + [('wind', dict(method='random')), ('precipitation', dict(method='cascade')), ('precipitation', dict(method='cascade'))]


# --- history ------------------------------------------------------------------------------------

@st.composite
def data_op(draw):
    d = draw(gens.days_spec(lo=2, small=6, mid=12, big=draw(gens.seldom(420, 15)), gaps=True))
    if draw(st.booleans()):
        d['start'] = draw(st.sampled_from(['2003-06-20', '2003-12-20', '2003-06-21']))  # records that overlap
    return ['data', dict(d=d, rec=draw(stations.record(gens.n_days(d), nan=0.2)))]


def place_op(draw):
    p = draw(gens.places(-62, 62, slack=15))
    which = draw(st.sampled_from([['lat'], ['lat'], ['lon', 'lat', 'tz'], ['tz', 'lat', 'lon'], ['lat', 'tz', 'lon']]))
    return ['place', [[k, p[k]] for k in which]]


CALIB = ['temperature', 'wind', 'humidity', 'precipitation', 'radiation']


@st.composite
def history(draw, n_min=3, n_max=14):
    ops = []
    ops.append(['place', [[k, v] for k, v in draw(gens.places(-62, 62, slack=15)).items()]])
    ops.append(draw(data_op()))
    ops.append(['stats', draw(gens.SEEDS)])
    if draw(st.booleans()):
        ops = draw(st.permutations(ops))
    for _ in range(draw(st.integers(n_min, n_max))):
        kind = draw(st.sampled_from(['disagg'] * 10 + ['data'] * 2 + ['place'] * 2 + ['stats', 'stats', 'observe', 'calibrate', 'calibrate', 'copy', 'copy', 'touch']))
        if kind == 'disagg':
            ops.append(['disagg', draw(st.integers(0, len(OPS) - 1)), draw(gens.SEEDS)])
        elif kind == 'data':
            ops.append(draw(data_op()))
        elif kind == 'place':
            ops.append(place_op(draw))
        elif kind == 'stats':
            ops.append(['stats', draw(gens.SEEDS)])
        elif kind == 'observe':
            ops.append(['observe', draw(gens.SEEDS), draw(st.sampled_from([6, 40]))])
        elif kind == 'calibrate':
            if not any(o[0] == 'observe' for o in ops) or draw(st.booleans()):
                ops.append(['observe', draw(gens.SEEDS), draw(st.sampled_from([6, 40]))])
            ops.append(['calibrate', draw(st.sampled_from(CALIB))])
        elif kind == 'copy':
            ops.append(['copy', draw(st.booleans())])
        else:
            ops.append(['touch'])
    return dict(ops=list(ops))


class Model:
    """What the state of the station should be: recipes only, no object shared with the station."""

    def __init__(self):
        self.place = dict(lon=None, lat=None, tz=None)
        self.df = None
        self.stats = {}
        self.obs = None
        self.temp = None  # last temperature result

    def clone(self):
        m = Model()
        m.place, m.df, m.obs = dict(self.place), self.df, self.obs
        m.stats = copy.deepcopy(self.stats)
        m.temp = self.temp
        return m

    def located(self):
        return None not in self.place.values()

    def fresh(self):
        p = self.place
        s = melodist.Station(lon=p['lon'], lat=p['lat'], timezone=p['tz'], data_daily=self.df.copy())
        for var, d in copy.deepcopy(self.stats).items():
            getattr(s.statistics, var).update(d)
        if self.temp is not None:
            s.data_disagg['temp'] = self.temp.copy()
        return s

    def fresh_stats(self):
        p = self.place
        return melodist.StationStatistics(data=self.obs, lon=p['lon'], lat=p['lat'], timezone=p['tz'])


def check_station(s, m, where):
    """Everything that must hold at any time."""
    ss = s.statistics
    require((s.lon, s.lat, s.timezone) == (m.place['lon'], m.place['lat'], m.place['tz']), '%s: location is %s', where, (s.lon, s.lat, s.timezone))
    if hasattr(ss, '_lon') and hasattr(ss, '_lat') and hasattr(ss, '_timezone'):  # otherwise seen by calibrating
        require((ss._lon, ss._lat, ss._timezone) == (s.lon, s.lat, s.timezone), '%s: the statistics are located at %s, the station at %s', where,
                (ss._lon, ss._lat, ss._timezone), (s.lon, s.lat, s.timezone))
    if m.df is not None and m.located():
        days = pd.date_range(m.df.index[0], m.df.index[-1], freq='D')
        same_index(s.data_daily, days, '%s: daily record' % where)
        close(values(s.data_daily), m.df.reindex(days).values, '%s: daily record' % where, rtol=0, atol=0, labels=days)
        ref = sun.sun_table(days, m.place['lon'], m.place['lat'], m.place['tz'])
        require(s.sun_times is not None, '%s: no sun times', where)
        same_index(s.sun_times, days, '%s: sun times' % where)
        for k in ('sunrise', 'sunnoon', 'sunset', 'daylength'):
            close(values(s.sun_times[k]), ref[k].values, '%s: %s' % (where, k), rtol=0, atol=1e-6, labels=days)


def calibrate(ss, var, df, day_length):
    f = getattr(ss, 'calc_%s_stats' % var)
    if var == 'radiation' and df is not None:
        call(f, data_daily=df, day_length=day_length)
    else:
        call(f)


def deface(x):
    """Overwrite everything reachable in place."""
    if isinstance(x, (pd.DataFrame, pd.Series)):
        if len(x):
            x.iloc[:] = -5.0
    elif isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = 0
    elif isinstance(x, list):
        for v in x:
            deface(v)
        x.append(None)
    elif isinstance(x, dict):
        for k, v in list(x.items()):
            deface(v)
            x[k] = None
    elif isinstance(x, melodist.cascade.CascadeStatistics):
        for v in list(vars(x).values()):
            deface(v)
    elif isinstance(x, melodist.Station):
        for v in (x.data_daily, x.data_disagg, x.sun_times, x.statistics.data):
            deface(v)
        for k in ('temp', 'wind', 'precip', 'hum', 'glob'):
            deface(getattr(x.statistics, k))


KEY = dict(temperature='temp', wind='wind', humidity='hum', precipitation='precip', radiation='glob')


@sub('history', history(), quick=900, rule='two or more disaggregations with something else in between')
def run_history(c, ev):
    s, m = call(melodist.Station), Model()
    others = [(b, snap(b), 'the beginning') for b in [call(melodist.Station)]]  # objects that must stay as they are
    user = []  # frames of the user
    done, changes, results = 0, 0, 0
    for i, op in enumerate(c['ops']):
        what = 'step %d (%s)' % (i, op[0])
        before = snap(s)
        allowed = set()
        if op[0] == 'place':
            for k, v in op[1]:
                call(setattr, s, 'timezone' if k == 'tz' else k, v)
                m.place[k] = v
            allowed = {'place', 'sun'}
            changes += 1
        elif op[0] == 'data':
            df = stations.record_frame(op[1]['rec'], gens.calendar(op[1]['d']))
            user.append((df, frame_state(df)))
            call(setattr, s, 'data_daily', df)
            m.df, m.temp = df.copy(), None
            require(np.isnan(values(s.data_disagg)).all(), '%s: results of the previous record remain', what)
            allowed = {'daily', 'disagg', 'sun'}
            changes += 1
        elif op[0] == 'stats':
            # the object may come from somewhere else
            ss = call(melodist.StationStatistics, **(dict(lon=-100.0, lat=-35.0, timezone=-7) if op[1] % 2 else {}))
            full = stations.synth_stats(op[1])
            for var, d in full.items():
                getattr(ss, var).update(d)
            call(setattr, s, 'statistics', ss)
            m.stats = copy.deepcopy(full)
            m.obs = None
            allowed = {'stats', 'obs'}
            changes += 1
        elif op[0] == 'observe':
            obs = observations(op[1], op[2])
            user.append((obs, frame_state(obs)))
            call(setattr, s.statistics, 'data', obs)
            m.obs = obs.copy()
            allowed = {'obs'}
        elif op[0] == 'calibrate':
            var = op[1]
            if m.obs is None or not m.located():
                continue
            # radiation models only if the records overlap (otherwise there is nothing to fit)
            calibrate(s.statistics, var, None, None)
            f = m.fresh_stats()
            getattr(f, KEY[var]).update(copy.deepcopy(m.stats.get(KEY[var], {})))
            calibrate(f, var, None, None)
            allowed = {'stats.' + KEY[var]}
            live, new = s.statistics, f
            require(stats_state(live)[KEY[var]] == stats_state(new)[KEY[var]], '%s: calibrating %s gives something else than for a fresh station', what, var)
            m.stats[KEY[var]] = copy.deepcopy({k: getattr(new, KEY[var])[k] for k in getattr(new, KEY[var])})
            ev.label('calibrated')
            changes += 1
        elif op[0] == 'copy':
            twin = call(copy.deepcopy, s)
            require(diff(before, snap(twin)) == [], '%s: the copy differs in %s', what, diff(before, snap(twin)))
            third = call(copy.deepcopy, s)
            deface(third)
            require(diff(before, snap(s)) == [], '%s: writing into a copy changes %s of the original', what, diff(before, snap(s)))
            old = twin
            if op[1]:
                s, old = twin, s
            others.append((old, snap(old), what))
            ev.label('copied')
        elif op[0] == 'touch':
            # what users do to their own frames is their business
            for k, (df, _) in enumerate(user):
                if len(df):
                    df.iloc[:, :] = df.values + 1.0
                    df.iloc[0, 0] = -1.0
                    user[k] = (df, frame_state(df))
            ev.label('touched')
        elif op[0] == 'disagg':
            if m.df is None or not m.located() or not m.stats:
                continue
            var, kw = OPS[op[1]]
            full = pd.date_range(m.df.index[0], m.df.index[-1], freq='D')
            master = stations.master_record(op[2], full) if kw.get('method') == 'masterstation' else None
            if var == 'radiation' and op[2] % 3 == 0:  # potential radiation of the user
                master = stations.own_pot_rad(op[2], full)
                ev.label('own_pot_rad')
            keep = None if master is None else master.copy()
            if master is not None:
                kw = dict(kw, **{'pot_rad' if var == 'radiation' else 'master_precip': master})
            f = m.fresh()
            out = []
            for obj in (f, s):
                np.random.seed(op[2])
                try:
                    getattr(obj, 'disaggregate_' + var)(**kw)
                    out.append(values(obj.data_disagg[stations.RESULT[var]]).copy())
                except Exception as e:  # noqa: BLE001  e.g. statistics that do not cover the month
                    out.append(e)
            name = stations.op_name(OPS[op[1]])
            if isinstance(out[0], Exception):
                require(isinstance(out[1], Exception), '%s: %s works although it fails for a fresh station (%r)', what, name, out[0])
                ev.label('rejected')
            else:
                require(not isinstance(out[1], Exception), '%s: %s fails with %r, a fresh station works', what, name, out[1])
                if repeatable(kw.get('method')):
                    close(out[1], out[0], '%s: %s compared with a fresh station' % (what, name), rtol=1e-9, atol=1e-9, labels=s.data_disagg.index)
                results += 1
                if changes and done:
                    ev.nontrivial()
                done += 1
                ev.label(name)
            if keep is not None:
                require(frame_state(master) == frame_state(keep), '%s: %s changed the record handed in', what, name)
                shown = snap(s)
                master.iloc[:] = -7.0
                require(diff(shown, snap(s)) == [], '%s: changing the record handed in changes %s', what, diff(shown, snap(s)))
            allowed = {'disagg.' + stations.RESULT[var]}
            if var == 'temperature' and not isinstance(out[1], Exception):
                m.temp = s.data_disagg.temp.copy()
        after = snap(s)
        bad = []
        for k in before:
            if k in allowed or before[k] == after[k]:
                continue
            if isinstance(before[k], dict):
                bad += ['%s.%s' % (k, q) for q in sorted(set(before[k]) | set(after[k]))
                        if before[k].get(q) != after[k].get(q) and '%s.%s' % (k, q) not in allowed]
            else:
                bad.append(k)
        require(not bad, '%s %s: changed %s', what, op[1:] if op[0] != 'disagg' else OPS[op[1]], ', '.join(bad))
        check_station(s, m, what)
        for df, st_ in user:
            require(frame_state(df) == st_, '%s: changed a data frame handed in by the user', what)
        for o, st_, since in others:
            d = diff(st_, snap(o))
            require(not d, '%s: changed %s of another station (there since %s)', what, ', '.join(d), since)
    ev.label('results%d' % min(results, 5))


# --- calibrating once more and other stations ----------------------------------------------------

@st.composite
def again_case(draw):
    return dict(seeds=draw(st.lists(gens.SEEDS, min_size=2, max_size=2, unique=True)), days=draw(st.lists(st.integers(12, 45), min_size=2, max_size=2)),
                place=draw(gens.places(-55, 55, slack=10)), vars=draw(st.lists(st.sampled_from(CALIB), min_size=1, max_size=3, unique=True)), rad=draw(st.booleans()))


@sub('recalibration', again_case(), quick=60, rule='the two calibrations differ')
def recalibration(c, ev):
    """Calibrating on other observations gives what a fresh object gives, and no other object notices."""
    p = c['place']
    todo = c['vars'] + (['radiation'] if c['rad'] and 'radiation' not in c['vars'] else [])
    fresh = lambda obs=None: call(melodist.StationStatistics, data=obs, lon=p['lon'], lat=p['lat'], timezone=p['tz'])

    def load(ss, obs):
        daily = pd.DataFrame(dict(tmin=obs.temp.resample('D').min(), tmax=obs.temp.resample('D').max()))
        table = sun.sun_table(daily.index, p['lon'], p['lat'], p['tz'])
        daily['ssd'] = (table.daylength * np.random.RandomState(c['seeds'][0]).uniform(0.1, 0.9, len(daily))).values
        for var in todo:
            calibrate(ss, var, daily, table.daylength)

    obs = [observations(s, n) for s, n in zip(c['seeds'], c['days'])]
    other, empty = fresh(), stats_state(fresh())
    one, two = fresh(obs[0]), fresh(obs[1])
    load(one, obs[0])
    first = stats_state(one)
    require(stats_state(other) == empty, 'calibrating one object changes another one')
    require(stats_state(call(melodist.Station).statistics) == empty, 'calibrating one object changes what new stations begin with')
    call(setattr, one, 'data', obs[1])
    load(one, obs[1])
    load(two, obs[1])
    for var in todo:
        k = KEY[var]
        require(stats_state(one)[k] == stats_state(two)[k], '%s: calibrating once more gives something else than for a fresh object', var)
    ev.label(*todo)
    ev.nontrivial(first != stats_state(one))


# --- order of independent requests ---------------------------------------------------------------

@st.composite
def order_case(draw):
    d = draw(gens.days_spec(lo=2, small=6, mid=20, gaps=True))
    return dict(d=d, rec=draw(stations.record(gens.n_days(d), nan=0.2)), place=draw(gens.places(-62, 62, slack=15)), seed=draw(gens.SEEDS),
                first=draw(st.integers(0, len(stations.TEMP_OPS) - 1)), ops=[draw(st.integers(0, len(g) - 1)) for g in
                                                                           (stations.HUM_OPS, stations.WIND_OPS, stations.RAIN_OPS, stations.RAD_OPS)],
                perm=draw(st.permutations(list(range(4)))), repeat=draw(st.booleans()))


@sub('order', order_case(), quick=500, rule='the variables are disaggregated in another order')
def order(c, ev):
    df = stations.record_frame(c['rec'], gens.calendar(c['d']))
    full = gens.calendar(c['d'], full=True)
    master = stations.master_record(c['seed'], full)
    ops = [g[k] for g, k in zip((stations.HUM_OPS, stations.WIND_OPS, stations.RAIN_OPS, stations.RAD_OPS), c['ops'])]
    out = []
    for perm in (range(4), c['perm']):
        s = stations.station(df.copy(), c['place'], c['seed'])
        stations.run_op(s, stations.TEMP_OPS[c['first']], master)
        for k in perm:
            for _ in range(2 if c['repeat'] and out else 1):
                stations.run_op(s, ops[k], master)
        out.append(values(s.data_disagg[sorted(s.data_disagg.columns)]).copy())
    close(out[1], out[0], 'all variables, disaggregated in the order %s' % c['perm'], rtol=1e-12, atol=1e-12)
    ev.nontrivial(list(c['perm']) != [0, 1, 2, 3])


# --- functions leave what they are given alone -----------------------------------------------------

@st.composite
def inputs_case(draw):
    d = draw(gens.days_spec(lo=2, small=6, mid=14, gaps=True))
    return dict(d=d, rec=draw(stations.record(gens.n_days(d), nan=0.3)), place=draw(gens.places(-62, 62, slack=15)), seed=draw(gens.SEEDS),
                obs=draw(st.integers(5, 40)))


def thaw(x):
    """Snapshot of an argument."""
    if isinstance(x, dict):
        return tuple((k, thaw(v)) for k, v in sorted(x.items()))
    return state_of(x)


def requests(c, full, hours, df, obs, stats, master, pot, table, temp, p):
    """Every public function with its arguments; all of them user objects."""
    T, H, W, G = stats['temp'], stats['hum'], stats['wind'], stats['glob']
    for m in ('sine_min_max', 'sine', 'sine_mean', 'mean_course_min_max', 'mean_course_mean'):
        for t in ('fix', 'sun_loc', 'sun_loc_shift'):
            yield melodist.disaggregate_temperature, (df,), dict(method=m, min_max_time=t, max_delta=T['max_delta'], mean_course=T['mean_course'],
                                                                 sun_times=table, mod_nighttime=bool(c['seed'] % 2))
    for m in ('equal', 'minimal', 'dewpoint_regression', 'linear_dewpoint_variation', 'min_max', 'month_hour_precip_mean'):
        for keep in (False, True):
            yield melodist.disaggregate_humidity, (df,), dict(method=m, temp=temp, preserve_daily_mean=keep, **H)
    for m in ('equal', 'cosine', 'random'):
        yield melodist.disaggregate_wind, (df.wind,), dict(method=m, **W)
    for m in ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course'):
        yield melodist.disaggregate_radiation, (df,), dict(sun_times=table, pot_rad=pot, method=m, mean_course=G['mean_course'], angstr_a=G['angstroem'].a,
                                                           angstr_b=G['angstroem'].b, bristcamp_a=G['bristcamp'].a, bristcamp_c=G['bristcamp'].c)
    yield melodist.disagg_prec, (df.precip,), dict(method='equal')
    yield melodist.disagg_prec, (df.precip,), dict(method='cascade', cascade_options=stats['precip']['stats'][0])
    for z in ('uniform', 'zero'):
        yield melodist.precip_master_station, (df.precip, master, z), {}
    yield melodist.potential_radiation, (hours, p['lon'], p['lat'], p['tz']), {}
    yield melodist.util.get_sun_times, (full, p['lon'], p['lat'], p['tz']), {}
    yield melodist.distribute_equally, (df.precip,), dict(divide=True)
    yield melodist.distribute_equally, (df.wind,), {}
    yield melodist.build_casc, (obs,), dict(months=[np.arange(12) + 1])
    yield melodist.calculate_dewpoint_regression, (obs,), {}
    yield melodist.calculate_month_hour_precip_mean, (obs,), {}
    yield melodist.fit_cosine_function, (obs.wind,), {}
    yield melodist.get_shift_by_data, (obs.temp, p['lon'], p['lat'], p['tz']), {}
    yield melodist.util.calculate_mean_daily_course_by_month, (obs.temp,), dict(normalize=True)
    yield melodist.util.calculate_mean_daily_course_by_month, (obs.glob,), {}
    yield melodist.util.daily_from_hourly, (obs,), {}
    yield melodist.util.vapor_pressure, (obs.temp, obs.hum), {}
    yield melodist.util.dewpoint_temperature, (obs.temp, obs.hum), {}
    yield melodist.util.drop_incomplete_days, (obs,), dict(shift=c['seed'] % 24)
    yield melodist.util.detect_gaps, (obs, 3600), dict(verbose=False)
    yield melodist.seasonal_subset, (obs.precip.to_frame(),), dict(months=[1 + c['seed'] % 12])


@sub('inputs', inputs_case(), quick=150, rule='the record has missing values or absent days')
def inputs(c, ev):
    p = c['place']
    idx = gens.calendar(c['d'])
    full = gens.calendar(c['d'], full=True)
    df = stations.record_frame(c['rec'], idx)
    df.index.name = 'day'
    hours = hours_of(idx)
    r = np.random.RandomState(c['seed'])
    temp = pd.Series(np.round(r.uniform(262, 295, len(hours)), 2), hours)
    obs = observations(c['seed'], c['obs'])
    obs.iloc[r.randint(len(obs)), r.randint(obs.shape[1])] = np.nan
    obs.index.name = 'time'
    stats = stations.synth_stats(c['seed'])
    master = stations.master_record(c['seed'], idx)
    pot = stations.own_pot_rad(c['seed'], idx)
    table = sun.sun_table(idx, p['lon'], p['lat'], p['tz'])
    given = dict(df=df, obs=obs, master=master, pot=pot, table=table, temp=temp, stats=stats)
    shown = {k: thaw(v) for k, v in given.items()}
    for f, a, kw in requests(c, full, hours, df, obs, stats, master, pot, table, temp, p):
        with np.errstate(all='ignore'):
            np.random.seed(c['seed'])
            one = thaw(call(f, *a, **kw))
            bad = [k for k, v in given.items() if thaw(v) != shown[k]]
            require(not bad, '%s(%s) changed its input (%s)', f.__name__, kw.get('method', ''), ', '.join(bad))
            np.random.seed(c['seed'])
            res = call(f, *a, **kw)
            require(thaw(res) == one or not repeatable(kw.get('method')), '%s(%s) gives something else when repeated', f.__name__, kw.get('method', ''))
    ev.nontrivial(bool(c['d']['absent']) or bool(c['rec']['nan']))
