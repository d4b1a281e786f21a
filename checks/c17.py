"""C17: SMET files round-trip time series and header."""
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gens
from harness import call, close, frame_state, melodist, require, same_index, scratch, sub, values

HOURLY = ['temp', 'precip', 'glob', 'hum', 'wind']
DAILY = ['tmean', 'tmin', 'tmax', 'precip', 'glob', 'hum', 'wind']
OTHER = ['ssd', 'snow_depth', 'P2', 'x']
FOREIGN = dict(h=['tmean', 'tmin', 'tmax'], d=['temp'])  # names with a meaning in the other mode only
NUM = st.one_of(st.floats(-998, 9000).map(lambda v: round(v, 4)), st.integers(-900, 5000).map(float),
                st.sampled_from([0.0, -0.0, 0.005, -0.005, 273.15, 99.995, 0.0075, -0.0099, 1e-7, 12345.678, 1234567.89, -998.99, 999.0]))
WORD = st.text(alphabet='abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-./()[]#;,:', min_size=1, max_size=12)
TEXT = st.lists(st.one_of(WORD, st.just('='), st.just('a=b')), min_size=1, max_size=4).map(' '.join)
KEY = WORD.map(lambda s: 'k_' + s)


@st.composite
def table(draw):
    mode = draw(st.sampled_from(['h', 'd']))
    names = HOURLY if mode == 'h' else DAILY
    cols = draw(st.lists(st.sampled_from(names), min_size=1, max_size=len(names), unique=True))
    cols += draw(st.lists(st.sampled_from(OTHER + FOREIGN[mode]), max_size=2, unique=True))
    if draw(st.booleans()):
        cols = draw(st.permutations(cols))
    n = draw(st.one_of(st.integers(1, 10), st.integers(1, 10), st.integers(11, 200)))
    if n <= 10:
        data = {k: dict(v=draw(st.lists(st.one_of(NUM, NUM, st.none()), min_size=n, max_size=n))) for k in cols}
    else:
        data = {k: draw(gens.spec(n, draw(st.sampled_from([-60, 0, 200])), draw(st.sampled_from([300, 1000])), nan=0.6, dec=draw(st.sampled_from([0, 2, 5])))) for k in cols}
    return dict(mode=mode, cols=list(cols), data=data, n=n, start=draw(gens.starts()), step=draw(st.sampled_from([1, 1, 1, 3])), hour=draw(st.integers(0, 23)),
                minutes=draw(st.sampled_from([0, 0, 30])), empty=draw(st.lists(st.sampled_from(cols), max_size=2)), ints=draw(st.lists(st.sampled_from(cols), max_size=1)),
                lone=draw(st.one_of(st.none(), st.none(), st.none(), st.sampled_from(cols))))


def build(t):
    start = pd.Timestamp(t['start'])
    if t['mode'] == 'h':
        idx = pd.date_range(start + pd.Timedelta(hours=t['hour'], minutes=t['minutes']), periods=t['n'], freq='%dh' % t['step'])
    else:
        idx = pd.date_range(start, periods=t['n'], freq='%dD' % t['step'])
    df = pd.DataFrame({k: gens.mat(t['data'][k], t['n']) for k in t['cols']}, index=idx, columns=t['cols'])
    for k in t['empty']:
        if len(t['cols']) > 1 and k != t['cols'][0]:
            df[k] = np.nan
    if t.get('lone'):  # a column with a single value
        i = int(t['hour'] / 23 * (t['n'] - 1))
        df[t['lone']] = df[t['lone']].where(np.arange(t['n']) == i)
    if t['hour'] % 6 == 5:  # nothing but zeros
        df[t['cols'][-1]] = 0.0
    for k in t['ints']:
        if df[k].notnull().all():
            df[k] = df[k].round().clip(lower=-998).astype(int)
    return df


def odd(df, what, nodata):
    """A value that some other file would use for missing values."""
    if what and what[0] != nodata:
        i, k = what[1] % len(df), df.columns[what[1] % len(df.columns)]
        if df[k].notnull().iloc[i]:
            df[k] = df[k].astype(float).where(np.arange(len(df)) != i, what[0])
    return df


@st.composite
def trip_case(draw):
    return dict(t=draw(table()), check=draw(st.sampled_from([None, True, False])), explicit=draw(st.booleans()),
                nodata=draw(st.sampled_from([None, None, -999, -9999, -7777.0, 99999])), reuse=draw(st.booleans()),
                odd=draw(st.one_of(st.none(), st.tuples(st.sampled_from([-999.0, -1500.25, -99999.0, 99998.5]), gens.SEEDS).map(list))),
                head=draw(st.lists(st.tuples(KEY, st.one_of(TEXT, st.integers(-5, 9000), st.floats(-90, 90).map(lambda v: round(v, 4)))),
                                   max_size=4, unique_by=lambda kv: kv[0]).map(lambda l: [list(x) for x in l])))


@sub('round_trip', trip_case(), quick=3000, rule='two or more columns with values, or missing values')
def round_trip(c, ev):
    df = odd(build(c['t']), c['odd'], -999 if c['nodata'] is None else c['nodata'])
    mode = c['t']['mode']
    dropping = c['check'] is not False
    keep = [k for k in df.columns if df[k].notnull().any() or not dropping]
    if not keep or (c['check'] is False and df.isnull().all(axis=None)):
        return
    head = {k: v for k, v in c['head']}
    given = dict(head)
    if c['reuse']:  # header of a file read before
        given.update(fields='timestamp TA PSUM', units_multiplier='1 10 0.1', units_offset='0 273.15 5', nodata='-6')
    before = frame_state(df)
    kw = {} if mode == 'h' and not c['explicit'] else dict(mode=mode)
    if c['check'] is not None:
        kw['check_nan'] = c['check']
    if c['nodata'] is not None:
        kw['nodata_value'] = c['nodata']
    with scratch() as d:
        f = os.path.join(d, 'x.smet')
        if c['explicit']:  # the file exists already
            with open(f, 'w') as h:
                h.write('SMET 1.1 ASCII\n[HEADER]\nfields = timestamp TA\n[DATA]\n' + '2000-01-01T00:00 1.00\n' * 5000)
        call(melodist.data_io.write_smet, f, df, given, **kw)
        require(frame_state(df) == before, 'the data frame handed in was changed')
        with open(f) as h:
            first = h.readline().split()
        require(first[:1] == ['SMET'] and first[-1:] == ['ASCII'], 'first line of the file is %s', first)
        header, back = call(melodist.data_io.read_smet, f, mode)
    same_index(back, df.index, 'data read')
    require(sorted(back.columns) == sorted(keep), 'columns %s, expected %s', list(back.columns), keep)
    for k in keep:
        e = values(df[k])
        g = values(back[k])
        require((np.isnan(g) == np.isnan(e)).all(), '%s: missing values differ', k)
        bad = np.abs(g - e) > 0.00501
        require(not bad.any(), '%s: %s read, %s written', k, g[bad][:3], e[bad][:3])
    for k, v in head.items():
        require(k in header, 'header entry %r is lost', k)
        require(str(header[k]) == str(v), 'header entry %r is %r, was %r', k, header[k], v)
    ev.label(mode, *(['dropped_column'] if len(keep) < len(df.columns) else []), *(['kept_empty_column'] if not dropping and df[keep].isnull().all().any() else []),
             *(['header'] if head else []), *(['one_record'] if len(df) == 1 else []), *(['nodata'] if c['nodata'] not in (None, -999) else []))
    ev.nontrivial(sum(df[k].notnull().any() for k in df.columns) >= 2 or df.isnull().any(axis=None))


@st.composite
def file_case(draw):
    t = draw(table())
    k = len(t['cols'])
    return dict(t=t, mult=draw(st.one_of(st.lists(st.sampled_from([1.0, 1.0, 0.1, 10.0, 0.5, 100.0, 1.25]), min_size=k, max_size=k), st.none())),
                off=draw(st.one_of(st.none(), st.lists(st.sampled_from([0.0, 0.0, 273.15, -5.0, 100.0]), min_size=k, max_size=k))),
                odd=draw(st.one_of(st.none(), st.tuples(st.sampled_from([-999.0, -1500.25, -99999.0, 99998.5]), gens.SEEDS).map(list))),
                nodata=draw(st.sampled_from([None, None, '-999', '-9999', '-7777.0', '99999'])), space=draw(st.sampled_from(['', ' ', '   '])),
                sep=draw(st.sampled_from([' ', '\t', '    '])), trailing=draw(st.booleans()), nl=draw(st.sampled_from(['\n', '\n', '\r\n'])), extra=draw(st.lists(st.tuples(KEY, TEXT), max_size=3).map(lambda l: [list(x) for x in l])))


SMET = dict(h=dict(temp='TA', precip='PSUM', glob='ISWR', hum='RH', wind='VW'),
            d=dict(tmean='TA', tmin='TMIN', tmax='TMAX', precip='PSUM', glob='ISWR', hum='RH', wind='VW'))


@sub('reading', file_case(), quick=1600, rule='a multiplier other than 1 or an offset other than 0, and at least one value')
def reading(c, ev):
    """Files written by somebody else: multipliers, offsets, nodata value, spacing, additional header entries."""
    df = odd(build(c['t']), c['odd'], float(c['nodata'] or -999))
    mode = c['t']['mode']
    names = [SMET[mode].get(k, k) for k in df.columns]
    fmt = '%Y-%m-%dT%H:%M'
    eq = c['space'] + '=' + c['space']
    lines = ['SMET 1.1 ASCII', '[HEADER]']
    lines += [k + eq + v for k, v in c['extra'][:1]]
    lines += ['fields%stimestamp %s' % (eq, ' '.join(names))]
    mult, off = c['mult'] or [1.0] * len(names), c['off'] or [0.0] * len(names)
    if c['mult']:
        lines += ['units_multiplier%s1 %s' % (eq, ' '.join('%g' % m for m in mult))]
    if c['off']:
        lines += ['units_offset%s0 %s' % (eq, ' '.join('%g' % m for m in off))]
    if c['nodata']:
        lines += ['nodata%s%s' % (eq, c['nodata'])]
    lines += [k + eq + v for k, v in c['extra'][1:]]
    lines.append('[DATA]')
    for ts, row in zip(df.index, df.values.astype(float)):
        lines.append(c['sep'].join([ts.strftime(fmt)] + [(c['nodata'] or '-999') if np.isnan(x) else '%.4f' % x for x in row]))
    with scratch() as d:
        f = os.path.join(d, 'x.smet')
        with open(f, 'w', newline=c['nl']) as h:
            h.write('\n'.join(lines) + ('\n' if c['trailing'] else ''))
        header, back = call(melodist.data_io.read_smet, f, mode)
    same_index(back, df.index, 'data read')
    require(sorted(back.columns) == sorted(df.columns), 'columns %s, expected %s', list(back.columns), list(df.columns))
    for k, m, b in zip(df.columns, mult, off):
        close(values(back[k]), np.round(values(df[k]), 4) * m + b, '%s with multiplier %g and offset %g' % (k, m, b), rtol=1e-9, atol=1e-4 * m)
    last = dict((k, v) for k, v in c['extra'])
    for k, v in last.items():
        require(header.get(k) == v.strip(), 'header entry %r is %r, was %r', k, header.get(k), v)
    ev.label(mode, 'multiplied' if set(mult) != {1.0} else 'plain', *(['offset'] if set(off) != {0.0} else []),
             *(['no_multiplier'] if not c['mult'] else []), *(['nodata'] if c['nodata'] not in (None, '-999') else []))
    ev.nontrivial((set(mult) != {1.0} or set(off) != {0.0}) and df.notnull().any(axis=None))
