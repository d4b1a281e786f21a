"""C18: KNMI and DWD files are read completely and in the right units."""
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gens
from harness import call, close, melodist, require, same_index, scratch, sub, values

KNMI = ['DD', 'FH', 'FF', 'FX', 'T', 'T10N', 'TD', 'SQ', 'Q', 'DR', 'RH', 'P', 'VV', 'N', 'U', 'WW', 'IX', 'M', 'R', 'S', 'O', 'Y']
RANGE = dict(FH=(0, 250), T=(-250, 380), SQ=(-1, 10), Q=(0, 330), RH=(-1, 200), U=(0, 100))


@st.composite
def knmi_file(draw, start, n):
    v = {}
    for k, (lo, hi) in RANGE.items():
        if n <= 8:
            el = st.integers(lo, hi)
            if k == 'RH':
                el = st.one_of(el, st.just(-1))
            v[k] = draw(st.lists(st.one_of(el, el, el, st.none()), min_size=n, max_size=n))
        else:
            v[k] = dict(s=draw(gens.SEEDS), blank=draw(st.sampled_from([0.0, 0.1, 0.5, 1.0])))
    return dict(start=start, n=n, v=v, pad=draw(st.sampled_from([0, 5])), end=draw(st.booleans()), extra=draw(gens.SEEDS),
                first=draw(st.one_of(st.just(0), st.integers(0, 23))), hole=draw(st.sampled_from([0, 0, 1, 5, 30])), nl=draw(st.sampled_from(['\n', '\n', '\r\n'])))


def knmi_values(f):
    out = {}
    for k, (lo, hi) in RANGE.items():
        v = f['v'][k]
        if isinstance(v, dict):
            r = np.random.RandomState(v['s'])
            x = r.randint(lo, hi + 1, f['n']).astype(float)
            if k == 'RH':
                x[r.uniform(size=f['n']) < 0.2] = -1
            x[r.uniform(size=f['n']) < v['blank']] = np.nan
        else:
            x = np.array([np.nan if q is None else q for q in v], dtype=float)
        out[k] = x
    return out


def knmi_times(f):
    # record i is hour (i % 24) + 1 of its date; some files start later or lack records in the middle
    start = pd.Timestamp(f['start'])
    i = np.arange(f['n'])
    i = i + f['first'] + f['hole'] * (i >= f['n'] // 2)
    dates = start + pd.to_timedelta(i // 24, unit='D')
    hh = i % 24 + 1
    return dates, hh, pd.DatetimeIndex(dates + pd.to_timedelta(hh, unit='h'))


def knmi_text(f, station=260):
    vals = knmi_values(f)
    dates, hh, _ = knmi_times(f)
    r = np.random.RandomState(f['extra'])
    lines = ['# comment line %d, with, commas' % i for i in range(31)]
    lines.append('# STN,YYYYMMDD,   HH,' + ','.join('%5s' % k for k in KNMI))
    for i in range(f['n']):
        row = []
        for k in KNMI:
            x = vals[k][i] if k in vals else (np.nan if r.randint(3) == 0 else float(r.randint(0, 99)))
            t = '' if np.isnan(x) else '%d' % x
            row.append(t.rjust(f['pad']))
        lines.append('%5d,%s,%5d,' % (station, dates[i].strftime('%Y%m%d'), hh[i]) + ','.join(row))
    return '\n'.join(lines) + ('\n' if f['end'] else '')


def knmi_expected(f):
    v = knmi_values(f)
    rh = np.where(v['RH'] < 0, 0.0, v['RH'] / 10)
    return dict(temp=v['T'] / 10 + 273.15, precip=rh, glob=v['Q'] * 10000 / 3600, hum=v['U'], wind=v['FH'] / 10, ssd=np.where(v['SQ'] < 0, 0.0, v['SQ'] * 6))


@st.composite
def knmi_case(draw):
    n = draw(st.one_of(st.integers(1, 8), st.integers(20, 200)))
    return dict(f=draw(knmi_file(draw(gens.starts()), n)))


@sub('knmi_file', knmi_case(), quick=1200, rule='a blank field or a trace of rain, and more than one record')
def knmi_file_check(c, ev):
    f = c['f']
    with scratch() as d:
        p = os.path.join(d, 'uurgeg.txt')
        with open(p, 'w', newline=f['nl']) as h:
            h.write(knmi_text(f))
        got = call(melodist.data_io.read_single_knmi_file, p)
    same_index(got, knmi_times(f)[2], 'records')
    exp = knmi_expected(f)
    require(set(exp) <= set(got.columns), 'columns %s', list(got.columns))
    for k, e in exp.items():
        close(values(got[k]), e, k, rtol=1e-9, atol=1e-9, labels=got.index)
    v = knmi_values(f)
    blank = any(np.isnan(x).any() for x in v.values())
    trace = bool((v['RH'] == -1).any())
    ev.label(*(['blank'] if blank else []), *(['trace'] if trace else []), *(['hour24'] if f['n'] >= 24 else []))
    ev.nontrivial((blank or trace) and f['n'] > 1)


@st.composite
def knmi_dir_case(draw):
    k = draw(st.integers(1, 4))
    names = ['a.txt', 'B.txt', 'uurgeg_260_2001-2010.txt', '1.txt']
    years = draw(st.permutations([1991, 2001, 2004, 2011]))[:k]
    most = 60
    if draw(st.integers(0, 11)) == 11:  # a file per year
        years = draw(st.permutations(range(1980, 1980 + draw(st.integers(10, 24)))))
        names, most = ['uurgeg_%d.txt' % i for i in range(len(years))], 3
    files = []
    for y in years:
        files.append(draw(knmi_file('%d-%02d-01' % (y, draw(st.integers(1, 12))), draw(st.integers(1, most)))))
    return dict(files=files, slash=draw(st.booleans()), names=draw(st.permutations(names)),
                other=draw(st.booleans()), space=draw(st.booleans()))


@sub('knmi_directory', knmi_dir_case(), quick=500, rule='two or more files')
def knmi_directory(c, ev):
    with scratch() as d:
        d = os.path.join(d, 'station 260' if c['space'] else 's260')
        os.mkdir(d)
        for name, f in zip(c['names'], c['files']):
            with open(os.path.join(d, name), 'w', newline=f['nl']) as h:
                h.write(knmi_text(f))
        if c['other']:
            with open(os.path.join(d, 'readme.md'), 'w') as h:
                h.write('not a data file\n')
        got = call(melodist.data_io.read_knmi_dataset, d + os.sep if c['slash'] else d)
    rows = {}
    for f in c['files']:
        e = knmi_expected(f)
        for i, ts in enumerate(knmi_times(f)[2]):
            rows[ts] = [e[k][i] for k in sorted(e)]
    require(len(got) == len(rows), '%d records read, %d written', len(got), len(rows))
    require(set(got.index) == set(rows), 'time stamps differ')
    srt = got.sort_index()
    close(values(srt[sorted(e)]), np.array([rows[t] for t in sorted(rows)]), 'records of the directory', labels=srt.index)
    ev.label('files%d' % len(c['files']) if len(c['files']) < 5 else 'many_files', 'slash' if c['slash'] else 'no_slash')
    ev.nontrivial(len(c['files']) >= 2)


DWD = {'LUFTTEMPERATUR': 'tmean', 'LUFTTEMPERATUR_MINIMUM': 'tmin', 'LUFTTEMPERATUR_MAXIMUM': 'tmax', 'NIEDERSCHLAGSHOEHE': 'precip',
       'GLOBAL_KW_J': 'glob', 'REL_FEUCHTE': 'hum', 'WINDGESCHWINDIGKEIT': 'wind', 'SONNENSCHEINDAUER': 'sun_h'}
UNKNOWN = ['QUALITAETS_NIVEAU', 'DAMPFDRUCK', 'SCHNEEHOEHE', 'STRUKTUR_VERSION']


@st.composite
def dwd_file(draw, mode, cols, start, n):
    cols = list(cols) + draw(st.lists(st.sampled_from(UNKNOWN), max_size=2, unique=True))
    cols = draw(st.permutations(cols))
    v = {}
    for k in cols:
        if n <= 8:
            el = st.one_of(st.floats(-60, 900).map(lambda x: round(x, 1)), st.integers(-50, 900).map(float))
            v[k] = draw(st.lists(st.one_of(el, el, st.none()), min_size=n, max_size=n))
        else:
            v[k] = draw(gens.spec(n, -60, 900, nan=0.6, dec=1))
    return dict(mode=mode, cols=list(cols), start=start, n=n, v=v, pad=draw(st.sampled_from([0, 7])), nl=draw(st.sampled_from(['\n', '\n', '\r\n'])), end=draw(st.booleans()), blanks=draw(st.booleans()),
                skip=draw(st.sets(st.integers(1, max(1, n - 1)), max_size=3).map(sorted)))


def dwd_frame(f):
    idx = pd.date_range(f['start'], periods=f['n'], freq='D' if f['mode'] == 'd' else 'h')
    df = pd.DataFrame({k: gens.mat(f['v'][k] if isinstance(f['v'][k], dict) else dict(v=f['v'][k]), f['n']) for k in f['cols']}, index=idx, columns=f['cols'])
    keep = [i for i in range(f['n']) if i not in f['skip'] or i in (0, f['n'] - 1)]
    return df.iloc[keep]


def dwd_text(f, trailer):
    df = dwd_frame(f)
    sp = ' ' if f['blanks'] else ''
    lines = ['STATIONS_ID; MESS_DATUM;' + ';'.join(sp + k for k in f['cols']) + ';eor']
    for ts, row in zip(df.index, df.values):
        t = ts.strftime('%Y%m%d' if f['mode'] == 'd' else '%Y%m%d%H')
        cells = [('-999' if np.isnan(x) else '%.1f' % x).rjust(f['pad']) for x in row]
        lines.append('%s;%s;' % ('44'.rjust(f['pad']), t) + ';'.join(cells) + ';eor')
    if trailer:
        lines.append('generiert: 10.03.2015 --  Deutscher Wetterdienst  --')
    return '\n'.join(lines) + ('\n' if f['end'] else '')


def dwd_expected(f):
    df = dwd_frame(f)[[k for k in f['cols'] if k in DWD]].rename(columns=DWD)
    for k in ('tmean', 'tmin', 'tmax'):
        if k in df:
            df[k] = df[k] + 273.15
    return df


META = ('Stations_id; Stationshoehe; Geogr.Breite; Geogr.Laenge; von_datum; bis_datum; Stationsname\n'
        '44; 44; 52.90; 8.20; 19690101; 19800101; Altenstadt\n44; 44; 52.93; 8.24; 19800101; 20141231; Neustadt\n')


@st.composite
def dwd_case(draw):
    mode = draw(st.sampled_from(['d', 'h']))
    k = draw(st.sampled_from([1, 1, 2, 3]))
    names = draw(st.permutations(sorted(DWD)))
    start = draw(gens.starts())
    files = []
    at = 0
    for i in range(k):
        m = draw(st.integers(1, 8 // k))
        n = draw(st.one_of(st.integers(1, 8), st.integers(20, 120)))
        shift = draw(st.integers(0, 10)) if i else 0
        begin = pd.Timestamp(start) + pd.Timedelta(days=shift) if mode == 'd' else pd.Timestamp(start) + pd.Timedelta(hours=shift * 3)
        files.append(draw(dwd_file(mode, names[at:at + m], str(begin), n)))
        at += m
    return dict(mode=mode, files=files, trailer=draw(st.booleans()), aslist=draw(st.booleans()), default=draw(st.booleans()))


@sub('dwd', dwd_case(), quick=1200, rule='missing values, or several files')
def dwd(c, ev):
    with scratch() as d:
        meta = os.path.join(d, 'meta.txt')
        with open(meta, 'w') as h:
            h.write(META)
        paths = []
        for i, f in enumerate(c['files']):
            paths.append(os.path.join(d, 'produkt_%d.txt' % i))
            with open(paths[-1], 'w', newline=f['nl']) as h:
                h.write(dwd_text(f, c['trailer']))
        kw = {}
        if not (c['default'] and c['mode'] == 'd'):
            kw['mode'] = c['mode']
        if not (c['default'] and c['trailer']):
            kw['skip_last'] = c['trailer']
        arg = paths if len(paths) > 1 or c['aslist'] else paths[0]
        header, got = call(melodist.data_io.read_dwd, arg, meta, **kw)
    exp = pd.concat([dwd_expected(f) for f in c['files']], axis=1).sort_index()
    if len(c['files']) > 1:
        got = got.sort_index()
    same_index(got, exp.index, 'records')
    require(sorted(got.columns) == sorted(exp.columns), 'columns %s, expected %s', sorted(got.columns), sorted(exp.columns))
    for k in exp.columns:
        close(values(got[k]), exp[k].values, k, rtol=1e-9, atol=1e-6, labels=got.index)
    require(int(header['Stations_id']) == 44, 'station number %r', header['Stations_id'])
    ev.label(c['mode'], 'files%d' % len(c['files']), 'trailer' if c['trailer'] else 'no_trailer')
    ev.nontrivial(len(c['files']) > 1 or exp.isnull().any(axis=None))
