"""Generators. A case is a JSON-able dict; small cases list their values explicitly (so that they
shrink value by value), larger ones carry a seed and a recipe from which the values are built."""
import datetime
import zlib

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import harness  # noqa: F401  (puts hypothesis on the path)

SEEDS = st.integers(0, 2**31 - 1)

# starting dates: anywhere in 1950..2090, biased to the ends of months and years and leap days
_ANCHORS = [
    (2003, 1, 1), (2004, 2, 28), (2004, 2, 29), (2003, 2, 28), (2000, 2, 27), (2100 - 12, 2, 28),
    (2003, 12, 31), (2004, 12, 30), (2001, 6, 30), (1999, 12, 15), (1969, 12, 30), (2010, 3, 31),
    (2011, 5, 31), (2008, 1, 31), (1970, 1, 1), (2016, 10, 29), (2016, 3, 26),
]


def starts():
    return st.one_of(
        st.sampled_from(_ANCHORS).map(lambda t: datetime.date(*t)),
        st.dates(datetime.date(1950, 1, 1), datetime.date(2090, 12, 31)),
    ).map(str)


def lengths(small=8, mid=70, big=0, lo=1):
    """Record lengths in days: mostly short, some spanning months, some spanning years."""
    alts = [st.integers(lo, small), st.integers(lo, small), st.integers(lo, max(mid, lo))]
    if big:
        alts.append(st.integers(max(300, lo), big))
    return st.one_of(*alts)


@st.composite
def seldom(draw, value, every=12, otherwise=0):
    """A value for one case in `every`."""
    return value if draw(st.integers(1, every)) == every else otherwise


@st.composite
def spec(draw, n, lo, hi, nan=0.3, special=(), dec=2, explicit=8):
    """Recipe for n numbers in lo..hi. nan: probability that a series has missing values at all."""
    lo, hi = float(lo), float(hi)
    has_nan = draw(st.integers(0, 99)) >= 100 - int(nan * 100) if nan else False
    if n <= explicit:
        el = st.floats(lo, hi, allow_nan=False).map(lambda v: round(v, dec))
        el = el.filter(lambda v: lo <= v <= hi)
        if special:
            el = st.one_of(el, st.sampled_from([float(x) for x in special]))
        if has_nan:
            el = st.one_of(el, el, st.none())
        return dict(v=draw(st.lists(el, min_size=n, max_size=n)))
    return dict(
        s=draw(SEEDS), lo=lo, hi=hi, dec=dec,
        nan=draw(st.sampled_from([0.02, 0.15, 0.5])) if has_nan else 0.0,
        sp=[float(x) for x in special],
        psp=draw(st.sampled_from([0.0, 0.1, 0.5, 0.9])) if special else 0.0,
    )


def mat(sp, n):
    """The numbers a recipe stands for."""
    if 'v' in sp:
        v = np.array([np.nan if x is None else x for x in sp['v']], dtype=float)
        assert len(v) == n, (len(v), n)
        return v
    r = np.random.RandomState(sp['s'])
    v = np.round(r.uniform(sp['lo'], sp['hi'], n), sp['dec']).clip(sp['lo'], sp['hi'])
    if sp['psp']:
        pick = r.uniform(size=n) < sp['psp']
        v = np.where(pick, np.array(sp['sp'])[r.randint(0, len(sp['sp']), n)], v)
    if sp['nan']:
        v = np.where(r.uniform(size=n) < sp['nan'], np.nan, v)
    return v


@st.composite
def precip_spec(draw, n, nan=0.4, explicit=8):
    """Daily rain totals: dry spells, tiny, ordinary and extreme totals, ties, missing."""
    hi = draw(st.sampled_from([0.5, 5.0, 40.0, 40.0, 500.0]))
    return draw(spec(n, 0, hi, nan=nan, dec=draw(st.sampled_from([1, 1, 2, 4, 9])), explicit=explicit,
                     special=[0.0, 0.0, 0.0, 0.0, 0.1, 1.0, 10.0, 1e-3, 1000.0]))


@st.composite
def days_spec(draw, lo=1, small=8, mid=70, big=0, gaps=False, start=None):
    """Calendar of a daily record: start, number of calendar days, days left out."""
    n = draw(lengths(small=small, mid=mid, big=big, lo=lo))
    absent = []
    if gaps and n > 2 and draw(st.integers(0, 9)) >= 5:
        # first and last day stay, so that n keeps its meaning
        if n <= 12:
            absent = sorted(draw(st.sets(st.integers(1, n - 2), max_size=max(0, n - max(lo, 2)))))
        else:
            r = np.random.RandomState(draw(SEEDS))
            p = draw(st.sampled_from([0.05, 0.3, 0.8]))
            absent = [int(i) for i in range(1, n - 1) if r.uniform() < p]
            if draw(st.booleans()):  # a long run, spanning a month
                a = r.randint(1, n - 1)
                absent = sorted(set(absent) | set(range(int(a), int(min(n - 1, a + r.randint(1, 45))))))
            absent = absent[:max(0, n - max(lo, 2))]
    return dict(start=start or draw(starts()), n=n, absent=absent,
                freq=draw(st.booleans()), unit=draw(st.sampled_from(['us', 'us', 'ns'])))


def calendar(d, full=False):
    """DatetimeIndex of a days_spec."""
    idx = pd.date_range(d['start'], periods=d['n'], freq='D')
    if d['absent'] and not full:
        keep = np.ones(d['n'], bool)
        keep[d['absent']] = False
        idx = pd.DatetimeIndex(idx[keep].values)
    elif not d['freq'] and not full:
        idx = pd.DatetimeIndex(idx.values)
    return idx.as_unit(d.get('unit', 'us'))


def n_days(d):
    return d['n'] - len(d['absent'])


# --- places -----------------------------------------------------------------------------------

@st.composite
def places(draw, lat_lo=-90.0, lat_hi=90.0, tz_match=True, slack=22.0):
    """Longitude, latitude and (possibly fractional) time zone near the zone's meridian."""
    lat = draw(st.one_of(
        st.floats(lat_lo, lat_hi).map(lambda v: round(v, 2)),
        st.sampled_from([x for x in (0.0, 23.44, -23.44, 46.8, -33.9, 59.9, 66.6, -66.6, 78.2, 90.0,
                                     -90.0, 51.97, -45.0) if lat_lo <= x <= lat_hi] or [lat_lo])))
    lat = min(max(lat, lat_lo), lat_hi)
    tz = draw(st.sampled_from([0, 1, 1, -5, -8, 9, 12, -11, 5.5, -3.5, 5.75, 2]))
    if tz_match:
        off = draw(st.one_of(st.floats(-7.5, 7.5), st.floats(-slack, slack)).map(lambda v: round(v, 2)))
        lon = round(tz * 15 + off, 2)
    else:
        lon = draw(st.floats(-180, 180).map(lambda v: round(v, 2)))
    return dict(lon=lon, lat=lat, tz=tz)


# --- daily temperature ------------------------------------------------------------------------

@st.composite
def temp_specs(draw, n, nan=0.0, explicit=8, dtr_zero=True):
    """Minimum temperature, diurnal range and position of the mean between the extremes."""
    base = draw(st.sampled_from([215.0, 250.0, 268.0, 273.0, 285.0, 300.0]))
    return dict(
        tmin=draw(spec(n, base, base + 20, nan=nan, dec=2, special=[273.15], explicit=explicit)),
        dtr=draw(spec(n, 0.5, 25, nan=nan, dec=2, special=[0.0, 10.0, 38.0] if dtr_zero else [10.0, 38.0],
                      explicit=explicit)),
        frac=draw(spec(n, 0.2, 0.8, nan=nan / 2, dec=3, explicit=explicit)),
    )


def temp_columns(t, n):
    """tmin, tmax, temp of temp_specs."""
    tmin = mat(t['tmin'], n)
    dtr = mat(t['dtr'], n)
    frac = mat(t['frac'], n)
    return dict(tmin=tmin, tmax=tmin + dtr, temp=tmin + frac * dtr)


def plain_frame(idx, **cols):
    return pd.DataFrame({k: np.asarray(v) for k, v in cols.items()}, index=idx)


def frame(idx, **cols):
    """Data frame as a user may have it: columns in any order, whole numbers as integers."""
    r = np.random.RandomState(zlib.crc32(b''.join(np.asarray(v, dtype=float).tobytes() for v in cols.values())))
    out = {}
    for k in r.permutation(sorted(cols)):
        v = np.asarray(cols[k])
        whole = len(v) and np.isfinite(v).all() and (v == np.round(v)).all()
        out[str(k)] = v.astype(int) if whole and r.uniform() < 0.5 else v
    return pd.DataFrame(out, index=idx)


# --- hourly records ----------------------------------------------------------------------------

def hourly_range(start, n_hours):
    idx = pd.date_range(start, periods=n_hours, freq='h')
    return idx.as_unit(['us', 'us', 'ns'][(idx[0].day + idx[0].month) % 3] if n_hours else 'us')
