"""Snapshots of stations and statistics; observations to calibrate on."""
import numpy as np
import pandas as pd

from harness import frame_state, values


def casc_state(c):
    if isinstance(c, list):
        return tuple(casc_state(x) for x in c)
    return tuple(np.asarray(getattr(c, k), dtype=float).tobytes() for k in ('p01', 'p10', 'pxx', 'wxx', 'threshold')) + (c.percentile,)


def state_of(x):
    if x is None or isinstance(x, (int, float, str)):
        return repr(x)
    if isinstance(x, pd.Series) and isinstance(x.index, pd.MultiIndex):
        return tuple(map(str, x.index)), values(x).tobytes()
    if isinstance(x, (pd.Series, pd.DataFrame)):
        return frame_state(x)
    if isinstance(x, (list, tuple)):
        return tuple(state_of(v) for v in x)
    if isinstance(x, np.ndarray):
        return x.shape, x.astype(float).tobytes()
    if hasattr(x, 'p01'):
        return casc_state(x)
    return repr(x)


def stats_state(ss):
    return {v: {k: state_of(getattr(ss, v)[k]) for k in sorted(getattr(ss, v))} for v in ('temp', 'wind', 'hum', 'precip', 'glob')}


def columns_state(s):
    return {} if s.data_disagg is None else {k: values(s.data_disagg[k]).tobytes() for k in s.data_disagg.columns}


def snap(s):
    return dict(place=(s.lon, s.lat, s.timezone), daily=frame_state(s.data_daily), disagg=columns_state(s), stats=stats_state(s.statistics),
                obs=frame_state(s.statistics.data), sun=frame_state(s.sun_times))


def diff(a, b):
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                return ['%s.%s' % (k, q) for q in sorted(set(a[k]) | set(b[k])) if a[k].get(q) != b[k].get(q)]
            return [k]
    return []


def observations(seed, days):
    r = np.random.RandomState(seed)
    start = pd.Timestamp(2001, 1 + r.randint(12), 1)
    idx = pd.date_range(start, periods=24 * days, freq='h')
    n, h, day = len(idx), idx.hour.values, np.arange(24 * days) // 24
    w = r.uniform(1, 8, days)[day]
    return pd.DataFrame(dict(
        temp=np.round(280 + r.uniform(-6, 6, days)[day] + 5 * np.sin(np.pi * (h - 9) / 12) + r.normal(0, 0.5, n), 2),
        hum=np.round(np.clip(60 + 20 * np.cos(np.pi * h / 12) + r.normal(0, 8, n), 1, 100), 1),
        wind=np.round(w * (1 + 0.4 * np.cos(np.pi * (h - 14) / 12)) + r.uniform(0, 0.2, n), 2),
        glob=np.round(np.maximum(0, 600 * np.sin(np.pi * (h - 6) / 12)), 1),
        precip=np.round(r.exponential(1, n), 2) * (r.uniform(size=n) < 0.3)), index=idx)
