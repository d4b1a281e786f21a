"""Reference vapour pressure after Sonntag (1990), one value at a time."""
import math

import numpy as np


def pressure(t, hum=100.0):
    if math.isnan(t) or math.isnan(hum):
        return math.nan
    c = t - 273.15
    k, z = (17.62, 243.12) if t >= 273.15 else (22.46, 272.62)
    return 6.112 * math.exp(k * c / (z + c)) * hum / 100.0


def dewpoint(t, hum):
    e = pressure(t, hum)
    if math.isnan(e):
        return math.nan
    k, z = (17.62, 243.12) if t >= 273.15 else (22.46, 272.62)
    q = math.log(e / 6.112)
    return z * q / (k - q) + 273.15


def pressures(t, hum=None):
    t = np.asarray(t, dtype=float)
    hum = np.full(t.shape, 100.0) if hum is None else np.asarray(hum, dtype=float)
    return np.array([pressure(float(a), float(b)) for a, b in zip(t.ravel(), hum.ravel())]).reshape(t.shape)


def dewpoints(t, hum):
    return np.array([dewpoint(float(a), float(b)) for a, b in zip(np.asarray(t, dtype=float), np.asarray(hum, dtype=float))])
