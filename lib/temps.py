"""Reference temperature curves."""
import numpy as np


class Tie(Exception):
    """A rounding decision too close to call."""


def rnd(x):
    r = np.floor(np.asarray(x, dtype=float) + 0.5)
    if np.any(np.abs(np.asarray(x) + 0.5 - r) < 1e-6) or np.any(np.abs(np.asarray(x) - 0.5 - r) < 1e-6):
        raise Tie
    return r.astype(int)


def hours_of_extremes(how, sun, delta, months):
    """Hour of minimum and maximum per day; sun: columns sunrise, sunnoon (wrapped sunrise)."""
    n = len(months)
    if how == 'fix':
        return np.full(n, 7), np.full(n, 14)
    noon = sun.sunnoon.values
    rise = np.where(sun.sunrise.values > noon, 0.0, sun.sunrise.values)  # risen before midnight
    lo = np.array([0 if x == 0 else rnd(x) for x in rise])
    if how == 'sun_loc':
        return lo, rnd(noon) + 2
    hi = rnd(noon + np.array([delta[m] for m in months]))
    return lo, np.where(lo > hi, rnd(noon) + 2, hi)


def neighbours(days, x):
    """Value of the calendar day before/after (nan if not in the record); own value at the ends."""
    by = {d: v for d, v in zip(days, x)}
    one = np.timedelta64(1, 'D')
    before = np.array([by.get(d - one, np.nan) for d in days])
    after = np.array([by.get(d + one, np.nan) for d in days])
    before[0], after[-1] = x[0], x[-1]
    return before, after


def curve(method, night, days, tmin, tmax, mean, lo, hi):
    """Hourly values (days x 24) outside polar night."""
    n = len(days)
    h = np.arange(24)[None, :]
    _, min_next = neighbours(days, tmin)
    max_before, _ = neighbours(days, tmax)
    L, H = lo[:, None], hi[:, None]
    full = 2 * np.pi / 24
    if method == 'sine_mean':
        return mean[:, None] + (tmax - tmin)[:, None] / 2 * np.cos(full * (h - H))
    mn = np.where(h < H, tmin[:, None], min_next[:, None])
    mx = np.where(h < L, max_before[:, None], tmax[:, None])
    if not night:
        f = np.cos(full * (h - H))
    else:
        with np.errstate(all='ignore'):
            wave = np.pi / (24 - (H - L))
            f = np.where(h >= H, np.cos(wave * (h - H)),
                         np.where(h <= L, np.cos(wave * (24 - H + h)),
                                  np.cos(1.25 * np.pi + 0.75 * np.pi / (H - L) * (h - L))))
    return (mn + mx) / 2 + (mx - mn) / 2 * f


def polar_course(base, days, polar, tmin, tmax, lo, hi):
    """Replace polar-night days (and the adjoining parts of normal days) in base (days x 24)."""
    n = len(days)
    avg = (tmin + tmax) / 2
    avg_before, _ = neighbours(days, avg)
    diff = avg - avg_before
    if np.any((np.abs(diff) < 1e-9) & (diff != 0)):
        raise Tie
    v = base.copy()
    touched = np.zeros(n, bool)
    for i in range(n):
        if polar[i]:
            v[i] = np.nan
            a, b = (tmin[i], tmax[i]) if diff[i] >= 0 else (tmax[i], tmin[i])
            v[i, 6], v[i, 18] = a, b
            touched[i] = True
        else:
            if i + 1 < n and polar[i + 1]:
                v[i, hi[i] + 1:] = np.nan
                touched[i] = True
            if i > 0 and polar[i - 1]:
                v[i, :lo[i]] = np.nan
                v[i, lo[i]] = tmin[i]
                touched[i] = True
    flat = v.ravel()
    pos = np.flatnonzero(~np.isnan(flat))
    out = np.interp(np.arange(len(flat)), pos, flat[pos])
    out[:pos[0]] = np.nan
    return out.reshape(n, 24), touched
