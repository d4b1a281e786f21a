"""Reference sun times (Bourges 1985, Spencer 1971) and clear-sky radiation (Liston and Elder 2006),
written from the formulas, one day or time at a time."""
import math

import numpy as np
import pandas as pd


def sun_day(day, lon, lat, tz):
    """sunrise, noon, sunset (not wrapped), day length in hours."""
    doy = day.timetuple().tm_yday
    g = math.radians(360.0 / 365.25 * (doy - 79.346))
    decl = math.radians(0.3723 + 23.2567 * math.sin(g) - 0.7580 * math.cos(g) + 0.1149 * math.sin(2 * g)
                        + 0.3656 * math.cos(2 * g) - 0.1712 * math.sin(3 * g) + 0.0201 * math.cos(3 * g))
    b = 2 * math.pi * (doy - 1) / 365.0
    eqt = 12 / math.pi * (0.000075 + 0.001868 * math.cos(b) - 0.032077 * math.sin(b)
                          - 0.014615 * math.cos(2 * b) - 0.040849 * math.sin(2 * b))
    noon = 12.0 - (lon - 15.0 * tz) / 15.0 - eqt
    arg = -math.tan(math.radians(lat)) * math.tan(decl)
    half = 12.0 if arg <= -1 else 0.0 if arg >= 1 else 12.0 * math.acos(arg) / math.pi
    return noon - half, noon, noon + half, 2 * half


def wrapped(day, lon, lat, tz):
    rise, noon, set_, length = sun_day(day, lon, lat, tz)
    return (rise + 24 if rise < 0 else rise), noon, (set_ - 24 if set_ > 24 else set_), length


def sun_table(days, lon, lat, tz):
    """Columns sunrise, sunnoon, sunset (wrapped), daylength, rise (not wrapped)."""
    rows = [sun_day(d, lon, lat, tz) for d in days]
    a = np.array(rows).reshape(-1, 4)
    df = pd.DataFrame(dict(sunrise=np.where(a[:, 0] < 0, a[:, 0] + 24, a[:, 0]), sunnoon=a[:, 1],
                           sunset=np.where(a[:, 2] > 24, a[:, 2] - 24, a[:, 2]), daylength=a[:, 3]), index=days)
    return df


def declination(t):
    return math.radians(23.43697) * math.cos(2 * math.pi * (t.timetuple().tm_yday - 173.0) / 365.25)


def pot_rad(t, lon, lat, tz, slope=0.0, azimuth=0.0, cloud=0.0):
    """(direct, diffuse, cosine of the zenith angle before limiting) for one time stamp."""
    doy = t.timetuple().tm_yday
    decl = declination(t)
    ha = math.pi * ((t.hour + t.minute / 60.0 + (lon - 15.0 * tz) / 15.0) / 12.0 - 1.0)
    la = math.radians(lat)
    cz0 = math.sin(decl) * math.sin(la) + math.cos(decl) * math.cos(la) * math.cos(ha)
    cz = min(max(cz0, 0.0), 1.0)
    be = 2 * math.pi * doy / 365.25
    s0 = 1367.0 * (1.00011 + 0.034221 * math.cos(be) + 0.00128 * math.sin(be)
                   + 0.000719 * math.cos(2 * be) + 0.000077 * math.sin(2 * be))
    if cz <= 0:
        return 0.0, 0.0, cz0
    z = math.acos(cz)
    sz = math.sin(z)
    mu = math.asin(min(max(math.cos(decl) * math.sin(ha) / sz, -1.0), 1.0)) if sz > 0 else 0.0
    cosi = math.cos(slope) * cz + math.sin(slope) * sz * math.cos(mu - azimuth)
    direct = max(0.0, s0 * (0.6 + 0.2 * cz) * (1 - cloud) * cosi)
    diffuse = s0 * (0.3 + 0.1 * cz) * cloud * cz
    return direct, diffuse, cz0


def pot_rad_hourly(times, lon, lat, tz):
    return np.array([pot_rad(t, lon, lat, tz)[0] for t in times])


def bristow_campbell(days, tmin, tmax, pot, A, C):
    """Reference Bristow-Campbell estimate, day by day; dT for the caller to judge."""
    by = {d: v for d, v in zip(days, tmin)}
    one = pd.Timedelta(days=1)
    nxt = np.array([by.get(d + one, np.nan) for d in days])
    nxt[-1] = tmin[-1]
    dT = tmax - (tmin + nxt) / 2
    out = np.full(len(days), np.nan)
    for m in set(days.month):
        sel = days.month == m
        x = dT[sel]
        if np.isnan(x).all():
            continue
        B = 0.036 * np.exp(-0.154 * np.nanmean(x))
        a = A[m] if np.ndim(A) else A
        c = C[m] if np.ndim(C) else C
        with np.errstate(all='ignore'):
            out[sel] = a * (1 - np.exp(-B * np.where(x > 0, x, np.nan)**c)) * pot[sel]
    return out, dT
