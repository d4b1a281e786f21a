"""C09: potential radiation is finite, non-negative and follows the sun."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gens
import sun
from harness import call, close, melodist, require, same_index, sub, values


@st.composite
def case(draw):
    n = draw(st.one_of(st.integers(1, 30), st.integers(24, 24 * 20)))
    return dict(start=draw(gens.starts()), hour=draw(st.integers(0, 23)), n=n,
                step=draw(st.sampled_from([60, 60, 60, 15, 5, 7, 1, 1440, 1441, 6000])),
                place=draw(st.one_of(gens.places(-90, 90), gens.places(-90, 90, slack=60))),
                slope=draw(st.sampled_from([0, 0, 0.1, 0.3, 0.7, 1.2, 1.5707963])),
                azimuth=draw(st.floats(-3.14, 6.28).map(lambda v: round(v, 2))),
                cloud=draw(st.one_of(st.sampled_from([0, 0, 1, 0.5]), st.floats(0, 1).map(lambda v: round(v, 3)))),
                form=draw(st.sampled_from(['index', 'list', 'array'])), pick=draw(gens.SEEDS), default=draw(st.booleans()))


@sub('formula', case(), quick=2700, rule='times with the sun above and times with the sun below the horizon')
def formula(c, ev):
    t = pd.date_range(pd.Timestamp(c['start']) + pd.Timedelta(hours=c['hour']), periods=c['n'], freq='%dmin' % c['step'])
    p = c['place']
    args = (p['lon'], p['lat'], p['tz'])
    kw = dict(terrain_slope=c['slope'], terrain_slope_azimuth=c['azimuth'], cloud_fraction=c['cloud'])
    if c['default'] and c['slope'] == 0 and c['cloud'] == 0:
        kw = {}
    given = t if c['form'] == 'index' else list(t) if c['form'] == 'list' else t.values
    tot = call(melodist.potential_radiation, given, *args, **kw)
    spl = call(melodist.potential_radiation, given, *args, split=True, **kw)
    same_index(tot, t, 'potential radiation')
    same_index(spl, t, 'potential radiation, split')
    v, dr, df = values(tot), values(spl['direct']), values(spl['diffuse'])
    ref = np.array([sun.pot_rad(x, *args, slope=c['slope'], azimuth=c['azimuth'], cloud=c['cloud']) for x in t])
    require(np.isfinite(v).all() and np.isfinite(dr).all() and np.isfinite(df).all(), 'potential radiation is not finite')
    require((v >= 0).all() and (dr >= 0).all() and (df >= 0).all(), 'negative potential radiation')
    night = ref[:, 2] < -1e-9
    require((v[night] == 0).all(), 'radiation %r with the sun below the horizon', float(v[night].max()) if night.any() else 0)
    ok = np.abs(ref[:, 2]) > 1e-9  # sunrise to the second: too close to call on slopes
    close(dr[ok], ref[ok, 0], 'direct radiation', rtol=1e-6, atol=1e-3, labels=t[ok])
    close(df[ok], ref[ok, 1], 'diffuse radiation', rtol=1e-6, atol=1e-6, labels=t[ok])
    close(v, dr + df, 'sum of direct and diffuse radiation', rtol=1e-9, atol=1e-9, labels=t)
    if c['cloud'] == 0:
        require((df == 0).all(), 'diffuse radiation without clouds')
    if c['slope'] == 0:
        other = call(melodist.potential_radiation, given, *args, cloud_fraction=c['cloud'], terrain_slope_azimuth=c['azimuth'] + 1.0)
        close(values(other), v, 'flat terrain with another aspect', rtol=1e-9, atol=1e-9, labels=t)
    # independent of the other times
    r = np.random.RandomState(c['pick'])
    sel = r.choice(len(t), size=r.randint(1, len(t) + 1), replace=False)
    if r.randint(2):
        sel = np.sort(sel)
    part = call(melodist.potential_radiation, t[sel], *args, **kw)
    same_index(part, t[sel], 'potential radiation for a part of the times')
    close(values(part), v[sel], 'a part of the times', rtol=1e-9, atol=1e-9, labels=t[sel])
    ev.label('sloped' if c['slope'] else 'flat', 'clouds' if c['cloud'] else 'clear', 'minutes' if c['step'] % 60 else 'hours',
             *(['pole'] if abs(p['lat']) == 90 else []))
    ev.nontrivial(night.any() and (ref[:, 2] > 1e-9).any())


@st.composite
def overhead_case(draw):
    return dict(tz=draw(st.integers(-11, 11)), year=draw(st.integers(1980, 2030)), slope=draw(st.sampled_from([0, 0.5])),
                cloud=draw(st.sampled_from([0, 0.7])))


@sub('overhead', overhead_case(), quick=180, rule='the sun within a minute of arc of the zenith')
def overhead(c, ev):
    """The sun exactly in the zenith at noon, where rounding may push its height beyond the zenith."""
    t = pd.date_range('%d-01-01 12:00' % c['year'], periods=365, freq='D')
    near = 0
    for x in t[::3]:
        lat = float(np.rad2deg(sun.declination(x)))
        v = values(call(melodist.potential_radiation, [x], 15.0 * c['tz'], lat, c['tz'],
                        terrain_slope=c['slope'], cloud_fraction=c['cloud']))
        ref = sun.pot_rad(x, 15.0 * c['tz'], lat, c['tz'], slope=c['slope'], cloud=c['cloud'])
        require(np.isfinite(v).all(), 'potential radiation is not finite at %s, latitude %r', x, lat)
        close(v, [ref[0] + ref[1]], 'potential radiation with the sun overhead', rtol=1e-6, atol=1e-3, labels=[x])
        near += ref[2] > np.cos(np.deg2rad(1 / 60))
    ev.nontrivial(near > 0)


@st.composite
def zenith_case(draw):
    return dict(lat=draw(st.floats(-23.43, 23.43).map(lambda v: round(v, 3))), year=draw(st.integers(1980, 2030)),
                slope=draw(st.sampled_from([0, 0.5])), cloud=draw(st.sampled_from([0, 0.7])))


@sub('zenith', zenith_case(), quick=600, rule='the sun passes within one degree of the zenith')
def zenith(c, ev):
    """Noon of every day in the tropics, at the meridian of the time zone: the sun passes the zenith."""
    t = pd.date_range('%d-01-01 12:00' % c['year'], periods=366, freq='D')
    v = values(call(melodist.potential_radiation, t, 15.0, c['lat'], 1, terrain_slope=c['slope'], cloud_fraction=c['cloud']))
    ref = np.array([sun.pot_rad(x, 15.0, c['lat'], 1, slope=c['slope'], cloud=c['cloud']) for x in t])
    require(np.isfinite(v).all(), 'potential radiation is not finite')
    close(v, ref[:, 0] + ref[:, 1], 'potential radiation at noon', rtol=1e-6, atol=1e-3, labels=t)
    ev.nontrivial((ref[:, 2] > np.cos(np.deg2rad(1))).any())
