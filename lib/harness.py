"""Shared machinery of the checks: sub-check registry, oracle helpers, safe calls."""
import contextlib
import functools
import io
import json
import os
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

try:
    import hypothesis  # noqa: F401
except ImportError:
    sys.path.append(VT_SITE)  # at the end: numpy, pandas, scipy come from /opt/venv
    import hypothesis  # noqa: F401

import numpy as np
import pandas as pd
import scipy.optimize  # noqa: F401
import scipy.stats  # noqa: F401

# the code under test is always compiled from its current source, never from a stale .pyc
_pyc = tempfile.mkdtemp(prefix='verif-pyc-')
sys.pycache_prefix = _pyc
sys.path.insert(0, REPO)
import melodist  # noqa: E402
import importlib  # noqa: E402

mutil = importlib.import_module('melodist.util.util')
os.rmdir(_pyc) if not os.listdir(_pyc) else None
assert os.path.realpath(melodist.__file__).startswith(os.path.realpath(REPO) + os.sep), melodist.__file__


class Violation(Exception):
    """The code under test broke the property on this case."""


SUBS = []


class Sub:
    def __init__(self, name, strategy, check, quick, thorough, rule):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.rule = quick, thorough, rule


def sub(name, strategy, quick, thorough=None, rule=''):
    """Register a sub-check: check(case, ev) raises Violation; `rule` says what makes a case
    non-trivial (the check calls ev.nontrivial())."""

    def deco(f):
        SUBS.append(Sub(name, strategy, f, quick, thorough or quick * 12, rule))
        return f

    return deco


class Ev:
    """Collects classification of one case."""

    def __init__(self):
        self.labels = []
        self.nt = False

    def label(self, *labels):
        self.labels.extend(labels)

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True


def call(f, *args, **kwargs):
    """Call the code under test; any exception on a valid input is a violation."""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return f(*args, **kwargs)
    except Exception as e:  # noqa: BLE001
        raise Violation('%s raised %s: %s' % (_name(f), type(e).__name__, str(e)[:300])) from e


def call_out(f, *args, **kwargs):
    """As call, also returning what was printed."""
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            r = f(*args, **kwargs)
    except Exception as e:  # noqa: BLE001
        raise Violation('%s raised %s: %s' % (_name(f), type(e).__name__, str(e)[:300])) from e
    return r, buf.getvalue()


def rejects(f, what):
    """The call must raise."""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            f()
    except Exception:  # noqa: BLE001
        return
    raise Violation('%s was accepted' % what)


def _name(f):
    return getattr(f, '__qualname__', None) or getattr(f, '__name__', str(f))


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def values(x):
    return np.asarray(getattr(x, 'values', x), dtype=float)


def close(got, exp, what, rtol=1e-9, atol=1e-9, labels=None):
    """Elementwise comparison, nan equal to nan only."""
    try:
        g = values(got)
    except (TypeError, ValueError) as e:
        raise Violation('%s: result is not numeric (%s)' % (what, e))
    e = np.asarray(exp, dtype=float)
    require(g.shape == e.shape, '%s: shape %s, expected %s', what, g.shape, e.shape)
    if labels is None and hasattr(got, 'index'):
        labels = got.index
    gn, en = np.isnan(g), np.isnan(e)
    with np.errstate(invalid='ignore'):
        bad = (gn != en) | (~gn & ~en & ~(np.abs(g - e) <= atol + rtol * np.abs(e)) & (g != e))
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        lab = labels[i[0]] if labels is not None else i
        raise Violation('%s: %r at %s, expected %r (%d of %d differ)'
                        % (what, float(g[i]), lab, float(e[i]), int(bad.sum()), bad.size))


def same_index(got, exp, what):
    """The result is labelled with exactly these time stamps."""
    idx = got.index if hasattr(got, 'index') and not isinstance(got, pd.Index) else got
    exp = pd.DatetimeIndex(exp)
    require(len(idx) == len(exp), '%s: %d time stamps, expected %d', what, len(idx), len(exp))
    a = pd.DatetimeIndex(idx).as_unit('ns').asi8
    b = exp.as_unit('ns').asi8
    if not np.array_equal(a, b):
        i = int(np.argmax(a != b))
        raise Violation('%s: time stamp %s at position %d, expected %s' % (what, idx[i], i, exp[i]))


def hours_of(days):
    """All 24 hours of each day, in order."""
    d = pd.DatetimeIndex(days).as_unit('ns').asi8
    h = (np.arange(24) * 3600 * 10**9)[None, :]
    return pd.DatetimeIndex((d[:, None] + h).ravel())


def frame_state(df):
    """Hashable snapshot of everything visible in a frame or series."""
    if df is None:
        return None
    if isinstance(df, pd.Series):
        df = df.to_frame('__series__' if df.name is None else df.name)
    return (
        tuple(map(str, df.columns)), tuple(map(str, df.dtypes)), str(df.index.name),
        tuple(df.index.map(str)),
        tuple(np.asarray(df[c]).astype(float).tobytes() if pd.api.types.is_numeric_dtype(df[c].dtype)
              else str(list(df[c])) for c in df.columns),
    )


@functools.lru_cache(maxsize=None)
def repeatable(method):
    """Whether seeding numpy's global generator repeats the results of a random method ('random' or 'cascade')."""
    days = pd.Series(5.0, pd.date_range('2003-05-01', periods=30, freq='D'))
    out = []
    for _ in range(2):
        np.random.seed(1)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if method == 'random':
                    out.append(values(melodist.disaggregate_wind(days, method='random')))
                elif method == 'cascade':
                    stats = melodist.cascade.CascadeStatistics()
                    stats.fill_with_sample_data()
                    out.append(values(melodist.disagg_prec(days, method='cascade', cascade_options=stats)))
                else:
                    return True
        except Exception:  # noqa: BLE001  the check will say so
            return True
    return np.array_equal(out[0], out[1])


def scratch():
    return tempfile.TemporaryDirectory(prefix='verif-')


def load_known(prop):
    path = os.path.join(os.path.dirname(__file__), '..', 'known_findings.json')
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]
