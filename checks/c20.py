"""C20: gap detection and trimming to full days are exact."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gens
from harness import Violation, call, call_out, close, melodist, mutil, require, sub, values

STEPS = [3600, 3600, 86400, 300, 60, 1, 10800]


@st.composite
def gap_case(draw):
    step = draw(st.sampled_from(STEPS))
    n = draw(st.one_of(st.integers(0, 12), st.integers(0, 200)))
    mult = st.sampled_from([1, 1, 1, 1, 1, 1, 2, 3, 24, 0.5, 1.25, 365])
    return dict(step=step, start=draw(gens.starts()), off=draw(st.integers(0, 86399)),
                d=draw(st.lists(mult, min_size=max(n - 1, 0), max_size=max(n - 1, 0))), n=n,
                arg=draw(st.sampled_from([1, 1, 1, 2, 24])), frame=draw(st.booleans()),
                kw=draw(st.fixed_dictionaries({}, optional=dict(
                    print_all=st.booleans(), print_max=st.integers(0, 7), verbose=st.booleans()))))


@sub('gaps', gap_case(), quick=4000, rule='at least one gap and one regular step')
def gaps(c, ev):
    sec = np.concatenate([[0.0], np.cumsum([x * c['step'] for x in c['d']])]) if c['n'] else np.zeros(0)
    t0 = pd.Timestamp(c['start']) + pd.Timedelta(seconds=c['off'])
    idx = pd.DatetimeIndex([t0 + pd.Timedelta(milliseconds=float(s) * 1000) for s in sec])
    obj = pd.DataFrame(dict(x=np.arange(len(idx), dtype=float)), index=idx)
    if not c['frame']:
        obj = obj.x
    arg = c['step'] * c['arg']
    exp = sum(1 for x in c['d'] if x * c['step'] != arg)
    got, out = call_out(mutil.detect_gaps, obj, arg, **c['kw'])
    require(not isinstance(got, (bool, np.bool_)) and float(got) == exp, '%s gaps reported, there are %d', got, exp)
    if c['kw'].get('verbose') is False:
        require(out == '', 'output although verbose is off')
    ev.label('step%d' % c['step'], 'n%s' % ('0-1' if c['n'] < 2 else '>1'))
    ev.nontrivial(0 < exp < len(c['d']))


@st.composite
def trim_case(draw):
    n = draw(st.one_of(st.integers(0, 30), st.integers(24, 120), st.integers(48, 250)))
    return dict(start=draw(gens.starts()), hour=draw(st.integers(0, 23)), n=n,
                gap=sorted(draw(st.sets(st.integers(0, max(n - 1, 0)), max_size=n // 3))) if draw(st.booleans()) else [],
                shift=draw(st.one_of(st.none(), st.integers(0, 23), st.sampled_from([0, 7, 8, 23, 24, -1, 30, -24]))),
                cols=draw(st.integers(1, 3)), minute=draw(st.sampled_from([0] * 12 + [30])), seed=draw(gens.SEEDS))


@sub('trim', trim_case(), quick=6000, rule='something is removed and something remains')
def trim(c, ev):
    idx = gens.hourly_range(pd.Timestamp(c['start']) + pd.Timedelta(hours=c['hour'], minutes=c['minute']), c['n'])
    idx = idx[[i for i in range(c['n']) if i not in set(c['gap'])]]
    r = np.random.RandomState(c['seed'])
    df = pd.DataFrame(r.uniform(size=(len(idx), c['cols'])).round(3), index=idx, columns=list('abc')[:c['cols']])
    if len(df):
        df.iloc[r.randint(0, len(df)), 0] = np.nan
    shift = c['shift']
    got = call(mutil.drop_incomplete_days, df.copy(), *([] if shift is None else [shift]))
    first = shift if shift is not None and 0 <= shift <= 23 else 0
    last = (first - 1) % 24
    full = idx.minute == 0
    f = np.flatnonzero((idx.hour == first) & full)
    l = np.flatnonzero((idx.hour == last) & full)
    exp = df.iloc[f[0]:l[-1] + 1] if len(f) and len(l) and f[0] <= l[-1] else df.iloc[:0]
    require(isinstance(got, pd.DataFrame) and list(got.columns) == list(df.columns), 'columns changed')
    require(list(got.index) == list(exp.index), 'shift %s: kept %d records %s..%s, expected %d: %s..%s', shift, len(got),
            got.index[0] if len(got) else None, got.index[-1] if len(got) else None, len(exp),
            exp.index[0] if len(exp) else None, exp.index[-1] if len(exp) else None)
    close(values(got), exp.values, 'kept records', rtol=0, atol=0)
    ev.label('empty' if not len(exp) else 'all' if len(exp) == len(df) else 'part', 'invalid_shift' if shift is not None and not 0 <= shift <= 23 else 'shift_ok')
    ev.nontrivial(0 < len(exp) < len(df))
