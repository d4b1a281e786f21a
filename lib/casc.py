"""Cascade statistics: generators and reference model of the branching."""
import numpy as np
from hypothesis import strategies as st

import harness
from gens import SEEDS

BOUNDS = np.array([0.0, 0.1429, 0.2857, 0.4286, 0.5714, 0.7143, 0.8571, 1.0])
CENTRES = BOUNDS[1:] - 1.0 / 14.0


@st.composite
def one_hot(draw):
    """Deterministic statistics: every class has one certain outcome 0 (0/1), 1 (1/0) or
    2 + k (x/x with weight class k)."""
    return dict(hot=[[draw(st.integers(0, 8)) for _ in range(4)] for _ in range(2)])


@st.composite
def random_stats(draw):
    """Valid random statistics, some probabilities exactly zero."""
    return dict(seed=draw(SEEDS), zero=draw(st.sampled_from([0.0, 0.3, 0.6])))


def sample():
    return dict(sample=1)


@st.composite
def any_stats(draw):
    return draw(st.one_of(one_hot(), random_stats(), st.just(sample())))


def tables(s):
    """p01, p10, pxx (2x4), wxx (7x2x4) of a statistics recipe."""
    if 'hot' in s:
        o = np.array(s['hot'])
        p01 = (o == 0).astype(float)
        p10 = (o == 1).astype(float)
        pxx = (o >= 2).astype(float)
        wxx = np.zeros((7, 2, 4))
        for k in range(7):
            wxx[k] = (o == 2 + k) + (o < 2) / 7.0
        return p01, p10, pxx, wxx
    if 'sample' in s:
        c = harness.melodist.cascade.CascadeStatistics()
        c.fill_with_sample_data()
        return c.p01, c.p10, c.pxx, c.wxx
    r = np.random.RandomState(s['seed'])
    p = r.uniform(0.01, 1, (3, 2, 4)) * (r.uniform(size=(3, 2, 4)) >= s['zero'])
    p[r.randint(0, 3)] += 1e-2
    p /= p.sum(axis=0)
    p[2] = 1.0 - p[0] - p[1]
    p[2][p[2] < 1e-12] = 0.0
    w = r.uniform(0.01, 1, (7, 2, 4)) * (r.uniform(size=(7, 2, 4)) >= s['zero'])
    w[r.randint(0, 7)] += 1e-2
    w /= w.sum(axis=0)
    return p[0], p[1], p[2], w


def build(s, threshold):
    c = harness.melodist.cascade.CascadeStatistics()
    c.p01, c.p10, c.pxx, c.wxx = [np.array(t) for t in tables(s)]
    c.threshold = np.array(threshold, dtype=float)
    return c


def box_types(v):
    """0..3 = starting, enclosed, ending, isolated for the wet boxes of a level (-1 dry)."""
    wet = np.asarray(v) > 0
    before = np.concatenate([[False], wet[:-1]])
    after = np.concatenate([wet[1:], [False]])
    t = np.where(before, np.where(after, 1, 2), np.where(after, 0, 3))
    return np.where(wet, t, -1)


def to_hours(boxes):
    """32 boxes of 45 min per day to 24 h."""
    return np.repeat(np.asarray(boxes) / 3.0, 3).reshape(-1, 4).sum(axis=1)


def predict(daily, tabs, thresholds):
    """Deterministic cascade for one-hot tables; tabs/thresholds from the coarsest level on.
    Returns the boxes of every level."""
    v = np.asarray(daily, dtype=float)
    out = []
    for (p01, p10, pxx, wxx), thr in zip(tabs, thresholds):
        t = box_types(v)
        new = np.zeros(2 * len(v))
        for i in np.flatnonzero(t >= 0):
            a = int(v[i] > thr)
            if p01[a, t[i]] == 1:
                w = 0.0
            elif p10[a, t[i]] == 1:
                w = 1.0
            else:
                w = CENTRES[int(np.argmax(wxx[:, a, t[i]]))]
            new[2 * i], new[2 * i + 1] = w * v[i], (1 - w) * v[i]
        v = new
        out.append(v)
    return out
