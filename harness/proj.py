"""Projections from implementation values to what TLA+ reads."""
import numpy as np


class Interner:
    """Equality of values only."""

    def __init__(self):
        self.d = {}

    def __call__(self, x):
        return self.d.setdefault(x, len(self.d) + 1)


def cell(x):
    """A hashable, exactly comparable form of a table cell (numbers by value, text as text, missing as None)."""
    if isinstance(x, (bool, np.bool_)):
        return float(x)
    if isinstance(x, (int, np.integer)):
        return int(x) if abs(int(x)) > 2 ** 52 else float(x)
    if isinstance(x, (float, np.floating)):
        return None if x != x else float(x)
    if x is None:
        return None
    s = str(x)
    return None if s in ("nan", "NaN", "<NA>", "NaT") else s


def row_keys(df, cols):
    cs = [[cell(v) for v in df[c].tolist()] for c in cols]
    return list(zip(*cs)) if cs else [()] * len(df)


def ranks(*arrays):
    """Jointly map the values of several arrays to dense integers that compare the same way."""
    allv = sorted({float(v) for a in arrays for v in np.atleast_1d(np.asarray(a, float)) if np.isfinite(v)})
    pos = {v: i + 1 for i, v in enumerate(allv)}

    def f(v):
        v = float(v)
        if v != v:
            return -1000000
        if v == np.inf:
            return 1000000000
        if v == -np.inf:
            return -1000000000
        return pos[v]

    out = []
    for a in arrays:
        out.append(f(a) if np.ndim(a) == 0 else [f(v) for v in np.asarray(a, float)])
    return out
