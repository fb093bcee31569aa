"""Builds detection tables for the linking filter, calls it, and reads its verdicts."""
import numpy as np
import pandas as pd

BASE = 60000


def sep_mas(ra, dec):
    """Angular separations in milliarcseconds, by vectors (independent of the code's haversine)."""
    ra, dec = np.radians(np.asarray(ra, float)), np.radians(np.asarray(dec, float))
    v = np.stack([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)], 1)
    d = np.linalg.norm(v[:, None, :] - v[None, :, :], axis=2)
    return np.rint(np.degrees(2 * np.arcsin(np.clip(d / 2, 0, 1))) * 3600e3).astype(np.int64)


def frame(objs):
    """objs: list of dict(id, mjd, ra, dec)"""
    parts = []
    k = 0
    for o in objs:
        n = len(o["mjd"])
        parts.append(pd.DataFrame(dict(ObjID=[o["id"]] * n, FieldID=np.arange(k, k + n), fieldMJD_TAI=np.asarray(o["mjd"], float),
                                       RA_deg=np.asarray(o["ra"], float), Dec_deg=np.asarray(o["dec"], float),
                                       optFilter=[["r", "g", "i"][(k + j) % 3] for j in range(n)],
                                       trailedSourceMag=20.0 + 0.001 * np.arange(k, k + n))))
        k += n
    return pd.concat(parts, ignore_index=True)


def call(df, P, eff=1.0, drop=False):
    """P: dict nobs, minsep (mas), maxdt (1/1024 d), window, nlink, start (1/1024 d)"""
    from sorcha.modules.PPLinkingFilter import PPLinkingFilter
    return PPLinkingFilter(df, eff, P["nobs"], P["nlink"], P["window"], P["minsep"] / 1000.0, P["maxdt"] / 1024.0,
                           P["start"] / 1024.0 * 24.0, drop_unlinked=drop)


def verdicts(out):
    v = {}
    for oid, g in out.groupby("ObjID"):
        d = sorted({int(x) for x in g["date_linked_MJD"].dropna()})
        v[oid] = dict(linked=bool(g["object_linked"].all()), some=bool(g["object_linked"].any()), dates=d, n=len(g))
    return v


def event(o, P, v):
    """link event for object o (dict mjd, ra, dec) with verdict v"""
    t = [int(round((m - BASE) * 1024)) for m in o["mjd"]]
    for a, m in zip(t, o["mjd"]):
        assert abs(a / 1024 + BASE - m) < 1e-9 or "exact" not in o
    P2 = dict(P, day=1024)
    dates = [d - BASE for d in v["dates"]] if v else []
    return dict(ev="link", p=P2, o=[dict(t=x) for x in t], sep=sep_mas(o["ra"], o["dec"]).tolist(),
                linked=bool(v and v["linked"]), dates=dates)
