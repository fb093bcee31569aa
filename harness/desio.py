"""DES selection: tables for the real filters and runs, and their events."""
import numpy as np
import pandas as pd
from . import proj, pipeline as pl

AU = 149597870.7
BASE = 57000
FAR = 50 * AU


def rows_event(df, out, err, distance=None, motion=None, disc=True, ordered=True):
    """df: candidate detections (columns id ObjID fieldMJD_TAI Obj_Sun_*_LTC_km RARateCosDec_deg_day DecRate_deg_day)."""
    r2 = df["Obj_Sun_x_LTC_km"] ** 2 + df["Obj_Sun_y_LTC_km"] ** 2 + df["Obj_Sun_z_LTC_km"] ** 2
    m2 = df["RARateCosDec_deg_day"] ** 2 + df["DecRate_deg_day"] ** 2
    import astropy.units as u
    sq = lambda a: float((a * u.au).to(u.km).value) ** 2
    b = [sq(50.0)] + ([sq(distance[0]), sq(distance[1])] if distance else [0.0, 0.0]) + ([motion[0] ** 2, motion[1] ** 2] if motion else [0.0, 0.0])
    # distance and rate are compared only with their own bounds
    rr, rb = proj.ranks(r2, [b[0], b[1], b[2]])
    mm, mb = proj.ranks(m2, [b[3], b[4]])
    oid, ids = proj.Interner(), proj.Interner()
    key = ["ObjID", "FieldID"]
    cols = [c for c in df.columns if c not in key and c in (out.columns if out is not None else df.columns)]
    inkeys = proj.row_keys(df, key)
    vals = dict(zip(inkeys, proj.row_keys(df, cols)))
    rows = [dict(id=ids(k), obj=oid(o), t=int(round((t - BASE) * 1024)), r=r, m=m)
            for k, o, t, r, m in zip(inkeys, df["ObjID"], df["fieldMJD_TAI"], rr, mm)]
    same, o = True, []
    if out is not None and len(out):
        for k, v in zip(proj.row_keys(out, key), proj.row_keys(out, cols)):
            o.append(ids(k))
            same = same and vals.get(k, v) == v
        lost = [c for c in df.columns if c not in out.columns]
        same = same and not lost
    c = dict(distOn=distance is not None, rlo=rb[1], rhi=rb[2], motOn=motion is not None, mlo=mb[0], mhi=mb[1], disc=disc, far=rb[0],
             day=1024, arc=182 * 1024 + 640, many=9, few=7, near=60 * 1024, wide=90 * 1024)
    return dict(ev="des", rows=rows, c=c, out=o, same=same, ordered=ordered, error="" if err is None else err[0])


def table(objs, rng=None, order="shuffle"):
    """objs: dict(id, t (days from BASE), r (au, scalar or list), m=(ra rate, dec rate) or list)"""
    recs, k = [], 0
    for o in objs:
        n = len(o["t"])
        r = np.broadcast_to(np.asarray(o.get("r", 40.0), float), n)
        m = o.get("m", (0.01, 0.0))
        for j, t in enumerate(o["t"]):
            d = r[j] * AU
            mj = m[j] if isinstance(m, list) else m
            xyz = o["xyz"][j] if "xyz" in o else (d, 0.0, 0.0)
            recs.append((o["id"], k, BASE + float(t), *xyz, mj[0], mj[1], "gri"[k % 3], 20 + 0.01 * k))
            k += 1
    df = pd.DataFrame(recs, columns=["ObjID", "FieldID", "fieldMJD_TAI", "Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km", "Obj_Sun_z_LTC_km",
                                     "RARateCosDec_deg_day", "DecRate_deg_day", "optFilter", "trailedSourceMag"])
    if rng is not None and order == "shuffle":
        df = df.iloc[rng.permutation(len(df))].reset_index(drop=True)
    elif rng is not None and order == "index":
        df = df.iloc[rng.permutation(len(df))]
    elif rng is not None and order == "group":  # by object, times shuffled
        df = df.iloc[rng.permutation(len(df))].sort_values("ObjID", kind="stable").reset_index(drop=True)
    return df


def scenario(df, distance=None, motion=None, disc=True, chunk=1000, extra=None, survey="DES"):
    visits, eph = [], []
    for _, r in df.iterrows():
        visits.append(dict(id=int(r.FieldID), mjd=float(r.fieldMJD_TAI), filter=r.optFilter, depth=24.0, ra=30.0, dec=-20.0))
        eph.append(dict(obj=r.ObjID, field=int(r.FieldID), mjd=float(r.fieldMJD_TAI), ra=30.0, dec=-20.0, rarate=r.RARateCosDec_deg_day,
                        decrate=r.DecRate_deg_day, sun=(r.Obj_Sun_x_LTC_km, r.Obj_Sun_y_LTC_km, r.Obj_Sun_z_LTC_km)))
    lf = dict(des_discovery_on=str(disc))
    if distance:
        lf.update(distance_cut_lower=repr(distance[0]), distance_cut_upper=repr(distance[1]))
    if motion:
        lf.update(motion_cut_lower=repr(motion[0]), motion_cut_upper=repr(motion[1]))
    conf = {"INPUT": dict(size_serial_chunk=chunk), "FILTERS": dict(observing_filters="g,r,i"), "LINKINGFILTER": lf}
    for s, kv in (extra or {}).items():
        conf.setdefault(s, {}).update(kv)
    objs = list(dict.fromkeys(df.ObjID))
    phys = pd.DataFrame([dict(ObjID=o, H_g=8.0, **{"r-g": 0.0, "i-g": 0.0}) for o in objs])
    return dict(objects=[dict(id=o) for o in objs], phys=phys, visits=visits, eph=eph, config=conf, survey=survey)


def run_pipeline(df, **k):
    """The run with the selections under test, judged against the run without any."""
    off = pl.run(scenario(df, disc=False, chunk=k.get("chunk", 1000)))
    on = pl.run(scenario(df, **k))
    return off, on
