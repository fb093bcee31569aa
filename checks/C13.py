"""C13: the detections file holds exactly the detections, in every format."""
from decimal import Decimal, ROUND_FLOOR
from harness import env, check, pipeline as pl, world as W, runs
import numpy as np
import os
import pandas as pd

POS = ["fieldRA_deg", "fieldDec_deg", "RA_deg", "Dec_deg", "astrometricSigma_deg", "RATrue_deg", "DecTrue_deg"]
MAG = ["PSFMag", "trailedSourceMag", "trailedSourceMagTrue", "PSFMagTrue", "PSFMagSigma", "trailedSourceMagSigma", "fieldFiveSigmaDepth_mag", "fiveSigmaDepth_mag"]
BASIC = ["ObjID", "fieldMJD_TAI", "fieldRA_deg", "fieldDec_deg", "RA_deg", "Dec_deg", "astrometricSigma_deg", "optFilter", "trailedSourceMag", "trailedSourceMagSigma",
         "fiveSigmaDepth_mag", "phase_deg", "Range_LTC_km", "RangeRate_LTC_km_s", "Obj_Sun_LTC_km"]


def digits(x, n):
    """x as whole + (units + rest/1000)/10^n"""
    d = Decimal(repr(float(x)))
    w = d.to_integral_value(ROUND_FLOOR)
    s = (d - w) * 10 ** n
    u = s.to_integral_value(ROUND_FLOOR)
    r = ((s - u) * 1000)
    return int(w), int(u), int(r.to_integral_value(ROUND_FLOOR)), r != r.to_integral_value(ROUND_FLOOR)


def cell(kind, x, y, n):
    w, u, r, _ = digits(x, n)
    w2, u2, r2, more = digits(y, n)
    return dict(kind=kind, w=w, u=u, rest=r, base=10 ** n, w2=w2, u2=u2, rest2=r2 + (1 if more and r2 == 0 else 0))


def columns(ref, spec, sc):
    if spec == "all":
        return list(ref.columns)
    if spec == "basic":
        lk = sc["config"].get("LINKINGFILTER", {})
        none = ("astrometricSigma_deg", "trailedSourceMagSigma") if sc["survey"] == "DES" else ()  # a DES run has no uncertainties
        return [c for c in BASIC if c not in none] + (["object_linked"] if lk.get("drop_unlinked") == "False" else [])
    return [c.strip() for c in spec.split(",")]


def headers(path, cols):
    with open(path) as f:
        return sum(line.split(",")[0].strip('"') == cols[0] for line in f)


def judge(ck, case, sc, fmt, spec, pdec, mdec):
    o = sc["config"].setdefault("OUTPUT", {})
    o.update(output_format=fmt, output_columns=spec)
    for k, v in (("position_decimals", pdec), ("magnitude_decimals", mdec)):
        o.pop(k, None)
        if v is not None:
            o[k] = v
    mem = pl.run(sc, return_only=True)
    r = pl.run(sc)
    if mem.error:
        ck.fail(case, "run-completes", mem.error)
        return None
    ref = mem.out[0] if isinstance(mem.out, tuple) else mem.out
    err = "" if r.error is None else f"{r.error[0]}: {r.error[1][:200]}"
    if len(ref) == 0:
        ck.event("TraceOutput", dict(ev="empty", error=err, completed=r.log[-1:] == [runs.DONE], rows=0 if r.out is None else len(r.out)), case)
        return None
    ref = ref.reset_index(drop=True)
    if "Obj_Sun_LTC_km" not in ref.columns:
        ref["Obj_Sun_LTC_km"] = sum(ref[f"Obj_Sun_{x}_LTC_km"] ** 2 for x in "xyz") ** .5
    cols = columns(ref, spec, sc)
    out = r.out
    got = [] if out is None else list(out.columns)
    if spec == "all":
        cols, got = sorted(cols), sorted(got)
    rounded = {**({c: ("p", pdec) for c in POS} if pdec is not None else {}), **({c: ("m", mdec) for c in MAG} if mdec is not None else {})}
    plain = [c for c in cols if c not in rounded and c in got]
    book = W.RowBook([c for c in ("ObjID", "fieldMJD_TAI", "optFilter") if c in plain], rtol=1e-13)
    want = book.ids(ref[plain])
    ids = [] if out is None else book.ids(out[plain])
    vals = []
    first = {}
    for i, x in enumerate(want):
        first.setdefault(x, i)
    if len(set(want)) == len(want) and out is not None:
        some = range(0, len(ids), max(1, len(ids) // 12))
        for c, (kind, n) in rounded.items():
            if c in got:
                a, b = ref[c].tolist(), out[c].tolist()
                vals += [cell(kind, a[first[ids[j]]], b[j], n) for j in some if ids[j] in first]
    path = os.path.join(r.dir, "out" + {"csv": ".csv", "sqlite3": ".db", "hdf5": ".h5"}[fmt])
    h = 0 if out is None else (headers(path, list(out.columns)) if fmt == "csv" else 1)
    ck.event("TraceOutput", dict(ev="file", want=want, got=ids, cols=cols, gotcols=got, headers=h, error=err, completed=r.log[-1:] == [runs.DONE], file=out is not None,
                                 vals=vals), case, replay=dict(log=r.log[-2:]))
    return book.ids(out[plain]) if out is not None and not rounded else None


def longer(w):
    """Identifiers that grow along the population, and tables whose numbers are whole in the first objects."""
    ids = w.ids()
    ren = {i: i + "x" * (7 * k) for k, i in enumerate(ids)}
    w.objs = {ren[i]: o for i, o in w.objs.items()}
    for k, (i, o) in enumerate(w.objs.items()):
        o["orbit"] = [i, *o["orbit"][1:]]
        o["phys"] = dict(o["phys"], ObjID=i)
        o["eph"] = [dict(e, obj=i) for e in o["eph"]]
        if o.get("cpx"):
            o["cpx"] = dict(o["cpx"], ObjID=i)
        if k < 2:  # read back as whole numbers when alone in a chunk
            for c in list(o["phys"]):
                if c != "ObjID" and c != "GS":
                    o["phys"][c] = round(o["phys"][c])
    return w


FORMATS = ("csv", "sqlite3", "hdf5")
LISTS = ["ObjID, fieldMJD_TAI, optFilter, RA_deg,Dec_deg , trailedSourceMag", "fieldMJD_TAI,RA_deg,ObjID", "ObjID,fieldMJD_TAI,PSFMag,Obj_Sun_LTC_km,FieldID", "fieldMJD_TAI,RA_deg,optFilter", "FieldID,optFilter"]
DECS = [(None, None), (0, None), (None, 0), (0, 0), (7, 3), (3, 7), (1, None), (None, 1), (9, 9), (2, 2)]


def flavour(ck, fl, rep, q):
    rng = np.random.default_rng([env.SEED, 13, rep, q])
    W.register_lc()
    w = longer(W.lsst(rng, 5, fl)) if not fl.startswith("des") else longer(W.des(rng, 5, fl[4:] or "basic"))
    for j, chunk in enumerate((1, 2, 3, 100) if env.THOROUGH else ((1, 100) if q % 2 else (2, 1))):
        rows = {}
        k = 4 * (q + 11 * rep) + j
        spec = ["all", "basic", *LISTS][(q + 3 * j + rep) % 7]
        if fl.startswith("des") and "PSFMag" in spec:
            spec = "all"
        for fmt in FORMATS:
            sc, _ = w.scenario(chunk=chunk)
            if fl == "effects":
                sc["config"]["EXPERT"]["randomization_on"] = "True"
            rows[fmt] = judge(ck, f"{fl}/{fmt}/{chunk}/{spec.split(',')[0] if ',' in spec else spec}", sc, fmt, spec, None, None)
        for fmt in FORMATS:
            sc, _ = w.scenario(chunk=chunk if fmt != "hdf5" or env.THOROUGH else 100)
            p, m = DECS[(k * 3 + FORMATS.index(fmt)) % len(DECS)]
            judge(ck, f"{fl}/{fmt}/{chunk}/decimals-{p}-{m}", sc, fmt, "all" if k % 2 or fl.startswith("des") else "basic", p, m)


def values(ck, p, m):  # values on both sides of zero, of ties and of a whole number
    rng = np.random.default_rng([env.SEED, 113])
    w = W.lsst(rng, 3, "basic")
    for i, o in enumerate(w.objs.values()):
        for j, e in enumerate(o["eph"]):
            e["ra"], e["dec"] = [0.00000004, 359.99999996, 29.5 + 1e-9][i % 3] + 1e-3 * j * (i == 1) * -1, [-0.4999999, -20.9999999996, 0.05][i % 3]
    for fmt in FORMATS if env.THOROUGH else [FORMATS[DECS.index((p, m)) % 3], "csv"]:
        judge(ck, f"values/{fmt}/decimals-{p}-{m}", w.scenario(chunk=2)[0], fmt, "all", p, m)


def names(ck):  # names a text file must protect, and no detections at all
    rng = np.random.default_rng([env.SEED, 213])
    w = W.lsst(rng, 4, "basic")
    for i, n in zip(w.ids(), ["a,b", "0012", "1e5", 'q"x']):
        o = w.objs.pop(i)
        o["orbit"][0], o["phys"]["ObjID"] = n, n
        for e in o["eph"]:
            e["obj"] = n
        w.objs[n] = o
    w.config["INPUT"] = dict(eph_format="csv", aux_format="csv")
    for fmt in FORMATS:
        judge(ck, f"names/{fmt}", w.scenario(chunk=1)[0], fmt, "all", None, None)
        sc = w.scenario(chunk=1)[0]
        sc["config"]["EXPERT"]["mag_limit"] = "1"
        judge(ck, f"none/{fmt}", sc, fmt, "all", None, None)


def collect(ck):
    import sorcha.sorcha, sorcha.des  # noqa
    fls = ["basic", "cuts", "effects", "linkkeep", "linkcuts", "phase", "complex", "footprint", "des", "des-discovery"]
    ck.fan([(flavour, fl, rep, q) for rep in range(6 if env.THOROUGH else 1) for q, fl in enumerate(fls)] + [(values, p, m) for p, m in DECS] + [(names,)])
    ck.mc("Output", "OutputBig.cfg" if env.THOROUGH else None, allow_vacuous=("H5Fails",))
    ck.mc("Output", "OutputX.cfg", contrast=True)


if __name__ == "__main__":
    check.main("C13", collect, ["ties of a rounded value may go either way"])
