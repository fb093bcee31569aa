"""C10: linking keeps or annotates whole objects and nothing else.  The verdict of each object is asked of the filter
for that object alone; tables of many objects, in any row order, index and spelling of identifiers, must carry exactly those verdicts."""
from harness import env, check, linkio as L, proj, pipeline as pl
from checks.C09 import REF, random_history, margin_ok, scenario
import numpy as np
import pandas as pd


def id_style(style, k, rng):
    return {"plain": f"o{k}", "prefix": "a" * (k + 1), "numeric": str(10 ** (k % 12) + k), "space": f"obj {k} ({k})",
            "long": "x" * (3 * k) + f"end{k}", "tail": "survey/night/field/" * 5 + f"{k}", "case": ("Ab" if k % 2 else "aB") + f"{k // 2}", "zero": "0" * k + "7",
            "uni": ["Ωmega", "ñandú", "小惑星", "é", "plain"][k % 5] + str(k)}[style]


def table(objs, rng):
    df = L.frame(objs)
    df["H_filter"] = rng.uniform(5, 20, len(df))
    df["note"] = [f"n{int(x)}" for x in rng.integers(0, 50, len(df))]
    df["mis"] = np.where(rng.random(len(df)) < .2, np.nan, rng.random(len(df)))
    return df


def rows_event(inp, res, err, solo, drop, ids=("ObjID", "FieldID")):
    """inp: table before linking; res: after."""
    oid, inter = proj.Interner(), proj.Interner()
    rowid = proj.Interner()
    cols = [c for c in inp.columns if c not in ids]
    ev = dict(ev="rows", drop=drop, error="" if err is None else f"{err[0]}", inp=[], out=[])
    for r, o, v in zip(proj.row_keys(inp, ids), inp["ObjID"], proj.row_keys(inp, cols)):
        ev["inp"].append(dict(id=rowid(r), obj=f"o{oid(str(o))}", val=inter(v)))
    ev["solo"] = {f"o{oid(str(o))}": v for o, v in solo.items()}
    if res is not None and len(res):
        miss = [c for c in cols + list(ids) + ["object_linked", "date_linked_MJD"] if c not in res.columns]
        if miss:
            ev["error"] = "missing columns " + ",".join(miss)
        else:
            for r, o, v, lk, d in zip(proj.row_keys(res, ids), res["ObjID"], proj.row_keys(res, cols), res["object_linked"], res["date_linked_MJD"]):
                ev["out"].append(dict(id=rowid(r), obj=f"o{oid(str(o))}", val=inter(v), linked=str(lk) in ("True", "1", "1.0"),
                                      date=-1 if d != d else int(d) - L.BASE))
    return ev


def solo_verdicts(objs, P, eff=1.0):
    """Each object alone, under a plain identifier, rows in time order."""
    solo = {}
    for o in objs:
        k = np.argsort(o["mjd"], kind="stable")
        one = dict(id="solo", mjd=[o["mjd"][i] for i in k], ra=[o["ra"][i] for i in k], dec=[o["dec"][i] for i in k])
        v = L.verdicts(L.call(L.frame([one]), P, eff=eff)).get("solo")
        d = v["dates"][0] - L.BASE if v and v["dates"] else -1
        solo[o["id"]] = dict(linked=bool(v and v["linked"]), date=d)
    return solo


def one(ck, case, objs, P, rng, drop, order, eff=1.0):
    solo = ck.observe(case, solo_verdicts, objs, P, eff)
    if solo is None:
        return
    df = table(objs, rng)
    if order == "shuffle":
        df = df.iloc[rng.permutation(len(df))].reset_index(drop=True)
    elif order == "index":
        df = df.iloc[rng.permutation(len(df))]
    elif order == "gaps":
        df.index = np.sort(rng.choice(10 * len(df), len(df), replace=False))
    elif order == "dupindex":
        df.index = np.arange(len(df)) // 2
    inp = df.copy()
    with pl.quiet():
        res, err = pl.guarded(L.call, df, P, eff, drop)
    ck.event("TraceLink", rows_event(inp, res, err, solo, drop), case)


def rates(ck, rng):
    """Thinning by efficiency: one opportunity per object, and several."""
    n = 6000 if env.THOROUGH else 1500
    P = dict(REF, nlink=1)
    mk = lambda k, nights: dict(id=f"r{k}", mjd=[L.BASE + 0.5 + 20 + nn + s / 1024 for nn in nights for s in (300, 320)],
                                ra=list(rng.uniform(0, 360) + np.arange(2 * len(nights)) * 0.01), dec=[0.0, 0.01] * len(nights))
    for p in (0, 150, 500, 950, 1000):
        objs = [mk(k, [0]) for k in range(n)]
        out = ck.observe("rate", L.call, L.frame(objs), P, p / 1000.0, False)
        if out is None:
            return
        g = out.groupby("ObjID")["object_linked"].first()
        ck.event("TraceLink", dict(ev="rate", n=n, k=int(g.sum()), p=p), f"rate/single-{p}")
        # neighbours independent: both of a pair linked at p^2
        vals = [bool(g.get(f"r{k}", False)) for k in range(n)]
        both = sum(a and b for a, b in zip(vals[::2], vals[1::2]))
        ck.event("TraceLink", dict(ev="rate", n=n // 2, k=both, p=int(round(p * p / 1000))), f"rate/pairs-{p}")
    # three opportunities, one per tracklet night: linked at 1-(1-p)^3, on the first with p
    objs = [mk(k, [0, 5, 9]) for k in range(n)]
    out = ck.observe("rate", L.call, L.frame(objs), P, 0.3, False)
    g = out.groupby("ObjID")["date_linked_MJD"].first()
    ck.event("TraceLink", dict(ev="rate", n=n, k=int(g.notna().sum()), p=657), "rate/three")
    ck.event("TraceLink", dict(ev="rate", n=n, k=int((g == L.BASE + 20).sum()), p=300), "rate/three-first")
    ck.event("TraceLink", dict(ev="rate", n=n, k=int((g == L.BASE + 25).sum()), p=210), "rate/three-second")
    # a window of three nights
    P3 = dict(REF, nlink=3, window=15)
    out = ck.observe("rate", L.call, L.frame(objs), P3, 0.6, True)
    ck.event("TraceLink", dict(ev="rate", n=n, k=int(out["ObjID"].nunique()), p=600), "rate/window")
    # same answers again: linking is reproducible
    again = L.call(L.frame(objs), P3, 0.6, True)
    ck.event("TraceLink", dict(ev="rate", n=n, k=n if set(again["ObjID"]) == set(out["ObjID"]) else 0, p=1000), "rate/reproducible")


def pipeline_runs(ck, rng):
    """Whole runs: the run with linking off gives the rows, runs with linking on must keep or annotate them."""
    for k in range(6 if not env.THOROUGH else 30):
        P = [REF, dict(REF, nlink=2, window=6), dict(REF, nlink=1)][k % 3]
        objs = []
        while len(objs) < 7:
            o = random_history(rng, P, "plain")
            if margin_ok(o, P):
                objs.append(dict(o, id=id_style(["plain", "prefix", "long", "space", "tail"][k % 5], len(objs), rng)))
        drop = bool(k % 2)
        case = f"pipeline/{k}"
        extra = {"EXPERT": dict(mag_limit="24.5")} if k % 3 == 2 else {}
        sc = scenario(objs, P, chunk=[1, 2, 7, 100][k % 4], drop=drop, extra=extra)
        off = pl.run(dict(sc, config={**sc["config"], "LINKINGFILTER": None}))
        on = pl.run(sc)
        if off.error or off.out is None:
            ck.fail(case, "no-error", off.error)
            continue
        alive = off.out
        keep = {o["id"]: dict(zip(("mjd", "ra", "dec"), (alive[alive.ObjID == o["id"]][c].tolist() for c in ("fieldMJD_TAI", "RA_deg", "Dec_deg")))) for o in objs}
        solo = solo_verdicts([dict(v, id=i) for i, v in keep.items() if v["mjd"]], P)
        for o in objs:
            solo.setdefault(o["id"], dict(linked=False, date=-1))
        ck.event("TraceLink", rows_event(alive, on.out, on.error, solo, drop), case)


def collect(ck):
    rng = np.random.default_rng(env.SEED + 10)
    ck.mc("LinkPop", workers=2)
    n = 0
    for style in ("plain", "prefix", "numeric", "space", "long", "tail", "case", "zero", "uni"):
        for order in ("time", "shuffle", "index", "gaps", "dupindex"):
            for drop in (False, True):
                for rep in range(6 if env.THOROUGH else 1):
                    P = [REF, dict(REF, nlink=2, window=4), dict(REF, nlink=1, nobs=3)][n % 3]
                    m = int(rng.integers(1, 11))
                    objs = []
                    while len(objs) < m:
                        o = random_history(rng, P, "plain")
                        if margin_ok(o, P):
                            objs.append(dict(o, id=id_style(style, len(objs), rng)))
                    one(ck, f"table/{style}-{order}-{'drop' if drop else 'keep'}", objs, P, rng, drop, order, eff=[1.0, 1.0, 0.5, 0.0][n % 4])
                    n += 1
    # nobody linked, everybody linked
    far = [dict(id=f"n{k}", mjd=[L.BASE + 5.875], ra=[1.0], dec=[2.0]) for k in range(4)]
    near = [dict(id=f"y{k}", mjd=[L.BASE + 5.875, L.BASE + 5.90625], ra=[1.0, 1.01], dec=[2.0, 2.0]) for k in range(4)]
    for drop in (False, True):
        one(ck, f"table/none-{drop}", far, dict(REF, nlink=1), rng, drop, "shuffle")
        one(ck, f"table/all-{drop}", near, dict(REF, nlink=1), rng, drop, "shuffle")
        one(ck, f"table/mixed-{drop}", far + near, dict(REF, nlink=1), rng, drop, "shuffle")
    rates(ck, rng)
    pipeline_runs(ck, rng)


if __name__ == "__main__":
    check.main("C10", collect, ["detections at night; five-sigma bounds on observed rates"])
