"""C04: inconsistent inputs are refused, never silently mixed.  TLC enumerates inputs; each is rendered as real files and run."""
from harness import env, check, tlc, pipeline as pl, world as W, runs
import numpy as np
import pandas as pd

EL = {"COM": ["q", "e", "inc", "node", "argPeri", "t_p_MJD_TDB"], "KEP": ["a", "e", "inc", "node", "argPeri", "ma"], "CART": ["x", "y", "z", "xdot", "ydot", "zdot"]}


def elements(f):
    f = f.upper().lstrip("B")
    return EL.get(f if f in EL else "COM")


def orbits(s, rng):
    cols = elements(s["fmts"][0])
    if s["cols"] == "otherset":
        cols = EL["KEP"] if cols is not EL["KEP"] else EL["COM"]
    fm = s["fmts"] + [s["fmts"][-1]] * (len(s["orb"]) - len(s["fmts"]))
    d = dict(ObjID=s["orb"], FORMAT=fm[: len(s["orb"])])
    for c in cols:
        d[c] = rng.uniform(.1, .8, len(s["orb"])) * (100 if c in ("inc", "node", "argPeri", "ma") else 1)
    d["epochMJD_TDB"] = 60000.0
    df = pd.DataFrame(d)
    if s["cols"] == "missing":
        df = df.drop(columns=[[*cols, "epochMJD_TDB"][int(rng.integers(7))]])
    elif s["cols"] == "extra":
        df["extra"] = 1.0
    elif s["cols"] == "noformat":
        df = df.drop(columns="FORMAT")
    # any order of the other columns
    rest = [c for c in df.columns if c != "ObjID"]
    return df[["ObjID", *[rest[i] for i in rng.permutation(len(rest))]]]


def render(s, rng, survey):
    ids = sorted({*s["orb"], *s["phys"], "a", "b", "c"})
    visits, eph = [], []
    for k, o in enumerate(ids):
        bad = o in s["orb"] and s["orb"].index(o) < len(s["times"]) and not s["times"][s["orb"].index(o)]
        for j, f in enumerate(s["req"]):
            v = dict(id=10 * k + j, mjd=60000.0 + k + j * .1, filter=f, depth=24.0, ra=30.0, dec=-20.0)
            visits.append(v)
            off = [2.0, -1.5, 400.0, 0.9][int(rng.integers(4))] if bad and j == len(s["req"]) - 1 else 0.0
            eph.append(dict(obj=o, field=v["id"], mjd=v["mjd"] + off, ra=30.0, dec=-20.0))
    ph = pd.DataFrame(dict(ObjID=s["phys"]))
    cols = {}
    if s["main"] != "none":
        cols["H_" + s["main"]] = 10.0
        for f in s["colours"]:
            cols[f"{f}-{s['main']}"] = .3
    else:
        for f in s["colours"]:
            cols[f"{f}-r"] = .3
    cols["GS"] = .15
    names = list(cols)
    for i in rng.permutation(len(names)):
        ph[names[i]] = cols[names[i]]
    sc = dict(survey=survey, objects=[dict(id=o) for o in s["orb"]], orbits=orbits(s, rng), phys=ph, visits=visits, eph=eph,
              config={"INPUT": dict(size_serial_chunk=s["chunk"], aux_format=["csv", "whitespace"][int(rng.integers(2))]), "FILTERS": dict(observing_filters=",".join(s["req"])), "PHASECURVES": dict(phase_function="HG")})
    if s["cpx"] != ["off"]:
        sc["complex"] = pd.DataFrame(dict(ObjID=s["cpx"], shift=.1, other=1.0))
        sc["config"]["LIGHTCURVE"] = dict(lc_model="verif_shift")
    return sc


def collect(ck):
    rng = np.random.default_rng(env.SEED + 4)
    W.register_lc()
    scn, r = tlc.scenarios("Inputs")
    ck.states += r["states"]
    ck.transitions += r["transitions"]
    ck.notes["inputs_enumerated_by_TLC"] = len(scn)
    if not env.THOROUGH:
        scn = [scn[i] for i in rng.permutation(len(scn))]
    for k, s in enumerate(scn):
        for survey in (("rubin_sim", "DES") if env.THOROUGH else (("rubin_sim", "DES")[k % 2],)):
            res = pl.run(render(s, rng, survey))
            rows = [] if res.out is None else sorted(set(res.out["ObjID"]))
            ck.event("TraceInputs", dict(ev="run", refused=res.error is not None, clean=res.error is None or res.error[0] == "SystemExit", completed=runs.DONE in res.log, rows=rows, **{"in": s}),
                     case(s, survey), replay=dict(survey=survey, error=res.error))


def case(s, survey):
    b = dict(orb=["a", "b", "c"], phys=["a", "b", "c"], cpx=["off"], fmts=["COM"] * 3, cols="exact", main="r", req=["r", "g"], colours=["g"], times=[True] * 3)
    return survey + "/" + (";".join(f"{k}={','.join(map(str, v)) if isinstance(v, list) else v}" for k, v in s.items() if k != "chunk" and b[k] != v) or "base") + f";chunk={s['chunk']}"


if __name__ == "__main__":
    check.main("C04", collect, ["an ephemeris time contradicts the visit database when it is off by 0.9 d or more", "the main filter, when requested, is listed first (documented)"])
