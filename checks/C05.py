"""C05: each detection carries its own visit's and its own object's data."""
from harness import env, check, pipeline as pl, world as W, proj
import numpy as np
import pandas as pd

AU = pl.AU
PARAMS = {"HG": ["GS"], "HG1G2": ["G1", "G2"], "HG12": ["G12"], "linear": ["S"], "none": []}
LO = {"GS": (.0, .5), "G1": (.1, .6), "G2": (.05, .35), "G12": (.1, .9), "S": (.01, .1)}


def curve(fn, par, alpha):
    """Reduced magnitude of an object of H = 0 (the phase functions are sbpy's)."""
    import astropy.units as u
    from sbpy.photometry import HG, HG1G2, HG12_Pen16, LinearPhaseFunc
    a = np.array([alpha]) * u.deg
    if fn == "none":
        return 0.0
    if fn == "HG":
        return float(HG(H=0 * u.mag, G=par["GS"])(a).value[0])
    if fn == "HG1G2":
        return float(HG1G2(H=0 * u.mag, G1=par["G1"], G2=par["G2"])(a).value[0])
    if fn == "HG12":
        return float(HG12_Pen16(H=0 * u.mag, G12=par["G12"])(a).value[0])
    return par["S"] * alpha


def r6(x):
    return round(float(x), 6)


def tok(r, cols):
    """Values as text; those of the inputs have few digits."""
    return [str(r[c]) if isinstance(r.get(c), str) else "missing" if c not in r or r[c] != r[c] else f"{float(r[c]):.10g}" for c in cols]


VIS = {"rubin_sim": ["fieldMJD_TAI", "visitTime", "visitExposureTime", "optFilter", "seeingFwhmGeom_arcsec", "seeingFwhmEff_arcsec", "fieldFiveSigmaDepth_mag", "fieldRA_deg", "fieldDec_deg", "fieldRotSkyPos_deg"],
       "DES": ["fieldMJD_TAI", "visitExposureTime", "optFilter", "fieldFiveSigmaDepth_mag", "fieldRA_deg", "fieldDec_deg", "c", "k"]}
SRC = dict(fieldMJD_TAI="mjd", visitTime="vis", visitExposureTime="exp", optFilter="filter", seeingFwhmGeom_arcsec="seeing", seeingFwhmEff_arcsec="seeingEff", fieldFiveSigmaDepth_mag="depth",
           fieldRA_deg="ra", fieldDec_deg="dec", fieldRotSkyPos_deg="rot", c="c", k="k")
CAND = ["RATrue_deg", "DecTrue_deg", "Range_LTC_km", "RangeRate_LTC_km_s", "RARateCosDec_deg_day", "DecRate_deg_day", "phase_deg", "Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km", "Obj_Sun_z_LTC_km", "Obs_Sun_x_km", "Obs_Sun_vz_km_s", "Obj_Sun_vx_LTC_km_s"]
ORB = {"COM": ["q", "e", "inc", "node", "argPeri", "t_p_MJD_TDB"], "KEP": ["a", "e", "inc", "node", "argPeri", "ma"], "CART": ["x", "y", "z", "xdot", "ydot", "zdot"]}


def build(rng, survey, filters, fn, per, fmt):
    w = W.rich(rng, survey, n=int(rng.integers(3, 8)), nvis=25, filters=filters, phase="none")
    w.fmt = fmt
    ids = rng.permutation(np.arange(1, 400))[: len(w.visits)] * int(rng.choice([1, 3, 100003, 6_000_000_007]))
    new = {}
    for v, i in zip(w.visits, ids):
        new[v["id"]] = int(i)
        v["id"] = int(i)
        for k in ("mjd", "depth", "ra", "dec", "rot", "seeing", "seeingEff", "c", "k"):
            v[k] = r6(v[k])
        v["vis"] = v["exp"] + float(rng.integers(1, 9))
        if survey == "DES":  # its own start is what the visit table yields
            v["exp"] = float(rng.choice([90., 45., 200.]))
    main = filters[0]
    for k, o in enumerate(w.objs.values()):
        el = [r6(x) for x in rng.uniform(.1, 3, 6)]
        el[1] = r6(el[1] / 4) if fmt != "CART" else el[1]
        o["orbit"] = [o["orbit"][0], fmt, *el, 60000.0 + k]
        ph = o["phys"]
        for c in list(ph):
            if c != "ObjID":
                ph[c] = r6(ph[c])
        par = {}
        for f in filters:
            par[f] = {p: r6(rng.uniform(*LO[p])) if per or f == main else par[main][p] for p in PARAMS[fn]}
        for p in PARAMS[fn]:
            if per:
                ph.update({p + f: par[f][p] for f in filters})
            else:
                ph[p] = par[main][p]
        ph["albedo"] = r6(rng.uniform(0, 1))
        keys = [c for c in ph if c != "ObjID"]
        keys = ["ObjID", *[keys[i] for i in np.random.default_rng(len(filters) + len(keys)).permutation(len(keys))]]  # columns in any order
        o["phys"] = {c: ph[c] for c in keys}
        o["par"] = par
        for e in o["eph"]:
            e["field"] = new[e["field"]]
            v = next(x for x in w.visits if x["id"] == e["field"])
            e["mjd"] = v["mjd"]
            for c in ("ra", "dec", "rarate", "decrate", "rrate", "phase"):
                e[c] = r6(e[c])
            e["range"] = round(e["range"], 1)
            e["sun"] = tuple(round(x, 1) for x in e["sun"])
        if rng.random() < .5 and o["eph"]:  # a visit nobody has heard of
            o["eph"].append(dict(o["eph"][0], field=[999_999_999, o["eph"][0]["field"] + 2 ** 32][len(o["eph"]) % 2]))
    w.config["PHASECURVES"] = dict(phase_function=fn)
    return w


def tables(w, filters):
    V = VIS[w.survey]
    cols = ["FORMAT", *ORB[w.fmt], "epochMJD_TDB", f"H_{filters[0]}", "albedo"]
    vis = {str(v["id"]): dict(f=v["filter"], tok=tok({c: v[SRC[c]] for c in V}, V)) for v in w.visits}
    objs = {}
    for i, o in w.objs.items():
        src = dict(zip(["ObjID", "FORMAT", *ORB[w.fmt], "epochMJD_TDB"], o["orbit"]), **o["phys"])
        m = filters[0]
        objs[i] = dict(tok=tok(src, cols), H=int(round(o["phys"][f"H_{m}"] * 10 ** 6)), colour={f: int(round(o["phys"][f"{f}-{m}"] * 10 ** 6)) if f != m else 0 for f in filters})
    return dict(ev="tables", visits=vis, objects=objs, main=filters[0], req=filters), cols


def cands(w, filters, fn):
    out = []
    for i, o in w.objs.items():
        for e in o["eph"]:
            src = pl.eph_frame([e]).iloc[0].to_dict()
            src.update(RATrue_deg=src["RA_deg"], DecTrue_deg=src["Dec_deg"])
            geo = 5 * np.log10(e["range"] / AU) + 5 * np.log10(np.linalg.norm(e["sun"]) / AU)
            out.append(dict(o=i, v=str(e["field"]), tok=tok(src, CAND), shape={f: int(round((geo + curve(fn, o["par"][f], e["phase"])) * 10 ** 6)) for f in filters}))
    return out


def world(ck, rep):
    rng = np.random.default_rng([env.SEED, 5, rep])
    survey = "DES" if rep % 4 == 3 else "rubin_sim"
    filters = [list("rgi"), list("gr"), ["r"], list("zyrgiu"), list("igr"), ["g"], list("ugrizy"), list("yr")][rep % 8] if survey == "rubin_sim" else [list("grizY"), list("rg"), ["z"], list("Yzig")][rep // 4 % 4]
    fn = ["HG", "HG1G2", "HG12", "linear", "none"][rep % 5]
    per = bool(rep // 2 % 2)
    fmt = ["COM", "KEP", "CART"][rep % 3]
    w = build(rng, survey, filters, fn, per, fmt)
    case = f"{survey}/{fn}/{'by-filter' if per else 'single'}/{len(filters)}"
    t, ocols = tables(w, filters)
    cs = cands(w, filters, fn)
    ck.event("TraceMatch", t, case)
    for k, kind in enumerate(["plain", "shuffled", "chunks", "effects", "cuts"]):
        mixed = kind in ("shuffled", "chunks")
        sc, _ = w.scenario(chunk=2 if kind == "chunks" else 1000, order={"orbits", "phys", "eph", "visits"} if mixed else (), rng=rng, stats=None)
        c = sc["config"]
        ex = c.setdefault("EXPERT", {})
        if mixed:
            rest = [filters[1:][i] for i in rng.permutation(len(filters) - 1)]
            c["FILTERS"]["observing_filters"] = ", ".join([filters[0], *rest]) if kind == "shuffled" else ",".join([filters[0], *rest])
            sc["phys"] = sc["phys"][["ObjID", *[sc["phys"].columns[1:][i] for i in rng.permutation(len(sc["phys"].columns) - 1)]]]
            sql = pl.RUBIN_SQL if survey == "rubin_sim" else pl.DES_SQL
            a, b = sql[len("SELECT "):].split(" FROM ")
            parts = [x.strip() for x in a.split(",")]
            c["INPUT"]["pointing_sql_query"] = "SELECT " + ", ".join(parts[i] for i in rng.permutation(len(parts))) + " FROM observations"
        c["INPUT"].update(aux_format=["csv", "whitespace"][(rep + k) % 2], eph_format=["csv", "whitespace", "hdf5"][(rep + k) % 3 if rep % 4 == 0 else (rep + k) % 2])
        if kind in ("effects", "cuts") and survey == "rubin_sim":
            ex.update(vignetting_on="True", trailing_losses_on="True", randomization_on="True")
        if kind == "cuts":
            ex["mag_limit"] = "23.0"
            c["FOV"] = dict(camera_model="circle", circle_radius="1.5")
        whole = not (kind == "cuts" or (kind == "effects" and survey == "rubin_sim"))
        r = pl.run(sc)
        rows = []
        for d in [] if r.out is None else r.out.to_dict("records"):
            rows.append(dict(o=str(d["ObjID"]), v=str(int(d["FieldID"])), f=str(d["optFilter"]), tok=tok(d, CAND), vtok=tok(d, VIS[survey]), otok=tok(d, ocols),
                             mag=int(round(d["trailedSourceMagTrue"] * 10 ** 6)) if np.isfinite(d["trailedSourceMagTrue"]) else -1))
        ck.event("TraceMatch", dict(ev="rows", cand=cs, rows=rows, whole=whole, error="" if r.error is None else f"{r.error[0]}: {r.error[1][:200]}"), f"{case}/{kind}")


def collect(ck):
    import sorcha.sorcha, sorcha.des  # noqa
    import sbpy.photometry  # noqa
    ck.fan([(world, rep) for rep in range(160 if env.THOROUGH else 24)])
    ck.mc("Match")
    for v in ("allfilters", "unmasked"):
        ck.mc("Match", f"MatchX_{v}.cfg", contrast=True)


if __name__ == "__main__":
    check.main("C05", collect, ["the main filter is the first of the requested ones, as documented", "phase curves are those of sbpy; magnitudes to 2e-6"])
