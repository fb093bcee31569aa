"""C18: an exported ephemeris: what the file holds, and what a run reading it detects."""
from harness import env, check, pipeline as pl, tlc, world, fakesky as F
import os
import numpy as np
import pandas as pd

EPH = [c for c in pl.EPH_COLS if c not in ("ObjID", "FieldID", "fieldJD_TDB")]
JDE = 60000.0 + 2400000.5
_aux = {}


def aux():
    if env.SCRATCH not in _aux:
        _aux[env.SCRATCH] = F.data_dir(os.path.join(env.SCRATCH, "aux"))
    return _aux[env.SCRATCH]


def ident(rng, k):
    return [f"o{k}", f"{k:05d}", f"{k}e5", "long" * (3 * k + 1) + str(k), f"ünï{k}", f"K15A{k:02d}"][int(rng.integers(6))]


def placed(oid, v, rng, H, near=.8):
    jd = F.jd_of(v["mjd"])
    st = F.object_toward(v["ra"] + float(rng.uniform(-near, near)), v["dec"] + float(rng.uniform(-near, near)), float(rng.uniform(8, 30)), jd, rng.normal(0, .0008, 3), JDE)
    return dict(orbit=F.bcart_row(oid, st, 60000.0), phys={"ObjID": oid, "H_r": H, "g-r": .5, "i-r": -.2, "GS": .15}, eph=[], cpx=dict(ObjID=oid, lp=float(rng.uniform(-.2, .2))))


def sky(rng, survey, cand=None):
    """Objects with cand[k] candidates each (all visits in the requested filters), or a random population."""
    w = world.World(survey)
    w.fmt = "BCART"
    w.args = dict(ar_data_path=aux())
    P, Q, away = (40.0, -25.0), (160.0, 10.0), (280.0, 40.0)
    if cand:
        where = [P, P, Q]
        ts = [60100.2, 60100.2 + float(rng.uniform(.01, .05)), 60100.3]
    else:
        n = int(rng.integers(6, 14))
        where = [[P, Q, (320.0, -5.0)][int(rng.integers(3))] for _ in range(n)]
        ts = 60100.15 + .02 * np.arange(n) + np.sort(rng.integers(0, 6, n))
        if n > 6:  # two telescopes, or one visit listed twice
            ts[4], where[4] = ts[3], where[3]
    for k, (c, t) in enumerate(zip(where, ts)):
        w.visits.append(dict(id=5 * k + 2, mjd=float(t), filter="rgi"[int(rng.integers(3))] if cand or rng.random() < .85 else "z", depth=float(rng.uniform(23, 24.5)), ra=c[0], dec=c[1],
                             rot=float(rng.uniform(0, 360)), c=.9, k=5.0))
    for k in range(len(cand) if cand else int(rng.integers(1, 10))):
        oid = ident(rng, k)
        if cand:
            v = w.visits[{2: 0, 1: 2}[cand[k]]] if cand[k] else dict(mjd=60100.2, ra=away[0], dec=away[1])
            H = 30.0 if not cand[k] and rng.random() < .5 else 7.0
        else:
            v = w.visits[int(rng.integers(len(w.visits)))] if rng.random() < .8 else dict(mjd=60100.2, ra=away[0], dec=away[1])
            H = 30.0 if rng.random() < .15 else float(rng.uniform(4, 12))
        w.objs[oid] = placed(oid, v, rng, H, .8 if cand else 1.6)
    w.config = {"INPUT": dict(ephemerides_type="ar"), "FILTERS": dict(observing_filters="r,g,i"), "PHASECURVES": dict(phase_function="HG"),
                "SIMULATION": dict(ar_ang_fov=str(rng.choice([1.5, 2.06])), ar_fov_buffer="0.2", ar_picket="1", ar_obs_code="X05", ar_healpix_order="6")}
    return w


def settings(rng, survey):
    """Some detection stages."""
    c = {"EXPERT": {}, "FOV": dict(camera_model="none"), "LINKINGFILTER": {}, "FADINGFUNCTION": {}}
    if survey == "rubin_sim":
        c["EXPERT"] = dict(randomization_on=str(rng.random() < .7), vignetting_on=str(rng.random() < .5), trailing_losses_on=str(rng.random() < .5), default_snr_cut=str(rng.random() < .5))
        if rng.random() < .4:
            c["LINKINGFILTER"] = dict(ssp_detection_efficiency=.8, ssp_number_observations=1, ssp_separation_threshold=0.5, ssp_maximum_time=.06, ssp_number_tracklets=1, ssp_track_window=15,
                                      ssp_night_start_utc=16.0, drop_unlinked=str(rng.random() < .5))
        if rng.random() < .5:
            c["FADINGFUNCTION"] = dict(fading_function_on="True", fading_function_width="0.1", fading_function_peak_efficiency="0.8")
    if rng.random() < .6:
        c["FOV"] = dict(camera_model="circle", circle_radius=1.2, fill_factor=.8) if rng.random() < .7 else dict(camera_model="footprint")
    if rng.random() < .4:
        c["EXPERT"]["mag_limit"] = 23.0
    if rng.random() < .3:
        c["SATURATION"] = dict(bright_limit="15.0")
    return {k: v for k, v in c.items() if v or k == "EXPERT"}


def external(sc, a, stem, fmt, chunk=None):
    """The same run, reading the file of run a."""
    path = os.path.join(a.dir, stem + (".h5" if fmt == "hdf5" else ".csv"))
    s = dict(sc, config={k: dict(v) for k, v in sc["config"].items()}, eph=[], args={k: v for k, v in sc["args"].items() if k not in ("ar_data_path", "output_ephemeris_file")})
    s["config"]["INPUT"]["ephemerides_type"] = "external"
    s["config"].pop("SIMULATION")
    if chunk:
        s["config"]["INPUT"]["size_serial_chunk"] = chunk
    s["args"]["input_ephemeris_file"] = path
    return s, path


def table(path, fmt):
    if not os.path.exists(path):
        return None
    if fmt == "hdf5":
        with pd.HDFStore(path, "r") as st:
            return st[st.keys()[0]] if st.keys() else None
    sep = "," if fmt == "csv" else r"\s+"
    return pd.read_csv(path, sep=sep, dtype={"ObjID": str}, float_precision="round_trip")


def err(r):
    return "" if r.error is None else ": ".join(map(str, r.error))[:300]


def common(*fs):
    cols = [c for c in fs[0].columns if all(c in f.columns for f in fs)]
    return [f[cols].astype({"ObjID": str}) for f in fs]


def both(ck, case, w, rng, chunk, fmt, all_used):
    aux_fmt = ["csv", "whitespace"][int(rng.integers(2))]
    stem = ["eph", "eph.v1", "my eph"][int(rng.integers(3))]
    brute = str(rng.random() < .5)
    survey = w.survey
    seed = int(rng.integers(10 ** 6))

    def scn(over, chunk=chunk):
        sc, _ = w.scenario(chunk=chunk, stats=None)
        sc.pop("complex", None)
        sc["config"]["INPUT"].update(eph_format=fmt, aux_format=aux_fmt)
        sc["config"].setdefault("EXPERT", {})["brute_force"] = brute
        for s, kv in over.items():
            sc["config"].setdefault(s, {}).update(kv)
        sc["args"]["output_ephemeris_file"] = stem
        sc["seed"] = seed
        return sc
    # everything the run used comes out
    if all_used:
        u = pl.run(scn({"EXPERT": dict(default_snr_cut="False")} if survey == "rubin_sim" else {}))
        f = table(os.path.join(u.dir, stem + (".h5" if fmt == "hdf5" else ".csv")), fmt)
        book = world.RowBook()
        used = book.ids(u.out[["ObjID", "FieldID", *EPH]]) if u.out is not None else []
        ok = f is None or (list(f.columns) == pl.EPH_COLS)
        inf = [] if f is None or not ok else book.ids(f.astype({"ObjID": str})[["ObjID", "FieldID", *EPH]])
        ck.event("TraceExport", dict(ev="write", error=err(u), used=used, file=inf, columns=ok), case, dict(chunk=chunk, fmt=fmt, brute=brute))
        ck.notes["rows_used"] = ck.notes.get("rows_used", 0) + len(used)
    # the same detections
    over = settings(rng, survey)
    a_sc = scn(over)
    lc = rng.random() < .25
    if lc:
        a_sc["config"]["LIGHTCURVE"] = dict(lc_model="identity")
        a_sc["complex"] = pd.DataFrame([o["cpx"] for o in w.objs.values()])
    a = pl.run(a_sc)
    draws = survey == "DES" or over["EXPERT"].get("randomization_on") == "True" or "FADINGFUNCTION" in over or "fill_factor" in over.get("FOV", {}) or "LINKINGFILTER" in over
    for c in [None] if draws else [None, int(rng.integers(1, 5))]:
        b_sc, path = external(a_sc, a, stem, fmt, c)
        if not os.path.exists(path) or table(path, fmt) is None:
            ck.notes["no_rows_at_all"] = ck.notes.get("no_rows_at_all", 0) + 1
            ck.event("TraceExport", dict(ev="read", same=True, error=err(a), a=[] if a.out is None else [1] * len(a.out), b=[], held=0), case)
            return
        held = len(table(path, fmt))
        b = pl.run(b_sc)
        book = world.RowBook()
        fa, fb = (a.out, b.out)
        if fa is not None and fb is not None and len(fa) and len(fb):
            fa, fb = common(fa, fb)
        ck.event("TraceExport", dict(ev="read", same=c is None, error=err(a) + err(b), a=[] if fa is None else book.ids(fa), b=[] if fb is None else book.ids(fb), held=held), f"{case}-{c or 'same'}",
                 dict(chunk=chunk, fmt=fmt, brute=brute, over=over))
        ck.notes["runs_reading_back"] = ck.notes.get("runs_reading_back", 0) + 1
        ck.notes["detections"] = ck.notes.get("detections", 0) + (0 if fa is None else len(fa))


def pattern(ck, part, scn):
    rng = np.random.default_rng([env.SEED, 18, 1, part])
    for i, s in enumerate(scn):
        survey = "DES" if rng.random() < .2 else "rubin_sim"
        both(ck, f"p{part}-{i}", sky(rng, survey, list(s["cand"])), rng, s["size"], world.FORMATS[int(rng.integers(3))], True)


def mixed(ck, n):
    rng = np.random.default_rng([env.SEED, 18, 2, n])
    survey = "DES" if n % 4 == 3 else "rubin_sim"
    w = sky(rng, survey)
    both(ck, f"m{n}", w, rng, int(rng.choice([1, 2, 3, 1000])), world.FORMATS[n % 3], False)


def collect(ck):
    F.install()
    import sorcha.sorcha, sorcha.des  # noqa
    scn, _ = tlc.scenarios("Export", "ExportGen.cfg")
    scn.sort(key=str)
    ck.notes["chunk_patterns"] = len(scn)
    rng = np.random.default_rng([env.SEED, 18])
    scn = [scn[i] for i in rng.permutation(len(scn))]
    if not env.THOROUGH:
        scn = scn[:160]
    ck.fan([(pattern, k, scn[k::16]) for k in range(16)] + [(mixed, k) for k in range(240 if env.THOROUGH else 60)])
    ck.mc("Export")
    for v in ("overwrite", "skipfirst", "stopempty", "again", "offbyone"):
        ck.mc("Export", f"ExportX_{v}.cfg", contrast=True)
    if env.THOROUGH:
        ck.mc("Export", "ExportBig.cfg")


if __name__ == "__main__":
    check.main("C18", collect, ["the third-party ephemeris libraries are replaced by an analytic sky", "a run without a single candidate leaves nothing to read back"])
