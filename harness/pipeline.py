"""Drives the real pipeline (runLSSTSimulation / runDESSimulation) on scenario files this module writes.

A Scenario is plain data: objects, visits, ephemeris rows, config overrides.  `run` writes the input
files in a scratch directory, builds the configuration with the code's own config reader from an ini
file, and runs the simulation exactly as `sorcha run` does after argument parsing."""
from . import env
import contextlib
import io
import logging
import os
import sqlite3
import copy

import numpy as np
import pandas as pd

AU = 149597870.7

RUBIN_SQL = ("SELECT observationId, observationStartMJD as observationStartMJD_TAI, visitTime, "
             "visitExposureTime, filter, seeingFwhmGeom as seeingFwhmGeom_arcsec, seeingFwhmEff as "
             "seeingFwhmEff_arcsec, fiveSigmaDepth as fieldFiveSigmaDepth_mag, fieldRA as fieldRA_deg, "
             "fieldDec as fieldDec_deg, rotSkyPos as fieldRotSkyPos_deg FROM observations order by "
             "observationId")
DES_SQL = ("SELECT observationId, observationMidpointMJD as observationMidpointMJD_TAI , visitExposureTime, "
           "filter, fiveSigmaDepth as fieldFiveSigmaDepth_mag , fieldRA as fieldRA_deg, fieldDec as "
           "fieldDec_deg, c, k FROM observations order by observationId")

EPH_COLS = ["ObjID", "FieldID", "fieldMJD_TAI", "fieldJD_TDB", "Range_LTC_km", "RangeRate_LTC_km_s", "RA_deg",
            "RARateCosDec_deg_day", "Dec_deg", "DecRate_deg_day", "Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km",
            "Obj_Sun_z_LTC_km", "Obj_Sun_vx_LTC_km_s", "Obj_Sun_vy_LTC_km_s", "Obj_Sun_vz_LTC_km_s",
            "Obs_Sun_x_km", "Obs_Sun_y_km", "Obs_Sun_z_km", "Obs_Sun_vx_km_s", "Obs_Sun_vy_km_s",
            "Obs_Sun_vz_km_s", "phase_deg"]


def base_config(survey="rubin_sim"):
    """Everything optional switched off; sections as dicts."""
    c = {
        "INPUT": dict(ephemerides_type="external", eph_format="csv", size_serial_chunk="1000",
                      aux_format="csv", pointing_sql_query=RUBIN_SQL if survey == "rubin_sim" else DES_SQL),
        "SIMULATION": {},
        "FILTERS": dict(observing_filters="r"),
        "PHASECURVES": dict(phase_function="none"),
        "FOV": dict(camera_model="none"),
        "OUTPUT": dict(output_format="csv", output_columns="all"),
        "EXPERT": dict(),
    }
    if survey == "rubin_sim":
        c["EXPERT"] = dict(randomization_on="False", vignetting_on="False", trailing_losses_on="False")
    else:
        c["FADINGFUNCTION"] = dict(fading_function_on="False")
        c["LINKINGFILTER"] = dict(des_discovery_on="False")
    return c


def merge_config(base, over):
    c = copy.deepcopy(base)
    for sec, kv in (over or {}).items():
        if kv is None:
            c.pop(sec, None)
            continue
        c.setdefault(sec, {})
        for k, v in kv.items():
            if v is None:
                c[sec].pop(k, None)
            else:
                c[sec][k] = str(v)
    return c


def write_ini(path, conf):
    with open(path, "w") as f:
        for sec, kv in conf.items():
            f.write(f"[{sec}]\n")
            for k, v in kv.items():
                f.write(f"{k} = {v}\n")
            f.write("\n")


def write_pointings(path, visits, survey="rubin_sim"):
    """visits: list of dicts id, mjd, filter, depth, ra, dec, rot, vis, exp, seeing, c, k"""
    con = sqlite3.connect(path)
    if survey == "rubin_sim":
        df = pd.DataFrame([dict(observationId=v["id"], observationStartMJD=v["mjd"],
                                visitTime=v.get("vis", 34.0), visitExposureTime=v.get("exp", 30.0),
                                filter=v["filter"], seeingFwhmGeom=v.get("seeing", 0.7),
                                seeingFwhmEff=v.get("seeingEff", v.get("seeing", 0.7)),
                                fiveSigmaDepth=v["depth"], fieldRA=v["ra"], fieldDec=v["dec"],
                                rotSkyPos=v.get("rot", 0.0)) for v in visits])
    else:
        df = pd.DataFrame([dict(observationId=v["id"],
                                observationMidpointMJD=v["mjd"] + v.get("exp", 90.0) / 2.0 / 86400.0,
                                visitExposureTime=v.get("exp", 90.0), filter=v["filter"],
                                fiveSigmaDepth=v["depth"], fieldRA=v["ra"], fieldDec=v["dec"],
                                c=v.get("c", 1.0), k=v.get("k", 5.0)) for v in visits])
    df.to_sql("observations", con, index=False)
    con.close()


def eph_frame(rows):
    """rows: list of dicts obj, field, mjd, ra, dec, [range, rate, rarate, decrate, sun=(x,y,z), phase]"""
    out = []
    for r in rows:
        sx, sy, sz = r.get("sun", (2.0 * AU, 0.0, 0.0))
        out.append([r["obj"], r["field"], r["mjd"], r.get("jd", r["mjd"] + 2400000.5 + 0.0008), r.get("range", AU),
                    r.get("rrate", 1.0), r["ra"], r.get("rarate", 0.1), r["dec"], r.get("decrate", 0.0),
                    sx, sy, sz, 1.0, 2.0, 3.0, 1.0e8, 2.0e7, 3.0e7, 4.0, 5.0, 6.0, r.get("phase", 5.0)])
    return pd.DataFrame(out, columns=EPH_COLS)


def write_table(path, df, fmt):
    if fmt in ("csv", "comma"):
        df.to_csv(path, index=False)
    elif fmt == "whitespace":
        df.to_csv(path, index=False, sep=" ")
    elif fmt == "hdf5":
        df = df.astype({"ObjID": object})
        with pd.HDFStore(path, "w") as st:  # in two pieces, as exported chunk by chunk
            k = len(df) // 2
            for part in ([df] if k == 0 else [df.iloc[:k], df.iloc[k:]]):
                st.append("data", part.reset_index(drop=True), format="table", data_columns=True, min_itemsize={"ObjID": 80})
    else:
        raise ValueError(fmt)


def orbit_frame(objs, fmt="COM"):
    """objs: list of dicts id, q, e ..."""
    rows = []
    for k, o in enumerate(objs):
        el = o.get("el", (2.5 + 0.001 * k, 0.1, 5.0, 10.0 + k, 20.0, 60000.0 + k))
        rows.append([o["id"], o.get("fmt", fmt), *el, o.get("epoch", 60000.0)])
    cols = {"COM": ["q", "e", "inc", "node", "argPeri", "t_p_MJD_TDB"],
            "KEP": ["a", "e", "inc", "node", "argPeri", "ma"],
            "CART": ["x", "y", "z", "xdot", "ydot", "zdot"]}[fmt.lstrip("B")]
    return pd.DataFrame(rows, columns=["ObjID", "FORMAT", *cols, "epochMJD_TDB"])


class Raised(Exception):
    pass


class Result:
    """What one run of the pipeline did."""

    def __init__(self):
        self.error = None  # None or (type name, message)
        self.out = None  # detections, or None when no file was written
        self.stats = None
        self.log = ""
        self.dir = None


class _Capture(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        try:
            self.lines.append(record.getMessage())
        except Exception:
            pass


@contextlib.contextmanager
def quiet():
    root = logging.getLogger()
    old, oldlevel = root.handlers[:], root.level
    cap = _Capture()
    root.handlers[:] = [cap]
    root.setLevel(logging.INFO)
    import warnings
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), \
                warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield cap
    finally:
        root.handlers[:] = old
        root.setLevel(oldlevel)


def guarded(fn, *a, **k):
    """(value, None) or (None, (exception type, message)); SystemExit counts as a clean refusal."""
    try:
        return fn(*a, **k), None
    except SystemExit as e:
        return None, ("SystemExit", str(e.code))
    except Exception as e:  # noqa
        return None, (type(e).__name__, str(e))


def setup(sc, d=None):
    """Write the files of a scenario; return (directory, argument dictionary, ini path)."""
    d = d or env.scratch("run")
    survey = sc.get("survey", "rubin_sim")
    conf = merge_config(base_config(survey), sc.get("config"))
    ini = os.path.join(d, "config.ini")
    write_ini(ini, conf)
    aux = conf["INPUT"]["aux_format"]
    auxfmt = "csv" if aux in ("csv", "comma") else aux
    p = lambda n: os.path.join(d, n)
    write_pointings(p("pointing.db"), sc["visits"], survey)
    orb = sc["orbits"] if "orbits" in sc else orbit_frame(sc["objects"])
    write_table(p("orbits.txt"), orb, auxfmt)
    phys = sc["phys"] if "phys" in sc else pd.DataFrame(
        [{"ObjID": o["id"], "H_r": o.get("H", 10.0)} for o in sc["objects"]])
    write_table(p("phys.txt"), phys, auxfmt)
    args = dict(paramsinput=p("phys.txt"), orbinfile=p("orbits.txt"), configfile=ini,
                outpath=sc.get("outpath", d), outfilestem=sc.get("stem", "out"), pointing_database=p("pointing.db"),
                loglevel=sc.get("verbose", False), stats=sc.get("stats"), visits_database=sc.get("visits_db"),
                surveyname=survey, seed=sc.get("seed", 42))
    if conf["INPUT"]["ephemerides_type"] == "external":
        ef = conf["INPUT"]["eph_format"]
        eph = sc["eph"] if isinstance(sc["eph"], pd.DataFrame) else eph_frame(sc["eph"])
        write_table(p("eph.dat"), eph, ef)
        args["input_ephemeris_file"] = p("eph.dat")
    if "complex" in sc:
        write_table(p("cpx.txt"), sc["complex"], auxfmt)
        args["complex_physical_parameters"] = p("cpx.txt")
    args.update(sc.get("args", {}))
    return d, args, ini


def read_out(d, stem, fmt):
    path = os.path.join(d, stem + {"csv": ".csv", "sqlite3": ".db", "hdf5": ".h5"}[fmt])
    if not os.path.exists(path):
        return None
    if fmt == "csv":
        return pd.read_csv(path, dtype={"ObjID": str}, float_precision="round_trip")
    if fmt == "sqlite3":
        con = sqlite3.connect(path)
        try:
            return pd.read_sql("select * from sorcha_results", con)
        finally:
            con.close()
    return pd.read_hdf(path, "sorcha_results")


def run(sc, d=None, return_only=False):
    from sorcha.sorcha import runLSSTSimulation
    from sorcha.des import runDESSimulation
    from sorcha.utilities.sorchaArguments import sorchaArguments
    from sorcha.utilities.sorchaConfigs import sorchaConfigs

    d, args, ini = setup(sc, d)
    survey = sc.get("survey", "rubin_sim")
    res = Result()
    res.dir = d

    def go():
        a = sorchaArguments(args)
        conf = sorchaConfigs(ini, survey)
        if "rngs" in sc:
            a._rngs = sc["rngs"](a._rngs)
        if "prepare" in sc:
            sc["prepare"](a, conf)
        fn = runLSSTSimulation if survey == "rubin_sim" else runDESSimulation
        return fn(a, conf, return_only=True) if return_only else fn(a, conf)

    with quiet() as cap:
        val, err = guarded(go)
    res.error = err
    res.log = cap.lines
    if return_only:
        res.out = val
        return res
    fmt = merge_config(base_config(survey), sc.get("config"))["OUTPUT"].get("output_format")
    if fmt in ("csv", "sqlite3", "hdf5"):
        try:
            res.out = read_out(args["outpath"], args["outfilestem"], fmt)
        except Exception as e:  # an output nobody can read back
            res.error = res.error or ("Unreadable", str(e))
    if args["stats"]:
        sp = os.path.join(args["outpath"], args["stats"] + ".csv")
        if os.path.exists(sp):
            res.stats = pd.read_csv(sp, dtype={"ObjID": str}, float_precision="round_trip")
    return res
