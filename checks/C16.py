"""C16: configurations: accepted exactly when valid, and meaning what they say."""
from harness import env, check, cli, pipeline as pl, tlc, world
import json
import math
import os
import re
import numpy as np
import pandas as pd

SECTIONS = ["INPUT", "SIMULATION", "FILTERS", "SATURATION", "PHASECURVES", "FOV", "FADINGFUNCTION", "LINKINGFILTER", "OUTPUT", "LIGHTCURVE", "ACTIVITY", "EXPERT"]


def part(s):
    s = s.strip()
    if re.fullmatch(r"[+-]?\d+", s):
        return dict(t="int", n=1000 * int(s), s=s)
    if re.fullmatch(r"[+-]?(\d+\.\d*|\.\d+)", s):
        return dict(t="real", n=round(1000 * float(s)), s=s)
    return dict(t="nan" if s == "nan" else "word", n=0, s=s)


def value(s):
    return dict(part(s), l=[part(p) for p in s.split(",")])


def held(x):
    """What the code made of a key."""
    if x is None:
        return dict(t="none", n=0, s="", l=[])
    if isinstance(x, (bool, np.bool_)):
        return dict(t="bool", n=0, s=str(bool(x)), l=[])
    if isinstance(x, (int, np.integer)):
        return dict(t="int", n=1000 * int(x), s=str(int(x)), l=[])
    if isinstance(x, float):
        return dict(t="nan", n=0, s="nan", l=[]) if math.isnan(x) else dict(t="real", n=round(1000 * max(-1e6, min(1e6, x))), s=repr(x), l=[])
    if isinstance(x, (list, tuple, np.ndarray)):
        return dict(t="list", n=0, s="", l=[{k: v for k, v in held(y).items() if k != "l"} for y in x])
    return dict(t="word", n=0, s=str(x), l=[])


def text(c, rng, sub=None):
    """The file: sections in any order, empty ones sometimes there, keys in upper case sometimes."""
    secs = {}
    for k, s in c.items():
        sec, key = k.split(".", 1)
        s = {"@file": FILES["@file"], "@nofile": "/nonexistent/footprint.csv"}.get(s, s)
        if sub:
            s = sub(k, s)
        secs.setdefault(sec, []).append(f"{key.upper() if rng.random() < .2 else key}{' ' * int(rng.integers(3))}{'=:'[int(rng.random() < .2)]} {s}\n")
    for s in SECTIONS:
        if s not in secs and rng.random() < .3:
            secs[s] = []
    names = list(secs)
    out = ""
    for j in rng.permutation(len(names)):
        lines = secs[names[j]]
        out += f"[{names[j]}]\n" + ("# remark\n" if rng.random() < .3 else "") + "".join(lines[i] for i in rng.permutation(len(lines))) + "\n"
    return out


FILES = {}


def ready():
    d = env.scratch("files")
    FILES["@file"] = os.path.join(d, "corners.csv")
    pd.DataFrame(dict(detector=[1, 1, 1, 1], x=[-.5, .5, .5, -.5], y=[-.5, -.5, .5, .5])).to_csv(FILES["@file"], index=False)


def keys(known=[]):
    if not known:
        t = open(os.path.join(tlc.SPEC, "ConfigRules.tla")).read()
        known += [x if "." in x else "LINKINGFILTER." + x for x in re.findall(r'"([A-Z]+\.[a-z_]+|ssp_[a-z_]+)"', t[t.index("Ssp =="):t.index("Mandatory ==")])]
    return known


def look(ck, sv, c, case, rng, path=None):
    """The real reader."""
    from sorcha.utilities.sorchaConfigs import sorchaConfigs, PrintConfigsToLog
    from types import SimpleNamespace as NS
    example = path is not None
    if not example:
        path = os.path.join(env.SCRATCH, "c.ini")
        with open(path, "w") as f:
            f.write(text(c, rng))
    with pl.quiet():
        conf, err = pl.guarded(sorchaConfigs, path, sv)
        ev = dict(ev="config", example=example, sv=sv, c={k: value(s) for k, s in c.items()}, outcome="accepted" if err is None else "refused" if err[0] == "SystemExit" else "failed",
                  words=err is not None and len(err[1]) > 10, error="" if err is None or err[0] == "SystemExit" else f"{err[0]}: {err[1][:200]}", log="", held={}, parts={})
        if err is None:
            for k in keys():
                sec, key = k.split(".")
                x = getattr(getattr(conf, sec.lower()), key)
                ev["held"][k] = held(x)
                if ev["held"][k]["s"] == FILES["@file"]:
                    ev["held"][k]["s"] = "@file"
            on = lambda x: bool(x) if x in (None, True, False) else str(x)
            lf = conf.linkingfilter
            ev["parts"] = dict(saturation=on(conf.saturation.bright_limit_on), linking=on(lf.ssp_linking_on), snr=on(conf.expert.snr_limit_on), mag=on(conf.expert.mag_limit_on), distance=on(lf.distance_cut_on),
                               motion=on(lf.motion_cut_on), fading=on(conf.fadingfunction.fading_function_on), discovery=on(lf.des_discovery_on))
            conf.filters.mainfilter = "r"
            _, err = pl.guarded(PrintConfigsToLog, conf, NS(configfile=path, paramsinput="p", orbinfile="o", input_ephemeris_file=None if c["INPUT.ephemerides_type"] == "ar" else "e", output_ephemeris_file=None,
                                                           surveyname=sv, pointing_database="d", outpath="x", outfilestem="y", visits="v"))
            ev["log"] = "" if err is None else f"{err[0]}: {err[1][:200]}"
    ck.event("TraceConfig", ev, case)
    ck.notes["configurations"] = ck.notes.get("configurations", 0) + 1
    ck.notes[ev["outcome"]] = ck.notes.get(ev["outcome"], 0) + 1


def part_of(ck, scn, tag, seed):
    rng = np.random.default_rng([env.SEED, 16, seed])
    for j, s in enumerate(scn):
        look(ck, s["sv"], s["c"], f"{tag}", rng)


def examples(ck):
    """The files that come with the code."""
    import configparser
    import glob
    root = os.path.join(env.REPO, "src", "sorcha", "data")
    for p in sorted(glob.glob(os.path.join(root, "survey_setups", "*.ini")) + glob.glob(os.path.join(root, "demo", "*.ini"))):
        cp = configparser.ConfigParser(interpolation=None)
        cp.read(p)
        look(ck, "DES" if "DES" in os.path.basename(p) else "rubin_sim", {f"{s}.{k}": v for s in cp.sections() for k, v in cp[s].items()}, os.path.basename(p), None, path=p)


def mutants(ck, bases, edits, n, seed):
    """More edits at a time, anywhere."""
    rng = np.random.default_rng([env.SEED, 1616, seed])
    good = {}
    for b in bases:
        for k, s in b["c"].items():
            good.setdefault((b["sv"], k), set()).add(s)
    for j in range(n):
        b = bases[int(rng.integers(len(bases)))]
        c = dict(b["c"])
        for _ in range(int(rng.integers(2, 7))):
            k, s = edits[int(rng.integers(len(edits)))]
            if s is None:
                if rng.random() < .3:
                    c.pop(k, None)
            elif rng.random() < .6 and s in ("x", "nan"):
                continue
            else:
                c[k] = s
        look(ck, b["sv"], c, f"many", rng)


# -- runs --------------------------------------------------------------------------------------------------
def runs(ck, scn, seed):
    from checks.C23 import Q
    rng = np.random.default_rng([env.SEED, 161616, seed])
    for s in scn:
        sv, c = s["sv"], dict(s["c"])
        filters = [f.strip() for f in c.get("FILTERS.observing_filters", "r").split(",")]
        allf = list("rugizy") if sv == "rubin_sim" else list("rgizY")
        w = world.rich(rng, sv, n=4, nvis=12, filters=allf)
        for j, v in enumerate(w.visits):
            v["filter"] = allf[j % len(allf)]
            v["mjd"] = int(v["mjd"]) + .15 + .2 * (v["mjd"] % 1)  # by night
            for o in w.objs.values():
                for e in o["eph"]:
                    if e["field"] == v["id"]:
                        e["mjd"] = v["mjd"]
        main = filters[0] if filters[0] in allf else "r"
        for o in w.objs.values():
            H = o["phys"]["H_r"]
            o["phys"] = {"ObjID": o["phys"]["ObjID"], f"H_{main}": H, **{f"{f}-{main}": .1 for f in allf if f != main}, "GS": .15, "G1": .3, "G2": .3, "G12": .2, "S": .04}
            o["cpx"] = dict(ObjID=o["phys"]["ObjID"], p=1)
        w.config = {}
        sc, _ = w.scenario(rng=rng)
        sc["config"] = {"INPUT": dict(aux_format="whitespace" if c.get("INPUT.aux_format") == "whitespace" else "csv", eph_format=c.get("INPUT.eph_format") if c.get("INPUT.eph_format") in world.FORMATS else "csv")}
        if c.get("FOV.camera_model") == "visits_footprint" or (c.get("FOV.visits_query") and rng.random() < .8):
            con = os.path.join(env.scratch("v"), "v.db")
            from checks import C23
            C23.database(con, [(v["ra"] - .5, v["dec"] - .5, v["ra"] + .5, v["dec"] - .5, v["ra"] + .5, v["dec"] + .5, v["ra"] - .5, v["dec"] + .5, v["ra"], v["dec"], 3, v["id"], 23.0) for v in w.visits])
            sc["visits_db"] = con
        d, args, ini = pl.setup(sc)
        sql = pl.RUBIN_SQL if sv == "rubin_sim" else pl.DES_SQL
        with open(ini, "w") as f:
            f.write(text(c, rng, lambda k, s: sql if k == "INPUT.pointing_sql_query" else Q if k == "FOV.visits_query" else s))
        r = cli.run("run", cli.sorcha_run(args, ini))
        wrote = [f for f in os.listdir(args["outpath"]) if f.startswith(args["outfilestem"]) and f.endswith((".csv", ".db", ".h5"))]
        ck.event("TraceConfig", dict(ev="run", sv=sv, c={k: value(x) for k, x in c.items()}, outcome="refused" if r.refused else "done" if r.raised is None else "failed", wrote=bool(wrote),
                                     error=r.err[-600:] if r.raised or r.refused else ""), "run")
        ck.notes["runs"] = ck.notes.get("runs", 0) + 1


def collect(ck):
    rng = np.random.default_rng([env.SEED, 16])
    ready()
    cli.warm()
    one, r = tlc.scenarios("Config", "ConfigGen1.cfg", workers=4)
    one.sort(key=lambda s: json.dumps([s["sv"], sorted(s["c"].items())]))
    ck.states += r["states"]
    bases = [s for s in one if s["v"] == "accepted"]
    edits = sorted({(k, v) for s in one for k, v in s["c"].items()})
    edits += [(k, None) for k in sorted({k for k, _ in edits})]
    two = one
    if env.THOROUGH:
        two, r = tlc.scenarios("Config", "ConfigGen.cfg", workers=8)
        two.sort(key=lambda s: json.dumps([s["sv"], sorted(s["c"].items())]))
        ck.states += r["states"]
    tasks = [(part_of, two[k::8], "edits", k) for k in range(8)]
    tasks += [(examples,)]
    tasks += [(mutants, bases, edits, 2000 if env.THOROUGH else 250, k) for k in range(8)]
    ok = [s for s in one if s["v"] == "accepted" and s["c"]["INPUT.ephemerides_type"] == "external"]
    no = [s for s in one if s["v"] == "refused"]
    n = 200 if env.THOROUGH else 32
    some = [ok[i] for i in rng.permutation(len(ok))[:2 * n]] + [no[i] for i in rng.permutation(len(no))[:n]]
    tasks += [(runs, some[k::8], k) for k in range(8)]
    ck.fan(tasks)
    ck.mc("Config")
    for v in ("simulation", "nan"):
        ck.mc("Config", f"ConfigX_{v}.cfg", contrast=True)
    if env.THOROUGH:
        ck.mc("Config", "ConfigBig.cfg", workers=8, coverage=False)


if __name__ == "__main__":
    check.main("C16", collect, ["settings the documentation says nothing about are left open, but must not end in an internal failure"])
