"""C24: brightness models: registries and what a run does with the chosen ones."""
from harness import env, check, cli, pipeline as pl, world
import json
import os
import numpy as np
import pandas as pd

NAMES = ["n1", "N1", "n12", "identity", "n2", "None", "nones"]
book = {"path": None}


def tell(**ev):
    with open(book["path"], "a") as f:
        f.write(json.dumps(ev) + "\n")


def keys(df):
    return [f"{o}|{int(f)}" for o, f in zip(df["ObjID"], df["FieldID"])]


def define(kind, tag, name):
    """A user's model."""
    if kind == "lc":
        from sorcha.lightcurves.base_lightcurve import AbstractLightCurve as Base

        class Model(Base):
            def __init__(self, required_column_names=["fieldMJD_TAI", "lp"]):
                super().__init__(required_column_names)

            def compute(self, df):
                self._validate_column_names(df)
                tell(kind="lc", tag=tag, rows=keys(df), off=0, filters=[])
                return (tag * 5000 + df["lp"].to_numpy()) * 1e-4

            @staticmethod
            def name_id():
                return name
    else:
        from sorcha.activity.base_activity import AbstractCometaryActivity as Base

        class Model(Base):
            def __init__(self, required_column_names=["cq"]):
                super().__init__(required_column_names)

            def compute(self, df, observing_filters, rho, delta, alpha):
                self._validate_column_names(df)
                r = np.sqrt(sum(df[f"Obj_Sun_{c}_LTC_km"].to_numpy() ** 2 for c in "xyz")) / pl.AU
                d = df["Range_LTC_km"].to_numpy() / pl.AU
                off = max([0.0, *(abs(x) for a, b in ((rho, r), (delta, d), (alpha, df["phase_deg"].to_numpy())) for x in np.asarray(a) - b)]) if len(df) else 0.0
                tell(kind="ca", tag=tag, rows=keys(df), off=int(min(round(off * 1e6), 10 ** 9)), filters=list(observing_filters))
                df["trailedSourceMagTrue"] = df["trailedSourceMagTrue"] + (tag * 200000 + df["cq"].to_numpy()) * 1e-4
                return df

            @staticmethod
            def name_id():
                return name
    Model.verif = (kind, tag)
    return Model


def registries():
    from sorcha.lightcurves.lightcurve_registration import LC_METHODS
    from sorcha.activity.activity_registration import CA_METHODS
    f = lambda R: [[n, getattr(c, "verif", (None, 0))[1]] for n, c in R.items()]
    return dict(lc=f(LC_METHODS), ca=f(CA_METHODS))


def make(rng):
    survey = ["rubin_sim", "DES"][int(rng.random() < .3)]
    flt = [list("rgi"), list("r"), list("gr")][int(rng.integers(3))]
    w = world.rich(rng, survey, n=int(rng.integers(1, 7)), nvis=int(rng.integers(6, 14)), filters=flt, phase=["HG", "none"][int(rng.integers(2))])
    for i, o in w.objs.items():
        o["cpx"] = dict(ObjID=i, lp=int(rng.integers(1, 4900)), cq=int(rng.integers(1, 99000)), more=1.5)
    w.config["INPUT"].update(eph_format=world.FORMATS[int(rng.integers(3))], aux_format=["csv", "whitespace"][int(rng.integers(2))])
    if survey == "rubin_sim" and rng.random() < .3:
        w.config["EXPERT"] = dict(vignetting_on="True", trailing_losses_on="True")
    return w, flt


def goes(ck, n, rep):
    rng = np.random.default_rng([env.SEED, 24, n, rep])
    from sorcha.lightcurves import AbstractLightCurve, update_lc_subclasses, register_lc_subclasses
    from sorcha.activity import AbstractCometaryActivity, update_activity_subclasses, register_activity_subclasses
    book["path"] = os.path.join(env.scratch("book"), "calls")
    w, flt = make(rng)
    sc0, _ = w.scenario(chunk=1000, rng=rng)
    sc0.pop("complex")
    base = pl.run(sc0)
    assert base.error is None, base.error
    bk = keys(base.out)
    mag = dict(zip(bk, base.out["trailedSourceMagTrue"]))
    par = {i: o["cpx"] for i, o in w.objs.items()}
    r = registries()
    held = [("lc", c) for c in AbstractLightCurve.__subclasses__()] + [("ca", c) for c in AbstractCometaryActivity.__subclasses__()]
    case = f"h{rep}"
    ck.event("TraceModels", dict(ev="start", lc=r["lc"], ca=r["ca"], classes=[[k, 0, c.name_id()] for k, c in held]), case)
    keep, tag = [], 0
    ops = 16 if env.THOROUGH else 11
    for j in range(ops):
        op = str(rng.choice(["define", "define", "scan", "build", "run", "run", "cli"])) if j else "define"
        kind = str(rng.choice(["lc", "ca"]))
        if op == "define" and tag < 9:
            tag += 1
            name = NAMES[int(rng.integers(len(NAMES)))] if rng.random() < .8 else f"m{tag}"
            keep.append(define(kind, tag, name))
            ck.event("TraceModels", dict(ev="define", kind=kind, tag=tag, name=name), case)
        elif op == "scan":
            _, err = pl.guarded(update_lc_subclasses if kind == "lc" else update_activity_subclasses)
            r = registries()
            ck.event("TraceModels", dict(ev="scan", kind=kind, reg=r[kind], other=r["ca" if kind == "lc" else "lc"], error="" if err is None else f"{err[0]}: {err[1][:200]}"), case)
        elif op == "build":
            v, err = pl.guarded(register_lc_subclasses if kind == "lc" else register_activity_subclasses)
            r = registries()
            ck.event("TraceModels", dict(ev="build", kind=kind, refused=err is not None, now=r[kind], reg=[] if v is None else [[n, getattr(c, "verif", (None, 0))[1]] for n, c in v.items()]), case)
        elif op in ("run", "cli"):
            pick = lambda k: "none" if rng.random() < .4 else str(rng.choice([n for n, _ in registries()[k]] + ([c.name_id() for c in keep if c.verif[0] == k] if rng.random() < .5 else []) + (NAMES if rng.random() < .15 else [])))
            lc, ca = pick("lc"), pick("ca")
            open(book["path"], "w").close()
            sc, _ = w.scenario(chunk=int(rng.choice([1, 2, 3, 1000])), order={"orbits", "phys", "complex"}, rng=rng)
            if lc != "none" or rng.random() < .3:
                sc["config"]["LIGHTCURVE"] = dict(lc_model=lc)
            if ca != "none" or rng.random() < .3:
                sc["config"]["ACTIVITY"] = dict(comet_activity=ca)
            cp = op == "run" or rng.random() < .85
            if not cp or (lc == ca == "none" and rng.random() < .5):
                sc.pop("complex")
                cp = False
            if op == "run":
                res = pl.run(sc)
                out, err = res.out, res.error
                refused = err is not None and err[0] == "SystemExit"
                error = "" if err is None or refused else f"{err[0]}: {err[1][:300]}"
            else:
                d, args, ini = pl.setup(sc)
                c = cli.run("run", cli.sorcha_run(args, ini))
                refused, error = c.refused, "" if c.raised is None else f"{c.raised}: {c.err[-400:]}"
                out = pl.read_out(d, args["outfilestem"], "csv")
            rows = []
            if out is not None:
                dm = out["Delta_m"] if "Delta_m" in out.columns else pd.Series(0.0, index=out.index)
                for k, o, m, x in zip(keys(out), out["ObjID"], out["trailedSourceMagTrue"], dm):
                    rows.append(dict(k=k, d=int(round(min((m - mag.get(k, 0)) * 1e4, 2e9))) if np.isfinite(m) else 2000000000, dm=int(round(min(x * 1e4, 2e9))) if np.isfinite(x) else 2000000000, p=par[o]["lp"], q=par[o]["cq"]))
            calls = [json.loads(x) for x in open(book["path"])]
            ck.event("TraceModels", dict(ev="run", cli=op == "cli", lc=lc, ca=ca, cp=cp, filters=flt, refused=refused, error=error, base=bk, rows=rows, calls=calls), case)
            ck.notes["runs"] = ck.notes.get("runs", 0) + 1
            if not refused and not error:
                ck.notes["runs_with_a_model"] = ck.notes.get("runs_with_a_model", 0) + (lc != "none" or ca != "none")


def collect(ck):
    cli.warm()
    n = 60 if env.THOROUGH else 24
    ck.fan([(goes, n, k) for k in range(n)])
    ck.mc("Models")
    for v in ("replace", "mixed", "again"):
        ck.mc("Models", f"ModelsX_{v}.cfg", contrast=True)
    if env.THOROUGH:
        ck.mc("Models", "ModelsBig.cfg")


if __name__ == "__main__":
    check.main("C24", collect, ["models are classes deriving directly from the two abstract classes"])
