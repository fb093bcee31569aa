"""C08: random stages are reproducible, independent and correctly weighted."""
from harness import env, check, pipeline as pl, world as W, proj
import os
import subprocess
import sys
import numpy as np

SEEDS = (1, 42, 987654321)


def keys(r):
    return [] if r.out is None else [f"{a}|{b}" for a, b in zip(r.out["ObjID"], r.out["FieldID"])]


def err(r):
    return "" if r.error is None else f"{r.error[0]}: {r.error[1][:200]}"


def go(w, over, seed=42, chunk=1000):
    sc, _ = w.scenario(chunk=chunk, stats=None)
    sc["seed"] = seed
    for s, kv in over.items():
        sc["config"].setdefault(s, {}).update(kv)
    return pl.run(sc)


FILL = lambda f: dict(FOV=dict(camera_model="circle", fill_factor=repr(f)))  # noqa
FADE = lambda p, wd=.1: dict(FADINGFUNCTION=dict(fading_function_on="True", fading_function_peak_efficiency=repr(p), fading_function_width=repr(wd)))  # noqa
DFADE = lambda t: dict(FADINGFUNCTION=dict(fading_function_on="True", des_transient_efficency=repr(t)))  # noqa
NOISE = dict(EXPERT=dict(randomization_on="True", default_snr_cut="False"))
CIRC = lambda r: dict(FOV=dict(circle_radius=repr(r), camera_model="circle"))  # noqa


def mix(*ds):
    out = {}
    for d in ds:
        for s, kv in d.items():
            out.setdefault(s, {}).update(kv)
    return out


def noise(r):
    """What a run shows of its noise: the measured magnitudes' and positions' displacement in units of their uncertainty."""
    if r.out is None:
        return {}
    o = r.out
    m = (o["trailedSourceMag"] - o["trailedSourceMagTrue"]) / o["trailedSourceMagSigma"]
    d = (o["Dec_deg"] - o["DecTrue_deg"]) / o["astrometricSigma_deg"]
    return {k: (f"{a:.4f}", f"{b:.3f}") for k, a, b in zip(keys(r), m, d)}


def many(rng, n=12, nvis=40, survey="rubin_sim", bright=False):
    w = W.rich(rng, survey, n=n, nvis=nvis, spread=1.0, rates=False)
    for k, v in enumerate(w.visits):  # within nights
        v["mjd"] = 60000.0 + k + float(rng.uniform(.05, .4))
    when = {v["id"]: v["mjd"] for v in w.visits}
    for o in w.objs.values():
        for e in o["eph"]:
            e["mjd"] = when[e["field"]]
        for c in o["phys"]:
            if c.startswith("H_"):
                o["phys"][c] = 12.0 if bright else o["phys"][c]
        for e in o["eph"]:
            e["dec"] = float(np.clip(e["dec"], -89, 89))
    return w


def registry(ck, rep):
    """The collection of streams itself, through every order of requests."""
    from sorcha.utilities.sorchaModuleRNG import PerModuleRNG
    rng = np.random.default_rng([env.SEED, 8, rep])
    names = ["sorcha.modules.PPRandomizeMeasurements", "sorcha.modules.PPDropObservations", "sorcha.modules.PPApplyFOVFilter", "a", "b", "", "a.b"]
    inst = []
    for k in range(6):
        s = int(rng.choice([0, 1, 2, 42, 43, 2 ** 31 - 1]))
        inst.append((k, s, PerModuleRNG(s)))
    for _ in range(60):
        k, s, r = inst[int(rng.integers(len(inst)))]
        n = names[int(rng.integers(len(names)))]
        g = r.getModuleRNG(n)
        x = g.random(int(rng.integers(0, 4)))
        ck.event("TraceStreams", dict(ev="request", inst=f"{rep}-{k}", seed=str(s), name=n, toks=[f"{v:.15f}" for v in x]), "streams")


def stages(ck, rep):
    """Turning one stage on, off or otherwise leaves what another draws."""
    rng = np.random.default_rng([env.SEED, 80, rep])
    w = many(rng)
    seed = SEEDS[rep % 3]
    ev = lambda kind, a, b, case: ck.event("TraceStreams", dict(ev=kind, a=a, b=b), case)  # noqa
    f = float(rng.uniform(.3, .8))
    ref = go(w, FILL(f), seed)
    k0 = keys(ref)
    for tag, over in [("again", {}), ("efficiency-off", FADE(1.0, .5)), ("noise", NOISE), ("losses", dict(EXPERT=dict(vignetting_on="True", trailing_losses_on="True"))), ("noise+losses", mix(NOISE, dict(EXPERT=dict(trailing_losses_on="True")))),
                      ("mag", dict(EXPERT=dict(mag_limit="30"))), ("linking", dict(LINKINGFILTER=dict(ssp_detection_efficiency="0.5", ssp_number_observations="2", ssp_separation_threshold="0.5", ssp_maximum_time="0.0625",
                       ssp_number_tracklets="3", ssp_track_window="15", ssp_night_start_utc="16.0", drop_unlinked="False")))]:
        if tag == "efficiency-off":
            continue
        r = go(w, mix(FILL(f), over), seed)
        ka = keys(r) if not r.error else [err(r)]
        ev("same", sorted(k0) if tag == "linking" else k0, sorted(ka) if tag == "linking" else ka, f"fill/{tag}")  # the linking's output order is its own
    for chunk in (1, 3):
        ev("same", k0, keys(go(w, FILL(f), seed, chunk)), f"fill/chunk-{chunk}")
    ev("differ", k0, keys(go(w, FILL(f), seed + 1)), "fill/other-seed")
    ev("differ", k0, keys(go(w, FILL(f), seed + 2 ** 20)), "fill/other-seed")
    # the efficiency, with a probability that is the same for every candidate and the same whatever else is on
    b = many(rng, bright=True)
    p = float(rng.uniform(.3, .8))
    k1 = keys(go(b, FADE(p, .01), seed))
    for tag, over in [("again", {}), ("fill-one", FILL(1.0)), ("noise", NOISE), ("losses", dict(EXPERT=dict(vignetting_on="True", trailing_losses_on="True"))), ("circle", CIRC(20.0)), ("width", FADE(p, .02)), ("bright", dict(SATURATION=dict(bright_limit="1.0")))]:
        r = go(b, mix(FADE(p, .01), over), seed)
        ev("same", k1, keys(r) if not r.error else [err(r)], f"efficiency/{tag}")
    for chunk in (1, 3):
        ev("same", k1, keys(go(b, FADE(p, .01), seed, chunk)), f"efficiency/chunk-{chunk}")
    ev("differ", k1, keys(go(b, FADE(p, .01), seed + 1)), "efficiency/other-seed")
    # the noise
    n0 = noise(go(w, NOISE, seed))
    for tag, over in [("again", {}), ("fill", FILL(.6)), ("efficiency", FADE(.7, .3)), ("fill+efficiency", mix(FILL(.5), FADE(.9))), ("circle", CIRC(.5)), ("vignetting", dict(EXPERT=dict(vignetting_on="True"))),
                      ("snr", dict(EXPERT=dict(snr_limit="4")))]:
        r = go(w, mix(NOISE, over), seed)
        n = noise(r)
        ks = [k for k in n0 if k in n]
        x, y = [n0[k] for k in ks], [n[k] for k in ks]
        if tag == "vignetting":  # rounding
            x, y = [[a[0][:-2]] for a in x], [[a[0][:-2]] for a in y]
            x, y = [[f"{float(a[0]):.1f}"] for a in x], [[f"{float(a[0]):.1f}"] for a in y]
            d = sum(abs(float(a[0]) - float(c[0])) > .11 for a, c in zip(x, y))
            x, y = [], [["changed"]] * d
        if tag != "snr" and not ks:
            y = [["nothing left", err(r)]]
        ev("same", x, y, f"noise/{tag}")
    ev("differ", sorted(n0.values()), sorted(noise(go(w, NOISE, seed + 1)).values()), "noise/other-seed")
    for chunk in (1, 2, 1000):
        n = noise(go(w, mix(NOISE, dict(EXPERT=dict(trailing_losses_on="True"))), seed, chunk))
        o = list(n.values())
        # rows that share all draws
        ck.event("TraceStreams", dict(ev="fresh", toks=[f"{a} {b_}" for a, b_ in o]), f"noise/chunk-{chunk}")
    # magnitude and position noise, the two magnitudes, are drawn separately
    r = go(b, mix(NOISE, dict(EXPERT=dict(trailing_losses_on="True"))), seed)
    if r.out is not None:
        o = r.out
        z = [(o["trailedSourceMag"] - o["trailedSourceMagTrue"]) / o["trailedSourceMagSigma"], (o["PSFMag"] - o["PSFMagTrue"]) / o["PSFMagSigma"], (o["Dec_deg"] - o["DecTrue_deg"]) / o["astrometricSigma_deg"],
             (o["RA_deg"] - o["RATrue_deg"]) * np.cos(np.radians(o["Dec_deg"])) / o["astrometricSigma_deg"]]
        z = [np.asarray(x, float) > 0 for x in z]
        for i in range(4):
            m = len(z[i])
            ck.event("TraceStreams", dict(ev="thin", n=m, kept=int(z[i].sum()), want=m // 2, var=m // 4 + 1, sure=0, never=0, error=""), f"noise/balanced-{i}")
            for j in range(i):
                ck.event("TraceStreams", dict(ev="pairs", n=m, both=int((z[i] == z[j]).sum()), want=m // 2, var=m // 4 + 1), f"noise/separate-{j}-{i}")


def thin(ck, case, base, kept, p, error=""):
    """Decisions against their probabilities: all together, one after the other, by object and by visit."""
    k = set(kept)
    d = np.array([x in k for x in base], bool)
    p = np.asarray(p, float)
    ev = lambda m, tag: ck.event("TraceStreams", dict(ev="thin", n=int(m.sum()), kept=int(d[m].sum()), want=int(round(p[m].sum())), var=int(np.ceil((p[m] * (1 - p[m])).sum())) + 1,  # noqa
                                                      sure=int((m & (p >= 1) & ~d).sum()), never=int((m & (p <= 0) & d).sum()), error=error), f"{case}{tag}")
    ev(np.ones(len(d), bool), "")
    for j, f in enumerate((lambda x: x.split("|")[0], lambda x: x.split("|")[1])):
        g = np.array([f(x) for x in base])
        for u in list(dict.fromkeys(g))[:12]:
            ev(g == u, ["/object", "/visit"][j])
    for lag in (1, 2, 7):
        a, b = d[:-lag], d[lag:]
        q = p[:-lag] * p[lag:]
        ck.event("TraceStreams", dict(ev="pairs", n=len(a), both=int((a & b).sum()), want=int(round(q.sum())), var=int(np.ceil((q * (1 - q)).sum() * 2)) + 1), f"{case}/neighbours-{lag}")
    return d


def weights(ck, rep):
    rng = np.random.default_rng([env.SEED, 81, rep])
    w = many(rng, n=50, nvis=80, bright=True)
    base = keys(go(w, {}))
    chunk = [1000, 7][rep % 2]
    both = {}
    for f in (.1, .5, .9, .37):
        r = go(w, FILL(f), 10 + rep, chunk)
        both["fill", f] = thin(ck, f"fill/{f}", base, keys(r), [f] * len(base), err(r))
        r = go(w, mix(FILL(f), CIRC(20.0)), 110 + rep, chunk)
        thin(ck, f"fill+circle/{f}", base, keys(r), [f] * len(base), err(r))
        r = go(w, mix(FILL(f), NOISE, dict(EXPERT=dict(default_snr_cut="True"))), 210 + rep, chunk)
        thin(ck, f"fill+noise/{f}", base, keys(r), [f] * len(base), err(r))
        r = go(w, FADE(f, .01), 10 + rep, chunk)
        both["fade", f] = thin(ck, f"efficiency/{f}", base, keys(r), [f] * len(base), err(r))
        r = go(w, mix(FADE(f, .01), FILL(.5)), 10 + rep, chunk)
        thin(ck, f"efficiency+fill/{f}", base, keys(r), [f * .5] * len(base), err(r))
        r = go(w, mix(FADE(f, .01), FILL(f)), 310 + rep, chunk)
        thin(ck, f"efficiency=fill/{f}", base, keys(r), [f * f] * len(base), err(r))
    for f in (.5, .37):  # the two stages do not draw alike
        a, b = both["fill", f], both["fade", f]
        q = f * f
        ck.event("TraceStreams", dict(ev="pairs", n=len(a), both=int((a & b).sum()), want=int(round(q * len(a))), var=int(np.ceil(q * (1 - q) * len(a))) + 1), f"stages-draw-apart/{f}")
    for f in (0.0, 1.0):
        for tag, over in (("", {}), ("+circle", CIRC(20.0)), ("+noise", NOISE), ("+both", mix(NOISE, CIRC(20.0))), ("+cut", mix(NOISE, dict(EXPERT=dict(default_snr_cut="True", snr_limit="3"))))):
            r = go(w, mix(FILL(f), over), rep, chunk)
            thin(ck, f"fill{tag}/{f}", base, keys(r), [f] * len(base), err(r))
        r = go(w, FADE(f, .01), rep, chunk)
        thin(ck, f"efficiency/{f}", base, keys(r), [f] * len(base), err(r))


def graded(ck, rep):
    """The efficiency where it falls off."""
    rng = np.random.default_rng([env.SEED, 82, rep])
    w = many(rng, n=40, nvis=60)
    vig = dict(EXPERT=dict(vignetting_on="True"))
    r0 = go(w, vig)
    b = r0.out
    base = keys(r0)
    for peak, wd in ((1.0, .5), (.8, .3), (.5, .5)):
        r = go(w, mix(vig, FADE(peak, wd)), 5 + rep, [1000, 5][rep % 2])
        with np.errstate(over="ignore"):
            p = peak / (1 + np.exp((b["PSFMag"] - b["fiveSigmaDepth_mag"]).to_numpy() / wd))
        thin(ck, f"efficiency/{peak}-{wd}", base, keys(r), p, err(r))
    d = W.rich(rng, "DES", n=40, nvis=60, rates=False)
    r0 = go(d, {})
    b = r0.out
    v = {x["id"]: x for x in d.visits}
    c, k = (np.array([v[i][x] for i in b["FieldID"]]) for x in "ck")
    for t in (1.0, .6, .0):
        r = go(d, DFADE(t), 5 + rep, [1000, 5][rep % 2])
        with np.errstate(over="ignore"):
            p = t * c / (1 + np.exp(k * (b["PSFMag"] - b["fiveSigmaDepth_mag"]).to_numpy()))
        thin(ck, f"des-efficiency/{t}", keys(r0), keys(r), p, err(r))
    for f in (0.0, .3, 1.0):
        r = go(d, FILL(f), 5 + rep)
        thin(ck, f"des-fill/{f}", keys(r0), keys(r), [f] * len(b), err(r))
    # one candidate list, many seeds: each candidate is kept in its share of the runs
    s = many(rng, n=3, nvis=12, bright=True)
    base = keys(go(s, {}))
    for tag, over, q in (("fill", FILL(.4), .4), ("efficiency", FADE(.7, .01), .7)):
        n = 60
        cnt = {x: 0 for x in base}
        for sd in range(n):
            for x in keys(go(s, over, 1000 * rep + sd)):
                cnt[x] = cnt.get(x, 0) + 1
        for x in base:
            ck.event("TraceStreams", dict(ev="thin", n=n, kept=cnt[x], want=int(round(n * q)), var=int(np.ceil(n * q * (1 - q))) + 1, sure=0, never=0, error=""), f"over-seeds/{tag}")


def everything(rng):
    w = many(rng, n=8, nvis=24)
    w.config.update(mix(FILL(.7), FADE(.8, .3), NOISE, dict(EXPERT=dict(trailing_losses_on="True", vignetting_on="True")),
                        dict(LINKINGFILTER=dict(ssp_detection_efficiency="0.5", ssp_number_observations="1", ssp_separation_threshold="0.5", ssp_maximum_time="0.0625", ssp_number_tracklets="1", ssp_track_window="15", ssp_night_start_utc="16.0",
                                                drop_unlinked="False"))))
    return w


def drawn(rng, d):
    """A population moving through shared fields, whose ephemeris the run generates itself."""
    from harness import fakesky as F
    aux = F.data_dir(os.path.join(d, "aux"))
    w = W.generated(rng, n=40, aux=aux)
    for o in w.objs.values():
        o["phys"]["H_r"] = min(o["phys"]["H_r"], 19.0)
    w.config["EXPERT"]["mag_limit"] = None
    w.config.update(mix(FILL(.7), FADE(.8, .3), dict(EXPERT=dict(w.config["EXPERT"], randomization_on="True", trailing_losses_on="True", vignetting_on="True"))))
    return w


def report(kind, d):
    """(separate process) two runs, printed."""
    w = everything(np.random.default_rng(5)) if kind == "everything" else drawn(np.random.default_rng(int(kind[5:] or 5)), d)
    for s in (3, 4):
        r = go(w, {}, s, chunk=1000 if kind == "everything" else 15)
        print("DONE", r.error, 0 if r.out is None else len(r.out))
        print("" if r.out is None else r.out.to_csv(index=False))


def again(ck, kind):
    """The same command in separate processes that hash differently."""
    code = ("import sys; sys.path.insert(0, {v!r})\n"
            "import harness\n"
            "{f}"
            "from checks import C08\nC08.report({k!r}, {d!r})\n")
    out = []
    for h in ("0", "1", "7"):
        e = dict(os.environ, PYTHONHASHSEED=h)
        d = os.path.join(env.SCRATCH, f"again-{kind}-{h}")
        c = code.format(v=env.VERIF, k=kind, d=d, f="from harness import fakesky\nfakesky.install()\n" if kind.startswith("drawn") else "")
        out.append(subprocess.Popen([sys.executable, "-W", "ignore", "-c", c], cwd=env.VERIF, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    res = [p.communicate() for p in out]
    for o, e in res:
        if "DONE" not in o:
            ck.fail("processes", "run-completes", e[-1500:])
            return
    parts = [o.split("DONE") for o, _ in res]
    ck.notes[f"rows_{kind}"] = len(parts[0][1].splitlines()) - 3
    for k in (1, 2):
        for j in (1, 2):
            ck.event("TraceStreams", dict(ev="same", a=[str(hash(parts[0][k]))], b=[str(hash(parts[j][k]))]), f"processes/same-seed/{kind}")
    ck.event("TraceStreams", dict(ev="differ", a=[str(hash(parts[0][1]))], b=[str(hash(parts[0][2]))]), f"processes/other-seed/{kind}")


def collect(ck):
    import sorcha.sorcha, sorcha.des  # noqa
    n = 8 if env.THOROUGH else 1
    ck.fan([(registry, rep) for rep in range(4 * n)] + [(again, "everything")] + [(again, f"drawn{k}") for k in range(1, 1 + (6 if env.THOROUGH else 2))] + [(stages, rep) for rep in range(3 * n)] + [(weights, rep) for rep in range(2 * n)] + [(graded, rep) for rep in range(2 * n)])
    ck.mc("Streams", "StreamsBig.cfg")
    for v in ("shared", "restart"):
        ck.mc("Streams", f"StreamsX_{v}.cfg", contrast=True)


if __name__ == "__main__":
    check.main("C08", collect, ["rates within five and a half standard deviations"])
