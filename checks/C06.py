"""C06: the detection cuts keep exactly the candidates within every enabled limit."""
from harness import env, check, pipeline as pl, world as W, proj
import itertools
import numpy as np

OFF = -1999999999
ONE = 10 ** 9
TRUE_ONLY = {"RA_deg", "Dec_deg", "trailedSourceMag", "PSFMag"}  # what randomization changes


def sep(ra1, de1, ra2, de2):
    r1, d1, r2, d2 = (np.radians(np.asarray(x, float)) for x in (ra1, de1, ra2, de2))
    h = np.sin((d2 - d1) / 2) ** 2 + np.cos(d1) * np.cos(d2) * np.sin((r2 - r1) / 2) ** 2
    return np.degrees(2 * np.arcsin(np.sqrt(h)))


def prob(base, fade, des):
    """Detection probability of every candidate, in 1e-9."""
    lim = base["fiveSigmaDepth_mag"].to_numpy(float)
    m = base["PSFMag"].to_numpy(float)
    with np.errstate(over="ignore"):
        if des is not None:
            c, k = des
            p = float(fade) * c / (1 + np.exp(k * (m - lim)))
        else:
            peak, width = fade
            p = peak / (1 + np.exp((m - lim) / width))
    # certain only when no draw in [0, 1) could lose it, hopeless only when none but 0 could keep it
    return [ONE if x >= 1 else 0 if x < 1e-14 else max(1, min(ONE - 1, int(round(x * ONE)))) for x in p]


class Group:
    """Runs over one population whose candidates the same run without cuts reports."""

    def __init__(self, ck, case, w, expert=None, chunk=1000, seed=42):
        self.ck, self.case, self.w, self.chunk, self.seed = ck, case, w, chunk, seed
        self.expert = expert or {}
        self.des = w.survey == "DES"
        r = self.go({})
        if r.error or r.out is None:
            ck.fail(f"{case}/candidates", "run-completes", dict(error=r.error, log=r.log[-3:]))
            self.base = None
            return
        self.base = r.out
        self.filters = w.config["FILTERS"]["observing_filters"].split(",")
        self.key = {k: i + 1 for i, k in enumerate(proj.row_keys(r.out, ["ObjID", "FieldID"]))}
        v = {x["id"]: x for x in w.visits}
        self.vis = [v[i] for i in r.out["FieldID"]]
        self.sep = sep(r.out["RA_deg"], r.out["Dec_deg"], [x["ra"] for x in self.vis], [x["dec"] for x in self.vis])
        self.plan = []

    def go(self, over, expert=None):
        sc, _ = self.w.scenario(chunk=self.chunk, stats=None)
        sc["seed"] = self.seed
        c = sc["config"]
        c.setdefault("EXPERT", {}).update(self.expert)
        c["EXPERT"].update(expert or {})
        for s, kv in over.items():
            c.setdefault(s, {}).update(kv)
        return pl.run(sc)

    def run(self, tag, draws="none", expert=None, whole=True, **cuts):
        """cuts: snr, mag, circ, bright (number or list), fade ((peak, width), or the transient efficiency for DES), deflt."""
        if self.base is not None:
            self.plan.append((tag, draws, expert, whole, cuts))

    def judge(self):
        """All values and limits are ranked together, then the runs are made."""
        if self.base is None:
            return
        b = self.base
        num = lambda n: [c[n] for *_, c in self.plan if n in c]  # noqa
        zero = np.zeros(len(b))
        snr, lsnr = proj.ranks(b["SNRPSFMag"] if not self.des else zero, num("snr") + [2.0])
        mag, lmag = proj.ranks(b["trailedSourceMag"], num("mag"))
        flat = [x for v in num("bright") for x in (v if isinstance(v, list) else [v])]
        psf, lpsf = proj.ranks(b["PSFMag"], flat)
        snr_of, mag_of = iter(lsnr), iter(lmag)
        psf_of = iter(lpsf)
        U = 10 ** 8
        f = {x: i + 1 for i, x in enumerate(self.filters)}
        rows = [dict(snr=snr[i], mag=mag[i], psf=psf[i], f=f.get(b["optFilter"].iloc[i], 0), sep=int(round(self.sep[i] * U)), edge=0, p=0) for i in range(len(b))]
        for x in rows:
            if x["f"] == 0:
                self.ck.fail(f"{self.case}/candidates", "candidate-of-a-requested-filter", None)
                return
        self.ck.event("TraceCuts", dict(ev="cand", rows=rows), f"{self.case}/candidates")
        for tag, draws, expert, whole, cuts in self.plan:
            over, ex = {}, dict(expert or {})
            c = dict(snr=OFF, mag=OFF, circ=OFF, deflt=OFF, bright=[], fade=False)
            p = []
            if "snr" in cuts:
                ex["snr_limit"], c["snr"] = repr(cuts["snr"]), next(snr_of)
            if "deflt" in cuts:
                c["deflt"] = lsnr[-1]
            if "mag" in cuts:
                ex["mag_limit"], c["mag"] = repr(cuts["mag"]), next(mag_of)
            if "circ" in cuts:
                over["FOV"] = dict(camera_model="circle", circle_radius=repr(cuts["circ"]))
                c["circ"] = int(round(cuts["circ"] * U))
            if "bright" in cuts:
                v = cuts["bright"]
                over["SATURATION"] = dict(bright_limit=",".join(map(repr, v)) if isinstance(v, list) else repr(v))
                c["bright"] = [next(psf_of) for _ in v] if isinstance(v, list) else [next(psf_of)] * len(self.filters)
            if "fade" in cuts:
                c["fade"] = True
                if self.des:
                    over["FADINGFUNCTION"] = dict(fading_function_on="True", des_transient_efficency=repr(cuts["fade"]))
                    p = prob(b, cuts["fade"], (np.array([x["c"] for x in self.vis]), np.array([x["k"] for x in self.vis])))
                else:
                    over["FADINGFUNCTION"] = dict(fading_function_on="True", fading_function_peak_efficiency=repr(cuts["fade"][0]), fading_function_width=repr(cuts["fade"][1]))
                    p = prob(b, cuts["fade"], None)
            r = self.go(over, ex)
            self.ck.event("TraceCuts", dict(ev="run", c=c, p=p, draws=draws, kept=self.kept(r.out, whole), error="" if r.error is None else f"{r.error[0]}: {r.error[1][:200]}"),
                          f"{self.case}/{tag}", replay=dict(cuts=str(cuts)))

    def kept(self, out, whole):
        if out is None:
            return []
        cols = sorted(set(self.base.columns) if whole else set(self.base.columns) - TRUE_ONLY)
        if not set(cols) <= set(out.columns):
            return [0] * len(out)
        a, b = self.base[cols].to_dict("records"), out[cols].to_dict("records")
        res = []
        for k, y in zip(proj.row_keys(out, ["ObjID", "FieldID"]), b):
            i = self.key.get(k, 0)
            if i and not all(same(a[i - 1][c], y[c]) for c in cols):
                i = 0
            res.append(i)
        return res


def same(x, y):
    if isinstance(x, str) or isinstance(y, str):
        return x == y
    if x != x or y != y:
        return x != x and y != y
    return abs(x - y) <= 1e-11 * max(abs(x), abs(y)) + 1e-13


def limits(b, rng, des):
    """Limits in the thick of the values, some of them exactly at one, some removing nothing or everything."""
    def pick(col):
        v = b[col].to_numpy(float)
        q = float(np.quantile(v, rng.uniform(.2, .8)))
        return [q, float(v[int(rng.integers(len(v)))])][int(rng.integers(2))]
    s = None if des else abs(pick("SNRPSFMag"))
    return dict(snr=s, mag=max(0.0, pick("trailedSourceMag")), bright=max(0.0, pick("PSFMag")), circ=float(rng.uniform(.5, 1.9)))


def lsst(ck, kind, rep):
    rng = np.random.default_rng([env.SEED, 6, rep, KINDS.index(kind)])
    filters = [list("rgi"), list("gr"), ["i"], list("zyrgiu")][int(rng.integers(4))] if rep else list("rgi")
    centre = [(30., -20.), (0.3, 5.), (359.8, -60.), (120., 86.), (250., -88.)][(rep + KINDS.index(kind)) % 5]
    w = W.rich(rng, filters=filters, centre=(centre[0], max(-84.9, min(84.9, centre[1]))), spread=2.0)
    ex = {"plain": {}, "effects": dict(vignetting_on="True", trailing_losses_on="True"), "random": dict(randomization_on="True", default_snr_cut="False"),
          "everything": dict(vignetting_on="True", trailing_losses_on="True", randomization_on="True", default_snr_cut="False"), "chunks": dict(vignetting_on="True", trailing_losses_on="True")}[kind]
    g = Group(ck, f"lsst-{kind}", w, ex, chunk=2 if kind == "chunks" else 1000)
    if g.base is None:
        return
    L = lambda: limits(g.base, rng, False)  # noqa
    nf = len(g.filters)
    for k in range(2):
        x = L()
        g.run("snr", snr=x["snr"]), g.run("magnitude", mag=x["mag"]), g.run("circle", circ=x["circ"])
        g.run("saturation", bright=x["bright"])
        g.run("saturation-by-filter", bright=[L()["bright"] for _ in range(nf)])
    g.run("loose", snr=0.0, circ=20.0, bright=0.0), g.run("loose", mag=99.0, bright=[0.0] * nf)
    x = L()
    g.run("snr+circle+saturation", snr=x["snr"], circ=x["circ"], bright=x["bright"] - 1)
    g.run("magnitude+circle+saturation", mag=x["mag"] + .5, circ=x["circ"], bright=[L()["bright"] - 1 for _ in range(nf)])
    g.run("magnitude+saturation", mag=x["mag"], bright=x["bright"])
    g.run("snr+saturation", snr=x["snr"], bright=x["bright"])
    # the efficiency: sharp, with certain and hopeless candidates, together with the other cuts
    x = L()
    g.run("efficiency-sharp+circle", fade=(1.0, .002), circ=x["circ"])
    g.run("efficiency-sharp+all", fade=(1.0, .002), circ=1.8, mag=x["mag"] + 1, bright=[L()["bright"] - 2 for _ in range(nf)])
    g.run("efficiency-zero", fade=(0.0, .1))
    if kind in ("random", "everything"):
        g.run("default-cut", deflt=True, expert=dict(default_snr_cut="True"), whole=False)
        for low in (0.5, 1.9):
            g.run("default-cut+low-limit", deflt=True, snr=low, expert=dict(default_snr_cut="True"), whole=False)
        g.run("low-limit", snr=0.5, whole=False)
        g.run("default-cut+limit", deflt=True, snr=float(np.quantile(g.base["SNRPSFMag"], .6)), expert=dict(default_snr_cut="True"), whole=False)
    if kind != "chunks":
        for peak, width in [(1.0, .1), (.5, .1), (.9, .3), (.7, .5), (1.0, .5), (.3, .05), (.99, .002)]:
            g.run("efficiency", draws="group", fade=(peak, width))
        g.run("efficiency+saturation", draws="group", fade=(.8, .2), bright=L()["bright"])
    g.judge()


def des(ck, rep):
    rng = np.random.default_rng([env.SEED, 60, rep])
    w = W.rich(rng, "DES", filters=[list("gri"), list("zgr")][rep % 2], nvis=25)
    g = Group(ck, "des", w, chunk=1000 if rep % 2 else 2)
    if g.base is None:
        return
    L = lambda: limits(g.base, rng, True)  # noqa
    nf = len(g.filters)
    for k in range(2):
        x = L()
        g.run("magnitude", mag=x["mag"]), g.run("circle", circ=x["circ"]), g.run("saturation", bright=x["bright"]), g.run("saturation-by-filter", bright=[L()["bright"] for _ in range(nf)])
        g.run("all", mag=x["mag"] + .5, circ=x["circ"] + .4, bright=[L()["bright"] - 1 for _ in range(nf)])
    g.run("efficiency-zero", fade=0.0)
    if rep % 2:
        for t in (1.0, .8, .4, .1):
            g.run("efficiency", draws="group", fade=t)
    g.judge()


KINDS = ["plain", "effects", "random", "everything", "chunks"]


def collect(ck):
    import sorcha.sorcha, sorcha.des  # noqa
    ck.fan([(lsst, k, rep) for rep in range(40 if env.THOROUGH else 2) for k in KINDS] + [(des, rep) for rep in range(20 if env.THOROUGH else 2)])
    ck.mc("Cuts", "CutsBig.cfg" if env.THOROUGH else None)
    for v in ("firstlimit", "inclusive"):
        ck.mc("Cuts", f"CutsX_{v}.cfg", contrast=True)


if __name__ == "__main__":
    check.main("C06", collect, ["candidates within 2e-8 degree of the circle may go either way", "detection probabilities are known to 2e-9"])
