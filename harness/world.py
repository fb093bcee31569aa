"""Random small populations, split into per-object material so that any sub-population, in any order, can be run."""
import copy

import numpy as np
import pandas as pd

from . import pipeline as pl, proj

AU = pl.AU
FORMATS = ("csv", "hdf5", "whitespace")
LSST_VISIT_RA, LSST_VISIT_DEC = 30.0, -20.0


class World:
    """visits: list; objects: ordered dict id -> dict(orbit row, phys dict, cpx dict or None, eph rows); config/survey/args."""

    def __init__(self, survey="rubin_sim"):
        self.survey = survey
        self.visits = []
        self.objs = {}
        self.config = {}
        self.args = {}
        self.fmt = "COM"
        self.stats = None
        self.verbose = False

    def ids(self):
        return list(self.objs)

    def scenario(self, ids=None, chunk=1000, order=None, rng=None, stats="stats"):
        """order: set of input names whose rows are shuffled (orbits, phys, complex, eph, visits)."""
        ids = list(self.ids() if ids is None else ids)
        order = order or ()

        def mix(x, name):
            x = list(x)
            return [x[i] for i in rng.permutation(len(x))] if name in order else x

        pop = mix(ids, "orbits")
        cols = {"COM": ["q", "e", "inc", "node", "argPeri", "t_p_MJD_TDB"], "CART": ["x", "y", "z", "xdot", "ydot", "zdot"], "KEP": ["a", "e", "inc", "node", "argPeri", "ma"]}[self.fmt.lstrip("B")]
        orb = pd.DataFrame([self.objs[i]["orbit"] for i in pop], columns=["ObjID", "FORMAT", *cols, "epochMJD_TDB"])
        phys = pd.DataFrame([self.objs[i]["phys"] for i in mix(ids, "phys")])
        sc = dict(survey=self.survey, objects=[dict(id=i) for i in pop], orbits=orb, phys=phys, visits=mix(self.visits, "visits"),
                  config=copy.deepcopy(self.config), args=dict(self.args), stats=stats, verbose=self.verbose)
        sc["config"].setdefault("INPUT", {})["size_serial_chunk"] = chunk
        if sc["config"]["INPUT"].get("ephemerides_type") != "ar":
            rows = [r for i in ids for r in self.objs[i]["eph"]]
            if "eph" in order:
                rows = mix(rows, "eph")
            if not rows:  # a file about somebody else
                rows = [dict(obj="someone else", field=self.visits[0]["id"], mjd=self.visits[0]["mjd"], ra=1.0, dec=1.0)]
                if sc["config"]["INPUT"].get("eph_format") == "whitespace":
                    rows[0]["obj"] = "else"
            sc["eph"] = pl.eph_frame(rows)
        if any(o.get("cpx") for o in self.objs.values()):
            sc["complex"] = pd.DataFrame([self.objs[i]["cpx"] for i in mix(ids, "complex")])
        return sc, pop


def _idname(k, rng):
    return [f"o{k}", f"S{1000 + k}", f"obj-{k}", "a" * (k + 1), f"2015 AB{k}" if False else f"K15A{k:02d}"][int(rng.integers(5))] + f"_{k}"


def lsst(rng, n=6, flavour="basic", nvis=24):
    """An LSST population with an external ephemeris."""
    w = World()
    filters = ["r", "g", "i"]
    allf = ["r", "g", "i", "z", "y"]
    link = flavour.startswith("link")
    for k in range(nvis):
        night = int(k // 4)
        # two visits to a field in one night, inside the linking time limit
        mjd = 60000.0 + night * 2.0 + 0.15 + 0.02 * (k % 4) + float(rng.uniform(0, 0.002))
        w.visits.append(dict(id=k + 1, mjd=mjd, filter=allf[int(rng.integers(5))] if not link else filters[int(rng.integers(3))], depth=float(rng.uniform(23, 25)),
                             ra=LSST_VISIT_RA + float(rng.uniform(-.3, .3)), dec=LSST_VISIT_DEC + float(rng.uniform(-.3, .3)),
                             rot=float(rng.uniform(0, 360)), seeing=float(rng.uniform(.6, 1.2)), vis=34.0, exp=30.0))
    cpx = flavour == "complex"
    for k in range(n):
        oid = _idname(k, rng)
        kind = ["normal", "normal", "normal", "noeph", "otherfilter", "faint"][int(rng.integers(6))]
        if k < 2:
            kind = "normal"
        elif k in (3, 4) and n > 4:
            kind = ["otherfilter", "noeph"][k - 3]
        H = float(rng.uniform(17.0, 23.5)) if kind != "faint" else 33.0
        phys = dict(ObjID=oid, H_r=H, **{"g-r": float(rng.uniform(.3, .9)), "i-r": float(rng.uniform(-.4, .1))})
        if flavour == "phase":
            phys.update({f"GS{f}": float(rng.uniform(.05, .4)) for f in filters})
        else:
            phys["GS"] = float(rng.uniform(.05, .4))
        eph = []
        ra0, dec0 = LSST_VISIT_RA + float(rng.uniform(-.8, .8)), LSST_VISIT_DEC + float(rng.uniform(-.8, .8))
        for v in w.visits:
            if kind == "noeph":
                continue
            if kind == "otherfilter" and v["filter"] in filters:
                continue
            if rng.random() < (0.25 if not link else 0.1):
                continue
            t = v["mjd"] - 60000
            eph.append(dict(obj=oid, field=v["id"], mjd=v["mjd"], ra=ra0 + .05 * t + float(rng.normal(0, 1e-4)), dec=dec0 + .02 * t,
                            range=float(rng.uniform(.8, 1.2)) * AU, rarate=float(rng.uniform(-2, 2)), decrate=float(rng.uniform(-2, 2)),
                            sun=(float(rng.uniform(1.8, 2.2)) * AU, float(rng.uniform(-.2, .2)) * AU, 0.0), phase=float(rng.uniform(1, 30))))
        w.objs[oid] = dict(orbit=[oid, "COM", 2.5 + .01 * k, .1, 5., 10. + k, 20., 60000. + k, 60000.], phys=phys, eph=eph,
                           cpx=dict(ObjID=oid, shift=float(rng.uniform(-1, 1)), other=float(k)) if cpx else None)
    c = {"FILTERS": dict(observing_filters=",".join(filters)), "PHASECURVES": dict(phase_function="HG")}
    ex = {}
    if flavour in ("cuts", "linkcuts"):
        ex = dict(mag_limit="24.0")
        c["FOV"] = dict(camera_model="circle", circle_radius="1.1")
        c["SATURATION"] = dict(bright_limit="19.0,19.5,19.2")
    elif flavour == "snr":
        ex = dict(snr_limit="5.0")
    elif flavour == "footprint":
        c["FOV"] = dict(camera_model="footprint")
        ex = dict(vignetting_on="True", trailing_losses_on="True")
    elif flavour == "edge":
        c["FOV"] = dict(camera_model="footprint", footprint_edge_threshold="30")
    elif flavour == "effects":
        ex = dict(vignetting_on="True", trailing_losses_on="True", snr_limit="3")
    elif flavour == "complex":
        c["LIGHTCURVE"] = dict(lc_model="verif_shift")
    if link:
        c["LINKINGFILTER"] = dict(ssp_detection_efficiency="1.0", ssp_number_observations="2", ssp_separation_threshold="0.5",
                                  ssp_maximum_time="0.0625", ssp_number_tracklets="3", ssp_track_window="15", ssp_night_start_utc="16.0",
                                  drop_unlinked=str(flavour != "linkkeep"))
        ex.setdefault("mag_limit", "24.0")
    c["EXPERT"] = ex
    c["INPUT"] = dict(eph_format=FORMATS[len(flavour) % 3], aux_format=["csv", "whitespace"][len(flavour) % 2])
    w.config = c
    return w


def des(rng, n=6, flavour="basic"):
    w = World("DES")
    nvis = 40
    for k in range(nvis):
        mjd = 57000.0 + (k // 2) * 15.0 + .2 + .01 * (k % 2) + float(rng.uniform(0, .001))
        w.visits.append(dict(id=k + 1, mjd=mjd, filter="griz"[int(rng.integers(4))], depth=24.0, ra=LSST_VISIT_RA, dec=LSST_VISIT_DEC,
                             c=float(rng.uniform(.8, 1)), k=float(rng.uniform(2, 6))))
    for k in range(n):
        oid = _idname(k, rng)
        kind = ["normal", "normal", "few", "noeph", "otherfilter"][int(rng.integers(5))] if k > 1 else "normal"
        phys = dict(ObjID=oid, H_g=float(rng.uniform(5, 9)), **{"r-g": -.5, "i-g": -.7}, GS=.15)
        r = float(rng.uniform(30, 60))
        eph = []
        for v in w.visits:
            if kind == "noeph" or (kind == "otherfilter" and v["filter"] != "z") or rng.random() < (.3 if kind != "few" else .85):
                continue
            eph.append(dict(obj=oid, field=v["id"], mjd=v["mjd"], ra=LSST_VISIT_RA + float(rng.uniform(-1, 1)), dec=LSST_VISIT_DEC + float(rng.uniform(-1, 1)),
                            range=r * AU, rarate=float(rng.uniform(-.02, .02)), decrate=float(rng.uniform(-.02, .02)), sun=(r * AU, float(rng.uniform(-1, 1)) * AU, 0.), phase=1.))
        w.objs[oid] = dict(orbit=[oid, "COM", r, .01, 5., 10. + k, 20., 60000. + k, 60000.], phys=phys, eph=eph, cpx=None)
    w.config = {"FILTERS": dict(observing_filters="g,r,i"), "PHASECURVES": dict(phase_function="HG")}
    if flavour == "discovery":
        w.config["LINKINGFILTER"] = dict(des_discovery_on="True")
    elif flavour == "cuts":
        w.config["LINKINGFILTER"] = dict(des_discovery_on="True", distance_cut_lower="33.0", distance_cut_upper="55.0", motion_cut_lower="0.005", motion_cut_upper="0.03")
        w.config["EXPERT"] = dict(mag_limit="24.5")
    return w


def generated(rng, n=6, flavour="basic", aux=None):
    """A population whose ephemeris the run generates itself (harness.fakesky must be installed)."""
    from . import fakesky as F
    w = World()
    w.fmt = "BCART"
    w.args = dict(ar_data_path=aux)
    ep = 60000.0
    nvis = 10
    centres = [(40 + 60 * j, -30 + 8 * j) for j in range(3)]
    for k in range(nvis):
        ra, dec = centres[int(rng.integers(3))]
        w.visits.append(dict(id=k + 1, mjd=60010.1 + .6 * k + float(rng.uniform(0, .1)), filter="rgi"[int(rng.integers(3))], depth=float(rng.uniform(23.5, 24.5)), ra=float(ra), dec=float(dec)))
    w.visits.append(dict(id=nvis + 1, mjd=60018.0, filter="r", depth=24.0, ra=40.0, dec=-30.0))
    w.visits.append(dict(id=nvis + 2, mjd=60018.03, filter="g", depth=24.0, ra=40.0, dec=-30.0))
    w.visits.append(dict(id=nvis + 3, mjd=60018.06, filter="i", depth=24.0, ra=40.0, dec=-30.0))
    for k in range(n):
        oid = _idname(k, rng)
        kind = ["seen", "seen", "away", "faint"][int(rng.integers(4))] if k > 1 else "seen"
        v = w.visits[int(rng.integers(len(w.visits)))]
        ra, dec = v["ra"] + float(rng.uniform(-1, 1)), v["dec"] + float(rng.uniform(-1, 1))
        if kind == "away":
            ra += 180
        jd = F.jd_of(v["mjd"] + 17 / 86400)
        d = float(rng.uniform(1.5, 4))
        w.objs[oid] = dict(orbit=F.bcart_row(oid, F.object_toward(ra, dec, d, jd, rng.normal(0, .004, 3) + [0, .004, .002], ep + 2400000.5), ep),
                           phys=dict(ObjID=oid, H_r=30.0 if kind == "faint" else float(rng.uniform(14, 18)), **{"g-r": .5, "i-r": -.2}, GS=.15), eph=[], cpx=None)
    w.config = {"INPUT": dict(ephemerides_type="ar"), "FILTERS": dict(observing_filters="r,g,i"), "PHASECURVES": dict(phase_function="HG"),
                "SIMULATION": dict(ar_ang_fov="2.0", ar_fov_buffer="0.2", ar_picket="1", ar_obs_code="X05", ar_healpix_order="6"),
                "EXPERT": dict(brute_force=str(flavour != "cull"), mag_limit="24.0")}
    return w


def register_lc():
    from sorcha.lightcurves.base_lightcurve import AbstractLightCurve
    from sorcha.lightcurves.lightcurve_registration import update_lc_subclasses

    class VerifShift(AbstractLightCurve):
        def __init__(self, required_column_names=["shift"]):
            super().__init__(required_column_names)

        def compute(self, df):
            return df["shift"].to_numpy() + 0.01 * df["other"].to_numpy()

        def maxBrightness(self, df):
            return -1.0

        @staticmethod
        def name_id():
            return "verif_shift"

    update_lc_subclasses()
    return VerifShift


class RowBook:
    """Gives rows identifiers: rows with the same key and (to rounding) the same values in the same columns are the same row."""

    def __init__(self, key=("ObjID", "FieldID"), rtol=1e-9):
        self.key, self.rtol, self.rows, self.n = list(key), rtol, {}, 0

    def ids(self, df):
        if df is None or len(df) == 0:
            return []
        cols = [c for c in df.columns if c not in self.key]
        if any(k not in df.columns for k in self.key):
            self.n += 1
            return [self.n] * len(df)
        out = []
        for k, v in zip(proj.row_keys(df, self.key), proj.row_keys(df, cols)):
            for cs, vals, i in self.rows.setdefault(k, []):
                if set(cs) == set(cols) and self._same(dict(zip(cs, vals)), dict(zip(cols, v))):
                    out.append(i)
                    break
            else:
                self.n += 1
                self.rows[k].append((cols, v, self.n))
                out.append(self.n)
        return out

    def _same(self, a, b):
        for c, x in a.items():
            y = b[c]
            if isinstance(x, float) and isinstance(y, float):
                if abs(x - y) > self.rtol * max(abs(x), abs(y)) + 1e-13:
                    return False
            elif x != y:
                return False
        return True


def rich(rng, survey="rubin_sim", n=6, nvis=20, filters=None, phase="HG", spread=2.0, centre=(30.0, -20.0), rates=True):
    """Rows of every kind: bright and faint, near and far from the field centre, still and fast, in every filter."""
    w = World(survey)
    allf = "ugrizy" if survey == "rubin_sim" else "grizY"
    filters = filters or list("rgi" if survey == "rubin_sim" else "gri")
    for k in range(nvis):
        w.visits.append(dict(id=10 * k + 3, mjd=60000.0 + 1.3 * k + float(rng.uniform(0, .1)), filter=filters[int(rng.integers(len(filters)))] if rng.random() < .8 else allf[int(rng.integers(len(allf)))],
                             depth=float(rng.uniform(22.5, 24.5)), ra=(centre[0] + float(rng.uniform(-3, 3))) % 360, dec=centre[1] + float(rng.uniform(-3, 3)), rot=float(rng.uniform(0, 360)),
                             seeing=float(rng.uniform(.6, 1.3)), seeingEff=float(rng.uniform(.7, 1.5)), vis=34.0, exp=float(rng.choice([15., 30., 60.])), c=float(rng.uniform(.5, 1)), k=float(rng.uniform(2, 6))))
    main = filters[0]
    for k in range(n):
        oid = f"{'x' * (k % 3)}R{k}"
        H = float(rng.uniform(16, 22))
        phys = {"ObjID": oid, f"H_{main}": H, **{f"{f}-{main}": float(rng.normal(0, .6)) for f in filters[1:]}}
        if phase == "HG":
            phys["GS"] = float(rng.uniform(.05, .4))
        eph = []
        for v in w.visits:
            if rng.random() < .15:
                continue
            d = spread * float(rng.random()) ** .5
            th = float(rng.uniform(0, 2 * np.pi))
            dec = v["dec"] + d * np.sin(th)
            ra = (v["ra"] + d * np.cos(th) / np.cos(np.radians(dec))) % 360
            still = not rates or rng.random() < .15
            eph.append(dict(obj=oid, field=v["id"], mjd=v["mjd"], ra=float(ra), dec=float(dec), range=float(10 ** rng.uniform(-.5, .5)) * AU,
                            rarate=0.0 if still else float(rng.normal(0, 3)), decrate=0.0 if still else float(rng.normal(0, 3)), rrate=float(rng.normal(0, 10)),
                            sun=tuple(float(x) * AU for x in rng.normal(0, 1.2, 3)), phase=float(rng.uniform(0, 60))))
        w.objs[oid] = dict(orbit=[oid, "COM", 2.5 + .01 * k, .1, 5., 10. + k, 20., 60000. + k, 60000.], phys=phys, eph=eph, cpx=None)
    w.config = {"FILTERS": dict(observing_filters=",".join(filters)), "PHASECURVES": dict(phase_function=phase), "INPUT": dict(eph_format="csv", aux_format="csv")}
    return w
