"""C17: generated ephemerides: every object inside the search circle, at every visit, in any order of visits."""
from harness import env, check, pipeline as pl, tlc, fakesky as F
import os
import numpy as np
import pandas as pd

EPOCH = 60000.0
JDE = EPOCH + 2400000.5
START = 60200.3
KM, DAY = F.AU_KM, 86400.0


def vec(ra, dec):
    a, d = np.radians(ra), np.radians(dec)
    return np.array([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)])


def angle(u, v):
    return np.degrees(np.arctan2(np.linalg.norm(np.cross(u, v)), u @ v))


def radec(u):
    return np.degrees(np.arctan2(u[1], u[0])) % 360, np.degrees(np.arctan2(u[2], np.hypot(u[0], u[1])))


def offset(ra, dec, rho, pa):
    """The direction at distance rho, position angle pa (degrees) from (ra, dec)."""
    u = vec(ra, dec)
    e = np.array([-np.sin(np.radians(ra)), np.cos(np.radians(ra)), 0.0])
    n = np.cross(u, e)
    t = np.cos(np.radians(pa)) * n + np.sin(np.radians(pa)) * e
    return radec(np.cos(np.radians(rho)) * u + np.sin(np.radians(rho)) * t)


class Sky:
    def __init__(self, rng, visits, conf, nobj, speeds, code="X05"):
        self.rng, self.visits, self.conf, self.code = rng, visits, conf, code
        self.R = conf["fov"] + conf["buffer"]
        self.states = {}
        self.cache = {}
        for k in range(nobj):
            v = visits[int(rng.integers(len(visits)))]
            jd = self.jd(v)
            if k == 0 and rng.random() < .25:  # an object exactly at opposition
                v["ra"], v["dec"] = map(float, radec(F.observer(jd, code) - F.sun(jd)))
            place = "centre" if k == 0 else str(rng.choice(["centre", "in", "edge-in", "edge-in", "edge-out", "buffer", "near"]))
            rho = dict(centre=0.0, **{"in": rng.uniform(0, 1) * conf["fov"], "edge-in": self.R - rng.uniform(.001, .03), "edge-out": self.R + rng.uniform(.001, .03),
                                      "buffer": conf["fov"] + rng.uniform(0, 1) * conf["buffer"], "near": self.R * rng.uniform(1, 1.6)})[place]
            ra, dec = (v["ra"], v["dec"]) if rho == 0 else offset(v["ra"], v["dec"], max(rho, 0), rng.uniform(0, 360))
            speed = float(rng.choice(speeds)) * rng.uniform(.5, 1.5)
            dist = float(rng.choice([.3, 1.0, 3.0, 30.0])) * rng.uniform(.7, 1.4)
            dist = min(dist, 1.5 / max(speed, .01))
            u = vec(ra, dec)
            w = rng.normal(size=3)
            w -= (w @ u) * u
            w *= np.radians(speed) * dist / np.linalg.norm(w)
            vel = F.earth(jd)[1] + w + u * rng.normal(0, .004)
            self.states[f"o{k}" if k % 3 else f"{k:03d}"] = F.object_toward(ra, dec, dist, jd, vel, JDE, code)

    def jd(self, v):
        return F.jd_of(v["mjd"] + v["vis"] / 2 / DAY)

    def at(self, o, t):
        k = (o, round(t * 1e7))
        if k not in self.cache:
            self.cache[k] = F.apparent(self.states[o], JDE, t, self.code)
        return self.cache[k]

    def hat(self, o, t):
        r = self.at(o, t)[0]
        return r / np.linalg.norm(r)

    def zone(self, o, v, conf=None):
        conf = conf or self.conf
        t, p = self.jd(v), conf["picket"]
        u = self.hat(o, t)
        a = angle(u, vec(v["ra"], v["dec"]))
        if a > self.R + 1e-6:
            return "out", a
        err, speed = 0.0, 0.0
        for f in (-.5, -.25, 0, .25, .5):
            c = t + f * p
            x = (t - c) / p
            m, z, q = self.hat(o, c - p), self.hat(o, c), self.hat(o, c + p)
            i = m * x * (x - 1) / 2 + z * (1 - x * x) + q * x * (x + 1) / 2
            err = max(err, angle(i / np.linalg.norm(i), u))
            speed = max(speed, angle(m, z) / p, angle(z, q) / p)
        margin = 2 * err + 1e-6
        step = 2 * speed * 2 * p / (conf["nsub"] - 1)
        if a < self.R - margin and step / 2 + margin < .4 * 58.6 / 2 ** conf["order"]:
            return "in", a
        return "may", a

    def scenario(self, visits=None, conf=None, chunk=1000, save="eph", fmt="csv"):
        c = conf or self.conf
        sim = dict(ar_ang_fov=c["fov"], ar_fov_buffer=c["buffer"], ar_picket=c["picket"], ar_obs_code=self.code, ar_healpix_order=c["order"])
        if c["nsub"] != 101 or self.rng.random() < .5:
            sim["ar_n_sub_intervals"] = c["nsub"]
        orb = pd.DataFrame([F.bcart_row(o, s, EPOCH) for o, s in self.states.items()], columns=["ObjID", "FORMAT", "x", "y", "z", "xdot", "ydot", "zdot", "epochMJD_TDB"])
        return dict(orbits=orb, phys=pd.DataFrame([dict(ObjID=o, H_r=5.0) for o in self.states]), visits=visits or self.visits, survey="rubin_sim",
                    args=dict(ar_data_path=aux(), output_ephemeris_file=save),
                    config={"INPUT": dict(ephemerides_type="ar", eph_format=fmt, size_serial_chunk=chunk), "SIMULATION": sim, "EXPERT": dict(default_snr_cut="False", brute_force="True")})


_aux = {}


def aux():
    if env.SCRATCH not in _aux:
        _aux[env.SCRATCH] = F.data_dir(os.path.join(env.SCRATCH, "aux"))
    return _aux[env.SCRATCH]


def rows_of(res, save="eph"):
    p = os.path.join(res.dir, save + ".csv")
    if not os.path.exists(p):
        return pd.DataFrame(columns=pl.EPH_COLS)
    return pd.read_csv(p, dtype={"ObjID": str}, float_precision="round_trip")


def deviating(sky, o, v, r, slack=0.0):
    """Quantities of a row that are not those of the object at the visit (slack: relative, for motions given less exactly)."""
    t = sky.jd(v)
    rho, x, vel, obs = sky.at(o, t)
    d = np.linalg.norm(rho)
    u = rho / d
    ra, dec = radec(u)
    out = []

    def near(name, a, b, tol):
        if not abs(a - b) <= tol + slack * (60 + abs(b)):
            out.append(name)
    pos = 1e-6 if abs(dec) < 89.9 else 1e-4
    near("RA", ((r.RA_deg - ra + 180) % 360 - 180) * np.cos(np.radians(dec)), 0, pos)
    near("RA-range", 180, r.RA_deg, 180.0000001)
    near("Dec", r.Dec_deg, dec, pos)
    near("range", r.Range_LTC_km / KM, d, 1e-8 * max(d, 1))
    near("time", r.fieldMJD_TAI, v["mjd"] + v["vis"] / 2 / DAY, 1e-9)
    near("jd", r.fieldJD_TDB, t, 2e-8)
    # rates, by differences of the apparent direction
    def diff(g):  # Richardson
        h = .002
        return (4 * (g(t + h) - g(t - h)) / (2 * h) - (g(t + 2 * h) - g(t - 2 * h)) / (4 * h)) / 3

    def app(x):
        return F.apparent(sky.states[o], JDE, x, sky.code)[0]
    du = np.degrees(diff(lambda x: app(x) / np.linalg.norm(app(x))))
    e = np.array([-np.sin(np.radians(ra)), np.cos(np.radians(ra)), 0.0])
    n = np.cross(u, e)
    w = np.linalg.norm(du)
    if abs(dec) < 89.9:
        near("RA-rate", r.RARateCosDec_deg_day, du @ e, 3e-6 * w + 2e-6)
        near("Dec-rate", r.DecRate_deg_day, du @ n, 3e-6 * w + 2e-6)
    dd = diff(lambda x: np.linalg.norm(app(x)))
    near("range-rate", r.RangeRate_LTC_km_s, dd * KM / DAY, 1e-3 * abs(dd) * KM / DAY + .02)
    sun = x - F.sun(t)
    drift = 2 * np.linalg.norm(F.SUNV) * d / F.C_AU_D  # the Sun's own motion during the light time
    for k, c in enumerate("xyz"):
        near("sun", r[f"Obj_Sun_{c}_LTC_km"] / KM, sun[k], 1e-7 + drift)
        near("sun-rate", r[f"Obj_Sun_v{c}_LTC_km_s"] * DAY / KM, (vel - F.SUNV)[k], 1e-8)
        near("obs", r[f"Obs_Sun_{c}_km"] / KM, obs[k] - F.sun(t)[k], 1e-8)
    hv = (F.observer(t + 1e-3, sky.code) - F.observer(t - 1e-3, sky.code)) / 2e-3
    for k, c in enumerate("xyz"):
        near("obs-rate", r[f"Obs_Sun_v{c}_km_s"] * DAY / KM, (hv - F.SUNV)[k], 1e-7)
    near("phase", r.phase_deg, angle(sun, x - obs), 1e-4)
    return sorted(set(out))


def judge(ck, case, sky, res, conf=None, visits=None):
    rows = rows_of(res)
    err = "" if res.error is None else ": ".join(map(str, res.error))[:300]
    known, counts = {v["id"]: v for v in (visits or sky.visits)}, {}
    for v in known.values():
        mine = rows[rows.FieldID == v["id"]]
        pairs, others, off = [], len(mine), []
        for o in sky.states:
            z, a = sky.zone(o, v, conf)
            m = mine[mine.ObjID == o]
            counts[(o, v["id"])] = (z, len(m))
            others -= len(m)
            if a < sky.R + .5 or len(m):
                pairs.append(dict(o=o, zone=z, n=len(m), a=int(a * 1e6)))
                ck.notes[f"pairs_{z}"] = ck.notes.get(f"pairs_{z}", 0) + 1
            for _, r in m.iterrows():
                off += [x for x in deviating(sky, o, v, r) if x not in off]
        ck.event("TraceSearch", dict(ev="visit", error=err, pairs=pairs, others=others, off=sorted(off)), f"{case}-v{v['id']}",
                 dict(conf=conf or sky.conf, visit={k: x for k, x in v.items()}))
    stray = rows[~rows.FieldID.isin(list(known))]
    if len(stray):
        ck.event("TraceSearch", dict(ev="visit", error=err, pairs=[], others=len(stray), off=[]), f"{case}-stray")
    return counts


def config(rng, fast):
    fov = float(rng.choice([.3, 1.0, 2.06, 3.5]))
    conf = dict(fov=fov, buffer=float(rng.choice([0.0, .2, .5])), picket=int(rng.choice([1, 1, 2, 3])), order=int(rng.choice([0, 2, 4, 5, 6, 6, 7, 9, 10])), nsub=int(rng.choice([101, 101, 31, 201])))
    if fast:
        conf.update(picket=1, order=int(rng.choice([4, 5, 6, 6])), fov=float(rng.choice([.3, 1.0])))
    return conf


def visit(k, mjd, rng, fields):
    ra, dec = fields[int(rng.integers(len(fields)))]
    return dict(id=k, mjd=mjd, vis=float(rng.choice([34.0, 30.0, 100.0])), filter="r", depth=24.5, ra=ra, dec=dec)


def fields_of(rng):
    f = [(float(rng.uniform(0, 360)), float(rng.uniform(-75, 75))) for _ in range(4)]
    f += [(float(rng.choice([0.0, 359.9, .05])), float(rng.uniform(-60, 60)))]
    if rng.random() < .4:
        f += [(float(rng.uniform(0, 360)), float(rng.choice([89.95, -89.9, 88.5])))]
    return f


def patterns(ck, part, paths):
    """Time patterns of the model: steps in quarter pickets between visits."""
    rng = np.random.default_rng([env.SEED, 17, 1, part])
    for i, path in enumerate(paths):
        fast = rng.random() < .6
        conf = config(rng, fast)
        t, vs, fields = START + rng.uniform(0, 30), [], fields_of(rng)
        vs.append(visit(1, t, rng, fields))
        for k, s in enumerate(path):
            t += s * .25 * conf["picket"] + rng.uniform(-.02, .02)
            vs.append(visit(k + 2, t, rng, fields))
        sky = Sky(rng, vs, conf, int(rng.integers(4, 8)), [3.0, 6.0, 9.0] if fast else [.05, .3, 1.0], ["X05", "W84", "I11", "000", "500"][int(rng.integers(5))])
        judge(ck, f"p{part}-{i}", sky, pl.run(sky.scenario()))


def mixed(ck, n):
    """Longer histories; the same sky by other means."""
    rng = np.random.default_rng([env.SEED, 17, 2, n])
    fast = rng.random() < .3
    conf = config(rng, fast)
    nv = int(rng.integers(6, 16))
    span = float(rng.choice([.2, 3.0, 12.0, 200.0]))
    fields = fields_of(rng)
    vs = [visit(k + 1, START + rng.uniform(0, span), rng, fields) for k in range(nv)]
    how = int(rng.integers(3))
    if how:
        ts = sorted((v["mjd"] for v in vs), reverse=how == 2)
        for v, t in zip(vs, ts):
            v["mjd"] = t
    sky = Sky(rng, vs, conf, int(rng.integers(5, 12)), [3.0, 6.0] if fast else [.02, .3, 1.0])
    a = judge(ck, f"m{n}-a", sky, pl.run(sky.scenario()))
    for j in range(2):
        c2, v2, chunk = dict(conf), list(vs), int(rng.choice([1, 2, 1000]))
        if rng.random() < .5:
            c2["picket"] = 1 if fast else int(rng.choice([1, 2, 3]))
        if rng.random() < .6:
            c2["order"] = int(rng.choice([3, 5, 6, 8])) if not fast else int(rng.choice([3, 5, 6]))
        if rng.random() < .5:
            c2["nsub"] = int(rng.choice([101, 201]))
        if rng.random() < .6:  # the same visits read in another order
            v2 = [dict(v, id=i) for v, i in zip([vs[x] for x in rng.permutation(len(vs))], sorted(v["id"] for v in vs))]
        b = judge(ck, f"m{n}-{j}", sky, pl.run(sky.scenario(visits=v2, conf=c2, chunk=chunk)), c2, v2)
        back = {v["id"]: w["id"] for v in vs for w in v2 if v["mjd"] == w["mjd"]}
        sure = [(o, i) for (o, i), (z, _) in a.items() if z != "may" and b[(o, back[i])][0] != "may"]
        ck.event("TraceSearch", dict(ev="same", a=[a[s][1] for s in sure], b=[b[(s[0], back[s[1]])][1] for s in sure]), f"m{n}-{j}-same", dict(conf=conf, other=c2, chunk=chunk))
        ck.notes["runs_by_other_means"] = ck.notes.get("runs_by_other_means", 0) + 1


def collect(ck):
    F.install()
    import sorcha.sorcha, sorcha.des  # noqa
    scn, _ = tlc.scenarios("Search", "SearchGen.cfg")
    paths = sorted(s["p"] for s in scn)
    ck.notes["time_patterns"] = len(paths)
    rng = np.random.default_rng([env.SEED, 17])
    paths = [paths[i] for i in rng.permutation(len(paths))]
    if not env.THOROUGH:
        paths = paths[:400]
    parts = 16
    ck.fan([(patterns, k, paths[k::parts]) for k in range(parts)] + [(mixed, k) for k in range(160 if env.THOROUGH else 48)])
    ck.mc("Search")
    for v in ("wrongshift", "wrongrep", "halfjump", "ownpixel", "stale", "fieldonly"):
        ck.mc("Search", f"SearchX_{v}.cfg", contrast=True)
    if env.THOROUGH:
        ck.mc("Search", "SearchBig.cfg")


if __name__ == "__main__":
    check.main("C17", collect, ["the third-party libraries (ASSIST, REBOUND, SPICE) are replaced by an analytic two-body sky",
                                "objects whose path between pickets is not resolved (interpolation error beyond the edge distance, samples coarser than pixels) are not judged"])
