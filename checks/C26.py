"""C26: orbit formats: the same motion in any of the six formats, at any epoch, gives the same ephemeris; orbits that are none are refused."""
from harness import env, check, pipeline as pl, tlc, fakesky as F, orbits, world
from checks import C17
import os
import numpy as np
import pandas as pd

BASE = 60000.0
J = 2400000.5


def state_of(kind, rng):
    """Barycentric equatorial state at the base epoch of a motion of a kind about the Sun."""
    q = float(10 ** rng.uniform(-1, 1.5))
    if kind == "bound":
        e = 0.0 if rng.random() < .12 else float(rng.uniform(0, .97))
    elif kind == "comet":
        q = float(10 ** rng.uniform(-1.5, .8))
        e = 1 - float(10 ** rng.uniform(-7, -2))
    elif kind == "parabolic":
        q, e = float(10 ** rng.uniform(-1, .8)), 1.0
    else:
        q = float(10 ** rng.uniform(-1, .8))
        e = 1 + float(rng.choice([1e-6, 1e-3, .2, 1.0])) * min(3.0, q * .06 ** 2 / F.GM) * float(rng.uniform(.2, 1))
    inc = np.radians(float(rng.choice([0.0, 90.0, 180.0, *rng.uniform(0, 180, 6), 1e-5, 5.0])))
    node, w = [np.radians(float(rng.choice([0.0, 90.0, 180.0, 270.0, *rng.uniform(0, 360, 8)]))) for _ in range(2)]
    per = 2 * np.pi * np.sqrt((q / (1 - e)) ** 3 / F.GM) if e < 1 else 1e9
    dt = float(rng.uniform(-1, 1)) * min(per, float(10 ** rng.uniform(1, 3.8)))
    r, v = F.kepler(np.array([q, 0, 0]), np.array([0, np.sqrt(F.GM * (1 + e) / q), 0]), dt)

    def rot(a, i):
        c, s = np.cos(a), np.sin(a)
        return np.array([[1, 0, 0], [0, c, -s], [0, s, c]]) if i == 0 else np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])
    M = rot(node, 2) @ rot(inc, 0) @ rot(w, 2)
    return np.concatenate([F.ec2eq(M @ r) + F.sun(BASE + J), F.ec2eq(M @ v) + F.SUNV])


def moved(state, jd0, jd1):
    r, v = F.kepler(np.asarray(state[:3]) - F.sun(jd0), np.asarray(state[3:]) - F.SUNV, jd1 - jd0)
    return np.concatenate([r + F.sun(jd1), v + F.SUNV])


def ecc(state, fmt, ep):
    b = fmt.startswith("B")
    p, v = np.asarray(state[:3]) - (0 if b else F.sun(ep + J)), np.asarray(state[3:]) - (0 if b else F.SUNV)
    return orbits.elements(p, v, F.GM_TOTAL if b else F.GM)[:2]


class Sky(C17.Sky):
    """Motions as states at the base epoch; which rows they get is C17's matter."""

    def __init__(self, states, visits, conf):
        self.states, self.visits, self.conf, self.code = states, visits, conf, "X05"
        self.R = conf["fov"] + conf["buffer"]
        self.cache = {}


def slack(rng, sky, o, st, ep, v, fmt):
    """How far (radians) the rounding of the elements moves the object at the visit."""
    t = sky.jd(v)
    a = F.apparent(st, ep + J, t)[0]
    rel = 4e-9
    if fmt.endswith("KEP"):
        rel += 4e-16 / abs(1 - ecc(st, fmt, ep)[1])
    m = 0.0
    if fmt.endswith("KEP"):  # the mean anomaly's own rounding
        q, e = ecc(st, fmt, ep)
        p = moved(st, ep + J, ep + J + 2 * np.pi * np.sqrt((q / (1 - e)) ** 3 / F.GM) * 2e-16)
        m = np.linalg.norm(F.apparent(p, ep + J, t)[0] - a) / np.linalg.norm(a)
    for _ in range(4):
        d = rng.normal(0, 1, 6)
        p = np.array(st)
        p[:3] += rel * np.linalg.norm(st[:3]) * d[:3] / np.linalg.norm(d[:3])
        p[3:] += rel * np.linalg.norm(st[3:]) * d[3:] / np.linalg.norm(d[3:])
        m = max(m, np.linalg.norm(F.apparent(p, ep + J, t)[0] - a) / np.linalg.norm(a))
    return 4 * m


def make(rng, kinds, epochs):
    while True:
        states = {f"{k}_{i}": state_of(k, rng) for i, k in enumerate(kinds)}
        ok = True
        for s in states.values():
            for ep in epochs:
                x = moved(s, BASE + J, ep + J)
                for f in ("COM", "BCOM"):
                    q, e = ecc(x, f, ep)
                    ok &= .004 < q < 80 and np.linalg.norm(x[:3]) > .02
                    # the motion about the barycentre need not be bound where the one about the Sun is
        if ok:
            return states


def rows_at(states, fmt, eps, jds):
    return [orbits.row(o, fmt, moved(s, BASE + J, ep + J), ep, jd) for (o, s), ep, jd in zip(states.items(), eps, jds)]


def turned(rows, rng):
    """Angles counted from -180."""
    if rng.random() < .5:
        return rows
    back = lambda x: x - 360 if x > 180 else x
    return [r if r[1].endswith("CART") else r[:5] + [back(r[5]), back(r[6]), back(r[7]) if r[1].endswith("KEP") else r[7], r[8]] for r in rows]


def one(ck, case, rng, scn):
    """A file of the model's shape: format, epochs."""
    fmt = scn["fmt"]
    kep = fmt.endswith("KEP")
    day = {0: BASE + float(rng.uniform(-4000, 4000)), 3: BASE + float(rng.choice([-.5, 0, 100, 400])) + float(rng.uniform(0, .01)), 4: BASE + float(np.round(rng.uniform(-400, 400)))}
    if rng.random() < .4:  # epochs within minutes or hours
        day[4] = day[3] + float(10 ** rng.uniform(-2, 0))
    eps, jds = [day[r["ep"]] for r in scn["rows"]], [r["jd"] for r in scn["rows"]]
    while True:
        kinds = [str(rng.choice(["bound", "bound", "comet"] + ([] if kep else ["parabolic", "hyperbolic"]))) for _ in eps]
        states = make(rng, kinds, eps)
        if not kep or all(ecc(moved(s, BASE + J, ep + J), fmt, ep)[1] < 1 - 2e-6 for s, ep in zip(states.values(), eps)):
            break
    vs = []
    t = BASE + float(rng.uniform(-300, 300))
    conf = dict(fov=2.06, buffer=.2, picket=1, order=6, nsub=101)
    for k in range(5):
        o = list(states)[k % len(states)]
        t += float(rng.choice([.02, .4, 3.0, 60.0]))
        u = F.apparent(states[o], BASE + J, F.jd_of(t))[0]
        ra, dec = C17.radec(u / np.linalg.norm(u))
        vs.append(dict(id=k + 1, mjd=t, vis=30.0, filter="r", depth=24.5, ra=float(ra), dec=float(np.clip(dec + rng.uniform(-1, 1), -89, 89)), c=.9, k=5.0))
    w = world.World("DES" if rng.random() < .2 else "rubin_sim")
    if w.survey == "DES":
        vs = [dict(v, vis=90.0, exp=90.0) for v in vs]
    sky = Sky(states, vs, conf)
    w.fmt, w.visits, w.args = fmt, vs, dict(ar_data_path=C17.aux())
    for r in turned(rows_at(states, fmt, eps, jds), rng):
        w.objs[r[0]] = dict(orbit=r, phys={"ObjID": r[0], "H_r": -12.0}, eph=[], cpx=None)
    w.config = {"INPUT": dict(ephemerides_type="ar"), "FILTERS": dict(observing_filters="r"), "PHASECURVES": dict(phase_function="none"),
                "SIMULATION": dict(ar_ang_fov="2.06", ar_fov_buffer="0.2", ar_picket="1", ar_obs_code="X05", ar_healpix_order="6"), "EXPERT": dict(brute_force=str(rng.random() < .5))}
    sc, _ = w.scenario(chunk=int(rng.choice([1, 2, 1000])), stats=None)
    sc["args"]["output_ephemeris_file"] = "eph"
    sc["config"]["INPUT"]["eph_format"] = "csv"
    res = pl.run(sc)
    got = C17.rows_of(res)
    err = "" if res.error is None else ": ".join(map(str, res.error))[:300]
    rows, off = [], set()
    for (o, s), ep in zip(states.items(), eps):
        st = moved(s, BASE + J, ep + J)
        for v in vs:
            z, a = sky.zone(o, v)
            m = got[(got.ObjID == o) & (got.FieldID == v["id"])]
            sl = slack(rng, sky, o, st, ep, v, fmt) if a < sky.R + 1 or len(m) else 0.0
            if sl > 1e-5 or (z == "in" and a + np.degrees(sl) > sky.R - 1e-4) or (z == "out" and a < sky.R + 1e-3 + np.degrees(sl)):
                z = "may"
            rows.append(dict(zone=z, n=len(m)))
            ck.notes["pairs_" + z] = ck.notes.get("pairs_" + z, 0) + 1
            if sl <= 1e-5:
                for _, r in m.iterrows():
                    d = C17.deviating(sky, o, v, r, sl)
                    off |= {f"{o} {x}" for x in d}
    ck.notes["runs_" + fmt] = ck.notes.get("runs_" + fmt, 0) + 1
    ck.event("TraceOrbits", dict(ev="run", fmt=fmt, error=err, rows=rows, off=sorted(off)), case, dict(fmt=fmt, epochs=eps, jd=jds, rows=[list(map(str, w.objs[o]["orbit"])) for o in states], visits=vs))


def part(ck, k, scn):
    rng = np.random.default_rng([env.SEED, 26, k])
    for n, s in enumerate(scn):
        one(ck, f"{k}-{n}", rng, s)


def refusals(ck, k):
    """One row of each class of eccentricity and size, alone and behind others."""
    rng = np.random.default_rng([env.SEED, 26, 100 + k])
    for fmt in sorted(orbits.COLS):
        for ec in (-1, 0, 1, 2):
            for size in (-1, 1):
                good = orbits.row("good", fmt, make(rng, ["bound"], [BASE]).popitem()[1], BASE)
                e = {-1: -float(rng.choice([1e-6, .3])), 0: float(rng.uniform(0, .9)), 1: 1.0, 2: 1 + float(rng.choice([1e-3, .3]))}[ec]
                s = size * float(rng.uniform(1, 3))
                bad = ["bad", fmt, s, e, 10.0, 20.0, 30.0, 40.0 if fmt.endswith("KEP") else BASE - 50.0, BASE]
                if fmt.endswith("CART"):
                    if ec or size < 0:
                        continue
                    bad = orbits.row("bad", fmt, make(rng, ["hyperbolic"], [BASE]).popitem()[1], BASE)
                w = world.World("rubin_sim")
                w.fmt, w.args = fmt, dict(ar_data_path=C17.aux())
                w.visits = [dict(id=1, mjd=BASE + 30, vis=30.0, filter="r", depth=24.5, ra=10.0, dec=5.0)]
                for r in ([good, bad] if rng.random() < .5 else [bad, good]):
                    w.objs[r[0]] = dict(orbit=r, phys={"ObjID": r[0], "H_r": -12.0}, eph=[], cpx=None)
                w.config = {"INPUT": dict(ephemerides_type="ar"), "FILTERS": dict(observing_filters="r"), "PHASECURVES": dict(phase_function="none"),
                            "SIMULATION": dict(ar_ang_fov="2.06", ar_fov_buffer="0.2", ar_picket="1", ar_obs_code="X05", ar_healpix_order="6"), "EXPERT": dict(brute_force=str(rng.random() < .5))}
                sc, _ = w.scenario(chunk=int(rng.choice([1, 1000])), stats=None)
                sc["args"]["output_ephemeris_file"] = "eph"
                sc["config"]["INPUT"]["eph_format"] = "csv"
                res = pl.run(sc)
                n = int((C17.rows_of(res).ObjID == "bad").sum())
                err = "" if res.error is None else ": ".join(map(str, res.error))[:300]
                ck.event("TraceOrbits", dict(ev="orbit", fmt=fmt, ecc=ec, size=size, error=err, n=n), f"refusal-{k}-{fmt}-{ec}-{size}", dict(row=list(map(str, bad))))


def collect(ck):
    F.install()
    import sorcha.sorcha, sorcha.des  # noqa
    scn, _ = tlc.scenarios("Orbits", "OrbitsGen.cfg")
    scn = sorted(scn, key=str)
    ck.notes["files_enumerated"] = len(scn)
    rng = np.random.default_rng([env.SEED, 26])
    scn = [scn[i] for i in rng.permutation(len(scn))]
    if not env.THOROUGH:
        scn = scn[:576]
    parts = 24
    ck.fan([(part, k, scn[k::parts]) for k in range(parts)] + [(refusals, k) for k in range(3 if env.THOROUGH else 1)])
    ck.mc("Orbits")
    for v in ("onesun", "firstepoch", "jdonly", "helio", "stillsun", "forgets"):
        ck.mc("Orbits", f"OrbitsX_{v}.cfg", contrast=True)
    if env.THOROUGH:
        ck.mc("Orbits", "OrbitsBig.cfg")


if __name__ == "__main__":
    check.main("C26", collect, ["the third-party libraries (ASSIST, REBOUND, SPICE) are replaced by an analytic two-body sky with a moving Sun",
                                "positions are compared to within what the rounding of times to a Julian date (4e-9) can move them"])
