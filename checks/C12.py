"""C12: DES distance cuts select objects, motion cuts select detections, distance before motion before discovery."""
from harness import env, check, desio as D, pipeline as pl
import numpy as np


def direct(ck, case, objs, rng, distance=None, motion=None, order="shuffle"):
    from sorcha.modules.PPDistanceandMotionCuts import distance_cut, motion_cut
    df = D.table(objs, rng, order)

    def go(x):
        if distance is not None:
            x = distance_cut(x, distance[1], distance[0])
        if motion is not None:
            x = motion_cut(x, motion[1], motion[0])
        return x
    with pl.quiet():
        out, err = pl.guarded(go, df.copy())
    ck.event("TraceDES", D.rows_event(df, out, err, distance, motion, False), case)


def unit(rng):
    v = rng.normal(size=3)
    return v / np.linalg.norm(v)


def population(rng, distance, motion, n):
    """Objects whose distances and rates sit on, just inside and just outside the bounds."""
    import astropy.units as u
    km = lambda a: float((a * u.au).to(u.km).value)
    objs = []
    for j in range(n):
        m = int(rng.integers(1, 6))
        xyz, mot = [], []
        for _ in range(m):
            lo, hi = distance or (1.0, 10.0)
            kind = rng.integers(0, 6)
            if kind < 2:  # exactly on a bound, along an axis
                d = np.zeros(3)
                d[rng.integers(0, 3)] = km(lo if kind else hi) * float(rng.choice([-1, 1]))
            else:
                r = {2: lo * 0.99, 3: (lo + hi) / 2, 4: hi * 1.01, 5: rng.uniform(0, 2 * hi)}[int(kind)]
                d = unit(rng) * km(r)
            xyz.append(tuple(float(x) for x in d))
            lo, hi = motion or (0.1, 1.0)
            kind = rng.integers(0, 6)
            if kind < 2:
                v = [0.0, 0.0]
                v[rng.integers(0, 2)] = (lo if kind else hi) * float(rng.choice([-1, 1]))
            else:
                r = {2: lo * 0.98, 3: (lo + hi) / 2, 4: hi * 1.02, 5: rng.uniform(0, 2 * hi)}[int(kind)]
                a = rng.uniform(0, 2 * np.pi)
                v = [r * np.cos(a), r * np.sin(a)]
            mot.append((float(v[0]), float(v[1])))
        objs.append(dict(id=f"O{j}" + "x" * (j % 3), t=[float(x) + 0.125 for x in np.sort(rng.choice(400, m, replace=False))], xyz=xyz, m=mot))
    return objs


DIST = [None, (2.0, 4.0), (0.0, 4.0), (32.0, 64.0), (0.0, 0.5), (1.0, 1.5)]
MOT = [None, (0.25, 0.5), (0.0, 0.5), (0.5, 2.0), (0.0, 0.125)]


def collect(ck):
    rng = np.random.default_rng(env.SEED + 12)
    ck.mc("DESCuts")
    for d in DIST:
        for m in MOT:
            if d is None and m is None:
                continue
            for rep in range(12 if env.THOROUGH else 2):
                direct(ck, f"direct/{d}-{m}", population(rng, d, m, int(rng.integers(1, 9))), rng, d, m, str(rng.choice(["shuffle", "index", "group", "time"])))
    # empty results and single rows
    direct(ck, "direct/none", [dict(id="a", t=[0.125, 5.125], r=3.0, m=(5.0, 0.0))], rng, None, (0.0, 1.0))
    direct(ck, "direct/none", [dict(id="a", t=[0.125, 5.125], r=3.0, m=(5.0, 0.0))], rng, (5.0, 6.0), None)
    # whole runs from a configuration file: each on its own, both, and with discovery, in several chunk sizes
    k = 0
    for d in DIST:
        for m in MOT:
            for disc in (False, True):
                k += 1
                if d is None and m is None and not disc:
                    continue
                if not env.THOROUGH and disc and k % 3:
                    continue
                objs = population(rng, d, m, 6)
                if disc:  # objects whose discovery depends on what the cuts leave
                    far, near = (5.0 * (d[1] if d else 1.0), (d[0] + d[1]) / 2 if d else 1.0)
                    slow, fast = ((m[0] + m[1]) / 2 if m else 0.01, m[1] * 3 if m else 0.01)
                    ten = [0.125 + 3 * x for x in range(10)]
                    objs += [dict(id="one-near", t=ten, r=[near] + [far] * 9, m=[(slow, 0.0)] * 10),
                             dict(id="none-near", t=ten, r=far, m=[(slow, 0.0)] * 10),
                             dict(id="eight-slow", t=ten, r=near, m=[(slow, 0.0)] * 8 + [(fast, 0.0)] * 2),
                             dict(id="nine-slow", t=ten, r=near, m=[(0.0, slow)] * 9 + [(0.0, -fast)]),
                             # the near detection is the one the motion cut takes away: distance comes first
                             dict(id="near-fast", t=ten, r=[near] + [far] * 9, m=[(fast, 0.0)] + [(slow, 0.0)] * 9)]
                df = D.table(objs, rng)
                off, on = D.run_pipeline(df, distance=d, motion=m, disc=disc, chunk=[1, 4, 100][k % 3])
                if off.error or off.out is None:
                    ck.fail(f"pipeline/{d}-{m}-{disc}", "no-error", off.error)
                    continue
                ck.event("TraceDES", D.rows_event(off.out, on.out, on.error, d, m, disc, ordered=False), f"pipeline/{d}-{m}-{disc}")


if __name__ == "__main__":
    check.main("C12", collect)
