"""C22: the camera footprint keeps a source exactly when it falls on a detector."""
from harness import env, check, pipeline as pl, world as W
import os
import numpy as np
import pandas as pd

U = 2.5e-7  # focal-plane unit, radians
ARC = np.degrees(1) * 3600


def sky(q, ra, dec, rot, back=False):
    """The direction seen at focal-plane position q (radians) by a camera centred at (ra, dec) and turned by rot (degrees)."""
    z = (q[0] + 1j * q[1]) * np.exp(-1j * np.radians(rot))
    a, d = np.radians(ra), np.radians(dec)
    n = np.array([np.cos(a) * np.cos(d), np.sin(a) * np.cos(d), np.sin(d)])
    e = np.array([-np.sin(a), np.cos(a), 0.0])
    v = n + z.real * e + z.imag * np.cross(n, e)
    v = v / np.linalg.norm(v) * (-1 if back else 1)
    return float(np.degrees(np.arctan2(v[1], v[0])) % 360), float(np.degrees(np.arcsin(np.clip(v[2], -1, 1)))), v


def polygon(rng, c, r, n):
    th = np.sort(rng.uniform(0, 2 * np.pi, 40))[:: 40 // n][:n] + rng.uniform(0, 6)
    return [(int(c[0] + r * np.cos(t)), int(c[1] + r * np.sin(t))) for t in th]


def layouts(rng):
    """Detectors as (id, corners) in units of U."""
    k = int(rng.integers(6))
    if k == 0:  # a grid with gaps
        s, g = int(rng.integers(2000, 4000)), int(rng.integers(40, 400))
        L = [[(x, y), (x + s, y), (x + s, y + s), (x, y + s)] for x in (-s - g, 0, s + g) for y in (-s - g, 0, s + g)]
    elif k == 1:  # abutting
        s = int(rng.integers(2000, 5000))
        L = [[(x, y), (x + s, y), (x + s, y + s), (x, y + s)] for x in (-s, 0) for y in (-s, 0)]
    elif k == 2:  # overlapping
        L = [[(x, y), (x + 5000, y), (x + 5000, y + 3000), (x, y + 3000)] for x, y in ((-4000, -2000), (-1000, 0), (-3000, -500))]
    elif k == 3:  # turned rectangles
        L = []
        for c in ((-6000, 2000), (3000, 5000), (4000, -6000)):
            t = rng.uniform(0, 6)
            L.append([(int(c[0] + np.cos(t) * x - np.sin(t) * y), int(c[1] + np.sin(t) * x + np.cos(t) * y)) for x, y in ((-3000, -1500), (3000, -1500), (3000, 1500), (-3000, 1500))])
    elif k == 4:  # other convex shapes
        L = [polygon(rng, c, int(rng.integers(3000, 5000)), n) for c, n in zip(((-8000, 0), (6000, 5000), (6000, -7000)), (3, 5, 8))]
    else:  # one, away from the axis
        L = [[(3000, 3000), (9000, 4000), (8000, 9000), (2000, 7000)]]
    ids = list(rng.permutation(np.arange(1, 40))[: len(L)]) if rng.random() < .7 else list(range(len(L)))
    rng.shuffle(ids)
    return [(int(i), c) for i, c in zip(ids, L)]


def corners_file(path, dets, rng, unit):
    rows = [(i, c) for i, cs in dets for c in cs]
    if rng is not None:
        rng.shuffle(rows)
    with open(path, "w") as f:
        f.write("detector,x,y\n")
        for i, (x, y) in rows:
            f.write(f"{i},{x * unit!r},{y * unit!r}\n")
    return path


def spots(rng, dets, t, margin, n):
    """Positions: anywhere, deep inside, and close to the borders and to where the edge threshold bites."""
    out = []
    for _ in range(n):
        u = rng.random()
        i, cs = dets[int(rng.integers(len(dets)))]
        cs = np.array(cs, float)
        m = cs.mean(axis=0)
        if u < .15:
            out.append(tuple(int(x) for x in rng.integers(-15000, 15000, 2)))
        elif u < .35:
            a = rng.dirichlet(np.ones(len(cs)))
            out.append(tuple(int(round(x)) for x in a @ cs))
        else:
            o = cs[np.argsort(np.arctan2(*(cs - m).T[::-1]))]
            j = int(rng.integers(len(o)))
            a, b = o[j], o[(j + 1) % len(o)]
            f = rng.choice([0.0, 1.0, .5, rng.random(), rng.random(), rng.random()])
            nrm = np.array([-(b - a)[1], (b - a)[0]]) / np.linalg.norm(b - a)  # inward
            off = rng.choice([0, t]) + rng.choice([-1, 1]) * (margin + rng.choice([1, 2, 5, 30]))
            out.append(tuple(int(round(x)) for x in a + f * (b - a) + off * nrm))
    return [p for p in out if max(abs(p[0]), abs(p[1])) < 15900]


CENTRES = [(0.0, 90.0), (123.0, -90.0), (10.0, 89.9999), (0.0, 0.0), (359.99999, 5.0), (0.001, -40.0), (180.0, 30.0), (77.0, -89.5)]


def label(v):
    try:
        f = float(v)
        return str(int(f)) if f == int(f) else str(v)
    except (TypeError, ValueError):
        return str(v)


def chunk(ck, case, rng, dets, t, survey="rubin_sim", path=None, unit=U, margin=2, n=120, scale=1, order=None, over=None, size=1000, back=True):
    """Lays sources of several objects and visits on a layout through the pipeline."""
    vis = []
    for k in range(6):
        ra, dec = CENTRES[int(rng.integers(len(CENTRES)))] if rng.random() < .5 else (float(rng.uniform(0, 360)), float(np.degrees(np.arcsin(rng.uniform(-1, 1)))))
        vis.append(dict(id=10 + 7 * k, mjd=60000.0 + k, filter="r", depth=24.0, ra=ra, dec=dec, rot=0.0 if survey == "DES" else float(rng.choice([0.0, 90.0, -90.0, 180.0, 400.0, float(rng.uniform(0, 360))]))))
    ps = spots(rng, dets, t, margin, n)
    nobj = -(-len(ps) // len(vis))
    objs, eph, want = [f"o{k}" for k in range(nobj)], [], {}
    for k, p in enumerate(ps):
        v, o = vis[k % len(vis)], objs[k // len(vis)]
        b = back and rng.random() < .04
        ra, dec, _ = sky((p[0] * unit, p[1] * unit), v["ra"], v["dec"], v["rot"], b)
        eph.append(dict(obj=o, field=v["id"], mjd=v["mjd"], ra=ra, dec=dec))
        want[o, v["id"]] = (99999, 99999) if b else p
    if order is not None:
        objs = [objs[i] for i in order(rng, len(objs))]
    eph.sort(key=lambda e: (objs.index(e["obj"])))
    fov = dict(camera_model="footprint")
    sc = dict(objects=[], survey=survey, orbits=pl.orbit_frame([dict(id=o) for o in objs]), phys=pd.DataFrame({"ObjID": objs, "H_r": 10.0}), visits=vis, eph=eph)
    if path is not None:
        fov["footprint_path"] = path
    if t:
        fov["footprint_edge_threshold"] = repr(float(t * unit * ARC))
    sc["config"] = dict(FOV=fov, INPUT=dict(size_serial_chunk=str(size)))
    for s, kv in (over or {}).items():
        sc["config"].setdefault(s, {}).update(kv)
    r = pl.run(sc)
    got = {}
    if r.out is not None:
        for o, f, d in zip(r.out["ObjID"], r.out["FieldID"], r.out["detectorID"]):
            got.setdefault((o, int(f)), []).append(label(d))
    box = lambda cs: [min(c[0] for c in cs) - margin - 1, max(c[0] for c in cs) + margin + 1, min(c[1] for c in cs) - margin - 1, max(c[1] for c in cs) + margin + 1]  # noqa
    ck.event("TraceFoot", dict(ev="chunk", dets=[dict(id=str(i), corners=[list(c) for c in cs], box=box(cs)) for i, cs in dets], thresh=int(t), margin=int(margin), error="" if r.error is None else f"{r.error[0]}: {r.error[1][:200]}",
             src=[dict(p=list(p), rows=len(got.get(k, [])), labels=got.get(k, [])) for k, p in want.items()]), case)
    ck.notes["sources"] = ck.notes.get("sources", 0) + len(want)
    return {f"{k[0]}|{k[1]}": sorted(v) for k, v in got.items()}


def builtin(survey):
    f = {"rubin_sim": "LSST_detector_corners_100123.csv", "DES": "DES_ccd_corners.csv"}[survey]
    df = pd.read_csv(os.path.join(env.REPO, "src/sorcha/modules/data", f), dtype={"detector": str})
    s = 1.0 if survey == "rubin_sim" else np.radians(1)  # the DES layout is in degrees
    unit = 2e-6
    return [(i, [(int(round(x * s / unit)), int(round(y * s / unit))) for x, y in zip(g["x"], g["y"])]) for i, g in df.groupby("detector", sort=False)], unit


def own(ck, rep):
    rng = np.random.default_rng([env.SEED, 22, rep])
    d = env.scratch("lay")
    for j in range(5):
        dets = layouts(rng)
        t = int(rng.choice([0, 0, 40, 300, 700]))
        survey = "DES" if rng.random() < .25 else "rubin_sim"
        size = int(rng.choice([1000, 1000, 3, 1]))
        path = corners_file(os.path.join(d, f"l{j}.csv"), dets, None, U)
        seed = int(rng.integers(1 << 30))
        a = chunk(ck, f"layout-{len(dets)}/{survey}", np.random.default_rng(seed), dets, t, survey, path, size=size)
        sh = list(dets)
        rng.shuffle(sh)
        path = corners_file(os.path.join(d, f"m{j}.csv"), sh, rng, U)
        b = chunk(ck, f"shuffled-{len(dets)}/{survey}", np.random.default_rng(seed), dets, t, survey, path, order=lambda r, n: list(np.random.default_rng(rep).permutation(n)))
        ck.event("TraceFoot", dict(ev="same", a=sorted(a), b=sorted(b)), "order")


def real(ck, rep):
    rng = np.random.default_rng([env.SEED, 220, rep])
    for survey in ("rubin_sim", "DES"):
        dets, unit = builtin(survey)
        for t in (0, int(round(30 / float(ARC) / unit))):
            chunk(ck, f"built-in/{survey}/{'edge' if t else 'plain'}", rng, dets, t, survey, None, unit=unit, margin=18 if survey == "rubin_sim" else 8, n=240)


def measured(ck, rep):
    """With the noise on it is the measured position that decides (and is reported)."""
    rng = np.random.default_rng([env.SEED, 221, rep])
    w = W.rich(rng, "rubin_sim", n=12, nvis=20, rates=False)
    d = env.scratch("lay")
    dets = layouts(rng)
    big = [(i, [(c[0] * 8, c[1] * 8) for c in cs]) for i, cs in dets]  # degrees wide, to catch these
    path = corners_file(os.path.join(d, "l.csv"), big, None, U)
    sc, _ = w.scenario(chunk=4, stats=None)
    for e in ("EXPERT",):
        sc["config"].setdefault(e, {}).update(randomization_on="True", default_snr_cut="False")
    sc["config"]["FOV"] = dict(camera_model="footprint", footprint_path=path)
    r = pl.run(sc)
    src, vis = [], {v["id"]: v for v in w.visits}
    if r.out is not None:
        for ra, dec, f, lab in zip(r.out["RA_deg"], r.out["Dec_deg"], r.out["FieldID"], r.out["detectorID"]):
            v = vis[int(f)]
            n, e = sky((0, 0), v["ra"], v["dec"], 0)[2], None
            a = np.radians(v["ra"])
            e = np.array([-np.sin(a), np.cos(a), 0])
            s = sky((0, 0), ra, dec, 0)[2]
            s = s / (s @ n) - n
            z = (s @ e + 1j * (s @ np.cross(n, e))) * np.exp(1j * np.radians(v["rot"]))
            p = [int(round(z.real / U / 8)), int(round(z.imag / U / 8))]
            src.append(dict(p=p, rows=1, labels=[label(lab)]))
    box = lambda cs: [min(c[0] for c in cs) - 25, max(c[0] for c in cs) + 25, min(c[1] for c in cs) - 25, max(c[1] for c in cs) + 25]  # noqa
    ck.event("TraceFoot", dict(ev="chunk", dets=[dict(id=str(i), corners=[list(c) for c in cs], box=box(cs)) for i, cs in dets], thresh=0, margin=20, error="" if r.error is None else str(r.error), src=src), "measured")


def collect(ck):
    import sorcha.sorcha, sorcha.des  # noqa
    n = 8 if env.THOROUGH else 1
    ck.fan([(own, rep) for rep in range(8 * n)] + [(real, rep) for rep in range(n)] + [(measured, rep) for rep in range(3 * n)])
    ck.mc("Foot")
    for v in ("firstvisit", "position", "twice", "noedge"):
        ck.mc("Foot", f"FootX_{v}.cfg", contrast=True)


if __name__ == "__main__":
    check.main("C22", collect, ["positions closer than half a milliarcsecond to a border are left open", "corner values are taken as angles (the documented tangents differ by less than the margins used)"])
