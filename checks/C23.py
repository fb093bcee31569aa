"""C23: per-visit detectors: a source is kept exactly when one of its visit covers it."""
from harness import env, check, pipeline as pl
from checks.C22 import label
import os
import sqlite3
import numpy as np
import pandas as pd

Q = "SELECT llcra, llcdec, lrcra, lrcdec, urcra, urcdec, ulcra, ulcdec, ra as ra_centre, dec as dec_centre, detectorID, magLim as limMag_perChip  FROM observations WHERE visitId = ?"
U = 2e-4  # degrees


def camera(rng):
    """Outlines of one visit: (id, four corners lower left, lower right, upper right, upper left), in degrees of sky from the centre."""
    k = int(rng.integers(5))
    L = []
    if k == 0:  # rows of chips, laid as bricks
        for j in range(-2, 3):
            for i in range(-2, 3):
                x, y = i * .31 + (j % 2) * .15, j * .16
                L.append([(x, y), (x + .3, y), (x + .3, y + .15), (x, y + .15)])
    elif k == 1:  # a large one between many small ones
        L.append([(-.5, -.3), (.5, -.3), (.5, .3), (-.5, .3)])
        for i in range(10):
            for y in (-.33, .31):
                L.append([(-.5 + .1 * i, y), (-.41 + .1 * i, y), (-.41 + .1 * i, y + .02), (-.5 + .1 * i, y + .02)])
    elif k == 2:  # one
        L.append([(-.4, -.2), (.3, -.25), (.35, .3), (-.3, .4)])
    elif k == 3:  # turned
        t = rng.uniform(0, 6)
        for c in ((-.6, 0), (.5, .5), (.4, -.5)):
            L.append([(c[0] + np.cos(t) * x - np.sin(t) * y, c[1] + np.sin(t) * x + np.cos(t) * y) for x, y in ((-.3, -.15), (.3, -.15), (.3, .15), (-.3, .15))])
    else:  # long thin ones
        for i in range(6):
            L.append([(-.9, -.3 + .1 * i), (.9, -.3 + .1 * i), (.9, -.23 + .1 * i), (-.9, -.23 + .1 * i)])
    ids = rng.permutation(np.arange(1, 80))[: len(L)]
    return [(int(i), c) for i, c in zip(ids, L)]


def world(rng):
    vis = []
    for k in range(7):
        ra = float(rng.choice([0.0, .0004, 359.9, .3, 359.5, 180.0, 359.9999, float(rng.uniform(0, 360)), float(rng.uniform(0, 360)), float(rng.uniform(0, 360))]))
        dec = float(rng.choice([0.0, -60.0, -85.0, 70.0, float(rng.uniform(-70, 5))]))
        vis.append(dict(id=int(rng.integers(1, 9)) * 100 + k, mjd=60000.0 + k, filter="rrrrgrz"[k], depth=24.0, ra=ra, dec=dec))
    chips, rows = {}, []
    for k, v in enumerate(vis):
        if k == 3:
            chips[v["id"]] = []
            continue
        f = 1 / np.cos(np.radians(v["dec"]))
        out = []
        how = ["on", "each", "back"][int(rng.integers(3))]
        for i, cs in camera(rng):
            # corners in units around the centre
            g = [(int(round(x * min(f, 3) / U)), int(round(y / U))) for x, y in cs]
            lim = f"{float(rng.uniform(20, 25)):.6f}"
            out.append((i, lim, g))
            ra = [v["ra"] + x * U for x, _ in g]
            rc = float(np.mean(ra))
            if how == "each":
                ra, rc = [r % 360 for r in ra], rc % 360
            if how == "back" and v["ra"] > 180:
                ra, rc = [r - 360 for r in ra], rc - 360
            rows.append((*[z for r, (_, y) in zip(ra, g) for z in (r, v["dec"] + y * U)], rc, v["dec"] + float(np.mean([y for _, y in g])) * U, i, v["id"], float(lim)))
        chips[v["id"]] = out
    rng.shuffle(rows)
    return vis, chips, rows


def database(path, rows):
    con = sqlite3.connect(path)
    con.execute("create table observations (llcra real, llcdec real, lrcra real, lrcdec real, urcra real, urcdec real, ulcra real, ulcdec real, ra real, dec real, detectorID integer, visitId integer, magLim real)")
    con.executemany("insert into observations values (?,?,?,?,?,?,?,?,?,?,?,?,?)", [[int(z) if isinstance(z, np.integer) else (int(z) if j in (10, 11) else float(z)) for j, z in enumerate(r)] for r in rows])
    con.commit()
    con.close()
    return path


def spots(rng, chips, n, off=.15):
    out = []
    for _ in range(n):
        if not chips or rng.random() < off:
            out.append(tuple(int(x) for x in rng.integers(-9000, 9000, 2)))
            continue
        _, _, cs = chips[int(rng.integers(len(chips)))]
        cs = np.array(cs, float)
        if rng.random() < .4:
            p = rng.dirichlet(np.ones(4)) @ cs
        else:
            j = int(rng.integers(4))
            a, b = cs[j], cs[(j + 1) % 4]
            nrm = np.array([-(b - a)[1], (b - a)[0]]) / np.linalg.norm(b - a)
            p = a + rng.random() * (b - a) + rng.choice([-1, 1]) * rng.choice([4, 6, 20]) * nrm
        out.append(tuple(int(round(x)) for x in p))
    return out


def shoot(vis, pts, objs, db, size, over=None):
    eph = []
    for v in vis:
        for o, p in zip(objs, pts[v["id"]]):
            eph.append(dict(obj=o, field=v["id"], mjd=v["mjd"], ra=(v["ra"] + p[0] * U) % 360, dec=v["dec"] + p[1] * U))
    eph.sort(key=lambda e: objs.index(e["obj"]))
    sc = dict(objects=[], survey="DES", orbits=pl.orbit_frame([dict(id=o) for o in objs]), phys=pd.DataFrame({"ObjID": objs, "H_r": 10.0, "g-r": .3}), visits=vis, eph=eph, visits_db=db,
              config=dict(FOV=dict(camera_model="visits_footprint", visits_query=Q), FILTERS=dict(observing_filters="r,g"), INPUT=dict(size_serial_chunk=str(size))))
    for s, kv in (over or {}).items():
        sc["config"].setdefault(s, {}).update(kv)
    r = pl.run(sc)
    got = {}
    if r.out is not None:
        for o, f, d, m in zip(r.out["ObjID"], r.out["FieldID"], r.out["detectorID"], r.out["limMag_perChip"]):
            got.setdefault((o, int(f)), []).append(f"{label(d)}|{float(m):.6f}")
    return got, "" if r.error is None else f"{r.error[0]}: {r.error[1][:200]}"


def cover(ck, rep):
    rng = np.random.default_rng([env.SEED, 23, rep])
    for j in range(5):
        vis, chips, rows = world(rng)
        db = database(os.path.join(env.scratch("vis"), "v.db"), rows)
        off = [.15, .15, .15, .95, .99][j]  # few or many of a chunk are kept
        objs = [f"n{k}" for k in range(20 if off < .5 else 60)]
        pts = {v["id"]: spots(rng, chips[v["id"]], len(objs), off) for v in vis}
        size = [1000, 7, 1, 1000, 1000][j]
        got, err = shoot(vis, pts, objs, db, size)
        for v in vis:
            wanted = v["filter"] in "rg"  # visits in other filters give no detections
            dets = [dict(id=f"{i}|{m}", corners=[list(c) for c in cs], box=[min(c[0] for c in cs) - 9, max(c[0] for c in cs) + 9, min(c[1] for c in cs) - 9, max(c[1] for c in cs) + 9]) for i, m, cs in (chips[v["id"]] if wanted else [])]
            where = "zero" if min(v["ra"], 360 - v["ra"]) < 1.5 else "sky"
            ck.event("TraceFoot", dict(ev="chunk", dets=dets, thresh=0, margin=2, error=err, src=[dict(p=list(p), rows=len(got.get((o, v["id"]), [])), labels=got.get((o, v["id"]), [])) for o, p in zip(objs, pts[v["id"]])]),
                     f"{where}/{'no-outlines' if not dets else len(dets)}")
            ck.notes["sources"] = ck.notes.get("sources", 0) + len(objs)
        # other objects, other order, other filters after it
        sub = [objs[i] for i in rng.permutation(len(objs))[:9]]
        g2, err = shoot(vis, {v["id"]: [pts[v["id"]][objs.index(o)] for o in sub] for v in vis}, sub, db, 1000, dict(EXPERT=dict(mag_limit="40")))
        flat = lambda g: sorted(f"{k[0]}|{k[1]}|{x}" for k, xs in g.items() if k[0] in sub for x in xs)  # noqa
        ck.event("TraceFoot", dict(ev="same", a=flat(got), b=flat(g2) if not err else [err]), "others-and-order")


def collect(ck):
    import sorcha.sorcha, sorcha.des  # noqa
    n = 8 if env.THOROUGH else 1
    ck.fan([(cover, rep) for rep in range(8 * n)])
    ck.mc("Chips")
    for v in ("firstcentre", "nowrap", "pooled"):
        ck.mc("Chips", f"ChipsX_{v}.cfg", contrast=True)


if __name__ == "__main__":
    check.main("C23", collect, ["outlines are quadrilaterals in right ascension and declination, narrower than 180 degrees; positions within 2 arcsec of a border are left open"])
