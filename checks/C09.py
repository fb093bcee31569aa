"""C09: the linking verdict.  TLC enumerates detection histories from LinkScan (whose incremental computation is
proved equal to the definition for all of them); each history is an object given to the real filter, and TraceLink judges the
answers.  Random longer histories on the sphere and boundary cases are added, and whole-pipeline runs."""
from harness import env, check, tlc, linkio as L
import json
import numpy as np
import pandas as pd

REF = dict(nobs=2, minsep=500, maxdt=64, window=15, nlink=3, start=512)


def generated(ck, rng, cfg, quick):
    scn, r = tlc.scenarios("LinkScan", cfg)
    ck.states += r["states"]
    ck.transitions += r["transitions"]
    ck.notes["scenarios_enumerated_by_TLC_" + cfg] = len(scn)
    if not env.THOROUGH:
        scn = [scn[i] for i in rng.permutation(len(scn))[:quick]]
    groups = {}
    for s in scn:
        groups.setdefault(json.dumps(s["p"], sort_keys=True), []).append(s["o"])
    for pk, hs in groups.items():
        p = json.loads(pk)
        # slot k of a night -> phase 1/4 + k/8 d; model distance 1 -> 0.75 arcsec, threshold 0.5 arcsec
        P = dict(nobs=p["nobs"], minsep=500 + 500 * p["minsep"], maxdt=p["maxdt"] * 128, window=p["window"], nlink=p["nlink"], start=768)
        objs = []
        for k, h in enumerate(hs):
            mjd = [L.BASE + 10 + 0.75 + o["t"] // p["day"] + 0.25 + 0.125 * (o["t"] % p["day"]) for o in h]
            perm = rng.permutation(len(h))
            objs.append(dict(id=f"o{k}", mjd=[mjd[i] for i in perm], ra=[150.0] * len(h),
                             dec=[-10.0 + h[i]["x"] * 0.75 / 3600 for i in perm]))
        judge(ck, f"generated/{p['nobs']}-{p['maxdt']}-{p['window']}-{p['nlink']}", objs, P, rng)


def judge(ck, case, objs, P, rng, shuffle=True):
    df = L.frame(objs)
    if shuffle:
        df = df.iloc[rng.permutation(len(df))].reset_index(drop=True)
    out = ck.observe(case, L.call, df, P)
    if out is None:
        return
    v = L.verdicts(out)
    for o in objs:
        ck.event("TraceLink", L.event(o, P, v.get(o["id"])), case, replay=dict(P=P, obj={k: list(map(float, o[k])) for k in ("mjd", "ra", "dec")}))


def random_history(rng, P, style):
    """A history near the decision boundary, times multiples of 1/1024 day."""
    nn = int(rng.integers(1, 9))
    span = P["window"] + int(rng.integers(-2, 4))
    nights = sorted(set(int(x) for x in rng.integers(0, max(2, span + 1), nn)) | ({0, P["window"] - 1} if rng.random() < .3 else set()) |
                    ({0, P["window"]} if rng.random() < .3 else set()))
    if rng.random() < 0.2:
        nights += [n + 400 for n in nights[:3]]
    ra0 = {"plain": 120.0, "wrap": 359.9999, "pole": 40.0, "south": 300.0}[style]
    dec0 = {"plain": -12.0, "wrap": 3.0, "pole": 89.99, "south": -89.9}[style]
    step = P["minsep"] / 1000.0 / 3600
    mjd, ra, dec = [], [], []
    for n in nights:
        k = int(rng.integers(1, P["nobs"] + 3))
        slots = np.sort(rng.choice(np.arange(0, 700), size=k, replace=False))
        if rng.random() < 0.5:  # tight group: differences around the maximum time
            s0 = int(rng.integers(0, 300))
            d = [0, 1, P["maxdt"] // 2, P["maxdt"] - 1, P["maxdt"], P["maxdt"] + 1]
            slots = np.array(sorted(set(s0 + int(x) for x in rng.choice(d, size=k))))
        ang = rng.uniform(0, 2 * np.pi)
        for j, s in enumerate(slots):
            f = float(rng.choice([0, 0.3, 0.6, 0.95, 1.05, 1.6, 5.0])) * step
            mjd.append(L.BASE + P["start"] / 1024 + 20 + n + (110 + int(s)) / 1024)
            dec.append(dec0 + f * np.sin(ang) * 1.0)
            ra.append((ra0 + f * np.cos(ang) / np.cos(np.radians(dec0))) % 360.0)
    return dict(mjd=mjd, ra=ra, dec=dec)


def margin_ok(o, P):
    s = L.sep_mas(o["ra"], o["dec"])
    iu = np.triu_indices(len(o["mjd"]), 1)
    return len(set(o["mjd"])) == len(o["mjd"]) and bool(np.all(np.abs(s[iu] - P["minsep"]) > 3) if P["minsep"] else True)


def randoms(ck, rng):
    sets = [REF, dict(REF, nlink=1), dict(REF, nlink=2, window=1), dict(REF, nobs=3), dict(REF, nobs=1), dict(REF, nobs=4, maxdt=128),
            dict(REF, window=30, nlink=5), dict(REF, start=640), dict(REF, start=0), dict(REF, start=900), dict(REF, nlink=4, window=4),
            dict(REF, minsep=20000, nobs=2), dict(REF, window=7, nlink=2, maxdt=16)]
    for k, P in enumerate(sets):
        for style in ("plain", "wrap", "pole", "south"):
            objs = []
            n = 150 if env.THOROUGH else 12
            while len(objs) < n:
                o = random_history(rng, P, style)
                if margin_ok(o, P):
                    objs.append(dict(o, id=f"obj{len(objs):0{1 + len(objs) % 9}d}x{style}"))
            judge(ck, f"random/{k}-{style}", objs, P, rng)


def directed(ck, rng):
    """Every off-by-one the definition has, one object each."""
    def obj(spec, far=2.0):
        # spec: list of (night, [ (slot, x) ])
        mjd, ra, dec = [], [], []
        for n, ds in spec:
            for s, x in ds:
                mjd.append(L.BASE + 0.5 + 5 + n + s / 1024)
                ra.append(10.0)
                dec.append(x * far / 3600)
        return dict(mjd=mjd, ra=ra, dec=dec)
    pair = [(300, 0), (330, 1)]
    for w in (1, 2, 3, 10, 15, 20):
        for nl in (1, 2, 3):
            P = dict(REF, window=w, nlink=nl)
            objs = []
            for gap in range(0, w + 3):
                ns = sorted({0, gap} | set(range(0, max(0, nl - 2) + 1)))
                objs.append(obj([(n, pair) for n in ns]))
                # a tracklet-less night in between must not count
                objs.append(obj([(n, pair if n != (gap + 1) // 2 else [(300, 0)]) for n in sorted(set(ns) | {(gap + 1) // 2})]))
                # early isolated tracklet, then a later complete window: the date is the later one
                objs.append(obj([(0, pair)] + [(w + 5 + n, pair) for n in ns]))
                # two complete windows: the date is the earlier
                objs.append(obj([(n, pair) for n in ns] + [(3 * w + 9 + n, pair) for n in ns]))
            for i, o in enumerate(objs):
                o["id"] = f"d{i}"
            judge(ck, f"directed/window-{w}-{nl}", objs, P, rng)
    for md in (16, 64, 96):
        P = dict(REF, maxdt=md, nlink=1)
        objs = [obj([(0, [(300, 0), (300 + d, 1)])]) for d in (1, md - 1, md, md + 1)]
        objs += [obj([(0, [(300, 0), (300 + md - 1, x)])]) for x in (0, 0.2, 0.245, 0.255, 0.3)]
        objs += [obj([(0, [(300, 0), (310, 0), (300 + md - 1, 1)])]), obj([(0, [(300, 1), (300 + md, 0), (320 + md, 0)])])]
        for nob in (1, 2, 3, 4):
            for i, o in enumerate(objs):
                o["id"] = f"d{i}"
            judge(ck, f"directed/maxdt-{md}-{nob}", objs, dict(P, nobs=nob), rng)
    # a pair whose span holds fewer detections than required, although the night holds enough
    for nob in (2, 3, 4):
        objs = [obj([(0, [(300, 0), (310, 1), (500, 1), (900, 1)])]), obj([(0, [(300, 0), (310, 0), (320, 1), (500, 1)])]),
                obj([(0, [(300, 0), (310, 0), (320, 0), (330, 1)])]), obj([(0, [(300, 1), (310, 0), (320, 0), (330, 1)])]),
                obj([(0, [(300, 0), (310, 1)])]), obj([(0, [(300, 0)])]), obj([(0, [(300, 0), (310, 1), (320, 0)])])]
        for i, o in enumerate(objs):
            o["id"] = f"d{i}"
        judge(ck, f"directed/span-{nob}", objs, dict(REF, nobs=nob, nlink=1), rng)
    # the pair straddles midnight UTC but not local noon; and the reverse
    for start in (0, 512, 640, 768, 1000):
        P = dict(REF, start=start, nlink=1, maxdt=200)
        o1 = dict(mjd=[L.BASE + 7 + start / 1024 + 0.5 - 30 / 1024, L.BASE + 7 + start / 1024 + 0.5 + 40 / 1024], ra=[5, 5.0], dec=[0, 0.001])
        o2 = dict(mjd=[L.BASE + 7 - 20 / 1024, L.BASE + 7 + 20 / 1024], ra=[5, 5.0], dec=[0, 0.001])
        o3 = dict(mjd=[L.BASE + 7 + start / 1024 + 0.88, L.BASE + 8 + start / 1024 + 0.12], ra=[5, 5.0], dec=[0, 0.001])
        objs = []
        for i, o in enumerate((o1, o2, o3)):
            ph = [(m - start / 1024) % 1 for m in o["mjd"]]
            o["mjd"] = [round(m * 1024) / 1024 for m in o["mjd"]]
            if all(0.11 < x < 0.89 for x in ph):
                objs.append(dict(o, id=f"m{i}"))
        judge(ck, f"directed/midnight-{start}", objs, dict(P, maxdt=300), rng)
    # separation exactly zero with a zero threshold
    judge(ck, "directed/zero-separation", [dict(id="z", mjd=[L.BASE + 5.875, L.BASE + 5.90625], ra=[5, 5.0], dec=[1, 1.0]),
                                           dict(id="y", mjd=[L.BASE + 5.875, L.BASE + 5.90625], ra=[5, 5.0], dec=[1, 1.0001])],
          dict(REF, minsep=0, nlink=1), rng)


def pipeline_runs(ck, rng):
    """The same question asked of whole runs, in several chunks, from a configuration file."""
    from harness import pipeline as pl
    for k, P in enumerate([REF, dict(REF, nobs=3, nlink=2, window=5), dict(REF, nobs=2, nlink=1), dict(REF, start=768, minsep=1000, maxdt=32, nlink=2)]):
        objs = []
        while len(objs) < 8:
            o = random_history(rng, P, "plain")
            if margin_ok(o, P):
                objs.append(dict(o, id=f"p{len(objs)}"))
        sc = scenario(objs, P, chunk=[1, 3, 8, 50][k])
        case = f"pipeline/{k}"
        res = pl.run(sc)
        if res.error:
            ck.fail(case, "no-error", res.error)
            continue
        v = L.verdicts(res.out) if res.out is not None else {}
        for o in objs:
            ck.event("TraceLink", L.event(o, P, v.get(o["id"])), case, replay=dict(P=P, obj=o))


def scenario(objs, P, chunk=100, drop=False, eff=1.0, extra=None):
    visits, eph, vid = {}, [], 0
    for o in objs:
        for m, ra, dec in zip(o["mjd"], o["ra"], o["dec"]):
            key = (m, o["id"]) if True else m
            if key not in visits:
                visits[key] = dict(id=vid, mjd=m, filter="r", depth=24.5, ra=120.0, dec=-12.0)
                vid += 1
            eph.append(dict(obj=o["id"], field=visits[key]["id"], mjd=m, ra=ra, dec=dec))
    conf = {"INPUT": dict(size_serial_chunk=chunk),
            "LINKINGFILTER": dict(ssp_detection_efficiency=eff, ssp_number_observations=P["nobs"], ssp_separation_threshold=P["minsep"] / 1000.0,
                                  ssp_maximum_time=P["maxdt"] / 1024.0, ssp_number_tracklets=P["nlink"], ssp_track_window=P["window"],
                                  ssp_night_start_utc=P["start"] / 1024.0 * 24.0, drop_unlinked=drop)}
    conf.update(extra or {})
    return dict(objects=[dict(id=o["id"]) for o in objs], visits=list(visits.values()), eph=eph, config=conf)


def collect(ck):
    rng = np.random.default_rng(env.SEED)
    ck.mc("LinkScan", "LinkScanBig.cfg" if env.THOROUGH else "LinkScan.cfg", workers=4)
    generated(ck, rng, "LinkGen.cfg", 6000)
    generated(ck, rng, "LinkGenNight.cfg", 6000)
    directed(ck, rng)
    randoms(ck, rng)
    pipeline_runs(ck, rng)


if __name__ == "__main__":
    check.main("C09", collect, ["detections are made at night: phase of the day between 0.1 and 0.9 after local noon (the code asserts it)",
                                "an object has no two detections at the same instant",
                                "separations within 3 mas of the threshold are not generated"])
