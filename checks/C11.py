"""C11: the DES discovery criterion. TLC enumerates night patterns with gaps around the thresholds (DESScan, whose single pass is
checked equal to the definition); the real filter answers each; TraceDES judges."""
from harness import env, check, tlc, desio as D, pipeline as pl
import json
import re
import numpy as np

PH = 0.125


def call(df):
    from sorcha.modules.DESDiscoveryFilter import DESDiscoveryFilter
    return DESDiscoveryFilter(df)


def judge(ck, case, objs, rng, order="shuffle"):
    df = D.table(objs, rng, order)
    with pl.quiet():
        out, err = pl.guarded(call, df.copy())
    ck.event("TraceDES", D.rows_event(df, out, err), case)


def spread(nights, rng, extra=0.3):
    """Detections of the nights: the first at a fixed phase, others within 0.25 day after it."""
    t = []
    for n in nights:
        t.append(n + PH)
        while rng.random() < extra:
            t.append(n + PH + int(rng.integers(1, 256)) / 1024)
    return t


def generated(ck, rng):
    r = tlc.model_check("DESScan", "DESGen.cfg", workers=1, coverage=False)
    if not r["ok"]:
        raise tlc.TLCError(r["out"][-3000:])
    ck.states += r["states"]
    ck.transitions += r["transitions"]
    scn = [json.loads(x.replace('\\"', '"')) for x in re.findall(r'"SCN (\{.*\})"', r["out"])]
    ck.notes["scenarios_enumerated_by_TLC"] = len(scn)
    if not env.THOROUGH:
        scn = [scn[i] for i in rng.permutation(len(scn))[:3000]]
    for b in range(0, len(scn), 25):
        objs = [dict(id=f"s{k}", t=spread(s["T"], rng, 0.15), r=49.0 if s["near50"] else 51.0) for k, s in enumerate(scn[b:b + 25])]
        judge(ck, f"generated/{b}", objs, rng)


def directed(ck, rng):
    objs = []
    # counts around 7 and 9, consecutive or not, with many detections a night
    for n in range(1, 12):
        objs.append(dict(t=spread(range(n), rng, 0.6)))
        objs.append(dict(t=spread([40 * k for k in range(n)], rng, 0.6)))
        objs.append(dict(t=[PH + k / 64 for k in range(n)]))
        objs.append(dict(t=spread([100 * k for k in range(n)], rng, 0.4)))
        objs.append(dict(t=spread([2 * k for k in range(n - 1)] + [300], rng, 0.4)))
    # arc boundary, first night dropped / last night dropped
    for arc in (181, 182, 183, 184, 200):
        objs.append(dict(t=[PH, 20 + PH, 30 + PH, 40 + PH, 50 + PH, 60 + PH, 20 + arc + PH, 21 + arc + PH]))
        objs.append(dict(t=[PH, 1 + PH, 30 + PH, 40 + PH, 50 + PH, arc + PH, arc + 100 + PH]))
        objs.append(dict(t=[PH, 100 + PH, 130 + PH, 140 + PH, 150 + PH, 160 + PH, 100 + arc + PH]))
        objs.append(dict(t=[PH, 3 / 8, 20 + PH, 30 + PH, 40 + PH, 50 + PH, 60 + PH, 20 + arc + PH, 20 + arc + 3 / 8]))
    # arc just at half a year to the 1/1024 day
    for d in (-1, 0, 1):
        e = 182.625 + d / 1024
        objs.append(dict(t=[PH - 20, PH, 10 + PH, 20 + PH, 30 + PH, 40 + PH, PH + e - 0.625, PH + e - 0.5, 320 + PH]))
        objs.append(dict(t=[PH, 10 + PH, 20 + PH, 30 + PH, 40 + PH, 50 + PH, 60 + PH, 10 + PH + 182, 10 + PH + 182 + 0.25]))
    # triplet gaps, anywhere in the sequence, decreasing or increasing
    import itertools
    for w, r in ((60, 45.0), (90, 55.0)):
        for gaps in itertools.permutations([w - 10, w - 5, w + 10, w + 40, w + 41, w + 42]):
            if rng.random() < (1.0 if env.THOROUGH else 0.25):
                objs.append(dict(t=spread(np.cumsum([0, *gaps]).tolist(), rng, 0.1), r=r))
        for g in (w - 1, w, w + 1):
            objs.append(dict(t=[PH + x for x in np.cumsum([0, 100, 100, g, g - 1 if g == w - 1 else 5, 100, 100])], r=r))
            objs.append(dict(t=[PH + x for x in np.cumsum([0, 1, g, 1, g, 1, g, 150])], r=r))
    # nearest approach decides the window: one near detection among far ones, in any order
    base = [0, 80, 160, 240, 320, 400, 480]
    for k in range(7):
        objs.append(dict(t=[PH + x for x in base], r=[49.0 if j == k else 60.0 for j in range(7)]))
        objs.append(dict(t=[PH + x for x in base], r=[50.5] * 7))
    d = 49.9 * D.AU
    objs.append(dict(t=[PH + x for x in base], xyz=[(d / 3 ** .5,) * 3] * 7))
    objs.append(dict(t=[PH + x for x in base], xyz=[(0, 50.1 * D.AU, 0)] * 7))
    objs.append(dict(t=[PH + x for x in base], xyz=[(0, 0, -50.1 * D.AU)] * 7))
    objs.append(dict(t=[PH + x for x in base], xyz=[(30 * D.AU, 30 * D.AU, 30 * D.AU)] * 7))
    for k, o in enumerate(objs):
        o["id"] = ("q" * (k % 5)) + f"{k}"
    for k, o in enumerate(objs):  # each alone as well
        judge(ck, f"directed/alone-{k}", [o], rng)
    for order in ("time", "shuffle", "index", "group"):
        p = rng.permutation(len(objs))
        for b in range(0, len(p), 30):
            judge(ck, f"directed/{order}", [objs[i] for i in p[b:b + 30]], rng, order)


def randoms(ck, rng):
    for k in range(400 if env.THOROUGH else 60):
        objs = []
        for j in range(int(rng.integers(1, 12))):
            n = int(rng.integers(1, 12))
            t = np.cumsum([0] + [int(rng.choice([1, 2, 20, 59, 60, 61, 89, 90, 91, 130])) for _ in range(n - 1)])
            objs.append(dict(id=f"Obj{'é' if k % 7 == 0 else ''}{10 ** (j % 5)}{j}", t=spread(t.tolist(), rng, 0.3), r=float(rng.choice([30, 49, 51, 80]))))
        judge(ck, "random", objs, rng, str(rng.choice(["time", "shuffle", "index", "group"])))


def pipelines(ck, rng):
    for k, chunk in enumerate([1, 2, 3, 1000]):
        objs = []
        for j in range(5):
            n = int(rng.integers(6, 11))
            t = np.cumsum([0] + [int(rng.choice([1, 59, 60, 40, 91])) for _ in range(n - 1)])
            objs.append(dict(id=f"p{j}", t=spread(t.tolist(), rng, 0.1), r=float(rng.choice([45, 55]))))
        df = D.table(objs, rng)
        off, on = D.run_pipeline(df, chunk=chunk)
        if off.error or off.out is None:
            ck.fail(f"pipeline/{k}", "no-error", off.error)
            continue
        ck.event("TraceDES", D.rows_event(off.out, on.out, on.error, ordered=chunk >= 5), f"pipeline/{k}")


def collect(ck):
    rng = np.random.default_rng(env.SEED + 11)
    ck.mc("DESScan", "DESScanBig.cfg" if env.THOROUGH else "DESScan.cfg")
    generated(ck, rng)
    directed(ck, rng)
    randoms(ck, rng)
    pipelines(ck, rng)


if __name__ == "__main__":
    check.main("C11", collect, ["detections of one night lie within 0.3 d and nights are a day or more apart",
                                "spacing of nights is taken between their first detections"])
