"""C02: an object's detections do not depend on the rest of the population, nor on the order of input rows, nor on how the population is split."""
from harness import env, fakesky
fakesky.install()
from harness import check, world as W, runs
from checks.C01 import LSST, DES, AR
import numpy as np


def world(ck, case, k, rep, aux):
    rng = np.random.default_rng([env.SEED, 2, k, rep])
    fl = case.split("-")[1]
    n = int(rng.integers(5, 8))
    w = W.lsst(rng, n, fl) if case.startswith("lsst") else W.des(rng, n, fl) if case.startswith("des") else W.generated(rng, n, fl, aux)
    W.register_lc()
    p = runs.Population(ck, case, w)
    ids = w.ids()
    ar = case.startswith("ar")
    names = ["orbits", "phys", "visits"] + ([] if ar else ["eph"]) + (["complex"] if "complex" in case else [])
    for o in names:
        p.run(f"shuffle-{o}", order={o}, rng=rng, chunk=[2, 3, 1000][int(rng.integers(3))])
    p.run("shuffle-all", order=set(names), rng=rng, chunk=1000)
    p.run("shuffle-all", order=set(names), rng=rng, chunk=2)
    mix = [ids[i] for i in rng.permutation(len(ids))]
    c = int(rng.integers(1, len(ids)))
    p.split("split-two", [mix[:c], mix[c:]])
    p.split("split-three", [mix[::3], mix[1::3], mix[2::3]], chunk=2)
    p.run("subset", ids=mix[:3], chunk=1000)
    # neighbours differing only in their identifiers: prefixes, case, numbers
    extra_ids(p, w, rng)


def collect(ck):
    aux = fakesky.data_dir(env.scratch("aux"))
    import sorcha.sorcha, sorcha.des  # noqa
    cases = [f"lsst-{f}" for f in LSST] + [f"des-{f}" for f in DES] + [f"ar-{f}" for f in AR]
    ck.fan([(world, c, k, rep, aux) for rep in range(6 if env.THOROUGH else 1) for k, c in enumerate(cases)])
    ck.mc("RunSplit")
    ck.mc("RunSplit", "RunSplitX.cfg", contrast=True)


def extra_ids(p, w, rng):
    """The same object again under other names: every copy reports the same."""
    import copy
    busy = [i for i in w.ids() if p.own[i]]
    if not busy:
        return
    src = busy[0]
    w2 = copy.deepcopy(w)
    w2.objs = {}
    for name in (src, src + "0", src[:-1] + "Z", src.swapcase(), "1e5", "007", "7", "a b" if "whitespace" not in w.config.get("INPUT", {}).values() else "ab"):
        o = copy.deepcopy(w.objs[src])
        o["orbit"][0] = o["phys"]["ObjID"] = name
        for r in o["eph"]:
            r["obj"] = name
        if o["cpx"]:
            o["cpx"]["ObjID"] = name
        w2.objs[name] = o
    q = runs.Population(p.ck, f"{p.case}/twins", w2)
    n = {len(v) for v in q.own.values()}
    p.ck.event("TraceRun", dict(ev="twins", sizes=sorted(n)), f"{p.case}/twins")
    q.run("all", chunk=1000)
    q.run("pairs", chunk=2)
    nameless(p, w2, rng)


def nameless(p, w, rng):
    """Names that a table reader takes for missing values: refused, or the objects are told apart."""
    import copy
    from harness import pipeline as pl
    a, b, c = w.ids()[:3]
    w3 = copy.deepcopy(w)
    w3.objs = {}
    first, second = [str(x) for x in rng.permutation(["NA", "nan", "NULL", "None", "N/A", "null"])[:2]]
    for old, name in ((a, first), (b, second), (c, c)):
        o = copy.deepcopy(w.objs[old])
        o["orbit"][0] = o["phys"]["ObjID"] = name
        for r in o["eph"]:
            r["obj"] = name
        if o["cpx"]:
            o["cpx"]["ObjID"] = name
        w3.objs[name] = o
    for ids in ([first, second, c], [first, c]):
        r = pl.run(w3.scenario(ids, 1000)[0])
        got = {} if r.out is None else r.out["ObjID"].astype(str).value_counts().to_dict()
        n = len(p.own[a])  # (all are copies of one object)
        p.ck.event("TraceRun", dict(ev="nameless", refused=r.error is not None and r.error[0] == "SystemExit", wrote=bool(got), own=r.error is None and got == {i: n for i in ids}), f"{p.case}/nameless-{'-'.join(ids)}")


if __name__ == "__main__":
    check.main("C02", collect, ["random effects off; distinct identifiers"])
