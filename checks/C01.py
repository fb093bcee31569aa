"""C01: every object is processed exactly once, whatever the chunk size."""
from harness import env, fakesky
fakesky.install()
from harness import check, world as W, runs
from itertools import zip_longest
import numpy as np

LSST = ("basic", "phase", "cuts", "snr", "footprint", "edge", "effects", "complex", "link", "linkkeep", "linkcuts")
DES = ("basic", "discovery", "cuts")
AR = ("basic", "cull")


def sizes(n, rng):
    s = {1, 2, n - 1, n, n + 1, 1000} | ({3, n // 2 + 1} if env.THOROUGH else set())
    return sorted(x for x in s if x > 0)


def world(ck, case, k, rep, aux):
    rng = np.random.default_rng([env.SEED, 1, k, rep])
    fl = case.split("-")[1]
    w = W.lsst(rng, int(rng.integers(4, 8)), fl) if case.startswith("lsst") else W.des(rng, int(rng.integers(4, 8)), fl) if case.startswith("des") \
        else W.generated(rng, int(rng.integers(4, 8)), fl, aux)
    W.register_lc()
    nruns = 0
    p = runs.Population(ck, case, w)
    n = len(w.ids())
    for s in sizes(n, rng):
        p.run(f"chunk-{'n' if s == n else 'n-1' if s == n - 1 else 'n+1' if s == n + 1 else s}", chunk=s)
        nruns += 1
    p.run("returned", chunk=2, return_only=True)
    # objects without candidates first, last and in between, one at a time
    idle = [i for i in w.ids() if not p.own[i]]
    busy = [i for i in w.ids() if p.own[i]]
    for tag, pop in (("idle-first", idle + busy), ("idle-last", busy + idle), ("idle-between", [x for pr in zip_longest(busy, idle) for x in pr if x is not None])):
        for s in (1, 2):
            p.run(f"{tag}-{s}", ids=pop, chunk=s)
            nruns += 1
    if idle:
        p.run("idle-only", ids=idle, chunk=1)
        p.run("idle-returned", ids=idle, chunk=1, return_only=True)
    ck.notes["runs"] = nruns


def collect(ck):
    aux = fakesky.data_dir(env.scratch("aux"))
    import sorcha.sorcha, sorcha.des  # noqa
    cases = [f"lsst-{f}" for f in LSST] + [f"des-{f}" for f in DES] + [f"ar-{f}" for f in AR]
    ck.fan([(world, c, k, rep, aux) for rep in range(6 if env.THOROUGH else 1) for k, c in enumerate(cases)])
    ck.mc("ChunkLoop", "ChunkLoopBig.cfg" if env.THOROUGH else "ChunkLoop.cfg")
    ck.notes["values"] = "each run's detections and statistics are compared with those of one run per object"


if __name__ == "__main__":
    check.main("C01", collect, ["random effects off; distinct identifiers"])
