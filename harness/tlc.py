"""Runs TLC: exhaustive model checking and trace validation."""
import json
import os
import re
import subprocess
import time

from . import env

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(env.VERIF, "spec")
LIMIT = 2_000_000_000  # TLC's integers are 32 bit; larger values are saturated
BADNUM = -2_000_000_001  # not a finite number


class TLCError(Exception):
    pass


def _java(args, extra_env=None, heap="3g", timeout=800):
    e = dict(os.environ)
    e.update(extra_env or {})
    meta = env.scratch("tlc")
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", f"-Xmx{heap}", "-Djava.io.tmpdir=" + meta,
           "-cp", JAR, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", *args]
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout)
    return p.returncode, p.stdout


_STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def model_check(module, cfg=None, workers=4, extra_env=None, coverage=True, simulate=None, timeout=800, heap="4g"):
    """-> dict(ok, states, transitions, out, vacuous)"""
    t0 = time.time()
    args = ["-workers", str(workers), "-deadlock", "-config", cfg or module + ".cfg"]
    if coverage:
        args += ["-coverage", "1"]
    if simulate:
        args += ["-simulate", simulate]
    rc, out = _java([*args, module + ".tla"], extra_env, timeout=timeout, heap=heap)
    m = None
    for m in _STATES.finditer(out):
        pass
    ok = rc == 0 and ("No error has been found" in out or simulate)
    if not ok and rc not in (12, 13) and not re.search(r"is violated|Temporal properties were violated|Assumption .* is false|evaluated to FALSE", out):
        raise TLCError(f"TLC failed on {module} ({rc}):\n{out[-3000:]}")
    vac = re.findall(r"^<(\w+) line [^>]*>: 0:0\s*$", out, re.M)
    return dict(ok=ok, states=int(m.group(2)) if m else 0, transitions=int(m.group(1)) if m else 0, out=out,
                vacuous=vac, wall=time.time() - t0)


def clean(x):
    """What TLC can read: text, booleans, 32-bit integers, lists, records."""
    import numpy as np
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        x = int(x)
        return max(-LIMIT, min(LIMIT, x))
    if isinstance(x, (float, np.floating)):
        if not np.isfinite(x):
            return BADNUM
        if float(x).is_integer():
            return clean(int(x))
        raise TypeError(f"a real number cannot cross into TLA+: {x!r}")
    if isinstance(x, str):
        return x
    if isinstance(x, dict):
        return {str(k): clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset, np.ndarray)):
        return [clean(v) for v in (sorted(x) if isinstance(x, (set, frozenset)) else x)]
    raise TypeError(f"{type(x)} cannot cross into TLA+")


def validate(module, events, timeout=800, heap="4g"):
    """Validate events against spec/<module>.tla; -> (list of (index, clause), states, transitions)."""
    d = env.scratch("trace")
    tf, of = os.path.join(d, "trace.ndjson"), os.path.join(d, "verdict.json")
    with open(tf, "w") as f:
        for e in events:
            f.write(json.dumps(clean(e)) + "\n")
    rc, out = _java(["-workers", "1", "-deadlock", "-config", "Trace.cfg", module + ".tla"],
                    dict(TRACE=tf, VERDICT=of), timeout=timeout, heap=heap)
    if rc != 0 or not os.path.exists(of):
        raise TLCError(f"trace validation with {module} failed ({rc}):\n{out[-4000:]}")
    m = None
    for m in _STATES.finditer(out):
        pass
    with open(of) as f:
        bad = json.load(f)
    return [(b["i"] - 1, b["c"]) for b in bad], int(m.group(2)), int(m.group(1))


def scenarios(module, cfg=None, **kw):
    """Scenarios a model emits (PrintT("SCN " \\o ToJson(...))) while TLC checks it; -> (list, result)."""
    kw.setdefault("workers", 1)
    r = model_check(module, cfg, coverage=False, **kw)
    if not r["ok"]:
        raise TLCError(r["out"][-3000:])
    return [json.loads(x.replace('\\"', '"')) for x in re.findall(r'"SCN (\{.*\})"', r["out"])], r
