"""C25: auxiliary data files: histories of runs, bootstraps, failing downloads and removed files on one directory; a recorder in place of the network."""
from harness import env, check, pipeline as pl, tlc, world, fakesky as F
import argparse
import contextlib
import gzip
import io
import json
import os
import threading
import numpy as np

KERNELS = ["leap_seconds", "earth_historical", "earth_predict", "orientation_constants", "planet_ephemeris", "earth_high_precision"]
FETCH = KERNELS + ["jpl_planets", "jpl_small_bodies", "observatory_codes_compressed"]
ROLES = FETCH + ["observatory_codes", "meta_kernel"]
net = dict(log=[], tries=0, fail=0, faulted=False, lock=threading.Lock())
real = {}


def content(name, src):
    if ".json" in name:
        s = json.dumps(dict(F.OBS, src={"from": src})).encode()
        return gzip.compress(s) if name.endswith(".gz") else s
    if name.endswith((".tls", ".bpc", ".pck", ".bsp")):
        return f"KPL/PCK\nfrom: {src}\n\\begindata\nVERIF_X = ( 1 )\n\\begintext\n".encode()
    return f"from: {src}\n".encode()


def source(path):
    with open(path, "rb") as f:
        b = f.read()
    try:
        if path.endswith(".gz"):
            b = gzip.decompress(b)
        if ".json" in path:
            return json.loads(b)["src"]["from"]
    except Exception:
        return "damaged"
    for line in b.decode().splitlines():
        if line.startswith("from: "):
            return line[6:]
    return "built"


def connect():
    """The recorder in place of pooch's downloaders."""
    import pooch.core

    def choose(url, progressbar=False):
        if not str(url).startswith("https://"):
            raise ValueError(f"unrecognised address {url!r}")

        def get(url, out, pup):
            with net["lock"]:
                net["tries"] += 1
                if net["tries"] == net["fail"]:
                    net["down"] = url if net["lasting"] else ""
                if net["tries"] == net["fail"] or url == net["down"]:
                    net["faulted"] = True
                    raise OSError("connection lost")
                names = [n for n, u in pup.urls.items() if u == url]
                with open(out, "wb") as f:
                    f.write(content(names[0] if names else "?", url))
        return get
    pooch.core.choose_downloader = choose
    move = pooch.core.shutil.move

    class Shutil:  # what arrives, and under which name
        def __getattr__(self, k):
            return getattr(real["shutil"], k)

        def move(self, a, b):
            r = move(a, b)
            with net["lock"]:
                net["log"].append((b, source(b)))
            return r
    real["shutil"] = pooch.core.shutil
    pooch.core.shutil = Shutil()


def cache_dir(rng, n):
    """A directory whose path has about the given length, with characters that need care."""
    base = os.path.join(env.scratch("c"), "")
    odd = ["", "o'neil", "a b", "c+d", "''"][int(rng.integers(5))]
    s = base + odd
    while len(s) < n:
        s += "/" * (len(s) % 37 == 0) + "abcdefgh"[len(s) % 8]
    s = s.rstrip("/+ ")
    while len(s) < n:
        s += "z"
    os.makedirs(s, exist_ok=True)
    return s


def files(d):
    out = []
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out.append([os.path.relpath(p, d), source(p)])
    return sorted(out)


def spice_reads(d, name):
    """The kernels SPICE itself loads from the list, in order."""
    import spiceypy as s
    real["kclear"]()
    try:
        real["furnsh"](os.path.join(d, name))
        n = s.ktotal("ALL")
        return [os.path.relpath(s.kdata(i, "ALL")[0], d) for i in range(1, n)]
    except Exception as e:
        return ["ERROR " + str(e).strip().split("\n")[-1][:120]]
    finally:
        real["kclear"]()


def defaults():
    from sorcha.utilities.sorchaConfigs import auxiliaryConfigs
    a = auxiliaryConfigs
    return {r: getattr(a, r) for r in ROLES}, {r: getattr(a, r + "_url") for r in FETCH}


def new_name(rng, role, d):
    end = {"observatory_codes": ".json", "observatory_codes_compressed": ".json.gz", "meta_kernel": ".txt"}.get(role, ".bsp")
    x = rng.random()
    if x < .12 and len(d) < 90 and role in FETCH:
        return "rep" + d + role[:4] + end  # the directory's path once more
    if x < .3 and len(d) < 140:
        return role + "L" * int(rng.integers(50, 90 - len(end) - len(role) if len(role) < 20 else 51)) + end
    if x < .4 and role in KERNELS:
        return f"it's {role}{end}"
    return f"my_{role}{end}"


def tiny(rng, d):
    w = world.World("DES" if rng.random() < .2 else "rubin_sim")
    w.fmt = "BCART"
    w.args = dict(ar_data_path=d)
    t = 60100.2
    w.visits = [dict(id=1, mjd=t, filter="r", depth=24.0, ra=40.0, dec=-10.0, c=.9, k=5.0)]
    st = F.object_toward(40.1, -10.1, 2.0, F.jd_of(t), np.array([0, .004, .002]), 60000.0 + 2400000.5)
    w.objs["a"] = dict(orbit=F.bcart_row("a", st, 60000.0), phys={"ObjID": "a", "H_r": 14.0}, eph=[], cpx=None)
    w.config = {"INPUT": dict(ephemerides_type="ar"), "FILTERS": dict(observing_filters="r"), "PHASECURVES": dict(phase_function="none"),
                "SIMULATION": dict(ar_ang_fov="2.06", ar_fov_buffer="0.2", ar_picket="1", ar_obs_code="X05", ar_healpix_order="6"), "EXPERT": dict(brute_force="True")}
    return w


def history(ck, case, rng, ops):
    dname, durl = defaults()
    d = cache_dir(rng, int(rng.choice([30, 60, 77, 78, 79, 80, 81, 100, 109, 110, 111, 112, 113, 120, 131, 132, 133, 157, 158, 159, 160, 180, 200, 210])))
    k1, k2 = sorted(rng.permutation(6)[:2])
    role = dict(k1=KERNELS[k1], k2=KERNELS[k2], eph=["jpl_planets", "jpl_small_bodies"][int(rng.integers(2))], gz="observatory_codes_compressed", json="observatory_codes", meta="meta_kernel")
    nname = {r: new_name(rng, r, d) for r in ROLES}
    for r in ROLES:
        if len(d) + len(nname[r]) > 250:
            nname[r] = ("m" + nname[r][-12:]) if len(d) < 230 else dname[r]
    nurl = {r: f"https://elsewhere.example/{r}/{k}" for k, r in enumerate(FETCH)}
    # what is there at first
    keep = float(rng.choice([0, .5, .85, 1]))
    for r in ROLES:
        for n in [dname[r]] + ([nname[r]] if rng.random() < .3 else []):
            if rng.random() < keep:
                p = os.path.join(d, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(content(n, "user"))
    extra = {r: str(rng.choice(["name", "both"])) for r in FETCH + ["observatory_codes"] if rng.random() < .12} if rng.random() < .5 else {}
    extra.pop("observatory_codes", None)
    for step, op in enumerate(ops):
        kind = {r: "default" for r in ROLES}
        if op["op"] == "run":
            kind.update(extra)
        for a, k in op["kind"].items():
            if k != "default":
                kind[role[a]] = k
        if op["op"] == "remove":
            fs = [f for f, _ in files(d)]
            if fs:
                os.remove(os.path.join(d, fs[int(rng.integers(len(fs)))]))
            continue
        before = files(d)
        net.update(log=[], tries=0, fail=int(rng.integers(1, 10)) if op["fault"] else 0, faulted=False, down="", lasting=rng.random() < .5)
        F.calls.clear()
        ev = dict(before=before)
        if op["op"] == "run":
            aux = {}
            for r in ROLES:
                if kind[r] in ("name", "both"):
                    aux[r] = nname[r]
                if kind[r] in ("url", "both"):
                    aux[r + "_url"] = nurl[r]
            w = tiny(rng, d + "/" * (step % 2))  # (written with a slash or without)
            w.config["AUXILIARY"] = aux
            sc, _ = w.scenario(stats=None)
            r = pl.run(sc)
            error = "" if r.error is None else ": ".join(map(str, r.error))[:200]
            if not error and (r.out is None or len(r.out) != 1):
                error = "no detection"
            eph = [c for c in F.calls if c[0] == "Ephem"]
            rel = lambda p: os.path.relpath(str(p), d)
            used = [sorted({rel(c[2]["planets_path"]) for c in eph}), sorted({rel(c[2]["asteroids_path"]) for c in eph})]
            used = [u[0] if len(u) == 1 else "|".join(u) for u in used]
            furn = sorted({rel(c[1]) for c in F.calls if c[0] == "furnsh"})
            meta = nname["meta_kernel"] if kind["meta_kernel"] == "name" else dname["meta_kernel"]
            fresh = meta not in [f for f, _ in before]
            ev.update(ev="run", kind=kind, dname=dname, nname=nname, durl=durl, nurl=nurl, used=used, furnished="|".join(furn))
        else:
            from sorcha_cmdline.bootstrap import execute
            with pl.quiet():
                _, e = pl.guarded(execute, argparse.Namespace(cache=d + "/" * (step % 2), force=op["op"] == "force"))
            error = "" if e is None else ": ".join(map(str, e))[:200]
            meta = dname["meta_kernel"]
            fresh = (op["op"] == "force" or not set(dname.values()) <= {f for f, _ in before}) and os.path.exists(os.path.join(d, meta))
            ev.update(ev="boot", force=op["op"] == "force", dname=dname, durl=durl)
        after = files(d)
        fresh = fresh and [meta, "built"] in after
        ev.update(after=after, fetched=[[os.path.relpath(p, d), s] for p, s in net["log"]], faulted=net["faulted"], error=error, fresh=fresh, loaded=spice_reads(d, meta) if fresh else [])
        ck.notes["downloads"] = ck.notes.get("downloads", 0) + len(net["log"])
        ck.notes["operations"] = ck.notes.get("operations", 0) + 1
        ck.event("TraceAux", ev, f"{case}/{step}-{op['op']}", dict(length=len(d), directory=d))


def part(ck, k, scn):
    connect()
    import pooch
    pooch.get_logger().setLevel("CRITICAL")
    rng = np.random.default_rng([env.SEED, 25, k])
    for n, s in enumerate(scn):
        ops = []
        for o in s["ops"]:
            ops.append(o)
            if rng.random() < .35:
                ops.append(dict(op="remove", kind={}, fault=False))
        last = [o for o in s["ops"] if o["op"] == "run"]
        if last and rng.random() < .7:
            ops.append(dict(last[-1], fault=False))
        history(ck, f"{k}-{n}", rng, ops)


def collect(ck):
    import spiceypy as s
    real.update(furnsh=s.furnsh, kclear=s.kclear)
    F.install()
    import sorcha.sorcha, sorcha.des, sorcha_cmdline.bootstrap  # noqa
    scn, _ = tlc.scenarios("Aux", "AuxGen.cfg")
    scn = sorted((x for x in scn if x["ops"][-1]["op"] != "remove"), key=str)
    ck.notes["histories_enumerated"] = len(scn)
    rng = np.random.default_rng([env.SEED, 25])
    scn = [scn[i] for i in rng.permutation(len(scn))]
    if not env.THOROUGH:
        scn = scn[:360]
    ck.fan([(part, k, scn[k::16]) for k in range(16)])
    ck.mc("Aux")
    for v in ("refetch", "defaulturl", "fetchtodelete", "halflist", "order", "oldnames"):
        ck.mc("Aux", f"AuxX_{v}.cfg", contrast=True)
    if env.THOROUGH:
        ck.mc("Aux", "AuxBig.cfg")


if __name__ == "__main__":
    check.main("C25", collect, ["a recorder stands in for the network", "paths that SPICE can take: 255 characters, ASCII, no $, not ending in a plus sign or a blank", "a kernel list that is already there is used as it is (documented)"])
