"""C21: the combined results database holds every row of every run once."""
from harness import env, check, pipeline as pl, world as W, cli, tlc
import os
import shutil
import sqlite3

import numpy as np
import pandas as pd

COLS = ["ObjID", "fieldMJD_TAI", "RA_deg", "optFilter", "mag (V)", "n", "linked"]


def same(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    return a == b and type(a) is type(b)


class Book:
    """Rows by their values, column by column."""

    def __init__(self):
        self.rows = []

    def id(self, row, new=False):
        for i, r in enumerate(self.rows):
            if set(r) == set(row) and all(same(r[k], row[k]) for k in r):
                return i + 1
        if not new:
            return 0
        self.rows.append(row)
        return len(self.rows)


def table(db, name):
    con = sqlite3.connect(db)
    try:
        cur = con.execute(f"select * from {name}")
        cols = [c[0] for c in cur.description]
        return [dict(zip(cols, r)) for r in cur.fetchall()]
    except sqlite3.Error:
        return []
    finally:
        con.close()


def names(rng, k):
    return [f"00{k}", f"obj {k}", f"K{k}", f"1e{k}", f"{k}_x", "Ω%d" % k, f"{k}.0", f"o'{k}"][int(rng.integers(8))]


def result_db(path, rng, n, k, book, order):
    rows = []
    for i in range(n):
        rows.append(dict(zip(COLS, [names(rng, k + i), 60000 + float(rng.uniform()), float(rng.uniform(0, 360)), "r", None if i % 3 == 2 else float(rng.uniform(15, 25)), k + i, bool(i % 2)])))
    df = pd.DataFrame(rows, columns=COLS)
    if order:
        df = df[[COLS[i] for i in rng.permutation(len(COLS))]]
    con = sqlite3.connect(path)
    df.to_sql("sorcha_results", con, index=False)
    con.close()
    return [book.id(r, True) for r in table(path, "sorcha_results")]


def inputs(d, rng, cpx, nf):
    """Parameter, orbit and complex files; -> the rows that must be in each table."""
    want = {}
    k = 0
    for kind, cols in (("params", ["ObjID", "H_r", "GS"]), ("orbits", ["ObjID", "FORMAT", "q", "e", "INDEX"]), ("complex", ["ObjID", "shift"])):
        want[kind] = []
        for f in range(nf):
            rows = []
            for i in range(int(rng.integers(1, 4))):
                k += 1
                oid = [f"00{k}", f"{k}", f"A{k}"][(f + k) % 3] if f else f"{1000 + k}"
                rows.append([oid, *(["COM"] if "FORMAT" in cols else []), *[round(float(x), 6) for x in rng.uniform(1, 9, len(cols) - (3 if "FORMAT" in cols else 1))], *([k] if "INDEX" in cols else [])])
            df = pd.DataFrame(rows, columns=cols)
            df.to_csv(os.path.join(d, f"{kind}_{f}.txt" if kind != "params" else f"params{f}.des"), sep=" ", index=False)
            want[kind] += [dict(zip([c if c != "INDEX" else "orig_index" for c in cols], r)) for r in rows]
    if not cpx:
        pass
    return want


def snapshot(top, but):
    out = {}
    for p, _, fs in os.walk(top):
        for f in fs:
            q = os.path.join(p, f)
            if q != but and not q.endswith(("-journal", "-wal")):
                out[q] = open(q, "rb").read()
    return out


def combine(ck, case, out, ind, res, stem, cpx, dbs, book, want, must=False, via="cli"):
    before = {**snapshot(res, out), **snapshot(ind, out)}
    argv = ["create-sqlite", "-o", out, "-i", ind, "-r", res, *(["-s", stem] if stem else []), *(["-c"] if cpx else [])]
    r = cli.run("outputs", argv)
    got = [book.id(x) for x in table(out, "sorcha_results")] if os.path.exists(out) else []
    tabs = []
    for kind in ("params", "orbits") + (("complex",) if cpx else ()):
        b = Book()
        w = [b.id(x, True) for x in want[kind]]
        rows = table(out, kind) if os.path.exists(out) else []
        tabs.append(dict(want=w, got=[b.id({c: v for c, v in x.items() if c != "index"}) for x in rows]))
    ck.event("TraceCombine", dict(ev="combine", dbs=dbs, got=got, tables=tabs, refused=r.code != 0, mustRefuse=must, untouched={**snapshot(res, out), **snapshot(ind, out)} == before,
                                  say=(r.err or r.out)[-300:]), case)


def history(ck, k, scn, rng):
    top = env.scratch("cmb")
    res, ind = os.path.join(top, "results" if k % 4 else "res [1]"), os.path.join(top, "inputs" if k % 3 else "in[2]puts")
    os.makedirs(res)
    os.makedirs(ind)
    allchosen = all(o["chosen"] for o in scn["ops"])
    stem = "" if allchosen and k % 2 else "out"
    outdir = top if scn["place"] == "outside" else res
    outname = {"outside": "combined.db", "stem": "out_all.db" if k % 2 else "out.db", "inside": "total.sqlite" if not stem else "total.db"}[scn["place"]]
    out = os.path.join(outdir, outname)
    cpx = bool(k % 3 == 1)
    want = inputs(ind, rng, cpx, 1 + k % 2)
    book, live, n, order = Book(), [], 0, k % 2 == 0
    for j, op in enumerate(scn["ops"]):
        if op["op"] == "run":
            n += 1
            sub = os.path.join(res, ["", "a", "a/b", "c d", "x[1]"][(k + n) % 5])
            os.makedirs(sub, exist_ok=True)
            p = os.path.join(sub, ("out" if op["chosen"] else "other") + f"{n}.db")
            live.append((p, dict(rows=result_db(p, rng, op["n"], 100 * n, book, order and n > 1), chosen=op["chosen"])))
        elif op["op"] == "remove":
            os.remove(live.pop(0)[0])
        else:
            combine(ck, f"history/{scn['place']}/{'stem' if stem else 'all'}/{k}.{j}", out, ind, res, stem, cpx, [d for _, d in live], book, want, must=op["op"] == "refused")
    shutil.rmtree(top)


def real(ck, rng):
    """Databases that runs of the tool leave."""
    top = env.scratch("cmb")
    res, ind = os.path.join(top, "results"), os.path.join(top, "inputs")
    os.makedirs(ind)
    book, dbs = Book(), []
    want = dict(params=[], orbits=[], complex=[])
    for i, fl in enumerate(["basic", "cuts", "basic"]):
        w = W.lsst(rng, 4, fl)
        w.config["OUTPUT"] = dict(output_format="sqlite3", output_columns="basic")
        w.config["INPUT"] = dict(eph_format="csv", aux_format="whitespace")
        sc, _ = w.scenario(chunk=2)
        sc["outpath"], sc["stem"], sc["stats"] = os.path.join(res, f"run{i}"), "out", None
        os.makedirs(sc["outpath"])
        r = pl.run(sc)
        if r.error:
            ck.fail(f"real/{i}", "run-completes", r.error)
        shutil.copy(os.path.join(r.dir, "orbits.txt"), os.path.join(ind, f"orbits{i}.txt"))
        shutil.copy(os.path.join(r.dir, "phys.txt"), os.path.join(ind, f"params{i}.txt"))
        want["orbits"] += sc["orbits"].to_dict("records")
        want["params"] += sc["phys"].to_dict("records")
        p = os.path.join(sc["outpath"], "out.db")
        dbs.append(dict(rows=[book.id(x, True) for x in table(p, "sorcha_results")], chosen=True))
    for again in (1, 2):
        combine(ck, f"real-runs/{again}", os.path.join(res, "out-combined.db"), ind, res, "out", False, dbs, book, want)


def large(ck, rng, n):
    """A run of many detections: every one is there once (rows are told apart by their number)."""
    top = env.scratch("cmb")
    res, ind = os.path.join(top, "results"), os.path.join(top, "inputs")
    os.makedirs(res)
    os.makedirs(ind)
    inputs(ind, rng, False, 1)
    pd.DataFrame(dict(ObjID=[f"b{j}" for j in range(n)], H_r=20.0, GS=.15)).to_csv(os.path.join(ind, "params_big.txt"), sep=" ", index=False)
    k = 0
    dbs = []
    for i, m in enumerate([n, 3, n // 2 + 1]):
        con = sqlite3.connect(os.path.join(res, f"out{i}.db"))
        pd.DataFrame(dict(ObjID=[f"{j % 97}" for j in range(m)], n=range(k + 1, k + m + 1), x=rng.uniform(size=m))).to_sql("sorcha_results", con, index=False, chunksize=400)
        con.close()
        dbs.append((k, m))
        k += m
    out = os.path.join(top, "c.db")
    r = cli.run("outputs", ["create-sqlite", "-o", out, "-i", ind, "-r", res, "-s", "out"])
    got = [x["n"] for x in table(out, "sorcha_results")] if os.path.exists(out) else []
    cnt = np.bincount(np.array(got, int), minlength=k + 1)[1:k + 1] if got else np.zeros(k, int)
    ck.event("TraceCombine", dict(ev="large", want=k, rows=len(got), distinct=int((cnt > 0).sum()), inwant=n, inrows=len({x["ObjID"] for x in table(out, "params")} & {f"b{j}" for j in range(n)}) if os.path.exists(out) else 0,
                                  refused=r.code != 0, say=(r.err or r.out)[-300:]), f"large-{n}")
    shutil.rmtree(top)


def refusals(ck, rng):
    top = env.scratch("cmb")
    res, ind = os.path.join(top, "results"), os.path.join(top, "inputs")
    os.makedirs(res)
    os.makedirs(ind)
    book = Book()
    rows = result_db(os.path.join(res, "out1.db"), rng, 2, 5, book, False)
    dbs = [dict(rows=rows, chosen=True)]
    out = os.path.join(top, "c.db")
    none = dict(params=[], orbits=[], complex=[])
    combine(ck, "no-input-files", out, ind, res, "out", False, dbs, book, none, must=True)
    want = inputs(ind, rng, True, 1)
    combine(ck, "after-a-refusal", out, ind, res, "out", False, dbs, book, want)
    for q in os.listdir(ind):
        if q.startswith("complex"):
            os.remove(os.path.join(ind, q))
    combine(ck, "no-complex-files", out, ind, res, "out", True, dbs, book, want, must=True)
    combine(ck, "complex-not-asked", out, ind, res, "out", False, dbs, book, want)


def collect(ck):
    rng = np.random.default_rng(env.SEED + 21)
    cli.warm()
    scn, r = tlc.scenarios("Combine", "Combine.cfg")
    ck.states += r["states"]
    ck.transitions += r["transitions"]
    pick = scn if env.THOROUGH else [scn[int(i)] for i in rng.choice(len(scn), 220, replace=False)]
    ck.notes["histories"] = len(pick)
    for k, s in enumerate(pick):
        history(ck, k, s, rng)
    real(ck, rng)
    refusals(ck, rng)
    large(ck, rng, 60000 if env.THOROUGH else 6000)
    ck.mc("Combine", "CombineBig.cfg")
    for v in ("append", "self"):
        ck.mc("Combine", f"CombineX_{v}.cfg", contrast=True)


if __name__ == "__main__":
    check.main("C21", collect, ["numbers of the input files are compared to 1 part in 1e12"])
