"""C03: reading input tables: blocks tile the file, look-ups return whole objects, identifiers stay text, values unchanged."""
from harness import env, check, pipeline as pl, proj
import os
import numpy as np
import pandas as pd

NAMES = {
    "plain": lambda k: f"obj{k}", "digits": lambda k: f"{k:05d}", "number": lambda k: str(100 + k), "exp": lambda k: f"{k + 1}e5", "real": lambda k: f"{k}.50",
    "mixed": lambda k: [f"{k:04d}", f"K15A{k:02d}", f"{k}E{k}", f"-{k}"][k % 4], "prefix": lambda k: "x" * (k + 1), "case": lambda k: ("aB" if k % 2 else "Ab") + str(k // 2),
    "uni": lambda k: ["ñ", "小惑星", "Ωm", "é"][k % 4] + str(k), "bool": lambda k: ["True", "False", "yes", "1"][k % 4] + ("" if k < 4 else str(k)), "punct": lambda k: f"2015/A-{k}_(x):#"[: 11 + k % 3] + str(k),
    "inf": lambda k: ["inf", "Infinity", "1_000", "0x10"][k % 4] + ("" if k < 4 else str(k)), "space": lambda k: f"2015 AB{k}"}


def orbits(ids, rng, fmt):
    cols = {"COM": ["q", "e", "inc", "node", "argPeri", "t_p_MJD_TDB"], "KEP": ["a", "e", "inc", "node", "argPeri", "ma"],
            "CART": ["x", "y", "z", "xdot", "ydot", "zdot"]}[fmt.lstrip("B")]
    n = len(ids)
    d = dict(ObjID=ids, FORMAT=[fmt] * n)
    for c in cols:
        d[c] = rng.uniform(.01, .9, n) * (100 if c in ("inc", "node", "argPeri", "ma") else 1)
    d["epochMJD_TDB"] = 60000.0 + np.arange(n)
    return pd.DataFrame(d)


def params(ids, rng):
    n = len(ids)
    return pd.DataFrame(dict(ObjID=ids, H_r=rng.uniform(-2, 30, n), **{"g-r": rng.normal(0, 1, n)}, G12=rng.uniform(0, 1, n) * 10.0 ** rng.integers(-12, 12, n).astype(float),
                             count=rng.integers(-10 ** 9, 10 ** 9, n), big=rng.integers(2 ** 40, 2 ** 52, n), word=[f"w{int(x)}z" for x in rng.integers(0, 99, n)], row=np.arange(n)))


def eph(ids, rng):
    rows = [dict(obj=o, field=k + 1, mjd=60000 + k * .01 + float(rng.random()), ra=float(rng.uniform(0, 360)), dec=float(rng.uniform(-90, 90)), range=float(rng.uniform(1, 9)) * pl.AU,
                 rarate=float(rng.normal()), decrate=float(rng.normal()), sun=tuple(map(float, rng.normal(0, 3e8, 3))), phase=float(rng.uniform(0, 60))) for k, o in enumerate(ids)]
    return pl.eph_frame(rows)


def write(path, df, fmt, pre, rng):
    if fmt == "hdf5":
        with pd.HDFStore(path, "w") as st:
            # written in pieces, as a run exports it: the pieces restart their row labels
            cut = sorted({0, len(df), *map(int, rng.integers(0, len(df) + 1, 2 if pre else 0))})
            for a, b in zip(cut, cut[1:]):
                st.append("data", df.iloc[a:b].reset_index(drop=True).astype({"ObjID": object}), format="table", data_columns=True, min_itemsize={"ObjID": 48, **({"word": 10} if "word" in df else {})})
        return
    sep = " " if fmt == "whitespace" else ","
    with open(path, "w") as f:
        for k in range(pre):
            f.write(["# a comment, with, commas\n", "#\n", "some words before the table\n", "# ObjID comes later\n"][k % 4])
        df.to_csv(f, index=False, sep=sep)


class Rows:
    """Identifies returned rows with the rows written: same text identifier and same values in all columns kept."""

    def __init__(self, df, uniq, ignore=()):
        self.df, self.uniq, self.ignore = df, uniq, set(ignore)
        self.at = {proj.cell(v): k for k, v in enumerate(df[uniq].tolist())}
        self.oid = proj.Interner()

    def obj(self, o):
        return f"o{self.oid(o)}"

    def event(self):
        return [dict(id=k + 1, obj=self.obj(o)) for k, o in enumerate(self.df["ObjID"])]

    def find(self, got):
        out = []
        want = {c for c in self.df.columns if c not in self.ignore}
        cols = set(got.columns) if got is not None else set()
        if not want <= cols or self.uniq not in cols:
            return [0] * (0 if got is None else len(got))
        vals = {c: got[c].tolist() for c in want}
        for i in range(len(got)):
            k = self.near(vals[self.uniq][i])
            out.append(k + 1 if k is not None and all(self.same(self.df[c].iloc[k], vals[c][i], c) for c in want) else 0)
        return out

    def near(self, v):
        for u, k in self.at.items():
            if u == v or (isinstance(v, (int, float)) and isinstance(u, (int, float)) and abs(u - v) <= 1e-12 * abs(u)):
                return k
        return None

    @staticmethod
    def same(a, b, c):
        if c == "ObjID" or isinstance(a, str):
            return isinstance(b, str) and a == b
        if b != b or b is None:
            return False
        return abs(float(a) - float(b)) <= 1e-12 * abs(float(a))


def make_reader(kind, path, fmt, cache):
    from sorcha.readers.CSVReader import CSVDataReader
    from sorcha.readers.HDF5Reader import HDF5DataReader
    from sorcha.readers.OrbitAuxReader import OrbitAuxReader
    from sorcha.readers.EphemerisReader import EphemerisDataReader
    if kind == "eph":
        return EphemerisDataReader(path, fmt, cache_table=cache)
    if fmt == "hdf5":
        return HDF5DataReader(path, cache_table=cache)
    return (OrbitAuxReader if kind == "orbit" else CSVDataReader)(path, sep=fmt, cache_table=cache)


def session(ck, case, df, rows, reader, rng, nops):
    """Random alternation of block reads and look-ups; ends with a tiling."""
    ck.event("TraceReader", dict(ev="file", rows=rows.event()), case)
    ids = list(dict.fromkeys(df["ObjID"]))
    n = len(df)

    def call(ev, fn, *a, **k):
        with pl.quiet():
            got, err = pl.guarded(fn, *a, **k)
        e = dict(ev, error="" if err is None else f"{err[0]}: {err[1][:200]}", rows=rows.find(got) if err is None else [])
        ck.event("TraceReader", e, case)

    def block(s, size):
        call(dict(ev="block", start=s, size=size), reader.read_rows, s, size)

    def look():
        k = int(rng.integers(0, len(ids) + 1))
        pick = [ids[i] for i in rng.permutation(len(ids))[:k]]
        stranger = ["nobody", "0", ids[0] + "x", ids[-1][:-1]]
        ask = pick + [s for s in stranger if s not in ids and rng.random() < .5]
        ask = ask or ["nobody"]
        call(dict(ev="look", objs=[rows.obj(o) for o in ask if o in ids]), reader.read_objects, ask)

    for _ in range(nops):
        if rng.random() < .5:
            block(int(rng.integers(0, n)), int(rng.integers(1, n + 3)))
        else:
            look()
    call(dict(ev="block", start=0, size=n), reader.read_rows)
    step = int(rng.integers(1, n + 1))
    for s in range(0, n, step):
        block(s, step)
    look()


def combined(ck, case, rng, style, fmt, ephfmt, cache):
    """CombinedDataReader: blocks of objects with their candidates and parameters."""
    from sorcha.readers.CombinedDataReader import CombinedDataReader
    n = int(rng.integers(2, 9))
    ids = [NAMES[style](k) for k in range(n)]
    orb, phy = orbits(ids, rng, "COM"), params([ids[i] for i in rng.permutation(n)], rng)
    e = eph([ids[int(i)] for i in rng.integers(0, n, int(rng.integers(1, 20)))], rng)
    d = env.scratch("comb")
    p = lambda x: os.path.join(d, x)
    write(p("o"), orb, fmt, 1, rng), write(p("p"), phy, fmt, 2, rng), write(p("e"), e, ephfmt, 1, rng)
    size = int(rng.integers(1, n + 2))
    er = Rows(e, "FieldID", ignore=("fieldJD_TDB",))

    def owned(got):
        o, q = orb.set_index("ObjID"), phy.set_index("ObjID")
        for r in got.to_dict("records"):
            for t in (o, q):
                for c in t.columns:
                    if c not in r or not Rows.same(t.at[r["ObjID"], c], r[c], c):
                        return False
        return True

    def new(primary=False):
        r = CombinedDataReader(ephem_primary=primary)
        r.add_ephem_reader(make_reader("eph", p("e"), ephfmt, cache))
        r.add_aux_data_reader(make_reader("orbit", p("o"), fmt, cache))
        r.add_aux_data_reader(make_reader("csv", p("p"), fmt, cache))
        r.check_aux_object_ids()
        return r

    cand = er.event()
    with pl.quiet():
        r, err = pl.guarded(new)
    if err:
        ck.fail(case, "no-error", err)
        return
    # by objects
    orows = Rows(orb, "epochMJD_TDB")
    orows.oid = er.oid
    ck.event("TraceReader", dict(ev="file", rows=orows.event()), case)
    for s in range(0, n, size):
        with pl.quiet():
            got, err = pl.guarded(r.read_block, size)
        ck.event("TraceReader", dict(ev="join", size=size, cand=cand, error="" if err is None else f"{err[0]}: {err[1][:200]}", rows=[] if err else er.find(got),
                                     own=err is not None or owned(got)), case)
    # parameters only
    with pl.quiet():
        r, _ = pl.guarded(new)
    ck.event("TraceReader", dict(ev="file", rows=orows.event()), case + "/aux")
    for s in range(0, n, size):
        with pl.quiet():
            got, err = pl.guarded(r.read_aux_block, size)
        if got is not None and not owned(got):
            ck.fail(case + "/aux", "joined-to-own-parameters", got.to_dict())
        ck.event("TraceReader", dict(ev="next", size=size, error="" if err is None else f"{err[0]}: {err[1][:200]}", rows=[] if err else orows.find(got)), case + "/aux")
    # by ephemeris rows
    with pl.quiet():
        r, _ = pl.guarded(new, True)
    ck.event("TraceReader", dict(ev="file", rows=er.event()), case + "/rows")
    for s in range(0, len(e), size):
        with pl.quiet():
            got, err = pl.guarded(r.read_block, size)
        if got is not None and not owned(got):
            ck.fail(case + "/rows", "joined-to-own-parameters", got.to_dict())
        ck.event("TraceReader", dict(ev="next", size=size, error="" if err is None else f"{err[0]}: {err[1][:200]}", rows=[] if err else er.find(got)), case + "/rows")


def collect(ck):
    rng = np.random.default_rng(env.SEED + 3)
    ck.mc("Readers")
    reps = 6 if env.THOROUGH else 1
    for rep in range(reps):
        for style in NAMES:
            for fmt in ("csv", "comma", "whitespace", "hdf5"):
                if style == "space" and fmt == "whitespace":
                    continue
                for cache in (False, True):
                    kinds = ["csv", "orbit", "eph"] if fmt != "hdf5" else ["csv", "eph"]
                    kind = kinds[int(rng.integers(len(kinds)))]
                    n = int(rng.integers(1, 9))
                    ids = [NAMES[style](k) for k in range(n)]
                    if kind == "eph":
                        ids = [ids[int(i)] for i in rng.integers(0, n, int(rng.integers(1, 15)))]
                        df, uniq, ig = eph(ids, rng), "FieldID", ("fieldJD_TDB",)
                    elif kind == "orbit":
                        df, uniq, ig = orbits(ids, rng, ["COM", "BCOM", "KEP", "BKEP", "CART", "BCART"][int(rng.integers(6))]), "epochMJD_TDB", ()
                    else:
                        if rng.random() < .4:  # several rows of one object, not adjacent
                            ids = [ids[int(i)] for i in rng.integers(0, n, n + 3)]
                        df, uniq, ig = params(ids, rng), "row", ()
                    pre = int(rng.integers(0, 4))
                    path = os.path.join(env.scratch("rd"), "table")
                    write(path, df, fmt, pre, rng)
                    case = f"{kind}/{fmt}/{style}{'/cached' if cache else ''}"
                    with pl.quiet():
                        rd, err = pl.guarded(make_reader, kind, path, fmt, cache)
                    if err:
                        ck.fail(case, "no-error", err)
                        continue
                    session(ck, case, df, Rows(df, uniq, ig), rd, rng, 6)
            f = ["csv", "whitespace"][int(rng.integers(2))] if style != "space" else "csv"
            ef = ["csv", "whitespace", "hdf5"][int(rng.integers(3))] if style != "space" else "csv"
            combined(ck, f"combined/{f}-{ef}/{style}", rng, style, f, ef, bool(rng.integers(2)))
        for ef in ("csv", "hdf5"):
            for k in range(3):
                combined(ck, f"combined/csv-{ef}/plain", rng, "plain", "csv", ef, bool(k % 2))
    # a long file: many skipped lines
    ids = [f"L{k}" for k in range(1500)]
    df = params(ids, rng)
    path = os.path.join(env.scratch("rd"), "long")
    write(path, df, "csv", 3, rng)
    session(ck, "csv/csv/long", df, Rows(df, "row"), make_reader("csv", path, "csv", False), rng, 3)


if __name__ == "__main__":
    check.main("C03", collect, ["identifiers are not missing-value markers (NA, nan, null)", "real values to a relative 1e-12"])
