"""Runs over populations, judged against what each object reports on its own."""
import contextlib

import pandas as pd

from . import pipeline as pl, world as W

DONE = "Sorcha process is completed."


@contextlib.contextmanager
def readers():
    """Records the object identifiers of every block the run takes from its readers."""
    from sorcha.readers.CombinedDataReader import CombinedDataReader as R
    got, old = [], {}

    def wrap(name):
        f = getattr(R, name, None)
        if f is None:
            return
        old[name] = f

        def g(self, *a, **k):
            r = f(self, *a, **k)
            got.append([] if r is None else list(dict.fromkeys(map(str, r["ObjID"]))))
            return r

        setattr(R, name, g)

    for n in ("read_block", "read_aux_block"):
        wrap(n)
    try:
        yield got
    finally:
        for n, f in old.items():
            setattr(R, n, f)


class Population:
    """A world and the solo runs of its objects."""

    def __init__(self, ck, case, w):
        self.ck, self.case, self.w = ck, case, w
        self.book, self.sbook = W.RowBook(), W.RowBook(("ObjID", "optFilter"))
        self.own, self.ost = {}, {}
        for i in w.ids():
            sc, _ = w.scenario([i])
            r = pl.run(sc)
            if r.error:
                ck.fail(f"{case}/alone", "run-completes", dict(obj=i, error=r.error, log=r.log[-3:]))
            self.own[i] = self.book.ids(r.out)
            self.ost[i] = self.sbook.ids(self.counted(r.stats))

    @staticmethod
    def counted(st):
        """Rows of the statistics file about reported detections (rows for nothing say nothing)."""
        return None if st is None else st[st["number_obs"] > 0]

    def start(self, pop, chunk, case, stats=True):
        ar = self.w.config.get("INPUT", {}).get("ephemerides_type") == "ar"
        self.ck.event("TraceRun", dict(ev="start", n=len(pop), chunk=chunk, cand=[bool(ar or self.w.objs[i]["eph"]) for i in pop],
                                       own=[self.own[i] for i in pop], ostats=[self.ost[i] for i in pop], stats=int(stats)), case)

    def run(self, case, ids=None, chunk=1000, order=None, rng=None, return_only=False, mutate=None):
        case = f"{self.case}/{case}"
        sc, pop = self.w.scenario(ids, chunk, order, rng)
        if mutate:
            mutate(sc)
        self.start(pop, chunk, case)
        with readers() as got:
            r = pl.run(sc, return_only=return_only)
        pos = {i: k + 1 for k, i in enumerate(pop)}
        for g in got:
            self.ck.event("TraceRun", dict(ev="chunk", ids=sorted(pos.get(i, 0) for i in g)), case)
        out, st = r.out, r.stats
        if return_only and r.out is not None:
            out, st = r.out
            cols = next(iter(self.book.rows.values()))[0][0] if self.book.rows else []
            if len(out) and "Obj_Sun_LTC_km" not in out.columns:  # the file adds the heliocentric distance
                out = out.assign(Obj_Sun_LTC_km=sum(out[f"Obj_Sun_{x}_LTC_km"] ** 2 for x in "xyz") ** .5)
            out = out[[c for c in out.columns if c in cols or c in self.book.key]]
            st = st.reset_index() if len(st) else None
        self.end(case, r, [out], [st])
        return r

    def split(self, case, parts, chunk=1000):
        """The population over several runs."""
        case = f"{self.case}/{case}"
        self.start([i for p in parts for i in p], chunk, case)
        rs = [pl.run(self.w.scenario(p, chunk)[0]) for p in parts]
        bad = next((r for r in rs if r.error or DONE not in r.log[-1:]), rs[0])
        self.end(case, bad, [r.out for r in rs], [r.stats for r in rs])

    def end(self, case, r, outs, stats):
        rows = [i for o in outs for i in self.book.ids(o)]
        st = [i for s in stats for i in self.sbook.ids(self.counted(s))]
        self.ck.event("TraceRun", dict(ev="end", error="" if r.error is None else f"{r.error[0]}: {r.error[1][:200]}", completed=r.log[-1:] == [DONE], rows=rows, stats=st), case)
