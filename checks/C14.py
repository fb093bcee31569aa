"""C14: existing results are never overwritten or mixed without permission."""
from harness import env, fakesky as F
F.install()
from harness import check, pipeline as pl, world as W, cli, tlc
import glob
import hashlib
import os
import sqlite3

import numpy as np
import pandas as pd

FMT = dict(csv="csv", db="sqlite3", h5="hdf5")


def files(top):
    out = {}
    for p, _, fs in os.walk(top):
        for f in fs:
            q = os.path.join(p, f)
            out[os.path.relpath(q, top)] = hashlib.sha1(open(q, "rb").read()).hexdigest()[:12]
    return out


def listing(d):
    return [dict(name=k, c=v) for k, v in sorted(d.items())]


def owners(path):
    """The runs whose rows are in an output file (objects are named after their run)."""
    try:
        if path.endswith(".csv"):
            with open(path) as f:
                sep = "," if "," in f.readline() else " "
            ids = pd.read_csv(path, dtype=str, sep=sep)["ObjID"]
        elif path.endswith(".db"):
            con = sqlite3.connect(path)
            ids = [r[0] for t in con.execute("select name from sqlite_master where type='table'").fetchall() for r in con.execute(f"select ObjID from [{t[0]}]")]
            con.close()
        else:
            with pd.HDFStore(path, "r") as st:
                ids = [x for k in ("sorcha_results", "sorcha_ephemeris") if k in st for x in st[k]["ObjID"]]
        return sorted({int(str(x)[1:].split("_")[0]) if str(x)[:1] == "R" else 0 for x in ids})
    except Exception:  # noqa
        return [0]


def kinds(path):
    """The different numbers of fields that the lines of a csv file have."""
    if not path.endswith(".csv"):
        return []
    with open(path) as f:
        return sorted({line.count(",") if "," in line else len(line.split()) for line in f if line.strip()})


class Dir:
    """An output directory and the inputs of the runs that write there."""

    def __init__(self, name="out"):
        self.base = env.scratch("c14")
        self.top = os.path.join(self.base, name)
        os.makedirs(self.top)
        self.n = 0

    def command(self, stem, fmt, stats="", force=False, ew="", ewfmt="csv", config_in=None, ar=False):
        """Prepare a run; -> (argv, what the specification needs to know)."""
        self.n += 1
        me = self.n
        if ar:
            w = AR
            ids = w.ids()[:1]
            sc, _ = w.scenario(ids)
            sc["orbits"]["ObjID"] = sc["phys"]["ObjID"] = f"R{me}_x"
            sc["config"]["INPUT"]["eph_format"] = ewfmt
        else:
            oid = f"R{me}_" + "x" * me
            sc = dict(survey="rubin_sim", objects=[dict(id=oid, H=17.0)], visits=[dict(id=i, mjd=60000.1 + i, filter="r", depth=24.0, ra=10.0, dec=5.0) for i in (1, 2)],
                      eph=[dict(obj=oid, field=i, mjd=60000.1 + i, ra=10.0, dec=5.0) for i in (1, 2)], config={})
        sc["config"].setdefault("OUTPUT", {}).update(output_format=FMT[fmt], output_columns="all")
        sc["stats"] = stats or None
        sc["stem"], sc["outpath"] = stem, self.top
        d, args, ini = pl.setup(sc, env.scratch("c14in"))
        if config_in:  # the configuration lies in the output directory itself
            new = os.path.join(self.top, config_in)
            os.replace(ini, new)
            ini = new
        if ew:
            args["output_ephemeris_file"] = ew
        argv = cli.sorcha_run(args, ini, *(["-f"] if force else []))
        claimed = [f"{stem}.{x}" for x in FMT] + ([stats + ".csv"] if stats else []) + ([f"{ew}.csv", f"{ew}.h5"] if ew else [])
        claimed = [os.path.normpath(x) for x in claimed]
        must = [f"{stem}.{fmt}"] + ([stats + ".csv"] if stats else []) + ([ew + (".h5" if ewfmt == "hdf5" else ".csv")] if ew else [])
        must = [os.path.normpath(x) for x in must]
        return dict(argv=argv, claimed=claimed, must=must, own=must, csvs=[x for x in must if x.endswith(".csv")], force=force, me=me, stem=stem, ew=ew, keep=[config_in] if config_in else [])

    def before(self):
        self.b = files(self.top)

    def event(self, ck, case, c, r):
        a = files(self.top)
        logs = [f for f in a if f not in self.b and f.endswith(("sorcha.log", "sorcha.err"))]
        near = [f for f in self.b if f.startswith(c["stem"] + ".") or (c["ew"] and f.startswith(c["ew"] + "."))]
        hit = bool(set(c["keep"]) & set(near))
        done = any("Sorcha process is completed." in open(os.path.join(self.top, f)).read() for f in logs if f.endswith(".log")) and r.code == 0
        ck.event("TraceOverwrite", dict(ev="cmd", before=listing(self.b), after=listing(a), claimed=c["claimed"], near=[f for f in near if f not in c["keep"]], own=c["own"], csvs=c["csvs"], new=logs, keep=c["keep"],
                                        force=c["force"], refused=r.refused, raised=r.raised or "", done=done, me=c["me"], must=c["must"], inputHit=hit,
                                        rows=[dict(name=f, c=owners(os.path.join(self.top, f)), k=kinds(os.path.join(self.top, f))) for f in c["claimed"] if f in a], say=(r.err or r.out)[-250:]), case)


def put(top, name, text):
    p = os.path.join(top, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(text)


OLDCSV = "ObjID,FieldID,fieldMJD_TAI\nold,1,2\n"


def histories(ck, rng):
    scn, r = tlc.scenarios("Overwrite", "Overwrite.cfg")
    ck.states += r["states"]
    ck.transitions += r["transitions"]
    seen, hs = set(), []
    for s in scn:
        k = str(s["cmds"])
        if k not in seen:
            seen.add(k)
            hs.append(s["cmds"])
    if not env.THOROUGH:
        hs = [hs[int(i)] for i in rng.choice(len(hs), min(len(hs), 110), replace=False)]
    third = [dict(stem=str(rng.choice(["a", "ab"])), fmt=str(rng.choice(["csv", "db", "h5"])), stats=str(rng.choice(["", "s"])), force=True) for _ in hs]
    hs = [h + ([t] if i % 2 == 0 else []) for i, (h, t) in enumerate(zip(hs, third))]
    dirs = []
    for i, h in enumerate(hs):
        D = Dir(["out", "out dir", "o[1]ut", "out*", "o?t"][i % 5])
        stuff = [{}, {"ab.csv": OLDCSV}, {"a.csv": OLDCSV, "notes.txt": "x"}, {"a.txt": "mine", "b.csv": "x", "sa.csv": "y"}, {"sub/a.csv": "deep", "A.csv": "case"}, {"a-old.csv": "x", "a_.db": "y", "xa.h5": "z"},
                 {"s.csv": OLDCSV}, {"a.h5": "not hdf5", "a.csv.bak": "keep"}, {"a1.csv": "z", "aa.csv": "x"}][i % 9]
        for k, v in stuff.items():
            put(D.top, k, v)
        for extra in ("out.csv", "oxt/a.csv", "o1ut/a.csv", "outer/a.csv"):  # what a pattern could match by mistake
            put(D.base, extra, "elsewhere")
        dirs.append(D)
    for step in range(3):
        live = [(D, h) for D, h in zip(dirs, hs) if len(h) > step]
        jobs, meta = [], []
        for D, h in live:
            c = D.command(**{k: h[step][k] for k in ("stem", "fmt", "stats", "force")})
            D.before()
            D.outside = {k: v for k, v in files(D.base).items() if not k.startswith(os.path.basename(D.top) + os.sep)}
            jobs.append((("run", c["argv"]), {}))
            meta.append((D, h, c))
        for i, ((D, h, c), r) in enumerate(zip(meta, cli.many(jobs))):
            case = f"history/{step}/{os.path.basename(D.top)}/" + "+".join(f"{x['stem']}.{x['fmt']}{'.' + x['stats'] if x['stats'] else ''}{'!' if x['force'] else ''}" for x in h[: step + 1])
            D.event(ck, case, c, r)
            out2 = {k: v for k, v in files(D.base).items() if not k.startswith(os.path.basename(D.top) + os.sep)}
            if out2 != D.outside:
                ck.fail(case, "nothing-else-touched", "files outside the output directory changed")
    ck.notes["histories"] = len(hs)


def ephemerides(ck):
    """Runs that also write the ephemerides they generate."""
    k = 0
    for seq in ([("a", "csv", "e", "csv", False), ("b", "csv", "e", "csv", False), ("b", "csv", "e", "csv", True)], [("a", "csv", "e", "hdf5", False), ("b", "csv", "e", "csv", False), ("b", "csv", "e", "csv", True)],
                [("a", "csv", "e", "csv", False), ("b", "db", "e", "hdf5", True)], [("a", "db", "e", "whitespace", False), ("a", "csv", "e", "whitespace", True), ("c", "csv", "e", "hdf5", False)],
                [("a", "csv", "e", "hdf5", False), ("c", "csv", "e", "hdf5", False), ("c", "csv", "e", "hdf5", True)], [("a", "csv", "e2", "csv", False), ("b", "csv", "e", "csv", False)],
                # outputs of one run that have the same name, or the same file
                [("a", "csv", "a", "csv", False), ("a", "csv", "a", "hdf5", False), ("a", "csv", "a", "whitespace", True)], [("a", "db", "a", "csv", False), ("a", "h5", "a", "csv", False)],
                [("a", "csv", "./a", "csv", False)], [("a", "db", "e", "csv", False, "e"), ("a", "db", "e", "hdf5", False, "e"), ("a", "csv", "e", "whitespace", True, "a")]):
        k += 1
        D = Dir()
        put(D.top, "e_notes.csv", "keep")
        for j, (stem, fmt, ew, ewfmt, force, *stats) in enumerate(seq):
            c = D.command(stem, fmt, "".join(stats), force, ew, ewfmt, ar=True)
            D.before()
            D.event(ck, f"ephemeris/{k}.{j}", c, cli.run("run", c["argv"]))


def inputs(ck):
    """An input file of the run that is named like its output."""
    for force in (False, True):
        for name in ("a.ini", "a.csv", "zz.ini"):
            for old in ((), ("a.csv",) if name != "a.csv" else (), ("a.db", "a.h5")):
                D = Dir()
                for o in old:
                    put(D.top, o, OLDCSV)
                c = D.command("a", "csv", "", force, config_in=name)
                c["claimed"] = [x for x in c["claimed"] if x != name]
                D.before()
                D.event(ck, f"input-in-output-directory/{name}/{'+'.join(old)}/{'forced' if force else 'plain'}", c, cli.run("run", c["argv"]))


def simple(ck, case, top, argv, module, own, force, good, stdin="", cwd=None, ok=None):
    """A command that writes the files `own` in top."""
    b = files(top)
    r = cli.run(module, argv, stdin=stdin, cwd=cwd)
    a = files(top)
    refused = (r.code != 0 and r.raised is None) or (r.code == 0 and not good(r, a))
    ck.event("TraceOverwrite", dict(ev="cmd", before=listing(b), after=listing(a), claimed=own, near=[], own=own, csvs=[], new=[], keep=[], force=force, refused=refused, raised=r.raised or "",
                                    done=r.raised is None and (ok is None or ok(a)), me=1, must=own if good is None else [], inputHit=False, rows=[], say=(r.err or r.out)[-250:]), case)


def others(ck, rng):
    """sorcha init, sorcha demo prepare, sorcha outputs check-logs."""
    sets = os.path.join(env.REPO, "src", "sorcha", "data", "survey_setups")
    pick = {1: ["Rubin_circular_approximation.ini"], 2: ["Rubin_full_footprint.ini"], 3: ["Rubin_known_object_prediction.ini"], 4: ["DES_config_file.ini"]}
    pick[5] = [x for k in (1, 2, 3, 4) for x in pick[k]]
    sha = {f: hashlib.sha1(open(os.path.join(sets, f), "rb").read()).hexdigest()[:12] for f in pick[5]}
    for n in pick:
        for old in ([], pick[5][-1:], pick[5][:1], pick[5][1:3], ["other.ini"]):
            for force in (False, True):
                top = env.scratch("init")
                for o in old:
                    put(top, o, "mine")
                argv = ["-p", top, *(["-f"] if force else [])]
                good = lambda r, a: all(a.get(f) == sha[f] for f in pick[n])  # noqa
                simple(ck, f"init/{n}/{'+'.join(old)}/{'forced' if force else 'plain'}", top, argv, "init", pick[n], force, good, stdin=f"{n}\n")
    demo = ["sorcha_config_demo.ini", "sspp_testset_colours.txt", "sspp_testset_orbits.des", "baseline_v2.0_1yr.db"]
    for o in demo:  # (the visit database of the demo is not in this repository's tree: only refusals are tried)
        top = env.scratch("demo")
        put(top, o, "mine")
        simple(ck, f"demo/{o}", top, ["prepare", "-p", top], "demo", demo, False, lambda r, a: False)
    for name in ("report", "report.csv", "rep.txt"):
        f = name if name.endswith(".csv") else name + ".csv"
        for old in ([], [f], [name]):
            for force in (False, True):
                for bad in (True, False):
                    top = env.scratch("rep")
                    logs = env.scratch("replogs")
                    put(logs, "a-sorcha.log", "x INFO Sorcha process is completed. \n" + ("later\n" if bad else ""))
                    for o in old:
                        put(top, o, "mine")
                    b = files(top)
                    r = cli.run("outputs", ["check-logs", "-f", logs, "-o", os.path.join(top, name), *(["--force"] if force else [])])
                    a = files(top)
                    refused = "already found" in r.out or r.code != 0
                    # a report is only written when a run has failed
                    ck.event("TraceOverwrite", dict(ev="cmd", before=listing(b), after=listing(a), claimed=[f], near=[name], own=[f], csvs=[], new=[], keep=[name] if name != f else [], force=force, refused=refused,
                                                    raised=r.raised or "", done=r.code == 0, me=1, must=[f] if bad else [], inputHit=False, rows=[], say=r.out[-200:]),
                             f"check-logs/{name}/{'+'.join(old)}/{'forced' if force else 'plain'}/{'failed' if bad else 'fine'}")


AR = None


def collect(ck):
    global AR
    rng = np.random.default_rng(env.SEED + 14)
    cli.warm()
    aux = F.data_dir(env.scratch("aux"))
    AR = W.generated(rng, 2, "basic", aux)
    for fmt in FMT:
        c = Dir().command("a", fmt, "s")
        cli.run("run", c["argv"])
    pl.run(AR.scenario()[0])
    histories(ck, rng)
    ephemerides(ck)
    inputs(ck)
    others(ck, rng)
    ck.mc("Overwrite", "OverwriteBig.cfg")
    for v in ("sameformat", "one", "blind"):
        ck.mc("Overwrite", f"OverwriteX_{v}.cfg", contrast=True)


if __name__ == "__main__":
    check.main("C14", collect, ["two commands never write to one directory at the same moment"])
