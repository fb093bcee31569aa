"""C20: a log reports completion exactly when the run completed; the log checker reports every log once and rightly."""
from harness import env, fakesky as F
F.install()
from harness import check, pipeline as pl, world as W, cli, tlc
import csv
import glob
import os
import signal
import sqlite3
import sys

import numpy as np
import pandas as pd

DONE = "Sorcha process is completed. "
STAMP = "2026-01-01 00:00:0%d,123 sorcha.sorcha INFO     "
TEXT = dict(info="Post-processing begun. ", error="ERROR: disk full ", blank=" ", near="Sorcha process is completed. not really ", done=DONE)


# -- runs that stop somewhere ---------------------------------------------------------------------------------------
def outputs(d):
    """Everything a run leaves besides logs, in comparable form."""
    got = {}
    for p in sorted(glob.glob(os.path.join(glob.escape(d), "*"))):
        n = os.path.basename(p)
        if n.endswith((".log", ".err")) or n in ("config.ini", "pointing.db", "orbits.txt", "phys.txt", "eph.dat", "cpx.txt"):
            continue
        try:
            if n.endswith(".csv"):
                got[n] = open(p).read()
            elif n.endswith(".db"):
                con = sqlite3.connect(p)
                got[n] = (con.execute("select * from sorcha_results").fetchall(), sorted(map(str, con.execute("select name, sql from sqlite_master"))))
                con.close()
            elif n.endswith(".h5"):
                with pd.HDFStore(p, "r") as st:
                    got[n] = {k: st[k].reset_index(drop=True).to_csv() for k in st.keys()}
            else:
                got[n] = "?"
        except Exception as e:  # noqa
            got[n] = f"unreadable {type(e).__name__}"
    return got


def logs_of(d):
    return sorted(glob.glob(os.path.join(glob.escape(d), "*sorcha.log")))


SRC = os.path.join(env.REPO, "src") + os.sep


def at_call(n, action):
    """Do action at the n-th call of a function of the code under test (n = None: write the calls to a file)."""
    def inject():
        count = [0]
        seen = [] if n is None else None

        def prof(frame, event, arg):
            if event != "call":
                return
            f = frame.f_code.co_filename
            if f.startswith(SRC) and "sorcha_cmdline" not in f:
                count[0] += 1
                if seen is not None:
                    seen.append(f"{f[len(SRC):]}:{frame.f_code.co_qualname}")
                elif count[0] == n:
                    sys.setprofile(None)
                    action()
        if seen is not None:
            import atexit  # noqa: F401  (the child leaves by os._exit, so write while going)

            def prof2(frame, event, arg):
                k = len(seen)
                prof(frame, event, arg)
                if len(seen) > k:
                    os.write(fd, (seen[-1] + "\n").encode())
            fd = os.open(action, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            sys.setprofile(prof2)
        else:
            sys.setprofile(prof)
    return inject


def at_io(kind, n, exc):
    """Fail the n-th input/output operation of that kind."""
    def inject():
        import builtins  # noqa: F401
        count = [0]

        def wrap(owner, name):
            f = getattr(owner, name)

            def g(*a, **k):
                count[0] += 1
                if count[0] == n:
                    raise exc()
                return f(*a, **k)
            setattr(owner, name, g)
        for owner, name in {"write": [(pd.DataFrame, "to_csv"), (pd.DataFrame, "to_sql"), (pd.DataFrame, "to_hdf"), (pd.HDFStore, "append"), (pd.HDFStore, "put")],
                            "read": [(pd, "read_csv"), (pd, "read_sql"), (pd, "read_sql_query"), (pd, "read_hdf")], "connect": [(sqlite3, "connect")]}[kind]:
            if hasattr(owner, name):
                wrap(owner, name)
    return inject


def thrower(kind):
    def act():
        if kind == "kill":
            os.kill(os.getpid(), signal.SIGKILL)
        raise {"runtime": RuntimeError("injected"), "oserror": OSError(28, "No space left on device"), "memory": MemoryError(), "interrupt": KeyboardInterrupt(),
               "exit": SystemExit("injected"), "key": KeyError("injected"), "value": ValueError("injected"), "stop": StopIteration()}[kind]
    return act


KINDS = ("runtime", "oserror", "value", "key", "exit", "kill", "memory", "interrupt")


def base(rng, name):
    if name.startswith("des"):
        w = W.des(rng, 4, "discovery")
    elif name.startswith("ar"):
        w = W.generated(rng, 3, "basic", AUX)
    else:
        w = W.lsst(rng, 4, "linkkeep" if "link" in name else "cuts")
    fmt = name.split("-")[1]
    w.config["OUTPUT"] = dict(output_format=fmt, output_columns="all" if fmt != "sqlite3" else "basic")
    w.config.setdefault("INPUT", {}).update(eph_format="csv", aux_format="csv")
    sc, _ = w.scenario(chunk=2 if len(w.objs) > 3 else 1)
    if name.startswith("ar"):
        sc["args"]["output_ephemeris_file"] = "ephout"
        sc["config"]["INPUT"]["eph_format"] = "csv"
    return sc


def prepare(sc):
    d, args, ini = pl.setup(sc, env.scratch("c20"))
    return d, cli.sorcha_run(args, ini)


def run_event(ck, case, d, r, ref, fault, refusal=False, early=False):
    logs = logs_of(d)
    lines, at = [], []
    for p in logs:
        lines = open(p).read().split("\n")
        lines = lines[:-1] if lines and lines[-1] == "" else lines
        at = [i + 1 for i, x in enumerate(lines) if x.endswith(DONE)]
    o = outputs(d)
    ck.event("TraceLog", dict(ev="run", code=r.code, killed=r.code < 0, lines=len(lines), at=at, logs=len(logs), whole=ref is not None and o == ref, fault=fault, early=early,
                              refusal=refusal, last=lines[-1][-150:] if lines else "", raised=r.raised or ""), case)


def disturbed(ck, rng):
    names = ["lsst-csv", "lsstlink-sqlite3", "des-csv", "lsst-hdf5", "ar-csv"]
    n = 0
    for name in names:
        sc = base(rng, name)
        d, argv = prepare(sc)
        calls = os.path.join(d, "..", os.path.basename(d) + ".calls")
        r = cli.run("run", argv, inject=at_call(None, calls))
        ref = outputs(d)
        run_event(ck, f"{name}/undisturbed", d, r, ref, False)
        seq = open(calls).read().split("\n")[:-1] if os.path.exists(calls) else []
        # where to stop: the first, second and last call of every function, and positions spread over the run
        pos = {}
        for i, f in enumerate(seq, 1):
            pos.setdefault(f, []).append(i)
        pts = sorted({p for v in pos.values() for p in ((v[0], v[-1]) if not env.THOROUGH else (v[0], v[len(v) // 2], v[-1]))})
        extra = sorted({int(x) for x in np.linspace(1, max(1, len(seq)), 12 if not env.THOROUGH else 120)})
        pts = sorted(set(pts) | set(extra))
        cap = 45 if not env.THOROUGH else 1000
        if len(pts) > cap:  # keep the end of the run, where completion is announced
            keep = set(pts[-12:]) | {pts[int(i)] for i in np.linspace(0, len(pts) - 1, cap - 12)}
            pts = sorted(keep)
        jobs = []
        for p in pts:
            n += 1
            k = KINDS[n % len(KINDS)]
            jobs.append((f"{name}/{k}/{p}:{seq[p - 1]}", at_call(p, thrower(k))))
        for kind in ("write", "read", "connect"):
            for j in range(1, 7):
                jobs.append((f"{name}/{kind}-fails/{j}", at_io(kind, j, lambda: OSError(28, "No space left on device"))))
        dirs = [prepare(sc) for _ in jobs]
        rs = cli.many([(("run", a), dict(inject=inj)) for (_, inj), (_, a) in zip(jobs, dirs)])
        for (case, _), (dd, _), r in zip(jobs, dirs, rs):
            run_event(ck, case, dd, r, ref, True, early=True)
        ck.notes[f"stop_points_{name}"] = len(jobs)
    return sc


def refusals(ck, rng):
    """Commands that are refused never report completion."""
    def conf(sec, key, val):
        return lambda sc: sc["config"].setdefault(sec, {}).update({key: val})
    muts = dict(badfilter=conf("FILTERS", "observing_filters", "x"), badchunk=conf("INPUT", "size_serial_chunk", "many"), badphase=conf("PHASECURVES", "phase_function", "HX"),
                badformat=conf("OUTPUT", "output_format", "xml"), badquery=conf("INPUT", "pointing_sql_query", "SELECT nothing FROM observations"))
    for name, m in muts.items():
        sc = base(rng, "lsst-csv")
        m(sc)
        d, argv = prepare(sc)
        run_event(ck, f"refused/{name}", d, cli.run("run", argv), None, True, refusal=True, early=True)
    for name, f in dict(missing=lambda a: [x if not x.endswith("orbits.txt") else x + ".gone" for x in a], survey=lambda a: [x if x != "rubin_sim" else "lsst" for x in a],
                        unknown=lambda a: [x if x != "rubin_sim" else "somewhere" for x in a]).items():
        d, argv = prepare(base(rng, "lsst-csv"))
        run_event(ck, f"refused/{name}", d, cli.run("run", f(argv)), None, True, refusal=True, early=True)
    d, argv = prepare(base(rng, "lsst-csv"))
    open(os.path.join(d, "out.csv"), "w").write("old\n")
    run_event(ck, "refused/exists", d, cli.run("run", argv), None, True, refusal=True, early=True)


# -- the checker ------------------------------------------------------------------------------------------------------
PLACES = ["%s-p%d-sorcha.log", "run_%s/out-p%d-sorcha.log", "deep/%s/er/x-p%d-sorcha.log", "%s dir/with space-p%d-sorcha.log", "%s%dsorcha.log"]


def tree(logs, k):
    top = env.scratch("logs")
    paths, lines = [], []
    for i, lg in enumerate(logs):
        p = os.path.join(top, PLACES[(k + 3 * i) % len(PLACES)] % ("abc"[i % 3], i))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        ls = [(STAMP % j if kind != "blank" or (k + j) % 2 else "") + TEXT[kind] for j, kind in enumerate(lg)]
        with open(p, "w") as f:
            f.write("".join(x + "\n" for x in ls))
        paths.append(p)
        lines.append(ls)
    decoys = ["out-p9-sorcha.err", "notes.log", "sorcha.log.txt", "out.csv"]
    for q in decoys[: k % 5]:
        with open(os.path.join(top, q), "w") as f:
            f.write("nothing\n" if k % 2 else STAMP % 1 + DONE + "\n")
    return top, paths, lines


def checker(ck):
    scn, r = tlc.scenarios("Logs", "Logs.cfg")
    ck.states += r["states"]
    ck.transitions += r["transitions"]
    logsets = [[tuple(x) for x in s["logs"]] for s in scn]
    rng = np.random.default_rng(env.SEED + 20)
    kinds = list(TEXT)
    for _ in range(12):  # more logs and longer ones
        logsets.append([tuple(kinds[int(j)] for j in rng.integers(0, 5, int(rng.integers(0, 6)))) for _ in range(int(rng.integers(3, 9)))])
    logsets.append([])
    if not env.THOROUGH:
        small = [s for s in logsets if len(s) != 2]
        two = [s for s in logsets if len(s) == 2]
        logsets = small + [two[int(i)] for i in np.linspace(0, len(two) - 1, 160)]
    jobs, meta = [], []
    for k, s in enumerate(logsets):
        top, paths, lines = tree(s, k)
        ask = k % 3 != 2
        out = os.path.join(env.scratch("rep"), "report" + (".csv" if k % 2 else ""))
        jobs.append((("outputs", ["check-logs", "-f", top, *(["-o", out] if ask else [])]), {}))
        meta.append((s, top, paths, lines, ask, out))
    for k, ((s, top, paths, lines, ask, out), r) in enumerate(zip(meta, cli.many(jobs))):
        f = out if out.endswith(".csv") else out + ".csv"
        pos = {os.path.realpath(p): i + 1 for i, p in enumerate(paths)}
        saved = os.path.exists(f)
        rows = []
        if saved:
            with open(f, newline="") as fh:
                for x in csv.DictReader(fh):
                    rows.append(dict(log=pos.get(os.path.realpath(x.get("log_filename", "")), 0), ok=x.get("run_successful") == "True", last=x.get("log_lastline") or ""))
        failed, ol = [], r.out.split("\n")
        for i, x in enumerate(ol):
            if x.startswith("Failed run log filename:"):
                failed.append(dict(log=pos.get(os.path.realpath(ol[i + 1].strip()), 0)))
        ck.event("TraceLog", dict(ev="report", n=len(s), last=[x[-1] if x else "" for x in lines], done=[bool(x) and x[-1].endswith(DONE) for x in lines], rows=rows, failed=failed, saved=saved,
                                  asked=ask, refused=r.code != 0, allgood="All Sorcha runs appear to have completed successfully" in r.out), f"checker/{len(s)}-logs/{k}")


def real_logs(ck, rng):
    """The checker on the logs that real runs leave: completed, refused, killed, two runs with the same name."""
    top = env.scratch("real")
    jobs, want = [], []
    for i, kind in enumerate(["complete", "refused", "killed", "complete", "raised"]):
        sc = base(rng, "lsst-csv")
        sub = os.path.join(top, "same" if kind == "complete" else f"r{i}")
        os.makedirs(sub, exist_ok=True)
        if kind == "refused":
            sc["config"]["FILTERS"]["observing_filters"] = "x"
        sc["outpath"] = sub
        sc["stem"] = f"out{i}"
        sc["stats"] = None
        _, argv = prepare(sc)
        jobs.append((("run", argv), dict(inject=at_call(60, thrower("kill")) if kind == "killed" else at_call(60, thrower("runtime")) if kind == "raised" else None)))
        want.append(kind == "complete")
    cli.many(jobs)
    out = os.path.join(env.scratch("rep"), "report.csv")
    r = cli.run("outputs", ["check-logs", "-f", top, "-o", out])
    logs = sorted(glob.glob(os.path.join(top, "**", "*sorcha.log"), recursive=True))
    lines = [open(p).read().splitlines() for p in logs]
    done = [want[int(os.path.basename(p)[3])] for p in logs]
    rows = []
    if os.path.exists(out):
        with open(out, newline="") as fh:
            for x in csv.DictReader(fh):
                rows.append(dict(log=logs.index(x["log_filename"]) + 1 if x["log_filename"] in logs else 0, ok=x["run_successful"] == "True", last=x["log_lastline"]))
    ck.event("TraceLog", dict(ev="report", n=len(want), last=[x[-1] if x else "" for x in lines], done=done, rows=rows, failed=[], saved=os.path.exists(out), asked=True,
                              refused=r.code != 0, allgood="All Sorcha runs appear to have completed successfully" in r.out), "checker/real-runs")


AUX = None


def collect(ck):
    global AUX
    AUX = F.data_dir(env.scratch("aux"))
    rng = np.random.default_rng(env.SEED + 20)
    cli.warm()
    # load (and compile) everything once before forking
    for name in ("lsst-csv", "des-csv", "lsst-hdf5", "ar-csv"):
        pl.run(base(rng, name))
    disturbed(ck, rng)
    refusals(ck, rng)
    real_logs(ck, rng)
    checker(ck)
    ck.mc("RunLog")
    for v in ("swallow", "early", "always"):
        ck.mc("RunLog", f"RunLogX_{v}.cfg", contrast=True)
    ck.mc("Logs", "LogsBig.cfg")


if __name__ == "__main__":
    check.main("C20", collect, ["a run is stopped at calls of the tool's own functions and at input/output operations; stops inside library code are represented by those"])
