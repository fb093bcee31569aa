"""C27: the command line: verbs reach their program, options their settings, and success is only reported for success."""
from harness import env, check, pipeline as pl, cli, tlc
import hashlib
import json
import os
import shlex
import shutil
import numpy as np

SPELL = dict(c=("-c", "--config"), o=("-o", "--outfile"), ob=("--ob", "--orbits"), p=("-p", "--physical-parameters"), pd=("--pd", "--pointing-db"), er=("--er", "--ephem-read"),
             ew=("--ew", "--ephem-write"), ar=("--ar", "--ar-data-path"), cp=("--cp", "--complex-physical-parameters"), s=("-s", "--survey"), t=("-t", "--stem"), st=("--st", "--stats"), vd=("--vd", "--visits-db"))
SIG = 999


# ---- sorcha VERB ----
def script(path, out, tag):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(f"""#!/bin/sh
f={shlex.quote(out)}/$$
printf '%s\\0' {tag} "$#" "$@" > "$f.args"
pwd -P > "$f.cwd"
/bin/cat > "$f.in"
echo "$VERIF_MARK" > "$f.mark"
[ "$VERIF_STATUS" = {SIG} ] && kill -9 $$
exit "$VERIF_STATUS"
""")
    os.chmod(path, 0o755)


def verb(ck, case, words, verbs, rng):
    top = env.scratch("verbs")
    out, cwd = os.path.join(top, "rec"), os.path.join(top, str(rng.choice(["here", "a b", "o[1]"])))
    os.makedirs(out)
    os.makedirs(cwd)
    for v in verbs:
        script(os.path.join(top, "first", f"sorcha-{v}"), out, shlex.quote(v))
        script(os.path.join(top, "second", f"sorcha-{v}"), out, "hidden")
    script(os.path.join(top, "second", "sorcha-off"), out, "off")  # not executable
    os.chmod(os.path.join(top, "second", "sorcha-off"), 0o644)
    os.makedirs(os.path.join(top, "second", "sorcha-dir"))
    script(os.path.join(top, "second", "other"), out, "other")
    want = int(rng.choice([0, 0, 1, 2, 3, 100, 255, SIG]))
    text = "some\ninput \\n" * int(rng.integers(0, 3))
    r = cli.start("main", words, cwd=cwd, stdin=text, prog="sorcha",
                  env_vars=dict(PATH=os.pathsep.join([os.path.join(top, "nowhere"), os.path.join(top, "first"), os.path.join(top, "second")]), VERIF_STATUS=str(want), VERIF_MARK=case)).wait()
    import sorcha
    started = []
    for f in sorted(os.listdir(out)):
        if f.endswith(".args"):
            a = open(os.path.join(out, f)).read().split("\0")
            rd = lambda x: open(os.path.join(out, f[:-5] + x)).read()  # noqa
            started.append(dict(verb=a[0], args=a[2: 2 + int(a[1])], same=rd(".cwd").strip() == os.path.realpath(cwd) and rd(".in") == text and rd(".mark").strip() == case))
    if not started:
        want = -1
    ck.event("TraceCommand", dict(ev="verb", words=list(words), verbs=sorted(verbs), started=started, want=want, status=r.code, raised=r.raised or "", version=r.out.strip() == sorcha.__version__,
                                  say=(r.err or r.out)[-200:]), case)


def verbs(ck):
    rng = np.random.default_rng([env.SEED, 27, 1])
    first = ["run", "init", "x", "off", "dir", "zzz", "ru", "sorcha-run", "-h", "--help", "--version", "-c", ""]
    more = ["run", "x", "-h", "--help", "--version", "-c", "a", "a b", "", "*", "$HOME", "--", "-1", "-f", "--verb", "@file", "--a=b c", "\\", "'", '"', "é", "\n", "-", "--args"]
    cases = [[]] + [[f] for f in first] + [["run", m] for m in more] + [["x", m, n] for m in more for n in more if rng.random() < (1 if env.THOROUGH else .12)]
    cases += [[f, m] for f in first[3:] for m in ("run", "-h", "a")]
    for _ in range(400 if env.THOROUGH else 60):
        cases.append([str(rng.choice(["run", "init", "x"]))] + [str(x) for x in rng.choice(more, int(rng.integers(3, 9)))])
    for k, w in enumerate(cases):
        have = ["run", "init", "x"] if k % 7 else [["run", "init", "x", "two-words", "Run"], ["x", "run", "init"]][k % 2]
        verb(ck, f"verb/{k}", w, have, rng)
    verb(ck, "verb/nothing-installed", ["run"], [], rng)


# ---- sorcha run ----
def stub(path, seed):
    """Called in the child: the simulations only write down what they were started with."""
    def inject():
        import sorcha.sorcha, sorcha.des
        from sorcha.utilities.sorchaModuleRNG import PerModuleRNG
        from sorcha.lightcurves.base_lightcurve import AbstractLightCurve
        from sorcha.activity.base_activity import AbstractCometaryActivity

        class L(AbstractLightCurve):
            def __init__(self, required_column_names=["x"]):
                super().__init__(required_column_names)

            def compute(self, df):
                return 0.0

            @staticmethod
            def name_id():
                return "verif_lc"

        class A(AbstractCometaryActivity):
            def __init__(self, required_column_names=["x"]):
                super().__init__(required_column_names)

            def compute(self, df, observing_filters, rho, delta, alpha):
                return df

            @staticmethod
            def name_id():
                return "verif_ca"
        keep.extend([L, A])

        def sim(name):
            def go(args, sconfigs, *a, **k):
                draw = lambda g: [int(g.getModuleRNG(m).integers(1 << 30)) for m in ("a", "sorcha.b")]  # noqa
                with open(path, "a") as f:
                    f.write(json.dumps(dict(sim=name, seed=seed is None or draw(args._rngs) == draw(PerModuleRNG(seed)), cam=sconfigs.fov.camera_model, cwd=os.getcwd(), set=dict(
                        c=args.configfile, o=args.outpath, ob=args.orbinfile, p=args.paramsinput, pd=args.pointing_database, er=args.input_ephemeris_file, ew=args.output_ephemeris_file,
                        ar=args.ar_data_file_path, cp=args.complex_parameters, s=args.surveyname, t=args.outfilestem, st=args.stats, vd=args.visits))) + "\n")
            return go
        sorcha.sorcha.runLSSTSimulation = sim("lsst")
        sorcha.des.runDESSimulation = sim("des")
    return inject


keep = []


def prepare(k, cmd, rng):
    """The files and words of one invocation."""
    d = env.scratch("line")
    sv = "DES" if cmd["survey"] in ("DES", "des") else "rubin_sim"
    names = dict(c="conf.ini", ob="orb its.txt", p="phys.txt", pd="pointing.db", er="eph.csv", cp="complex.txt", vd="visits.db", o="out", ar="aux data")
    conf = dict(INPUT=dict(ephemerides_type=cmd["eph"]), FOV=dict(camera_model=cmd["cam"]))
    if cmd["cam"] == "visits_footprint":
        conf["FOV"]["visits_query"] = "SELECT 1"
    if cmd["cam"] == "circle":
        conf["FOV"].update(circle_radius="1.75")
    if cmd["eph"] == "ar":
        conf["SIMULATION"] = dict(ar_ang_fov="2.06", ar_fov_buffer="0.2", ar_picket="1", ar_obs_code="X05", ar_healpix_order="6")
    if cmd["lc"]:
        conf["LIGHTCURVE"] = dict(lc_model="verif_lc")
    if cmd["ca"]:
        conf["ACTIVITY"] = dict(comet_activity="verif_ca")
    for o, n in names.items():
        if o in ("o", "ar"):
            os.makedirs(os.path.join(d, n))
        elif o == "c":
            pl.write_ini(os.path.join(d, n), pl.merge_config(pl.base_config(sv), conf))
        else:
            open(os.path.join(d, n), "w").write(o)
    value = {o: os.path.join(d, n) if rng.random() < .7 else n for o, n in names.items()}
    for o in cmd["gone"]:
        value[o] = os.path.join(d, "no", "such")
    value.update(s=cmd["survey"], t=str(rng.choice(["stem", "a.b", "it s"])), st="sta ts", ew="e.w")
    if cmd["shared"]:
        (a, b) = [("st", "t"), ("ew", "t"), ("st", "ew")][int(rng.integers(3)) if cmd["eph"] == "ar" else 0]
        cmd["given"] = sorted(set(cmd["given"]) | {a, b})
        value[a] = value[b]
    words = []
    for o in rng.permutation(sorted(cmd["given"])):
        n = str(rng.choice(SPELL[o]))
        words.append([f"{n}={value[o]}"] if n.startswith("--") and rng.random() < .3 else [n, value[o]])
    for flag in (["-f", "--force"], ["-l", "--log-level"]):
        if rng.random() < .2:
            words.insert(int(rng.integers(0, len(words) + 1)), [str(rng.choice(flag))])
    return d, value, [x for w in words for x in w]


def command(ck, k, cmd, rng):
    cmd = dict(cmd, given=sorted(cmd["given"]), gone=sorted(cmd["gone"]))
    d, value, words = prepare(k, cmd, rng)
    seed = [None, None, None, 0, 1, 2 ** 31, 2 ** 32 + 5, int(rng.integers(0, 2 ** 32))][int(rng.integers(8))]
    rec = os.path.join(d, "started")
    return cmd, d, value, words, seed, rec, cli.start("run", words, cwd=d, inject=stub(rec, seed), env_vars={} if seed is None else dict(SORCHA_SEED=str(seed)))


def judge(ck, case, cmd, d, value, words, seed, rec, r):
    started = [json.loads(x) for x in open(rec)] if os.path.exists(rec) else []
    got = {}
    if started:
        for o, x in started[0]["set"].items():
            if x is None or x == "":
                got[o] = ""
            elif o in ("s", "t", "st", "ew"):
                own = [p for p in ("s", "t", "st", "ew") if value[p] == x and p in cmd["given"]]
                got[o] = o if o in own else own[0] if own else x
            else:
                real = lambda p: os.path.realpath(os.path.join(d, p))  # noqa
                own = [p for p in value if p not in ("s", "t", "st", "ew") and real(value[p]) == real(x)]
                got[o] = own[0] if own else x
        if started[0]["cam"] != cmd["cam"]:
            got["c"] = "another configuration"
    ck.event("TraceCommand", dict(ev="run", cmd=cmd, status=r.code, raised=r.raised or "", started=[s["sim"] for s in started], set=got, seed=all(s["seed"] for s in started), words=words,
                                  say=(r.err or r.out)[-300:]), case)
    ck.notes["runs_started" if started else "runs_refused"] = ck.notes.get("runs_started" if started else "runs_refused", 0) + 1


def runs(ck, scn, part):
    rng = np.random.default_rng([env.SEED, 27, 2, part])
    live = []
    for k, s in enumerate(scn):
        c = dict(s)
        given = set(c["given"])
        for o in ("ar", "t"):  # options the model leaves out
            if rng.random() < .4:
                given.add(o)
        c["given"] = sorted(given)
        if rng.random() < .08 and not wrong(s):
            c["gone"] = [str(rng.choice(["c", "o", "pd", "ob", "p", "vd", "ar"]))]
        if rng.random() < .05 and not wrong(s):
            c["given"] = sorted(given - {str(rng.choice(["c", "o", "pd", "p"]))})
        if c["cam"] == "circle":
            c["cam"] = str(rng.choice(["circle", "none", "footprint"]))
        if c["survey"] in ("DES", "rubin_sim") and "s" in given and rng.random() < .3:
            c["survey"] = dict(DES="des", rubin_sim="RUBIN_SIM")[c["survey"]]
        if rng.random() < .06:
            c["shared"] = True
        live.append((f"run/{part}.{k}", command(ck, k, c, rng)))
        if len(live) > 2:
            case, x = live.pop(0)
            judge(ck, case, *x[:-1], x[-1].wait())
    for case, x in live:
        judge(ck, case, *x[:-1], x[-1].wait())


# ---- the other commands ----
def hashes(top):
    return {os.path.relpath(os.path.join(p, f), top): hashlib.sha1(open(os.path.join(p, f), "rb").read()).hexdigest() for p, _, fs in os.walk(top) for f in fs}


def cite(ck):
    printed = cli.run("cite", ["-p"])
    if printed.code != 0 or len(printed.out) < 500:
        ck.fail("cite/print", "written-as-printed", printed.err[-300:])
    for k, (args, ok) in enumerate([([], True), (["-o", "sub"], True), (["--outfile", "o[1] b"], True), (["-o", "nowhere"], False), (["-o", "file.txt"], False)]):
        for old in (False, True):
            top = env.scratch("cite")
            for n in ("sub", "o[1] b"):
                os.makedirs(os.path.join(top, n))
            open(os.path.join(top, "file.txt"), "w").write("mine")
            tgt = os.path.join(args[1] if args and ok else "", "sorcha_citation.txt")
            if old and ok:
                open(os.path.join(top, tgt), "w").write(printed.out * 2)
            b = hashes(top)
            r = cli.run("cite", args, cwd=top)
            a = hashes(top)
            f = os.path.join(top, tgt)
            ck.event("TraceCommand", dict(ev="file", asked=ok, status=r.code, there=os.path.exists(f) if ok else bool(set(a) - set(b)), same=os.path.exists(f) and open(f).read() == printed.out,
                                          others=sorted(x for x in set(a) | set(b) if x != tgt and a.get(x) != b.get(x))), f"cite/{k}/{old}")


def demo(ck):
    import re
    r = cli.run("demo", ["howto"])
    lines = [re.sub(r"\x1b\[[0-9;]*m", "", x).strip() for x in r.out.splitlines()]
    cmds = [shlex.split(x) for x in lines if x.startswith("sorcha run ")]
    top = env.scratch("demo")
    data = os.path.join(env.REPO, "src", "sorcha", "data", "demo")
    for n in os.listdir(data):
        if os.path.isfile(os.path.join(data, n)):
            shutil.copy(os.path.join(data, n), top)
    db = [c[i + 1] for c in cmds for i, x in enumerate(c) if x in ("--pd", "--pointing-db")]
    for n in db:  # (the visit database of the demo is not in this repository's tree)
        open(os.path.join(top, n), "a").close()
    rec = os.path.join(top, "started")
    s = cli.run("run", cmds[0][2:], cwd=top, inject=stub(rec, None)) if len(cmds) == 1 else None
    ck.event("TraceCommand", dict(ev="demo", status=s.code if s else -1, started=[json.loads(x)["sim"] for x in open(rec)] if os.path.exists(rec) else [], say=str(s)[-300:]), "demo/howto")


def refusals(ck):
    """Commands that cannot or must not do what they are asked."""
    def go(case, module, argv, files=(), stdin=""):
        top = env.scratch("refuse")
        for n in files:
            os.makedirs(os.path.dirname(os.path.join(top, n)), exist_ok=True)
            open(os.path.join(top, n), "w").write("x INFO Sorcha process is completed. \n" if n.endswith("log") else "mine")
        r = cli.run(module, argv, cwd=top, stdin=stdin)
        ck.event("TraceCommand", dict(ev="refuse", status=r.code, say=(r.err or r.out)[-200:]), f"refuse/{case}")
    go("check-logs-existing", "outputs", ["check-logs", "-f", ".", "-o", "rep"], ["a-sorcha.log", "rep.csv"])
    go("check-logs-existing-csv", "outputs", ["check-logs", "-f", ".", "-o", "rep.csv"], ["a-sorcha.log", "rep.csv"])
    go("check-logs-no-directory", "outputs", ["check-logs", "-f", "nowhere"])
    go("check-logs-no-logs", "outputs", ["check-logs", "-f", "."])
    go("check-logs-no-target", "outputs", ["check-logs", "-f", ".", "-o", "nowhere/rep"], ["a-sorcha.log"])
    go("check-logs-nothing", "outputs", ["check-logs"])
    go("sqlite-no-inputs", "outputs", ["create-sqlite", "-o", "all.db", "-i", "nowhere", "-r", "."], ["r/a.txt"])
    go("sqlite-no-results", "outputs", ["create-sqlite", "-o", "all.db", "-i", ".", "-r", "nowhere"], ["params.txt", "orbits.txt"])
    go("sqlite-no-databases", "outputs", ["create-sqlite", "-o", "all.db", "-i", "in", "-r", "r"], ["in/params.txt", "in/orbits.txt", "r/notes"])
    go("sqlite-missing-option", "outputs", ["create-sqlite", "-o", "all.db"])
    go("outputs-unknown", "outputs", ["create"])
    for n in ("0", "6", "abc", "", "-1", "1.5"):
        go(f"init-choice-{n}", "init", ["-p", "."], stdin=n + "\n")
    go("init-no-directory", "init", ["-p", "nowhere"], stdin="1\n")
    go("init-existing", "init", ["-p", "."], ["Rubin_full_footprint.ini"], stdin="2\n")
    go("demo-existing", "demo", ["prepare", "-p", "."], ["sorcha_config_demo.ini"])
    go("demo-no-directory", "demo", ["prepare", "-p", "nowhere"])
    go("demo-unknown", "demo", ["how"])
    go("cite-unknown", "cite", ["now"])
    go("bootstrap-unknown", "bootstrap", ["now"])


def collect(ck):
    cli.warm()
    import sorcha_cmdline.main, sorcha_cmdline.cite, sorcha_cmdline.demo, sorcha_cmdline.init, sorcha_cmdline.bootstrap  # noqa
    scn, st = tlc.scenarios("Command", "CommandGen.cfg")
    scn = sorted(scn, key=str)
    rng = np.random.default_rng([env.SEED, 27])
    # as many invocations that are right as wrong ones
    pick = [scn[i] for i in rng.permutation(len(scn))]
    ok = [s for s in pick if not wrong(s)]
    n = 1500 if env.THOROUGH else 260
    alone = {}
    for s in pick:
        if len(wrong(s)) == 1:
            alone.setdefault(wrong(s)[0], []).append(s)
    ck.notes["single_faults"] = sorted(alone)
    pick = ok[:n // 2] + [s for s in pick if len(wrong(s)) > 1][:n // 10] + [s for k in sorted(alone) for s in alone[k][:n // 20]]
    ck.notes["invocations_enumerated"] = len(scn)
    parts = 8
    ck.fan([(runs, pick[k::parts], k) for k in range(parts)] + [(verbs,), (cite,), (demo,), (refusals,)])
    ck.mc("Command")
    for v in ("swap", "last", "nocomplex", "anysurvey", "visits", "unchecked"):
        ck.mc("Command", f"CommandX_{v}.cfg", contrast=True)


def wrong(s):
    """What is wrong with it (for a balanced choice only; the specification judges)."""
    g = set(s["given"])
    v = s["cam"] == "visits_footprint"
    return [k for k, x in dict(required={"c", "o", "ob", "p", "pd"} - g, gone=set(s["gone"]) & g, er=s["eph"] == "external" and "er" not in g, lc=s["lc"] and "cp" not in g, ca=s["ca"] and "cp" not in g,
                               vd=v and "vd" not in g, novd="vd" in g and not v, survey=s["survey"] not in ("rubin_sim", "DES"), des=v and s["survey"] != "DES").items() if x]


if __name__ == "__main__":
    check.main("C27", collect, ["the simulation itself is replaced by a stand-in that records what it was started with"])
