"""Runs a command of the tool in a child process, as the command line does (the libraries are loaded once, before forking)."""
from . import env
import importlib
import os
import signal
import sys
import time
import traceback


class Done:
    def __init__(self, code, out, err, raised):
        self.code, self.out, self.err = code, out, err
        self.raised = raised  # an exception nobody caught (its type's name), or None
        self.refused = code not in (0, None) and raised is None

    def __repr__(self):
        return f"<code {self.code} raised {self.raised} {self.out[-300:]} {self.err[-300:]}>"


def warm():
    import sorcha.sorcha, sorcha.des  # noqa
    import sorcha_cmdline.run, sorcha_cmdline.outputs  # noqa


def start(module, argv, cwd=None, inject=None, stdin="", env_vars=None, prog=None, timeout=300):
    """sorcha_cmdline.<module>.main() with the arguments; inject: called in the child just before."""
    d = env.scratch("cli")
    fo, fe, fx = (os.path.join(d, n) for n in ("out", "err", "raised"))
    with open(os.path.join(d, "in"), "w") as f:
        f.write(stdin)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            for k, fn, mode in ((0, os.path.join(d, "in"), os.O_RDONLY), (1, fo, os.O_WRONLY | os.O_CREAT), (2, fe, os.O_WRONLY | os.O_CREAT)):
                h = os.open(fn, mode)
                os.dup2(h, k)
            sys.stdin = os.fdopen(0, "r")
            sys.stdout = os.fdopen(1, "w")
            sys.stderr = os.fdopen(2, "w")
            os.chdir(cwd or d)
            os.environ.pop("SORCHA_SEED", None)
            os.environ.update(env_vars or {})
            import logging
            import warnings
            warnings.simplefilter("ignore")
            logging.getLogger().handlers[:] = []
            sys.argv = [prog or f"sorcha {module}", *map(str, argv)]
            m = importlib.import_module("sorcha_cmdline." + module)
            if inject:
                inject()
            m.main()
        except SystemExit as e:
            sys.setprofile(None)
            code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            if not isinstance(e.code, (int, type(None))):
                print(e.code, file=sys.stderr)
        except BaseException as e:  # noqa
            sys.setprofile(None)
            code = 1
            with open(fx, "w") as f:
                f.write(type(e).__name__)
            traceback.print_exc()
        finally:
            try:
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(code & 255)
    return _Child(pid, (fo, fe, fx), timeout, f"{module} {argv}")


class _Child:
    def __init__(self, pid, files, timeout, what):
        self.pid, self.files, self.t0, self.timeout, self.what = pid, files, time.time(), timeout, what

    def wait(self):
        while True:
            p, st = os.waitpid(self.pid, os.WNOHANG)
            if p:
                break
            if time.time() - self.t0 > self.timeout:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
                raise TimeoutError(self.what)
            time.sleep(.005)
        code = os.waitstatus_to_exitcode(st)
        rd = lambda p: open(p, errors="replace").read() if os.path.exists(p) else ""
        fo, fe, fx = self.files
        return Done(code, rd(fo), rd(fe), rd(fx) or None)


def run(*a, **k):
    return start(*a, **k).wait()


def many(jobs, width=6):
    """jobs: list of (args, kwargs) of start; results in order, at most width children at a time."""
    out, live = [None] * len(jobs), []
    for i, (a, k) in enumerate(jobs):
        if len(live) >= width:
            j, c = live.pop(0)
            out[j] = c.wait()
        live.append((i, start(*a, **k)))
    for j, c in live:
        out[j] = c.wait()
    return out


def sorcha_run(sc_args, conf_ini, *more):
    """The command line of `sorcha run` for what harness.pipeline.setup has written."""
    a = ["-c", conf_ini, "-o", sc_args["outpath"], "--ob", sc_args["orbinfile"], "-p", sc_args["paramsinput"], "--pd", sc_args["pointing_database"],
         "-s", sc_args["surveyname"], "-t", sc_args["outfilestem"]]
    for k, f in (("input_ephemeris_file", "--er"), ("output_ephemeris_file", "--ew"), ("ar_data_path", "--ar"), ("complex_physical_parameters", "--cp"), ("stats", "--st"),
                 ("visits_database", "--vd")):
        if sc_args.get(k):
            a += [f, sc_args[k]]
    return [*a, *more]
