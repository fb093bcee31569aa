"""Skeleton of a check: collect events from the real code, model-check the specification, validate the trace,
report violations and known findings, write evidence."""
import json
import os
import pickle
import re
import sys
import threading
import time
import traceback

from . import env, tlc


def _some(new, each=8, total=60):
    """The first few failures of every kind."""
    n, out = {}, []
    for x in new:
        n[x[:2]] = n.get(x[:2], 0) + 1
        if n[x[:2]] <= each and len(out) < total:
            out.append(x)
    return out


class Check:
    def __init__(self, pid, assumptions=()):
        self.pid = pid
        self.t0 = time.time()
        self.traces = {}  # module -> list of events
        self.states = self.transitions = self.validated = 0
        self.samples = []
        self.viol = []  # (case, clause, detail)
        self.mcs = []
        self.threads = []
        self.assumptions = list(assumptions)
        self.notes = {}
        self.cases = {}

    # -- model checking ------------------------------------------------------------------------------
    def mc(self, module, cfg=None, allow_vacuous=(), contrast=False, **kw):
        """Start exhaustive checking of a model in the background.  contrast: a deliberately faulty variant, whose
        properties must be violated (so they are not vacuous)."""
        box = {}

        def go():
            try:
                box["r"] = tlc.model_check(module, cfg, **kw)
            except Exception as e:  # noqa
                box["e"] = e

        th = threading.Thread(target=go)
        th.start()
        self.threads.append((module, cfg, th, box, set(allow_vacuous), contrast))

    # -- conformance -----------------------------------------------------------------------------------
    def event(self, module, ev, case, replay=None):
        """One recorded event of the real code, to be judged by spec/<module>.tla."""
        ev = dict(ev)
        self.traces.setdefault(module, []).append((ev, case, replay))

    def fail(self, case, clause, detail=None):
        self.viol.append((case, clause, detail))

    def observe(self, case, fn, *a, **k):
        """Run fn, which drives the code under test.  An exception that passes through the code under test's own
        frames is the code's answer (a failing clause); anything else is an error of this harness."""
        try:
            return fn(*a, **k)
        except tlc.TLCError:
            raise
        except Exception as e:  # noqa
            tb = traceback.extract_tb(e.__traceback__)
            if any(os.path.join(env.REPO, "src") in f.filename for f in tb):
                self.fail(case, "unexpected-exception", "".join(traceback.format_exception(e))[-1500:])
                return None
            raise

    def fan(self, tasks, width=8):
        """Run each task (fn, args...) as fn(part, args...) in a forked process, part being an empty check whose events
        are then taken over in task order.  Call before mc (no threads while forking)."""
        assert not self.threads
        todo, live, done = list(enumerate(tasks)), {}, {}
        while todo or live:
            while todo and len(live) < width:
                k, t = todo.pop(0)
                path = os.path.join(env.scratch("part"), "p")
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    rc = 0
                    try:
                        env.child()
                        part = Check(self.pid)
                        try:
                            t[0](part, *t[1:])
                            res = ("ok", part.traces, part.viol, part.notes, part.samples)
                        except BaseException as e:  # noqa
                            tb = traceback.extract_tb(e.__traceback__)
                            mine = any(os.path.join(env.REPO, "src") in f.filename for f in tb)
                            res = ("error", mine, traceback.format_exc())
                        with open(path, "wb") as f:
                            pickle.dump(res, f)
                    except BaseException:  # noqa
                        traceback.print_exc()
                        rc = 3
                    finally:
                        sys.stdout.flush()
                        sys.stderr.flush()
                        os._exit(rc)
                live[pid] = (k, path)
            pid, st = os.wait()
            if pid not in live:
                continue
            k, path = live.pop(pid)
            if st != 0 or not os.path.exists(path):
                raise tlc.TLCError(f"part {k} of the check died ({st})")
            with open(path, "rb") as f:
                done[k] = pickle.load(f)
            if done[k][0] == "error":
                # the code under test failed where this harness did not expect it to: that is its answer
                if not done[k][1]:
                    raise tlc.TLCError(f"part {k} of the check:\n{done[k][2]}")
                self.fail(f"part-{k}", "unexpected-exception", done[k][2][-1500:])
                done[k] = ("ok", {}, [], {}, [])
        for k in sorted(done):
            _, traces, viol, notes, samples = done[k]
            for m, ev in traces.items():
                self.traces.setdefault(m, []).extend(ev)
            self.viol.extend(viol)
            self.samples.extend(samples)
            for n, v in notes.items():
                self.notes[n] = self.notes.get(n, 0) + v if isinstance(v, (int, float)) else v

    def finish(self):
        for module, items in self.traces.items():
            evs = [it[0] for it in items]
            bad, st, tr = tlc.validate(module, evs)
            self.states += st
            self.transitions += tr
            self.validated += len(evs)
            for i, clause in bad:
                ev, case, replay = items[i]
                self.fail(case, clause, dict(module=module, event=tlc.clean(ev), replay=replay))
            step = max(1, len(evs) // 3)
            for it in items[::step][:3]:
                s = json.dumps(tlc.clean(it[0]))
                self.samples.append(dict(trace=module, case=it[1], event=s if len(s) < 600 else s[:600] + "..."))
        for module, cfg, th, box, allow, contrast in self.threads:
            th.join()
            if "e" in box:
                raise box["e"]
            r = box["r"]
            self.states += r["states"]
            self.transitions += r["transitions"]
            vac = [v for v in r["vacuous"] if v not in allow and v not in ("Init",)]
            self.mcs.append(dict(model=module, cfg=cfg or module + ".cfg", states=r["states"],
                                 transitions=r["transitions"], ok=r["ok"], wall_s=round(r["wall"], 1),
                                 actions_never_taken=vac))
            if contrast:
                self.mcs[-1]["contrast"] = True
                if r["ok"]:
                    raise tlc.TLCError(f"the faulty variant {cfg} of {module} violates nothing")
                continue
            if not r["ok"]:
                raise tlc.TLCError(f"the model {module} does not satisfy its own properties:\n" + r["out"][-3000:])
            if vac:
                raise tlc.TLCError(f"the model {module} has actions that are never taken: {vac}")
        known = self._known()
        shown, new = {}, []
        for case, clause, detail in self.viol:
            k = next((k for k in known if re.fullmatch(k["case"], case) and re.fullmatch(k["clause"], clause)), None)
            if k is not None:
                shown[k["id"]] = k
            else:
                new.append((case, clause, detail))
        for k in shown.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        rc = 0
        rp = os.path.join("evidence", f"{self.pid}-replay.json")
        if not new and os.path.exists(os.path.join(env.VERIF, rp)):
            os.remove(os.path.join(env.VERIF, rp))
        if new:
            rc = 1
            with open(os.path.join(env.VERIF, rp), "w") as f:
                json.dump(dict(property=self.pid, seed=env.SEED, tier=env.TIER, failures=[
                    dict(case=c, clause=cl, detail=d) for c, cl, d in _some(new)], total=len(new)), f, indent=1,
                    default=str)
            seen = set()
            for c, cl, _ in new:
                if (c, cl) not in seen and len(seen) < 8:
                    seen.add((c, cl))
                    print(f"  {self.pid}: case {c}: clause {cl} fails")
            print(f"VIOLATION property={self.pid} replay={rp}")
        self._evidence(len(new))
        return rc

    def _known(self):
        p = os.path.join(env.VERIF, "known_findings.json")
        if not os.path.exists(p):
            return []
        with open(p) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == self.pid and k["status"] == "open"]

    def _evidence(self, nviol):
        ev = dict(property=self.pid, tier="thorough" if env.THOROUGH else "quick", seed=env.SEED, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.validated,
                                samples=self.samples or [dict(note="none")], models=self.mcs, **self.notes),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=nviol)
        os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(env.VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)


def main(pid, collect, assumptions=()):
    """collect(check): run the real code and record events."""
    ck = Check(pid, assumptions)
    try:
        try:
            collect(ck)
        except tlc.TLCError:
            raise
        except Exception as e:  # noqa
            tb = traceback.extract_tb(e.__traceback__)
            if any(f.filename.startswith(os.path.join(env.REPO, "src")) for f in tb):
                ck.fail("collect", "unexpected-exception", "".join(traceback.format_exception(e))[-2500:])
                traceback.print_exc()
            else:
                raise
        rc = ck.finish()
    except Exception:  # noqa
        traceback.print_exc()
        for _, _, th, *_ in ck.threads:
            th.join()
        rc = 2
    sys.stdout.flush()
    env._cleanup()
    os._exit(rc)
