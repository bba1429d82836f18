"""Shared explorer.

A check is a module in /verif/checks with a ``PROPERTY`` id and a function
``parts(tier)`` returning a list of ``Part``.  A part is a finite, completely
enumerated set of *traces*; every trace is executed against the real code in
/repo by ``part.fn(trace, case)``.  Inside, the harness

* calls ``t.op(...)`` once for each operation of the real code it executes
  (a transition),
* calls ``t.state(...)`` with a canonical form of every state it observes
  (used to count distinct states),
* calls ``t.fail(msg)`` when the observed behaviour differs from the reference
  model.

The explorer runs all cases (no sampling, no early cut-off by time), distributes
them over forked workers, turns the death or hang of a worker into a violation
of the case being executed, matches violations with known_findings.txt,
writes replay files and the evidence file.
"""

import argparse
import base64
import contextlib
import hashlib
import importlib
import io
import itertools
import json
import multiprocessing
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")  # override: development in a clone
_ctx = multiprocessing.get_context("fork")


class Violation(Exception):
    pass


class Skip(Exception):
    """The case is outside the quantifier (counted, never silently dropped)."""


class CaseTimeout(BaseException):
    pass


# --------------------------------------------------------------------------
# canonical forms
# --------------------------------------------------------------------------
def canon_hash(*objs):
    h = hashlib.blake2b(digest_size=12)
    for o in objs:
        _feed(h, o)
    return h.hexdigest()


def _feed(h, o):
    import numpy as np

    if isinstance(o, np.ndarray):
        h.update(b"A" + str(o.dtype).encode() + str(o.shape).encode())
        if o.dtype == object:
            for x in o.ravel():
                _feed(h, x)
        else:
            h.update(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, dict):
        h.update(b"D")
        for k in sorted(o, key=str):
            _feed(h, str(k))
            _feed(h, o[k])
    elif isinstance(o, (list, tuple)):
        h.update(b"L" if isinstance(o, list) else b"T")
        for x in o:
            _feed(h, x)
    elif isinstance(o, (bytes, bytearray)):
        h.update(b"B" + bytes(o))
    else:
        h.update(("%s:%r" % (type(o).__name__, o)).encode("utf8", "replace"))


class Trace:
    """Handed to the harness for one case."""

    def __init__(self, scratch):
        self.ops = 0
        self.checks = 0
        self.states = set()
        self.dir = scratch
        self.nontrivial = True
        self.history = []

    def op(self, what=None, n=1):
        self.ops += n
        if what is not None and len(self.history) < 200:
            self.history.append(str(what))

    def state(self, *objs):
        self.states.add(canon_hash(*objs))

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        self.checks += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def path(self, name):
        return os.path.join(self.dir, name)

    def cleanup(self):
        for e in os.scandir(self.dir):
            if e.is_dir(follow_symlinks=False):
                shutil.rmtree(e.path, ignore_errors=True)
            else:
                with contextlib.suppress(OSError):
                    os.unlink(e.path)


class Part:
    def __init__(self, name, cases, fn, bounds="", timeout=120, setup=None,
                 workers=None, finish=None):
        self.name = name
        self.cases = list(cases)
        self.fn = fn
        self.bounds = bounds
        self.timeout = timeout
        self.setup = setup
        self.workers = workers
        self.finish = finish


def product(**dims):
    """All combinations of the given dimensions, as dicts, simplest first."""
    keys = list(dims)
    return [dict(zip(keys, v)) for v in itertools.product(*dims.values())]


# --------------------------------------------------------------------------
# running
# --------------------------------------------------------------------------
def _alarm(signum, frame):
    raise CaseTimeout()


def _short(tb, n=14):
    lines = tb.strip().splitlines()
    return "\n".join(lines[-n:])


def run_case(part, case, scratch):
    """Returns dict(status, msg, ops, states, checks)."""
    t = Trace(scratch)
    t.cleanup()
    status, msg = "ok", ""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(part.timeout)
    cwd = os.getcwd()
    buf = io.StringIO()
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(buf), \
                contextlib.redirect_stderr(buf):
            warnings.simplefilter("ignore")
            part.fn(t, case)
    except Skip as e:
        status, msg = "skip", str(e)
    except Violation as e:
        status, msg = "bad", str(e)
    except CaseTimeout:
        status, msg = "bad", "no answer within %d s (hang)" % part.timeout
    except MemoryError:
        status, msg = "bad", "MemoryError\n" + _short(traceback.format_exc())
    except (Exception, SystemExit) as e:
        status = "bad"
        msg = "unexpected %s: %s\n%s" % (
            type(e).__name__, e, _short(traceback.format_exc()))
    finally:
        signal.alarm(0)
        os.chdir(cwd)
    return dict(status=status, msg=msg, ops=t.ops, states=t.states,
                checks=t.checks, nontrivial=t.nontrivial, history=t.history)


def _worker(part, indices, scratch, conn):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch + "/..")
    work = os.path.join(scratch, "w")
    os.makedirs(work, exist_ok=True)
    try:
        if "VERIF_COV" in os.environ:
            from mc import cov

            cov.start(REPO)
        if part.setup is not None:
            part.setup(scratch)
        for i in indices:
            conn.send(("start", i))
            conn.send(("done", i, run_case(part, part.cases[i], work)))
        if "VERIF_COV" in os.environ:
            cov.dump()
        conn.send(("end",))
    except BaseException as e:  # the harness itself failed
        with contextlib.suppress(Exception):
            conn.send(("crash", repr(e) + "\n" + traceback.format_exc()))
    conn.close()
    os._exit(0)


def run_part(part, scratch, nproc, max_bad=int(os.environ.get("VERIF_MAXBAD", "200")), known=()):
    n = len(part.cases)
    nproc = max(1, min(part.workers or nproc, nproc, n))
    # round robin, so simple cases come first in every worker
    queues = [list(range(k, n, nproc)) for k in range(nproc)]
    results = {}
    live = {}
    state = {"bad": 0}

    def launch(k, idx):
        r, w = _ctx.Pipe(False)
        p = _ctx.Process(target=_worker, args=(
            part, idx, os.path.join(scratch, "p%d" % k), w))
        p.start()
        w.close()
        live[k] = dict(p=p, r=r, todo=list(idx), cur=None, t0=time.time())

    for k in range(nproc):
        launch(k, queues[k])
    from multiprocessing.connection import wait
    stop = False
    while live:
        ready = wait([s["r"] for s in live.values()], timeout=5)
        for k in list(live):
            s = live[k]
            died = False
            if s["r"] in ready:
                try:
                    while s["r"].poll():
                        m = s["r"].recv()
                        if m[0] == "start":
                            s["cur"], s["t0"] = m[1], time.time()
                        elif m[0] == "done":
                            results[m[1]] = m[2]
                            s["todo"].remove(m[1])
                            s["cur"] = None
                            if m[2]["status"] == "bad" and not any(
                                    matches(f, part.name, part.cases[m[1]], m[2]["msg"])
                                    for f in known):
                                state["bad"] += 1
                        elif m[0] == "end":
                            s["p"].join()
                            del live[k]
                            break
                        elif m[0] == "crash":
                            raise RuntimeError("harness failed: " + m[1])
                except (EOFError, OSError):
                    died = True
            if k not in live:
                continue
            if not died and s["cur"] is not None and \
                    time.time() - s["t0"] > part.timeout + 60:
                s["p"].kill()
                died = True
            if died:
                s["p"].join()
                cur = s["cur"]
                del live[k]
                if cur is None:
                    raise RuntimeError("worker of %s ended between cases" % part.name)
                results[cur] = dict(
                    status="bad", ops=1, states=set(), checks=1, nontrivial=True,
                    msg="process died or hung (exit %s)" % s["p"].exitcode,
                    history=[])
                state["bad"] += 1
                rest = [i for i in s["todo"] if i != cur]
                if rest and state["bad"] < max_bad:
                    launch(k, rest)
        if state["bad"] >= max_bad and not stop:
            stop = True
            for s in live.values():
                s["p"].kill()
                s["p"].join()
            live.clear()
    return results


# --------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------
def load_findings(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "open":
                    out.append(d)
    return out


def matches(finding, part, case, msg):
    """A finding names a part, the exact inputs (subset of the case's fields,
    each with the list of failing values) and the symptom's text."""
    if finding.get("part") != part:
        return False
    flat = case if isinstance(case, dict) else {"case": case}
    for k, allowed in finding.get("where", {}).items():
        if k not in flat:
            return False
        v = json.loads(json.dumps(flat[k], default=str))
        if v not in allowed:
            return False
    return finding["symptom"] in msg


# --------------------------------------------------------------------------
# main
# --------------------------------------------------------------------------
def make_scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    try:
        if shutil.disk_usage(base).free < 2 << 30:
            base = tempfile.gettempdir()
    except OSError:
        base = tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="rsciio-mc-", dir=base)


def replay_file(prop, i, part, case, res):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, i))
    with open(path, "w") as f:
        json.dump(dict(
            property=prop, part=part.name, case=repr(case)[:4000], message=res["msg"],
            operations=res["history"],
            pickle=base64.b64encode(pickle.dumps(case)).decode(),
            how="cd /verif && ./check.sh %s --replay %s" % (prop, path)), f, indent=1)
    return path


def load_check(prop):
    for fn in sorted(os.listdir(os.path.join(VERIF, "checks"))):
        if fn.lower().startswith(prop.lower() + "_") and fn.endswith(".py"):
            return importlib.import_module("checks." + fn[:-3])
    raise SystemExit("no check for " + prop)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run only the parts whose name contains this")
    ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = make_scratch()
    os.environ["NUMBA_CACHE_DIR"] = os.path.join(scratch, "numba")
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    os.environ["HOME"] = scratch
    me = os.getpid()

    def end(*_):
        if os.getpid() == me:
            shutil.rmtree(scratch, ignore_errors=True)
            os._exit(3)

    signal.signal(signal.SIGTERM, end)
    try:
        return _main(a, seed, t0, scratch)
    finally:
        if os.getpid() == me:
            shutil.rmtree(scratch, ignore_errors=True)


def _main(a, seed, t0, scratch):
    import logging

    sys.path.insert(0, REPO)
    sys.path.insert(0, VERIF)
    import dask

    dask.config.set(scheduler="synchronous")
    import rsciio

    logging.disable(logging.CRITICAL)
    if not os.path.abspath(rsciio.__file__).startswith(REPO + "/"):
        raise SystemExit("rsciio is not imported from /repo")
    prop = a.property
    mod = load_check(prop)
    mod.SCRATCH = scratch
    if hasattr(mod, "prepare"):
        mod.prepare(scratch)
    parts = mod.parts(a.tier)

    if a.replay:
        rec = json.load(open(a.replay))
        part = next(p for p in parts if p.name == rec["part"])
        case = pickle.loads(base64.b64decode(rec["pickle"]))
        part.cases = [case]
        res = run_part(part, os.path.join(scratch, "replay"), 1)[0]
        print("replay:", res["status"], res["msg"])
        return 1 if res["status"] == "bad" else 0

    findings = load_findings(prop)
    used = {}
    states, samples, bounds = set(), [], {}
    ops = traces = skipped = nontriv = checks = 0
    viol = []
    exhaustive = True
    for part in parts:
        if a.only and a.only not in part.name:
            continue
        if viol and "VERIF_MAXBAD" in os.environ:  # measuring the sensitivity
            break
        tp = time.time()
        res = run_part(part, os.path.join(scratch, "part-" + part.name.replace("/", "_")), a.j, known=findings)
        if len(res) != len(part.cases):
            exhaustive = False
        nb = 0
        pst = set()
        for i in sorted(res):
            r = res[i]
            ops += r["ops"]
            checks += r["checks"]
            pst |= r["states"]
            if r["status"] == "skip":
                skipped += 1
                continue
            traces += 1
            nontriv += bool(r["nontrivial"] and r["states"])
            if r["status"] == "bad":
                f = next((f for f in findings
                          if matches(f, part.name, part.cases[i], r["msg"])), None)
                if f is not None:
                    used.setdefault(f["id"], [f, 0])[1] += 1
                else:
                    viol.append((part, part.cases[i], r))
                    nb += 1
        states |= pst
        if part.cases:
            k = len(part.cases) // 2
            samples.append("%s: %r" % (part.name, part.cases[k]))
        bounds[part.name] = "%d traces, %d distinct states; %s" % (
            len(res), len(pst), part.bounds)
        shutil.rmtree(os.path.join(scratch, "part-" + part.name.replace("/", "_")),
                      ignore_errors=True)
        print("%-28s traces=%-6d states=%-6d bad=%-4d %.1fs" % (
            part.name, len(res), len(pst), nb, time.time() - tp), flush=True)
    for f, n in used.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    for i, (part, case, r) in enumerate(viol[:400 if a.v else 12]):
        path = replay_file(prop, i, part, case, r)
        print("  part %s case %s\n    %s" % (
            part.name, repr(case)[:600],
            r["msg"][:1500].replace("\n", "\n    ")))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    level = getattr(mod, "LEVEL", "model_checking")
    cov = dict(samples=[s[:600] for s in samples], bounds=bounds,
               exhaustive=exhaustive and not a.only, skipped_outside_quantifier=skipped,
               comparisons=checks)
    if level == "model_checking":
        cov.update(states=len(states), transitions=ops,
                   traces_validated_against_impl=traces)
    else:
        cov.update(evaluations=traces, distinct_nontrivial=min(len(states), nontriv)
                   if level == "exploration" else nontriv,
                   rule=getattr(mod, "RULE", "every enumerated case; non-trivial: it "
                                "executed the code and produced an observed state"),
                   operations=ops, states=len(states))
    ev = dict(property=prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick",
              seed=seed, level=level, coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s %s: %d traces, %d states, %d operations, %d violations, %.1f s" % (
        prop, a.tier, traces, len(states), ops, len(viol), time.time() - t0))
    return 1 if viol else 0
