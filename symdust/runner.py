"""Runs the cases of one property check."""

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DUSTMAKER_REPO", "/repo")
REAL_PY = "/opt/venv/bin/python"
if not os.path.exists(REAL_PY):
    REAL_PY = sys.executable

TIERS = {
    # wall budget for the exploration, per case budget, validated paths per case
    "quick": {"wall": 400.0, "case": 120.0, "validate": 2},
    "thorough": {"wall": 780.0, "case": 600.0, "validate": 6},
}


def replay_cmd(path):
    return [REAL_PY, "-B", os.path.join(VERIF, "symdust", "replay_server.py"), path]


class ReplayClient:
    """Persistent process running harnesses on the unmodified code."""

    def __init__(self):
        self.proc = None

    def _start(self):
        env = dict(os.environ)
        env["DUSTMAKER_REPO"] = REPO
        env["PYTHONHASHSEED"] = "0"
        self.proc = subprocess.Popen(
            [REAL_PY, "-B", os.path.join(VERIF, "symdust", "replay_server.py")],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
            env=env, text=True,
        )

    def run(self, module, case, inputs):
        """-> (status, message); status ok / fail / assume / timeout / error"""
        for _ in range(2):
            if self.proc is None or self.proc.poll() is not None:
                self._start()
            try:
                self.proc.stdin.write(
                    json.dumps({"module": module, "case": case, "inputs": inputs}) + "\n"
                )
                self.proc.stdin.flush()
                line = self.proc.stdout.readline()
                if line:
                    res = json.loads(line)
                    return res["status"], res["message"]
            except (OSError, ValueError):
                pass
            self.close()
        return "error", "replay process died"

    def close(self):
        if self.proc is not None:
            self.proc.kill()
            self.proc.wait()
            self.proc = None


def explore_case(module, case, deadline, opts, client, keeper):
    """Symbolically execute one case; returns a result dict."""
    import z3

    from . import engine as E
    from . import models as M
    from .ctx import make_symbolic

    eng = E.Engine(deadline=deadline, solver_timeout_ms=opts.get("solver_ms", 60000))
    eng.max_steps = opts.get("steps", M.MAX_STEPS)
    eng.on_path_start = keeper.restore
    res = {
        "case": case, "violations": [], "unreproduced": [], "engine_errors": [],
        "validated": 0, "exhausted": True, "samples": [],
    }
    state = {}
    rnd = random.Random(json.dumps(case, sort_keys=True))

    def body(e):
        ctx = make_symbolic(e)
        state["ctx"] = ctx
        state["err"] = None
        try:
            module.run(ctx, dict(case))
        except E.SymControl:
            raise
        except RecursionError as exc:
            state["err"] = ("RecursionError", "recursion")
        except Exception as exc:  # pylint: disable=broad-except
            tb = traceback.format_exc(limit=-6)
            state["err"] = ("%s: %s" % (type(exc).__name__, str(exc)[:200]), tb[-1500:])
        return True

    def candidate(model, kind, msg):
        """Replay a solver model on the real code."""
        inputs = eng.model_values(model)
        status, text = client.run(module.__name__, case, inputs)
        if status in ("fail", "timeout"):
            res["violations"].append(
                {"case": case, "inputs": inputs, "kind": kind, "message": msg, "observed": text}
            )
            return True
        res["unreproduced"].append(
            {"kind": kind, "message": str(msg)[:300], "status": status, "inputs": inputs}
        )
        return False

    def conjuncts(e):
        if z3.is_and(e):
            for c in e.children():
                yield from conjuncts(c)
        else:
            yield e

    def decide(ctx):
        """Discharge the assertions collected on this path."""
        live, seen = [], set()
        for cond, msg in ctx.pending:
            c = z3.simplify(cond)
            if z3.is_true(c):
                eng.st["trivial_assertions"] += 1
                continue
            for part in conjuncts(c):
                k = part.get_id()
                if k not in seen:
                    seen.add(k)
                    live.append((part, msg))
        tried = [0]

        def group(items):
            """True when a violation was confirmed."""
            eng._check_deadline()
            eng.st["assert_queries"] += 1
            single = len(items) == 1
            neg = z3.Not(items[0][0]) if single else z3.Not(z3.And(*[c for c, _ in items]))
            r = eng._check(neg, quick_ms=None if single else opts.get("group_ms", 1500))
            if r == z3.unsat:
                return False
            if r == z3.sat:
                model = eng._model
                msg = ""
                for c, m in items:
                    if z3.is_false(model.eval(c, model_completion=True)):
                        msg = m
                        break
                tried[0] += 1
                if candidate(model, "assertion", msg):
                    return True
                # the model may hinge on an approximation: look further
                if single or tried[0] > 12:
                    res["exhausted"] = False
                    return False
            elif single:
                res["exhausted"] = False
                return False
            h = len(items) // 2
            return group(items[:h]) or group(items[h:])

        size = opts.get("chunk", 1 << 30)
        for i in range(0, len(live), size):
            if group(live[i:i + size]):
                break

    def path_model():
        if eng._check() == z3.sat:
            return eng._model
        return None

    gen = eng.explore(body)
    npath = 0
    for outcome, payload in _safe(gen, eng, res):
        if outcome == "budget":
            res["exhausted"] = False
            break
        if outcome == "steps":
            m = path_model()
            if m is not None:
                candidate(m, "non-termination", "step limit reached")
            res["exhausted"] = False
            if res["violations"]:
                break
            continue
        if outcome == "abort":
            if payload in ("concretisation limit", "merge failure outside speculation"):
                res["exhausted"] = False
            continue
        npath += 1
        ctx = state["ctx"]
        saved = E.Engine.current
        E.Engine.current = eng
        try:
            decide(ctx)
            if state["err"] is not None:
                m = path_model()
                if m is not None:
                    if not candidate(m, "exception", state["err"][0]):
                        res["engine_errors"].append(state["err"])
                        res["exhausted"] = False
            elif npath <= opts["validate"] or (
                npath % 16 == 0 and res["validated"] < 4 * opts["validate"]
            ):
                m = path_model()
                if m is not None:
                    inputs = eng.model_values(m)
                    status, text = client.run(module.__name__, case, inputs)
                    if status in ("fail", "timeout"):
                        res["violations"].append(
                            {"case": case, "inputs": inputs, "kind": "path representative",
                             "message": text, "observed": text}
                        )
                    elif status == "ok":
                        res["validated"] += 1
                        if len(res["samples"]) < 1:
                            res["samples"].append({"case": case, "inputs": _short(inputs)})
        except E.BudgetExceeded:
            res["exhausted"] = False
            break
        finally:
            E.Engine.current = saved
        if res["violations"]:
            break
        if len(res["unreproduced"]) > 40:
            res["exhausted"] = False
            break
    st = dict(eng.st)
    st["functions"] = sorted(st["functions"])
    st["stubs"] = sorted(st["stubs"])
    res["stats"] = st
    res["unreproduced"] = res["unreproduced"][:5]
    res["engine_errors"] = res["engine_errors"][:5]
    return res


def _plain(x):
    if isinstance(x, dict):
        return {k: _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    return x


def _short(inputs):
    items = list(inputs.items())[:24]
    return {k: v for k, v in items}


def _safe(gen, eng, res):
    """Iterate the exploration, turning engine faults into results."""
    from .engine import SymControl
    from .models import StepLimit

    while True:
        try:
            item = next(gen)
        except StopIteration:
            return
        except StepLimit:
            yield "steps", None
            return
        except SymControl as exc:
            res["engine_errors"].append((type(exc).__name__, ""))
            res["exhausted"] = False
            return
        except Exception as exc:  # pylint: disable=broad-except
            res["engine_errors"].append(
                ("%s: %s" % (type(exc).__name__, str(exc)[:200]), traceback.format_exc(limit=-4))
            )
            res["exhausted"] = False
            return
        yield item


def limit_memory():
    """A runaway case must not take the others down with it."""
    try:
        import resource

        total = os.sysconf("SC_PAGE_SIZE") * os.sysconf("SC_PHYS_PAGES")
        n = max(2 << 30, int(total * 0.85) // max(1, int(os.environ.get("VERIF_JOBS", "8"))))
        resource.setrlimit(resource.RLIMIT_AS, (n, n))
    except (ImportError, ValueError, OSError):
        pass


def _worker(modname, cases, conn, deadline, opts):
    """Explore the cases named over `conn`, one at a time."""
    from . import models as M

    if os.environ.get("VERIF_VERBOSE"):
        import faulthandler

        faulthandler.enable()
    sys.setrecursionlimit(20000)
    limit_memory()
    module = sys.modules[modname]
    mods = [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "dustmaker"]
    keeper = M.StateKeeper(mods)
    client = ReplayClient()
    try:
        while True:
            try:
                idx = conn.recv()
            except EOFError:
                break
            if idx is None:
                break
            case = cases[idx]
            t0 = time.time()
            try:
                r = explore_case(
                    module, case, min(deadline, t0 + opts["case"]), opts, client, keeper
                )
            except BaseException as exc:  # pylint: disable=broad-except
                r = failed_case(case, repr(exc)[:300], traceback.format_exc(limit=-6)[-1500:])
            r["wall"] = time.time() - t0
            conn.send(r)
    finally:
        client.close()


def failed_case(case, text, trace=""):
    return {
        "case": case, "violations": [], "unreproduced": [], "validated": 0, "exhausted": False,
        "samples": [], "stats": None, "engine_errors": [(text, trace)], "wall": 0.0,
    }


def load_module(pid):
    """Import the harness of property `pid` with the code instrumented."""
    from . import instrument

    instrument.install({"dustmaker": REPO, "checks": VERIF})
    return importlib.import_module("checks." + pid.lower())


def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, "dustmaker")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py"):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def _explore_all(pid, tier, cases, deadline, opts):
    """Work on all cases in parallel; a worker that dies or hangs is replaced
    and its case tried once more.  Ends early once a violation decided a quick check."""
    from multiprocessing import connection

    ctxm = mp.get_context("fork")
    done, tries = {}, {}
    todo = list(range(len(cases)))[::-1]
    nw = max(1, min(int(os.environ.get("VERIF_JOBS", "8")), len(todo)))
    busy = {}  # connection -> [process, case index, hard limit]

    def spawn():
        ours, theirs = ctxm.Pipe()
        p = ctxm.Process(target=_worker, args=("checks." + pid.lower(), cases, theirs, deadline, opts))
        p.start()
        theirs.close()
        busy[ours] = [p, None, None]
        return ours

    def give(conn):
        if todo and time.time() < deadline:
            idx = todo.pop()
            busy[conn][1:] = [idx, min(deadline, time.time() + opts["case"]) + 60]
            conn.send(idx)
        else:
            busy[conn][1:] = [None, None]
            conn.send(None)
            p = busy.pop(conn)[0]
            p.join(timeout=5)
            if p.is_alive():
                p.kill()
                p.join()
            conn.close()

    def lost(conn, why):
        p, idx, _ = busy.pop(conn)
        p.kill()
        p.join()
        conn.close()
        if os.environ.get("VERIF_VERBOSE"):
            print("worker lost:", why, p.exitcode, cases[idx] if idx is not None else "")
        if idx is not None:
            tries[idx] = tries.get(idx, 0) + 1
            if tries[idx] < 2 and why == "died":
                todo.append(idx)
            else:
                done[idx] = failed_case(cases[idx], "worker " + why)
        if todo and time.time() < deadline:
            start(spawn())

    def start(conn):
        try:
            give(conn)
        except OSError:
            lost(conn, "died")

    for _ in range(nw):
        start(spawn())
    decided = False
    while busy and not decided:
        for conn in connection.wait(list(busy), timeout=1.0):
            idx = busy[conn][1]
            try:
                r = conn.recv()
            except (EOFError, OSError):
                lost(conn, "died")
                continue
            done[idx] = r
            if r["violations"] and tier == "quick":
                for v in r["violations"][:3]:
                    if save_and_confirm(pid, v):
                        decided = True  # one confirmed violation decides the check
                        break
                    v["confirmed"] = False
                if decided:
                    break
            start(conn)
        now = time.time()
        for conn in [c for c, b in busy.items() if b[2] and now > b[2]]:
            lost(conn, "hung")
    for p, _, _ in busy.values():
        p.kill()
        p.join()
    return done


def run_check(pid, tier):
    t0 = time.time()
    opts = dict(TIERS[tier])
    module = load_module(pid)
    opts.update(_plain(getattr(module, "OPTS", {})).get(tier, {}))
    if os.environ.get("VERIF_WALL"):
        opts["wall"] = float(os.environ["VERIF_WALL"])
    cases = [_plain(c) for c in module.cases(tier)]
    deadline = t0 + opts["wall"]
    done = _explore_all(pid, tier, cases, deadline, opts)
    representatives(module, cases, done)
    return finish(pid, tier, module, cases, done, t0)


def representatives(module, cases, done):
    """Cases that could not be explored to the end: at least run the real code on the least inputs."""
    left = [i for i in range(len(cases)) if not (done.get(i) or {}).get("exhausted")]
    if not left or any(r and r["violations"] for r in done.values()):
        return
    client = ReplayClient()
    stop = time.time() + 60
    for i in left:
        if time.time() > stop:
            break
        status, text = client.run(module.__name__, cases[i], {})
        if status == "fail":
            r = done.get(i) or dict(failed_case(cases[i], ""), engine_errors=[])
            r["violations"].append({"case": cases[i], "inputs": {}, "kind": "least inputs", "message": text, "observed": text})
            done[i] = r
            break
    client.close()


def save_and_confirm(pid, v):
    """Keep the counterexample when it fails on the real code in a fresh process too."""
    if v.get("confirmed"):
        return True
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    h = hashlib.sha256(json.dumps([v["case"], v["inputs"]], sort_keys=True).encode()).hexdigest()
    path = os.path.join(evdir, "replay_%s_%s.json" % (pid, h[:10]))
    with open(path, "w") as f:
        json.dump({"property": pid, "module": load_module(pid).__name__, **v}, f, indent=1)
    if confirm(path):
        v["replay"], v["confirmed"] = path, True
        return True
    os.unlink(path)
    return False


def finish(pid, tier, module, cases, done, t0):
    from collections import Counter

    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    tot = Counter()
    funcs, stubs = set(), set()
    viol, unrep, errs, samples = [], [], [], []
    slow = []
    incomplete = []
    validated = 0
    for i, case in enumerate(cases):
        r = done.get(i)
        if r is None:
            incomplete.append(case)
            continue
        if not r["exhausted"]:
            incomplete.append(case)
        if r["stats"]:
            for k, v in r["stats"].items():
                if k == "functions":
                    funcs.update(v)
                elif k == "stubs":
                    stubs.update(v)
                else:
                    tot[k] += v
        viol.extend(r["violations"])
        unrep.extend(r["unreproduced"])
        errs.extend(r["engine_errors"])
        samples.extend(r["samples"])
        validated += r["validated"]
        slow.append((round(r["wall"], 2), case))
    slow.sort(key=lambda x: -x[0])
    confirmed = []
    done_paths = set()
    viol.sort(key=lambda v: v.get("confirmed") is not True)
    for v in viol:
        if len(confirmed) >= 6 or len(done_paths) >= 24:
            break
        key = json.dumps([v["case"], v["inputs"]], sort_keys=True)
        if key in done_paths:
            continue
        done_paths.add(key)
        if v.get("confirmed") is not False and save_and_confirm(pid, v):
            confirmed.append(v)
        else:
            unrep.append({"kind": v["kind"], "case": v["case"], "message": "not reproduced in a fresh process"})
    known = load_known(pid)
    fresh = []
    for v in confirmed:
        k = match_known(known, v)
        if k is None:
            fresh.append(v)
        else:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    bounds = _plain(getattr(module, "BOUNDS", {}))
    bounds = bounds.get(tier, bounds) if isinstance(bounds, dict) else bounds
    wall = time.time() - t0
    functions = sorted(f for f in funcs if f.startswith("dustmaker"))
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "wall_s": round(wall, 2),
        "coverage": {
            "explanation": (
                "Symbolic execution of the current source: %d of %d cases explored exhaustively "
                "within the stated bounds, %d feasible paths, %d assertions (%d decided by "
                "simplification, %d solver assertion queries), %d solver queries, %.1f s solver time."
                % (
                    len(cases) - len(incomplete), len(cases), tot["paths"], tot["assertions"],
                    tot["trivial_assertions"], tot["assert_queries"], tot["queries"], tot["solver_s"],
                )
            ),
            "cases": len(cases),
            "cases_exhausted": len(cases) - len(incomplete),
            "cases_incomplete": incomplete[:10],
            "paths": tot["paths"],
            "assertions": tot["assertions"],
            "assertion_queries": tot["assert_queries"],
            "branch_queries": tot["branch_queries"],
            "queries": tot["queries"],
            "solver_s": round(tot["solver_s"], 2),
            "solver_unknown": tot["unknown"],
            "forks": tot["forks"],
            "merges": tot["merges"],
            "concretisations": tot["concretised"],
            "truncations": tot["truncated"],
            "float_approximations": tot["approx"],
            "functions_encoded": functions,
            "source_tree": tree_hash(),
            "stubs": sorted(stubs),
            "bounds": bounds,
            "outside_bounds": getattr(module, "OUTSIDE", ""),
            "paths_validated_on_real_code": validated,
            "unreproduced_candidates": unrep[:10],
            "engine_errors": [e[0] for e in errs[:10]],
            "samples": samples[:5],
            "slowest_cases": slow[:3],
            "violations": [
                {k: v.get(k) for k in ("case", "inputs", "message", "observed", "replay")}
                for v in confirmed
            ],
        },
    }
    with open(os.path.join(evdir, "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if os.environ.get("VERIF_VERBOSE"):
        print(ev["coverage"]["explanation"])
        for k in ("unreproduced_candidates", "cases_incomplete", "slowest_cases"):
            print(k, str(ev["coverage"][k])[:600])
        for e in errs[:3]:
            print("ENGINE ERROR", e[0], "\n", e[1])
    for v in fresh:
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        print("  case=%s" % json.dumps(v["case"]))
        print("  inputs=%s" % json.dumps(_short(v["inputs"])))
        print("  %s: %s" % (v["kind"], v["observed"]))
    if not fresh:
        print(
            "%s %s: held on everything explored (%d/%d cases exhausted, %d paths, %d queries, %.1fs)"
            % (pid, tier, len(cases) - len(incomplete), len(cases), tot["paths"], tot["queries"], wall)
        )
    return 1 if fresh else 0


def confirm(path):
    """Reproduce a counterexample in a fresh process on the real code."""
    env = dict(os.environ)
    env["DUSTMAKER_REPO"] = REPO
    try:
        r = subprocess.run(
            replay_cmd(path), env=env, timeout=120, stdout=subprocess.PIPE, stderr=subprocess.PIPE
        )
    except subprocess.TimeoutExpired:
        return True
    return r.returncode == 1


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", []) if k["property"] == pid and k["status"] == "known"]


def match_known(known, v):
    for k in known:
        if k.get("case") is not None and k["case"] != v["case"]:
            continue
        if k.get("observed_prefix") and not v["observed"].startswith(k["observed_prefix"]):
            continue
        return k
    return None
