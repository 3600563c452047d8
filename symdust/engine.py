"""Path exploration engine.

The code under test is executed by CPython itself on symbolic proxy values
(symdust.values).  Whenever the execution needs the truth value of a symbolic
condition the engine asks the solver which outcomes are feasible under the
current path condition, follows one and schedules the other; the program is
then re-executed with the recorded decision prefix until every feasible path
within the bounds has been followed (or a budget is exhausted, which is
reported as such).  Assertions are decided by the solver for all values that
satisfy the path condition.
"""

import time

import z3


class SymControl(BaseException):
    """Base of the exceptions the engine uses to steer execution.  Derives
    from BaseException so that `except Exception` in the code under test does
    not swallow it."""


class PathAbort(SymControl):
    """The current path is infeasible or has been cut."""


class BudgetExceeded(SymControl):
    """The exploration budget of the current case is exhausted."""


class MergeFail(SymControl):
    """Speculative evaluation of a branch cannot be merged, fork instead."""


class SplitRequest(SymControl):
    """Independent items checked in one path fork too much: one path each."""


class Engine:
    """Explores all paths of a callable under symbolic inputs."""

    current = None

    def __init__(self, *, deadline=None, max_paths=100000, solver_timeout_ms=60000):
        self.deadline = deadline
        self.max_paths = max_paths
        self.solver_timeout_ms = solver_timeout_ms
        self.solver = z3.SolverFor("QF_BV")
        # trail entries: [kind, expr, alternatives_left]
        self.trail = []
        self.pos = 0
        self.level = 0
        self.spec = 0
        self.spec_conds = []
        self.site_fails = {}
        self.one_sided = {}
        self.nforks = 0
        self.split = False
        self.in_each = 0
        self.each_forks = 0
        self.local = None
        self.inputs = {}
        self.defs_cache = {}
        self.fresh = 0
        self.journal = []
        self.steps = 0
        self.max_steps = 400000
        self.fs = {}
        self.stdout = None
        self.summaries = True
        self.on_path_start = None
        # statistics
        self.st = {
            "paths": 0,
            "queries": 0,
            "solver_s": 0.0,
            "branch_queries": 0,
            "assert_queries": 0,
            "assertions": 0,
            "trivial_assertions": 0,
            "forks": 0,
            "merges": 0,
            "unknown": 0,
            "concretised": 0,
            "truncated": 0,
            "approx": 0,
            "functions": set(),
            "stubs": set(),
        }

    # ---- solver -----------------------------------------------------------
    def _check(self, *extra, quick_ms=None):
        """Decide the path condition with `extra`; sets _model when sat."""
        self.st["queries"] += 1
        t = time.time()
        self.solver.set("timeout", quick_ms or 4000)
        self._model = None
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
        r = self.solver.check()
        if r == z3.sat:
            self._model = self.solver.model()
        if r == z3.unknown and quick_ms is None:
            s2 = z3.SimpleSolver()
            limit = self.solver_timeout_ms
            if self.deadline is not None:
                limit = max(1000, min(limit, int((self.deadline - t) * 1000)))
            s2.set("timeout", limit)
            s2.add(self.solver.assertions())
            r = s2.check()
            if r == z3.sat:
                self._model = s2.model()
        if extra:
            self.solver.pop()
        self.st["solver_s"] += time.time() - t
        if r == z3.unknown and quick_ms is None:
            self.st["unknown"] += 1
        return r

    def model_values(self, model):
        res = {}
        for name, (kind, var) in self.inputs.items():
            val = model.eval(var, model_completion=True)
            if kind == "bool":
                res[name] = bool(z3.is_true(val))
            elif kind == "sint":
                res[name] = val.as_signed_long()
            else:
                res[name] = val.as_long()
        return res

    # ---- trail ------------------------------------------------------------
    def _check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded("deadline")

    def _same(self, a, b):
        """Is b the recorded expression a?  The simplifier may order the
        arguments of a term rebuilt on replay differently."""
        if a.eq(b):
            return True
        s = z3.SolverFor("QF_BV")
        s.set("timeout", 20000)
        s.add(a != b)
        return s.check() == z3.unsat

    def add_def(self, expr):
        """Assert a definitional constraint (total, so valid on any path)."""
        if self.spec_conds:
            # value ranges used by the definition may rest on the speculation
            expr = z3.Or(*([z3.Not(c) for c in self.spec_conds] + [expr]))
        self._trail_fixed("def", expr)

    def _trail_fixed(self, kind, expr):
        if self.pos < len(self.trail):
            ent = self.trail[self.pos]
            if ent[0] != kind:
                raise RuntimeError("nondeterministic replay (%s/%s)" % (ent[0], kind))
            self.pos += 1
            return
        self.solver.push()
        self.solver.add(expr)
        self.trail.append([kind, expr, ()])
        self.pos += 1

    def assume(self, expr):
        """Restrict the current path to `expr`."""
        if expr is True:
            return
        if expr is False:
            raise PathAbort("assume false")
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return
        if z3.is_false(expr):
            raise PathAbort("assume false")
        new = self.pos >= len(self.trail)
        self._trail_fixed("assume", expr)
        if new and self._check() == z3.unsat:
            raise PathAbort("assume unsat")

    def branch(self, expr):
        """Return the truth value of z3 Bool `expr` on this path."""
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        if self.local is not None:
            return self.local.branch(self, expr)
        if self.spec:
            return self._spec_branch(expr)
        if self.pos < len(self.trail):
            ent = self.trail[self.pos]
            if ent[0] != "branch" or not self._same(ent[3], expr):
                raise RuntimeError("nondeterministic replay of branch")
            self.pos += 1
            self.nforks += ent[4]
            return ent[1]
        self._check_deadline()
        self.st["branch_queries"] += 1
        r_true = self._check(expr)
        if r_true == z3.unsat:
            # path condition implies not expr (PC itself is satisfiable)
            self._push_branch(expr, False, False)
            return False
        self.st["branch_queries"] += 1
        r_false = self._check(z3.Not(expr))
        if r_false == z3.unsat:
            self._push_branch(expr, True, False)
            return True
        if self.in_each and not self.split:
            self.each_forks += 1
            if self.each_forks > 3:
                raise SplitRequest()
        self.st["forks"] += 1
        self.nforks += 1
        self._push_branch(expr, True, True)
        return True

    def pick(self, var, n):
        """Fork over the values 0..n-1 of a fresh variable."""
        lo, hi = 0, n - 1
        size = var.size()
        while lo < hi:
            mid = (lo + hi) // 2
            expr = z3.ULE(var, z3.BitVecVal(mid, size))
            if self.pos < len(self.trail):
                ent = self.trail[self.pos]
                if ent[0] != "branch" or not self._same(ent[3], expr):
                    raise RuntimeError("nondeterministic replay of choice")
                self.pos += 1
                val = ent[1]
            else:
                self._check_deadline()
                self.st["forks"] += 1
                val = True
                self._push_branch(expr, True, True)
            if val:
                hi = mid
            else:
                lo = mid + 1
        return lo

    def _restart(self):
        """Forget the exploration so far (not the statistics)."""
        while self.trail:
            self.trail.pop()
            self.solver.pop()

    def _spec_branch(self, expr):
        """Inside a speculation only decided conditions can be followed."""
        if self.pos < len(self.trail):
            ent = self.trail[self.pos]
            if ent[0] != "spec" or not self._same(ent[3], expr):
                raise RuntimeError("nondeterministic replay of speculation")
            self.pos += 1
            if ent[1] is None:
                raise MergeFail()
            return ent[1]
        self._check_deadline()
        self.st["branch_queries"] += 1
        val = None
        if self._check(expr, *self.spec_conds) == z3.unsat:
            val = False
        else:
            self.st["branch_queries"] += 1
            if self._check(z3.Not(expr), *self.spec_conds) == z3.unsat:
                val = True
        self.solver.push()
        self.trail.append(["spec", val, False, expr])
        self.pos += 1
        if val is None:
            raise MergeFail()
        return val

    def implied(self, expr):
        """Is expr implied by the current path (and speculation)?  Used to
        choose a simpler encoding, never to decide an assertion."""
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return True
        if z3.is_false(expr) or self.local is not None:
            return False
        if self.pos < len(self.trail):
            ent = self.trail[self.pos]
            if ent[0] != "imp" or not self._same(ent[3], expr):
                raise RuntimeError("nondeterministic replay of implication")
            self.pos += 1
            return ent[1]
        self._check_deadline()
        self.st["branch_queries"] += 1
        val = self._check(z3.Not(expr), *self.spec_conds, quick_ms=1000) == z3.unsat
        self.solver.push()
        self.trail.append(["imp", val, False, expr])
        self.pos += 1
        return val

    def _push_branch(self, expr, value, alt):
        self.solver.push()
        self.solver.add(expr if value else z3.Not(expr))
        self.trail.append(["branch", value, alt, expr, int(alt)])
        self.pos += 1

    def _backtrack(self):
        """Flip the last open decision; returns False when exhausted."""
        while self.trail:
            ent = self.trail.pop()
            self.solver.pop()
            if ent[0] == "branch" and ent[2]:
                self.solver.push()
                value = not ent[1]
                self.solver.add(ent[3] if value else z3.Not(ent[3]))
                self.trail.append(["branch", value, False, ent[3], 1])
                return True
        return False

    # ---- speculation ------------------------------------------------------
    def concretise(self, expr_bv, signed, limit=400):
        """Fork over the feasible values of a bit-vector expression."""
        if self.local is not None or self.spec:
            raise MergeFail()
        self.st["concretised"] += 1
        for _ in range(limit):
            if self.pos < len(self.trail):
                # replay: the recorded branch expression tells the value
                ent = self.trail[self.pos]
                if ent[0] == "conc":
                    self.pos += 1
                    val = ent[1]
                    cond = ent[3]
                    if self.branch(cond):
                        return val
                    continue
            self._check_deadline()
            r = self._check()
            if r != z3.sat:
                raise PathAbort("no value")
            v = self._model.eval(expr_bv, model_completion=True)
            val = v.as_signed_long() if signed else v.as_long()
            cond = z3.simplify(expr_bv == z3.BitVecVal(val, expr_bv.size()))
            self.solver.push()
            self.trail.append(["conc", val, False, cond])
            self.pos += 1
            if z3.is_true(cond) or self.branch(cond):
                return val
        self.st["truncated"] += 1
        raise PathAbort("concretisation limit")

    # ---- driver -----------------------------------------------------------
    def explore(self, fn):
        """Run `fn` on every feasible path.  `fn(self)` must be deterministic
        given the branch decisions.  Yields (outcome, payload) per path."""
        prev = Engine.current
        Engine.current = self
        try:
            while True:
                self.pos = 0
                self.fresh = 0
                self.inputs = {}
                self.defs_cache = {}
                self.spec = 0
                self.spec_conds = []
                self.site_fails = {}
                self.one_sided = {}
                self.in_each = 0
                self.each_forks = 0
                self.local = None
                self.journal = []
                self.steps = 0
                self.fs = {}
                self.stdout = None
                if self.on_path_start is not None:
                    self.on_path_start()
                try:
                    self._check_deadline()
                    payload = fn(self)
                    outcome = "done"
                except SplitRequest:
                    self.split = True
                    self._restart()
                    continue
                except PathAbort as exc:
                    outcome, payload = "abort", str(exc)
                except MergeFail:
                    outcome, payload = "abort", "merge failure outside speculation"
                    self.st["engine_errors"] = self.st.get("engine_errors", 0) + 1
                except BudgetExceeded as exc:
                    self.st["truncated"] += 1
                    yield "budget", str(exc)
                    return
                if outcome == "done":
                    self.st["paths"] += 1
                yield outcome, payload
                if self.st["paths"] >= self.max_paths:
                    self.st["truncated"] += 1
                    yield "budget", "max_paths"
                    return
                # drop trail entries beyond what this run consumed
                if not self._backtrack():
                    return
        finally:
            Engine.current = prev


class LocalExplorer:
    """Enumerates the paths of a side-effect free function call locally so
    that its results can be merged into one if-then-else value."""

    def __init__(self, limit):
        self.limit = limit
        self.trail = []
        self.pos = 0
        self.conds = []

    def branch(self, eng, expr):
        for c, v in self.conds:
            if c.eq(expr):
                return v
        if self.pos < len(self.trail):
            val = self.trail[self.pos][0]
        else:
            if len(self.trail) > 12:
                raise MergeFail()
            val = True
            self.trail.append([True, True])
        self.pos += 1
        self.conds.append((expr, val))
        return val

    def next(self):
        while self.trail:
            val, alt = self.trail.pop()
            if alt:
                self.trail.append([not val, False])
                return True
        return False
