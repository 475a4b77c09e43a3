# coding=utf-8
"""
Path contexts (symbolic and concrete) and the exploration loop.

exploration: generational concolic search.  A path is executed with the inputs of a solver model; every recorded
branch that is not in the path's fixed prefix is negated and handed to the solver together with the constraints it
depends on; a model of it becomes a new path.  When the work list runs empty every feasible path of the harness
(within its stated bounds) has been executed, and for each of them the solver has been asked for inputs that follow
the path and break one of the property's assertions.
"""
import hashlib
import json
import os
import math
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
import uuid
from fractions import Fraction

import z3

from . import core
from .core import Atom, SymInt, SymReal, SymStr, Var, eq_formula, mk, plain, zesc, zrange, zunesc


class PropertyFail(Exception):
    pass


class RunTimeout(BaseException):
    pass


class Skip(BaseException):
    """the input is outside the harness's domain"""


# ---------------------------------------------------------------------------------------------------------
# domains of string variables: (python predicate, z3 regex)

def _text_re():
    return z3.Star(z3.Union(z3.Re(z3.StringVal("\\u{9}")), z3.Re(z3.StringVal("\\u{a}")), zrange(" ", "~"),
                            zrange("\xa0", "\ud7ff"), zrange("\ue000", "\ufffd"),
                            zrange("\U00010000", "\U0002fffd")))


def _line_re():
    return z3.Star(z3.Union(zrange(" ", "~"), zrange("\xa0", "\u1fff"), zrange("\u3001", "\ud7ff")))


def _ident_re():
    first = z3.Union(zrange("a", "z"), zrange("A", "Z"), z3.Re(z3.StringVal("_")))
    rest = z3.Union(first, zrange("0", "9"), z3.Re(z3.StringVal("-")), z3.Re(z3.StringVal(".")))
    return z3.Concat(first, z3.Star(rest))


def _token_re():
    return z3.Plus(z3.Union(zrange("a", "z"), zrange("A", "Z"), zrange("0", "9"), z3.Re(z3.StringVal("_"))))


def _uuid_re():
    h = z3.Union(zrange("0", "9"), zrange("a", "f"))
    d = z3.Re(z3.StringVal("-"))

    def n(k):
        return z3.Loop(h, k, k)
    return z3.Concat(n(8), d, n(4), d, n(4), d, n(4), d, n(12))


REPRESENTATIVES = {
    "str": [lambda z, c=c: z3.Contains(z, z3.StringVal(zesc(c))) for c in
            ["\t", "\n", "  ", "A", "a1", "\xe9", "\xdf", "\u0130", "\U0001f600", "\"", "'", "&", "<", "%s", "{}", ":", ",", ";",
             "\\", "/", "#", "_", "-", "."]] +
           [lambda z, c=c: z3.PrefixOf(z3.StringVal(c), z) for c in (" ", "0")] +
           [lambda z, c=c: z3.SuffixOf(z3.StringVal(c), z) for c in (" ", "1")] +
           [lambda z, c=c: z == z3.StringVal(c) for c in ("", "0", "10", "true", "None", "nan", "yes", "else")] +
           [lambda z: z3.Length(z) == 1, lambda z: z3.Length(z) == 70, lambda z: z3.Length(z) == 260],
    "num": [lambda z, c=c: z == c for c in (0, 1, -1, 7, 100, 1000000)] + [lambda z: z < -1, lambda z: z > 255],
}
DOMAINS = {
    # any XML 1.0 character except CR (parsers normalise it)
    "text": (re.compile("[\t\n\x20-\x7e\xa0-\ud7ff\ue000-\ufffd\U00010000-\U0002fffd]*\\Z"), _text_re),
    # one line of text
    "line": (re.compile("[\x20-\x7e\xa0-\u1fff\u3001-\ud7ff]*\\Z"), _line_re),
    "ident": (re.compile(r"[A-Za-z_][A-Za-z0-9_.\-]*\Z"), _ident_re),
    "token": (re.compile(r"[A-Za-z0-9_]+\Z"), _token_re),
    "hex": (re.compile(r"[0-9a-f]{32}\Z"), lambda: z3.Loop(z3.Union(zrange("0", "9"), zrange("a", "f")), 32, 32)),
    "uuid": (re.compile(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}\Z"), _uuid_re),
}
_dom_cache = {}


def dom_re(d):
    if d not in _dom_cache:
        _dom_cache[d] = DOMAINS[d][1]()
    return _dom_cache[d]


# ---------------------------------------------------------------------------------------------------------
class BaseCtx(object):
    symbolic = False

    def __init__(self, assign, mods, params):
        self.assign = dict(assign)
        self.used = {}
        self.mods = mods
        self.params = params
        self.reached = set()
        self.tmp = None

    # harness-side helpers shared by both modes
    def p(self, key, default=None):
        return self.params.get(key, default)

    def mod(self, name):
        return self.mods.get(name)

    def reach(self, label):
        self.reached.add(label)

    def fail(self, msg):
        raise PropertyFail(msg)

    def skip(self):
        raise Skip()

    def _val(self, name, default):
        v = self.assign.get(name, default)
        self.used[name] = v
        return v

    def close(self):
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None


def _default_text(name):
    return "v." + re.sub(r"[^A-Za-z0-9_]", "_", name)


def _default_ident(name):
    return "i_" + re.sub(r"[^A-Za-z0-9_]", "_", name)


class ConcCtx(BaseCtx):
    """the same harness on the real, uninstrumented code with real files"""
    symbolic = False

    def text(self, name, domain="text"):
        return self._val(name, _default_text(name))

    def ident(self, name, group="id"):
        return self._val(name, _default_ident(name))

    def choice(self, name, options):
        return options[self._val(name, 0) % len(options)]

    def pick(self, name, n):
        return self._val(name, 0) % n

    def flag(self, name):
        return bool(self._val(name, False))

    def int(self, name, lo, hi):
        return int(self._val(name, lo))

    def real(self, name, group=None):
        """group: names starting with it are scaled together to integers (exact in floating point)"""
        v = Fraction(self._val(name, Fraction(0)))
        if group is not None:
            den = 1
            for k, w in self.assign.items():
                if k.startswith(group) and isinstance(w, Fraction):
                    d = w.denominator
                    g, h = den, d
                    while h:
                        g, h = h, g % h
                    den = den * d // g
            v = v * den
            if abs(v) > 2 ** 25:
                raise Skip()
        return float(v)

    def numtext(self, x):
        if isinstance(x, float):
            return repr(x)
        return str(x)

    def eq(self, a, b, msg):
        if not conc_eq(a, b):
            raise PropertyFail("%s: got %s, expected %s" % (msg, short(a), short(b)))

    def ok(self, cond, msg):
        if not cond:
            raise PropertyFail(msg)

    def outdir(self):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix="vsym_")
        return self.tmp + "/"


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def conc_eq(a, b):
    return a == b and (type(a) is bool) == (type(b) is bool)


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, assign, mods, params):
        BaseCtx.__init__(self, assign, mods, params)
        self.vars = {}
        self.pcs = []               # (formula, vars, kind)
        self.decided = {}
        self.keep = []
        self.obl = []               # (formula, vars, msg)
        self.concrete_fail = []
        self.pins = 0
        self.choice_forks = 0
        self.vfs = {}
        RUNS[0] += 1
        self.dir = "/vfs/out%d" % RUNS[0]
        self.vdirs = {self.dir}
        self.obligations_checked = 0
        self.simplified = 0

    # -- symbolic inputs
    def _var(self, name, sort, **kw):
        if name in self.vars:
            return self.vars[name]
        v = Var(name, sort, **kw)
        self.vars[name] = v
        return v

    def text(self, name, domain="text"):
        val = self._val(name, _default_text(name))
        v = self._var(name, "str", domain=domain)
        return SymStr(val, (Atom("var", ("v", name), val, frozenset([name]), var=v, zs=v.z),))

    def ident(self, name, group="id", domain="ident"):
        val = self._val(name, _default_ident(name))
        v = self._var(name, "str", domain=domain, group=group)
        return SymStr(val, (Atom("var", ("v", name), val, frozenset([name]), var=v, zs=v.z),))

    def choice(self, name, options):
        i = self._val(name, 0) % len(options)
        if len(options) == 1:
            return options[0]
        v = self._var(name, "int", choices=tuple(options))
        return SymStr(options[i], (Atom("choice", ("v", name), options[i], frozenset([name]), var=v),))

    def pick(self, name, n):
        i = self._val(name, 0) % n
        if n == 1:
            return 0
        v = self._var(name, "int", lo=0, hi=n - 1)
        lo, hi = 0, n - 1
        while lo < hi:
            mid = (lo + hi) // 2
            if self.branch(v.z <= mid, i <= mid, frozenset([name])):
                hi = mid
            else:
                lo = mid + 1
        return lo

    def flag(self, name):
        b = bool(self._val(name, False))
        v = self._var(name, "bool")
        return self.branch(v.z, b, frozenset([name]))

    def int(self, name, lo, hi):
        i = int(self._val(name, lo))
        v = self._var(name, "int", lo=lo, hi=hi)
        return SymInt(i, v.z, frozenset([name]))

    def real(self, name, group=None):
        r = Fraction(self._val(name, Fraction(0)))
        v = self._var(name, "real", domain="text" if group is None else "grid")
        return SymReal(r, v.z, frozenset([name]))

    def aux(self, name):
        """an existentially quantified real of an assertion"""
        return self._var(name, "real")

    def numtext(self, x):
        return x.__str__() if isinstance(x, (SymInt, SymReal)) else str(x)

    # -- path condition
    def branch(self, f, val, vs):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        pol = True
        if z3.is_not(f):
            f = f.arg(0)
            pol = False
        k = f.get_id()
        if k in self.decided:
            return self.decided[k] == pol
        truth = (val == pol)
        self.decided[k] = truth
        self.keep.append(f)
        self.pcs.append((f if truth else z3.Not(f), vs, "branch"))
        return val

    def pin_formula(self, f, vs, what):
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        k = f.get_id()
        if self.decided.get(k) is True:
            return
        self.decided[k] = True
        self.keep.append(f)
        self.pins += 1
        if os.environ.get("VERIF_PINS"):
            import traceback
            traceback.print_stack(limit=14)
        self.pcs.append((f, vs, "pin"))

    def pin_atom(self, a):
        if a.kind == "choice":
            # finite domain: decide it by branching, nothing is lost
            ch = a.var.choices
            cur = ch.index(a.val)
            for j in range(len(ch) - 1):
                if self.branch(a.var.z == j, cur == j, a.vars):
                    break
            self.choice_forks += 1
            return
        if a.kind == "num":
            core.pin(a.num)
            return
        if a.kind == "der":
            self.pin_atom(a.base)
            return
        self.pin_formula(a.z() == z3.StringVal(zesc(a.val)), a.vars, a.kind)

    # -- assertions
    def eq(self, a, b, msg):
        fs = []
        vs = set()
        try:
            r = self._eq(a, b, fs, vs)
        except _Mismatch as e:
            self.concrete_fail.append("%s: %s" % (msg, e))
            return
        if not r:
            self.concrete_fail.append("%s: got %s, expected %s" % (msg, short_plain(a), short_plain(b)))
            return
        self.obligations_checked += 1
        if not fs:
            self.simplified += 1
            return
        self.obl.append((fs[0] if len(fs) == 1 else z3.And(*fs), frozenset(vs), msg))

    def _eq(self, a, b, fs, vs):
        if isinstance(a, str) and isinstance(b, str):
            f = eq_formula(a, b)
            if f is True:
                return True
            if f is False or plain(a) != plain(b):
                return False
            fs.append(f)
            vs |= core.sym_vars(a) | core.sym_vars(b)
            return True
        if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
            return a is b
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if isinstance(a, (SymInt, SymReal)) or isinstance(b, (SymInt, SymReal)):
                if core._frac(a) != core._frac(b):
                    return False
                if isinstance(a, float) or isinstance(b, float):
                    fs.append(core._zreal(a) == core._zreal(b))
                else:
                    fs.append(core._zint(a) == core._zint(b))
                vs |= core.sym_vars(a) | core.sym_vars(b)
                return True
            return a == b
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
                return False
            return all(self._eq(x, y, fs, vs) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b):
                return False
            from .instrument import resolve_key
            for k in b:
                kk = resolve_key(a, k)
                if kk not in a:
                    raise _Mismatch("missing key %s" % short_plain(k))
                if not self._eq(a[kk], b[k], fs, vs):
                    raise _Mismatch("at key %s: got %s, expected %s" % (short_plain(k), short_plain(a[kk]),
                                                                      short_plain(b[k])))
            return True
        return a == b

    def ok(self, cond, msg):
        self.obligations_checked += 1
        if z3.is_expr(cond):
            raise TypeError("use check()")
        self.simplified += 1
        if not cond:
            self.concrete_fail.append(msg)

    def check(self, formula, val, vs, msg):
        """assert a z3 formula whose concrete truth value is val"""
        self.obligations_checked += 1
        if not val:
            self.concrete_fail.append(msg)
            return
        self.obl.append((formula, frozenset(vs), msg))

    def outdir(self):
        # not the same in any two runs, as with the directories of the replay
        return self.dir + "/"


RUNS = [0]


class _Mismatch(Exception):
    pass


def short_plain(x):
    def strip(y, d=4):
        if isinstance(y, str):
            return plain(y)
        if isinstance(y, SymInt):
            return int.__int__(y)
        if isinstance(y, SymReal):
            return float.__float__(y)
        if d and isinstance(y, (list, tuple)):
            return [strip(z, d - 1) for z in y]
        if d and isinstance(y, dict):
            return {plain(k): strip(v, d - 1) for k, v in y.items()}
        return y
    return short(strip(x))


# ---------------------------------------------------------------------------------------------------------
class Stats(object):
    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.obligation_queries = 0
        self.obligations_unsat = 0
        self.obligations_simplified = 0
        self.pins = 0
        self.paths_with_pins = 0
        self.choice_forks = 0
        self.divergences = 0
        self.discrepancies = 0
        self.discrepancy_notes = []
        self.spurious = 0
        self.concrete_replays = 0
        self.skipped = 0
        self.exhausted = False
        self.reached = {}
        self.wall_s = 0.0
        self.sample_inputs = []

    def as_dict(self):
        return dict(self.__dict__)


class Explorer(object):
    def __init__(self, harness, sym_mods, raw_mods, seed=1, max_paths=100000, budget_s=60.0, solver_ms=10000,
                 run_cpu_s=20.0, max_violations=2):
        self.h = harness
        self.sym_mods = sym_mods
        self.raw_mods = raw_mods
        self.seed = seed
        self.max_paths = max_paths
        self.budget_s = budget_s
        self.solver_ms = solver_ms
        self.gave_up = 0
        self.run_cpu_s = run_cpu_s
        self.max_violations = max_violations
        self.st = Stats()
        self.violations = []
        self.qcache = {}
        self.pinned = set()

    # -- executing
    def _alarm(self, sig, frame):
        raise RunTimeout()

    def run_one(self, ctx):
        """-> (status, message); status in ok, fail, crash, timeout, skip"""
        old = signal.signal(signal.SIGVTALRM, self._alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.run_cpu_s)
        prev = core.CUR
        core.CUR = ctx if ctx.symbolic else None
        rl = sys.getrecursionlimit()
        from . import models
        real_uuid4 = uuid.uuid4
        if not ctx.symbolic:
            from .models import ConcUuid
            if "uuid1" in ctx.assign:
                uuid.uuid4 = ConcUuid(ctx)
        else:
            from .instrument import _stack
            del _stack[:]
        try:
            ctx.mods.activate()
            with models.Chance():
                self.h.fn(ctx)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            return "ok", ""
        except PropertyFail as e:
            return "fail", str(e)
        except Skip:
            return "skip", ""
        except RunTimeout:
            return "timeout", "no result within %g s of CPU time" % self.run_cpu_s
        except Exception as e:
            return "crash", "%s: %s @ %s" % (type(e).__name__, short(core.plain(str(e)) if False else _exc_text(e)),
                                             _where(e))
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)
            core.CUR = prev
            uuid.uuid4 = real_uuid4
            sys.setrecursionlimit(rl)
            ctx.mods.deactivate()
            ctx.close()

    def run_concrete(self, assign):
        ctx = ConcCtx(assign, self.raw_mods, self.h.params)
        self.st.concrete_replays += 1
        status, msg = self.run_one(ctx)
        return status, msg, ctx

    # -- solving
    def solve(self, fs_vs, ctx, timeout=None):
        """fs_vs: list of (formula, vars).  -> ('sat', values) | ('unsat', None) | ('unknown', None)"""
        t0 = time.time()
        self.st.queries += 1
        names = set()
        for _, vs in fs_vs:
            names |= vs
        reals = bool(names) and all(ctx.vars[n].sort == "real" for n in names)
        s = z3.SolverFor("QF_NRA") if reals else z3.Solver()
        s.set("timeout", int(timeout or self.solver_ms))
        for f, _ in fs_vs:
            s.add(f)
        groups = {}
        for n in names:
            v = ctx.vars[n]
            if v.choices is not None:
                s.add(v.z >= 0, v.z < len(v.choices))
            elif v.sort == "int":
                if v.lo is not None:
                    s.add(v.z >= v.lo)
                if v.hi is not None:
                    s.add(v.z <= v.hi)
            elif v.sort == "str" and v.group is not None:
                groups.setdefault(v.group, []).append(v)
        for g, vs in groups.items():
            if len(vs) > 1:
                s.add(z3.Distinct(*[v.z for v in vs]))
        tightened = set()
        try:
            for _ in range(12):
                r = s.check()
                if r == z3.unsat:
                    self.st.unsat += 1
                    return "unsat", None
                if r != z3.sat:
                    self.st.unknown += 1
                    return "unknown", None
                m = s.model()
                grid = [ctx.vars[n] for n in names if ctx.vars[n].sort == "real" and ctx.vars[n].domain == "grid"]
                if grid:
                    nice = self._nice(s, grid, m)
                    m = nice or m
                vals = {}
                again = False
                for n in names:
                    v = ctx.vars[n]
                    e = m.eval(v.z, model_completion=True)
                    if v.choices is not None or v.sort == "int":
                        vals[n] = e.as_long()
                    elif v.sort == "bool":
                        vals[n] = z3.is_true(e)
                    elif v.sort == "real":
                        if z3.is_algebraic_value(e):
                            e = e.approx(20)
                        vals[n] = Fraction(e.numerator_as_long(), e.denominator_as_long())
                    else:
                        val = zunesc(e.as_string())
                        vals[n] = val
                        if n not in tightened and not DOMAINS[v.domain][0].match(val):
                            s.add(z3.InRe(v.z, dom_re(v.domain)))
                            tightened.add(n)
                            again = True
                if not again:
                    for g, gvs in groups.items():
                        inn = {v.name for v in gvs}
                        others = [x for x in ctx.vars.values() if x.group == g and x.name not in inn]
                        taken = {ctx.used[x.name] for x in others if x.name in ctx.used}
                        for v in gvs:
                            if vals[v.name] in taken:
                                s.add(v.z != z3.StringVal(zesc(vals[v.name])))
                                again = True
                if not again:
                    self.st.sat += 1
                    return "sat", vals
            self.st.unknown += 1
            return "unknown", None
        except z3.Z3Exception:
            self.st.unknown += 1
            return "unknown", None
        finally:
            self.st.solver_s += time.time() - t0

    def _nice(self, s, grid, m):
        """a model with integral coordinates, if there is one close at hand"""
        es = [m.eval(v.z, model_completion=True) for v in grid]
        if not any(z3.is_algebraic_value(e) for e in es):
            fr = [Fraction(e.numerator_as_long(), e.denominator_as_long()) for e in es]
            k = 1
            for f in fr:
                k = k * f.denominator // math.gcd(k, f.denominator)
            if max(abs(f * k) for f in fr) <= 2 ** 20:
                if k == 1:
                    return None
                # most conditions do not depend on the scale
                s.push()
                try:
                    s.set("timeout", 1500)
                    s.add(*[v.z == z3.RealVal(str(f * k)) for v, f in zip(grid, fr)])
                    if s.check() == z3.sat:
                        return s.model()
                except z3.Z3Exception:
                    pass
                finally:
                    s.pop()
                    s.set("timeout", int(self.solver_ms))
        s.push()
        try:
            s.set("timeout", 1500)
            # round towards integers one by one
            for v in grid:
                s.push()
                s.add(z3.IsInt(v.z), v.z <= 1000, v.z >= -1000)
            if s.check() == z3.sat:
                return s.model()
            return None
        except z3.Z3Exception:
            return None
        finally:
            for v in grid:
                s.pop()
            s.pop()
            s.set("timeout", int(self.solver_ms))

    @staticmethod
    def slice_pc(pcs, vs):
        """constraints transitively sharing variables with vs"""
        vs = set(vs)
        left = [(f, v) for f, v, _ in pcs]
        out = []
        changed = True
        while changed:
            changed = False
            rest = []
            for f, v in left:
                if v & vs:
                    vs |= v
                    out.append((f, v))
                    changed = True
                else:
                    rest.append((f, v))
            left = rest
        return out

    # -- main loop
    def explore(self):
        t0 = time.time()
        rng = random.Random(self.seed)
        work = [({}, 0, None)]
        seen = set()
        st = self.st
        while work:
            if st.paths >= self.max_paths or time.time() - t0 > self.budget_s:
                break
            idx = rng.randrange(len(work)) if self.h.random_order else len(work) - 1
            work[idx], work[-1] = work[-1], work[idx]
            assign, bound, expect = work.pop()
            ctx = SymCtx(assign, self.sym_mods, self.h.params)
            status, msg = self.run_one(ctx)
            st.paths += 1
            if expect is not None:
                sig = [p[0].get_id() for p in ctx.pcs[:bound - 1]]
                if sig != expect:
                    st.divergences += 1
            full = dict(assign)
            full.update(ctx.used)
            for l in ctx.reached:
                st.reached[l] = st.reached.get(l, 0) + 1
            st.obligations += ctx.obligations_checked
            st.obligations_simplified += ctx.simplified
            st.pins += ctx.pins
            st.choice_forks += ctx.choice_forks
            if ctx.pins:
                st.paths_with_pins += 1
            if len(st.sample_inputs) < 3:
                st.sample_inputs.append({k: short(v, 60) for k, v in list(full.items())[:12]})
            if status == "ok" and ctx.concrete_fail:
                status, msg = "fail", ctx.concrete_fail[0]
            # the same inputs on the real code
            cstatus, cmsg, _ = self.run_concrete(full)
            if cstatus in ("fail", "crash", "timeout"):
                self.violation(full, cstatus, cmsg)
            elif status in ("fail", "crash", "timeout") and cstatus == "ok":
                st.discrepancies += 1
                if len(st.discrepancy_notes) < 5:
                    st.discrepancy_notes.append("symbolic run %s (%s), real code passes" % (status, msg[:300]))
            if cstatus == "skip":
                st.skipped += 1
            if len(self.violations) >= self.max_violations:
                break
            # assertions for every value following this path
            if status == "ok" and cstatus == "ok":
                for f, vs, omsg in ctx.obl:
                    st.obligation_queries += 1
                    fs = self.slice_pc(ctx.pcs, vs) + [(z3.Not(f), vs)]
                    # the solver gives up on long texts: after some answers of that kind it gets less time
                    r, vals = self.solve(fs, ctx, timeout=1000 if self.gave_up >= 3 else None)
                    if r == "unknown":
                        self.gave_up += 1
                        a2 = self.long_values(ctx, full, vs) if self.gave_up <= 6 else None
                        if a2:
                            s2, m2, _ = self.run_concrete(a2)
                            if s2 in ("fail", "crash"):
                                self.violation(a2, s2, m2 + "  [no answer of the solver for: %s]" % omsg)
                                if len(self.violations) >= self.max_violations:
                                    break
                    if r == "unsat":
                        st.obligations_unsat += 1
                    elif r == "sat":
                        a2 = dict(full)
                        a2.update(vals)
                        s2, m2, _ = self.run_concrete(a2)
                        if s2 in ("fail", "crash", "timeout"):
                            self.violation(a2, s2, m2 + "  [solver counterexample of: %s]" % omsg)
                            if len(self.violations) >= self.max_violations:
                                break
                        else:
                            st.spurious += 1
                            if len(st.discrepancy_notes) < 5:
                                st.discrepancy_notes.append("solver model for '%s' does not reproduce" % omsg)
            if len(self.violations) >= self.max_violations:
                break
            # children
            for i in range(bound, len(ctx.pcs)):
                f, vs, kind = ctx.pcs[i]
                if kind == "pin":
                    work.extend(self.representatives(ctx, full, i, vs))
                    continue
                neg = f.arg(0) if z3.is_not(f) else z3.Not(f)
                fs = self.slice_pc(ctx.pcs[:i], vs) + [(neg, vs)]
                key = tuple(sorted(x.get_id() for x, _ in fs))
                hit = self.qcache.get(key)
                if hit is not None and hit[0] == "unsat":
                    continue
                if hit is not None and self._group_ok(hit[1], ctx):
                    r, vals = hit[:2]
                else:
                    r, vals = self.solve(fs, ctx)
                    self.qcache[key] = (r, vals, fs)
                if r == "sat":
                    a2 = dict(full)
                    a2.update(vals)
                    work.append((a2, i + 1, [p[0].get_id() for p in ctx.pcs[:i]]))
            self.keepalive = getattr(self, "keepalive", [])
            self.keepalive.append([p[0] for p in ctx.pcs])
        st.exhausted = not work and st.unknown == 0 and not self.violations
        st.work_left = len(work)
        st.wall_s = time.time() - t0
        return st, self.violations

    @staticmethod
    def long_values(ctx, full, vs):
        """the inputs with long texts for the given variables, or None"""
        a = dict(full)
        hit = False
        for n in vs:
            v = ctx.vars.get(n)
            if v is None or v.domain not in DOMAINS or not isinstance(full.get(n), str) or v.group is not None:
                continue
            val = (full[n] or "x") + "x" * 2000
            if DOMAINS[v.domain][0].match(val):
                a[n] = val
                hit = True
        return a if hit else None

    def representatives(self, ctx, full, i, vs):
        """an operation without an encoding fixed the value of a variable: representatives of other values of it, each
        satisfying the path so far. What follows is then decided for these values only (counted as pins)"""
        out = []
        prefix = [p[0].get_id() for p in ctx.pcs[:i]]
        for n in sorted(vs):
            v = ctx.vars[n]
            if v.choices is not None or v.sort == "bool":
                continue
            for k, c in enumerate(REPRESENTATIVES["str" if v.sort == "str" else "num"]):
                if (n, k) in self.pinned or len(self.pinned) > 400:
                    continue
                self.pinned.add((n, k))
                r, vals = self.solve(self.slice_pc(ctx.pcs[:i], {n}) + [(c(v.z), frozenset([n]))], ctx)
                if r == "sat":
                    a2 = dict(full)
                    a2.update(vals)
                    out.append((a2, i + 1, prefix))
        return out

    def _group_ok(self, vals, ctx):
        if vals is None:
            return False
        for n, v in vals.items():
            var = ctx.vars.get(n)
            if var is not None and var.group is not None:
                for x in ctx.vars.values():
                    if x.group == var.group and x.name not in vals and ctx.used.get(x.name) == v:
                        return False
        return True

    def violation(self, assign, status, msg):
        m = re.sub(r"'[^']*'|[0-9]+", "_", msg)[:120]
        for v in self.violations:
            if re.sub(r"'[^']*'|[0-9]+", "_", v["message"])[:120] == m:
                return
        self.violations.append({"status": status, "message": msg, "assign": enc_assign(assign)})


def _exc_text(e):
    try:
        return plain("%s" % (e,))
    except Exception:
        return "?"


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if "/bpmn_python/" in fr.filename:
            return "%s:%s (%s)" % (os.path.basename(fr.filename), fr.lineno, fr.name)
    fr = tb[-1] if tb else None
    return "%s:%s (%s)" % (os.path.basename(fr.filename), fr.lineno, fr.name) if fr else "?"


def enc_assign(a):
    out = {}
    for k, v in a.items():
        if isinstance(v, Fraction):
            out[k] = {"frac": str(v)}
        else:
            out[k] = v
    return out


def dec_assign(a):
    return {k: Fraction(v["frac"]) if isinstance(v, dict) else v for k, v in a.items()}
