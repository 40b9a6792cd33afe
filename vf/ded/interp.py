"""Symbolic execution of the repository's Python, read from its source files on every run.

Direct style: a path is one run of the interpreter; `branch` consults a decision list, and the explorer
re-runs the code under contract once per feasible decision list.  Loops over unknown collections are
not unrolled: the body is explored for one arbitrary index and the loop becomes one event of the path.
"""
from __future__ import annotations

import ast
import builtins
import contextlib
import functools
import inspect
import json
import re
import sys
import types

import z3

from .core import *
from . import regex

_ASTS = {}


class MatchToIf(ast.NodeTransformer):
    """`match` statements, rewritten as the `if` chains the language defines them to be: value,
    singleton, class, or-, capture and wildcard patterns, and fixed-length sequence patterns over
    a subject that is written as a tuple. Any other pattern is left as it is (undecided)."""

    def __init__(self):
        self.n = 0

    def visit_Match(self, node):
        self.generic_visit(node)
        self.n += 1
        tmp = f"$match{self.n}"
        try:
            if isinstance(node.subject, ast.Tuple) and not any(
                isinstance(x, ast.Starred) for x in node.subject.elts
            ):
                names = [f"{tmp}.{i}" for i in range(len(node.subject.elts))]
                pre = [
                    ast.Assign([ast.Name(n, ast.Store())], x) for n, x in zip(names, node.subject.elts)
                ]
                subj = [ast.Name(n, ast.Load()) for n in names]
            else:
                pre = [ast.Assign([ast.Name(tmp, ast.Store())], node.subject)]
                subj = ast.Name(tmp, ast.Load())
            out = []
            for c in reversed(node.cases):
                test = self.test(c.pattern, subj)
                if c.guard is not None:
                    test = ast.BoolOp(ast.And(), [test, c.guard])
                if isinstance(test, ast.Constant):
                    out = c.body
                else:
                    out = [ast.If(test, c.body, out)]
        except NotImplementedError:
            return node
        res = pre + out
        for r in res:
            ast.copy_location(r, node)
            ast.fix_missing_locations(r)
        return res

    def both(self, xs):
        xs = [x for x in xs if not isinstance(x, ast.Constant)]
        if not xs:
            return ast.Constant(True)
        return xs[0] if len(xs) == 1 else ast.BoolOp(ast.And(), xs)

    def test(self, p, subj):
        if isinstance(p, ast.MatchOr):
            ts = [self.test(x, subj) for x in p.patterns]
            if any(isinstance(t, ast.Constant) for t in ts):
                raise NotImplementedError
            return ast.BoolOp(ast.Or(), ts)
        if isinstance(p, ast.MatchAs):
            if p.name is None:
                return ast.Constant(True)
            t = self.test(p.pattern, subj) if p.pattern is not None else ast.Constant(True)
            bind = ast.Tuple(
                [ast.NamedExpr(ast.Name(p.name, ast.Store()), self.whole(subj))], ast.Load()
            )
            return self.both([t, bind])
        if isinstance(p, ast.MatchSequence):
            if (
                not isinstance(subj, list)
                or len(subj) != len(p.patterns)
                or any(isinstance(x, ast.MatchStar) for x in p.patterns)
            ):
                raise NotImplementedError
            return self.both([self.test(x, y) for x, y in zip(p.patterns, subj)])
        if isinstance(subj, list):
            raise NotImplementedError
        if isinstance(p, ast.MatchValue):
            return ast.Compare(subj, [ast.Eq()], [p.value])
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(subj, [ast.Is()], [ast.Constant(p.value)])
        if isinstance(p, ast.MatchClass):
            inst = ast.Call(ast.Name("isinstance", ast.Load()), [subj, p.cls], [])
            ts = [inst]
            if p.patterns:
                if (
                    len(p.patterns) != 1
                    or not isinstance(p.cls, ast.Name)
                    or p.cls.id not in ("str", "int", "float", "bool", "list", "tuple", "dict")
                ):
                    raise NotImplementedError
                ts.append(self.test(p.patterns[0], subj))
            for k, x in zip(p.kwd_attrs, p.kwd_patterns):
                ts.append(self.test(x, ast.Attribute(subj, k, ast.Load())))
            return self.both(ts)
        raise NotImplementedError

    def whole(self, subj):
        return ast.Tuple(subj, ast.Load()) if isinstance(subj, list) else subj


def source_of(fn):
    """(AST node, globals) of a function, from the file it was loaded from."""
    code = fn.__code__
    f = code.co_filename
    if f not in _ASTS:
        with open(f, encoding="utf-8") as fh:
            text = fh.read()
        idx = {}
        for n in ast.walk(MatchToIf().visit(ast.parse(text))):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = min([n.lineno] + [d.lineno for d in n.decorator_list])
                idx[(n.name, line)] = n
            elif isinstance(n, ast.Lambda):
                idx[("<lambda>", n.lineno)] = n
        _ASTS[f] = idx
    node = _ASTS[f].get((code.co_name, code.co_firstlineno))
    if node is None:
        raise Unsupported(f"no source for {fn!r}")
    return node


class PyRaise(Exception):
    """An exception of the program under analysis."""

    def __init__(self, exc):
        self.exc = exc


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class StopSig(Exception):
    """A built-in (any, all, next) that has seen enough of the sequence it consumes."""

    def __init__(self, v, tag):
        self.v, self.tag = v, tag


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Foreign(Exception):
    """A signal of the consumer of a generator on its way through the generator's frame."""

    def __init__(self, sig, tag):
        self.sig, self.tag = sig, tag


class NeedCarried(Exception):
    def __init__(self, key):
        self.key = key


class Infeasible(Exception):
    pass


class Poison(Sym):
    """A variable assigned in a loop body, before anything is known about its value there."""

    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key


class Frame:
    def __init__(self, glob, parent=None, cls=None, name=""):
        self.locals = {}
        self.glob = glob
        self.parent = parent
        self.cls = cls
        self.name = name
        self.yield_handler = None
        self.nonlocals = set()


class Path:
    __slots__ = ("pc", "events", "exit", "value", "emits", "carried")

    def __init__(self, pc, events, exit, value, emits=None, carried=None):
        self.pc, self.events, self.exit, self.value = pc, events, exit, value
        self.emits = emits or {}
        self.carried = carried or {}

    def copy(self):
        return Path(list(self.pc), list(self.events), self.exit, self.value, dict(self.emits), dict(self.carried))


class Loop:
    """One event: for j in 0..n-1: body(j)."""

    __slots__ = ("n", "paths", "depth", "carried", "listid", "key", "pc0")

    def __init__(self, n, paths, depth, carried):
        self.n, self.paths, self.depth, self.carried = n, paths, depth, carried
        self.key = self.pc0 = None


def plain(v):
    """A value without identity."""
    return isinstance(v, (SV, SInt, SStr, SBool, SReal, str, int, float, bool, type(None), Poison))


@functools.lru_cache(maxsize=None)
def is_gen(node):
    """Does this function's own body contain a yield?"""
    stack = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def assigned_names(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.add(n.name)
    return out


def J(d):
    return z3.Int(f"j{d}")


class Stats:
    def __init__(self):
        self.queries = 0
        self.seconds = 0.0
        self.paths = 0
        self.unknown = 0
        self.cvc5 = 0


class Interp:
    MAXDEPTH = 60

    def __init__(self, shapes, side="r", stats=None, abstract=None, timeout=4000):
        self.shapes = shapes
        self.invariants = {}
        self.typed_segs = {}
        self.texts_of = {}
        self.side = side
        self.stats = stats or Stats()
        self.run_id, self.jfacts, self.loop_memo, self.explored = 0, {}, {}, {}
        self.implicit = {}  # exceptions raised by an operation on the wrong type, not by a raise statement
        self.abstract = dict(abstract or {})  # raw function -> handler(interp, args, kwargs)
        self.timeout = timeout
        self.axioms = []
        self.cache = {}
        self.negs, self.solver, self.stack = {}, None, []
        self.lists = []  # registry of encoded loop lists
        self.inlined = set()
        self.assumptions = set()
        self.max_paths = 400
        self.facts = {}
        self.fold_types = {}
        self.consumed, self.once, self.reused = {}, True, []
        self.frames, self.mutables, self.counters, self.depth, self.calls = [], [], {}, 0, []
        self.refined, self.heap, self.overrides = {}, None, {}
        self.open_methods = {}
        self.pc, self.decisions, self.pos, self.events = [], [], 0, []
        from . import builtins_model
        self.ints = self.texts = False
        self.family = ()

        self.models = builtins_model.MODELS
        self.bm = builtins_model

    # ---- solver ---------------------------------------------------------------------------------
    @property
    def depth(self):
        return DEPTH[0]

    @depth.setter
    def depth(self, d):
        DEPTH[0] = d

    def consume(self, v):
        """An iterator is good for one pass."""
        if not self.once or not (isinstance(v, GenFn) or isinstance(v, SSeq) and v.kind == "seq"):
            return
        if id(v) in self.consumed:
            raise Unsupported("an iterator is used twice")
        if self.depth > v.born:
            self.reused.append(v)  # unless it turns out to be another one in every iteration: see loop
            return
        self.consumed[id(v)] = v

    def check(self, facts, want_model=False):
        import time

        ids, seen, conflict = [], set(), False
        neg = self.negs
        for f in facts:
            i = f.__dict__.get("vid")
            if i is None:
                i = f.vid = f.get_id()
            if i in seen:
                continue
            seen.add(i)
            ids.append((i, f))
            if i not in neg:
                neg[i] = (f.arg(0).get_id() if z3.is_not(f) else None, f)  # f is kept alive so that its id stays its own
        for i, _ in ids:
            if neg[i][0] in seen:
                conflict = True
                break
        if conflict:
            return ("unsat", None) if want_model else "unsat"
        key = frozenset(seen)
        if not want_model and key in self.cache:
            return self.cache[key]
        t = time.monotonic()
        s = self.solver
        if s is None:
            s = self.solver = z3.Solver()
            s.set("timeout", min(500, self.timeout) if self.texts else self.timeout)
        st = self.stack
        n = 0
        while n < len(st) and n < len(ids) and st[n] == ids[n][0]:
            n += 1
        if len(st) > n:
            s.pop(len(st) - n)
            del st[n:]
        for i, f in ids[n:]:
            s.push()
            s.add(f)
            st.append(i)
        r = s.check()
        if r == z3.unknown and self.texts:
            r = self.second(ids)
            if want_model and r == z3.sat:
                self.stats.queries += 1
                self.stats.seconds += time.monotonic() - t
                return "sat", None
        if r == z3.unknown:
            # once more from scratch
            s2 = z3.Solver()
            s2.set("timeout", self.timeout)
            s2.add(*[f for _, f in ids])
            r = s2.check()
            if want_model and r == z3.sat:
                s = s2
        self.stats.queries += 1
        self.stats.seconds += time.monotonic() - t
        res = "sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"
        if res == "unknown":
            self.stats.unknown += 1
        if want_model:
            return res, (s.model() if res == "sat" else None)
        self.cache[key] = res
        return res

    def second(self, ids):
        """The second back end, stronger on strings and regular expressions."""
        import subprocess

        s = z3.Solver()
        s.add(*[f for _, f in ids])
        try:
            r = subprocess.run(["cvc5", "--strings-exp", "--quiet", f"--tlimit={self.timeout}"], input="(set-logic ALL)\n" + s.to_smt2(), capture_output=True, text=True, timeout=self.timeout / 1000 + 10, check=False)
        except (OSError, subprocess.TimeoutExpired):
            return z3.unknown
        a = r.stdout.split()
        a = a[0] if a else ""
        if a in ("sat", "unsat"):
            self.stats.cvc5 += 1
        return z3.sat if a == "sat" else z3.unsat if a == "unsat" else z3.unknown

    def assume(self, f, cond=False):
        """Add a fact that holds whatever the path (or, with cond, a condition that selects the path)."""
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise Infeasible
        if not cond:
            self.facts[f.get_id()] = f
        self.pc.append(f)

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.decisions):
            val = self.decisions[self.pos][0]
        else:
            t = self.check(self.pc + [c])
            if t == "unsat":
                f = self.check(self.pc + [z3.Not(c)])
                if f == "unsat":
                    raise Infeasible
                val, flip = False, False
            else:
                f = self.check(self.pc + [z3.Not(c)])
                val, flip = True, f != "unsat"
            self.decisions.append([val, flip])
        self.pos += 1
        self.pc.append(c if val else z3.Not(c))
        return val

    def choose(self, k):
        """A nondeterministic choice among k alternatives (each guarded by the caller)."""
        for i in range(k - 1):
            b = z3.Bool(f"ch!{self.counter_next('ch')}")
            if self.pos < len(self.decisions):
                val = self.decisions[self.pos][0]
            else:
                val = True
                self.decisions.append([True, True])
            self.pos += 1
            if val:
                return i
        return k - 1

    def counter_next(self, k):
        self.counters[k] = self.counters.get(k, 0) + 1
        return self.counters[k]

    def fresh(self, prefix, sort):
        n = self.counter_next(prefix)
        return z3.Const(f"{prefix}!{self.side}{n}", sort)

    # ---- exploration ----------------------------------------------------------------------------
    def explore(self, thunk, pc):
        """Every feasible path of thunk (run with self); nested explorations restore the state."""
        saved = (self.pc, self.decisions, self.pos, self.events)
        snap = self.snapshot()
        out = []
        decisions = []
        n = 0
        try:
            while True:
                n += 1
                if n > self.max_paths:
                    raise Unsupported("too many paths")
                self.restore(snap)
                self.pc = list(pc)
                self.decisions = decisions
                self.pos = 0
                self.events = []
                try:
                    res = thunk()
                    if res is not None:
                        out.append(res)
                        self.stats.paths += 1
                except Infeasible:
                    pass
                decisions = decisions[: self.pos]
                while decisions and not (decisions[-1][1] and decisions[-1][0] is True):
                    decisions.pop()
                if not decisions:
                    break
                decisions = [list(d) for d in decisions]
                decisions[-1] = [False, False]
        finally:
            self.restore(snap)
            self.pc, self.decisions, self.pos, self.events = saved
        return out

    def snapshot(self):
        return (
            [(f, dict(f.locals)) for f in self.frames],
            list(self.frames),
            [(m, m.save()) for m in self.mutables],
            dict(self.counters),
            self.depth,
            list(self.calls),
            dict(self.refined),
            self.heap,
            dict(self.overrides),
            dict(self.consumed),
        )

    def restore(self, s):
        frames, stack, muts, counters, depth, calls, refined, heap, overrides, consumed = s
        self.consumed = dict(consumed)
        for f, loc in frames:
            f.locals = dict(loc)
        self.frames = list(stack)
        for m, sv in muts:
            m.restore(sv)
        self.mutables = [m for m, _ in muts]
        self.counters = dict(counters)
        self.depth = depth
        self.calls = list(calls)
        self.refined = dict(refined)
        self.heap = heap
        self.overrides = dict(overrides)

    def new(self, m):
        self.mutables.append(m)
        return m

    def run_top(self, call, pc):
        """Paths of call(): a thunk that performs the call under contract and returns its value."""

        self.run_id += 1

        def thunk():
            try:
                v = call()
                v = self.settle(v)
                return Path(list(self.pc), self.events, "return", v)
            except PyRaise as e:
                return Path(list(self.pc), self.events, "raise", e.exc)
            except NeedCarried as e:
                raise Unsupported(f"the value of {e.key[1]} after a loop") from None
            except (ReturnSig, StopSig, BreakSig, ContinueSig, Foreign) as e:
                raise Unsupported(f"stray control flow {type(e).__name__}") from None

        return self.explore(thunk, pc)

    def settle(self, v):
        """A returned generator is run to its end: its yields are events of the path."""
        if isinstance(v, GenFn):
            self.run_gen(v, lambda x: self.events.append(("yield", x)))
            return None
        if isinstance(v, SSeq) and v.kind != "list":
            self.consume(v)
            # an abstract lazy sequence handed on: as if yielded element by element
            self.loop(v.n, v.at, lambda x: self.events.append(("yield", x)))
            return None
        return v

    # ---- loops ----------------------------------------------------------------------------------
    def loop(self, n, at, handler):
        n = z3.simplify(n) if not isinstance(n, int) else z3.IntVal(n)
        if z3.is_int_value(n) and n.as_long() <= 8:
            for k in range(max(0, n.as_long())):
                handler(at(z3.IntVal(k)))
            return
        if self.check(self.pc + [n > 0]) == "unsat":
            return
        d = self.depth
        j = J(d)
        frame_vars = [(f, dict(f.locals)) for f in self.frames]
        # execution up to here is determined by the decisions taken
        key = (self.run_id, tuple(x[0] for x in self.decisions[: self.pos]), len(self.events), len(self.pc)) if d == 0 else None
        memo = None if self.mutables else key
        lists = [(m, list(m.segs)) for m in self.mutables if isinstance(m, MList)]
        others = [(m, m.save()) for m in self.mutables if not isinstance(m, MList)]
        heap0, over0 = self.heap, dict(self.overrides)
        carried = {}  # (frame index, name) -> symbolic value at the start of an iteration
        high = {}

        def body():
            self.depth = d + 1
            self.assume(j >= 0)
            self.assume(j < n)
            for m, _ in lists:
                m.locked = True
            start = {}
            for (fi, name), val in carried.items():
                self.frames[fi].locals[name] = val
                if isinstance(val, MList):
                    self.mutables.append(val)
                    start[id(val)] = list(val.segs)
            ex, sig = "next", None
            try:
                handler(at(j))
            except (PyRaise, ReturnSig, BreakSig, StopSig, Foreign) as e:
                ex, sig = "exit", e
            emits = {}
            for m, pre in lists:
                if len(m.segs) < len(pre) or any(x is not y for x, y in zip(m.segs, pre)):
                    raise Unsupported("a list is changed in a loop other than by appending")
                if len(m.segs) > len(pre):
                    emits[id(m)] = m.segs[len(pre) :]
            if ex == "next":
                if self.heap is not heap0 or self.overrides.keys() != over0.keys():
                    raise Unsupported("a document is changed in a loop")
                for m, sv in others:
                    now = m.save()
                    if isinstance(m, SIter):
                        same = all(x is y for x, y in zip(sv, now))
                    elif isinstance(m, NObj):
                        same = sv.keys() == now.keys() and all(sv[k] is now[k] for k in sv)
                    else:
                        same = sv[0].keys() == now[0].keys() and all(sv[0][k] is now[0][k] for k in sv[0]) and len(sv[1]) == len(now[1])
                    if not same:
                        raise Unsupported("an object is changed in a loop")
            changed = {}
            for fi, (f, loc) in enumerate(frame_vars):
                for name, old in loc.items():
                    cur = f.locals.get(name)
                    if cur is not carried.get((fi, name), old):
                        changed[(fi, name)] = cur
            for (fi, name), val in carried.items():
                if ex == "next" and id(val) in self.consumed and self.frames[fi].locals.get(name) is val:
                    raise Unsupported("an iterator is used up by an iteration and left for the next")
                if isinstance(val, MList):
                    now = list(val.segs)
                    if self.frames[fi].locals.get(name) is val:
                        if len(now) != len(start[id(val)]) or any(x is not y for x, y in zip(now, start[id(val)])):
                            changed[(fi, name)] = MList(now, val.cls)
                    val.segs = start[id(val)]
            for k, v in changed.items():
                if isinstance(v, GenFn) and ex == "next":
                    changed[k] = self.run_early(v, changed, frame_vars)
            for k, v in self.counters.items():
                high[k] = max(high.get(k, 0), v)
            return Path(list(self.pc), self.events, ex, sig, emits, changed)

        known = self.explored.get(memo) if memo else None
        outer, self.reused = self.reused, []
        if known is not None:
            # a replay of a loop that was explored on another path with the same beginning
            paths, carried, self.counters = known[0], known[1], dict(known[2])
            paths = [p.copy() for p in paths]
            carried = dict(carried)
        for _ in range(8 if known is None else 0):
            # variables assigned by an iteration are poisoned for the next one until a read asks for them
            self.reused = []
            try:
                paths = self.explore(body, self.pc)
                missing = {k for p in paths if p.exit == "next" for k in p.carried} - carried.keys()
                if not missing:
                    break
                for k in missing:
                    carried[k] = Poison(k)
            except NeedCarried as e:
                if e.key not in carried:
                    raise
                init = frame_vars[e.key[0]][1][e.key[1]]
                if isinstance(init, (SSeq, GenFn)):
                    self.consume(init)
                v = carried[e.key] = self.fold_symbol(init, e.key)
                if isinstance(v, SSeq):
                    v.born = d + 1
        else:
            if known is None:
                raise Unsupported("loop-carried state does not settle")
        if self.reused:
            raise Unsupported("an iterator is used in every iteration of a loop")
        self.reused = outer
        if known is None:
            for k, v in high.items():
                self.counters[k] = max(self.counters.get(k, 0), v)
            base = len(self.pc)
            for p in paths:
                p.pc = p.pc[base:]
            if memo and all(plain(v) for p in paths for v in p.carried.values()) and all(p.exit == "next" or isinstance(p.value, PyRaise) or isinstance(p.value, ReturnSig) and plain(p.value.v) for p in paths) and not any(p.emits or p.events for p in paths):
                self.explored[memo] = ([p.copy() for p in paths], dict(carried), dict(self.counters))
        folds = {k: v for k, v in carried.items() if not isinstance(v, Poison)}
        loop = Loop(n, paths, d, {str(v_term(v)): (k, frame_vars[k[0]][1][k[1]], v) for k, v in folds.items()})
        if d == 0:
            loop.key = key
            loop.pc0 = list(self.pc)
        exits = [p for p in paths if p.exit == "exit"]
        if folds or exits or any(p.events for p in paths):
            self.events.append(("loop", loop))
        # emissions into lists that existed before the loop
        ids = {i for p in paths for i in p.emits}
        only = []
        if ids and any(p.exit == "exit" for p in paths):
            # the lists are read only if no iteration left the loop
            alts = [z3.And(*[f for f in p.pc if f.get_id() not in self.facts]) for p in paths if p.exit == "next"]
            f = z3.Or(*alts)
            self.facts[f.get_id()] = f
            only = [f]
        for m, _ in lists:
            if id(m) in ids:
                m.segs.append(("loop", n, [(only + p.pc, p.emits.get(id(m), [])) for p in paths if p.exit == "next"], d))
        lx = None
        if exits:
            # the index of the first iteration that leaves the loop, or -1
            lx = z3.Int(f"lx!{self.counter_next('lx')}@{d}")
            self.assume(lx >= -1)
            self.assume(lx < n)
            alts = []
            for p in exits:
                cond = [z3.substitute(f, (j, lx)) for f in p.pc if f.get_id() not in self.facts]
                alts.append(z3.And(*cond) if cond else z3.BoolVal(True))
            self.assume(z3.Or(lx == -1, *alts))
            if all(p.exit == "exit" for p in paths):
                self.assume(z3.Implies(lx == -1, n <= 0))  # the first iteration always leaves
        # the state after the loop
        for k, v in carried.items():
            fi, name = k
            self.frames[fi].locals[name] = Poison(k) if isinstance(v, Poison) else self.after_fold(v)
        if exits and not self.branch(lx == -1):
            for m, _ in lists:
                if id(m) in ids:
                    m.segs[-1] = ("item", Poison((0, "a list filled by a loop that was left early")))
            k = self.choose(len(exits))
            sub = [(j, lx)]
            for f in exits[k].pc:
                self.assume(z3.substitute(f, *sub), f.get_id() not in self.facts)
            if self.check(self.pc) == "unsat":
                raise Infeasible
            for (fi, name), v in exits[k].carried.items():
                self.frames[fi].locals[name] = subst_value(v, sub)
            raise subst_signal(exits[k].value, sub)

    def run_early(self, g, changed, frame_vars):
        """A lazy value an iteration leaves behind, run at once: it must not see what later iterations change."""
        stack = [g]
        while stack:
            x = stack.pop()
            if not isinstance(x, GenFn):
                continue
            if x.late is not None:
                fr, names = x.late
                for fi, name in changed:
                    if frame_vars[fi][0] is fr and name in names:
                        raise Unsupported(f"a lazy value reads {name}, which a later iteration changes")
            stack += x.inner
        try:
            return MList(self.collect(g))
        except PyRaise:
            raise Unsupported("a lazy value raises") from None

    def fold_symbol(self, init, key):
        nm = f"fold!{self.counter_next('fold')}"
        ty = self.fold_types.get(key[1])
        if ty is None and isinstance(init, (MList, SSeq, GenFn)):
            ty = self.fold_types.get("*")
        if ty is not None:
            v = self.field_value_quiet(ty, z3.Const(nm, V))
            if isinstance(v, MList):
                v.term = z3.Const(nm, V)
                self.mutables.remove(v)
            return v
        if isinstance(init, (bool, SBool)):
            return SBool(z3.Bool(nm))
        if isinstance(init, (int, SInt)):
            return SInt(z3.Int(nm))
        if isinstance(init, (str, SStr)):
            return SStr(z3.String(nm))
        if isinstance(init, (STup, tuple)):
            return STup(z3.Const(nm, V))
        if isinstance(init, SV) or init is None:
            return SV(z3.Const(nm, V), getattr(init, "json", False))
        if isinstance(init, SObj):
            return SObj(init.cls, z3.Const(nm, V))
        raise Unsupported(f"loop-carried value {type(init).__name__}")

    def field_value_quiet(self, ty, t):
        if isinstance(ty, tuple) and ty[0] in ("seq", "list"):
            return SSeq(LEN(t), lambda j: self.field_value(ty[1], ITEM(t, j)), t, ty[0])
        return self.field_value(ty, t)

    def after_fold(self, v):
        t = v_term(v)
        nm = str(t).replace("fold!", "after!")
        c = z3.Const(nm, t.sort())
        if isinstance(v, MList):
            self.assume(LEN(c) >= 0)
            return self.new(MList([subst_seg(x, [(t, c)]) for x in v.segs], v.cls))
        if isinstance(v, SSeq):
            at = v.at
            return SSeq(LEN(c), lambda j: subst_value(at(j), [(t, c)]), c, v.kind)
        if isinstance(v, SObj):
            return SObj(v.cls, c)
        if isinstance(v, STup):
            return STup(c)
        if isinstance(v, SV):
            return SV(c, v.json)
        return type(v)(c)

    def iterate(self, v, handler):
        """Run handler for every element of v."""
        if isinstance(v, Poison):
            raise NeedCarried(v.key)
        if isinstance(v, GenFn):
            self.consume(v)
            return self.run_gen(v, handler)
        if isinstance(v, SIter):
            n, at = v.rest()
            v.drain()
            try:
                return self.loop(n, at, handler)
            except (PyRaise, ReturnSig, BreakSig, StopSig, Foreign):
                v.n = None  # left early: where it stands is not known
                raise
        if isinstance(v, MList):
            for s in list(v.segs):
                self.iter_seg(s, handler)
            return None
        if isinstance(v, MDict):
            for k in list(v.d):
                handler(k)
            if v.extra:
                raise Unsupported("iteration over a dict with unknown keys")
            return None
        if isinstance(v, SSeq):
            self.consume(v)
            return self.loop(v.n, v.at, handler)
        if isinstance(v, STup):
            if v.base is not None:
                self.loop(LEN(v.base), lambda j: SV(ITEM(v.base, j), False), handler)
            for x in v.items:
                handler(x)
            return None
        if isinstance(v, SV):
            if self.branch(self.is_kind(v, "list")):
                self.assume(LEN(v.e) >= 0)
                return self.loop(LEN(v.e), lambda j: self.elem(v, j), handler)
            if self.branch(self.is_kind(v, "dict")):
                self.assume(LEN(v.e) >= 0)
                return self.loop(LEN(v.e), lambda j: self.key_at(v, j), handler)
            if self.branch(V.is_strv(v.e)):
                return self.iterate(SStr(V.s(v.e)), handler)
            if v.json:
                return self.raise_(TypeError, "not iterable")
            raise Unsupported("iteration over an unknown object")
        if isinstance(v, SStr):
            return self.loop(z3.Length(v.e), lambda j: SStr(z3.SubString(v.e, j, 1)), handler)
        if isinstance(v, (SInt, SBool, SReal)) or v is None or isinstance(v, (int, float)):
            return self.raise_(TypeError, "not iterable")
        if isinstance(v, (SObj, NObj)):
            it = self.lookup_method(v, "__iter__") or self.lookup_method(v, "__aiter__")
            if it is not None:
                return self.iterate(self.call(it, [], {}), handler)
            nx = self.lookup_method(v, "__next__")
            raise Unsupported(f"iteration over {v.cls.__name__}")
        if isinstance(v, Sym):
            raise Unsupported(f"iteration over {type(v).__name__}")
        try:
            it = list(v) if not isinstance(v, (str, bytes)) else list(v)
        except TypeError:
            return self.raise_(TypeError, "not iterable")
        for x in it:
            handler(x)
        return None

    def run_gen(self, g, handler):
        tag = object()

        def h(x):
            try:
                handler(x)
            except (PyRaise, ReturnSig, BreakSig, ContinueSig, StopSig, Foreign) as e:
                raise Foreign(e, tag) from None

        try:
            g.run(h)
        except Foreign as e:
            if e.tag is tag:
                raise e.sig from None
            raise

    def iter_seg(self, s, handler):
        if s[0] == "item":
            handler(s[1])
            return
        _, n, paths, d0 = s

        def at(j):
            return j

        d = self.depth

        def h(_):
            sub = [(J(d0 + k), J(d + k)) for k in range(6)] if d0 != d else []
            k = self.choose(len(paths))
            pc, segs = paths[k]
            for f in pc:
                self.assume(z3.substitute(f, *sub) if sub else f, f.get_id() not in self.facts)
            if self.check(self.pc) == "unsat":
                raise Infeasible
            for sg in segs:
                self.iter_seg(subst_seg(sg, sub), handler)

        self.loop(n, at, h)

    # ---- kinds, conversions ---------------------------------------------------------------------
    def is_kind(self, v, kind):
        e = v.e
        if isinstance(v, SV) and v.json:
            self.json_fact(e)
        if kind == "list":
            return z3.And(V.is_ref(e), KIND(V.rid(e)) == LIST)
        if kind == "dict":
            return z3.And(V.is_ref(e), KIND(V.rid(e)) == DICT)
        raise Unsupported(kind)

    def json_fact(self, e):
        f = self.jfacts.get(e.get_id())
        if f is None:
            f = self.json_fact_of(e)
            self.jfacts[e.get_id()] = (f, e)
        else:
            f = f[0]
        if not z3.is_true(f):
            self.facts[f.get_id()] = f
            self.pc.append(f)

    def json_fact_of(self, e):
        return z3.simplify(z3.Implies(V.is_ref(e), z3.And(V.rid(e) >= 0, z3.Or(KIND(V.rid(e)) == LIST, KIND(V.rid(e)) == DICT))))

    def elem(self, v, j):
        return self.sv(ITEM(self.at_heap(v.e), j), v.json)

    def key_at(self, v, j):
        k = KEYAT(self.at_heap(v.e), j)
        self.assume(V.is_strv(k))
        self.assume(HAS(self.at_heap(v.e), k))
        return SStr(V.s(k))

    def at_heap(self, e):
        return e if self.heap is None else uf("at_heap", V, V, V)(self.heap, e)

    def sv(self, e, json=True):
        return SV(e, json)

    def raise_(self, cls, *args):
        ex = self.new(NObj(cls))
        ex.fields["args"] = tuple(args)
        if cls in (TypeError, AttributeError, NameError):
            self.implicit[ex.uid] = ex
        raise PyRaise(ex)

    def enc(self, v):
        """The V term of a value."""
        if isinstance(v, Poison):
            raise NeedCarried(v.key)
        if v is None:
            return V.none
        if isinstance(v, bool):
            return V.boolv(z3.BoolVal(v))
        if isinstance(v, int):
            return V.intv(z3.IntVal(v))
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return V.ref(z3.IntVal(-10 if v != v else -11 if v > 0 else -12))
            return V.realv(z3.RealVal(repr(v)))
        if isinstance(v, str):
            return V.strv(rstr(v))
        if isinstance(v, SV):
            return v.e
        if isinstance(v, SInt):
            return V.intv(v.e)
        if isinstance(v, SBool):
            return V.boolv(v.e)
        if isinstance(v, SReal):
            return V.realv(v.e)
        if isinstance(v, SStr):
            return V.strv(v.e)
        if isinstance(v, SObj):
            return v.e
        if isinstance(v, tuple):
            t = singleton(())
            for x in v:
                t = TCONS(t, self.enc(x))
            return t
        if isinstance(v, STup):
            t = v.base
            for x in v.items:
                t = TCONS(t, self.enc(x))
            return t
        if isinstance(v, SSeq) and v.term is not None:
            return v.term
        if isinstance(v, SSlice):
            return uf("mkslice", V, V, V, V)(self.enc(v.start), self.enc(v.stop), self.enc(v.step))
        if isinstance(v, NObj):
            names = sorted(n for n in v.fields if n not in self.ignored_fields(v.cls))
            args = [self.enc(v.fields[n]) for n in names]
            return uf(f"mk_{v.cls.__name__}_{'_'.join(names)}", *([V] * len(args)), V)(*args) if args else singleton(v.cls)
        if isinstance(v, (MList, GenFn, SSeq)):
            return self.enc_list(v)
        if isinstance(v, MDict):
            if v.extra:
                raise Unsupported("a dict with unknown keys as an argument")
            t = singleton(dict)
            for k, x in v.d.items():
                t = uf("dict_put", V, V, V, V)(t, self.enc(k), self.enc(x))
            return t
        if isinstance(v, BoundM):
            return uf("bound_method", V, V, V)(self.enc(v.obj), singleton(v.fn))
        if isinstance(v, SMap):
            return v.term
        if isinstance(v, StarArgs):
            return uf("star_args", V, V)(self.enc(v.seq))
        if isinstance(v, (frozenset, set)):
            return singleton_value(v)
        if isinstance(v, (list, dict)):
            return singleton_value(repr(v))
        if isinstance(v, slice):
            return uf("mkslice", V, V, V, V)(self.enc(v.start), self.enc(v.stop), self.enc(v.step))
        if isinstance(v, Sym):
            raise Unsupported(f"{type(v).__name__} as an argument")
        return singleton(v)

    def ignored_fields(self, cls):
        for c in cls.__mro__:
            if c.__name__ in self.shapes and self.shapes[c.__name__].ignore is not None:
                return self.shapes[c.__name__].ignore
        return ()

    def enc_list(self, v):
        m = v if isinstance(v, MList) else MList(self.collect(v))
        if all(s[0] == "item" for s in m.segs):
            t = singleton(list)
            for s in m.segs:
                t = uf("list_append", V, V, V)(t, self.enc(s[1]))
            return t
        from .equiv import segs_equal

        for const, other, depth in self.lists:
            if depth == self.depth and segs_equal(self, other, m.segs, self.pc) == "equal":
                return const
        c = z3.Const(f"listval!{len(self.lists)}", V)
        self.lists.append((c, list(m.segs), self.depth))
        return c

    def collect(self, v):
        """Segments of an iterable."""
        if isinstance(v, MList):
            return list(v.segs)
        m = self.new(MList())
        n = len(self.events)
        self.iterate(v, lambda x: m.segs.append(("item", x)))
        self.drop_loops(n)
        return list(m.segs)

    def drop_loops(self, n):
        """Loops that only filled a list are represented by the list itself."""
        keep = []
        for ev in self.events[n:]:
            if ev[0] == "loop" and not loop_has_effects(ev[1]):
                continue
            keep.append(ev)
        self.events[n:] = keep

    # ---- truth, equality ------------------------------------------------------------------------
    def truth(self, v):
        """z3 formula or bool for bool(v)."""
        if isinstance(v, Poison):
            raise NeedCarried(v.key)
        if isinstance(v, SBool):
            return v.e
        if isinstance(v, SInt):
            return v.e != 0
        if isinstance(v, SReal):
            return v.e != 0
        if isinstance(v, SStr):
            return v.e != z3.StringVal("")
        if isinstance(v, SV):
            e = v.e
            if v.json:
                self.json_fact(e)
            h = self.at_heap(e)
            other = uf("truthy_object", V, Bool)(e)
            cont = LEN(h) > 0
            self.assume(LEN(h) >= 0)
            isc = z3.Or(KIND(V.rid(e)) == LIST, KIND(V.rid(e)) == DICT)
            return z3.If(V.is_none(e), False, z3.If(V.is_boolv(e), V.b(e), z3.If(V.is_intv(e), V.i(e) != 0, z3.If(V.is_realv(e), V.r(e) != 0, z3.If(V.is_strv(e), V.s(e) != z3.StringVal(""), cont if v.json else z3.If(isc, cont, other))))))
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, STup):
            if v.items:
                return True
            self.assume(LEN(v.base) >= 0)
            return LEN(v.base) > 0
        if isinstance(v, SSeq):
            self.assume(v.n >= 0)
            return v.n > 0
        if isinstance(v, (SObj, NObj)):
            for name in ("__bool__", "__len__"):
                m = self.lookup_method(v, name)
                if m is not None:
                    return self.truth(self.call(m, [], {}))
            if isinstance(v, NObj) and issubclass(v.cls, list):
                raise Unsupported("truth of a list subclass")
            return True
        if isinstance(v, MList):
            return self.truth(self.length(v))
        if isinstance(v, MDict):
            if v.extra:
                raise Unsupported("truth of a dict with unknown keys")
            return bool(v.d)
        if isinstance(v, (GenFn, BoundM, Closure, SSlice)):
            return True
        return bool(v)

    def length(self, v):
        """len() as an int or SInt; raises TypeError."""
        if isinstance(v, Poison):
            raise NeedCarried(v.key)
        if isinstance(v, MList):
            if v.locked:
                raise Unsupported("length of a list that a loop is filling")
            if all(s[0] == "item" for s in v.segs):
                return len(v.segs)
            if all(s[0] == "item" or self.bm.one_each(s) for s in v.segs):
                for s in v.segs:
                    if s[0] == "loop":
                        self.assume(s[1] >= 0)
                return SInt(z3.simplify(sum((z3.IntVal(1) if s[0] == "item" else s[1] for s in v.segs), z3.IntVal(0))))
            t = self.enc_list(v)
            known = sum(1 for s in v.segs if s[0] == "item")
            self.assume(LEN(t) >= known)
            if len(v.segs) == 1 and all(len(segs) == 1 and segs[0][0] == "item" for _, segs in v.segs[0][2]):
                self.assume(LEN(t) == v.segs[0][1])
            return SInt(LEN(t))
        if isinstance(v, SSeq):
            self.assume(v.n >= 0)
            return SInt(v.n)
        if isinstance(v, STup):
            self.assume(LEN(v.base) >= 0)
            return SInt(LEN(v.base) + len(v.items))
        if isinstance(v, SStr):
            return SInt(z3.Length(v.e))
        if isinstance(v, SV):
            if v.json:
                self.json_fact(v.e)
            if self.branch(V.is_strv(v.e)):
                return SInt(z3.Length(V.s(v.e)))
            if self.branch(V.is_ref(v.e)):
                if not v.json and not self.branch(z3.Or(KIND(V.rid(v.e)) == LIST, KIND(V.rid(v.e)) == DICT)):
                    if self.branch(uf("has_len", V, Bool)(v.e)):
                        self.assume(LEN(v.e) >= 0)
                        return SInt(LEN(v.e))
                    return self.raise_(TypeError, "object has no len()")
                h = self.at_heap(v.e)
                self.assume(LEN(h) >= 0)
                self.assume(LEN(h) <= 2**53 - 1)  # no container that large fits into memory
                return SInt(LEN(h))
            return self.raise_(TypeError, "object has no len()")
        if isinstance(v, (SObj, NObj)):
            m = self.lookup_method(v, "__len__")
            if m is not None:
                return self.call(m, [], {})
            return self.raise_(TypeError, "object has no len()")
        if isinstance(v, MDict):
            if v.extra:
                raise Unsupported("len of a dict with unknown keys")
            return len(v.d)
        if isinstance(v, Sym):
            return self.raise_(TypeError, "object has no len()")
        try:
            return len(v)
        except TypeError as e:
            raise PyRaise(e) from None

    def num(self, v):
        """Real term of a number-typed value, or None."""
        if isinstance(v, bool):
            return z3.RealVal(int(v))
        if isinstance(v, int):
            return z3.RealVal(v)
        if isinstance(v, float):
            return z3.RealVal(repr(v)) if v == v and abs(v) != float("inf") else None
        if isinstance(v, SInt):
            return z3.ToReal(v.e)
        if isinstance(v, SReal):
            return v.e
        if isinstance(v, SBool):
            return z3.If(v.e, z3.RealVal(1), z3.RealVal(0))
        return None

    def eq(self, a, b):
        """Python == as a z3 formula or bool."""
        for x in (a, b):
            if isinstance(x, Poison):
                raise NeedCarried(x.key)
        if a is b and not isinstance(a, (float, NObj)):
            return True
        if not isinstance(a, Sym) and not isinstance(b, Sym) and not isinstance(a, tuple) and not isinstance(b, tuple):
            return bool(a == b)
        if isinstance(a, SInt) and isinstance(b, (int, SInt)) or isinstance(b, SInt) and isinstance(a, (int, SInt)):
            return self.int_term(a) == self.int_term(b)
        na, nb = self.num(a), self.num(b)
        if na is not None and nb is not None:
            return na == nb
        sa, sb = self.str_term(a), self.str_term(b)
        if sa is not None and sb is not None:
            return sa == sb
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a, b)])
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (NObj, SObj)):
                m = self.lookup_method(x, "__eq__")
                if m is not None:
                    return self.truth(self.call(m, [y], {}))
                if isinstance(x, SObj) and isinstance(y, SObj):
                    return x.e == y.e
                if isinstance(y, SV):
                    return self.enc(x) == y.e
                return x is y
        if isinstance(a, (SV,)) or isinstance(b, (SV,)):
            scal = (SV, SInt, SStr, SBool, SReal, int, float, str, bool, type(None))
            x, y = (a, b) if isinstance(a, SV) else (b, a)
            if isinstance(y, SV):
                if x.json and y.json:
                    # an array never equals an object
                    kx, ky = KIND(V.rid(x.e)), KIND(V.rid(y.e))
                    self.assume(z3.Implies(z3.And(V.is_ref(x.e), V.is_ref(y.e), PYEQ(x.e, y.e)), kx == ky))
                return self.v_eq(x.e, y.e)
            if isinstance(y, (MList, MDict, SSeq, list, dict)):
                if isinstance(y, (MList, list)) and not (y.segs if isinstance(y, MList) else y):
                    h = self.at_heap(x.e)
                    return z3.And(self.is_kind(x, "list"), LEN(h) == 0)
                if isinstance(y, (MDict, dict)) and not (y.d if isinstance(y, MDict) else y):
                    h = self.at_heap(x.e)
                    return z3.And(self.is_kind(x, "dict"), LEN(h) == 0)
                return PYEQ(x.e, self.enc(y))
            if isinstance(y, scal):
                return self.v_eq(x.e, self.enc(y))
            if isinstance(y, Sym) or isinstance(y, tuple):
                return PYEQ(x.e, self.enc(y))
            # a raw object: its own __eq__ if it is the repository's
            m = type(y).__dict__.get("__eq__")
            if isinstance(m, types.FunctionType):
                return self.truth(self.call_function(m, [y, x], {}))
            if x.json:
                return False
            return x.e == singleton(y)
        for x, y in ((a, b), (b, a)):
            m = None if isinstance(x, Sym) else getattr(type(x), "__eq__", None)
            if isinstance(m, types.FunctionType):
                return self.truth(self.call_function(m, [x, y], {}))
        if isinstance(a, (STup, tuple)) and isinstance(b, (STup, tuple)):
            return self.tup_eq(a, b)
        if isinstance(a, (MList, list)) and isinstance(b, (MList, list)):
            sa = a.segs if isinstance(a, MList) else [("item", x) for x in a]
            sb = b.segs if isinstance(b, MList) else [("item", x) for x in b]
            if all(s[0] == "item" for s in sa) and all(s[0] == "item" for s in sb):
                if len(sa) != len(sb):
                    return False
                return self.conj([self.eq(x[1], y[1]) for x, y in zip(sa, sb)])
            if not sa or not sb:
                v = a if sa else b
                return self.neg(self.truth(v))
            return PYEQ(self.enc(a), self.enc(b))
        if isinstance(a, (SSlice, slice)) and isinstance(b, (SSlice, slice)):
            return self.conj([self.eq(a.start, b.start), self.eq(a.stop, b.stop), self.eq(a.step, b.step)])
        if isinstance(a, SSeq) and isinstance(b, SSeq) and pytype_of(a) is pytype_of(b):
            if self.branch(a.n == 0):
                return b.n == 0
            return self.conj([b.n != 0, PYEQ(self.enc(a), self.enc(b))])
        if isinstance(a, (SSeq, MList, GenFn)) or isinstance(b, (SSeq, MList, GenFn)):
            return PYEQ(self.enc(a), self.enc(b))
        # remaining pairs are of different types
        return False

    def tup_eq(self, a, b):
        if isinstance(a, tuple):
            a = STup(singleton(()), a) if not isinstance(b, tuple) else a
        if isinstance(b, tuple):
            b = STup(singleton(()), b)
        ia, ib = list(a.items), list(b.items)
        out = []
        while ia and ib:
            out.append(self.eq(ia.pop(), ib.pop()))
        ta, tb = a.base, b.base
        for x in ia:
            ta = TCONS(ta, self.enc(x))
        for x in ib:
            tb = TCONS(tb, self.enc(x))
        return self.conj(out + [ta == tb])

    def v_eq(self, x, y):
        if x.eq(y):
            return True
        isnum = lambda t: z3.Or(V.is_boolv(t), V.is_intv(t), V.is_realv(t))
        val = lambda t: z3.If(V.is_boolv(t), z3.If(V.b(t), z3.RealVal(1), z3.RealVal(0)), z3.If(V.is_intv(t), z3.ToReal(V.i(t)), V.r(t)))
        return z3.Or(
            x == y,
            z3.And(isnum(x), isnum(y), val(x) == val(y)),
            z3.And(V.is_ref(x), V.is_ref(y), PYEQ(x, y)),
        )

    def conj(self, fs):
        out = []
        for f in fs:
            if f is True:
                continue
            if f is False:
                return False
            out.append(f)
        return True if not out else out[0] if len(out) == 1 else z3.And(*out)

    def disj(self, fs):
        return self.neg(self.conj([self.neg(f) for f in fs]))

    def neg(self, f):
        return (not f) if isinstance(f, bool) else z3.Not(f)

    def int_term(self, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(int(v))
        if isinstance(v, SInt):
            return v.e
        if isinstance(v, SBool):
            return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
        return None

    def str_term(self, v):
        if isinstance(v, str):
            return rstr(v)
        if isinstance(v, SStr):
            return v.e
        return None

    def mkbool(self, f):
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        return True if z3.is_true(f) else False if z3.is_false(f) else SBool(f)

    def narrow(self, v):
        """Give an SV the scalar type the path already entails, or fork on its type."""
        if isinstance(v, Poison):
            raise NeedCarried(v.key)
        if not isinstance(v, SV):
            return v
        e = z3.simplify(v.e)
        for test, mk in ((V.is_strv, lambda: SStr(z3.simplify(V.s(e)))), (V.is_intv, lambda: SInt(z3.simplify(V.i(e)))), (V.is_boolv, lambda: SBool(z3.simplify(V.b(e)))), (V.is_realv, lambda: SReal(z3.simplify(V.r(e)))), (V.is_none, lambda: None)):
            if self.branch(test(e)):
                return mk()
        return v

    def int_str(self, n):
        if self.ints:
            self.assume(self.int_str_facts(n))
        return INTSTR(n)

    def int_str_facts(self, n):
        """The decimal spelling of an integer is canonical and reads back."""
        s = INTSTR(n)
        return z3.And(z3.InRe(s, self.bm.canon_int()), uf("int_of_text", Str, Int)(s) == n, uf("is_int_text", Str, Bool)(s), (n < 0) == z3.PrefixOf(z3.StringVal("-"), s), z3.Length(s) > 0, z3.Implies(n < 0, s == z3.Concat(z3.StringVal("-"), INTSTR(z3.simplify(-n)))))

    def to_str(self, v):
        """str(v) as a raw str or SStr."""
        if isinstance(v, Poison):
            raise NeedCarried(v.key)
        if isinstance(v, SStr):
            return v
        if isinstance(v, SInt):
            return SStr(self.int_str(v.e))
        if isinstance(v, SBool):
            return SStr(z3.If(v.e, z3.StringVal("True"), z3.StringVal("False")))
        if isinstance(v, SReal):
            return SStr(TOSTR(V.realv(v.e)))
        if isinstance(v, SV):
            e = v.e
            if self.ints:
                self.assume(z3.Implies(V.is_intv(e), self.int_str_facts(V.i(e))))
            return SStr(z3.If(V.is_strv(e), V.s(e), z3.If(V.is_intv(e), INTSTR(V.i(e)), z3.If(V.is_none(e), z3.StringVal("None"), TOSTR(e)))))
        if isinstance(v, NObj) and v.cls is json.JSONDecodeError and self.texts and len(v.fields.get("args", ())) == 1:
            # its message always ends in the place of the error
            e = uf("excstr", V, Str)(self.enc(v.fields["args"][0]))
            self.assume(z3.Contains(e, z3.StringVal(": line ")))
            return SStr(e)
        if isinstance(v, (SObj, NObj)):
            m = self.lookup_method(v, "__str__")
            if m is not None:
                return self.call(m, [], {})
            m = self.lookup_method(v, "__repr__")
            if m is not None:
                return self.call(m, [], {})
            return SStr(TOSTR(self.enc(v)))
        if isinstance(v, (MList, MDict, STup, SSeq, SSlice, GenFn)):
            try:
                return SStr(TOSTR(self.enc(v)))
            except Unsupported:
                return SStr(self.fresh("str", Str))
        if isinstance(v, tuple) and any(isinstance(x, Sym) for x in v):
            return SStr(TOSTR(self.enc(v)))
        if isinstance(v, Sym):
            raise Unsupported(f"str({type(v).__name__})")
        m = type(v).__dict__.get("__str__")
        try:
            return str(v)
        except Exception as e:  # noqa: BLE001
            raise PyRaise(e) from None

    # ---- attributes -----------------------------------------------------------------------------
    def shape(self, cls, attr):
        for c in cls.__mro__:
            s = self.shapes.get(c.__name__)
            if s and attr in s.fields:
                return s.fields[attr]
        return None

    def field_value(self, ty, term):
        """The value of a contract shape at a V term."""
        if callable(ty):
            return ty(self, term)
        if ty == "int":
            t = uf("as_int", V, Int)(term)
            self.assume(term == V.intv(t))
            return SInt(t)
        if ty == "str":
            t = uf("as_str", V, Str)(term)
            self.assume(term == V.strv(t))
            return SStr(t)
        if ty == "bool":
            t = uf("as_bool", V, Bool)(term)
            self.assume(term == V.boolv(t))
            return SBool(t)
        if ty == "real":
            t = uf("as_real", V, Real)(term)
            self.assume(term == V.realv(t))
            return SReal(t)
        if ty == "json":
            self.json_fact(term)
            return SV(term, True)
        if ty == "any":
            return SV(term, False)
        if ty == "tuple":
            return STup(term)
        if isinstance(ty, tuple) and ty[0] == "obj":
            cls = self.shapes.cls(ty[1])
            self.assume(V.is_ref(term))
            self.assume(KIND(V.rid(term)) == OTHER)
            return SObj(cls, term)
        if isinstance(ty, tuple) and ty[0] in ("seq", "list"):
            self.assume(LEN(term) >= 0)
            self.assume(V.is_ref(term))
            return SSeq(LEN(term), lambda j: self.field_value(ty[1], ITEM(term, j)), term, ty[2] if len(ty) > 2 else ty[0])
        if isinstance(ty, tuple) and ty[0] == "map":
            return SMap(term, ty[1])
        if isinstance(ty, tuple) and ty[0] == "mlist":
            # a list the callee made for its caller
            self.assume(LEN(term) >= 0)
            self.assume(V.is_ref(term))
            d = self.depth
            self.depth = d + 1
            try:
                x = self.field_value(ty[1], ITEM(term, J(d)))
            finally:
                self.depth = d
            return self.new(MList([("loop", LEN(term), [([], [("item", x)])], d)]))
        if isinstance(ty, tuple) and ty[0] == "rseq":
            # a lazy sequence: asking for an element may raise instead
            self.assume(LEN(term) >= 0)
            self.assume(V.is_ref(term))

            def at(j):
                for cls in ty[2]:
                    if self.branch(uf(f"item_raises_{cls.__name__}", V, Int, Bool)(term, j)):
                        ex = self.new(NObj(cls))
                        ex.fields["args"] = (SV(uf("item_exc", V, Int, V)(term, j), False),)
                        ex.fields["token"] = SV(uf("item_exc_token", V, Int, V)(term, j), False)
                        raise PyRaise(ex)
                return self.field_value(ty[1], ITEM(term, j))

            return SSeq(LEN(term), at, term, "seq")
        if isinstance(ty, tuple) and ty[0] == "opt":
            if self.branch(V.is_none(term)):
                return None
            return self.field_value(ty[1], term)
        if isinstance(ty, tuple) and ty[0] == "const":
            return ty[1]
        if isinstance(ty, tuple) and ty[0] == "oneof":
            for k, t in enumerate(ty[1][:-1]):
                if self.branch(uf("variant", V, Int)(term) == k):
                    return self.field_value(t, term)
            return self.field_value(ty[1][-1], term)
        raise Unsupported(f"shape {ty!r}")

    def getattr_(self, o, name):
        if isinstance(o, Poison):
            raise NeedCarried(o.key)
        if isinstance(o, SObj):
            key = (o.e.get_id(), name)
            if key in self.overrides:
                return self.overrides[key][1]
            cls = self.refined.get(o.e.get_id(), (o.cls,))[0]
            cls = cls if issubclass(cls, o.cls) else o.cls
            ty = self.shape(cls, name)
            if ty is not None:
                return self.field_value(ty, uf(f"f_{name}", V, V)(o.e))
            return self.class_attr(o, cls, name)
        if isinstance(o, NObj):
            if name in o.fields:
                return o.fields[name]
            if name == "__class__":
                return o.cls
            return self.class_attr(o, o.cls, name)
        if isinstance(o, SSlice) and name in ("start", "stop", "step"):
            return getattr(o, name)
        if isinstance(o, Super):
            for c in o.mro:
                if name in c.__dict__:
                    return self.bind(o.obj, c.__dict__[name], c)
            raise Unsupported(f"super().{name}")
        if isinstance(o, Sym):
            if isinstance(o, BoundM) and name in ("__name__", "__doc__"):
                if isinstance(o.fn, str):
                    return SStr(uf("class_name", V, Str)(self.enc(o.obj))) if o.fn == "__class__" else o.fn
                return getattr(o.fn, name)
            return BoundM(o, name)
        if isinstance(o, (str, list, dict, tuple, set, frozenset, bytes)) and not isinstance(o, type):
            if not hasattr(o, name):
                return self.raise_(AttributeError, name)
            return BoundM(o, name)
        try:
            v = inspect.getattr_static(o, name)
        except AttributeError:
            if not hasattr(o, name):
                return self.raise_(AttributeError, name)
            return getattr(o, name)
        if isinstance(v, types.FunctionType) and not isinstance(o, (type, types.ModuleType)) and name not in getattr(o, "__dict__", {}):
            return BoundM(o, v, type(o))
        return getattr(o, name)

    def class_attr(self, o, cls, name):
        if name == "__class__":
            return cls
        for c in cls.__mro__:
            if name in c.__dict__:
                v = c.__dict__[name]
                if isinstance(v, types.MemberDescriptorType):
                    break
                return self.bind(o, v, c)
        # an attribute of a subclass the contract's class may be refined to
        raise Unsupported(f"{cls.__name__}.{name} is not part of the contract's shape")

    def bind(self, o, v, c):
        if isinstance(v, types.FunctionType):
            return BoundM(o, v, c)
        if isinstance(v, staticmethod):
            return v.__func__
        if isinstance(v, classmethod):
            cls = o.cls if isinstance(o, (SObj, NObj)) else o
            return BoundM(cls, v.__func__, c)
        if isinstance(v, property):
            return self.call_function(v.fget, [o], {}, c)
        if isinstance(v, (types.WrapperDescriptorType, types.MethodDescriptorType)):
            return BoundM(o, v, c)
        return v

    def lookup_method(self, o, name):
        """A repository-defined method of o's class, bound; None if it is object's or a builtin's."""
        cls = o.cls
        if isinstance(o, SObj):
            cls = self.refined.get(o.e.get_id(), (o.cls,))[0]
            s = self.abstract_method(cls, name)
            if s is not None:
                return BoundM(o, AbstractMethod(name, s), cls)
        for c in cls.__mro__:
            if name in c.__dict__:
                v = c.__dict__[name]
                if isinstance(v, types.FunctionType):
                    return BoundM(o, v, c)
                return None
        return None

    def abstract_method(self, cls, name):
        for c in cls.__mro__:
            s = self.shapes.get(c.__name__)
            if s and name in s.methods:
                return s.methods[name]
        return None

    def setattr_(self, o, name, v):
        if isinstance(o, NObj):
            for c in o.cls.__mro__:
                d = c.__dict__.get(name)
                if isinstance(d, property):
                    if d.fset is None:
                        self.raise_(AttributeError, name)
                    self.call_function(d.fset, [o, v], {}, c)
                    return
            o.fields[name] = v
            return
        if isinstance(o, SObj):
            s = self.shapes.get(o.cls.__name__)
            if name in self.ignored_fields(o.cls):
                return
            self.events.append(("effect", "setattr", (o, name, v)))
            self.overrides[(o.e.get_id(), name)] = (o, v)
            return
        raise Unsupported(f"assignment to an attribute of {type(o).__name__}")

    # ---- calls ----------------------------------------------------------------------------------
    def call(self, f, args, kw):
        for a in list(args) + list(kw.values()) + [f]:
            if isinstance(a, Poison):
                raise NeedCarried(a.key)
        if isinstance(f, BoundM):
            if isinstance(f.fn, AbstractMethod):
                return self.call_abstract(f.fn.name, f.fn.spec, f.obj, args, kw)
            if isinstance(f.obj, SObj) and isinstance(f.fn, types.FunctionType):
                cls = self.refined.get(f.obj.e.get_id(), (f.obj.cls,))[0]
                s = self.abstract_method(cls, f.fn.__name__) if f.cls is None or issubclass(cls, f.cls) else None
                if s is not None and not getattr(f, "direct", False):
                    return self.call_abstract(f.fn.__name__, s, f.obj, args, kw)
            if isinstance(f.fn, str):
                return self.bm.method(self, f.obj, f.fn, args, kw)
            if isinstance(f.fn, types.FunctionType):
                return self.call_function(f.fn, [f.obj, *args], kw, f.cls)
            # slot wrappers of builtin bases
            return self.bm.slot(self, f.obj, f.fn, args, kw)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kw)
        if isinstance(f, Partial):
            return self.call(f.fn, [*f.args, *args], {**f.kw, **kw})
        if isinstance(f, types.FunctionType):
            return self.call_function(f, args, kw)
        if isinstance(f, types.MethodType):
            return self.call_function(f.__func__, [f.__self__, *args], kw)
        if isinstance(f, type):
            if f in self.models:
                return self.models[f](self, args, kw)
            if self.is_repo(f):
                return self.construct(f, args, kw)
            if issubclass(f, BaseException):
                ex = self.new(NObj(f))
                ex.fields["args"] = tuple(args)
                return ex
        try:
            if f in self.models:
                return self.models[f](self, args, kw)
        except TypeError:
            pass
        if isinstance(f, SObj) or isinstance(f, NObj):
            m = self.lookup_method(f, "__call__")
            if m is not None:
                return self.call(m, args, kw)
        if isinstance(f, SV):
            # an unknown callable: a pure function of its arguments that may raise
            return self.call_abstract("__call__", ("any",), f, args, kw)
        if isinstance(f, types.BuiltinMethodType) and f.__name__ == "write" and any(f.__self__ is x for x in (sys.stdout, sys.stderr)) and len(args) == 1 and not kw:
            return self.bm.write(self, f.__self__, args[0])
        if isinstance(f, types.BuiltinMethodType) and isinstance(f.__self__, re.Pattern) and any(isinstance(a, Sym) for a in args):
            return regex.method(self, f.__self__, f.__name__, args)
        if f in (re.fullmatch, re.match, re.search) and len(args) >= 2 and isinstance(args[0], str) and isinstance(args[1], Sym) and not any(isinstance(a, Sym) for a in args[2:]):
            return regex.method(self, re.compile(args[0], *args[2:]), f.__name__, args[1:2])
        if not isinstance(f, Sym) and not any(isinstance(a, Sym) or self.deep_sym(a) for a in [*args, *kw.values()]):
            if callable(f) and not self.is_repo(f):
                try:
                    return f(*args, **kw)
                except Exception as e:  # noqa: BLE001
                    raise PyRaise(e) from None
        raise Unsupported(f"call of {f!r}"[:120])

    def deep_sym(self, a):
        return isinstance(a, tuple) and any(isinstance(x, Sym) or self.deep_sym(x) for x in a)

    def is_repo(self, f):
        m = getattr(f, "__module__", "") or ""
        return m == "jsonpath" or m.startswith(("jsonpath.", "vf.contracts", "vf.selftest"))

    def call_abstract(self, name, spec, obj, args, kw):
        """A callee known by its contract only: a pure function of receiver, arguments and heap."""
        if callable(spec):
            return spec(self, obj, args, kw)
        for x in [*args, *kw.values()]:
            if isinstance(x, SSeq):
                self.consume(x)
        base = name[:-6] if name.endswith("_async") else name
        if base == "resolve" and args and isinstance(obj, SObj) and any(c.__name__ == "JSONPathSelector" for c in obj.cls.__mro__):
            if isinstance(args[0], tuple):  # an iterable of matches: only its items count, whatever it is
                args = [self.new(MList([("item", x) for x in args[0]])), *args[1:]]
        terms = [self.enc(obj)] + [self.enc(a) for a in args] + [self.enc(kw[k]) for k in sorted(kw)]
        if self.heap is not None:
            terms.append(self.heap)
        nm = f"m_{base}" + ("_" + "_".join(sorted(kw)) if kw else "")
        return self.abstract_result(nm, terms, spec)

    def abstract_result(self, nm, terms, spec):
        ret, raises = (spec[0], spec[1]) if isinstance(spec, tuple) and len(spec) == 2 and isinstance(spec[1], (list, frozenset)) else (spec if not (isinstance(spec, tuple) and len(spec) == 1) else spec[0], [])
        for cls in raises:
            if self.branch(uf(f"{nm}_raises_{cls.__name__}", *([V] * len(terms)), Bool)(*terms)):
                ex = self.new(NObj(cls))
                ex.fields["args"] = (SV(uf(f"{nm}_exc", *([V] * len(terms)), V)(*terms), False),)
                ex.fields["token"] = SV(uf(f"{nm}_exc_token", *([V] * len(terms)), V)(*terms), False)
                raise PyRaise(ex)
        return self.field_value(ret, uf(nm, *([V] * len(terms)), V)(*terms))

    def construct(self, cls, args, kw):
        if cls in self.abstract:
            return self.abstract[cls](self, args, kw)
        o = self.new(NObj(cls))
        for c in cls.__mro__:
            if "__init__" in c.__dict__:
                init = c.__dict__["__init__"]
                if isinstance(init, types.FunctionType):
                    if self.is_repo(c):
                        self.call_function(init, [o, *args], kw, c)
                        return o
                    raise Unsupported(f"{c}.__init__")
                if issubclass(cls, BaseException):
                    o.fields["args"] = tuple(args)
                    return o
                if issubclass(cls, list):
                    m = self.new(MList((), cls))
                    if args:
                        m.segs = self.collect(args[0])
                    return m
                if issubclass(cls, dict):
                    if args:
                        raise Unsupported(f"construct {cls}")
                    return self.new(MDict(kw, cls))
                if c is object:
                    if issubclass(cls, __import__("enum").Enum):
                        raise Unsupported("enum")
                    return o
                raise Unsupported(f"construct {cls}")
        return o

    def call_function(self, fn, args, kw, cls=None):
        if fn in self.abstract:
            for x in [*args, *kw.values()]:
                if isinstance(x, SSeq):
                    self.consume(x)
            r = self.abstract[fn](self, args, kw)
            if r is not NotImplemented:  # (the contract says nothing of these arguments)
                return r
        if fn in self.models:
            return self.models[fn](self, args, kw)
        if not self.is_repo(fn):
            if not any(isinstance(a, Sym) or self.deep_sym(a) for a in [*args, *kw.values()]):
                try:
                    return fn(*args, **kw)
                except Exception as e:  # noqa: BLE001
                    raise PyRaise(e) from None
            raise Unsupported(f"call of {fn.__module__}.{fn.__qualname__}")
        node = source_of(fn)
        if sum(c is fn for c in self.calls) > (0 if ("rec_ret", fn) in self.abstract else self.unroll):
            return self.recursive(fn, args, kw)
        self.inlined.add(f"{fn.__module__}.{fn.__qualname__}")
        frame = Frame(fn.__globals__, None, cls or self.defining_class(fn), fn.__qualname__)
        if fn.__closure__:
            for nm, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    frame.locals[nm] = cell.cell_contents
                except ValueError:
                    pass
        defaults = list(fn.__defaults__ or ())
        return self.enter(node, frame, args, kw, defaults, dict(fn.__kwdefaults__ or {}), fn)

    def defining_class(self, fn):
        q = fn.__qualname__.split(".")
        if len(q) < 2 or "<locals>" in q:
            return None
        m = sys.modules.get(fn.__module__)
        c = m
        for part in q[:-1]:
            c = getattr(c, part, None)
        return c if isinstance(c, type) else None

    exact = False  # case distinctions about what is in a text are wanted
    unroll = 0  # how often a function without a contract may be entered again (given with inputs of known length only)

    def recursive(self, fn, args, kw):
        name = self.abstract.get(("rec", fn)) or fn.__name__
        ret = self.abstract.get(("rec_ret", fn))
        if ret is None:
            raise Unsupported(f"recursive call of {fn.__qualname__} without a contract")
        node = source_of(fn)
        pos = [a.arg for a in node.args.posonlyargs + node.args.args]
        vals = dict(zip(pos, args))
        vals.update(kw)
        terms = [self.enc(vals[k]) for k in pos if k in vals] + [self.enc(vals[k]) for k in sorted(vals) if k not in pos]
        return self.abstract_result(f"rec_{name}", terms, ret)

    def call_closure(self, c, args, kw):
        h = self.abstract.get(("closure", c.name.rsplit(".", 1)[-1]))
        if h is not None:
            r = h(self, args, kw)
            if r is not NotImplemented:
                return r
        frame = Frame(c.glob, c.frame, c.frame.cls if c.frame else None, c.name)
        return self.enter(c.node, frame, args, kw, c_defaults(c), c_kwdefaults(c), c)

    def enter(self, node, frame, args, kw, defaults, kwdefaults, ident):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        loc = frame.locals
        star = next((i for i, x in enumerate(args) if isinstance(x, StarArgs)), None)
        if star is not None:
            if not a.vararg or star < len(pos) or any(isinstance(x, StarArgs) for x in args[star + 1 :]):
                raise Unsupported("arguments of unknown number")
            rest = [("item", x) for x in args[len(pos) : star]] + list(args[star].seq.segs) + [("item", x) for x in args[star + 1 :]]
            loc[a.vararg.arg] = self.new(MList(rest, tuple))
            args = args[: len(pos)]
        elif len(args) > len(pos):
            if not a.vararg:
                self.raise_(TypeError, "too many arguments")
            loc[a.vararg.arg] = tuple(args[len(pos) :])
            args = args[: len(pos)]
        elif a.vararg:
            loc[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            loc[n] = v
        off = len(pos) - len(defaults)
        for i, n in enumerate(pos):
            if i >= len(args):
                if n in kw:
                    loc[n] = kw.pop(n)
                elif i >= off:
                    loc[n] = defaults[i - off]
                else:
                    self.raise_(TypeError, f"missing argument {n}")
            elif n in kw:
                self.raise_(TypeError, f"multiple values for {n}")
        for x in a.kwonlyargs:
            if x.arg in kw:
                loc[x.arg] = kw.pop(x.arg)
            elif x.arg in kwdefaults:
                loc[x.arg] = kwdefaults[x.arg]
            else:
                self.raise_(TypeError, f"missing argument {x.arg}")
        if a.kwarg:
            loc[a.kwarg.arg] = self.new(MDict(kw))
        elif kw:
            self.raise_(TypeError, "unexpected keyword argument")
        if isinstance(node, ast.Lambda):
            return self.in_frame(frame, ident, lambda: self.ev(node.body))
        if is_gen(node):

            def run(handler):
                def go():
                    frame.yield_handler = handler
                    try:
                        self.block(node.body)
                    except ReturnSig:
                        pass

                return self.in_frame(frame, ident, go)

            return GenFn(run, node.name)

        def go():
            try:
                self.block(node.body)
            except ReturnSig as r:
                return r.v
            return None

        return self.in_frame(frame, ident, go)

    def in_frame(self, frame, ident, go):
        if len(self.calls) > self.MAXDEPTH:
            raise Unsupported("call depth")
        self.frames.append(frame)
        self.calls.append(ident)
        n, m = len(self.frames), len(self.calls)
        try:
            return go()
        finally:
            del self.frames[n - 1 :]
            del self.calls[m - 1 :]

    @property
    def frame(self):
        return self.frames[-1]

    # ---- statements -----------------------------------------------------------------------------
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        m(s)

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        raise Unsupported("global")

    def s_Nonlocal(self, s):
        self.frame.nonlocals |= set(s.names)

    def s_Import(self, s):
        for a in s.names:
            m = __import__(a.name)
            if a.asname:
                for part in a.name.split(".")[1:]:
                    m = getattr(m, part)
            self.store_name(a.asname or a.name.split(".")[0], m)

    def s_ImportFrom(self, s):
        import importlib

        pkg = self.frame.glob.get("__package__")
        mod = importlib.import_module("." * s.level + (s.module or ""), pkg) if s.level else importlib.import_module(s.module)
        for a in s.names:
            try:
                v = getattr(mod, a.name)
            except AttributeError:
                v = importlib.import_module(mod.__name__ + "." + a.name)
            self.store_name(a.asname or a.name, v)

    def s_Return(self, s):
        raise ReturnSig(self.ev(s.value) if s.value is not None else None)

    def s_Break(self, s):
        raise BreakSig

    def s_Continue(self, s):
        raise ContinueSig

    def s_If(self, s):
        if self.branch(self.truth(self.ev(s.test))):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def s_Assert(self, s):
        if not self.branch(self.truth(self.ev(s.test))):
            self.raise_(AssertionError)

    def s_Raise(self, s):
        if s.exc is None:
            cur = self.frame.locals.get("$exc")
            if cur is None:
                raise Unsupported("bare raise outside an except block")
            raise PyRaise(cur)
        v = self.ev(s.exc)
        if isinstance(v, type):
            v = self.call(v, [], {})
        if s.cause is not None:
            self.ev(s.cause)
        raise PyRaise(v)

    def exc_class(self, e):
        return e.cls if isinstance(e, (NObj, SObj)) else type(e)

    def s_Try(self, s):
        def main():
            try:
                self.block(s.body)
            except PyRaise as e:
                cls = self.exc_class(e.exc)
                for h in s.handlers:
                    t = self.ev(h.type) if h.type is not None else BaseException
                    ts = t if isinstance(t, tuple) else (t,)
                    if any(issubclass(cls, x) for x in ts):
                        if h.name:
                            self.store_name(h.name, e.exc)
                        old = self.frame.locals.get("$exc")
                        self.frame.locals["$exc"] = e.exc
                        fr = self.frame
                        try:
                            self.block(h.body)
                        finally:
                            fr.locals["$exc"] = old
                        return
                raise
            else:
                self.block(s.orelse)

        if s.finalbody:
            try:
                main()
            except (PyRaise, ReturnSig, BreakSig, ContinueSig, StopSig, Foreign):
                self.block(s.finalbody)
                raise
            self.block(s.finalbody)
        else:
            main()

    def s_With(self, s):
        cms = [self.ev(i.context_expr) for i in s.items]
        for c, i in zip(cms, s.items):
            if not isinstance(c, contextlib.suppress) or i.optional_vars is not None:
                raise Unsupported("with statement")
        try:
            self.block(s.body)
        except PyRaise as e:
            cls = self.exc_class(e.exc)
            if any(issubclass(cls, c._exceptions) for c in cms):
                return
            raise

    def s_For(self, s):
        it = self.ev(s.iter)
        fr = self.frame
        body = s.body

        def handler(x):
            # the body runs in its own function's frame, whatever generator is being consumed
            self.frames.append(fr)
            n = len(self.frames)
            try:
                self.assign(s.target, x)
                self.block(body)
            except ContinueSig:
                pass
            finally:
                del self.frames[n - 1 :]

        try:
            self.iterate(it, handler)
        except BreakSig:
            return
        self.block(s.orelse)

    s_AsyncFor = s_For

    def s_While(self, s):
        inv = self.invariants.get(self.frame.name)
        if inv is not None:
            return self.while_by_invariant(s, inv)
        for _ in range(64):
            c = self.truth(self.ev(s.test))
            if not isinstance(c, bool):
                c = z3.simplify(c)
                if z3.is_true(c) or z3.is_false(c):
                    c = z3.is_true(c)
                else:
                    raise Unsupported("while loop with an unknown condition")
            if not c:
                self.block(s.orelse)
                return
            try:
                self.block(s.body)
            except ContinueSig:
                continue
            except BreakSig:
                return
        raise Unsupported("while loop")

    def while_by_invariant(self, s, inv):
        """A loop by its invariant: the variables (and fields of objects) named in it keep to their types, nothing else that lives on changes.

        The invariant holds on entry; from any state it allows, an iteration ends in such a state or leaves the loop.
        """
        loc = self.frame.locals
        types_ = {}
        for name, ty in inv.items():
            if name not in loc or name == "where":
                continue
            types_[name] = ty
            self.keeps(loc[name], ty, f"{name} on entry")
        havoced = {}
        names = {n.id for n in ast.walk(s.test) if isinstance(n, ast.Name)}
        where = (lambda it, loc: inv["where"](it, loc, names)) if "where" in inv else lambda it, loc: []
        where_on_entry = list(where(self, loc))
        for name, ty in types_.items():
            if isinstance(ty, dict):
                o = loc[name]
                for f, t in ty.items():
                    o.fields[f] = self.field_value(t, self.fresh(f"any_{name}_{f}", V))
                havoced[id(o)] = o
            else:
                v = self.field_value(ty, self.fresh(f"any_{name}", V))
                if isinstance(v, MList):
                    o = loc[name]
                    self.mutables.remove(v)
                    o.segs = list(v.segs)
                    for x in o.segs:
                        self.typed_segs[id(x)] = (x, ty)
                    havoced[id(o)] = o
                else:
                    loc[name] = v
        for name in assigned(s.body):
            if name not in types_:
                loc[name] = Poison(("while", name))
        for f in where_on_entry:
            if self.check([*self.pc, z3.Not(f)]) != "unsat":
                raise Unsupported("the invariant on entry")
        for f in where(self, loc):
            self.assume(f)
        old = {k: loc[k] for k in loc}
        start = {i: list(o.segs) for i, o in havoced.items() if isinstance(o, MList)}
        others = [(m, m.save()) for m in self.mutables if id(m) not in havoced]
        heap0, over0, nconsumed = self.heap, dict(self.overrides), set(self.consumed)
        if not self.branch(self.truth(self.ev(s.test))):
            self.block(s.orelse)
            return
        try:
            self.block(s.body)
        except ContinueSig:
            pass
        except BreakSig:
            return
        if self.heap is not heap0 or self.overrides.keys() != over0.keys() or any(self.overrides[k] is not over0[k] for k in over0):
            raise Unsupported("a document is changed in a while loop")
        for m, sv in others:
            if not same_state(sv, m.save()):
                raise Unsupported("an object outside the invariant is changed in a while loop")
        if any(i in self.consumed and i not in nconsumed for v in old.values() for i in [id(v)]):
            raise Unsupported("an iterator is used up in a while loop")
        for name, ty in types_.items():
            v = loc.get(name)
            if isinstance(ty, dict) and v is not old[name]:
                raise Unsupported(f"{name} is another object after an iteration")
            self.keeps(v, ty, f"{name} after an iteration", start.get(id(v)))
        for f in where(self, loc):
            if self.check([*self.pc, z3.Not(f)]) != "unsat":
                raise Unsupported("the invariant after an iteration")
        for name, v in old.items():
            if name not in types_ and loc.get(name) is not v and not isinstance(v, Poison):
                raise Unsupported(f"{name} changes in a while loop")
        raise Infeasible

    def keeps(self, v, ty, what, known=()):
        """v is of the type: checked, not assumed."""
        if isinstance(ty, dict):
            if not isinstance(v, NObj):
                raise Unsupported(f"{what}: not an object made here")
            for f, t in ty.items():
                self.keeps(v.fields.get(f), t, f"{what}: {f}")
            return
        cls = getattr(ty, "cls", None)
        if isinstance(ty, tuple) and ty[0] == "const" and v is ty[1]:
            return
        if ty == "bool" and (isinstance(v, (bool, SBool))):
            return
        if isinstance(ty, tuple) and ty[0] == "obj":
            cls = self.shapes.cls(ty[1])
        if cls is not None:
            c = v.cls if isinstance(v, (SObj, NObj, MList)) else type(v)
            if not issubclass(c, cls):
                raise Unsupported(f"{what}: {c.__name__} is not a {cls.__name__}")
            return
        if ty == "str" and self.str_term(v) is not None or ty == "int" and not isinstance(v, bool) and self.int_term(v) is not None or ty == "any":
            return
        if isinstance(ty, tuple) and ty[0] == "mlist" and isinstance(v, MList):
            segs = list(v.segs)
            if known and len(segs) >= len(known) and all(a is b for a, b in zip(segs, known)):
                segs = segs[len(known):]
            for x in segs:
                if x[0] != "item":
                    if id(x) in self.typed_segs and self.typed_segs[id(x)][1] == ty:
                        continue
                    raise Unsupported(f"{what}: a list of unknown items")
                self.keeps(x[1], ty[1], what)
            return
        raise Unsupported(f"{what}: not known to be of type {ty!r}"[:200])

    def s_FunctionDef(self, s):
        v = Closure(s, self.frame, self.frame.glob, s.name)
        self.store_name(s.name, v)

    s_AsyncFunctionDef = s_FunctionDef

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        cur = self.ev(ast.copy_location(type(s.target)(**{**{k: getattr(s.target, k) for k in s.target._fields}, "ctx": ast.Load()}), s.target))
        if isinstance(cur, MList) and isinstance(s.op, ast.Add):
            self.bm.method(self, cur, "extend", [self.ev(s.value)], {})
            return
        self.assign(s.target, self.bm.binop(self, type(s.op).__name__, cur, self.ev(s.value)))

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                self.bm.delitem(self, o, self.ev(t.slice))
            elif isinstance(t, ast.Name):
                self.frame.locals.pop(t.id, None)
            else:
                raise Unsupported("del")

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                return self.assign_starred(t.elts, v)
            vals = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vals):
                self.assign(x, y)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.bm.setitem(self, self.ev(t.value), self.ev(t.slice), v)
        else:
            raise Unsupported(f"target {type(t).__name__}")

    def assign_starred(self, elts, v):
        k = next(i for i, x in enumerate(elts) if isinstance(x, ast.Starred))
        after = len(elts) - k - 1
        if isinstance(v, GenFn) or isinstance(v, SIter):
            m = self.new(MList())
            m.segs = self.collect(v)
            v = m
        elif isinstance(v, list):
            v = tuple(v)
        if not isinstance(v, (tuple, STup, SSeq, MList)):
            raise Unsupported("starred target of an unknown sequence")
        n = len(v) if isinstance(v, tuple) else self.int_term(self.bm.MODELS[len](self, [v], {}))
        if not self.branch(n >= len(elts) - 1):
            self.raise_(ValueError, "unpack")
        get = self.bm.getitem
        vals = [get(self, v, i) for i in range(k)]
        whole = get(self, v, slice(k or None, -after if after else None, None)) if k or after else v
        if isinstance(whole, tuple):
            rest = self.new(MList([("item", x) for x in whole]))
        elif isinstance(whole, STup):
            rest = whole  # (a list with these items; the tuple itself is as good as long as nothing is added)
        else:
            rest = self.new(MList())
            rest.segs = self.collect(whole)
        tail = [get(self, v, -j) for j in range(after, 0, -1)]
        for x, y in zip(elts, [*vals, rest, *tail]):
            self.assign(x.value if isinstance(x, ast.Starred) else x, y)

    def unpack(self, v, n):
        if isinstance(v, Poison):
            raise NeedCarried(v.key)
        if isinstance(v, (tuple, list)):
            vals = list(v)
        elif isinstance(v, MList) and all(s[0] == "item" for s in v.segs):
            vals = [s[1] for s in v.segs]
        elif isinstance(v, SSeq):
            if not self.branch(v.n == n):
                self.raise_(ValueError, "unpack")
            vals = [v.at(z3.IntVal(k)) for k in range(n)]
        else:
            m = self.collect(v)
            if not all(s[0] == "item" for s in m):
                raise Unsupported("unpacking an unknown sequence")
            vals = [s[1] for s in m]
        if len(vals) != n:
            self.raise_(ValueError, "unpack")
        return vals

    def store_name(self, name, v):
        f = self.frame
        if name in f.nonlocals:
            p = f.parent
            while p is not None:
                if name in p.locals:
                    p.locals[name] = v
                    return
                p = p.parent
        f.locals[name] = v

    # ---- expressions ----------------------------------------------------------------------------
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e)

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        f = self.frame
        n = e.id
        while f is not None:
            if n in f.locals:
                v = f.locals[n]
                if isinstance(v, Poison):
                    raise NeedCarried(v.key)
                return v
            f = f.parent
        g = self.frame.glob
        if n in g:
            return g[n]
        if hasattr(builtins, n):
            return getattr(builtins, n)
        return self.raise_(NameError, n)

    def e_Attribute(self, e):
        return self.getattr_(self.ev(e.value), e.attr)

    def e_Await(self, e):
        return self.ev(e.value)

    def e_Tuple(self, e):
        out = []
        known = True
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                more = e.elts[e.elts.index(x) + 1 :]
                if isinstance(v, STup) and not out and not any(isinstance(y, ast.Starred) for y in more):
                    rest = [self.ev(y) for y in more]
                    return STup(v.base, (*v.items, *rest))
                segs = self.collect(v)
                if not all(s[0] == "item" for s in segs):
                    known = False
                out += segs
            else:
                out.append(("item", self.ev(x)))
        return tuple(s[1] for s in out) if known else self.new(MList(out, tuple))

    def e_List(self, e):
        m = self.new(MList())
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.collect(self.ev(x.value))
                m.segs += v
            else:
                v = self.ev(x)
                m.segs.append(("item", v))
        return m

    def e_Set(self, e):
        vals = [self.ev(x) for x in e.elts]
        if any(isinstance(v, Sym) for v in vals):
            return tuple(vals)
        return frozenset(vals)

    def e_Dict(self, e):
        d = self.new(MDict())
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v)
                if not isinstance(src, MDict):
                    raise Unsupported("dict unpacking")
                for kk, x in src.d.items():
                    self.bm.store(self, d, kk, x)
                continue
            key = self.ev(k)
            self.bm.store(self, d, key, self.ev(v))
        return d

    def e_JoinedStr(self, e):
        out = None
        for p in e.values:
            if isinstance(p, ast.Constant):
                s = p.value
            else:
                v = self.ev(p.value)
                if p.conversion == 114:
                    s = self.bm.repr_(self, v)
                elif p.format_spec is not None:
                    raise Unsupported("format spec")
                else:
                    s = self.to_str(v)
            out = s if out is None else self.bm.concat(self, out, s)
        return "" if out is None else out

    def e_BoolOp(self, e):
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x)
            if i == len(e.values) - 1:
                return v
            t = self.branch(self.truth(v))
            if isinstance(e.op, ast.And) and not t or isinstance(e.op, ast.Or) and t:
                return v
        return v

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return self.mkbool(self.neg(self.truth(v)))
        v = self.narrow(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, SInt):
                return SInt(-v.e)
            if isinstance(v, SReal):
                return SReal(-v.e)
            if not isinstance(v, Sym):
                try:
                    return -v
                except TypeError as x:
                    raise PyRaise(x) from None
        raise Unsupported("unary operator")

    def e_BinOp(self, e):
        return self.bm.binop(self, type(e.op).__name__, self.ev(e.left), self.ev(e.right))

    def e_IfExp(self, e):
        if self.branch(self.truth(self.ev(e.test))):
            return self.ev(e.body)
        return self.ev(e.orelse)

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = True
        for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r)
            c = self.bm.compare(self, type(op).__name__, left, right)
            if k == len(e.ops) - 1:
                if res is True:
                    return c if isinstance(c, (bool, SBool)) else self.mkbool(c) if not isinstance(c, Sym) else c
            if not self.branch(c if isinstance(c, bool) else self.truth(c) if isinstance(c, Sym) else c):
                return False
            left = right
        return True

    def e_Subscript(self, e):
        return self.bm.getitem(self, self.ev(e.value), self.ev(e.slice))

    def e_Slice(self, e):
        g = lambda x: self.ev(x) if x is not None else None
        return SSlice(g(e.lower), g(e.upper), g(e.step))

    def e_Lambda(self, e):
        return Closure(e, self.frame, self.frame.glob, "<lambda>")

    def e_Starred(self, e):
        raise Unsupported("starred")

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else None
        self.frame.yield_handler(v)
        return None

    def e_YieldFrom(self, e):
        self.iterate(self.ev(e.value), self.frame.yield_handler)
        return None

    def e_Call(self, e):
        f = self.ev(e.func)
        if f is super:
            args = [self.ev(a) for a in e.args]
            fr = self.frame
            if not args:
                node_args = next(iter(fr.locals.items()))
                first = fr.locals.get("self", fr.locals.get("cls", node_args[1]))
                cls = fr.cls
            else:
                cls, first = args
            oc = first.cls if isinstance(first, (NObj, SObj)) else first if isinstance(first, type) else type(first)
            mro = oc.__mro__
            return Super(first, mro[mro.index(cls) + 1 :])
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                segs = None
                if isinstance(v, tuple):
                    args += list(v)
                    continue
                if isinstance(v, StarArgs):
                    args.append(v)
                    continue
                try:
                    segs = self.collect(v)
                except Unsupported:
                    raise
                if all(s[0] == "item" for s in segs):
                    args += [s[1] for s in segs]
                else:
                    m = self.new(MList(segs))
                    args.append(StarArgs(m))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if isinstance(v, MDict) and not v.extra:
                    kw.update(v.d)
                elif isinstance(v, dict):
                    kw.update(v)
                else:
                    raise Unsupported("unknown keyword arguments")
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    # ---- comprehensions -------------------------------------------------------------------------
    def comp(self, e, emit, note=None):
        fr = Frame(self.frame.glob, self.frame, self.frame.cls, "<comp>")
        first = self.ev(e.generators[0].iter)
        if note is not None:
            note.append(first)

        def gen(i, it):
            g = e.generators[i]

            def handler(x):
                self.frames.append(fr)
                n = len(self.frames)
                try:
                    self.assign(g.target, x)
                    for c in g.ifs:
                        if not self.branch(self.truth(self.ev(c))):
                            return
                    if i + 1 < len(e.generators):
                        gen(i + 1, self.ev(e.generators[i + 1].iter))
                    else:
                        emit()
                finally:
                    del self.frames[n - 1 :]

            self.iterate(it, handler)

        return lambda: gen(0, first), fr

    def e_ListComp(self, e):
        m = self.new(MList())
        box = []

        def add():
            # (evaluating the element may run loops, which put the list's state back as a new object)
            v = self.ev(e.elt)
            m.segs.append(("item", v))

        run, fr = self.comp(e, add)
        n = len(self.events)
        run()
        self.drop_loops(n)
        return m

    def e_SetComp(self, e):
        return self.call(set, [self.e_ListComp(e)], {})

    def e_GeneratorExp(self, e):
        cell = {}
        first = []
        run, fr = self.comp(e, lambda: cell["h"](self.ev(e.elt)), first)

        def go(handler):
            cell["h"] = handler
            run()

        bound = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        later = [e.elt, *[c for g in e.generators for c in g.ifs], *[g.iter for g in e.generators[1:]]]
        names = {n.id for x in later for n in ast.walk(x) if isinstance(n, ast.Name)} - bound
        return GenFn(go, "<genexpr>", (self.frame, names), (first[0],))

    def e_DictComp(self, e):
        pairs = self.new(MList())

        def emit():
            k = self.ev(e.key)
            v = self.ev(e.value)
            pairs.segs.append(("item", (k, v)))

        run, fr = self.comp(e, emit)
        n = len(self.events)
        run()
        self.drop_loops(n)
        d = self.new(MDict())
        self.pairs_into(d, pairs.segs)
        return d

    def pairs_into(self, d, segs):
        """A dict made of these key and value pairs."""
        if all(s[0] == "item" for s in segs):
            for _, p in segs:
                if not (isinstance(p, tuple) and len(p) == 2):
                    raise Unsupported("dict() of other than pairs")
                self.bm.store(self, d, *p)
        else:
            d.extra = list(segs)


def pytype_of(v):
    return v.kind if isinstance(v.kind, type) else {"list": list, "tuple": tuple}.get(v.kind)


class AbstractMethod:
    def __init__(self, name, spec):
        self.name, self.spec = name, spec


class Super(Sym):
    __slots__ = ("obj", "mro")

    def __init__(self, obj, mro):
        self.obj, self.mro = obj, mro


class StarArgs(Sym):
    __slots__ = ("seq",)

    def __init__(self, seq):
        self.seq = seq


class Partial(Sym):
    __slots__ = ("fn", "args", "kw")

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


def c_defaults(c):
    out = []
    for d in c.node.args.defaults:
        if not isinstance(d, ast.Constant):
            raise Unsupported("closure default")
        out.append(d.value)
    return out


def c_kwdefaults(c):
    out = {}
    for a, d in zip(c.node.args.kwonlyargs, c.node.args.kw_defaults):
        if d is not None:
            if not isinstance(d, ast.Constant):
                raise Unsupported("closure default")
            out[a.arg] = d.value
    return out


def singleton_value(v):
    return z3.Const("rawvalue_" + repr(v)[:80], V)


def assigned(stmts):
    """Names a statement list binds."""
    out = []
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name and n.name not in out:
                out.append(n.name)
    return out


def same_state(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same_state(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_state(x, y) for x, y in zip(a, b))
    return a is b or (isinstance(a, (int, str, bool)) and type(a) is type(b) and a == b)


def loop_has_effects(loop):
    if loop.carried:
        return True
    for p in loop.paths:
        if p.exit != "next":
            return True
        for ev in p.events:
            if ev[0] != "loop" or loop_has_effects(ev[1]):
                return True
    return False


def v_term(v):
    if isinstance(v, STup):
        return v.base
    if isinstance(v, (SSeq, MList)):
        return v.term
    return v.e


def subst_signal(e, sub):
    if isinstance(e, PyRaise):
        return PyRaise(subst_value(e.exc, sub))
    if isinstance(e, ReturnSig):
        return ReturnSig(subst_value(e.v, sub))
    if isinstance(e, StopSig):
        return StopSig(subst_value(e.v, sub), e.tag)
    if isinstance(e, Foreign):
        return Foreign(subst_signal(e.sig, sub), e.tag)
    return e


def subst_value(v, sub):
    if not sub:
        return v
    S = lambda t: z3.substitute(t, *sub)
    if isinstance(v, (SInt, SBool, SStr, SReal)):
        return type(v)(S(v.e))
    if isinstance(v, SV):
        return SV(S(v.e), v.json)
    if isinstance(v, SObj):
        return SObj(v.cls, S(v.e))
    if isinstance(v, STup):
        return STup(S(v.base), tuple(subst_value(x, sub) for x in v.items))
    if isinstance(v, tuple):
        return tuple(subst_value(x, sub) for x in v)
    if isinstance(v, NObj):
        o = NObj(v.cls)
        o.fields = {k: subst_value(x, sub) for k, x in v.fields.items()}
        return o
    if isinstance(v, MList):
        return MList([subst_seg(s, sub) for s in v.segs], v.cls)
    if isinstance(v, MDict):
        d = MDict({subst_value(k, sub): subst_value(x, sub) for k, x in v.d.items()}, v.cls)
        d.extra = [subst_seg(s, sub) for s in v.extra]
        return d
    if isinstance(v, SSeq):
        at = v.at
        return SSeq(S(v.n), lambda j: subst_value(at(j), sub), S(v.term) if v.term is not None else None, v.kind)
    if isinstance(v, SSlice):
        return SSlice(*(subst_value(x, sub) for x in (v.start, v.stop, v.step)))
    if isinstance(v, BoundM):
        return BoundM(subst_value(v.obj, sub), v.fn, v.cls)
    if isinstance(v, Sym):
        raise Unsupported(f"renaming {type(v).__name__}")
    return v


def subst_seg(s, sub):
    if not sub:
        return s
    if s[0] == "item":
        return ("item", subst_value(s[1], sub))
    _, n, paths, d = s
    S = lambda t: z3.substitute(t, *sub)
    # the bound indices of the segment are renamed along with the free ones: find the new depth
    nd = d
    for a, b in sub:
        if str(a) == f"j{d}":
            nd = int(str(b)[1:])
    return ("loop", S(n), [([S(f) for f in pc], [subst_seg(x, sub) for x in segs]) for pc, segs in paths], nd)
