"""Generate and discharge the obligations of one property from /repo's current source."""
from __future__ import annotations

import importlib
import inspect
import multiprocessing as mp
import os
import queue
import time
import traceback

ALWAYS_TRUSTED = [
    "vf/ded: the verification-condition generator itself (its models of Python and of the built-ins are cross-checked against CPython by bin/selftest)",
    "z3, and cvc5 where z3 gives up (an 'unsat' answer is believed)",
    "CPython's parser (ast) and the import of /repo's modules: the verified text is what inspect finds in the loaded functions' source files",
    "Python floats are treated as mathematical reals (NaN and infinities excluded); integers are unbounded as in CPython",
    "no array or object has more than 2**53 - 1 elements (it would not fit into memory)",
]


def load(prop):
    try:
        m = importlib.import_module(f"vf.contracts.{prop.lower()}")
    except ModuleNotFoundError as e:
        if e.name != f"vf.contracts.{prop.lower()}":
            raise
        return None
    return m


def discharge(ob, timeout=4000):
    """Returns a result dict."""
    import z3

    from vf.contracts import lookup
    from vf.ded import equiv, shapes as S
    from vf.ded.core import Unsupported
    from vf.ded.interp import Interp, NeedCarried, Stats

    t0 = time.monotonic()
    stats = Stats()
    res = {"name": ob.name, "function": ob.fn if isinstance(ob.fn, str) else ob.fn.__name__, "backend": "z3 " + z3.get_version_string(), "mode": ob.mode}
    it = None
    try:
        if ob.mode == "lemma":
            return lemma(ob, res, stats, timeout, t0)
        try:
            fn = lookup(ob.fn)
            spec = lookup(ob.spec) if ob.spec is not None else None
        except (AttributeError, KeyError) as e:
            raise Unsupported(f"no such function in the current source: {e}") from None
        shapes = S.standard()
        if ob.shapes:
            ob.shapes(shapes)
        it = Interp(shapes, stats=stats, timeout=ob.timeout or timeout)
        it.max_paths = ob.max_paths
        it.invariants, it.unroll = ob.invariants, ob.unroll
        it.ints, it.texts, it.exact, it.family = ob.ints is True, bool(ob.ints), ob.ints == "exact", ob.family
        it.fold_types = dict(ob.fold_types)
        it.abstract.update(base_abstract())
        if ob.abstract:
            it.abstract.update(ob.abstract(it) if callable(ob.abstract) else ob.abstract)
        if ob.methods:
            it.open_methods.update(ob.methods)
        import types

        def call(f):
            raw = f
            cls = None
            if isinstance(raw, (staticmethod, classmethod)):
                raw = raw.__func__
            if isinstance(raw, property):
                raw = raw.fget

            def go():
                from vf.ded.core import V

                args = [it.field_value(ty, z3.Const("a_" + n, V)) if not isinstance(ty, Raw) else ty.v for n, ty in ob.args]
                kw = {n: it.field_value(ty, z3.Const("a_" + n, V)) if not isinstance(ty, Raw) else ty.v for n, ty in ob.kw.items()}
                if ob.assume:
                    for c in ob.assume(it, *args, **kw) or ():
                        it.assume(c)
                return it.call_function(raw, args, kw) if raw is not fn or raw not in it.abstract else it.call_body(raw, args, kw)

            return go

        paths = it.run_top(call(fn), [])
        if not paths:
            raise Unsupported("vacuous: no feasible path")
        res["paths"] = len(paths)
        if ob.mode == "equal":
            if not ob.may_fail:
                sound_contract(it, it.run_top(call(spec), []))
            try:
                # every feasible pair of a path of the code and a path of the contract
                qs = it.run_top(call(spec), [])
                pairs(it, paths, qs, ob.view)
            except (equiv.Diff, Unsupported, NeedCarried):
                # once more, the contract explored under each path condition of the code
                for p in paths:
                    qs = it.run_top(call(spec), p.pc)
                    if not qs and it.check(p.pc) == "sat":
                        raise Unsupported("the contract has no behaviour on a feasible path") from None
                    for q in qs:
                        if it.check(q.pc) != "unsat":
                            equiv.paths_equal(it, p, q, q.pc, ob.view)
        elif ob.mode == "raises":
            for p in paths:
                check_raises(it, p, ob.allowed, p.pc)
                if ob.ensures is not None:
                    check_ensures(it, p, ob.ensures, inspect.isgeneratorfunction(fn))
        elif ob.mode == "pure":
            for p in paths:
                check_pure(it, p, p.pc)
        else:
            raise Unsupported(f"mode {ob.mode}")
        res["status"] = "discharged"
    except equiv.Diff as d:
        res["reason"] = d.what
        helper = weak_terms(d, it)
        if d.kind == "refuted" and not helper and not ob.sufficient:
            res["status"] = "refuted"
        else:
            res["status"] = "undecided"
            if d.kind == "refuted":
                res["reason"] += f" (counterexample over uninterpreted terms {sorted(helper)[:4]})"
        if d.model is not None:
            res["model"] = model_text(d.model)
            res["hints"] = hints(d.model)
    except Unsupported as e:
        res["status"], res["reason"] = "undecided", f"outside the verifier's subset: {e}"
    except NeedCarried as e:
        res["status"], res["reason"] = "undecided", f"loop-carried value {e.key[1]}"
    except RecursionError:
        res["status"], res["reason"] = "undecided", "recursion"
    except Exception:  # noqa: BLE001
        res["status"], res["reason"] = "undecided", "internal: " + traceback.format_exc()[-1500:]
    res["solver_s"] = round(stats.seconds, 3)
    res["queries"] = stats.queries
    if stats.cvc5:
        res["backend"] += f", cvc5 1.1.2 ({stats.cvc5} queries)"
    res["wall_s"] = round(time.monotonic() - t0, 3)
    res["inlined"] = sorted(it.inlined) if it else []
    return res


def lemma(ob, res, stats, timeout, t0):
    """Formulas over the contracts' symbols, valid by one of the back ends."""
    import z3

    from vf.ded import shapes as S
    from vf.ded.interp import Interp

    it = Interp(S.Shapes(), stats=stats, timeout=ob.timeout or timeout)
    it.texts = True
    sat = Interp(S.Shapes(), stats=stats, timeout=2000)
    res["status"], n = "discharged", 0
    for name, hyps, goal in ob.lemma():
        n += 1
        # the hypotheses are definitions and an induction hypothesis: they must be satisfiable
        r = it.check([*hyps, z3.Not(goal)])
        if r != "unsat":
            res["status"] = "undecided"
            res["reason"] = f"case {name}: {r}"
            break
        if hyps and sat.check(hyps) == "unsat":
            res["status"] = "undecided"
            res["reason"] = f"case {name}: its hypotheses contradict each other"
            break
    res["paths"] = n
    res["solver_s"], res["queries"], res["wall_s"] = round(stats.seconds, 3), stats.queries, round(time.monotonic() - t0, 3)
    if stats.cvc5:
        res["backend"] += f", cvc5 1.1.2 ({stats.cvc5} queries)"
    return res


def sound_contract(it, qs):
    """A contract has no type errors: one would mean that an operation is used outside what the verifier knows of it."""
    from .core import Unsupported

    def bad(exc, pc):
        if getattr(exc, "uid", None) in it.implicit and it.check(list(pc)) != "unsat":
            raise Unsupported(f"the contract itself ends in {exc.cls.__name__} {exc.fields.get('args')}")

    for q in qs:
        if q.exit == "raise":
            bad(q.value, q.pc)
        walk_loops(it, q.events, q.pc, lambda p, pc: bad(p.value.exc, pc) if p.exit == "exit" and type(p.value).__name__ == "PyRaise" else None)


def pairs(it, paths, qs, view):
    from . import equiv

    for p in paths:
        some = False
        for q in qs:
            pc = list(p.pc) + list(q.pc)
            if it.check(pc) == "unsat":
                continue
            some = True
            equiv.paths_equal(it, p, q, pc, view)
        if not some and it.check(p.pc) == "sat":
            raise equiv.Diff("unknown", "the contract has no behaviour on a feasible path")


class Raw:
    """A concrete argument."""

    def __init__(self, v):
        self.v = v


def base_abstract():
    from jsonpath.match import JSONPathMatch

    out = {}
    # frame: add_child writes only `children`, which no property reads
    out[JSONPathMatch.add_child] = lambda it, a, k: None
    try:
        from jsonpath.serialize import canonical_string
        import z3

        from .core import SStr, Str, uf

        def canon(it, a, k):
            v = it.narrow(a[0])
            e = it.str_term(v)
            if e is None:
                from .core import Unsupported

                raise Unsupported("canonical_string of a non-string")
            return SStr(uf("canonical_string", Str, Str)(e))

        out[canonical_string] = canon
    except ImportError:
        pass
    return out


def check_raises(it, p, allowed, pc):
    from .equiv import Diff

    def bad(cls, pc):
        if not any(issubclass(cls, a) for a in allowed):
            r, m = it.check(list(pc), want_model=True)
            if r != "unsat":
                raise Diff("refuted" if r == "sat" else "unknown", f"{cls.__name__} can leave the function", m, tuple(pc))

    if p.exit == "raise":
        bad(it.exc_class(p.value), pc)
    walk_loops(it, p.events, pc, lambda q, qpc: bad(it.exc_class(q.value.exc), qpc) if q.exit == "exit" and type(q.value).__name__ == "PyRaise" else None)


def check_ensures(it, p, post, generator):
    """Every value returned or yielded on the path satisfies the postcondition."""
    from .equiv import Diff

    def one(v, pc):
        if not callable(post) or hasattr(post, "cls"):
            it.keeps(v, post, "result")
            return
        import z3

        saved, it.pc = it.pc, list(pc)
        try:
            f = post(it, v)
            facts = list(it.pc)
        finally:
            it.pc = saved
        r, m = it.check([*facts, z3.Not(f)], want_model=True)
        if r != "unsat":
            raise Diff("refuted" if r == "sat" else "unknown", "the postcondition of a result", m, tuple(facts))

    def events(evs, pc):
        for e in evs:
            if e[0] == "yield":
                one(e[1], pc)

    events(p.events, p.pc)
    walk_loops(it, p.events, p.pc, lambda q, qpc: events(q.events, qpc))
    if p.exit == "return" and not generator:
        one(p.value, p.pc)


def walk_loops(it, events, pc, f):
    from .interp import J

    for ev in events:
        if ev[0] == "loop":
            lp = ev[1]
            j = J(lp.depth)
            for q in lp.paths:
                qpc = list(pc) + [j >= 0, j < lp.n, *q.pc]
                f(q, qpc)
                walk_loops(it, q.events, qpc, f)


def check_pure(it, p, pc):
    from .equiv import Diff, ev_desc

    def chk(events, pc):
        for ev in events:
            if ev[0] == "effect":
                r, m = it.check(list(pc), want_model=True)
                if r != "unsat":
                    raise Diff("refuted" if r == "sat" else "unknown", f"effect {ev_desc(ev)}", m, tuple(pc))

    chk(p.events, pc)
    walk_loops(it, p.events, pc, lambda q, qpc: chk(q.events, qpc))


# symbols known by incomplete facts only
_WEAK = ("re_", "str_", "int_of_text", "is_int_text", "float_of_text", "is_float_text", "tostr", "rangelen", "rangeitem", "json_dumps", "pyeq", "unquote", "fold!", "after!", "lx!", "listval!", "ch!", "str!", "repr!", "excstr!")


def weak_terms(d, it):
    """Uninterpreted helper symbols a counterexample depends on: it may not be realisable.

    Facts do not count: they hold of the real functions whatever the inputs.
    """
    import z3

    out = set()
    seen = set()
    stack = [t for t in d.terms if z3.is_expr(t) and t.get_id() not in it.facts]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            n = t.decl().name()
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and n.startswith(_WEAK):
                out.add(n)
            stack.extend(t.children())
        elif z3.is_quantifier(t):
            stack.append(t.body())
    return out


def model_text(m):
    return [f"{d.name()} = {m[d]}"[:300] for d in m.decls()[:40]]


def hints(m):
    """Constants of a counterexample, for the bounded layer's generators."""
    import z3

    out = set()

    def walk(t):
        if z3.is_int_value(t):
            if abs(t.as_long()) < 10**6:
                out.add(t.as_long())
        elif z3.is_string_value(t):
            s = t.as_string()
            if len(s) < 40:
                out.add(s)
        elif z3.is_expr(t):
            for c in t.children():
                walk(c)

    for d in m.decls():
        v = m[d]
        if isinstance(v, z3.FuncInterp):
            for k in range(v.num_entries()):
                e = v.entry(k)
                walk(e.value())
                for a in range(e.num_args()):
                    walk(e.arg_value(a))
        else:
            walk(v)
    return sorted(out, key=repr)[:40]


def _work(prop, indices, q, timeout):
    import sys

    sys.setrecursionlimit(20000)
    try:
        obs = load(prop).obligations()
    except Exception:  # noqa: BLE001
        q.put((-1, {"crash": traceback.format_exc()[-2000:]}))
        return
    while True:
        try:
            i = indices.get_nowait()
        except queue.Empty:
            return
        q.put(("start", i))
        r = discharge(obs[i], timeout)
        q.put((i, r))


def run(prop, tier, wall=None):
    mod = load(prop)
    empty = {"functions": [], "obligations": 0, "discharged": 0, "results": []}
    if mod is None:
        return empty
    wall = wall or (240 if tier == "quick" else 1200)
    try:
        obs = mod.obligations()
    except Exception:  # noqa: BLE001
        empty["results"] = [{"name": "contracts", "status": "undecided", "reason": "internal: " + traceback.format_exc()[-1500:]}]
        return empty
    ctx = mp.get_context("fork")
    todo, q = ctx.Queue(), ctx.Queue()
    for i in range(len(obs)):
        todo.put(i)
    time.sleep(0.05)
    n = min(8, len(obs))
    procs = [ctx.Process(target=_work, args=(prop, todo, q, 4000 if tier == "quick" else 20000)) for _ in range(n)]
    for p in procs:
        p.start()
    results = {}
    end = time.monotonic() + wall
    while len(results) < len(obs) and time.monotonic() < end:
        try:
            i, r = q.get(timeout=0.5)
        except queue.Empty:
            if not any(p.is_alive() for p in procs):
                try:
                    i, r = q.get(timeout=0.5)
                except queue.Empty:
                    break
            else:
                continue
        if i == "start":
            continue
        if i == -1:
            results[-1] = {"name": "contracts", "status": "undecided", "reason": r["crash"]}
            continue
        results[i] = r
    for p in procs:
        if p.is_alive():
            p.kill()
        p.join()
    out = []
    for i, ob in enumerate(obs):
        out.append(results.get(i) or {"name": ob.name, "function": str(ob.fn), "status": "undecided", "reason": f"no answer within {wall} s", "solver_s": 0, "backend": "z3"})
    fns = sorted({r.get("function", "") for r in out if r["status"] == "discharged"} | {f[len("jsonpath."):] for r in out if r["status"] == "discharged" for f in r.get("inlined", []) if f.startswith("jsonpath.")})
    return {
        "functions": fns,
        "obligations": len(out),
        "discharged": sum(r["status"] == "discharged" for r in out),
        "results": out,
        "solver_s": sum(r.get("solver_s", 0) for r in out),
        "backends": {"z3": sum(r["status"] == "discharged" for r in out)},
        "trusted": ALWAYS_TRUSTED + list(getattr(mod, "TRUSTED", [])),
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
    }
