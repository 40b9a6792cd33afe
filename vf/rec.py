"""Worker-side recorder for the bounded layer."""

from __future__ import annotations

import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout


class Rec:
    def __init__(self, prop, seed, shard, nshards, tier, deadline, quota):
        self.prop, self.shard, self.nshards, self.tier = prop, shard, nshards, tier
        self.rng = random.Random(f"{prop}:{seed}:{shard}")
        self.deadline = deadline
        self.quota = quota
        self.n = 0
        self.seen = set()
        self.samples = []
        self.failures = []
        self.internal = []
        self.exhausted = {}
        self.started = 0
        self.trials = self.timeouts = 0
        self.known_hits = {}

    def more(self):
        if self.failures and len(self.failures) >= 3:
            return False
        self.started += 1
        return self.started <= self.quota and time.monotonic() < self.deadline

    def case(self, key, nontrivial=True):
        """Count one evaluated case. key: a string naming it."""
        self.n += 1
        if nontrivial:
            self.seen.add(hashlib.blake2b(str(key).encode("utf-8", "surrogatepass"), digest_size=8).digest())
            if len(self.samples) < 2 and self.n % 37 == 1:
                self.samples.append(str(key)[:400])

    def fail(self, summary, **info):
        self.failures.append({"property": self.prop, "summary": summary, **info})

    def mine(self, i):
        return i % self.nshards == self.shard

    def run(self, fn, *args):
        """Run one trial; internal errors of the harness are kept apart from violations."""
        # processor time, not wall time: a busy machine is no violation; a whole sweep watches its own deadline.
        # A random trial may be too big to finish; only when most of them get no answer does the code hang.
        sweep = not fn.__name__.startswith("trial")
        self.trials += not sweep
        signal.signal(signal.SIGVTALRM, _alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, 300 if sweep else 10)
        try:
            fn(*args)
        except CaseTimeout:
            self.timeouts += 1
            if sweep or (self.timeouts >= 3 and 2 * self.timeouts > self.trials):
                self.fail("no answer", sweep=fn.__name__, seconds=300 if sweep else 10)
        except RecursionError:
            pass
        except Exception:  # noqa: BLE001
            self.internal.append(traceback.format_exc()[-3000:])
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _worker(modname, prop, seed, shard, nshards, tier, budget, quota, q):
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import importlib
    import warnings

    warnings.simplefilter("ignore")
    try:
        mod = importlib.import_module(modname)
        rec = Rec(prop, seed, shard, nshards, tier, time.monotonic() + budget, quota)
        mod.run(rec)
        q.put(
            {
                "n": rec.n, "seen": rec.seen, "samples": rec.samples, "failures": rec.failures[:5],
                "internal": rec.internal[:3], "ninternal": len(rec.internal), "exhausted": rec.exhausted, "known": rec.known_hits, "timeouts": rec.timeouts,
            }
        )
    except BaseException:  # noqa: BLE001
        q.put({"crash": traceback.format_exc()[-4000:]})


def explore(prop, seed, tier, budget, quota, nshards=8):
    modname = f"vf.bounded.{prop.lower()}"
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    procs = [
        ctx.Process(target=_worker, args=(modname, prop, seed, s, nshards, tier, budget, quota, q))
        for s in range(nshards)
    ]
    for p in procs:
        p.start()
    out = []
    end = time.monotonic() + budget + 120
    while len(out) < nshards and time.monotonic() < end:
        try:
            out.append(q.get(timeout=1))
        except Exception:  # noqa: BLE001
            if not any(p.is_alive() for p in procs) and q.empty():
                break
    for p in procs:
        if p.is_alive():
            p.kill()
        p.join()
    res = {"n": 0, "distinct": 0, "samples": [], "failures": [], "internal": [], "crashes": [], "exhausted": {}, "known": {}, "timeouts": 0}
    seen = set()
    for o in out:
        if "crash" in o:
            res["crashes"].append(o["crash"])
            continue
        res["n"] += o["n"]
        seen |= o["seen"]
        res["samples"] += o["samples"]
        res["failures"] += o["failures"]
        res["internal"] += o["internal"]
        res["known"].update(o["known"])
        res["timeouts"] += o["timeouts"]
        for k, v in o["exhausted"].items():
            res["exhausted"][k] = res["exhausted"].get(k, 0) + v
    res["distinct"] = len(seen)
    res["workers_lost"] = nshards - len(out)
    return res


def dumps(x):
    try:
        return json.dumps(x, ensure_ascii=True, default=repr)
    except (TypeError, ValueError):
        return repr(x)
