"""Obligation bookkeeping, known findings, evidence and exit status."""
import gc
import json
import os
import sys
import time
import traceback

from . import interp
from .values import Undecided
from .program import AnchorLost, Program, REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Check:
    def __init__(self, pid, rule, tier, minimum, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.tier = tier
        self.minimum = minimum        # confirmed number of obligations
        self.assumptions = list(assumptions)
        self.obs = {}                 # rule -> count
        self.violations = {}          # (rule, construct) -> [detail, where, n]
        self.undecided = []
        self.functions = set()
        self.traces = 0
        self.samples = []
        self.t0 = time.time()
        interp.DEADLINE[0] = time.monotonic() + (780 if tier == "thorough" else 400)
        self.prog = Program()
        self.known = load_known(pid)
        self.hit_known = {}

    def thorough(self):
        return self.tier == "thorough"

    def saw(self, traces):
        for t in traces:
            self.traces += 1
            self.functions |= t.interp.visited

    def saw_interp(self, it):
        self.traces += 1
        self.functions |= it.visited

    def ok(self, rule, n=1, sample=None):
        self.obs[rule] = self.obs.get(rule, 0) + n
        if sample is not None and len(self.samples) < 12 and not any(s["rule"] == rule for s in self.samples):
            self.samples.append({"rule": rule, "instance": str(sample)[:300]})

    def bad(self, rule, construct, detail, where=None):
        """rule violated at a construct; constructs are named by code unit"""
        self.obs[rule] = self.obs.get(rule, 0) + 1
        for k in self.known:
            if k["rule"] == rule and k["construct"] == construct and (not k.get("match") or k["match"] in detail):
                self.hit_known.setdefault(k["id"], (k, 0))
                self.hit_known[k["id"]] = (k, self.hit_known[k["id"]][1] + 1)
                return
        key = (rule, construct)
        if key in self.violations:
            self.violations[key][2] += 1
        else:
            self.violations[key] = [detail, where, 1]

    def require(self, cond, rule, construct, detail, where=None, sample=None):
        if cond:
            self.ok(rule, 1, sample if sample is not None else construct)
        else:
            self.bad(rule, construct, detail, where)
        return cond

    def undec(self, rule, msg):
        self.undecided.append((rule, msg))

    def parallel(self, items, fn, procs=None):
        """fn(check, item) for every item, spread over processes"""
        items = list(items)
        procs = procs or min(8, os.cpu_count() or 1)
        if os.environ.get("SA_STOP"):           # mutation sweeps: stop at the first violation or when the time is up
            import random
            random.Random(1).shuffle(items)
            for i in items:
                fn(self, i)
                if self.violations or time.time() - self.t0 > float(os.environ["SA_STOP"]):
                    return
            return
        if procs <= 1 or len(items) < 4 or os.environ.get("SA_SERIAL"):
            for i in items:
                fn(self, i)
            return
        import multiprocessing as mp
        ctx = mp.get_context("fork")
        chunks = [items[i::procs * 4] for i in range(procs * 4)]
        chunks = [c for c in chunks if c]
        global _JOB
        _JOB = (self, fn, chunks)
        gc.collect()
        gc.freeze()
        gc.set_threshold(50000, 20, 20)
        with ctx.Pool(procs) as pool:
            for r in pool.imap(_chunk, range(len(chunks))):
                if isinstance(r, str):
                    raise RuntimeError(r)
                self.merge(r)

    def merge(self, o):
        for k, v in o.obs.items():
            self.obs[k] = self.obs.get(k, 0) + v
        for k, v in o.violations.items():
            if k in self.violations:
                self.violations[k][2] += v[2]
            else:
                self.violations[k] = v
        self.undecided += o.undecided
        self.functions |= o.functions
        self.traces += o.traces
        for s in o.samples:
            if len(self.samples) < 12 and not any(x["rule"] == s["rule"] for x in self.samples):
                self.samples.append(s)
        for k, (e, n) in o.hit_known.items():
            self.hit_known[k] = (e, self.hit_known.get(k, (e, 0))[1] + n)

    def fresh(self):
        c = Check.__new__(Check)
        c.__dict__.update(self.__dict__)
        c.obs, c.violations, c.undecided, c.functions = {}, {}, [], set()
        c.traces, c.samples, c.hit_known = 0, [], {}
        return c

    def finish(self):
        n = sum(self.obs.values())
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        status = 0
        if self.violations:
            status = 1
        elif n < self.minimum:
            status = 2
        cov = {
            "explanation": (
                "Static analysis of the parsed package source by abstract interpretation of its syntax tree "
                "(no package code is run). Rule: " + self.rule),
            "rule": self.rule,
            "obligations": n + len(self.undecided),
            "discharged": n - sum(d[2] for d in self.violations.values()),
            "obligations_by_rule": dict(sorted(self.obs.items())),
            "minimum_obligations": self.minimum,
            "undecided_obligations": len(self.undecided),
            "trace_partitions": self.traces,
            "functions_analysed": len(self.functions),
            "functions": sorted(self.functions)[:200],
            "modules_parsed": len(self.prog.modules),
            "functions_parsed": self.prog.nfunc,
            "source_digest": self.prog.digest(),
            "samples": self.samples,
            "undecided": [f"{r}: {m}" for r, m in self.undecided][:20],
            "known_findings_hit": {k: v[1] for k, v in self.hit_known.items()},
            "exhaustive": False,
        }
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
            "level": "other", "coverage": cov, "wall_s": round(time.time() - self.t0, 3),
            "assumptions": self.assumptions,
            "violations": len(self.violations),
            "violations_found": [{"rule": r, "construct": c, "detail": d[0], "where": d[1], "instances": d[2]}
                                 for (r, c), d in sorted(self.violations.items())],
        }
        return status, ev


_JOB = None


def _chunk(i):
    chk, fn, chunks = _JOB
    sub = chk.fresh()
    prog = sub.prog
    try:
        for item in chunks[i]:
            if sub.violations and time.time() - sub.t0 > 60:
                break           # decided already
            fn(sub, item)
    except AnchorLost as e:
        return "anchor lost: " + str(e)
    except Exception:
        return traceback.format_exc()
    sub.prog = None
    sub.known = []
    return sub


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get("findings", []) if k["property"] == pid]


def run(pid, tier, fn):
    """fn(tier) -> Check"""
    evp = os.path.join(VERIF if not os.environ.get("SA_NOEV") else "/tmp/sa_scratch", "evidence", f"{pid}.json")
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    try:
        chk = fn(tier)
    except AnchorLost as e:
        print(f"ANALYSIS-BROKEN property={pid} anchor lost: {e}")
        return 2
    except Undecided as e:
        print(f"ANALYSIS-BROKEN property={pid} undecided: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={pid} internal error")
        return 2
    status, ev = chk.finish()
    with open(evp, "w") as f:
        json.dump(ev, f, indent=1)
    print(f"property={pid} tier={tier} obligations={sum(chk.obs.values())} traces={chk.traces} "
          f"functions={len(chk.functions)} wall={ev['wall_s']}s")
    for k, n in chk.hit_known.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']} [{k['rule']} @ {k['construct']}, {n} instance(s)]")
    for (r, c), d in sorted(chk.violations.items()):
        print(f"  violated rule {r} at {c}: {d[0]}" + (f" [{d[1]}]" if d[1] else "") + (f" (+{d[2]-1} more)" if d[2] > 1 else ""))
    if chk.undecided and status != 2:
        print(f"  {len(chk.undecided)} obligation(s) left undecided (not explored), e.g. {chk.undecided[0][0]}: {chk.undecided[0][1]}")
    if status == 1:
        print(f"VIOLATION property={pid} replay={os.path.relpath(evp, VERIF)}")
    if status == 2:
        for r, m in chk.undecided[:10]:
            print(f"  undecided {r}: {m}")
        n = sum(chk.obs.values())
        if n < chk.minimum:
            print(f"  only {n} obligations, {chk.minimum} were confirmed when the check was written")
        print(f"ANALYSIS-BROKEN property={pid}")
    return status
