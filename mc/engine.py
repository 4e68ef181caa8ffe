"""Stateless explicit-state exploration of the real implementation.

A *scenario* is a deterministic Python function ``scenario(ctx)`` that drives the
real code.  Whatever is non-deterministic about the system under test (its
configuration, the input, the next operation of a history, the value of the next
random draw, whether the k-th call into user code fails, which batch a loader yields
next) is resolved by ``ctx.choose(name, options)``.  The explorer executes the
scenario once per path through the resulting choice tree (depth first, replaying the
prefix each time), so every behaviour inside the stated bound is executed and judged.

Bounds.  ``options[0]`` is the default.  A choice made with ``free=True`` is explored
completely.  Every other non-default option costs one *deviation*, and a path may
contain at most ``ctx.bound`` deviations (the analogue of a preemption bound):
``bound=None`` is the full product.

States are the distinct nodes of the choice tree that were visited, transitions its
edges, traces the complete paths executed against the implementation.  Nested
enumerations (all outcomes of the random draws inside one operation) are added to
the same counters.
"""

import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from collections import OrderedDict

from mc import rng

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", VERIF)  # where evidence and counterexamples are written


class Violation(Exception):
    """The property does not hold on the current path."""

    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.msg, self.sig = msg, sig


class Skip(Exception):
    """The current combination of choices lies outside the property's domain."""


class Ctx:
    """One execution: replays a prefix of choices, then takes defaults."""

    def __init__(self, prefix, bound, tier, seed=0):
        self.prefix = prefix
        self.bound = bound
        self.tier = tier
        self.seed = seed
        self.path = []  # (index, num_options, name, label, cost_mode)
        self.used = 0
        self.extra_states = 0
        self.extra_transitions = 0
        self.extra_traces = 0
        self.notes = []

    # -- choice points -------------------------------------------------------
    def choose(self, name, options, free=False, cost=1):
        options = list(options)
        assert options, name
        pos = len(self.path)
        i = self.prefix[pos] if pos < len(self.prefix) else 0
        if i >= len(options):
            raise RuntimeError(f"non-deterministic scenario at {name}: {i}")
        c = 0 if free or i == 0 else cost
        self.used += c
        self.path.append((i, len(options), name, _label(options[i]), 0 if free else cost))
        return options[i]

    def pick(self, name, mapping, free=False, cost=1):
        """Like ``choose`` on the keys of a dict, returning the value."""
        key = self.choose(name, list(mapping), free=free, cost=cost)
        return mapping[key]

    # -- judging -------------------------------------------------------------
    def fail(self, msg, sig=None):
        raise Violation(msg, sig)

    def check(self, cond, msg, sig=None):
        if not cond:
            raise Violation(msg() if callable(msg) else msg, sig)

    def skip(self):
        raise Skip()

    def count(self, states=0, transitions=0, traces=0):
        self.extra_states += states
        self.extra_transitions += transitions
        self.extra_traces += traces

    def choices(self):
        return [[n, lab] for (_, _, n, lab, _) in self.path]


def _label(o):
    if isinstance(o, (str, int, float, bool, type(None))):
        return o
    if isinstance(o, (list, tuple)):
        return [_label(x) for x in o]
    return getattr(o, "label", None) or getattr(o, "__name__", None) or repr(o)


def siblings(prefix_len, path, bound):
    """Unexplored alternatives of a finished path, beyond its given prefix."""
    used = 0
    out = []
    for pos, (i, n, _, _, cost) in enumerate(path):
        if pos >= prefix_len:
            for alt in range(i + 1, n):
                if bound is None or used + cost <= bound:
                    out.append([p[0] for p in path[:pos]] + [alt])
        used += cost if i else 0
    return out


class Stats:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.skipped = 0
        self.samples = []
        self.violations = []
        self.known = {}  # signature of a listed finding -> number of paths
        self.notes = OrderedDict()

    def merge(self, o):
        self.states += o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.skipped += o.skipped
        for s in o.samples:
            if len(self.samples) < 8:
                self.samples.append(s)
        self.violations += o.violations
        for k, v in o.known.items():
            self.known[k] = self.known.get(k, 0) + v
        for k, v in o.notes.items():
            self.notes[k] = self.notes.get(k, 0) + v


PATH_SECONDS = 120  # a single path takes milliseconds; beyond this it does not terminate


class PathTimeout(Exception):
    pass


def _on_alarm(signum, frame):
    raise PathTimeout(f"a path ran for more than {PATH_SECONDS} s")


KNOWN = set()  # signatures of the findings listed for the property being decided


def run_one(scenario, prefix, bound, tier, stats):
    ctx = Ctx(prefix, bound, tier)
    outcome = "ok"
    signal.alarm(PATH_SECONDS)
    try:
        scenario(ctx)
    except Skip:
        outcome = "skip"
    except Violation as v:
        outcome = "violation"
        if v.sig is not None and v.sig in KNOWN:
            stats.known[v.sig] = stats.known.get(v.sig, 0) + 1
        else:
            stats.violations.append(
                {"prefix": [p[0] for p in ctx.path], "choices": ctx.choices(),
                 "msg": v.msg, "sig": v.sig}
            )
    except rng.Unmodelled as e:  # a random primitive without finite outcomes: not judged
        outcome = "skip"
        stats.notes[f"unmodelled: {e}"] = stats.notes.get(f"unmodelled: {e}", 0) + 1
    except Exception as e:  # unexpected exception out of the code under test
        outcome = "violation"
        stats.violations.append(
            {"prefix": [p[0] for p in ctx.path], "choices": ctx.choices(),
             "msg": f"unexpected {type(e).__name__}: {e}\n" + traceback.format_exc(limit=-6),
             "sig": None}
        )
    signal.alarm(0)
    new = len(ctx.path) - max(len(prefix) - 1, 0)
    stats.states += new + (0 if prefix else 1) + ctx.extra_states
    stats.transitions += new + ctx.extra_transitions
    if outcome == "skip":
        stats.skipped += 1
    else:
        stats.traces += 1 + ctx.extra_traces
        if len(stats.samples) < 2:
            stats.samples.append(ctx.choices())
    for k in ctx.notes:
        stats.notes[k] = stats.notes.get(k, 0) + 1
    return siblings(len(prefix), ctx.path, bound)


def _worker(scenarios, bounds, tier, conn, quota):
    import torch

    torch.set_num_threads(1)
    sys.stdout = sys.stderr = open(os.devnull, "w")
    signal.signal(signal.SIGALRM, _on_alarm)
    while True:
        job = conn.recv()
        if job is None:
            break
        idx, prefix = job
        stats, stack = Stats(), [prefix]
        t0 = time.time()
        try:
            while stack and time.time() - t0 < quota and len(stats.violations) < 3:
                p = stack.pop()
                stack += reversed(run_one(scenarios[idx], p, bounds[idx], tier, stats))
            conn.send((idx, stats, stack, None))
        except BaseException:
            conn.send((idx, stats, stack, traceback.format_exc()))


def explore(scenarios, bounds, tier, jobs=None, max_violations=12, deadline=None):
    """Explore every scenario exhaustively within its bound.

    Args:
        scenarios: List of scenario functions.
        bounds: One deviation bound per scenario.
    Returns:
        (per-scenario Stats, exhausted) where ``exhausted`` tells that no frontier was
        left behind.
    """
    jobs = jobs or min(8, os.cpu_count() or 1)
    mpc = mp.get_context("fork")
    workers = []
    for _ in range(jobs):
        a, b = mpc.Pipe()
        p = mpc.Process(target=_worker, args=(scenarios, bounds, tier, b, 0.35), daemon=True)
        p.start()
        b.close()
        workers.append([p, a, False])
    frontier = [(i, []) for i in reversed(range(len(scenarios)))]
    total = [Stats() for _ in scenarios]
    nviol = 0
    error = None
    stop = False
    while True:
        for w in workers:
            if not w[2] and frontier and not stop:
                w[1].send(frontier.pop())
                w[2] = True
        busy = [w for w in workers if w[2]]
        if not busy:
            break
        for conn in mp.connection.wait([w[1] for w in busy], timeout=5):
            w = next(x for x in busy if x[1] is conn)
            try:
                idx, stats, rest, err = conn.recv()
            except EOFError:
                error = f"worker died (exit {w[0].exitcode})"
                w[2] = False
                stop = True
                workers = [x for x in workers if x is not w]
                continue
            w[2] = False
            total[idx].merge(stats)
            nviol += len(stats.violations)
            frontier += [(idx, p) for p in rest]
            if err:
                error = err
                stop = True
        if nviol >= max_violations or (deadline and time.time() > deadline):
            stop = True
    for w in workers:
        try:
            w[1].send(None)
        except Exception:
            pass
    for w in workers:
        w[0].join(timeout=5)
        if w[0].is_alive():
            w[0].terminate()
    if error:
        raise RuntimeError("exploration aborted: " + error)
    return total, not frontier


class Enumerator:
    """Exhaustive enumeration *inside* one operation (all outcomes of its draws).

    ``for run in Enumerator(ctx).paths(): value = f(run.draw)`` visits each leaf
    of the tree of draws exactly once; ``run.weight`` is the leaf's probability.
    """

    def __init__(self, ctx, max_leaves=200000):
        self.ctx, self.max_leaves = ctx, max_leaves

    def run(self, body):
        """Call ``body(draw)`` on each path. Returns ``[(weight, value, path), ...]``."""
        out, stack = [], [[]]
        while stack:
            prefix = stack.pop()
            path, weight = [], [1.0]

            def draw(probs):
                pos = len(path)
                i = prefix[pos] if pos < len(prefix) else _first(probs)
                path.append((i, [float(q) for q in probs]))
                weight[0] *= float(probs[i])
                return i

            value = body(draw)
            out.append((weight[0], value, [p[0] for p in path]))
            new = len(path) - max(len(prefix) - 1, 0)
            self.ctx.count(states=new, transitions=new, traces=1)
            for pos in range(len(path) - 1, len(prefix) - 1, -1):
                i, probs = path[pos]
                for alt in range(i + 1, len(probs)):
                    if probs[alt] > 0:
                        stack.append([p[0] for p in path[:pos]] + [alt])
            if len(out) > self.max_leaves:
                raise RuntimeError("draw enumeration exceeds its bound")
        return out


def _first(probs):
    for i, q in enumerate(probs):
        if q > 0:
            return i
    raise RuntimeError("empty distribution")


# ----------------------------------------------------------------------------- main


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        entries = json.load(f)["findings"]
    return [e for e in entries if e["property"] == prop and e.get("status") == "known"]


def main(prop, module, argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=None)
    ap.add_argument("--only", default=None)
    args = ap.parse_args(argv)
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    scen = module.scenarios(tier)  # list of (name, fn, bound, describing text)
    if args.only:
        scen = [s for s in scen if s[0] == args.only]

    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        fn = next(s for s in scen if s[0] == rep["scenario"])
        st = Stats()
        run_one(fn[1], rep["prefix"], fn[2], rep.get("tier", tier), st)
        for v in st.violations:
            print(json.dumps(v["choices"]))
            print(v["msg"])
        print("reproduced" if st.violations else "not reproduced")
        return 1 if st.violations else 0

    known = load_known(prop)
    KNOWN.update(e["signature"] for e in known)
    t0 = time.time()
    stats, exhausted = explore([s[1] for s in scen], [s[2] for s in scen], tier, args.jobs)
    wall = time.time() - t0

    fresh = []
    for (name, *_), st in zip(scen, stats):
        for v in st.violations:
            v["scenario"] = name
            fresh.append(v)
    tot = Stats()
    for s in stats:
        tot.merge(s)
    for e in known:
        if tot.known.get(e["signature"]):
            print(f"KNOWN-FINDING: property={prop} {e['what']}")
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(module, "LEVEL", "model_checking"),
        "coverage": {
            "states": tot.states,
            "transitions": tot.transitions,
            "traces_validated_against_impl": tot.traces,
            "outside_domain": tot.skipped,
            "exhaustive": bool(exhausted),
            "bounds": {
                s[0]: {
                    "deviation_bound": s[2],
                    "what": s[3],
                    "states": st.states,
                    "transitions": st.transitions,
                    "traces": st.traces,
                }
                for s, st in zip(scen, stats)
            },
            "observed": dict(tot.notes),
            "known_findings": dict(tot.known),
            "samples": [x for s in stats for x in s.samples[:1]][:8] or [["none"]],
            "binding": "every trace is an execution of the real package in /repo; "
            "the reference is evaluated on the same path",
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(OUT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    print(
        f"{prop} tier={tier} states={tot.states} transitions={tot.transitions} "
        f"traces={tot.traces} skipped={tot.skipped} exhausted={exhausted} wall={wall:.1f}s"
    )
    if tot.traces == 0:
        print("no trace was executed", file=sys.stderr)
        return 3
    if fresh:
        d = os.path.join(OUT, "replays")
        os.makedirs(d, exist_ok=True)
        # the shortest counterexample (fewest non-default choices) comes first
        fresh.sort(key=lambda v: (sum(1 for x in v["prefix"] if x), len(v["prefix"])))
        for n, v in enumerate(fresh[:3]):
            path = os.path.join(d, f"{prop}-{n}.json")
            with open(path, "w") as f:
                json.dump(
                    {"property": prop, "scenario": v["scenario"], "tier": tier,
                     "prefix": v["prefix"], "choices": v["choices"], "msg": v["msg"],
                     "replay_cmd": f"bin/check {prop} --tier {tier} --replay {path}"},
                    f, indent=1, default=str)
            print(f"[{v['scenario']}] {json.dumps(v['choices'], default=str)}")
            print("   " + v["msg"].replace("\n", "\n   "))
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if not exhausted:
        print("frontier not exhausted", file=sys.stderr)
        return 3
    return 0
