"""Explicit-state breadth-first search over operation histories.

A model is an object with
  name                      harness name
  depth(tier)               bound on the history length
  ops(tier)                 finite alphabet of operations (any repr-able values)
  fresh(tier)               a new world: real implementation object(s) + reference model
  apply(ctx, world, op)     run op on both and compare; raises engine.Violation
  key(world)                canonical form of the *whole* object graph of the world
                            (see snapshot()): two histories are merged only if the real
                            objects and the reference model are structurally identical,
                            hence have the same futures.
Every history of length <= depth whose prefix states are all distinct is executed on
fresh real objects; histories that reach an already visited state are not extended,
except that histories of up to model.unmerged (default 1) operations always are.
"""
import enum
import multiprocessing
import os
import signal
import time
import traceback

import engine
from engine import Violation, _short, _h


def snapshot(o, memo=None):
    """canonical, address-free form of an object graph (aliasing is preserved)"""
    if memo is None:
        memo = {}
    if o is None or isinstance(o, (bool, int, float, str, bytes)):
        return o
    if isinstance(o, enum.Enum):
        return ("enum", type(o).__name__, o.name)
    if isinstance(o, type):
        return ("type", o.__name__)
    if id(o) in memo:
        return ("ref", memo[id(o)])
    if callable(o) and not hasattr(o, "__dict__"):
        return ("callable",)
    memo[id(o)] = len(memo)
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(snapshot(x, memo) for x in o)
    if isinstance(o, (set, frozenset)):
        return ("set",) + tuple(sorted((repr(snapshot(x, memo)) for x in o)))
    if isinstance(o, dict):
        return ("dict",) + tuple((snapshot(k, memo), snapshot(v, memo)) for k, v in o.items())
    if type(o).__module__.split(".")[0] in ("numpy", "pandas"):
        return ("np", repr(o))
    if callable(o):
        return ("callable", getattr(o, "__name__", ""))
    d = getattr(o, "__dict__", None)
    if d is not None:
        return ("obj", type(o).__name__) + tuple((k, snapshot(v, memo)) for k, v in sorted(d.items()))
    return ("repr", type(o).__name__, repr(o))


MODE = ("name", "bya", "co", "c1", "c2", "v", "t", "fmax", "kmax", "theta", "tat", "d", "fini")
PAX = ("va", "pv", "pw", "pa", "pt", "spv", "spw", "spa", "spt")
NODE = ("id", "name", "zone_id", "x", "y", "radius", "angle", "width")


def observe(o, memo=None):
    """like snapshot(), of what the public interface of a city, demand, network ... shows, whatever it keeps inside"""
    if memo is None:
        memo = {}
    if o is None or isinstance(o, (bool, int, float, str, bytes)):
        return o
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(observe(x, memo) for x in o)
    if isinstance(o, dict):
        return ("dict",) + tuple((observe(k, memo), observe(v, memo)) for k, v in o.items())
    if not type(o).__module__.startswith("sidermit"):
        return snapshot(o)
    if isinstance(o, enum.Enum):
        return (type(o).__name__, o.name)
    if id(o) in memo:
        return ("ref", memo[id(o)][0])
    memo[id(o)] = (len(memo), o)
    ks = {c.__name__ for c in type(o).__mro__}
    see = lambda *q: (type(o).__name__,) + tuple(observe(x, memo) for x in q)
    of = lambda fs: see(*[getattr(o, k) for k in fs])
    if "Node" in ks:
        return of(NODE)
    if "TransportMode" in ks:
        return of(MODE)
    if "Passenger" in ks:
        return of(PAX)
    if "Zone" in ks:
        return of(("id", "periphery", "subcenter"))
    if "Edge" in ks:
        return of(("id", "node1", "node2"))
    if "Route" in ks:
        return of(("id", "mode", "nodes_sequence_i", "nodes_sequence_r", "stops_sequence_i", "stops_sequence_r"))
    if "Graph" in ks:
        return see(o.get_parameters(), o.get_nodes(), o.get_zones(), o.get_edges(), o.get_cbd(), o.get_edges_distance())
    if "TransportNetwork" in ks:
        return see(o.get_routes(), o.get_modes())
    if "Demand" in ks:
        return see(o.get_matrix(), o.get_total_trips())
    if "ExtendedEdge" in ks:
        return of(("nodei", "nodej", "t", "f", "type"))
    if "CityNode" in ks:
        return see(o.graph_node)
    if "StopNode" in ks:
        return see(o.city_node, o.mode)
    if "RouteNode" in ks:
        return see(o.route, o.stop_node, o.direction)
    return snapshot(o)


def _mk_ctx(model, tier):
    return engine.Ctx(model.name, tier, [])


def play(model, tier, hist, ctx):
    w = model.fresh(tier)
    ops = model.ops(tier)
    for i in hist:
        model.apply(ctx, w, ops[i])
    return w


def _guarded(model, tier, hist):
    ctx = _mk_ctx(model, tier)
    signal.signal(signal.SIGPROF, engine._on_cpu)
    signal.setitimer(signal.ITIMER_PROF, engine.CPU_LIMIT_S)
    try:
        w = play(model, tier, hist, ctx)
        k = _h(model.key(w))
        return k, None, ctx
    except Violation as v:
        return None, {"message": v.msg, "detail": v.detail}, ctx
    except engine.Hang:
        return None, {"message": "the history did not finish", "detail": None}, ctx
    except Exception as e:
        return None, {"message": "unexpected %s on a valid use: %s" % (type(e).__name__, _short(str(e))),
                      "detail": {"traceback": traceback.format_exc()[-3000:]}}, ctx
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


_W = None


def _expand(hist):
    model, tier = _W
    out = []
    for i in range(len(model.ops(tier))):
        k, v, ctx = _guarded(model, tier, hist + [i])
        out.append((i, k, v, ctx.n_validated))
        if v:
            break
    return hist, out


def bfs(model, tier, budget_s=300, workers=None):
    global _W
    _W = (model, tier)
    ops = model.ops(tier)
    depth = model.depth(tier)
    deadline = time.time() + budget_s
    k0, v0, _ = _guarded(model, tier, [])
    res = {"harness": model.name, "ops": len(ops), "depth_bound": depth, "states": 1, "transitions": 0, "validated": 0,
           "max_depth": 0, "capped": False, "violation": None, "levels": [1], "sample": None, "fixpoint": False,
           "keys": set()}
    if v0:
        res["violation"] = dict(v0, harness=model.name, history=[])
        return res
    seen = {k0}
    frontier = [[]]
    mp = multiprocessing.get_context("fork")
    with mp.Pool(workers or min(8, os.cpu_count() or 1)) as pool:
        for d in range(1, depth + 1):
            nxt = []
            # ordered imap: the histories kept for each state do not depend on timing
            for hist, out in pool.imap(_expand, frontier, chunksize=max(1, min(32, len(frontier) // 16))):
                for i, k, v, nval in out:
                    res["transitions"] += 1
                    res["validated"] += 1
                    if v and not res["violation"]:
                        res["violation"] = dict(v, harness=model.name, history=hist + [i],
                                                ops=[_short(ops[j]) for j in hist + [i]])
                    if k is not None and (k not in seen or d <= getattr(model, "unmerged", 1)):
                        # every pair of operations is run, also when the first leaves no visible trace
                        seen.add(k)
                        nxt.append(hist + [i])
                if res["violation"] or time.time() > deadline:
                    break
            if res["violation"]:
                break
            if time.time() > deadline:
                res["capped"] = True
                break
            res["max_depth"] = d
            res["levels"].append(len(nxt))
            if nxt:
                res["sample"] = [_short(ops[j], 120) for j in nxt[-1]]
            frontier = nxt
            if not frontier:
                res["fixpoint"] = True
                break
    res["states"] = len(seen)
    res["keys"] = seen
    return res


def _replay_hist(arg):
    model, tier, hist = arg
    k, v, ctx = _guarded(model, tier, hist)
    return {"violation": v, "key": k}


def confirm(model, tier, v):
    a = engine._fresh_call(_replay_hist, (model, tier, v["history"]))
    b = engine._fresh_call(_replay_hist, (model, tier, v["history"]))
    v["replay_kind"] = "history"
    v["stable"] = bool(a["violation"] and b["violation"] and a["violation"]["message"] == b["violation"]["message"])
    return v
