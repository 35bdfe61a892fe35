"""C09: minimalize() is sound and drops barren variables; elimination orderings are greedily minimal in the moral graph."""
import itertools
import numpy as np
from ..mgen import *
from ..large import *
from ..ref import Table
from .. import snap
from .c07 import SHAPES

LBL = ["X", "X1", "Y", "A", "Z", "B", "X11", "C"]
DOM = {"X": ["x0", "x1"], "X1": [2, 3, 1], "Y": [True, False], "A": ["a", "b"], "Z": [0, 1], "B": [1, 0], "X11": ["s", "t"], "C": [0, 1]}
SIZES = [dict(X=2, X1=3, Y=2, A=5, Z=2, B=3, X11=2, C=4), dict(X=7, X1=2, Y=2, A=3, Z=2, B=2, X11=5, C=2), {v: 2 for v in LBL}]


def BOUNDS(tier):
    return dict(dags="all labelled DAGs with <=4 nodes, one per isomorphism class with 5 nodes" + ("" if tier == "quick" else " under all rotations of the labels"),
                roles="all target/evidence assignments (5 nodes: %s)" % ("single target, all evidence sets" if tier == "quick" else "all"),
                wide="%d networks with 6-8 variables: one or two targets, up to 3 evidence variables, thinned by a fixed hash; all sets to eliminate" % len(SHAPES), large="forests of %s variables in %d shapes: one or two targets and evidence at spread positions; sets to eliminate thinned by a fixed hash; a star of 90" % ("24" if tier == "quick" else "24-40", len(KINDS)),
                orderings="all sets to eliminate, three heuristics, %d size assignments" % len(SIZES))


def specs(tier):
    out = []
    for n in (1, 2, 3, 4):
        for i, e in enumerate(labelled_dags(n)):
            out.append(dict(kind="min", n=n, e=e, z=i % 2, rot=0, T="all"))
            out.append(dict(kind="ord", n=n, e=e, rot=0))
    for i, e in enumerate(iso_dags(5)):
        for r in range(1 if tier == "quick" else 5):
            r = (i + r) % 5
            out.append(dict(kind="min", n=5, e=e, z=i % 2, rot=r, T="one" if tier == "quick" else "all"))
            out.append(dict(kind="ord", n=5, e=e, rot=r))
    for k, (n, e) in enumerate(SHAPES):
        r = (3 * k) % n
        for part in range(4): out.append(dict(kind="min", n=n, e=e, z=k % 2, rot=r, T="few", part=part, thin=2 if tier == "quick" else 1))
        for name in ("MIN_FILL", "MIN_SIZE", "MIN_WEIGHT"): out.append(dict(kind="ord", n=n, e=e, rot=r, only=name, thin=n - 5 if tier == "quick" else 1))
    out.append(dict(kind="ord", n=90, e=[(0, i) for i in range(1, 90)], rot=0, sets=6, lbl=[f"X{i}" for i in range(90)]))   # tables too large for 64 bits
    for kind in KINDS:
        for n in ((24,) if tier == "quick" else (24, 40)):
            out.append(dict(kind="large", shape=kind, n=n))
            out.append(dict(kind="ord", n=n, e=[(p, i) for i, p in enumerate(shape(kind, n)) if p is not None], rot=0, sets=6, lbl=[f"X{i}" for i in range(n)]))
    return out


def edges(spec):
    if "lbl" in spec: return [(spec["lbl"][a], spec["lbl"][b]) for a, b in spec["e"]]
    lbl = LBL[:spec["n"]]
    lbl = lbl[spec["rot"]:] + lbl[:spec["rot"]]
    return [(lbl[a], lbl[b]) for a, b in spec["e"]]


def descendants(ed, v):
    out, todo = set(), [v]
    while todo:
        x = todo.pop()
        for a, b in ed:
            if a == x and b not in out: out.add(b); todo.append(b)
    return out


def posterior(factors, T, E, dom):
    """normalised product of the factors at E, summed onto T (array in the order of T)"""
    vs = list(T)
    for f in factors:
        for v in f.domain:
            if v not in vs and v not in E: vs.append(v)
    ax = {v: i for i, v in enumerate(vs)}
    prod = np.ones([len(dom[v]) for v in vs])
    for f in factors:
        fv = [v for v in f.domain]
        arr = np.asarray(f.values_list, dtype=float).reshape([len(f.domain[v]) for v in fv])
        # states in reference order, observed variables fixed
        idx = []
        for v in fv:
            st = list(f.domain[v])
            idx.append([st.index(E[v])] if v in E else [st.index(s) for s in dom[v]])
        arr = arr[np.ix_(*idx)] if fv else arr
        keep = [v for v in fv if v not in E]
        arr = arr.reshape([len(dom[v]) for v in keep])
        order = sorted(keep, key=lambda v: ax[v])
        arr = np.transpose(arr, [keep.index(v) for v in order])
        arr = arr.reshape([len(dom[v]) if v in order else 1 for v in vs])
        prod = prod * arr
    drop = tuple(i for v, i in ax.items() if v not in T)
    res = prod.sum(axis=drop) if drop else prod
    return res / res.sum()


def run_min(spec, rec):
    from bcause.models.transform.simplification import minimalize
    ed = edges(spec)
    ref = RefBN(LBL[:spec["n"]], ed, DOM, zeros=spec["z"])
    m = ref.build(layout=len(ed) % 4)
    base = snap.model(m)
    desc = {v: descendants(ed, v) for v in ref.nodes}
    for k, combo in enumerate(itertools.product("-TE", repeat=spec["n"])):
        T = [v for v, r in zip(ref.nodes, combo) if r == "T"]
        if not T or (spec["T"] == "one" and len(T) > 1): continue
        if spec["T"] == "few" and (len(T) > 2 or combo.count("E") > 3 or k % (4 * spec["thin"]) != spec["part"]): continue
        E = {v: ref.dom[v][(k + i) % len(ref.dom[v])] for i, (v, r) in enumerate(zip(ref.nodes, combo)) if r == "E"}
        p = ref.marginal(T, E)
        if p.sum() <= 1e-12:
            E = {v: ref.dom[v][(i + 1) % 2] for i, v in enumerate(E)}
            p = ref.marginal(T, E)
            if p.sum() <= 1e-12: rec.note("impossible evidence"); continue
        case = [ed, T, str(E)]
        rec.at(case)
        E0 = dict(E)
        t = T[0] if len(T) == 1 and k % 2 else (set(T) if k % 3 == 0 else list(T))
        r = minimalize(m, t, E) if E or k % 2 else minimalize(m, t)
        rec.step(); rec.trace(); rec.state(case)
        rec.check(E == E0 and (not isinstance(t, (set, list)) or set(t) == set(T)), "arguments changed", case)
        vs = set(r.variables)
        rec.check(vs == set(r.graph.nodes) and vs <= set(ref.nodes), f"variables {vs}, nodes {list(r.graph.nodes)}", case)
        rec.check(set(T) <= vs, f"targets {T} not all kept: {vs}", case)
        rel = set(T) | set(E)
        barren = {v for v in ref.nodes if v not in rel and not (desc[v] & rel)}
        rec.check(not (vs & barren), f"barren variables {vs & barren} kept", case)
        got = posterior(list(r.factors.values()), T, E, ref.dom)
        rec.check(np.allclose(got, p / p.sum(), atol=1e-9), f"posterior of {T} given {E}: {got.tolist()} instead of {(p / p.sum()).tolist()}", case)
        rec.outcome((tuple(sorted(vs)), len(r.factors)))
    rec.check(snap.model(m) == base, "model changed", [ed, "unchanged"])


def run_ord(spec, rec):
    import networkx as nx
    from bcause.inference.ordering import min_fill_heuristic, min_size_heuristic, min_weight_heuristic, heuristic_functions
    ed = edges(spec)
    nodes = spec.get("lbl", LBL[:spec["n"]])
    g = nx.DiGraph(); g.add_nodes_from(nodes); g.add_edges_from(ed)
    adj0 = {v: set() for v in nodes}
    for a, b in ed: adj0[a].add(b); adj0[b].add(a)
    for v in nodes:
        pa = [a for a, b in ed if b == v]
        for a, b in itertools.combinations(pa, 2): adj0[a].add(b); adj0[b].add(a)
    fns = {"MIN_FILL": min_fill_heuristic, "MIN_SIZE": min_size_heuristic, "MIN_WEIGHT": min_weight_heuristic}
    before = (list(g.nodes), list(g.edges))
    if "lbl" in spec: few = [[v for v in nodes if mix(v, j, spec["n"]) % 6 > j] for j in range(spec["sets"])]
    for k in range(0, spec["n"] + 1):
        for S in (itertools.combinations(nodes, k) if "lbl" not in spec else few[k:k + 1]):
            if "thin" in spec and mix(S) % spec["thin"]: continue
            for name, fn in fns.items():
                if spec.get("only", name) != name: continue
                for si, sz in enumerate(SIZES if name == "MIN_WEIGHT" else SIZES[:1]):
                    case = [ed, list(S), name, si]
                    rec.at(case)
                    sizes = {v: sz[v] if v in sz else 2 + mix(v, si) % 4 for v in nodes}
                    order = [str(v) for v in (fn if k % 2 else heuristic_functions[name])(g, to_remove=list(S), varsizes=sizes)]
                    rec.step(); rec.trace(); rec.state(case)
                    rec.check(sorted(order) == sorted(S), f"ordering {order} of {S}", case)
                    adj = {v: set(a) for v, a in adj0.items()}

                    def cost(v):
                        if name == "MIN_SIZE": return len(adj[v])
                        if name == "MIN_FILL": return sum(1 for a, b in itertools.combinations(sorted(adj[v]), 2) if b not in adj[a])
                        c = sizes[v]
                        for a in adj[v]: c *= sizes[a]
                        return c
                    left = set(S)
                    for v in order:
                        cs = {x: cost(x) for x in left}
                        rec.check(cs[v] == min(cs.values()), f"{v} eliminated with cost {cs[v]}, costs {cs}", case)
                        for a, b in itertools.combinations(sorted(adj[v]), 2): adj[a].add(b); adj[b].add(a)
                        for a in adj[v]: adj[a].discard(v)
                        del adj[v]; left.discard(v)
                    rec.outcome((name, tuple(order)))
    rec.check((list(g.nodes), list(g.edges)) == before, "graph changed", [ed, "graph"])


def run_large(spec, rec):
    from bcause.models.transform.simplification import minimalize
    ref = LargeBN(spec["shape"], spec["n"])
    m = ref.build()
    base = snap.model(m)
    desc = {v: descendants(ref.edges, v) for v in ref.names}
    V = [ref.names[i] for i in spots(spec["n"])]
    for k, combo in enumerate(itertools.product("-TE", repeat=len(V))):
        T = [v for v, r in zip(V, combo) if r == "T"]
        if not T or len(T) > 2: continue
        E = {v: ref.dom[v][mix(v, k) % len(ref.dom[v])] for v, r in zip(V, combo) if r == "E"}
        case = ["large", spec["shape"], spec["n"], T, str(E)]
        rec.at(case)
        r = minimalize(m, list(T), dict(E))
        rec.step(); rec.trace(); rec.state(case)
        vs = set(r.variables)
        rec.check(vs == set(r.graph.nodes) and set(T) <= vs <= set(ref.names), f"variables {vs}, nodes {list(r.graph.nodes)}", case)
        rel = set(T) | set(E)
        barren = {v for v in ref.names if v not in rel and not (desc[v] & rel)}
        rec.check(not (vs & barren), f"barren variables {vs & barren} kept", case)
        args = []
        for f in r.factors.values():
            fv = list(f.domain)
            arr = np.asarray(f.values_list, dtype=float).reshape([len(f.domain[v]) for v in fv])
            arr = arr[np.ix_(*[[list(f.domain[v]).index(s) for s in ([E[v]] if v in E else ref.dom[v])] for v in fv])] if fv else arr
            keep = [v for v in fv if v not in E]
            args += [arr.reshape([len(ref.dom[v]) for v in keep]), [ref.names.index(v) for v in keep]]
        got = np.einsum(*args, [ref.names.index(v) for v in T], optimize="greedy")
        got, p = got / got.sum(), ref.marginal(T, E)
        p = p / p.sum()
        rec.check(np.allclose(got, p, atol=1e-9), f"posterior of {T} given {E}: {got.tolist()} instead of {p.tolist()}", case)
        rec.outcome((len(vs), len(r.factors)))
    rec.check(snap.model(m) == base, "model changed", ["large", spec["shape"]])


def run(spec, rec):
    {"min": run_min, "ord": run_ord, "large": run_large}[spec["kind"]](spec, rec)
    rec.sample(spec)
