"""C07: variable elimination against the brute-force joint, on every DAG / query within the bounds."""
import itertools
from ..mgen import *
from ..large import *
from .. import snap
from ..fgen import STORES

LBL = ["X", "X1", "Y", "A", "Z"]
DOM = {"X": ["x0", "x1"], "X1": [2, 3, 1], "Y": [True, False], "A": ["a", "b"], "Z": [0, 1]}


# (nodes, edges) of bigger structures: chain, tree, polytree, dense, many parents, many children, long cycle, two blocks, grid
SHAPES = [(7, [(i, i + 1) for i in range(6)]), (7, [((i - 1) // 2, i) for i in range(1, 7)]), (7, [(0, 2), (1, 2), (2, 3), (2, 4), (4, 5), (6, 5)]),
          (7, [(i, j) for i in range(7) for j in range(i + 1, min(7, i + 3))]), (6, [(i, 5) for i in range(5)]), (7, [(0, i) for i in range(1, 7)]),
          (8, [(0, 1), (1, 2), (2, 3), (0, 4), (4, 5), (5, 6), (3, 7), (6, 7)]), (8, [(0, 1), (1, 2), (0, 2), (2, 3), (4, 5), (5, 6), (4, 6), (6, 7)]),
          (8, [(0, 1), (1, 2), (2, 3), (4, 5), (5, 6), (6, 7), (0, 4), (1, 5), (2, 6), (3, 7)]), (8, [(0, 4), (1, 4), (2, 4), (3, 4), (4, 5), (4, 6), (4, 7)])]


def BOUNDS(tier):
    q = tier == "quick"
    return dict(dags="all labelled DAGs with <=4 nodes; one per isomorphism class with 5 nodes" + ("" if q else " (all relabellings by rotation); all queries"),
                queries="all target/conditioning/evidence role assignments; evidence states " + ("one per variable (n=4), all (n<=3)" if q else "all"),
                orders="every elimination order for one DAG per class, n<=4", heuristics="MIN_FILL, MIN_SIZE, MIN_WEIGHT, default",
                stores=STORES, zeros="none and half of the conditional rows with a zero", large="forests of %s variables in %d shapes (12 variables in the star): one or two targets, conditioning and evidence on up to 2 spread positions, a third or all of the rest observed; a variable with 10 parents" % ("40" if q else "30-70", len(KINDS)), wide="%d networks with 6-8 variables: single targets with evidence on <=2 variables, up to 3 targets, 2 conditioning and n-2 evidence variables thinned by a fixed hash" % len(SHAPES), asia="all single-target queries with <=1 evidence")


def specs(tier):
    out = []
    for n in (1, 2, 3):
        for i, e in enumerate(labelled_dags(n)):
            for z in (0, 1):
                for vt in STORES:
                    out.append(dict(kind="all", n=n, e=e, z=z, vt=vt, layout=(i + z) % 4, ev="all"))
    for i, e in enumerate(labelled_dags(4)):
        out.append(dict(kind="all", n=4, e=e, z=i % 2, vt="numpy", layout=i % 4, ev="one" if tier == "quick" else "all"))
        if tier == "thorough":
            out.append(dict(kind="all", n=4, e=e, z=1 - i % 2, vt=STORES[i % 4], layout=(i + 1) % 4, ev="one"))
    for i, e in enumerate(iso_dags(4)):
        for z in (0, 1):
            out.append(dict(kind="orders", n=4, e=e, z=z, vt=STORES[i % 4], layout=(i + z) % 4))
    for e in labelled_dags(3):
        out.append(dict(kind="orders", n=3, e=e, z=1, vt="numpy", layout=1))
    for i, e in enumerate(iso_dags(5)):
        if tier == "quick":
            out.append(dict(kind="small", n=5, e=e, z=i % 2, vt="numpy", layout=i % 4, rot=i % 5))
        else:
            for r in range(5):
                out.append(dict(kind="all", n=5, e=e, z=(i + r) % 2, vt="numpy", layout=(i + r) % 4, ev="one", rot=r))
    out.append(dict(kind="asia"))
    for k in range(len(SHAPES)):
        for part in range(4): out.append(dict(kind="wide", k=k, part=part, deep=tier != "quick"))
    for kind in KINDS:
        for n in ((40,) if tier == "quick" else (30, 40, 55, 70)):
            for part in range(2): out.append(dict(kind="large", shape=kind, n=12 if kind == "star" else n, part=part))   # (summing out the centre of a star first gives a table over all the others)
    out.append(dict(kind="hub"))
    return out


def mkref(spec):
    lbl = LBL[:spec["n"]]
    r = spec.get("rot", 0)
    lbl = lbl[r:] + lbl[:r]
    return RefBN(LBL[:spec["n"]], [(lbl[a], lbl[b]) for a, b in spec["e"]], DOM, zeros=spec["z"])


def roles(ref, mode):
    """(targets, conditioning, evidence) for every role assignment, fewest variables first"""
    per = []
    for i, v in enumerate(ref.nodes):
        st = ref.dom[v] if mode == "all" else [ref.dom[v][-1 if i % 2 else 0]]
        per.append(["-", "T", "C"] + [("E", s) for s in st])
    for combo in itertools.product(*per):
        T = [v for v, r in zip(ref.nodes, combo) if r == "T"]
        if not T: continue
        C = [v for v, r in zip(ref.nodes, combo) if r == "C"]
        E = {v: r[1] for v, r in zip(ref.nodes, combo) if isinstance(r, tuple)}
        yield T, C, E


def engines(model):
    from bcause.inference.probabilistic.elimination import VariableElimination
    from bcause.inference.ordering import Heuristic
    return [VariableElimination(model)] + [VariableElimination(model, h) for h in Heuristic]


def ask(rec, ref, inf, T, C, E, case, k):
    t = T[0] if len(T) == 1 and k % 2 else (T if k % 3 else list(reversed(T)))
    c = None if not C and k % 2 else (C[0] if len(C) == 1 and k % 3 == 0 else C)
    rec.at(case)
    if c is None and k % 5 == 2:      # in two steps
        res = (inf.compile(t, E) if E else inf.compile(t)).run()
    elif c is None: res = inf.query(t, evidence=E) if E or k % 4 < 2 else inf.query(t)
    else: res = inf.query(t, conditioning=c, evidence=E)
    d = cmp_query(res, ref, T, C, E)
    rec.check(d is None, f"P({T}|{C},{E}): {d}", case)
    rec.step(); rec.trace()
    rec.outcome(tuple(round(float(x), 7) for x in res.values_list))


def run(spec, rec):
    if spec["kind"] == "asia": return asia(rec)
    if spec["kind"] == "wide": return wide(spec, rec)
    if spec["kind"] == "large": return large(spec, rec)
    if spec["kind"] == "hub": return hub(rec)
    ref = mkref(spec)
    model = ref.build(layout=spec["layout"], vtype=spec["vt"])
    if spec["kind"] == "orders": return orders(spec, ref, model, rec)
    infs = engines(model)
    k = 0
    for T, C, E in roles(ref, spec.get("ev", "one")):
        if spec["kind"] == "small" and (len(T) > 1 or len(C) > 1 or len(E) > 1): continue
        if E and ref.marginal([], E) <= 0: continue
        k += 1
        case = [spec, T, C, list(E.items()), k % 4]
        ask(rec, ref, infs[k % 4], T, C, E, case, k // 4)
        rec.state(case)
    rec.sample(dict(edges=ref.edges, queries=k))


def orders(spec, ref, model, rec):
    """every elimination order, injected as the heuristic"""
    from bcause.inference.probabilistic.elimination import VariableElimination
    for T, C, E in roles(ref, "one"):
        if C and len(T) > 1: continue
        if E and ref.marginal([], E) <= 0: continue
        seen = set()
        todo = [None]
        while todo:
            perm = todo.pop()
            asked = []

            def heuristic(dag, to_remove, varsizes=None, perm=perm):
                asked.append(list(to_remove))
                if perm is None: return list(to_remove)
                return [v for v in perm if v in to_remove]

            inf = VariableElimination(model, heuristic)
            case = [spec, "order", perm, T, C, list(E.items())]
            ask(rec, ref, inf, T, C, E, case, 1)
            rec.state(case)
            if perm is None:
                todo = [p for p in itertools.permutations(asked[0])][1:] if asked else []
        rec.note("order_sets")
    rec.sample(dict(edges=ref.edges, all_orders=True))


def wide(spec, rec):
    n, E = SHAPES[spec["k"]]
    names = ["V10", "V1", "V2", "V20", "B", "a", "V", "V11"][:n]
    dom = {v: [0, 1] if i % 2 else ["s", "t"] for i, v in enumerate(names)}
    ref = RefBN(names, [(names[a], names[b]) for a, b in E], dom, zeros=spec["k"] % 2, salt=spec["k"])
    model = ref.build(layout=spec["k"] % 4)
    infs = engines(model)
    k = 0
    # pairs of targets, conditioning variables, larger evidence, thinned by a fixed hash
    for T, C, nE in ((1, 0, 0), (1, 1, 0), (2, 0, 0), (1, 1, 1), (2, 0, 1), (2, 1, 1), (1, 2, 1), (3, 0, 1), (1, 0, 3), (1, 0, 5), (1, 1, n - 2), (n, 0, 0)):
        if T + C + nE > n: continue
        for p in itertools.permutations(range(n), T + C + nE) if T < n else [range(n)]:
            t, c, es = p[:T], p[T:T + C], p[T + C:]
            if any(list(x) != sorted(x) for x in (t, c, es)): continue
            h = mix(spec["k"], p)
            if h % 4 != spec["part"] or (T + C + nE > 2 and T < n and (h // 4) % (4 if spec["deep"] else 24)): continue
            ev = {names[v]: dom[names[v]][(h >> (4 + i)) % 2] for i, v in enumerate(es)}
            if ev and ref.marginal([], ev) <= 0: continue
            k += 1
            T_, C_ = [names[v] for v in t], [names[v] for v in c]
            case = ["wide", spec["k"], T_, C_, list(ev.items()), k % 4]
            ask(rec, ref, infs[k % 4], T_, C_, ev, case, k // 4)
            rec.state(case)
    rec.sample(dict(edges=ref.edges))
    if not spec["deep"] and spec["part"] != spec["k"] % 4: return
    for t in names:
        for es in itertools.chain([(v,) for v in names], itertools.combinations(names, 2)):
            if t in es or mix(t, es) % 4 != spec["part"]: continue
            for st in itertools.product(*[dom[v] for v in es]):
                ev = dict(zip(es, st))
                if ev and ref.marginal([], ev) <= 0: continue
                k += 1
                case = ["wide", spec["k"], t, list(ev.items()), k % 4]
                ask(rec, ref, infs[k % 4], [t], [], ev, case, 1)
                rec.state(case)


def large(spec, rec):
    """forests of tens of variables: targets, conditioning and evidence at positions spread over them, and everything else observed"""
    ref = LargeBN(spec["shape"], spec["n"])
    m = ref.build()
    base = snap.model(m)
    infs = engines(m)
    V = [ref.names[i] for i in spots(spec["n"])]
    k = 0
    qs = []
    for t in V:
        rest = [v for v in V if v != t]
        for r in range(3):
            for ev in itertools.combinations(rest, r): qs.append(([t], [], ev))
        for c in rest: qs.append(([t], [c], ()))
        qs.append(([t], [rest[0]], (rest[-1],)))
        qs.append(([t], [], tuple(v for v in ref.names if v != t)))
        qs.append(([t, rest[1]], [], tuple(v for j, v in enumerate(ref.names) if v not in (t, rest[1]) and j % 3 == 0)))
    for T, C, ev in qs:
        k += 1
        if k % 2 != spec["part"]: continue
        E = {v: ref.dom[v][mix(v, k) % len(ref.dom[v])] for v in ev}
        case = ["large", spec["shape"], spec["n"], T, C, list(E.items())[:6], len(E), k % 4]
        ask(rec, ref, infs[k % 4], T, C, E, case, k)
        rec.state(case)
    rec.check(snap.model(m) == base, "the model changed", ["large", spec["shape"], spec["n"]])


def hub(rec):
    """a variable with ten parents"""
    names = [f"X{i}" for i in range(11)]
    ref = RefBN(names, [(v, "X10") for v in names[:-1]], {v: [0, 1] if i % 2 else ["a", "b"] for i, v in enumerate(names)}, salt=3)
    m = ref.build(layout=1)
    infs = engines(m)
    k = 0
    for t in ("X0", "X4", "X10"):
        for ev in itertools.chain([()], itertools.combinations([v for v in ("X1", "X9", "X10") if v != t], 1), itertools.combinations([v for v in ("X1", "X9", "X10") if v != t], 2), [tuple(v for v in names if v != t)]):
            k += 1
            E = {v: ref.dom[v][mix(v, k) % 2] for v in ev}
            case = ["hub", t, list(E.items()), k % 4]
            ask(rec, ref, infs[k % 4], [t], [], E, case, k)
            rec.state(case)


def asia(rec):
    """the network shipped with the repository, against brute force over the tables read from it"""
    import os
    from .. import env
    from bcause.models import BayesianNetwork
    path = os.path.join(env.REPO, "models", "asia.bif")
    if not os.path.exists(path): return
    from ..ref import read
    m = BayesianNetwork.read(path)
    dom = {v: list(d) for v, d in m.domains.items()}
    ref = RefBN(list(m.variables), list(m.graph.edges), dom)
    ref.cpt = {v: read(f) for v, f in m.factors.items()}
    infs = engines(m)
    k = 0
    for t in ref.nodes:
        for e in [None] + ref.nodes:
            if e == t: continue
            for s in (dom[e] if e else [None]):
                ev = {e: s} if e else {}
                k += 1
                case = ["asia", t, e, s, k % 4]
                ask(rec, ref, infs[k % 4], [t], [], ev, case, 1)
                rec.state(case)
