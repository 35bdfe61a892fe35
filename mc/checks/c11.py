"""C11: counterfactual queries against abduction-action-prediction by enumeration of the exogenous variables."""
import itertools
from ..mgen import *
from ..large import *
from ..fgen import STORES, subsets
from .. import snap
from .c10 import all_functions, variants, dos, wide_ref, DOM, DOM3, ENDO


def BOUNDS(tier):
    return dict(two_endogenous="3 DAGs x 8 sets of exogenous child sets x all functions when <=256 (quick: every 17th beyond 16, and evidence and pairs of worlds thinned by a fixed hash)",
                three_endogenous="25 DAGs x all sets of <=2 exogenous child sets",
                worlds="1, 2 and 3 worlds; interventions of 0..2 variables per world; joint targets across worlds",
                large="causal models over forests of %s variables in %d shapes: one and two worlds, evidence on up to 2 variables, thinned by a fixed hash" % ("16" if tier == "quick" else "16-30", len(KINDS)), wide="%d models with 4-6 endogenous variables: single interventions in one and two worlds, four worlds at once, evidence on one variable, on pairs and on every endogenous variable, thinned by a fixed hash" % len(WIDER),
                evidence="none, every single factual variable and state (exogenous included), every pair in full mode")


def specs(tier):
    out = []
    deep = tier != "quick"
    for k, (e, h) in enumerate(scm_structs(2, 3)):
        parts = 8 if len(h) > 1 else 2
        for part in range(parts):
            out.append(dict(kind="two", e=e, h=h, i=k, part=part, parts=parts, deep=deep))
    for k, (e, h) in enumerate(scm_structs(3, 2)):
        for s in ((k % 3,) if not deep else (0, 1, 2)):
            out.append(dict(kind="three", e=e, h=h, salt=s, i=k, deep=deep))
    if deep:
        for k, (e, h) in enumerate(scm_structs(3, 3)):
            if len(h) == 3: out.append(dict(kind="three", e=e, h=h, salt=k % 3, i=k, deep=False))
    for k, (n, e, h) in enumerate(WIDER):
        for part in range(3): out.append(dict(kind="wide", n=n, e=e, h=h, i=k, part=part, deep=deep))
    for kind in KINDS:
        for n in ((16,) if tier == "quick" else (16, 30)): out.append(dict(kind="large", shape=kind, n=n))
    out.append(dict(kind="names", i=0))
    out.append(dict(kind="collision", i=0))
    return out


def run(spec, rec):
    if spec["kind"] == "names": return names(rec)
    if spec["kind"] == "wide": return wide(spec, rec)
    if spec["kind"] == "large": return large(spec, rec)
    if spec["kind"] == "collision": return collision(rec)
    if spec["kind"] == "two":
        endo = ENDO[:2]
        base = make_scm(endo, spec["e"], spec["h"], DOM, exo_card=[2, 2, 2])
        funs = all_functions(base.pa, base.dom, endo)
        refs = [RefSCM(base.pa, base.prob, base.dom, fun=f) for f in funs] if funs is not None else \
               [make_scm(endo, spec["e"], spec["h"], DOM, exo_card=[2, 2, 3], salt=s) for s in range(8)]
        for j, ref in enumerate(refs):
            if j % spec["parts"] != spec["part"]: continue
            if not spec["deep"] and j >= 16 and j % 17: continue
            explore(spec, rec, ref, j, full=spec["deep"] and j % 4 == 0 or (j % 64 == 5 and len(ref.exo) < 3))
    else:
        ref = make_scm(ENDO, spec["e"], spec["h"], DOM3, salt=spec["salt"], zeros=spec["i"] % 4 == 0, exo_first=spec["i"] % 2 == 1)
        explore(spec, rec, ref, spec["i"], full=False)
    rec.sample(dict(edges=spec["e"], exogenous=spec["h"]))


def ask(rec, ref, inf, T, W, D, E, case, k=0):
    exp = ref.counterfactual(T, W, D, E)
    if exp is None: return
    rec.at(case)
    kw = {}
    if any(w != 1 for w in W) or k % 2: kw["targets_subgraphs"] = list(W)
    if E or k % 3 == 0: kw["evidence"] = dict(E)
    do = [dict(d) for d in D] if len(D) > 1 or k % 4 == 1 else dict(D[0])
    t = T[0] if len(T) == 1 and k % 2 == 0 else list(T)
    res = inf.counterfactual_query(t, do=do, **kw) if k % 5 else inf.query(t, do=do, counterfactual=True, **kw)
    names = [f"{v}_{w}" for v, w in zip(T, W)]
    d = cmp_dist(res, names, [ref.dom[v] for v in T], exp)
    rec.check(d is None, f"targets {names}, interventions {D}, evidence {E}: {d}", case)
    rec.step(); rec.trace(); rec.outcome(tuple(sorted((str(a), round(x, 7)) for a, x in exp.items())))


def evids(ref, full, i):
    allv = ref.endo + ref.exo
    for ev in subsets(allv):
        if len(ev) > (2 if full else 1): continue
        for st in itertools.product(*[ref.dom[v] for v in ev]):
            yield dict(zip(ev, st))
    if not full:
        # the whole factual endogenous world
        for st in itertools.product(*[ref.dom[v] for v in ref.endo]):
            yield dict(zip(ref.endo, st))


def explore(spec, rec, ref, j, full):
    from bcause.inference.causal.elimination import CausalVariableElimination
    tag = [spec["kind"], spec["e"], spec["h"], spec.get("salt", 0), j]
    rec.at(tag)
    model = ref.build(**variants(j + spec["i"]))
    before = snap.model(model)
    inf = CausalVariableElimination(model)
    rec.state((spec["e"], spec["h"], {v: list(map(str, ref.fun[v].val.values())) for v in ref.endo}, tuple(map(str, ref.prob.values()))))
    three = spec["kind"] == "three"
    deep = spec["deep"]
    D1 = list(dos(ref, 2 if full or deep else 1))
    k = j
    n0 = rec.transitions
    E_all = list(evids(ref, full, j))
    # one world
    for do in D1:
        T1 = [v for v in ref.endo if v not in do]
        for T in [t for t in subsets(T1) if 0 < len(t) <= 2]:
            for E in E_all:
                k += 1
                if not full and not deep and (E or len(T) > 1) and mix(j, T, do, E) % ((16 if len(T) == 1 else 40) if E else 6): continue
                ask(rec, ref, inf, T, [1] * len(T), [do], E, tag + [list(T), list(do.items()), list(E.items())], k)
    # two worlds
    rec.note("one_world", rec.transitions - n0)
    n1 = rec.transitions
    D2 = [d for d in D1 if len(d) == 1]
    for a, b in itertools.product(D2, D2):
        k += 1
        if not full and not deep and mix(j, a, b) % (32 if three else 6): continue
        for x, y in itertools.product([v for v in ref.endo if v not in a], [v for v in ref.endo if v not in b]):
            for E in ([{}] + E_all[1:]) if full else [{}] + ([E_all[1 + k % (len(E_all) - 1)]] if len(E_all) > 1 else []):
                k += 1
                ask(rec, ref, inf, [x, y], [1, 2], [a, b], E, tag + ["2w", x, y, list(a.items()), list(b.items()), list(E.items())], k)
        # only the second world, given by its number
        x = [v for v in ref.endo if v not in b]
        if x and k % 2: ask(rec, ref, inf, [x[-1]], [2], [a, b], {}, tag + ["w2", x[-1], list(a.items()), list(b.items())], k)
    rec.note("two_worlds", rec.transitions - n1)
    # three worlds, one of them with no intervention
    if D2 and (full or j % 3 == 0):
        a, b = D2[0], D2[-1]
        for dlist in ([a, {}, b], [b, a, {}]):
            T, W = [], []
            for w, d in enumerate(dlist, 1):
                free = [v for v in ref.endo if v not in d]
                if free: T.append(free[-1]); W.append(w)
            ask(rec, ref, inf, T, W, dlist, {}, tag + ["3w", str(dlist)], k)
            for E in E_all[1:4]:
                ask(rec, ref, inf, T[::-1], W[::-1], dlist, E, tag + ["3w", str(dlist), list(E.items())], k)
    # a model that has already been intervened on
    if full or j % 4 == 1:
        for d0 in D2[:2]:
            m2 = model.intervention(**d0)
            inf2 = CausalVariableElimination(m2)
            r2 = RefSCM({v: ([] if v in d0 else ref.pa[v]) for v in ref.endo}, ref.prob, ref.dom,
                        fun={v: ([ref.dom[v].index(d0[v])] if v in d0 else [ref.dom[v].index(s) for s in ref.fun[v].val.values()]) for v in ref.endo})
            for d in D2:
                for t in ref.endo:
                    if t in d: continue
                    ask(rec, r2, inf2, [t], [1], [d], {}, tag + ["after", str(d0), str(d), t], 1)
    rec.check(snap.model(model) == before, "the model was changed by counterfactual queries", tag + ["unchanged"])


def wide(spec, rec):
    from bcause.inference.causal.elimination import CausalVariableElimination
    ref = wide_ref(spec)
    tag = ["wide", spec["i"]]
    rec.at(tag)
    model = ref.build(**variants(spec["i"] + spec["part"] + 1))
    before = snap.model(model)
    inf = CausalVariableElimination(model)
    th = 1 if spec["deep"] else 4
    D = [d for d in dos(ref, 2) if d]
    E1 = [{v: s} for v in ref.endo + ref.exo for s in ref.dom[v]]
    rows = [{v: a[v] for v in ref.endo} for a in (ref.solve(u) for u, _ in ref.us()[::5])]
    k = 0
    for i, a in enumerate(D):
        if i % 3 != spec["part"]: continue
        for t in ref.endo:
            if t in a: continue
            Es = ([{}] if len(a) == 1 else []) + [E for E in E1 if mix(i, t, E) % (10 * th * len(a)) == 0] + [r for r in rows if mix(i, t, r) % (6 * th * len(a)) == 0]
            Es += [{v: rows[0][v], w: rows[0][w]} for v, w in itertools.combinations(ref.endo, 2) if mix(i, t, v, w) % (12 * th * len(a)) == 0]
            for E in Es:
                k += 1
                ask(rec, ref, inf, [t], [1], [a], E, tag + [t, list(a.items()), list(E.items())], k)
                rec.state((tag, t, a, E))
        for j, b in enumerate(D):
            if len(a) > 1 or len(b) > 1 or mix(i, j) % (8 * th): continue
            x, y = [v for v in ref.endo if v not in a], [v for v in ref.endo if v not in b]
            E = [{}, E1[(i + j) % len(E1)], rows[(i * j) % len(rows)]][(i + j) % 3]
            k += 1
            ask(rec, ref, inf, [x[j % len(x)], y[i % len(y)]], [1, 2], [a, b], E, tag + ["2w", list(a.items()), list(b.items()), list(E.items())], k)
    if spec["part"] == 0 and spec["n"] < 6:
        ds = [D[0], D[1], D[len(D) // 2], {}]
        T = [[v for v in ref.endo if v not in d][-1] for d in ds]
        ask(rec, ref, inf, T, [1, 2, 3, 4], ds, {}, tag + ["4w"], 0)
        ask(rec, ref, inf, T[::-1], [4, 3, 2, 1], ds, rows[0], tag + ["4w", "evidence"], 0)
    rec.check(snap.model(model) == before, "the model was changed by counterfactual queries", tag + ["unchanged"])
    rec.sample(dict(edges=spec["e"], exogenous=spec["h"]))


def names(rec):
    """variable names that look like world labels or contain one another, without colliding"""
    from bcause.inference.causal.elimination import CausalVariableElimination
    for endo, exo in ((["X1", "X11"], ["U1", "U11"]), (["a_b", "a"], ["a_b_u", "u_2"]), (["Y", "X"], ["XY", "YX"]), (["V_9", "V"], ["U", "U_"])):
        for e, h in scm_structs(2, 2):
            dom = {endo[0]: ["0", "1"], endo[1]: [0, 1, 2]}
            ref = make_scm(endo, e, h, dom, exo_names=exo, salt=1)
            inf = CausalVariableElimination(ref.build())
            for do in dos(ref, 1):
                for t in endo:
                    if t in do: continue
                    for E in [{}] + [{v: ref.dom[v][0]} for v in ref.endo + ref.exo]:
                        ask(rec, ref, inf, [t], [1], [do], E, ["names", endo, exo, e, h, t, list(do.items()), list(E.items())], 1)
                        rec.state(("names", endo, e, h, str(do), str(E), t))


def collision(rec):
    """a model holding both X and X_1: the label of X in world 1 is the name of a factual variable"""
    from bcause.inference.causal.elimination import CausalVariableElimination
    ref = make_scm(["X", "X_1"], [(0, 1)], [[0], [1]], {"X": [0, 1], "X_1": [0, 1]}, exo_card=[2, 4], fun=None)
    case = "endogenous variables named X and X_1 in one model"
    rec.at(case); rec.state(case)
    try:
        ask(rec, ref, CausalVariableElimination(ref.build()), ["X_1"], [1], [{"X": 1}], {}, case, 0)
    except Exception as ex:
        if type(ex).__name__ == "Violation": raise
        rec.fail(f"{type(ex).__name__}: {ex}", case)


def large(spec, rec):
    """causal models over forests of tens of variables: one and two worlds"""
    from bcause.inference.causal.elimination import CausalVariableElimination
    ref = LargeSCM(spec["shape"], spec["n"])
    m = ref.build("det" if len(spec["shape"]) % 2 else "mult")
    base = snap.model(m)
    inf = CausalVariableElimination(m)
    V = [ref.names[i] for i in spots(spec["n"])]
    st = lambda v, *x: ref.dom[v][mix(v, *x) % len(ref.dom[v])]
    qs, k = [], 0
    for d in V:
        for t in V:
            if t == d: continue
            for ev in [()] + [(v,) for v in V] + [(d, t)]:
                k += 1
                if ev and mix("c11", spec["shape"], k) % 3: continue
                E = {v: st(v, "e", k) for v in ev}
                qs.append(([t], [1], [{d: st(d, "d", k)}], E))
            k += 1
            e = V[k % len(V)]
            qs.append(([t, t], [1, 2], [{d: ref.dom[d][0]}, {d: ref.dom[d][1]}] if k % 2 or e == t else [{d: ref.dom[d][0]}, {e: st(e, k)}], {V[-1]: st(V[-1], k)} if k % 3 == 0 else {}))
    for T, ws, dos, E in qs:
        case = ["large", spec["shape"], spec["n"], T, ws, str(dos), str(E)]
        exp = ref.counterfactual(T, ws, dos, E)
        if exp is None: continue
        rec.at(case); rec.state(case); rec.step(); rec.trace()
        kw = {}
        if E: kw["evidence"] = dict(E)
        if len(T) > 1: kw["targets_subgraphs"] = list(ws)
        got = inf.counterfactual_query(list(T) if len(T) > 1 else T[0], do=[dict(d) for d in dos] if len(dos) > 1 else dict(dos[0]), **kw)
        d = cmp_dist(got, [f"{t}_{w}" for t, w in zip(T, ws)], [ref.dom[t] for t in T], exp)
        rec.check(d is None, f"P({T} in {ws}|{dos},{E}): {d}", case)
        rec.outcome((spec["shape"], str(case[3:])))
    rec.check(snap.model(m) == base, "the model changed", ["large", spec["shape"]])
