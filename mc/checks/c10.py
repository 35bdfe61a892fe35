"""C10: interventional queries and intervened models, against enumeration of the exogenous variables."""
import itertools
from ..mgen import *
from ..large import *
from ..fgen import STORES, subsets
from .. import snap

ENDO = ["X", "X1", "Y"]
DOM = {"X": ["x0", "x1"], "X1": [1, 0], "Y": [True, False]}
DOM3 = {"X": [2, 3, 1], "X1": ["b", "a"], "Y": [0, 1]}


def BOUNDS(tier):
    return dict(two_endogenous="all 3 DAGs x all 8 sets of exogenous child sets x all functions (<=256 per structure, else 8 samples of the salt family)",
                three_endogenous="all 25 DAGs x all sets of <=2 (thorough: <=3) exogenous child sets, one (thorough: three) function choices",
                queries="two endogenous: single targets and evidence for every function, pairs for every 32nd (thorough: 8th) function choice, every intervention; three: every single target x intervention of <=2, evidence of <=1 for a third of the single interventions (thorough: all)",
                large="causal models over forests of %s variables in %d shapes: interventions on one or two spread positions, evidence on a third" % ("24" if tier == "quick" else "24-40", len(KINDS)), wide="%d models with 4-6 endogenous variables and up to 5 exogenous ones: every intervention on <=2 variables (and on all but one), single targets, pairs and single evidence thinned by a fixed hash; repeated interventions" % len(WIDER),
                kinds="deterministic and degenerate multinomial equations, cast or not, all stores")


def specs(tier):
    out = []
    for k, (e, h) in enumerate(scm_structs(2, 3)):
        for part in range(8 if len(h) > 1 else 2):
            out.append(dict(kind="two", e=e, h=h, i=k, part=part, parts=8 if len(h) > 1 else 2, deep=tier != "quick"))
    for k, (e, h) in enumerate(scm_structs(3, 2 if tier == "quick" else 3)):
        for s in ((k % 3,) if tier == "quick" else (0, 1, 2)):
            out.append(dict(kind="three", e=e, h=h, salt=s, i=k, deep=tier != "quick"))
    for k, (n, e, h) in enumerate(WIDER):
        for part in range(4): out.append(dict(kind="wide", n=n, e=e, h=h, i=k, part=part, deep=tier != "quick"))
    for kind in KINDS:
        for n in ((24,) if tier == "quick" else (24, 40)): out.append(dict(kind="large", shape=kind, n=n))
    return out


def variants(i):
    return [dict(kind="det"), dict(kind="det", cast=False), dict(kind="mult", layout=1), dict(kind="det", layout=3, vtype="list"),
            dict(kind="mult", vtype="treedict", layout=2), dict(kind="det", vtype="numpy1d", explicit=True)][i % 6]


def all_functions(ref_pa, dom, endo, cap=256):
    """every choice of structural functions as {v: tuple of state indices}"""
    per = []
    total = 1
    for v in endo:
        n = 1
        for p in ref_pa[v]: n *= len(dom[p])
        total *= len(dom[v]) ** n
        if total > cap: return None
        per.append(list(itertools.product(range(len(dom[v])), repeat=n)))
    return [dict(zip(endo, c)) for c in itertools.product(*per)]


def run(spec, rec):
    if spec["kind"] == "wide": return wide(spec, rec)
    if spec["kind"] == "large": return large(spec, rec)
    if spec["kind"] == "two":
        endo = ENDO[:2]
        base = make_scm(endo, spec["e"], spec["h"], DOM, exo_card=[2, 2, 2])
        funs = all_functions(base.pa, base.dom, endo)
        full = funs is not None
        rec.note("structures_all_functions" if full else "structures_salted")
        refs = [RefSCM(base.pa, base.prob, base.dom, fun=f) for f in funs] if full else \
               [make_scm(endo, spec["e"], spec["h"], DOM, exo_card=[2, 2, 3], salt=s) for s in range(8)]
        for j, ref in enumerate(refs):
            if j % spec["parts"] != spec["part"]: continue
            full = j % (8 if spec["deep"] else 32) == 5 and (len(base.exo) < 3 or spec["deep"])
            explore(spec, rec, ref, j, full=full, maxdo=2 if full or spec["deep"] or j % 8 < 2 else 1)
    else:
        ref = make_scm(ENDO, spec["e"], spec["h"], DOM3, salt=spec["salt"], zeros=spec["i"] % 4 == 0, exo_first=spec["i"] % 2 == 1)
        explore(spec, rec, ref, spec["i"], full=False, maxdo=2)
    rec.sample(dict(edges=spec["e"], exogenous=spec["h"]))


def wide_ref(spec):
    names = WNAMES[:spec["n"]]
    return onehot_scm(names, spec["e"], spec["h"], {v: WDOM[v] for v in names}, salt=spec["i"], exo_names=WEXO)


def wide(spec, rec):
    """models with more parents, children and longer paths than the exhaustive structures"""
    from bcause.inference.causal.elimination import CausalVariableElimination
    ref = wide_ref(spec)
    tag = ["wide", spec["i"]]
    rec.at(tag)
    model = ref.build(**variants(spec["i"] + spec["part"]))
    before = snap.model(model)
    inf = CausalVariableElimination(model)
    rec.state((tag, spec["part"]))
    k = 0
    thin = 2 if spec["deep"] else 8
    for do in itertools.chain(dos(ref, 2), ({v: ref.dom[v][i % 2] for i, v in enumerate(ref.endo) if v != t} for t in ref.endo)):
        k += 1
        if k % 4 != spec["part"]: continue
        rest = [v for v in ref.endo + ref.exo if v not in do]
        qs = [([t], {}) for t in rest if len(do) != 2 or spec["deep"] or mix(k, t) % 3 == 0]
        qs += [(list(T), {}) for T in itertools.permutations(rest, 2) if mix(k, T) % (thin * 8) == 0]
        qs += [([t], {v: s}) for t in rest for v in rest if v != t for s in ref.dom[v] if mix(k, t, v, s) % (thin * 6) == 0]
        qs += [([t], {v: ref.dom[v][0], w: ref.dom[w][-1]}) for t in rest for v in rest for w in rest if len({t, v, w}) == 3 and mix(k, t, v, w) % (thin * 40) == 0]
        for T, E in qs:
            exp = ref.interventional(T, do, E)
            if exp is None: continue
            case = tag + ["causal", T, list(do.items()), list(E.items())]
            rec.at(case)
            d = cmp_dist(inf.causal_query(T if len(T) > 1 or k % 2 else T[0], do=dict(do), evidence=dict(E)), T, [ref.dom[v] for v in T], exp)
            rec.check(d is None, f"P({T}|do({do}),{E}): {d}", case)
            rec.step(); rec.trace(); rec.state(case); rec.outcome(tuple(sorted((str(x), round(y, 7)) for x, y in exp.items())))
        if k % 16 < 4 or len(do) > 2:
            rec.at(tag + ["intervention", list(do.items())])
            check_intervened(rec, ref, model.intervention(**do), do, tag + ["intervention", list(do.items())])
            rec.step(); rec.trace()
    rec.check(snap.model(model) == before, "the model was changed by queries or interventions", tag + ["unchanged"])
    rec.sample(dict(edges=spec["e"], exogenous=spec["h"]))


def dos(ref, maxk):
    for vs in subsets(ref.endo):
        if len(vs) > maxk: continue
        for st in itertools.product(*[ref.dom[v] for v in vs]):
            yield dict(zip(vs, st))


def explore(spec, rec, ref, j, full, maxdo):
    from bcause.inference.causal.elimination import CausalVariableElimination
    tag = [spec["kind"], spec["e"], spec["h"], spec.get("salt", 0), j]
    rec.at(tag)
    model = ref.build(**variants(j + spec["i"]))
    before = snap.model(model)
    inf = CausalVariableElimination(model)
    allv = ref.endo + ref.exo
    if rec.state((spec["e"], spec["h"], {v: list(map(str, ref.fun[v].val.values())) for v in ref.endo})): pass
    for do in dos(ref, maxdo):
        rest = [v for v in allv if v not in do]
        tsets = [t for t in subsets(rest) if t and (len(t) == 1 or (full and len(t) == 2))]
        for T in tsets:
            erest = [v for v in rest if v not in T]
            lean = not full and not spec.get("deep") and (len(do) != 1 or (spec["i"] + j + len(str(do))) % 3)
            for ev in [()] if lean else ([e for e in subsets(erest) if len(e) <= 2] if full else [()] + [(v,) for v in erest]):
                for st in itertools.product(*[ref.dom[v] for v in ev]):
                    E = dict(zip(ev, st))
                    exp = ref.interventional(T, do, E)
                    if exp is None: continue
                    case = tag + ["causal", list(T), list(do.items()), list(E.items())]
                    rec.at(case)
                    tt = T[0] if len(T) == 1 and len(E) % 2 else list(T)
                    res = inf.causal_query(tt, do=dict(do), evidence=dict(E)) if E else inf.causal_query(tt, do=dict(do))
                    d = cmp_dist(res, list(T), [ref.dom[v] for v in T], exp)
                    rec.check(d is None, f"P({list(T)}|do({do}),{E}): {d}", case)
                    rec.step(); rec.trace(); rec.outcome(tuple(sorted((str(k), round(x, 7)) for k, x in exp.items())))
        # the intervened model itself
        if full or (len(do) == 1 and (spec.get("deep") or (j + len(str(do))) % 2)):
            intervened(rec, ref, model, do, tag)
    rec.check(snap.model(model) == before, "the model was changed by queries or interventions", tag + ["unchanged"])


def check_intervened(rec, ref, m, do, case):
    rec.check(sorted(m.variables) == sorted(ref.endo + ref.exo), f"variables {m.variables}", case)
    exp_edges = sorted((a, b) for a, b in ref.edges if b not in do)
    rec.check(sorted(m.graph.edges) == exp_edges, f"edges {sorted(m.graph.edges)} instead of {exp_edges}", case)
    rec.check(set(m.endogenous) == set(ref.endo) and set(m.exogenous) == set(ref.exo), f"endogenous {m.endogenous}, exogenous {m.exogenous}", case)
    for v in ref.endo + ref.exo:
        rec.check(same_states(list(m.domains[v]), ref.dom[v]), f"domain of {v}", case)
        f = m.factors[v]
        pa = [] if v in do else ref.pa.get(v, [])
        rec.check(set(f.right_vars) == set(pa) and list(f.left_vars) == [v], f"factor of {v}: {f.name}", case)
        g = f.to_multinomial() if hasattr(f, "to_multinomial") else f
        for a, got in ((dict(k), x) for k, x in g.values_dict.items()):
            if v in do: e = 1.0 if a[v] == do[v] else 0.0
            elif v in ref.prob: e = ref.prob[v][ref.dom[v].index(a[v])]
            else: e = 1.0 if ref.fun[v].at(a) == a[v] else 0.0
            rec.check(close(got, e), f"factor of {v} at {a}: {got} instead of {e}", case)


def intervened(rec, ref, model, do, tag):
    from bcause.inference.causal.elimination import CausalVariableElimination
    case = tag + ["intervention", list(do.items())]
    rec.at(case)
    m = model.intervention(**do)
    rec.step(); rec.trace()
    rec.check(m is not model, "intervention returned the model itself", case)
    check_intervened(rec, ref, m, do, case)
    before = snap.model(m)
    # repeated interventions compose, the last one winning
    for v in ref.endo:
        s = ref.dom[v][-1]
        case2 = case + ["then", v, s]
        rec.at(case2)
        do2 = {**do, v: s}
        check_intervened(rec, ref, m.intervention(**{v: s}), do2, case2)
        rec.step(); rec.trace()
        for t in ref.endo:
            if t == v: continue
            exp = ref.interventional([t], do2)
            d = cmp_dist(CausalVariableElimination(m).causal_query(t, do={v: s}), [t], [ref.dom[t]], exp)
            rec.check(d is None, f"P({t}|do({v}={s})) in the model intervened by {do}: {d}", case2)
            rec.step()
    rec.check(snap.model(m) == before, "the intervened model was changed", case)


def large(spec, rec):
    """causal models over forests of tens of variables"""
    from bcause.inference.causal.elimination import CausalVariableElimination
    ref = LargeSCM(spec["shape"], spec["n"])
    m = ref.build("det" if len(spec["shape"]) % 2 else "mult")
    base = snap.model(m)
    inf = CausalVariableElimination(m)
    V = [ref.names[i] for i in spots(spec["n"])]
    k = 0
    for r in (1, 2):
        for dv in itertools.combinations(V, r):
            do = {v: ref.dom[v][mix("do", v, r) % len(ref.dom[v])] for v in dv}
            for t in V:
                if t in do: continue
                for ev in [()] + [(v,) for v in V if v != t and v not in do]:
                    k += 1
                    if ev and mix("c10", spec["shape"], k) % 4: continue
                    E = {v: ref.dom[v][mix("ev", v, k) % len(ref.dom[v])] for v in ev}
                    case = ["large", spec["shape"], spec["n"], t, str(do), str(E)]
                    exp = ref.interventional([t], do, E)
                    if exp is None: continue
                    rec.at(case); rec.state(case); rec.step(); rec.trace()
                    d = cmp_dist(inf.causal_query(t, do=dict(do), **({"evidence": E} if E else {})), [t], [ref.dom[t]], exp)
                    rec.check(d is None, f"P({t}|do({do}),{E}): {d}", case)
                    rec.outcome((spec["shape"], k))
    rec.check(snap.model(m) == base, "the model changed", ["large", spec["shape"]])
