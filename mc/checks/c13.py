"""C13: multi-model causal inference = envelope of its models' answers, over histories of set/add/toggle/query."""
import itertools
import numpy as np
from ..mgen import *
from .. import snap

STRUCTS = [([(0, 1)], [[0], [1]]), ([(0, 1)], [[0, 1]]), ([(0, 1)], [[0], [0, 1]]), ([], [[0, 1]]), ([], [[0], [1]])]


def BOUNDS(tier):
    return dict(structures=len(STRUCTS), pool="3 models of one structure with different exogenous distributions (and factor layouts)",
                histories="every sequence of set_models/add_models/set_interval_result/compile/query of length <= %d, then every query kind" % (4 if tier == "thorough" else 3),
                wide="14 structures with 4-6 endogenous variables, 5 models with other equations and distributions each, queries thinned by a fixed hash; models with different graphs held together",
                constructor="models given at construction (0..3 of them) or later; interval_result on/off; passed positionally or as keyword; lists and tuples",
                queries="all targets/interventions/evidence of positive probability of the two- and three-variable models, both worlds, PN, PS, PNS")


def specs(tier):
    out = []
    for k, _ in enumerate(STRUCTS):
        for start in range(8):
            out.append(dict(kind="queries", i=k, start=start))
    for k in range(1 if tier == "quick" else 3):
        for a in range(len(ALPHA)):
            for init in (0, 1, 2):
                out.append(dict(kind="hist", i=k, first=a, init=init, depth=4 if tier == "thorough" else 3))
    out.append(dict(kind="three"))
    for vt in ("numpy", "numpy1d", "list", "treedict"):
        out.append(dict(kind="store", vt=vt))
    out.append(dict(kind="custom"))
    for i in range(len(WIDER)): out.append(dict(kind="wide", i=i, thin=12 if tier == "quick" else 2))
    for i in range(len(STRUCTS)): out.append(dict(kind="mixed", i=i, thin=5 if tier == "quick" else 1))
    return out


def wide(spec, rec):
    """5 models of one structure with 4-6 endogenous variables, other equations and other exogenous distributions in each"""
    from bcause.inference.causal.multi import CausalMultiInference
    n, e, h = WIDER[spec["i"]]
    names = WNAMES[:n]
    dom = {v: WDOM[v] for v in names}
    refs = [make_scm(names, e, h, dom, salt=spec["i"] + 3 * s, exo_card=[2 + (s + j) % 2 for j in range(len(h))], exo_names=WEXO[:len(h)], zeros=s == 3) for s in range(5)]
    models = [r.build(layout=s % 4, kind="det" if s % 2 else "mult") for s, r in enumerate(refs)]
    base = [snap.model(m) for m in models]
    for interval in (True, False):
        inf = CausalMultiInference(models, interval_result=interval)
        n = 0
        for j, q in enumerate(wide_queries(refs[0])):
            if mix(("c13", spec["i"], j, interval)) % spec["thin"]: continue
            case = ["wide", spec["i"], interval, str(q)]
            if ask(rec, inf, refs, q, interval, case): rec.state(case)
    rec.check([snap.model(m) for m in models] == base, "a model changed", ["wide", spec["i"]])


def wide_queries(ref):
    V = ref.endo
    for x, d in itertools.product(V, (0, 1)):
        D = {x: ref.dom[x][d]}
        for t in V:
            if t == x: continue
            yield ("do", (t,), D, {})
            for w in V:
                if w not in (x, t):
                    yield ("do", (t,), D, {w: ref.dom[w][d]})
                    yield ("do", (t, w), D, {})
                    yield ("do", (t,), {**D, w: ref.dom[w][1]}, {})
                yield ("cf", (t,), [D], {w: ref.dom[w][1 - d]}, (1,))
            yield ("cf", (t, t), [D, {x: ref.dom[x][1 - d]}], {}, (1, 2))
    for c, e in itertools.permutations([v for v in V if set(ref.dom[v]) == {0, 1}], 2):
        for k in ("pn", "ps", "pns"): yield (k, c, e)


def mixed(spec, rec):
    """models over the same variables with different graphs and exogenous variables, held together"""
    from bcause.inference.causal.multi import CausalMultiInference
    dom = {"X": [1, 0], "Y": [0, 1]}
    refs = []
    for k in range(3):
        e, h = STRUCTS[(spec["i"] + k) % len(STRUCTS)]
        refs.append(make_scm(["X", "Y"], e if k != 1 else [(1, 0)], h, dom, exo_card=[3, 2], salt=spec["i"] + k, exo_names=[["U", "U1"], ["W", "V"], ["U1", "U"]][k]))
    models = [r.build(layout=k, kind="det" if k % 2 else "mult") for k, r in enumerate(refs)]
    for sel in ([0, 1, 2], [2, 1, 0], [1, 0], [0, 0, 1]):
        for interval in (True, False):
            inf = CausalMultiInference(interval_result=interval)
            inf.set_models([models[j] for j in sel[:1]]); inf.add_models([models[j] for j in sel[1:]])
            for j, q in enumerate(all_queries(refs[0])):
                if (j + sum(sel) + interval) % spec["thin"]: continue
                case = ["mixed", spec["i"], sel, interval, str(q)]
                if ask(rec, inf, [refs[s] for s in sel], q, interval, case): rec.state(case)


def pool(i, n=3, three=False):
    if three:
        dom = {"X": [0, 1], "Z": ["p", "q", "r"], "Y": [0, 1]}
        base = make_scm(["X", "Z", "Y"], [(0, 1), (1, 2), (0, 2)], [[0], [1, 2]], dom, exo_card=[2, 5], salt=i)
    else:
        e, h = STRUCTS[i]
        base = make_scm(["X", "Y"], e, h, {"X": [0, 1], "Y": [0, 1]}, exo_card=[4, 3], salt=i)
    fun = {v: [base.dom[v].index(x) for x in t.val.values()] for v, t in base.fun.items()}
    refs, models = [], []
    for s in range(n):
        r = RefSCM(base.pa, {u: weights(len(p), 3 * s + i + j, zeros=(s == 2 and j == 0)) for j, (u, p) in enumerate(base.prob.items())}, base.dom, fun=fun)
        refs.append(r)
        models.append(r.build(layout=s % 4, kind="det" if s % 2 else "mult"))
    return refs, models


# ---------------------------------------------------------------- comparing an answer with the models' own answers

def envelope(rec, got, refs, names, doms, expd, interval, case):
    """got: what the engine returned; expd: one {states: prob} per model"""
    if interval:
        low, up = got.store_low, got.store_up
        vs = list(got.domain)
        rec.check(sorted(vs) == sorted(names), f"answer over {vs}, expected {names}", case)
        for v, d in zip(names, doms):
            rec.check(same_states(list(got.domain[v]), list(d)), f"states of {v}: {got.domain[v]}", case)
        for k in itertools.product(*[got.domain[v] for v in vs]):
            a = dict(zip(vs, k))
            ex = [e.get(tuple(a[v] for v in names), 0.0) for e in expd]
            lo, hi = low.get_value(**a), up.get_value(**a)
            rec.check(close(lo, min(ex)) and close(hi, max(ex)), f"at {a}: [{lo},{hi}] instead of [{min(ex)},{max(ex)}]", case)
            r = got.restrict(**a).values
            rec.check(close(r[0], min(ex)) and close(r[1], max(ex)), f"restrict to {a} gives {r} instead of [{min(ex)},{max(ex)}]", case)
    else:
        rec.check(isinstance(got, (list, tuple)) and len(got) == len(expd), f"{type(got)} of {len(got)} instead of a list of {len(expd)}", case)
        for i, (g, e) in enumerate(zip(got, expd)):
            m = cmp_dist(g, names, doms, e)
            rec.check(m is None, f"model {i}: {m}", case)


def scalar(rec, got, ex, interval, case):
    want = [min(ex), max(ex)] if interval else ex
    got = list(got)
    rec.check(len(got) == len(want) and all(close(a, b) for a, b in zip(got, want)), f"{got} instead of {want}", case)


def ask(rec, inf, refs, q, interval, case):
    kind = q[0]
    rec.at(case)
    rec.step(len(refs)); rec.trace()
    if kind in ("pn", "ps", "pns"):
        c, e = q[1], q[2]
        if kind == "pn": ex = [r.counterfactual([e], [1], [{c: 0}], {c: 1, e: 1}) for r in refs]
        elif kind == "ps": ex = [r.counterfactual([e], [1], [{c: 1}], {c: 0, e: 0}) for r in refs]
        else: ex = [r.counterfactual([e, e], [1, 2], [{c: 0}, {c: 1}]) for r in refs]
        if any(x is None for x in ex): return False
        key = {"pn": (0,), "ps": (1,), "pns": (0, 1)}[kind]
        ex = [x.get(key, 0.0) for x in ex]
        fn = {"pn": "prob_necessity", "ps": "prob_sufficiency", "pns": "prob_necessity_sufficiency"}[kind]
        kw = dict(true_false_cause=(1, 0), true_false_effect=(1, 0)) if len(q) > 3 else {}
        scalar(rec, getattr(inf, fn)(c, e, **kw), ex, interval, case)
        rec.outcome((kind, tuple(round(x, 6) for x in ex), interval))
        return True
    T, do, E = q[1], q[2], q[3]
    if kind == "do":
        ex = [r.interventional(T, do, E) for r in refs]
        if any(x is None for x in ex): return False
        got = inf.causal_query(list(T) if len(T) > 1 else T[0], do=dict(do), **({"evidence": dict(E)} if E else {}))
        names = list(T)
    else:
        ws = q[4]
        ex = [r.counterfactual(T, ws, do, E) for r in refs]
        if any(x is None for x in ex): return False
        names = [f"{t}_{w}" for t, w in zip(T, ws)]
        kw = {}
        if E: kw["evidence"] = dict(E)
        if any(w != 1 for w in ws): kw["targets_subgraphs"] = list(ws)
        got = inf.counterfactual_query(list(T) if len(T) > 1 else T[0], do=[dict(d) for d in do] if len(do) > 1 else dict(do[0]), **kw)
    envelope(rec, got, refs, names, [refs[0].dom[t] for t in T], ex, interval, case)
    rec.outcome((kind, str([sorted((str(k), round(v, 6)) for k, v in x.items()) for x in ex]), interval))
    return True


def all_queries(ref):
    V = ref.endo
    out = []
    for d in ({v: s} for v in V for s in ref.dom[v]):
        rest = [v for v in V if v not in d]
        for k in range(1, len(rest) + 1):
            for T in itertools.combinations(rest, k):
                out.append(("do", T, d, {}))
                for w in rest:
                    if w not in T:
                        for s in ref.dom[w]: out.append(("do", T, d, {w: s}))
        for T in rest:
            out.append(("cf", (T,), [d], {}, (1,)))
            for E in V:
                for s in ref.dom[E]: out.append(("cf", (T,), [d], {E: s}, (1,)))
            out.append(("cf", (T,), [d], {v: ref.dom[v][0] for v in V}, (1,)))
    for v in V:
        for T in V:
            if T == v: continue
            out.append(("cf", (T, T), [{v: ref.dom[v][0]}, {v: ref.dom[v][1]}], {}, (1, 2)))
            out.append(("cf", (T,), [{v: ref.dom[v][0]}, {v: ref.dom[v][1]}], {T: ref.dom[T][0]}, (2,)))
    for c, e in itertools.permutations([v for v in V if list(ref.dom[v]) == [0, 1]], 2):
        for k in ("pn", "ps", "pns"):
            out.append((k, c, e)); out.append((k, c, e, "tf"))
    return out


# ---------------------------------------------------------------- histories

ALPHA = ["set0", "set01", "set210", "set_empty", "add1", "add2", "add12", "add_empty", "ivl_on", "ivl_off", "q_do", "q_pn", "compile"]
SETS = {"set0": [0], "set01": [0, 1], "set210": [2, 1, 0], "set_empty": []}
ADDS = {"add1": [1], "add2": [2], "add12": [1, 2], "add_empty": []}


def hist(spec, rec):
    from bcause.inference.causal.multi import CausalMultiInference
    refs, models = pool(spec["i"])
    Q = [("do", ("Y",), {"X": 0}, {}), ("cf", ("Y",), [{"X": 1}], {"X": 0}, (1,)), ("pn", "X", "Y"), ("pns", "X", "Y")]
    base = [snap.model(m) for m in models]
    for n in range(0, spec["depth"]):
        for seq in itertools.product(ALPHA, repeat=n):
            seq = (ALPHA[spec["first"]],) + seq
            init = list(range(spec["init"]))
            case = ["hist", spec["i"], init, list(seq)]
            rec.at(case)
            given = [models[k] for k in init]
            inf = CausalMultiInference(given) if init else CausalMultiInference()
            held, interval = list(init), True
            lists = [(given, list(given))]
            for op in seq:
                rec.state((spec["i"], tuple(held), interval, op)); rec.step()
                if op in SETS:
                    held = list(SETS[op]); l = [models[k] for k in held]
                    inf.set_models(l); lists.append((l, list(l)))
                elif op in ADDS:
                    held = held + ADDS[op]; l = [models[k] for k in ADDS[op]]
                    inf.add_models(l); lists.append((l, list(l)))
                elif op == "ivl_on": inf.set_interval_result(True); interval = True
                elif op == "ivl_off": inf.set_interval_result(False); interval = False
                elif op == "compile":
                    try:
                        inf.compile()
                        rec.check(held, "compiled without models", case)
                    except ValueError:
                        rec.check(not held, "compile rejected", case)
                elif held:
                    ask(rec, inf, [refs[k] for k in held], Q[0] if op == "q_do" else Q[2], interval, case)
                else:
                    try:
                        inf.causal_query("Y", do={"X": 0}) if op == "q_do" else inf.prob_necessity("X", "Y")
                    except ValueError:
                        continue
                    rec.fail("a query without models was answered", case)
            for q in Q[:2] if n == spec["depth"] - 1 and spec["depth"] > 2 else Q:
                if held: ask(rec, inf, [refs[k] for k in held], q, interval, case + [q[0]])
            for l, orig in lists:
                rec.check(len(l) == len(orig) and all(a is b for a, b in zip(l, orig)), "a list of models passed by the caller changed", case)
            rec.check(len(inf.models) == len(held) and all(a is models[k] for a, k in zip(inf.models, held)), "models held", case)
    rec.check([snap.model(m) for m in models] == base, "a model changed", ["hist", "models"])


def run(spec, rec):
    from bcause.inference.causal.multi import CausalMultiInference
    k = spec["kind"]
    if k == "wide":
        wide(spec, rec)
    elif k == "mixed":
        mixed(spec, rec)
    elif k == "hist":
        hist(spec, rec)
    elif k == "queries":
        refs, models = pool(spec["i"])
        for sel in ([0, 1, 2], [2, 0], [1], [1, 1]):
            for interval in (True, False):
                inf = CausalMultiInference([models[j] for j in sel], interval_result=interval)
                for j, q in enumerate(all_queries(refs[0])):
                    if j % 8 != spec["start"]: continue
                    case = [k, spec["i"], sel, interval, str(q)]
                    if ask(rec, inf, [refs[s] for s in sel], q, interval, case): rec.state(case)
    elif k == "three":
        refs, models = pool(0, three=True)
        inf = CausalMultiInference(models)
        for j, q in enumerate(all_queries(refs[0])):
            case = [k, str(q)]
            if ask(rec, inf, refs, q, True, case): rec.state(case)
    elif k == "store":
        from bcause.factors.values.store import DataStore
        old = DataStore.DEFAULT_STORE
        try:
            DataStore.DEFAULT_STORE = spec["vt"]
            refs, models = pool(2)
            inf = CausalMultiInference(models)
            for q in all_queries(refs[0])[::2]:
                case = [k, spec["vt"], str(q)]
                if ask(rec, inf, refs, q, True, case): rec.state(case)
        finally:
            DataStore.DEFAULT_STORE = old
    else:
        # the engine class used for each model can be given
        from bcause.inference.causal.elimination import CausalVariableElimination
        from bcause.inference.ordering import min_fill_heuristic
        refs, models = pool(2)
        used = []

        def fn(m):
            used.append(m)
            return CausalVariableElimination(m, min_fill_heuristic)
        inf = CausalMultiInference(models, causal_inf_fn=fn)
        for q in all_queries(refs[0])[::3]:
            ask(rec, inf, refs, q, True, [k, str(q)])
        rec.check(len(used) >= 3 and all(any(u is m for u in used) for m in models), "causal_inf_fn not used for every model", [k])
    rec.sample(spec)
