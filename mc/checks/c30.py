"""C30: requests without an answer are refused, whatever else the request says, and leave engine, model and arguments usable."""
import itertools, os, shutil, tempfile
import numpy as np
from ..mgen import *
from ..fgen import STORES
from .. import snap
from .c08 import TOUR_SCMS

DOM = {"X": ["x0", "x1"], "X1": [2, 1], "Y": [True, False], "A": ["a", "b"], "Z": [0, 1]}
BAD = {"X": ["x2", "", 0, None], "X1": [0, 3, "2", -1], "Y": ["True", 2], "A": ["c", "A", 0], "Z": [2, -1, "0"]}


def BOUNDS(tier):
    q = tier == "quick"
    return dict(networks="all labelled DAGs with 2-3 nodes and all with 4 up to isomorphism%s" % (" (thinned roles)" if q else ""),
                requests="every role assignment (target, conditioned, unobserved, observed) with one fault at every position it can have",
                engines="variable elimination with 3 heuristics, data inference, causal elimination on %d causal models, multi-model engine" % len(TOUR_SCMS),
                factors="all ordered scopes of up to 3 variables, 4 storage types", files="every format, wrong or missing")


def specs(tier):
    q = tier == "quick"
    out = []
    for n in (2, 3):
        for i, e in enumerate(labelled_dags(n)): out.append(dict(kind="ve", n=n, e=e, i=i, thin=1))
    for i, e in enumerate(iso_dags(4)): out.append(dict(kind="ve", n=4, e=e, i=i, thin=8 if q else 1))
    for part in range(4): out.append(dict(kind="data", part=part))
    for i in range(len(TOUR_SCMS)):
        for multi in (0, 1): out.append(dict(kind="causal", i=i, multi=multi, thin=1 if i < 2 else 2 + 3 * multi if q else 1))
    for vt in STORES: out.append(dict(kind="factor", vt=vt))
    out.append(dict(kind="files"))
    out.append(dict(kind="misc"))
    for i in range(len(TOUR_SCMS)): out.append(dict(kind="learn", i=i))
    out.append(dict(kind="more"))
    return out


def refused(rec, fn, what, case):
    rec.at(case + [what])
    try: r = fn()
    except (KeyboardInterrupt, MemoryError): raise
    except Exception: r = None
    else: rec.fail(f"{what}: answered {r!r} instead of refusing", case + [what])
    rec.step(); rec.state(case + [what])


def run_ve(spec, rec):
    from bcause.inference.probabilistic.elimination import VariableElimination
    from bcause.inference.ordering import Heuristic
    n = spec["n"]
    lbl = ["X", "X1", "Y", "A"][:n]
    dom = {v: DOM[v] for v in lbl}
    edges = [(lbl[a], lbl[b]) for a, b in spec["e"]]
    ref = RefBN(lbl, edges, dom, salt=spec["i"])
    m = ref.build(layout=spec["i"] % 4, vtype=STORES[spec["i"] % 4] if spec["i"] % 2 else None)
    base = snap.model(m)
    inf = VariableElimination(m, [None, Heuristic.MIN_FILL, Heuristic.MIN_SIZE][spec["i"] % 3])
    refused(rec, lambda: VariableElimination(m).run(), "run before compile", [n, str(edges)])
    for roles in itertools.product(("t", "c", "-", 0, 1), repeat=n):
        T = [v for v, r in zip(lbl, roles) if r == "t"]
        C = [v for v, r in zip(lbl, roles) if r == "c"]
        E = {v: dom[v][r] for v, r in zip(lbl, roles) if r in (0, 1)}
        if not T or (spec["thin"] > 1 and mix(spec["i"], roles) % spec["thin"]): continue
        case = [n, str(edges), T, C, str(E)]
        def ask(T, C, E, k=[0]):
            k[0] += 1
            if not C and k[0] % 2: return inf.compile(list(T), dict(E)).run()
            return inf.query(list(T), conditioning=list(C) or None, evidence=dict(E))
        for t in T:
            refused(rec, lambda: ask(T + [t], C, E) if not C else inf.compile(T + [t], E).run(), "repeated target " + t, case)
            for k, s in enumerate(dom[t]): refused(rec, lambda: ask(T, C, {**E, t: s} if k else {t: s, **E}), f"target {t} observed", case)
            refused(rec, lambda: inf.query(list(T), conditioning=C + [t], evidence=dict(E)), f"target {t} conditioned", case)
        for c in C: refused(rec, lambda: ask(T, C, {c: dom[c][0], **E}), f"conditioned {c} observed", case)
        for bad in ("nope", lbl[0] + "_", lbl[0].lower()):
            for pos in (0, len(T)): refused(rec, lambda: ask(T[:pos] + [bad] + T[pos:], C, E), f"unknown target {bad}", case)
            refused(rec, lambda: inf.query(list(T), conditioning=C + [bad], evidence=dict(E)), f"unknown conditioned {bad}", case)
            refused(rec, lambda: ask(T, C, {**E, bad: 0}), f"unknown observed {bad}", case)
        near = [v for v in lbl if v not in T + C and any({v, t} == {a, b} for t in T for a, b in edges)]
        for v in near:
            for s in BAD[v]: refused(rec, lambda: ask(T, C, {**E, v: s}), f"unknown state {s!r} of {v}", case)
        refused(rec, lambda: inf.query([], evidence=dict(E)), "no target", case)
        rec.at(case + ["valid"])
        d = cmp_query(inf.query(list(T), conditioning=list(C) or None, evidence=dict(E)), ref, T, C, E)
        rec.check(d is None, f"after refusals: {d}", case)
        rec.trace(); rec.outcome(case)
    rec.check(snap.model(m) == base, "the model changed", [n, str(edges)])


def run_data(spec, rec):
    import pandas as pd
    from bcause.inference.probabilistic.datainference import LaplaceInference
    lbl = ["X", "X1", "Z"]
    dom = {v: DOM[v] for v in lbl}
    rows = [k for j, k in enumerate(itertools.product(*dom.values())) for _ in range(1 + j % 3)]
    df = pd.DataFrame(rows, columns=lbl)
    f0 = snap.frame(df)
    inf = LaplaceInference(df, dom)
    for j, roles in enumerate(itertools.product(("t", "c", "-", 0, 1), repeat=3)):
        if j % 4 != spec["part"]: continue
        T = [v for v, r in zip(lbl, roles) if r == "t"]
        C = [v for v, r in zip(lbl, roles) if r == "c"]
        E = {v: dom[v][r] for v, r in zip(lbl, roles) if r in (0, 1)}
        if not T: continue
        case = ["data", T, C, str(E)]
        q = lambda T, C, E: inf.query(list(T), conditioning=list(C) or None, evidence=dict(E))
        for t in T:
            if not C: refused(rec, lambda: q(T + [t], C, E), "repeated target " + t, case)
            refused(rec, lambda: q(T, C, {**E, t: dom[t][1]}), f"target {t} observed", case)
            refused(rec, lambda: q(T, C + [t], E), f"target {t} conditioned", case)
        for c in C: refused(rec, lambda: q(T, C, {**E, c: dom[c][0]}), f"conditioned {c} observed", case)
        refused(rec, lambda: q(T + ["nope"], C, E), "unknown target", case)
        refused(rec, lambda: q(T, C + ["nope"], E), "unknown conditioned", case)
        refused(rec, lambda: q(T, C, {**E, "nope": 0}), "unknown observed", case)
        for v in lbl:
            if v not in T + C:
                for s in BAD[v]: refused(rec, lambda: q(T, C, {**E, v: s}), f"no row with state {s!r} of {v}", case)
        res = q(T, C, E)
        for a in (dict(zip(T + C, k)) for k in itertools.product(*[dom[v] for v in T + C])):
            den = [r for r in rows if all(r[lbl.index(v)] == s for v, s in list(E.items()) + [(c, a[c]) for c in C])]
            num = [r for r in den if all(r[lbl.index(t)] == a[t] for t in T)]
            rec.check(close(float(res.get_value(**a)), len(num) / len(den)), f"after refusals: {a}", case)
        rec.trace(); rec.outcome(case)
    rec.check(snap.frame(df) == f0, "the data changed", ["data"])


def run_causal(spec, rec):
    from bcause.inference.causal.elimination import CausalVariableElimination
    from bcause.inference.causal.multi import CausalMultiInference
    names, e, h = TOUR_SCMS[spec["i"]]
    dom = {v: {"X": DOM["Z"], "Z": DOM["X"], "Y": DOM["Y"]}[v] for v in names}
    bads = {v: {"X": BAD["Z"], "Z": BAD["X"], "Y": BAD["Y"]}[v] for v in names}
    ref = make_scm(names, e, h, dom, salt=spec["i"])
    m = ref.build(kind="det" if spec["i"] % 2 else "mult", layout=spec["i"] % 4)
    base = snap.model(m)
    if spec["multi"]:
        inf = CausalMultiInference([m, ref.build()])
        refused(rec, lambda: CausalMultiInference([]).causal_query("Y", do={"X": 0}), "no models", ["multi", spec["i"]])
    else: inf = CausalVariableElimination(m)
    for roles in itertools.product(("t", "-", ("e", 0), ("e", 1), ("d", 0), ("d", 1)), repeat=len(names)):
        T = [v for v, r in zip(names, roles) if r == "t"]
        E = {v: dom[v][r[1]] for v, r in zip(names, roles) if r[0] == "e"}
        D = {v: dom[v][r[1]] for v, r in zip(names, roles) if r[0] == "d"}
        if not T or not D or (spec["thin"] > 1 and mix(spec["i"], roles) % spec["thin"]): continue
        for cf in (False, True):
            want = ref.counterfactual(T, [1] * len(T), [D], E) if cf else ref.interventional(T, D, E)
            if want is None: continue
            case = ["multi" if spec["multi"] else "causal", spec["i"], T, str(D), str(E), cf]
            def q(T, D, E, **kw):
                D = dict(D) if isinstance(D, dict) else [dict(d) for d in D]
                if kw: return inf.counterfactual_query(list(T), do=D, evidence=dict(E), **kw)
                return (inf.counterfactual_query if cf else inf.causal_query)(list(T), do=D, evidence=dict(E))
            for t in T:
                refused(rec, lambda: q(T + [t], D, E), f"repeated target {t}", case)
                if not cf: refused(rec, lambda: q(T, D, {**E, t: dom[t][0]}), f"target {t} observed", case)
                for s in dom[t]: refused(rec, lambda: q(T, {**D, t: s}, E), f"target {t} intervened", case)
            for bad in ("nope", "x", "X_9"):
                refused(rec, lambda: q(T + [bad], D, E), f"unknown target {bad}", case)
                refused(rec, lambda: q(T, {**D, bad: 0}, E), f"unknown intervened {bad}", case)
                refused(rec, lambda: q(T, D, {**E, bad: 0}), f"unknown observed {bad}", case)
            for v in [x for x in names if x not in T]:
                for s in bads[v]: refused(rec, lambda: q(T, {**D, v: s}, {x: y for x, y in E.items() if x != v}), f"unknown state {s!r} of intervened {v}", case)
            for v in [x for x in E if x not in D]:
                near = any({v, t} == {names[a], names[b]} and not (cf and t != v) for t in T for a, b in e) or any(names.index(v) in x and names.index(t) in x for t in T for x in h)
                if not near: continue
                for s in bads[v]: refused(rec, lambda: q(T, D, {**E, v: s}), f"unknown state {s!r} of observed {v}", case)
            if cf:
                for w in ([0] * len(T), [2] * len(T), [1] * (len(T) - 1) + [5], [1] * (len(T) + 1), ([1] * (len(T) - 1)) or [1, 1]):
                    refused(rec, lambda: q(T, D, E, targets_subgraphs=list(w)), f"worlds {w} of the targets", case)
                refused(rec, lambda: q(T, [D, {"nope": 0}], E), "unknown intervened in the second world", case)
                refused(rec, lambda: q(T, [D], E, targets_subgraphs=[2] * len(T)), "target in a world without intervention", case)
                refused(rec, lambda: q(T, [], E), "no world", case)
            rec.at(case + ["valid"])
            r = q(T, D, E)
            for st in ([r.store_low, r.store_up] if spec["multi"] else [r.store]):
                nm = [f"{v}_1" for v in T] if cf else T
                got = {k: float(st.get_value(**dict(zip(nm, k)))) for k in itertools.product(*[dom[v] for v in T])}
                rec.check(all(close(x, want.get(k, 0.0)) for k, x in got.items()), f"after refusals: {got} instead of {want}", case)
            rec.trace(); rec.outcome(case)
    rec.check(snap.model(m) == base, "the model changed", ["causal", spec["i"]])


def run_factor(spec, rec):
    from bcause.factors import MultinomialFactor, DeterministicFactor
    vt = spec["vt"]
    kw = {} if vt is None else dict(vtype=vt)
    dom0 = {"X": ["x0", "x1"], "X1": [5, 1, 2], "Y": [True, False]}
    for r in (1, 2, 3):
        for vs in itertools.permutations(dom0, r):
            dom = {v: list(dom0[v]) for v in vs}
            n = int(np.prod([len(d) for d in dom.values()]))
            vals = [round(0.1 + 0.07 * i, 3) for i in range(n)]
            case = ["factor", vt, list(vs)]
            for k in (n - 1, n + 1, 2 * n, n * n + 1):
                if k == n: continue
                refused(rec, lambda: MultinomialFactor({v: list(d) for v, d in dom.items()}, [0.5] * k, **kw), f"{k} values", case)
            for l in itertools.chain.from_iterable(itertools.combinations(vs, i) for i in range(r + 1)):
                for rg in itertools.chain.from_iterable(itertools.combinations(vs, i) for i in range(r + 1)):
                    if set(l) | set(rg) == set(vs) and not set(l) & set(rg): continue
                    refused(rec, lambda: MultinomialFactor({v: list(d) for v, d in dom.items()}, list(vals), left_vars=list(l), right_vars=list(rg), **kw), f"sides {l} | {rg}", case)
            refused(rec, lambda: MultinomialFactor({"_" + v if i == r - 1 else v: list(d) for i, (v, d) in enumerate(dom.items())}, list(vals), **kw), "internal name", case)
            refused(rec, lambda: MultinomialFactor({v: tuple(d) for v, d in dom.items()}, list(vals), **kw), "states not in a list", case)
            refused(rec, lambda: MultinomialFactor([(v, d) for v, d in dom.items()], list(vals), **kw), "domain not a dictionary", case)
            refused(rec, lambda: MultinomialFactor({i: d for i, d in enumerate(dom.values())}, list(vals), **kw), "names not strings", case)
            refused(rec, lambda: MultinomialFactor({v: d[:-1] + [None] for v, d in dom.items()}, list(vals), **kw), "states of several types", case)
            for left in vs:
                f = MultinomialFactor({v: list(d) for v, d in dom.items()}, list(vals), left_vars=[left], **kw)
                s0 = snap.factor(f)
                full = {v: d[0] for v, d in dom.items()}
                for v in vs:
                    for s in BAD[v]:
                        refused(rec, lambda: f.restrict(**{v: s}), f"restrict {v}={s!r}", case)
                        refused(rec, lambda: f.R(**{v: s}), f"R {v}={s!r}", case)
                        refused(rec, lambda: f.get_value(**{**full, v: s}), f"value at {v}={s!r}", case)
                        refused(rec, lambda: f.store.set_value(0.9, {**full, v: s}), f"write at {v}={s!r}", case)
                        refused(rec, lambda: f.prob([full, {**full, v: s}]), f"prob at {v}={s!r}", case)
                if r > 1:
                    refused(rec, lambda: f.sample(1), "sample of a conditional factor", case)
                    two = MultinomialFactor({v: list(d) for v, d in dom.items()}, list(vals), **kw)
                    refused(rec, lambda: two.constant(dom[vs[0]][0]), "constant of several variables", case)
                    refused(rec, lambda: two.to_deterministic(), "equation of several variables", case)
                    refused(rec, lambda: DeterministicFactor({v: list(d) for v, d in dom.items()}, values=[dom[vs[0]][0]] * n, **kw), "equation of several variables", case)
                for s in BAD[left]: refused(rec, lambda: f.constant(s), f"constant {s!r}", case)
                one = MultinomialFactor({left: list(dom[left])}, [1 / len(dom[left])] * len(dom[left]), **kw)
                for size in (0, -1): refused(rec, lambda: one.sample(size), f"{size} samples", case)
                refused(rec, lambda: f.sample_conditional([]), "no configurations to sample", case)
                rn = 1
                for v in vs:
                    if v != left: rn *= len(dom[v])
                for k in (rn + 1, 2 * rn, max(rn - 1, 0)):
                    if k != rn and k: refused(rec, lambda: DeterministicFactor({v: list(d) for v, d in dom.items()}, values=[dom[left][0]] * k, left_vars=[left], **kw), f"equation with {k} values", case)
                g = DeterministicFactor({v: list(d) for v, d in dom.items()}, values=[dom[left][0]] * rn, left_vars=[left], **kw)
                for s in BAD[left]: refused(rec, lambda: g.constant(s), f"equation constant {s!r}", case)
                rec.check(snap.factor(f) == s0, "the factor changed", case)
            for other in STORES:
                o = other or "numpy"
                if o == (vt or "numpy"): continue
                f = MultinomialFactor({v: list(d) for v, d in dom.items()}, list(vals), **kw)
                g = MultinomialFactor({v: list(d) for v, d in dom.items()}, list(vals), vtype=o)
                if f.vtype == g.vtype: continue
                for nm, op in (("*", lambda: f * g), ("+", lambda: f + g), ("-", lambda: f - g), ("/", lambda: f / g)): refused(rec, op, f"{nm} with a factor stored as {o}", case)
            rec.trace(); rec.outcome(case)


UAI = {"BAYES": "BAYES\n2\n2 2\n2\n1 0\n2 0 1\n\n2\n0.3 0.7\n\n4\n0.1 0.9 0.6 0.4\n"}


def run_files(spec, rec):
    from bcause.models import BayesianNetwork
    from bcause.models.cmodel import StructuralCausalModel
    ref = RefBN(["X", "Y"], [("X", "Y")], {v: DOM[v] for v in "XY"})
    m = ref.build()
    s = make_scm(["X", "Y"], [(0, 1)], [[0], [1]], {"X": [0, 1], "Y": [0, 1]}).build()
    d = tempfile.mkdtemp(prefix="c30")
    try:
        for cls, mod in ((BayesianNetwork, m), (StructuralCausalModel, s)):
            base = snap.model(mod)
            for name in ("m.txt", "m", "m.UAIX", "m.bif.gz", "m.json", "uai", ".ui"):
                p = os.path.join(d, name)
                case = ["files", cls.__name__, name]
                refused(rec, lambda: mod.save(p), "saving in an unknown format", case)
                rec.check(not os.path.exists(p), "a file was written", case)
                open(p, "w").write(UAI["BAYES"])
                refused(rec, lambda: cls.read(p), "reading an unknown format", case)
                os.remove(p)
            for ext in (".uai", ".bif", ".xmlbif"):
                case = ["files", cls.__name__, ext]
                if cls is BayesianNetwork or ext == ".uai":
                    refused(rec, lambda: cls.read(os.path.join(d, "none" + ext)), "reading a file that does not exist", case)
                    open(os.path.join(d, "empty" + ext), "w").close()
                    refused(rec, lambda: cls.read(os.path.join(d, "empty" + ext)), "reading an empty file", case)
            for lab in ("MARKOV", "NET", "bayes", "BAYESIAN", "CAUSALS", "X", "", "BAY", "S", "CAUSA", "AUSAL"):
                p = os.path.join(d, "l.uai")
                open(p, "w").write(UAI["BAYES"].replace("BAYES", lab))
                refused(rec, lambda: cls.read(p), f"label {lab}", ["files", cls.__name__])
            p = os.path.join(d, "t.uai")
            if cls is BayesianNetwork: txt = UAI["BAYES"]
            else:
                mod.save(p)
                txt = open(p).read()
            for cut in range(len(txt.rstrip()) - 1):
                # the file ends anywhere between two of its numbers
                if txt[cut:cut + 1].isspace() is False or txt[:cut].rstrip() != txt[:cut]: continue
                open(p, "w").write(txt[:cut])
                refused(rec, lambda: cls.read(p), f"file cut after {cut} characters", ["files", cls.__name__])
            rec.check(snap.model(mod) == base, "the model changed", ["files", cls.__name__])
            rec.trace()
    finally:
        shutil.rmtree(d)


def run_misc(spec, rec):
    import networkx as nx
    from bcause.models import BayesianNetwork
    from bcause.models.cmodel import StructuralCausalModel
    from bcause.inference.probabilistic.elimination import VariableElimination
    from bcause.inference.ordering import min_weight_heuristic
    ref = RefBN(["X", "X1", "Y"], [("X", "X1"), ("X1", "Y")], {v: DOM[v] for v in ("X", "X1", "Y")})
    m = ref.build()
    for nm, hf in (("no arguments", lambda: []), ("other names", lambda g, vs: []), ("one name", lambda dag: []), ("other name", lambda to_remove: [])):
        refused(rec, lambda: VariableElimination(m, hf), f"heuristic with {nm}", ["misc"])
    refused(rec, lambda: min_weight_heuristic(m.graph, to_remove=["X", "Y"]), "weights without sizes", ["misc"])
    for n in (0, -1):
        refused(rec, lambda: m.sample(n), f"{n} samples", ["misc"])
        refused(rec, lambda: m.sample(n, as_pandas=False), f"{n} samples", ["misc"])
    full = {v: DOM[v][0] for v in ref.nodes}
    for v in ref.nodes:
        for s in BAD[v]: refused(rec, lambda: m.prob([full, {**full, v: s}]), f"probability at {v}={s!r}", ["misc"])
    for n in (1, 2, 3):
        for es in itertools.product((0, 1), repeat=n * n):
            e = [(a, b) for (a, b), x in zip(itertools.product(range(n), repeat=2), es) if x]
            if is_acyclic(n, e): continue
            g = nx.DiGraph([("ABC"[a], "ABC"[b]) for a, b in e])
            for cls in (BayesianNetwork, StructuralCausalModel): refused(rec, lambda: cls(g), f"cyclic graph {list(g.edges)}", ["misc", cls.__name__])
    for names, e, h in TOUR_SCMS:
        s = make_scm(names, e, h, {v: DOM["Z"] for v in names}, salt=1)
        mod = s.build()
        b = snap.model(mod)
        for v in names:
            for st in BAD["Z"]: refused(rec, lambda: mod.intervention(**{v: st}), f"intervention {v}={st!r}", ["misc", names])
        refused(rec, lambda: mod.intervention(nope=0), "intervention on an unknown variable", ["misc", names])
        rec.check(snap.model(mod) == b, "the model changed", ["misc", names])
    rec.trace()


def run_learn(spec, rec):
    """Learners: unknown variables and states, trainable variables that are not latent, no models to learn."""
    import pandas as pd
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    from bcause.learning.parameter.gradient import GradientLikelihood
    from bcause.learning.aggregator.aggregator import SimpleModelAggregatorEM, SimpleModelAggregatorGD
    names, e, h = TOUR_SCMS[spec["i"]]
    dom = {v: DOM["Z"] for v in names}
    m = make_scm(names, e, h, dom, salt=3).build()
    base = snap.model(m)
    states = list(itertools.product(*dom.values()))
    rows = pd.DataFrame(states + states[: len(states) // 2 + 1], columns=names)
    f0 = snap.frame(rows)
    case = ["learn", spec["i"]]
    want = {}
    for cls in (ExpectationMaximization, GradientLikelihood):
        def learn(data, train, fresh=True):
            g = cls(m, trainable_vars=list(train))
            g.run(data, max_iter=1)
            return {u: g.model.factors[u].values_dict for u in m.exogenous}
        for u in m.exogenous:
            if cls is GradientLikelihood and any(len(set(m.get_parents(v)) & set(m.exogenous)) > 1 for v in m.get_children(u)):
                refused(rec, lambda: learn(rows, [u]), f"the objective of {u} depends on other exogenous variables", case)
                refused(rec, lambda: learn(rows, []), "the objectives depend on other exogenous variables", case)
                continue
            want = learn(rows, [u])
            refused(rec, lambda: learn(rows, ["nope"]), f"{cls.__name__}: unknown trainable variable", case)
            refused(rec, lambda: learn(rows, [u, "nope"]), f"{cls.__name__}: unknown second trainable variable", case)
            refused(rec, lambda: cls(m, trainable_vars=[u]).step(), f"{cls.__name__}: step without data", case)
            if cls is ExpectationMaximization:
                for v in names:
                    # the learner does not look at columns that are separated from what it learns
                    if v not in m.get_children(u): continue
                    for k in (0, len(rows) - 1):
                        for st in (2, -1):
                            bad = rows.copy(); bad.loc[k, v] = st
                            refused(rec, lambda: learn(bad, [u]), f"row {k} has the unknown state {st} of {v}", case)
                refused(rec, lambda: learn(rows.assign(nope=0), [u]), "unknown column", case)
            else:
                for v in names: refused(rec, lambda: learn(rows, [v]), f"trainable variable {v} is not exogenous", case)
                lat = m.get_domains(u)[u]
                refused(rec, lambda: learn(rows.assign(**{u: lat[0]}), [u]), "trainable variable observed", case)
                for k in (0, len(rows) - 1):
                    refused(rec, lambda: learn(rows.assign(**{u: [lat[0] if j == k else float("nan") for j in range(len(rows))]}), [u]), "trainable variable observed once", case)
            rec.check(learn(rows, [u]) == want, f"{cls.__name__}: another result after refusals", case)
            rec.trace(); rec.outcome(case + [cls.__name__, u])
    for n in (0, -1):
        for par in (False, True):
            refused(rec, lambda: SimpleModelAggregatorEM(m, rows, parallel=par).run(n), f"{n} models", case)
            refused(rec, lambda: SimpleModelAggregatorGD(m, rows, tol=1e-3, max_iter=1, parallel=par).run(n), f"{n} models", case)
    for v in names:
        for st in (2, -1, "0"):
            for k in (0, len(rows) - 1):
                bad = rows.astype(object); bad.loc[k, v] = st
                refused(rec, lambda: m.log_likelihood(bad), f"likelihood of the unknown state {st!r} of {v}", case)
                refused(rec, lambda: m.max_log_likelihood(bad), f"best likelihood of the unknown state {st!r} of {v}", case)
    rec.check(snap.model(m) == base, "the model changed", case)
    rec.check(snap.frame(rows) == f0, "the data changed", case)


def run_more(spec, rec):
    """Interval factors, fusions, structural equations and true/false states."""
    from bcause.factors import MultinomialFactor
    from bcause.factors.imprecise import IntervalProbFactor
    from bcause.models import BayesianNetwork
    from bcause.models.cmodel import StructuralCausalModel
    from bcause.models.transform.combination import fusion_roots
    from bcause.inference.causal.elimination import CausalVariableElimination
    import networkx as nx
    dom0 = {"X": ["x0", "x1"], "X1": [5, 1, 2], "Y": [True, False]}
    for r in (1, 2, 3):
        for vs in itertools.permutations(dom0, r):
            dom = {v: list(dom0[v]) for v in vs}
            n = int(np.prod([len(d) for d in dom.values()]))
            lo = [0.05 + 0.01 * i for i in range(n)]
            up = [x + 0.2 for x in lo]
            case = ["interval", list(vs)]
            mk = lambda d, k: MultinomialFactor({v: list(x) for v, x in d.items()}, [0.02 * (j + k) for j in range(int(np.prod([len(x) for x in d.values()])))], left_vars=[vs[0]])
            for k in (n - 1, n + 1, 2 * n, n * n + 1):
                if k < 1 or k == n: continue
                refused(rec, lambda: IntervalProbFactor(dict(dom), (lo * n + lo)[:k], up), f"{k} low values", case)
                refused(rec, lambda: IntervalProbFactor(dict(dom), lo, (up * n + up)[:k]), f"{k} up values", case)
            refused(rec, lambda: IntervalProbFactor.from_precise([]), "no precise factors", case)
            for v in vs:
                for d in ({**dom, v: dom[v] + ["more"] if v == "X" else dom[v][:-1]}, {**dom, v: list(reversed(dom[v]))}, {x: s for x, s in dom.items() if x != v}, {(x + "_" if x == v else x): s for x, s in dom.items()}):
                    if not d or list(d)[0] != vs[0]: continue
                    for fs in ([dom, d], [d, dom], [dom, dom, d]):
                        refused(rec, lambda: IntervalProbFactor.from_precise([mk(x, j) for j, x in enumerate(fs)]), "precise factors with different domains", case)
            f = IntervalProbFactor(dict(dom), lo, up, left_vars=[vs[0]])
            full = {v: dom[v][0] for v in vs}
            for v in vs:
                for s in BAD[v]: refused(rec, lambda: f.restrict(**{v: s}), f"restrict {v}={s!r}", case)
            # operations that equations and intervals do not have
            from bcause.factors import DeterministicFactor
            rn = int(np.prod([len(dom[v]) for v in vs[1:]])) if r > 1 else 1
            eq = DeterministicFactor({v: list(d) for v, d in dom.items()}, values=[dom[vs[0]][0]] * rn, left_vars=[vs[0]])
            for nm, g in (("equation", eq), ("interval factor", f)):
                s0 = snap.factor(g)
                for nm2, o in (("equation", eq), ("interval factor", f), ("table", mk(dom, 0)), ("number", 2), ("number", .5)):
                    if {nm, nm2} == {"equation", "table"}: continue
                    ops = [("+", lambda: g + o), ("-", lambda: g - o), ("*", lambda: g * o), ("/", lambda: g / o)]
                    if nm2 == "number" or nm == "interval factor": ops += [("+", lambda: o + g), ("-", lambda: o - g), ("*", lambda: o * g), ("/", lambda: o / g)]
                    for sign, fn in ops: refused(rec, fn, f"{nm} {sign} {nm2}", case)
                for v in vs:
                    for fn in (lambda: g.marginalize(v), lambda: g.maxmarginalize(v), lambda: g ** v, lambda: g ^ v): refused(rec, fn, f"{nm} without {v}", case)
                for size in (0, 1, 5):
                    refused(rec, lambda: g.sample(size), f"{size} samples of an {nm}", case)
                    refused(rec, lambda: g.sample_conditional([dict(full)] * size), f"{size} samples of an {nm}", case)
                rec.check(snap.factor(g) == s0, f"the {nm} changed", case)
            refused(rec, lambda: eq.restrict(**{vs[-1]: dom[vs[-1]][0]}), "restricted equation", case)
            refused(rec, lambda: f.log_prob([dict(full)]), "logarithms of intervals", case)
            got = IntervalProbFactor.from_precise([mk(dom, 0), mk(dom, 1)])
            rec.check(close(float(got.store_low.get_value(**full)), 0.0) and close(float(got.store_up.get_value(**full)), 0.02), "wrong bounds after refusals", case)
            rec.trace(); rec.outcome(case)
    for names, e, h in TOUR_SCMS:
        dom = {v: DOM["Z"] for v in names}
        ref = make_scm(names, e, h, dom, salt=2)
        m = ref.build()
        base = snap.model(m)
        bn = BayesianNetwork(m.graph, m.factors)
        case = ["scm", names]
        for on in itertools.chain.from_iterable(itertools.combinations(m.variables, k) for k in (1, 2)):
            if all(not m.get_parents(v) for v in on): continue
            refused(rec, lambda: fusion_roots([m, m], on=list(on), endogenous=list(names)), f"fusion on {on}", case)
        refused(rec, lambda: fusion_roots([m, bn], on=list(m.exogenous), endogenous=list(names)), "fusion of models of several kinds", case)
        refused(rec, lambda: fusion_roots([], on=list(m.exogenous)), "fusion of nothing", case)
        for v in names:
            pa = m.get_parents(v)
            f = m.factors[v]
            d = {x: list(f.domain[x]) for x in [*pa, v]}
            soft = MultinomialFactor(d, [0.5] * int(np.prod([len(x) for x in d.values()])), left_vars=[v])
            refused(rec, lambda: StructuralCausalModel(m.graph, {**m.factors, v: soft}, endogenous=list(names)), f"equation of {v} that is not deterministic", case)
            refused(rec, lambda: m.set_factor(v, soft), f"equation of {v} that is not deterministic", case)
        rec.check(snap.model(m) == base, "the model changed", case)
        # true and false states
        for st in ([0, 1, 2], ["a", "b"], [5, 6], ["a1", "b0"], ["x", "x0"], [0, 2], [2, 1]):
            for x in names:
                ref2 = make_scm(names, e, h, {v: st if v == x else DOM["Z"] for v in names}, salt=2)
                m2 = ref2.build()
                b2 = snap.model(m2)
                inf = CausalVariableElimination(m2)
                for y in names:
                    for a, b in ((x, y), (y, x)):
                        for fn in (inf.prob_necessity, inf.prob_sufficiency, inf.prob_necessity_sufficiency):
                            refused(rec, lambda: fn(a, b), f"{fn.__name__}({a}, {b}) without true and false states in {st}", case)
                        if a == b: break
                rec.check(snap.model(m2) == b2, "the model changed", case)
        inf = CausalVariableElimination(m)
        for fn in (inf.prob_necessity, inf.prob_sufficiency, inf.prob_necessity_sufficiency):
            for x in names:
                for bad in ("nope", "", None):
                    refused(rec, lambda: fn(bad, x), f"{fn.__name__} of the unknown cause {bad!r}", case)
                    refused(rec, lambda: fn(x, bad), f"{fn.__name__} of the unknown effect {bad!r}", case)
        rec.trace(); rec.outcome(case)


def run(spec, rec):
    import logging
    logging.disable(logging.CRITICAL)
    try: {"ve": run_ve, "data": run_data, "causal": run_causal, "factor": run_factor, "files": run_files, "misc": run_misc, "learn": run_learn, "more": run_more}[spec["kind"]](spec, rec)
    finally: logging.disable(logging.NOTSET)
    rec.sample(spec)
