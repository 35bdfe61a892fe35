"""C26: joint probabilities, structural views, conversions between model classes and fusion, on every small model."""
import itertools, math
import numpy as np
from ..mgen import *
from ..fgen import STORES, subsets
from .. import snap

DOM = {"X": ["x0", "x1"], "X1": [2, 3, 1], "Y": [True, False], "A": ["a", "b"], "X11": [0.5, 0.0]}
CDOM = {"X": [1, 0], "X1": ["b", "a"], "Y": [0, 1, 2], "A": [True, False]}


def BOUNDS(tier):
    q = tier == "quick"
    return dict(networks="all labelled DAGs with <=%d nodes (4: one per class in quick), 5 nodes: one class in %d; positive and with zeros, all stores and layouts" % (4, 12 if q else 3),
                observations="all complete assignments, one by one, together, reversed, repeated, with keys reversed and with foreign keys; every set of variables for log-probabilities",
                causal="all structures with <=%d endogenous variables and <=3 exogenous ones (4 and more: %d models)" % (3, len(WIDER)),
                conversions="to_bnet, causal_to_bnet, bnet_to_causal, from_model, to_multinomial", fusion="all pairs of networks over two shared and one private variable each, triples for every 5th; every set of shared roots")


def specs(tier):
    q = tier == "quick"
    out = []
    for n in (1, 2, 3, 4):
        ds = labelled_dags(n) if n < 4 or not q else iso_dags(4)
        for i in range(0, len(ds), 8):
            out.append(dict(kind="net", n=n, i=i, dags=ds[i:i + 8]))
    for n, step in ((5, 12 if q else 3),):
        ds = list(iso_dags(5))[::step]
        for i in range(0, len(ds), 2): out.append(dict(kind="net", n=5, i=i, dags=ds[i:i + 2]))
    sc = []
    for n in (1, 2, 3): sc += [(n, e, h) for k, (e, h) in enumerate(scm_structs(n, 3)) if n < 3 or not q or k % 4 == 0]
    for i in range(0, len(sc), 16): out.append(dict(kind="scm", i=i, batch=sc[i:i + 16]))
    out += [dict(kind="scm", i=i, batch=[WIDER[i]], wide=True) for i in range(len(WIDER))]
    fus = list(itertools.product(range(25), repeat=2))
    for i in range(0, len(fus), 25): out.append(dict(kind="fuse", i=i, pairs=fus[i:i + 25]))
    return out


def run(spec, rec):
    if spec["kind"] == "net":
        for j, e in enumerate(spec["dags"]): net(rec, spec["n"], e, spec["i"] + j)
    elif spec["kind"] == "scm":
        for j, (n, e, h) in enumerate(spec["batch"]): causal(rec, n, [tuple(x) for x in e], [list(x) for x in h], spec["i"] + j, spec.get("wide"))
    else:
        for a, b in spec["pairs"]: fuse(rec, a, b)
    rec.sample({k: v for k, v in spec.items() if k in ("kind", "i", "n")})


def joint_of(ref, a):
    p = 1.0
    for v in ref.nodes: p *= ref.cpt[v].at(a)
    return p


def views(rec, m, nodes, edges, dom, case):
    """graph, domains, sizes, parents, children, factors by name"""
    rec.check(sorted(m.variables) == sorted(nodes), f"variables {m.variables}", case)
    rec.check({v: list(d) for v, d in m.domains.items()} == {v: list(dom[v]) for v in nodes}, f"domains {m.domains}", case)
    rec.check(m.varsizes == {v: len(dom[v]) for v in nodes}, f"sizes {m.varsizes}", case)
    for vs in list(subsets(nodes))[:16]:
        vs = list(vs)
        rec.check(set(m.get_domains(vs)) == set(vs) and all(list(d) == list(dom[v]) for v, d in m.get_domains(vs).items()), f"domains of {vs}: {m.get_domains(vs)}", case)
        rec.check(m.get_varsizes(vs) == {v: len(dom[v]) for v in vs}, f"sizes of {vs}: {m.get_varsizes(vs)}", case)
        fs = m.get_factors(*vs)
        rec.check(len(fs) == len(vs) and all(f is m.factors[v] for f, v in zip(fs, vs)), f"factors of {vs}", case)
        pa, ch = m.get_parents(*vs), m.get_children(*vs)
        rec.check(sorted(pa) == sorted({a for a, b in edges if b in vs}), f"parents of {vs}: {pa}", case)
        rec.check(sorted(ch) == sorted({b for a, b in edges if a in vs}), f"children of {vs}: {ch}", case)
        rec.step(5)
    got = {}
    for part in m.get_dag_str()[1:-1].split("]["):
        v, sep, pa = part.partition("|")
        got[v] = sorted(pa.split(":")) if sep else []
    rec.check(got == {v: sorted({a for a, b in edges if b == v}) for v in nodes}, f"textual form of the graph: {m.get_dag_str()}", case)
    rec.check(set(m.get_domains(nodes[0])) == {nodes[0]} and set(m.get_varsizes(nodes[0])) == {nodes[0]}, "views of one variable", case)


def observations(rec, m, nodes, dom, fac, case):
    """fac(v, a): value of v's factor at a"""
    space = [dict(zip(nodes, s)) for s in itertools.product(*[dom[v] for v in nodes])]
    joint = [math.prod(fac(v, a) for v in nodes) for a in space]
    lists = [(space, joint), (space[::-1], joint[::-1])]
    lists += [([a], [p]) for a, p in list(zip(space, joint))[:6]]
    lists.append(([space[0], space[-1], space[0]], [joint[0], joint[-1], joint[0]]))
    for i, (obs, exp) in enumerate(lists):
        given = [dict(reversed(list(a.items()))) if i % 2 else dict(a) for a in obs]
        if i % 3 == 1:
            for a in given: a["foreign"] = 5
        kept = [dict(a) for a in given]
        got = list(m.prob(given))
        rec.check(len(got) == len(exp) and all(close(g, e) for g, e in zip(got, exp)), f"probabilities {got} instead of {exp}", case)
        rec.check(given == kept, "observations changed", case)
        rec.step(len(obs))
        if all(p > 0 for p in exp):
            got = list(m.log_prob(given))
            rec.check(len(got) == len(exp) and all(close(g, math.log(e)) for g, e in zip(got, exp)), f"log-probabilities {got} instead of the logarithms of {exp}", case)
            rec.step(len(obs))
    for vs in subsets(nodes):
        if not vs: continue
        ok = [a for a in space if all(fac(v, a) > 0 for v in vs)]
        if not ok: continue
        for names in (list(vs), tuple(reversed(vs))):
            got = list(m.log_prob(ok, names))
            rec.check(all(close(g, sum(math.log(fac(v, a)) for v in vs)) for g, a in zip(got, ok)) and len(got) == len(ok), f"log-probabilities restricted to {names}: {got}", case)
            rec.step(len(ok))
    rec.outcome(tuple(round(p, 7) for p in joint))


def net(rec, n, e, k):
    from bcause.models import BayesianNetwork
    from bcause.models.cmodel import StructuralCausalModel
    from bcause.models.transform.conversion import bnet_to_causal
    names = ["X", "X1", "Y", "A", "X11"][:n]
    ed = [(names[a], names[b]) for a, b in e]
    for z, det in ((0, ()), (1, ()), (0, tuple(v for v in names if any(b == v for a, b in ed)))):
        ref = RefBN(names, ed, DOM, zeros=z, salt=k, det=det)
        m = ref.build(layout=(k + z) % 4, vtype=STORES[(k + z) % 4], as_list=bool(k % 2))
        case = ["net", n, str(ed), z, bool(det)]
        rec.at(case); rec.state(case)
        base = snap.model(m)
        fac = lambda v, a: ref.cpt[v].at(a)
        views(rec, m, names, ed, DOM, case)
        observations(rec, m, names, DOM, fac, case)
        rec.trace()
        roots = [v for v in names if not any(b == v for a, b in ed)]
        for fn in (bnet_to_causal, StructuralCausalModel.from_model):
            degenerate = all(x in (0.0, 1.0) for v in names if v not in roots for x in ref.cpt[v].val.values())
            try:
                c = fn(m)
            except ValueError:
                rec.check(not degenerate, "a network whose non-root tables are functions was refused as a causal model", case)
                rec.outcome("refused"); continue
            rec.check(degenerate, "a network with a random non-root table was accepted as a causal model", case)
            rec.check(type(c) is StructuralCausalModel and sorted(c.exogenous) == sorted(roots) and sorted(c.endogenous) == sorted(set(names) - set(roots)), f"endogenous {c.endogenous}, exogenous {c.exogenous}", case)
            rec.check(sorted(c.graph.edges) == sorted(ed), f"edges {c.graph.edges}", case)
            observations(rec, c, names, DOM, fac, case + [fn.__name__])
            rec.trace()
        rec.check(snap.model(m) == base, "the model was changed", case)


def causal(rec, n, e, h, k, wide):
    from bcause.models import BayesianNetwork
    from bcause.models.cmodel import StructuralCausalModel
    from bcause.models.transform.conversion import causal_to_bnet
    from bcause.factors import MultinomialFactor
    if wide:
        names = WNAMES[:n]
        ref = onehot_scm(names, e, h, {v: WDOM[v] for v in names}, salt=k, exo_names=WEXO)
    else:
        names = ["X", "X1", "Y"][:n]
        ref = make_scm(names, e, h, CDOM, salt=k, zeros=k % 3 == 0)
    allv = ref.endo + ref.exo
    case = ["scm", n, str(e), str(h), k]
    rec.at(case); rec.state(case)
    fac = lambda v, a: (ref.prob[v][ref.dom[v].index(a[v])] if v in ref.prob else float(ref.fun[v].at(a) == a[v]))
    for kind, cast in (("det", False), ("det", True), ("mult", True)):
        m = ref.build(kind=kind, cast=cast, layout=k % 4, vtype=STORES[k % 4])
        base = snap.model(m)
        cs = case + [kind, cast]
        rec.at(cs)
        views(rec, m, allv, ref.edges, ref.dom, cs)
        rec.check(sorted(m.endogenous) == sorted(ref.endo) and sorted(m.exogenous) == sorted(ref.exo), f"endogenous {m.endogenous}, exogenous {m.exogenous}", cs)
        for v in allv:
            rec.check(m.is_endogenous(v) == (v in ref.endo) and m.is_exogenous(v) == (v in ref.exo), f"kind of {v}", cs)
            for fn, pick, keep in ((m.get_edogenous_parents, 0, ref.endo), (m.get_exogenous_parents, 0, ref.exo), (m.get_edogenous_children, 1, ref.endo), (m.get_exogenous_children, 1, ref.exo)):
                exp = sorted(x[pick] for x in ref.edges if x[1 - pick] == v and x[pick] in keep)
                rec.check(sorted(fn(v)) == exp, f"{fn.__name__}({v}) = {fn(v)} instead of {exp}", cs)
                rec.step()
        g = m.endo_graph
        rec.check(sorted(g.nodes) == sorted(ref.endo) and sorted(g.edges) == sorted(x for x in ref.edges if x[0] in ref.endo), f"endogenous graph {list(g.edges)}", cs)
        g = m.exo_graph
        rec.check(sorted(g.nodes) == sorted(allv) and sorted(g.edges) == sorted(x for x in ref.edges if x[0] in ref.exo), f"exogenous graph {list(g.edges)}", cs)
        rec.check(bool(m.has_deterministic) == (kind == "det" and not cast), f"has_deterministic {m.has_deterministic}", cs)
        rec.step(3)
        for what, fn in (("to_bnet", m.to_bnet), ("causal_to_bnet", lambda: causal_to_bnet(m)), ("to_multinomial", m.to_multinomial)):
            b = fn()
            rec.check(type(b) is (StructuralCausalModel if what == "to_multinomial" else BayesianNetwork), f"{what} gives a {type(b).__name__}", cs)
            if what == "to_multinomial": rec.check(sorted(b.endogenous) == sorted(ref.endo), f"{what}: endogenous {b.endogenous}", cs)
            rec.check(sorted(b.graph.edges) == sorted(ref.edges) and sorted(b.graph.nodes) == sorted(allv), f"{what}: edges {list(b.graph.edges)}", cs)
            rec.check(all(isinstance(f, MultinomialFactor) for f in b.factors.values()), f"{what} left functions in place", cs)
            for v in allv:
                f = b.factors[v]
                vs = ref.pa.get(v, []) + [v]
                rec.check(list(f.left_vars) == [v] and set(f.right_vars) == set(vs[:-1]), f"{what}: factor of {v} is {f.name}", cs)
                for c in itertools.product(*[ref.dom[x] for x in vs]):
                    a = dict(zip(vs, c))
                    rec.check(close(f.get_value(**a), fac(v, a)), f"{what}: factor of {v} at {a} is {f.get_value(**a)}", cs)
                    rec.step()
            if not wide and kind == "det" and what != "to_multinomial" and len(allv) < 6: observations(rec, b, allv, ref.dom, fac, cs + [what])
            rec.trace()
        rec.check(snap.model(m) == base, "the model was changed", cs)


def fuse(rec, a, b):
    """networks over R, S and one private variable each"""
    from bcause.models import BayesianNetwork
    from bcause.models.cmodel import StructuralCausalModel
    from bcause.models.transform.combination import fusion_roots
    doms = {"R": ["r0", "r1", "r2"], "S": [1, 0], "X": ["x0", "x1"], "Y": [True, False], "Z": [0, 1]}
    dags = labelled_dags(3)
    for on in (["R"], ["R", "S"], ["S", "R"]):
        # what is not fused on keeps its own name in each model
        idx = [(a, "X"), (b, "Y")] + ([((a + 2 * b) % 25, "Z")] if (a + b) % 5 == 0 else [])
        refs = []
        for j, (d, own) in enumerate(idx):
            names = ["R", "S" if "S" in on else f"S{own}", own]
            dom = {names[0]: doms["R"], names[1]: doms["S"], own: doms[own]}
            refs.append(RefBN(names, [(names[x], names[y]) for x, y in dags[d]], dom, salt=7 * j + a, zeros=b % 2))
        case = ["fuse", on, [[str(r.edges)] for r in refs]]
        rec.at(case); rec.state(case)
        roots = all(not any(y == v for _, y in r.edges) for r in refs for v in on)
        models = [r.build(layout=(a + j) % 4) for j, r in enumerate(refs)]
        base = [snap.model(m) for m in models]
        try:
            f = fusion_roots(models, on=list(on))
        except ValueError:
            rec.check(not roots, "fusion at common roots was refused", case)
            rec.outcome("refused"); rec.step(); rec.trace()
            continue
        rec.check(roots, "fusion at a variable that is not a root was accepted", case)
        allv = list(dict.fromkeys(v for r in refs for v in r.nodes))
        rec.check(type(f) is BayesianNetwork and sorted(f.graph.nodes) == sorted(allv), f"nodes {list(f.graph.nodes)}", case)
        rec.check(sorted(f.graph.edges) == sorted({e for r in refs for e in r.edges}), f"edges {list(f.graph.edges)}", case)
        for v in allv:
            r = refs[0] if v in on else [r for r in refs if v in r.nodes][0]
            vs = r.pa[v] + [v]
            for c in itertools.product(*[r.dom[x] for x in vs]):
                asg = dict(zip(vs, c))
                rec.check(close(f.factors[v].get_value(**asg), r.cpt[v].at(asg)), f"factor of {v} at {asg}: {f.factors[v].get_value(**asg)} instead of {r.cpt[v].at(asg)}", case)
                rec.step()
        rec.check([snap.model(m) for m in models] == base, "fusion changed its arguments", case)
        rec.outcome((tuple(sorted(f.graph.edges)),)); rec.trace()
    if a == b:
        # models of different classes
        r = RefBN(["R", "X"], [], {"R": doms["R"], "X": doms["X"]})
        s = make_scm(["Y"], [], [[0]], {"Y": doms["Y"], "R": doms["R"]}, exo_names=["R"])
        case = ["fuse", "classes", a]
        rec.at(case)
        try:
            fusion_roots([r.build(), s.build()], on=["R"])
        except ValueError:
            rec.outcome("classes refused")
        else:
            rec.fail("fusion of a network and a causal model was accepted", case)
        rec.step(); rec.trace()
