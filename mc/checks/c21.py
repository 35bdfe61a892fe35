"""C21: conversion to pgmpy and back, every DAG, child position and cardinality; pgmpy's own tables and queries compared entry by entry."""
import itertools, logging
import numpy as np
from ..mgen import *
from ..fgen import STORES
from .. import snap

CF = [{"X": ["x0", "x1"], "X1": [1, 2, 3], "Y": [False, True], "A": ["a", "b", "c"]},
      {"X": [7, 2, 5], "X1": ["c", "a"], "Y": [1, 0, 2, 3], "A": [True, False]},
      {"X": [0, 1], "X1": [0, 1], "Y": [0, 1, 2], "A": ["1", "0"]},
      {"X": ["t", "u", "s"], "X1": ["q", "p", "r"], "Y": ["1", "0", "2"], "A": ["0", "1", "3", "2"]}]


def BOUNDS(tier):
    q = tier == "quick"
    return dict(graphs="all DAGs with <=3 nodes; 4 nodes%s; stars with up to 4 parents" % ("" if q else " in two node orders; 5 nodes up to isomorphism"),
                layouts="4 child/parent positions", domains="4 families (2-4 states; strings, integers, booleans; unsorted)", tables="with and without zeros",
                pgmpy="networks built in pgmpy with every evidence order, default and named states, the names in several orders of the variables")


def specs(tier):
    q = tier == "quick"
    out = []
    for n in (1, 2, 3):
        for i, e in enumerate(labelled_dags(n)): out.append(dict(kind="bn", n=n, e=e, i=i, rev=0))
    for i, e in enumerate(labelled_dags(4)):
        for rev in ((0,) if q else (0, 1)): out.append(dict(kind="bn", n=4, e=e, i=i, rev=rev))
    for n in (4, 5): out.append(dict(kind="bn", n=n, e=[(j, n - 1) for j in range(n - 1)], i=n, rev=0))
    if not q:
        for i, e in enumerate(iso_dags(5)): out.append(dict(kind="bn", n=5, e=e, i=i, rev=0))
    for n in (1, 2, 3):
        for i, e in enumerate(labelled_dags(n)): out.append(dict(kind="pg", n=n, e=e, i=i))
    for i, e in enumerate(iso_dags(4)): out.append(dict(kind="pg", n=4, e=e, i=i))
    return out


def dom_of(n, cfg, rev):
    names = ["X", "X1", "Y", "A", "B"][:n]
    if rev: names = names[::-1]
    return names, {v: {**CF[cfg], "B": [0, 1]}[v] for v in names}


def cmp_model(rec, m, ref, case, what):
    """a real network against the reference"""
    rec.check(sorted(m.graph.nodes) == sorted(ref.nodes), f"{what}: nodes {list(m.graph.nodes)}", case)
    rec.check(sorted(m.graph.edges) == sorted(ref.edges), f"{what}: edges {list(m.graph.edges)} instead of {ref.edges}", case)
    rec.check(set(m.variables) == set(ref.nodes), f"{what}: variables {m.variables}", case)
    for v in ref.nodes:
        d = m.domains[v]
        rec.check(list(d) == list(ref.dom[v]) and [type(x) is bool for x in d] == [type(x) is bool for x in ref.dom[v]], f"{what}: states of {v}: {d} instead of {ref.dom[v]}", case)
        f = m.factors[v]
        rec.check(list(f.left_vars) == [v] and set(f.right_vars) == set(ref.pa[v]), f"{what}: factor of {v} is {f.name}", case)
        for x in f.domain: rec.check(list(f.domain[x]) == list(ref.dom[x]), f"{what}: states of {x} in the factor of {v}: {f.domain[x]}", case)
        vs = ref.pa[v] + [v]
        for k in itertools.product(*[ref.dom[x] for x in vs]):
            a = dict(zip(vs, k))
            got, want = float(f.get_value(**a)), ref.cpt[v].at(a)
            rec.check(close(got, want, 1e-12), f"{what}: P({v}) at {a} is {got} instead of {want}", case)
            rec.step()


def cmp_pgmpy(rec, pg, ref, case):
    rec.check(sorted(pg.nodes()) == sorted(ref.nodes) and sorted(pg.edges()) == sorted(ref.edges), f"pgmpy graph {list(pg.nodes())} {list(pg.edges())}", case)
    for v in ref.nodes:
        c = pg.get_cpds(v)
        rec.check(c is not None and c.variable == v and set(c.variables) == {v, *ref.pa[v]}, f"pgmpy table of {v}: {c and c.variables}", case)
        for x in [v] + ref.pa[v]: rec.check(list(c.state_names[x]) == list(ref.dom[x]), f"pgmpy states of {x} in the table of {v}: {c.state_names[x]}", case)
        vals = np.asarray(c.values)                      # axes in the order of c.variables
        rec.check(vals.shape == tuple(len(ref.dom[x]) for x in c.variables), f"pgmpy table of {v} has shape {vals.shape}", case)
        for k in itertools.product(*[range(len(ref.dom[x])) for x in c.variables]):
            a = {x: ref.dom[x][i] for x, i in zip(c.variables, k)}
            rec.check(close(float(vals[k]), ref.cpt[v].at(a), 1e-12), f"pgmpy: P({v}) at {a} is {vals[k]} instead of {ref.cpt[v].at(a)}", case)
            rec.step()
    rec.check(pg.check_model(), "pgmpy finds the network inconsistent", case)


def run_bn(spec, rec):
    from bcause.conversion.pgmpy import toPgmpyBNet, toBCauseBNet
    n = spec["n"]
    for cfg in range(4):
        for layout in range(4):
            for zeros in (0, 1):
                if n >= 4 and (cfg + layout + zeros + spec["i"]) % 4: continue
                if n == 5 and cfg: continue
                names, dom = dom_of(n, cfg, spec["rev"])
                edges = [(names[a], names[b]) for a, b in spec["e"]]
                ref = RefBN(names, edges, dom, zeros=zeros, salt=spec["i"] + cfg)
                case = ["bn", str(edges), cfg, layout, zeros, spec["rev"]]
                rec.at(case); rec.state(case)
                vt = STORES[(cfg + layout + spec["i"]) % 4]
                m = ref.build(layout=layout, vtype=vt)
                base = snap.model(m)
                pg = toPgmpyBNet(m)
                cmp_pgmpy(rec, pg, ref, case)
                for back_vt in (None, vt):
                    m2 = toBCauseBNet(pg, back_vt) if back_vt else toBCauseBNet(pg)
                    cmp_model(rec, m2, ref, case, "converted back")
                rec.check(snap.model(m) == base, "the model changed", case)
                if edges and zeros:
                    case = ["bn, states permuted", str(edges), cfg, layout, spec["rev"]]
                    rec.at(case); rec.state(case)
                    pg = toPgmpyBNet(permuted(ref, layout))
                    cmp_pgmpy(rec, pg, ref, case)
                    cmp_model(rec, toBCauseBNet(pg), ref, case, "converted back")
                rec.trace(); rec.outcome(case[:3])


def permuted(ref, layout):
    """the model with parents' states listed in another order than in the parents' own factors"""
    from bcause.models import BayesianNetwork
    from bcause.factors import MultinomialFactor
    fs = {}
    for v in ref.nodes:
        o = ref.order_in_factor(v, layout)
        d = {x: list(ref.dom[x]) if x == v else list(reversed(ref.dom[x])) for x in o}
        fs[v] = MultinomialFactor(d, values=[ref.cpt[v].at(dict(zip(o, k))) for k in itertools.product(*d.values())], left_vars=[v])
    return BayesianNetwork(ref.build().graph, fs)


def run_pg(spec, rec):
    """networks written in pgmpy, with every order of the evidence"""
    import pgmpy.models as pm
    import pgmpy.factors.discrete as pfd
    from bcause.conversion.pgmpy import toBCauseBNet, toPgmpyBNet
    n = spec["n"]
    for cfg in range(5):
        names, dom = dom_of(n, cfg % 4, 0)
        if cfg == 4: dom = {v: list(range(len(d))) for v, d in dom.items()}
        edges = [(names[a], names[b]) for a, b in spec["e"]]
        ref = RefBN(names, edges, dom, salt=spec["i"])
        for perm in range(6):
            if perm and max([len(p) for p in ref.pa.values()]) < 2: continue
            if n == 4 and (perm + cfg) % 3: continue
            case = ["pg", str(edges), cfg, perm]
            rec.at(case); rec.state(case)
            pg = pm.BayesianNetwork()
            pg.add_nodes_from(names); pg.add_edges_from(edges)
            for v in names:
                ps = list(itertools.permutations(ref.pa[v])); ps = list(ps[perm % len(ps)])
                cols = list(itertools.product(*[dom[p] for p in ps]))
                tab = [[ref.cpt[v].at({**dict(zip(ps, c)), v: s}) for c in cols] for s in dom[v]]
                kw = dict(evidence=ps, evidence_card=[len(dom[p]) for p in ps]) if ps else {}
                # the names of the states are given for the variables in any order
                named = [v] + ps
                named = [named, named[::-1], named[1:] + named[:1], sorted(named)][(perm + cfg + spec["i"]) % 4]
                if cfg != 4: kw["state_names"] = {x: list(dom[x]) for x in named}
                pg.add_cpds(pfd.TabularCPD(v, len(dom[v]), tab, **kw))
            m = toBCauseBNet(pg)
            cmp_model(rec, m, ref, case, "from pgmpy")
            cmp_pgmpy(rec, toPgmpyBNet(m), ref, case)
            rec.trace()


def run(spec, rec):
    logging.disable(logging.WARNING)
    {"bn": run_bn, "pg": run_pg}[spec["kind"]](spec, rec)
    logging.disable(logging.NOTSET)
    rec.sample(spec)
