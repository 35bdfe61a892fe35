"""C14: c-components, q-graph and Q-factorisation against their definitions, on every small causal graph."""
import itertools, math
import numpy as np
from ..mgen import *
from .. import snap

NAMES = ["X", "Y", "X1", "A", "X11", "B"]
DOMS = {"X": [0, 1], "Y": ["y1", "y0"], "X1": [2, 0, 1], "A": [True, False], "X11": ["b", "a"], "B": [7, 3]}


def BOUNDS(tier):
    return dict(graphs="3 endogenous: all DAGs x all sets of <=3 exogenous child sets; 4 endogenous: %s x all sets of <=2 (child sets of size <=%s); %d models with 4-6 endogenous variables and up to 5 exogenous ones; childless exogenous variables and variables without exogenous parents included"
                % (("one DAG per class, rotated labels", "2, or one of size 3 or 4", len(WIDER)) if tier == "quick" else ("all labelled DAGs", 4, len(WIDER))),
                equations="multinomial or deterministic, factor layouts rotating", exogenous="generic positive and with zeros",
                data="all endogenous assignments of positive probability, and 2-row data sets")


def specs(tier):
    out = []
    for n in (1, 2, 3):
        for k, (e, h) in enumerate(scm_structs(n, 3)):
            out.append((n, e, h, k))
    rot = 0
    for i, e in enumerate(iso_dags(4) if tier == "quick" else labelled_dags(4)):
        subs = [s for k in range(1, 5) for s in itertools.combinations(range(4), k)]
        for k in range(0, 3):
            for hs in itertools.combinations(subs, k):
                if tier == "quick" and k == 2 and max(map(len, hs)) > 2: continue
                r = rot % 4 if tier == "quick" else 0
                rot += 1
                ee = [((a + r) % 4, (b + r) % 4) for a, b in e]
                out.append((4, ee, [[(x + r) % 4 for x in h] for h in hs], rot))
    wide = [dict(batch=[(n, e, h, k)], wide=1) for k, (n, e, h) in enumerate(WIDER)]
    return wide + [dict(batch=out[i:i + 16]) for i in range(0, len(out), 16)]


def classes(ref):
    """c-components from the definition, by union of exogenous child sets"""
    comp = {v: {v} for v in ref.endo + ref.exo}
    for v in ref.endo:
        for u in ref.pa[v]:
            if u in ref.exo:
                new = comp[v] | comp[u]
                for x in new: comp[x] = new
    return comp


def q_value(ref, C, row):
    """Q[C](row) = sum over the exogenous of P(u) prod_{v in C} [f_v(pa) = v], parents taken from the row"""
    tot = 0.0
    for u, p in ref.us():
        if all(ref.fun[v].at({q: u[q] if q in u else row[q] for q in ref.pa[v]}) == row[v] for v in C): tot += p
    return tot


def one(n, e, h, k, rec, wide=False):
    import networkx as nx, pandas as pd
    names = NAMES[:n]
    if wide: ref = onehot_scm(names, e, h, {v: DOMS[v][:2] for v in names}, salt=k, exo_names=WEXO)
    else: ref = make_scm(names, e, h, {v: DOMS[v] for v in names}, salt=k, exo_card=[3 + (k + j) % 2 for j in range(len(h))], zeros=k % 3 == 0)
    if k % 4 == 1:                                   # a %d models with 4-6 endogenous variables and up to 5 exogenous ones; childless exogenous variable
        ref = RefSCM(ref.pa, {**ref.prob, "Wz": [.3, .7]}, {**ref.dom, "Wz": [0, 1]}, fun={v: [ref.dom[v].index(x) for x in t.val.values()] for v, t in ref.fun.items()})
    case = [n, str(e), str(h), k]
    rec.at(case); rec.state(case)
    m = ref.build(kind="det" if k % 2 else "mult", layout=k % 4, cast=k % 3 != 1, explicit=True if k % 4 == 1 else None)
    base = snap.model(m)
    comp = classes(ref)
    want = {frozenset(c) for c in comp.values()}
    for name, keep in (("ccomponents", ref.endo + ref.exo), ("endo_ccomponents", ref.endo), ("exo_ccomponents", ref.exo)):
        got = [set(c) for c in getattr(m, name)]
        ne = [frozenset(c) for c in got if c]
        rec.check(len(ne) == len(set(ne)) and set(ne) == {c & frozenset(keep) for c in want if c & frozenset(keep)}, f"{name}: {got}, expected {[set(c) for c in want]}", case)
        rec.step()
    for v in ref.endo + ref.exo:
        for fn, keep in ((m.get_ccomponent, ref.endo + ref.exo), (m.get_endo_ccomponent, ref.endo), (m.get_exo_ccomponent, ref.exo)):
            rec.check(set(fn(v)) == comp[v] & set(keep), f"component of {v}: {fn(v)}", case)
            rec.step()
    g = m.qgraph
    rec.check(set(g.nodes) == set(ref.endo), f"q-graph nodes {list(g.nodes)}", case)
    rec.check(nx.is_directed_acyclic_graph(g), f"q-graph has a cycle: {list(g.edges)}", case)
    rec.check(all((a, b) in g.edges for a, b in ref.edges if a in ref.endo), f"q-graph {list(g.edges)} lacks endogenous edges", case)
    qf = m.get_qfactorisation()
    rec.check(set(qf) == set(ref.endo), f"q-factors of {list(qf)}", case)
    for v in ref.endo:
        rec.check(set(qf[v].domain) == {v} | set(g.predecessors(v)), f"q-factor of {v} over {list(qf[v].domain)}", case)
    bn = m.get_qbnet()
    rows, tot = [], 0.0
    for s in itertools.product(*[ref.dom[v] for v in ref.endo]):
        row = dict(zip(ref.endo, s))
        p = ref.row_prob(row)
        a = np.prod([float(f.get_value(**{x: row[x] for x in f.domain})) for f in qf.values()])
        rec.check(close(a, p), f"product of the q-factors at {row}: {a} instead of {p}", case)
        b = float(bn.prob([row])[0])
        rec.check(close(b, p), f"q-network probability of {row}: {b} instead of {p}", case)
        rec.step(2); tot += p
        if p > 1e-12: rows.append((row, p))
    rec.trace()
    rec.outcome((case, round(tot, 6)))
    # log-likelihood of data sets: each row, pairs, and everything with multiplicities
    sets = [[r] for r in rows[:4]] + [[rows[0], rows[-1]], [rows[-1]] * 2 + rows, rows]
    for i, rs in enumerate(sets):
        df = pd.DataFrame([r for r, _ in rs], columns=list(reversed(ref.endo)) if i % 2 else ref.endo)
        for v in ref.endo: df[v] = df[v].astype(object) if i % 3 else df[v]
        f0 = snap.frame(df)
        ll = float(m.log_likelihood(df))
        exp = sum(math.log(p) for _, p in rs)
        rec.check(close(ll, exp), f"log-likelihood {ll} instead of {exp}", case)
        rec.check(snap.frame(df) == f0, "data changed", case)
        rec.step()
    for c in want:
        C = sorted(set(c) & set(ref.endo))
        if not C: continue
        df = pd.DataFrame([r for r, _ in rows])
        ll = float(m.log_likelihood(df, variables=list(C)))
        exp = sum(math.log(q_value(ref, C, r)) for r, _ in rows)
        rec.check(close(ll, exp), f"log-likelihood of component {C}: {ll} instead of {exp}", case)
        rec.step()
    rec.check(snap.model(m) == base, "model changed", case)


def run(spec, rec):
    for n, e, h, k in spec["batch"]:
        one(n, [tuple(x) for x in e], [list(x) for x in h], k, rec, bool(spec.get("wide")))
    rec.sample(spec["batch"][0])
