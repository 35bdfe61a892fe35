"""C28: expectation maximisation with missing values: every step of the real learner against exact EM computed by enumeration,
for all small data sets over states and missing entries, Bayesian networks and causal models, all choices of trainable variables."""
import itertools, math
import numpy as np
from ..mgen import *
from .c15 import multisets
from .. import snap

LBL = ["X", "X1", "Y", "A", "B", "Z"]
DOMS = [{"X": ["x0", "x1"], "X1": [1, 0], "Y": [True, False], "A": ["a", "b"], "B": [2, 5], "Z": ["s", "t"]},
        {"X": [0, 1], "X1": ["u", "v"], "Y": ["p", "q", "r"], "A": [1, 0], "B": ["b1", "b0"], "Z": [0, 1]}]
WIDER4 = [(4, [(0, 1), (1, 2), (2, 3)]), (4, [(0, 1), (0, 2), (1, 3), (2, 3)]), (4, [(0, 3), (1, 3), (2, 3)]), (4, [(0, 1), (0, 2), (0, 3)]), (5, [(0, 2), (1, 2), (2, 3), (2, 4)]),
          (5, [(0, 1), (1, 2), (2, 3), (3, 4)]), (6, [(0, 1), (2, 1), (1, 3), (3, 5), (4, 5)])]
SCMS = [(["X"], [], [[0]]), (["X", "Y"], [(0, 1)], [[0], [1]]), (["X", "Y"], [(0, 1)], [[0, 1]]), (["X", "Y"], [], [[0, 1], [1]]), (["X", "Y", "A"], [(0, 1), (1, 2)], [[0, 2], [1]]),
        (["X", "Y", "A"], [(0, 1), (0, 2)], [[0], [1, 2]])]


def BOUNDS(tier):
    q = tier == "quick"
    return dict(networks="all labelled DAGs with <=%d nodes, %d with 4-6; %d causal models with the exogenous variables trainable" % (3, len(WIDER4), len(SCMS)),
                data="all multisets of <=%d rows over the states and missing (1-2 variables), <=%d (3 variables%s); wider: thinned by a fixed hash" % (3, 2 if q else 3, ", every 6th" if q else ""),
                trainable="default, each single variable, all", steps="1-%d" % (3 if q else 6), note="variables observed in no row are given as columns of missing values or left out of the data")


def specs(tier):
    q = tier == "quick"
    out = []
    for n in (1, 2, 3):
        for i, e in enumerate(labelled_dags(n)):
            for part in range(1 if n < 3 else 2): out.append(dict(kind="bn", n=n, e=e, i=i, rows=3 if n < 3 or not q else 2, thin=1 if n == 1 else (2 if q else 1) if n == 2 else 6 if q else 12, part=part, parts=1 if n < 3 else 2, steps=3 if q else 6))
    for i, (n, e) in enumerate(WIDER4):
        for part in range(2): out.append(dict(kind="bn", n=n, e=e, i=i, rows=2, thin={4: 150, 5: 1500, 6: 12000}[n] // (1 if q else 4), part=part, parts=2, steps=2 if q else 4))
    for i in range(len(SCMS)):
        for part in range(2): out.append(dict(kind="scm", i=i, rows=3, thin=(1, 1, 1, 1, 20, 20)[i] * (1 if i < 4 and not q or i == 0 else 2 if i < 4 else 4 if q else 1), part=part, parts=2, steps=3 if q else 6))
    return out


class Table0:
    """P(v | parents) as an array over parents + [v], read from a real factor"""

    def __init__(self, f, v, pa, dom):
        self.v, self.pa = v, pa
        self.arr = np.zeros([len(dom[x]) for x in pa + [v]])
        for idx in itertools.product(*[range(len(dom[x])) for x in pa + [v]]):
            self.arr[idx] = float(f.get_value(**{x: dom[x][i] for x, i in zip(pa + [v], idx)}))


def joint(tabs, nodes, dom):
    j = np.ones([len(dom[v]) for v in nodes])
    ax = {v: i for i, v in enumerate(nodes)}
    for t in tabs.values():
        vs = t.pa + [t.v]
        order = sorted(vs, key=ax.get)
        a = np.transpose(t.arr, [vs.index(x) for x in order])
        j = j * a.reshape([len(dom[v]) if v in vs else 1 for v in nodes])
    return j


def expected(tabs, nodes, dom, rows, train):
    """expected counts of (parents, v) of every trainable v, and the log-likelihood of the observed entries"""
    j = joint(tabs, nodes, dom)
    acc = {v: np.zeros_like(tabs[v].arr) for v in train}
    ll = 0.0
    for r in rows:
        w = j
        for i, (v, s) in enumerate(zip(nodes, r)):
            if s is None: continue
            m = np.zeros([1] * i + [len(dom[v])] + [1] * (len(nodes) - i - 1))
            m[(0,) * i + (s,) + (0,) * (len(nodes) - i - 1)] = 1
            w = w * m
        t = w.sum()
        if t <= 1e-12: return None, -math.inf
        ll += math.log(t)
        for v in train:
            vs = tabs[v].pa + [v]
            s = (w / t).sum(axis=tuple(i for i, x in enumerate(nodes) if x not in vs))
            rest = [x for x in nodes if x in vs]
            acc[v] += np.transpose(s, [rest.index(x) for x in vs])
    return acc, ll


def frame(rows, nodes, dom, k):
    import pandas as pd
    rec = [{v: (float("nan") if s is None else dom[v][s]) for v, s in zip(nodes, r)} for r in rows]
    cols = list(nodes) if k % 2 else list(reversed(nodes))
    if k % 3: cols = [v for v in cols if any(x[v] == x[v] for x in rec)] or cols
    df = pd.DataFrame(rec, columns=cols)
    if k % 5 == 1: df.index = [3 * i + 2 for i in range(len(df))]
    return df


def run(spec, rec):
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    if spec["kind"] == "bn":
        n = spec["n"]
        nodes = LBL[:n]
        nodes = nodes[spec["i"] % n:] + nodes[:spec["i"] % n]
        dom = {v: DOMS[spec["i"] % 2][v] for v in nodes}
        edges = [(nodes[a], nodes[b]) for a, b in spec["e"]]
        refs = [RefBN(nodes, edges, dom, salt=spec["i"] + z, zeros=z) for z in (0, 1)]
        pa, free = refs[0].pa, nodes
    else:
        names, e, h = SCMS[spec["i"]]
        s = make_scm(names, e, h, {v: DOMS[spec["i"] % 2][v] for v in names}, salt=spec["i"])
        refs = [s]
        nodes, dom, pa, free = s.endo + s.exo, s.dom, {**{v: list(s.pa[v]) for v in s.endo}, **{u: [] for u in s.exo}}, s.exo
    seen = [v for v in nodes if v not in free] if spec["kind"] == "scm" else nodes
    types = list(itertools.product(*[[None] + list(range(len(dom[v]))) if v in seen else [None] for v in nodes]))
    c = 0
    for d, ms in enumerate(multisets(len(types), spec["rows"])):
        if mix(ms, spec["i"]) % (spec["thin"] * spec["parts"]) // spec["thin"] != spec["part"] or mix(ms, spec["i"]) % spec["thin"]: continue
        rows = [types[i] for i in ms]
        some = [v for i, v in enumerate(nodes) if any(r[i] is None for r in rows)]
        opts = [None] + [[v] for v in free] + [list(free)]
        if spec["kind"] == "bn" and len(nodes) > 1: opts = [opts[0 if not c % 2 else -1], opts[1 + c % len(free)]]
        for train in opts:
            c += 1
            if train is None and any(v not in free for v in some): train = list(free)
            T = train or [v for v in some]
            if not T: continue
            ref = refs[c % len(refs)]
            m = ref.build(layout=c % 4)
            tabs = {v: Table0(m.factors[v], v, pa[v], dom) for v in nodes}
            steps = 1 + c % spec["steps"]
            case = [spec["kind"], spec["i"], str(spec.get("e")), str([[None if s is None else dom[v][s] for v, s in zip(nodes, r)] for r in rows]), train, steps, c % len(refs)]
            acc, ll = expected(tabs, nodes, dom, rows, T)
            if acc is None: rec.note("data impossible"); continue
            rec.at(case); rec.state(case)
            df = frame(rows, nodes, dom, c)
            base, f0 = snap.model(m), snap.frame(df)
            em = ExpectationMaximization(m, trainable_vars=train) if train else ExpectationMaximization(m)
            if c % 7 == 0:
                # a first run on other data, of which nothing must remain
                em = ExpectationMaximization(m, trainable_vars=T)
                em.run(frame(rows[:1], nodes, dom, c + 1), max_iter=1)
            em.run(df, max_iter=steps)
            ev = em.model_evolution
            rec.check(sorted(em.trainable_vars) == sorted(T), f"trainable variables {em.trainable_vars} instead of {T}", case)
            rec.check(2 <= len(ev) <= 1 + steps, f"{len(ev)} models for {steps} steps", case)
            for j, mod in enumerate(ev[1:]):
                new = {v: Table0(mod.factors[v], v, pa[v], dom) for v in nodes}
                acc, ll = expected(tabs, nodes, dom, rows, T)
                far = 0.0
                for v in nodes:
                    if v not in T:
                        rec.check(np.array_equal(new[v].arr, tabs[v].arr), f"step {j + 1} changed {v}, which is not trainable", case)
                        continue
                    f = mod.factors[v]
                    rec.check(list(f.left_vars) == [v] and set(f.right_vars) == set(pa[v]), f"step {j + 1}: factor of {v} is {f.name}", case)
                    N = acc[v].sum(axis=-1, keepdims=True)
                    want = np.divide(acc[v], N, out=np.zeros_like(acc[v]), where=N > 1e-12)
                    got = np.where(N > 1e-12, new[v].arr, 0)
                    rec.check(np.allclose(got, want, atol=1e-8), f"step {j + 1}: P({v}|{pa[v]}) is {got.tolist()} instead of {want.tolist()}", case)
                    far = max(far, float(np.abs(np.where(N > 1e-12, new[v].arr - tabs[v].arr, 0)).max()))
                l2 = expected(new, nodes, dom, rows, [])[1]
                rec.check(l2 >= ll - 1e-9, f"step {j + 1}: log-likelihood of the observed entries went from {ll} to {l2}", case)
                if j == len(ev) - 2 and len(ev) < 1 + steps: rec.check(far < 1e-6, f"stopped after {j + 1} steps without having converged", case)
                tabs = new
                rec.step()
            rec.check(em.model is ev[-1] or snap.model(em.model) == snap.model(ev[-1]), "the model is not the last one of the evolution", case)
            rec.check(snap.frame(df) == f0, "the data changed", case)
            rec.check(snap.model(m) == base, "the prior model changed", case)
            rec.trace(); rec.outcome((case[:3], str({v: np.round(tabs[v].arr, 6).tolist() for v in T})))
    rec.sample(spec)
