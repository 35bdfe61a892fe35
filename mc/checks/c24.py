"""C24: observation blankets of every target, for every small graph, set of observed variables and pattern of missing entries."""
import itertools
import numpy as np
from ..mgen import *
from .c23 import G, build, subsets

NODES = ["X", "U", "Y", "X1"]
DOM = {"X": ["a", "b"], "U": [0, 1], "Y": [True, False], "X1": ["nan", "y0", "None"], "B": [3, 2]}


def BOUNDS(tier):
    q = tier == "quick"
    return dict(dags="all labelled DAGs with 2-4 nodes; 5 nodes: %s up to isomorphism, three sets of columns each" % ("every 2nd" if q else "all"), targets="all, observed or not, queried in two orders on one analysis object",
                observed="all sets of columns, two column orders", same_rows="every non-empty set of complete rows (3 nodes%s); all rows twice, and every pair of rows (4 nodes)" % (", one in four" if q else ""),
                missing="every pair of missing patterns%s, with equal and with different values, NaN or None" % (" (one in three DAGs with 4 nodes)" if q else ""))


def specs(tier):
    q = tier == "quick"
    out = []
    for n in (2, 3, 4):
        D = labelled_dags(n)
        step = 2 if n == 3 else 12
        for i in range(0, len(D), step):
            out.append(dict(kind="same", n=n, lo=i, hi=i + step, q=q))
            out.append(dict(kind="miss", n=n, lo=i, hi=i + step, q=q))
    for i in range(16): out.append(dict(kind="wide", part=i, step=2 if q else 1))
    return out


def run_wide(spec, rec):
    """DAGs with 5 nodes up to isomorphism: three sets of columns each, complete rows and rows with missing entries"""
    D = list(iso_dags(5))
    for k in range(spec["part"], len(D), 16):
        if (k // 16) % spec["step"]: continue
        names = NODES + ["B"]
        nodes = names[k % 5:] + names[:k % 5]
        edges = [(nodes[a], nodes[b]) for a, b in D[k]]
        w = World(k, nodes, edges)
        for c in range(3):
            cols = [v for v in (nodes if c % 2 else nodes[::-1]) if mix((k, c, v)) % 5 > (1 if c else -1)] or nodes[:1]
            rows = [{v: w.dom[v][mix((k, c, r, v)) % 2] for v in cols} for r in range(7)]
            case = ["same", "wide", edges, cols]; rec.at(case)
            examine(w, rows + rows[:2], cols, rec, case)
            rows = [{v: s for v, s in r.items() if mix((k, c, j, v, "m")) % 3} for j, r in enumerate(rows)]
            case = ["miss", "wide", edges, cols, str(rows)]; rec.at(case)
            examine(w, rows, cols, rec, case, none=bool(c % 2))


def pick(spec):
    D = labelled_dags(spec["n"])
    for k in range(spec["lo"], min(spec["hi"], len(D))):
        nodes = NODES[:spec["n"]] if k % 2 else NODES[::-1][:spec["n"]]
        yield k, nodes, [(nodes[a], nodes[b]) for a, b in D[k]]


def frame(rows, cols, none=False):
    import pandas as pd
    return pd.DataFrame({c: pd.Series([(None if none else np.nan) if r.get(c) is None else r[c] for r in rows], dtype=object if none or any(r.get(c) is None for r in rows) else None) for c in cols}, columns=list(cols))


def key(d):
    return frozenset(d.items())


class World:
    def __init__(self, k, nodes, edges):
        self.k, self.nodes, self.edges = k, nodes, edges
        self.g = G(nodes, edges)
        self.dom = {v: DOM[v][:2] for v in nodes} if len(nodes) >= 4 else {v: DOM[v] for v in nodes}
        self.bns = [RefBN(nodes, edges, self.dom, salt=k), RefBN(nodes, edges, self.dom, zeros=1, salt=k + 1)]
        self.post = {}

    def posterior(self, i, t, E):
        c = (i, t, key(E))
        if c not in self.post: self.post[c] = self.bns[i].marginal([t], dict(E))
        return self.post[c]

    def relevant(self, t, obs):
        """observed variables connected to t given the other observed ones"""
        return {v for v in obs if v != t and not self.g.separated(t, v, set(obs) - {v})}


def examine(w, rows, cols, rec, case, none=False):
    from bcause.util.datadeps import DataDepAnalysis
    data = frame(rows, cols, none)
    data.index = [7 - i for i in range(len(rows))]
    before = data.to_dict("list")
    g = build(w.nodes, w.edges)
    deps = DataDepAnalysis(g, data)
    answers = {}
    for t in w.nodes + w.nodes[::-1]:
        out = deps.get_minimal_obs_blanket(t)
        rec.step()
        got = [dict(d) for d in out]
        if t in answers: rec.check(answers[t] == got, f"asked again about {t}: {got} instead of {answers[t]}", case)
        answers[t] = got
    for t in w.nodes:
        got = [key(d) for d in answers[t]]
        rec.check(len(set(got)) == len(got), f"blankets of {t} repeat: {answers[t]}", case)
        reds = set()
        for r in rows:
            E = {v: r[v] for v in cols if r.get(v) is not None}
            if t not in E:
                red = key({v: E[v] for v in w.relevant(t, set(E))})
                rec.check(red in got, f"blanket of {t} for {E}: none of {answers[t]} is {dict(red)}", case)
                reds.add(red)
            ext = [d for d in got if d <= key(E)]
            rec.check(ext, f"no blanket of {t} for {E} among {answers[t]}", case)
            if case[0] == "same":
                rec.check(len(ext) == 1, f"row {E} extends {len(ext)} of {answers[t]}", case)
                for i in (0, 1) if t not in E else ():
                    p = w.posterior(i, t, E)
                    if p.sum() <= 1e-12: continue
                    b = w.posterior(i, t, dict(ext[0]))
                    rec.check(np.allclose(p / p.sum(), b / b.sum(), atol=1e-9), f"P({t}|{E}) is not P({t}|{dict(ext[0])})", case)
        if t not in cols: rec.check(set(got) == reds, f"blankets of {t}: {answers[t]} are not those of the rows", case)
        rec.outcome((t, tuple(sorted(len(d) for d in got))))
    rec.check(data.to_dict("list").keys() == before.keys() and repr(data.to_dict("list")) == repr(before) and list(data.columns) == list(cols), "data changed", case)
    rec.check(set(g.nodes) == set(w.nodes) and set(g.edges) == set(w.edges), "graph changed", case)
    rec.trace(); rec.state(case)


def run_same(spec, rec):
    for k, nodes, edges in pick(spec):
        w = World(k, nodes, edges)
        for ci, cols in enumerate(subsets(nodes)):
            if not cols: continue
            if (k + ci) % 2: cols = cols[::-1]
            rows = [dict(zip(cols, c)) for c in itertools.product(*[w.dom[v] for v in cols])]
            if len(nodes) <= 3 and len(rows) <= 8:
                sets = [s for s in subsets(range(len(rows))) if s]
                if spec["q"] and len(sets) > 16: sets = sets[(k + ci) % 4::4] + [list(range(len(rows)))]
            else:
                sets = [list(range(len(rows))) * 2]
                pairs = list(itertools.combinations(range(len(rows)), 2))
                if len(nodes) == 4 and not (spec["q"] and (k + ci) % 6): sets += [list(p) for p in pairs]
            for s in sets:
                case = ["same", edges, cols, s]; rec.at(case)
                examine(w, [rows[i] for i in s], cols, rec, case)


def run_miss(spec, rec):
    for k, nodes, edges in pick(spec):
        if spec["q"] and spec["n"] == 4 and k % 3: continue
        w = World(k, nodes, edges)
        for cols in ([nodes] if k % 2 else []) + [[v for v in nodes if v != t] for t in nodes]:
            if not cols: continue
            pats = subsets(cols)
            for a, b in itertools.combinations_with_replacement(range(len(pats)), 2):
                for diff in ((0, 1) if len(nodes) < 4 or not spec["q"] else ((a + b + k) % 2,)):
                    r1 = {v: w.dom[v][0] for v in pats[a]}
                    r2 = {v: w.dom[v][-1 if diff else 0] for v in pats[b]}
                    case = ["miss", edges, cols, r1, r2]; rec.at(case)
                    examine(w, [r1, r2, dict(r1)] if (a + b) % 2 else [r2, r1], cols, rec, case, none=bool((a + k) % 2))




def run(spec, rec):
    {"same": run_same, "miss": run_miss, "wide": run_wide}[spec["kind"]](spec, rec)
    rec.sample(spec)
