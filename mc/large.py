"""Models with tens of variables whose answers are computed by summing along a forest: every variable has at most one (endogenous) parent."""
import itertools
import numpy as np
from .mgen import weights, mix


def shape(kind, n):
    """position of the parent of each variable"""
    if kind == "chain": return [None] + list(range(n - 1))
    if kind == "back": return list(range(1, n)) + [None]                    # the last name is the root
    if kind == "star": return [None] + [0] * (n - 1)
    if kind == "binary": return [None] + [(i - 1) // 2 for i in range(1, n)]
    if kind == "comb": return [None, 0] + [i - 1 if i % 2 else i - 2 for i in range(2, n)]   # a chain with a leaf at each variable
    if kind == "trees": return [None if i % 9 == 0 else i - 1 for i in range(n)]   # several separate chains
    raise KeyError(kind)


KINDS = ["chain", "back", "star", "binary", "comb", "trees"]


def dom_at(i):
    return [[0, 1], ["a", "b", "c"], [True, False], ["y", "x"], [2, 1]][i % 5 if i % 7 else 1]


class Forest:
    def __init__(self, kind, n, binary=False):
        self.names = [f"X{i}" for i in range(n)]
        p = shape(kind, n)
        assert all(q is None or 0 <= q < n and q != i for i, q in enumerate(p))
        self.pa = {v: None if p[i] is None else self.names[p[i]] for i, v in enumerate(self.names)}
        self.dom = {v: [0, 1] if binary else dom_at(i) for i, v in enumerate(self.names)}
        self.ch = {v: [w for w in self.names if self.pa[w] == v] for v in self.names}
        order, todo = [], [v for v in self.names if self.pa[v] is None]
        while todo:
            v = todo.pop(); order.append(v); todo += self.ch[v]
        assert len(order) == n
        self.up = order[::-1]
        self.edges = [(self.pa[v], v) for v in self.names if self.pa[v] is not None]


class LargeBN(Forest):
    """a Bayesian network"""

    def __init__(self, kind, n):
        super().__init__(kind, n)
        self.row = {}
        for i, v in enumerate(self.names):
            for j, s in enumerate(self.dom[self.pa[v]] if self.pa[v] else [None]): self.row[v, s] = dict(zip(self.dom[v], weights(len(self.dom[v]), i + 3 * j)))

    def p(self, obs):
        msg, total = {}, 1.0
        for v in self.up:
            def val(s):
                r = 1.0
                for w in self.ch[v]: r *= msg[w][s]
                return r
            vals = {s: val(s) for s in self.dom[v] if v not in obs or obs[v] == s}
            q = self.pa[v]
            if q is None: total *= sum(self.row[v, None][s] * x for s, x in vals.items())
            else: msg[v] = {t: sum(self.row[v, t][s] * x for s, x in vals.items()) for t in self.dom[q]}
        return total

    def marginal(self, keep, evidence=None):
        E = evidence or {}
        return np.array([self.p({**E, **dict(zip(keep, k))}) for k in itertools.product(*[self.dom[v] for v in keep])]).reshape([len(self.dom[v]) for v in keep])

    def build(self):
        import networkx as nx
        from bcause.factors import MultinomialFactor
        from bcause.models import BayesianNetwork
        g = nx.DiGraph(); g.add_nodes_from(self.names); g.add_edges_from(self.edges)
        F = {}
        for i, v in enumerate(self.names):
            q = self.pa[v]
            vs = [v] if q is None else [q, v] if i % 3 else [v, q]
            dom = {x: list(self.dom[x]) for x in vs}
            F[v] = MultinomialFactor(dom, [self.row[v, a.get(q)][a[v]] for a in (dict(zip(vs, k)) for k in itertools.product(*dom.values()))], left_vars=[v])
        return BayesianNetwork(g, F)


class LargeSCM(Forest):
    """a causal model where each variable has an exogenous parent of its own"""

    def __init__(self, kind, n, binary=False):
        super().__init__(kind, n, binary)
        self.exo = {v: f"U{i}" for i, v in enumerate(self.names)}
        self.pu, self.fun = {}, {}
        for i, v in enumerate(self.names):
            self.pu[v] = weights(3 + i % 2, i)
            for j, s in enumerate(self.dom[self.pa[v]] if self.pa[v] else [None]):
                for u in range(3 + i % 2): self.fun[v, s, u] = self.dom[v][u if u < len(self.dom[v]) and j == 0 else mix("large", i, j, u) % len(self.dom[v])]

    def p(self, dos, obs):
        """dos: the intervention in each world; obs: {(variable, world): state}"""
        W = range(len(dos))
        msg, total = {}, 1.0
        for v in self.up:
            q = self.pa[v]
            def out(par, u): return tuple(dos[w][v] if v in dos[w] else self.fun[v, None if par is None else par[w], u] for w in W)
            def val(x):
                if any((v, w) in obs and obs[v, w] != x[w] for w in W): return 0.0
                r = 1.0
                for c in self.ch[v]: r *= msg[c][x]
                return r
            memo = {}
            def value(x):
                if x not in memo: memo[x] = val(x)
                return memo[x]
            pars = [None] if q is None else list(itertools.product(self.dom[q], repeat=len(dos)))
            m = {par: sum(pu * value(out(par, u)) for u, pu in enumerate(self.pu[v])) for par in pars}
            if q is None: total *= m[None]
            else: msg[v] = m
        return total

    def interventional(self, T, do=None, E=None):
        dos, ev = [do or {}], {(v, 0): s for v, s in (E or {}).items()}
        den = self.p(dos, ev)
        if den <= 0: return None
        return {k: self.p(dos, {**ev, **{(t, 0): s for t, s in zip(T, k)}}) / den for k in itertools.product(*[self.dom[t] for t in T])}

    def counterfactual(self, T, worlds, dos, E=None):
        D, ev = [{}] + list(dos), {(v, 0): s for v, s in (E or {}).items()}
        den = self.p(D, ev)
        if den <= 0: return None
        return {k: self.p(D, {**ev, **{(t, w): s for t, w, s in zip(T, worlds, k)}}) / den for k in itertools.product(*[self.dom[t] for t in T])}

    def build(self, kind="det"):
        import networkx as nx
        from bcause.factors import MultinomialFactor, DeterministicFactor
        from bcause.models.cmodel import StructuralCausalModel
        g = nx.DiGraph(); g.add_nodes_from(self.names); g.add_edges_from(self.edges + [(u, v) for v, u in self.exo.items()])
        F = {}
        for i, v in enumerate(self.names):
            U = list(range(len(self.pu[v])))
            F[self.exo[v]] = MultinomialFactor({self.exo[v]: U}, list(self.pu[v]))
            q = self.pa[v]
            par = [self.exo[v]] + ([] if q is None else [q])
            if i % 2: par.reverse()
            dom = {x: U if x == self.exo[v] else list(self.dom[x]) for x in par}
            rows = [dict(zip(par, k)) for k in itertools.product(*dom.values())]
            f = DeterministicFactor({**dom, v: list(self.dom[v])}, values=[self.fun[v, a.get(q), a[self.exo[v]]] for a in rows], left_vars=[v])
            F[v] = f if kind == "det" else f.to_multinomial()
        return StructuralCausalModel(g, F)


def spots(n, k=5):
    """positions spread over the variables, both ends included"""
    return sorted({0, 1, n // 3, n // 2, n - 2, n - 1})[:k] if k > 5 else sorted({0, 1, n // 2, n - 2, n - 1})[:k]
