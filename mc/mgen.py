"""Enumerations of graphs, Bayesian networks and structural causal models, with their references."""
import itertools
from functools import lru_cache
import numpy as np
from .ref import Table, close, same_states


# ------------------------------------------------------------------ graphs

def is_acyclic(n, edges):
    indeg = [0] * n
    for _, y in edges: indeg[y] += 1
    q = [i for i in range(n) if indeg[i] == 0]
    seen = 0
    while q:
        x = q.pop(); seen += 1
        for a, b in edges:
            if a == x:
                indeg[b] -= 1
                if indeg[b] == 0: q.append(b)
    return seen == n


@lru_cache(None)
def labelled_dags(n):
    """All DAGs on nodes 0..n-1, as tuples of edges, fewest edges first."""
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    out = []
    for choice in itertools.product((0, 1, 2), repeat=len(pairs)):
        e = tuple((a, b) if c == 1 else (b, a) for (a, b), c in zip(pairs, choice) if c)
        if is_acyclic(n, e): out.append(e)
    out.sort(key=lambda e: (len(e), e))
    return out


@lru_cache(None)
def iso_dags(n):
    """One DAG per isomorphism class (all edges forward)."""
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    perms = list(itertools.permutations(range(n)))
    seen, out = set(), []
    for bits in itertools.product((0, 1), repeat=len(pairs)):
        e = [p for p, b in zip(pairs, bits) if b]
        key = frozenset(e)
        if key in seen: continue
        for p in perms:
            seen.add(frozenset((p[a], p[b]) for a, b in e))
        out.append(tuple(e))
    out.sort(key=lambda e: (len(e), e))
    return out


def topo(nodes, edges):
    nodes, out, done = list(nodes), [], set()
    while len(out) < len(nodes):
        for v in nodes:
            if v not in done and all(a in done for a, b in edges if b == v):
                out.append(v); done.add(v)
    return out


# ------------------------------------------------------------------ numbers

def weights(n, salt=0, zeros=False):
    w = [1 + ((i * 7 + salt * 5 + (i * i + salt) % 3) % 11) for i in range(n)]
    if zeros and n > 1: w[salt % n] = 0
    s = float(sum(w))
    return [x / s for x in w]


# ------------------------------------------------------------------ Bayesian networks

class RefBN:
    """nodes, parents and conditional tables (Table over parents + [v])"""

    def __init__(self, nodes, edges, dom, zeros=0, salt=0, det=()):
        self.nodes, self.edges, self.dom = list(nodes), [tuple(e) for e in edges], dom
        self.pa = {v: [a for a, b in self.edges if b == v] for v in self.nodes}
        self.cpt = {}
        for i, v in enumerate(self.nodes):
            d = {p: dom[p] for p in self.pa[v]}
            d[v] = dom[v]
            vals = []
            for k, _ in enumerate(itertools.product(*[dom[p] for p in self.pa[v]])):
                z = zeros and (k + i + zeros) % 2 == 0
                if v in det:
                    j = (k * 2 + i + salt) % len(dom[v])
                    vals += [1.0 if x == j else 0.0 for x in range(len(dom[v]))]
                else:
                    vals += weights(len(dom[v]), 3 * i + 2 * k + salt, z)
            self.cpt[v] = Table(d, vals)
        self._joint = None

    def joint(self):
        if self._joint is None:
            shape = [len(self.dom[v]) for v in self.nodes]
            j = np.ones(shape)
            for v in self.nodes:
                t = self.cpt[v]
                for idx in itertools.product(*[range(s) for s in shape]):
                    a = {x: self.dom[x][i] for x, i in zip(self.nodes, idx)}
                    j[idx] *= t.at(a)
            self._joint = j
        return self._joint

    def marginal(self, keep, evidence=None):
        """P(keep, evidence) as an array over keep, in that order"""
        evidence = evidence or {}
        j = self.joint()
        idx = tuple(self.dom[v].index(evidence[v]) if v in evidence else slice(None) for v in self.nodes)
        j = j[idx]
        rest = [v for v in self.nodes if v not in evidence]
        drop = tuple(i for i, v in enumerate(rest) if v not in keep)
        j = j.sum(axis=drop) if drop else j
        rest = [v for v in rest if v in keep]
        return np.transpose(j, [rest.index(v) for v in keep]) if keep else j

    def build(self, cls=None, layout=0, vtype=None, node_order=None, as_list=False, **kw):
        """The real model. layout varies where the child sits in its factor and the parents' order."""
        import networkx as nx
        from bcause.models import BayesianNetwork
        cls = cls or BayesianNetwork
        g = nx.DiGraph()
        if layout % 2 == 0:
            g.add_nodes_from(node_order or self.nodes)
            g.add_edges_from(self.edges)
        else:
            g.add_edges_from(self.edges)
            g.add_nodes_from(node_order or self.nodes)
        fs = {v: self.factor(v, layout, vtype) for v in self.nodes}
        return cls(g, list(fs.values()) if as_list else fs, **kw)

    def order_in_factor(self, v, layout):
        pa = list(self.pa[v])
        if layout == 0: return pa + [v]
        if layout == 1: return [v] + pa
        if layout == 2: return list(reversed(pa)) + [v]
        return pa[:1] + [v] + list(reversed(pa[1:]))

    def factor(self, v, layout=0, vtype=None):
        from bcause.factors import MultinomialFactor
        order = self.order_in_factor(v, layout)
        dom = {x: list(self.dom[x]) for x in order}
        t = self.cpt[v]
        vals = [t.at(dict(zip(order, k))) for k in itertools.product(*[dom[x] for x in order])]
        return MultinomialFactor(dom, values=vals, left_vars=[v], vtype=vtype)


def cmp_query(real, ref, target, cond, evidence, tol=1e-9):
    """Compare a real answer with P(target | cond, evidence); None or a message.
    Conditioning configurations of probability zero are not compared."""
    vs = list(real.domain.keys())
    if set(vs) != set(target) | set(cond) or len(vs) != len(set(vs)):
        return f"answer over {vs}, expected {sorted(set(target) | set(cond))}"
    for v in vs:
        if not same_states(list(real.domain[v]), list(ref.dom[v])):
            return f"states of {v}: {real.domain[v]}"
    num = ref.marginal(vs, evidence)
    tax = tuple(i for i, v in enumerate(vs) if v in target)
    den = np.broadcast_to(num.sum(axis=tax, keepdims=True), num.shape)
    got = np.asarray(real.values_list, dtype=float).reshape([len(real.domain[v]) for v in vs])
    perm = np.ix_(*[[list(real.domain[v]).index(s) for s in ref.dom[v]] for v in vs]) if vs else ()
    got = got[perm] if vs else got
    ok = den > 0
    exp = np.where(ok, num / np.where(ok, den, 1.0), 0.0)
    bad = ok & ~(np.abs(got - exp) <= tol)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        return f"at { {v: ref.dom[v][k] for v, k in zip(vs, i)} }: {got[i]} instead of {exp[i]}"
    return None


# ------------------------------------------------------------------ structural causal models

def mix(*xs):
    h = 2166136261
    for x in xs:
        for b in str(x).encode() + b"|":
            h = ((h ^ b) * 16777619) & 0xffffffff
    return (h >> 7) & 0xffff


class RefSCM:
    """endo: {v: list of parents}, functions as Tables over the parents holding states; exo: {u: probabilities}"""

    def __init__(self, endo_pa, exo_prob, dom, fun=None, salt=0):
        self.endo, self.exo, self.dom = list(endo_pa), list(exo_prob), dom
        self.pa = {v: list(p) for v, p in endo_pa.items()}
        self.prob = {u: list(p) for u, p in exo_prob.items()}
        self.fun = {}
        for v in self.endo:
            d = {p: dom[p] for p in self.pa[v]}
            n = 1
            for p in self.pa[v]: n *= len(dom[p])
            if fun is not None and v in fun:
                vals = [dom[v][i] for i in fun[v]]
            else:
                vals = [dom[v][mix(salt, v, k) % len(dom[v])] for k in range(n)]
                if n >= len(dom[v]) and len(set(map(str, vals))) < len(dom[v]):      # make it onto
                    for j, s in enumerate(dom[v]): vals[(j + salt) % n] = s
            self.fun[v] = Table(d, vals)
        self.edges = [(p, v) for v in self.endo for p in self.pa[v]]
        self.order = topo(self.endo, [(a, b) for a, b in self.edges if a in self.endo])
        self._us = None

    def us(self):
        if self._us is None:
            self._us = []
            for k in itertools.product(*[range(len(self.dom[u])) for u in self.exo]):
                p = 1.0
                for u, i in zip(self.exo, k): p *= self.prob[u][i]
                self._us.append((dict(zip(self.exo, [self.dom[u][i] for u, i in zip(self.exo, k)])), p))
        return self._us

    def solve(self, u, do=None):
        a = dict(u)
        for v in self.order:
            a[v] = do[v] if do and v in do else self.fun[v].at(a)
        return a

    def interventional(self, T, do=None, E=None):
        """{target states: probability} under do, given E; None when E has probability zero"""
        E = E or {}
        acc, tot = {}, 0.0
        for u, p in self.us():
            a = self.solve(u, do)
            if any(a[v] != s for v, s in E.items()): continue
            tot += p
            k = tuple(a[v] for v in T)
            acc[k] = acc.get(k, 0.0) + p
        if tot <= 0: return None
        return {k: x / tot for k, x in acc.items()}

    def counterfactual(self, T, worlds, dos, E=None):
        """T[i] in world worlds[i] (1-based index in dos)"""
        E = E or {}
        acc, tot = {}, 0.0
        for u, p in self.us():
            a = self.solve(u)
            if any(a[v] != s for v, s in E.items()): continue
            tot += p
            ws = [self.solve(u, d) for d in dos]
            k = tuple(ws[w - 1][v] for v, w in zip(T, worlds))
            acc[k] = acc.get(k, 0.0) + p
        if tot <= 0: return None
        return {k: x / tot for k, x in acc.items()}

    def row_prob(self, row):
        return sum(p for u, p in self.us() if all(self.solve(u)[v] == s for v, s in row.items()))

    def factor(self, v, kind="det", layout=0, vtype=None):
        from bcause.factors import MultinomialFactor, DeterministicFactor
        if v in self.prob:
            return MultinomialFactor({v: list(self.dom[v])}, values=list(self.prob[v]), vtype=vtype)
        pa = list(self.pa[v]) if layout < 2 else list(reversed(self.pa[v]))
        order = pa + [v] if layout % 2 == 0 else [v] + pa
        dom = {x: list(self.dom[x]) for x in order}
        t = self.fun[v]
        if kind == "det":
            vals = [t.at(dict(zip(pa, k))) for k in itertools.product(*[dom[x] for x in pa])]
            return DeterministicFactor(dom, values=vals, left_vars=[v], vtype=vtype)
        vals = [1.0 if t.at(a) == a[v] else 0.0 for a in (dict(zip(order, k)) for k in itertools.product(*[dom[x] for x in order]))]
        return MultinomialFactor(dom, values=vals, left_vars=[v], vtype=vtype)

    def build(self, kind="det", layout=0, vtype=None, cast=True, explicit=None, node_order=None):
        import networkx as nx
        from bcause.models.cmodel import StructuralCausalModel
        g = nx.DiGraph()
        if node_order: g.add_nodes_from(node_order)
        g.add_edges_from(self.edges if layout % 2 == 0 else list(reversed(self.edges)))
        g.add_nodes_from(self.endo + self.exo)
        if explicit is None: explicit = any(not self.pa[v] for v in self.endo)
        kw = dict(endogenous=list(self.endo)) if explicit else {}
        fs = {v: self.factor(v, kind, layout, vtype) for v in self.endo + self.exo}
        return StructuralCausalModel(g, fs, cast_multinomial=cast, **kw)


def cmp_dist(real, target_names, doms, exp, tol=1e-9):
    """real factor over target_names against {tuple of states: prob}; None or message"""
    vs = list(real.domain.keys())
    if sorted(vs) != sorted(target_names):
        return f"answer over {vs}, expected {list(target_names)}"
    for v, d in zip(target_names, doms):
        if not same_states(list(real.domain[v]), list(d)): return f"states of {v}: {real.domain[v]} instead of {d}"
    for k, got in zip(itertools.product(*[real.domain[v] for v in vs]), real.values_list):
        a = dict(zip(vs, k))
        e = exp.get(tuple(a[v] for v in target_names), 0.0)
        if not close(got, e, tol): return f"at {a}: {got} instead of {e}"
    return None


def scm_structs(n_endo, max_exo=3, need_cover=False, max_per_exo=3):
    """(endo edges, exo hyperedges) over indices: every endogenous DAG x every set of exogenous variables' child sets"""
    subs = [s for k in range(1, min(n_endo, max_per_exo) + 1) for s in itertools.combinations(range(n_endo), k)]
    for e in labelled_dags(n_endo):
        for k in range(0, max_exo + 1):
            for hs in itertools.combinations(subs, k):
                covered = set(itertools.chain(*hs))
                if need_cover and len(covered) < n_endo: continue
                yield list(e), [list(h) for h in hs]


def make_scm(endo_names, edges, hyper, dom, salt=0, exo_names=None, exo_card=None, zeros=False, fun=None, exo_first=False):
    exo_names = exo_names or ["U", "U1", "V", "W"]
    dom = dict(dom)
    pa = {}
    for i, v in enumerate(endo_names):
        ep = [endo_names[a] for a, b in edges if b == i]
        xp = [exo_names[j] for j, h in enumerate(hyper) if i in h]
        pa[v] = xp + ep if exo_first else ep + xp
    prob = {}
    for j, h in enumerate(hyper):
        u = exo_names[j]
        c = exo_card[j] if exo_card else 2 + (j + salt) % 2
        if u not in dom: dom[u] = [list(range(c)), [f"{u.lower()}{i}" for i in range(c)], [3 * i + 1 for i in range(c)][::-1]][(j + salt) % 3]
        prob[u] = weights(len(dom[u]), j + salt + 1, zeros and (j + salt) % 2 == 0)
    return RefSCM(pa, prob, dom, fun=fun, salt=salt)


def onehot_scm(endo_names, edges, hyper, dom, salt=0, exo_names=None):
    """every exogenous variable has one state per child, which switches that child only, and a neutral one: no parent and no child can be overlooked"""
    ref = make_scm(endo_names, edges, hyper, dom, salt=salt, exo_names=exo_names, exo_card=[len(h) + 1 for h in hyper])
    fun = {}
    for i, v in enumerate(endo_names):
        vals = []
        for k in itertools.product(*[range(len(ref.dom[p])) for p in ref.pa[v]]):
            x = 0
            for p, j in zip(ref.pa[v], k):
                if p in ref.prob: x += j == 1 + sorted(hyper[ref.exo.index(p)]).index(i)
                else: x += j
            vals.append(x % len(dom[v]))
        fun[v] = vals
    return RefSCM(ref.pa, ref.prob, ref.dom, fun=fun, salt=salt)


# (endogenous variables, endogenous edges, exogenous child sets): larger shapes than the exhaustive enumerations reach
WIDE = [(4, [], [[0, 1, 2, 3]]), (4, [(0, 1), (1, 2), (2, 3)], [[0, 1, 2, 3]]), (4, [(0, 1), (0, 2), (0, 3)], [[0], [1, 2, 3]]), (4, [(0, 3), (1, 3), (2, 3)], [[0, 1], [2, 3]]),
        (4, [(3, 0), (2, 0), (1, 0)], [[0, 1, 2, 3]]), (4, [(0, 1), (1, 2), (2, 3)], [[0, 2], [1, 3]]), (5, [], [[0, 1, 2, 3, 4]]), (5, [(0, 1), (1, 2), (2, 3), (3, 4)], [[0, 1, 2, 4], [3]]),
        (5, [(0, 2), (1, 2), (2, 3), (2, 4)], [[0, 1], [2, 3, 4]])]

WIDER = WIDE + [(5, [(4, 3), (3, 2), (2, 1), (1, 0)], [[0], [1], [2], [3], [4]]), (5, [(0, 4), (1, 4), (2, 4), (3, 4)], [[0, 1], [1, 2], [2, 3], [4]]),
         (5, [(0, 1), (0, 2), (0, 3), (0, 4), (1, 4)], [[0], [1, 2], [3, 4]]), (6, [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5)], [[0], [1, 3, 5], [2, 4]]),
         (6, [(0, 2), (1, 2), (2, 3), (3, 4), (3, 5)], [[0, 1], [2, 3], [4, 5]])]
WNAMES = ["X", "X1", "Y", "A", "X11", "B"]
WDOM = {"X": ["x0", "x1"], "X1": [1, 0], "Y": [True, False], "A": [2, 7], "X11": ["b", "a"], "B": [0, 1]}
WEXO = ["U", "U1", "V", "W", "Z"]
