"""C23: graph queries against their definitions (paths, descendants, reachability), on every small directed graph."""
import itertools
from ..mgen import *
from ..large import shape, KINDS
from .c07 import SHAPES

N5 = ["V1", "V2", "U", "A_b", "V10"]


def BOUNDS(tier):
    q = tier == "quick"
    return dict(dags="all labelled DAGs with <=4 nodes, %s with 5 nodes" % ("one per isomorphism class" if q else "all labelled DAGs"),
                queries="all nodes, all target sets of <=2 nodes, all sets of observed / hidden / relevant nodes",
                wide="%d graphs with 6-8 nodes (sets thinned by a fixed hash); forests of %s nodes in %d shapes (few sets)" % (len(SHAPES), "24" if q else "24-60", len(KINDS)),
                notation="the same DAGs written, read back and given to models; all node orders up to 4 nodes",
                cycles="all directed graphs with <=3 nodes (loops included) and with 4 nodes (no loops), all undirected graphs with 3 nodes")


def specs(tier):
    out = []
    for n in (1, 2, 3, 4):
        D = labelled_dags(n)
        for i in range(0, len(D), 24):
            out.append(dict(kind="query", n=n, lo=i, hi=i + 24, iso=False))
            out.append(dict(kind="text", n=n, lo=i, hi=i + 24, iso=False))
    iso = tier == "quick"
    D = iso_dags(5) if iso else labelled_dags(5)
    step = 8 if iso else 60
    for i in range(0, len(D), step):
        out.append(dict(kind="query", n=5, lo=i, hi=i + step, iso=iso))
        out.append(dict(kind="text", n=5, lo=i, hi=i + step, iso=iso))
    for i, (n, e) in enumerate(SHAPES):
        r = (3 * i) % n
        nodes = [f"V{(j + r) % n}" for j in range(n)]
        for kind in ("query", "text"): out.append(dict(kind=kind, n=n, k=i, nodes=nodes, edges=[(nodes[a], nodes[b]) for a, b in e], thin=(2 if n == 6 else 4 if n == 7 else 12) if iso else 2))
    for i, f in enumerate(KINDS):
        for n in ((24,) if iso else (24, 60)):
            nodes = [f"X{j}" for j in range(n)]
            for kind in ("query", "text"): out.append(dict(kind=kind, n=n, k=i, nodes=nodes, edges=[(nodes[p], nodes[j]) for j, p in enumerate(shape(f, n)) if p is not None], sets=6))
    for n in (1, 2, 3): out.append(dict(kind="cycle", n=n, part=0, of=1))
    for p in range(8): out.append(dict(kind="cycle", n=4, part=p, of=8))
    return out


# ---------------------------------------------------------------- definitions

class G:
    def __init__(self, nodes, edges):
        self.nodes, self.edges = list(nodes), [tuple(e) for e in edges]
        self.pa = {v: [a for a, b in edges if b == v] for v in nodes}
        self.ch = {v: [b for a, b in edges if a == v] for v in nodes}
        self.desc = {}
        for v in reversed(topo(self.nodes, self.edges)):
            self.desc[v] = {v}.union(*[self.desc[c] for c in self.ch[v]])
        self.paths = {}
        adj = {v: set(self.pa[v]) | set(self.ch[v]) for v in self.nodes}
        for a in self.nodes:
            for b in self.nodes:
                out = []

                def go(p):
                    if p[-1] == b: out.append(tuple(p)); return
                    for c in adj[p[-1]]:
                        if c not in p: go(p + [c])
                go([a]); self.paths[a, b] = out

    def separated(self, a, b, z):
        """every path between a and b is blocked by z"""
        if a == b: return False
        E = set(self.edges)
        for p in self.paths[a, b]:
            for x, m, y in zip(p, p[1:], p[2:]):
                collider = (x, m) in E and (y, m) in E
                if collider and not (self.desc[m] & z): break
                if not collider and m in z: break
            else: return False
        return True

    def markov(self, v):
        return (set(self.pa[v]) | set(self.ch[v]) | {p for c in self.ch[v] for p in self.pa[c]}) - {v}

    def component(self, v):
        return {u for u in self.nodes if self.paths[v, u]}


def build(nodes, edges):
    import networkx as nx
    g = nx.DiGraph(); g.add_nodes_from(nodes); g.add_edges_from(edges)
    return g


def pick(spec):
    if "nodes" in spec:
        yield spec["k"], list(spec["nodes"]), [tuple(e) for e in spec["edges"]]
        return
    D = iso_dags(spec["n"]) if spec["iso"] else labelled_dags(spec["n"])
    for k in range(spec["lo"], min(spec["hi"], len(D))):
        nodes = N5[:spec["n"]]
        r = k % spec["n"]
        nodes = nodes[r:] + nodes[:r]
        yield k, nodes, [(nodes[a], nodes[b]) for a, b in D[k]]


def subsets(xs, spec={}):
    xs = list(xs)
    if "sets" in spec: return [[v for v in xs if mix(v, j, len(xs)) % 6 > j] for j in range(spec["sets"])] + [xs[:1]]
    return [list(c) for k in range(len(xs) + 1) for c in itertools.combinations(xs, k) if "thin" not in spec or k == 0 or mix(c) % spec["thin"] == 0]


def run_query(spec, rec):
    from bcause.util import graphutils as gu
    from bcause.models import BayesianNetwork
    from bcause.models.cmodel import StructuralCausalModel
    for k, nodes, edges in pick(spec):
        ref, g = G(nodes, edges), build(nodes, edges)
        same = lambda: list(g.nodes) == nodes and set(g.edges) == set(edges)
        bn = BayesianNetwork(build(nodes, edges))
        case = None

        def eq(got, exp, what, as_set=True):
            rec.step(); rec.trace(); rec.state(case); rec.outcome((what.split()[0], len(exp)))
            rec.check(len(got) == len(set(got)), f"{what}: {got} repeats nodes", case)
            rec.check(set(got) == set(exp), f"{what}: {sorted(got)} instead of {sorted(exp)}", case)
            rec.check(same(), f"{what}: the graph was changed", case)

        def edges_eq(h, ns, es, what):
            rec.step(); rec.trace(); rec.state(case)
            rec.check(h is not g and set(h.nodes) == set(ns) and set(h.edges) == set(es), f"{what}: {list(h.nodes)} {list(h.edges)}", case)
            rec.check(same(), f"{what}: the graph was changed", case)
            h.add_edge("new1", "new2"); h.remove_nodes_from(list(ns))
            rec.check(same(), f"{what}: shares its contents with the argument", case)
        for v in nodes:
            case = [edges, v]; rec.at(case)
            rec.check(list(gu.relevat_vars(g, v))[-1:] == [v], "relevant variables end with the variable", case)
            eq(gu.relevat_vars(g, v), set(ref.pa[v]) | {v}, "relevant variables")
            eq(bn.get_parents(v), ref.pa[v], "parents")
            eq(bn.get_children(v), ref.ch[v], "children")
            eq(bn.markov_blanket(v), ref.markov(v), "blanket of the model")
            eq(gu.markov_blanket(g, v), ref.markov(v), "blanket")
            rest = [u for u in nodes if u != v]
            for h in subsets(rest, spec):
                case = [edges, v, h]; rec.at(case)
                z = set(rest) - set(h)
                exp = {u for u in rest if not ref.separated(v, u, z - {u})}
                eq(gu.markov_blanket(g, v, hidden=h), exp if h else ref.markov(v), "blanket with hidden nodes")
                if not h: rec.check(exp == ref.markov(v), "HARNESS: blanket definitions disagree", case)
        for S in subsets(nodes, spec):
            case = [edges, S]; rec.at(case)
            T = S if k % 2 else set(S)
            barren = {v for v in nodes if not (ref.desc[v] & set(S))}
            eq(gu.barren_nodes(g, T), barren, "barren nodes")
            h = gu.barren_removal(g, T)
            rec.check(set(h.nodes) == set(nodes) - barren and set(h.edges) == {e for e in edges if not set(e) & barren}, "barren removal", case)
            if not S: eq(gu.barren_nodes(g), nodes, "barren nodes")
            eq(bn.get_parents(*S), {p for v in S for p in ref.pa[v]}, "parents of several")
            eq(bn.get_children(*S), {p for v in S for p in ref.ch[v]}, "children of several")
            edges_eq(gu.remove_outgoing_edges(g, T), nodes, [e for e in edges if e[0] not in S], "outgoing")
            edges_eq(gu.remove_ingoing_edges(g, T), nodes, [e for e in edges if e[1] not in S], "ingoing")
            edges_eq(gu.remove_nodes(g, T), [v for v in nodes if v not in S], [e for e in edges if not set(e) & set(S)], "nodes")
            if S:
                eq(gu.disconnected_nodes(g, S[0] if len(S) == 1 and k % 2 else T), {u for u in nodes if not any(u in ref.component(v) for v in S)}, "disconnected")
                for u in nodes:
                    rec.check(gu.connected(g, T, u) == any(u in ref.component(v) for v in S), f"connected to {u}", case)
            # endogenous / exogenous split
            if k % 3 == len(S) % 3 and S:
                m = StructuralCausalModel(build(nodes, edges), endogenous=list(S))
                eq(m.endogenous, S, "endogenous"); eq(m.exogenous, [v for v in nodes if v not in S], "exogenous")
                for v in nodes:
                    eq(m.get_edogenous_parents(v), [u for u in ref.pa[v] if u in S], "endogenous parents")
                    eq(m.get_exogenous_parents(v), [u for u in ref.pa[v] if u not in S], "exogenous parents")
                    eq(m.get_edogenous_children(v), [u for u in ref.ch[v] if u in S], "endogenous children")
                    eq(m.get_exogenous_children(v), [u for u in ref.ch[v] if u not in S], "exogenous children")
                    rec.check(m.is_endogenous(v) == (v in S) and m.is_exogenous(v) == (v not in S), f"kind of {v}", case)
        for n in (1, 2):
            for T in itertools.combinations(nodes, n):
                if spec.get("sets") and mix(T, k) % 12: continue
                for z in subsets([v for v in nodes if v not in T], spec):
                    case = [edges, T, z]; rec.at(case)
                    t = T[0] if n == 1 and (k + len(z)) % 2 else list(T)
                    dsep = {v for v in nodes if v not in T and all(ref.separated(x, v, set(z) - {v}) for x in T)}
                    eq(gu.dsep_nodes(g, t, z if k % 2 else set(z)), dsep, "d-separated")
                    eq(gu.dcon_nodes(g, t, z), set(nodes) - dsep - set(T), "d-connected")
                    rec.check(list(T) == (list(t) if n == 2 else list(T)), "target changed", case)


def run_text(spec, rec):
    from bcause.util import graphutils as gu
    from bcause.models import BayesianNetwork
    from bcause.models.cmodel import StructuralCausalModel
    for k, nodes, edges in pick(spec):
        orders = list(itertools.permutations(nodes)) if spec["n"] <= 3 else [nodes, nodes[::-1], sorted(nodes)]
        for order in orders:
            case = [edges, order]; rec.at(case); rec.state(case)
            g = build(order, edges)
            bn, scm = BayesianNetwork(g), StructuralCausalModel(g)
            written = "".join(f"[{v}" + ("|" + ":".join(a for a, b in edges if b == v) if any(b == v for a, b in edges) else "") + "]" for v in order)
            for name, s in (("dag2str", gu.dag2str(g)), ("network", bn.get_dag_str()), ("causal model", scm.get_dag_str()), ("by hand", written)):
                h = gu.str2dag(s)
                rec.check(set(h.nodes) == set(nodes) and set(h.edges) == set(edges), f"{name}: {s} denotes {list(h.nodes)} {list(h.edges)}", case)
                rec.check(s.count("[") == len(nodes), f"{name}: {s}", case)
                rec.step()
            b2, s2 = BayesianNetwork(written), StructuralCausalModel(written)
            for m in (b2, s2):
                rec.check(set(m.variables) == set(nodes) and set(m.graph.edges) == set(edges), f"model given {written}: {m.variables} {list(m.graph.edges)}", case)
                rec.check(m.variables and set(m.factors) == set(nodes) and all(f is None for f in m.factors.values()), f"model given {written}: factors", case)
                rec.step()
            inner = {b for a, b in edges}
            for m in (scm, s2):
                rec.check(set(m.endogenous) == inner and set(m.exogenous) == set(nodes) - inner, f"endogenous {m.endogenous} of {written}", case)
            E = list(order)[1:] or list(order)
            s3 = StructuralCausalModel(written, endogenous=E)
            rec.check(set(s3.endogenous) == set(E), "given endogenous variables", case)
            rec.trace(); rec.outcome(len(edges))


def run_cycle(spec, rec):
    import networkx as nx
    from bcause.models import BayesianNetwork
    from bcause.models.cmodel import StructuralCausalModel
    n = spec["n"]
    nodes = N5[:n]
    pairs = [(a, b) for a in nodes for b in nodes if a != b or n <= 3]
    for i, bits in enumerate(itertools.product((0, 1), repeat=len(pairs))):
        if i % spec["of"] != spec["part"]: continue
        edges = [p for p, b in zip(pairs, bits) if b]
        rec.state(bits)
        acyclic = is_acyclic(n, [(nodes.index(a), nodes.index(b)) for a, b in edges]) and all(a != b for a, b in edges)
        text = "".join(f"[{v}" + ("|" + ":".join(a for a, b in edges if b == v) if any(b == v for a, b in edges) else "") + "]" for v in nodes)
        for what, mk in (("graph", lambda: build(nodes, edges)), ("text", lambda: text)):
            for cls in (BayesianNetwork, StructuralCausalModel):
                case = [edges, what, cls.__name__]; rec.at(case)
                try: m = cls(mk())
                except ValueError: ok = False
                else: ok = True
                rec.step()
                rec.check(ok == acyclic, f"{'accepted' if ok else 'refused'} {edges} given as {what}", case)
                if ok: rec.check(set(m.graph.edges) == set(edges), "edges", case)
        rec.trace(); rec.outcome(acyclic)
        if n == 3 and all((b, a) in edges for a, b in edges if a != b):
            u = nx.Graph(); u.add_nodes_from(nodes); u.add_edges_from(edges)
            for cls in (BayesianNetwork, StructuralCausalModel):
                try: cls(u)
                except ValueError: pass
                else: rec.fail(f"{cls.__name__} accepted an undirected graph", [edges, "undirected"])


def run(spec, rec):
    {"query": run_query, "text": run_text, "cycle": run_cycle}[spec["kind"]](spec, rec)
    rec.sample(spec)
