"""C22: sequences of factor setting and of derivations of models (copy, rename, intervene, submodel, randomise), every model of the
pool compared with its reference after every operation."""
import itertools
import numpy as np
from ..mgen import *
from ..ref import Table, close, same_states
from .. import snap


def BOUNDS(tier):
    q = tier == "quick"
    return dict(setting="all sequences of <=%d factors out of 14-18 (right and wrong) on 4 models (network and causal, cast or not), from empty" % (3 if q else 4),
                deriving="all sequences of <=%d operations (set, copy, rename (total, partial, swap), intervention, submodel, randomise in place or not, multinomial) on a pool of up to 3 models, 5 starting models" % (2 if q else 3),
                wide="3 models with 6-9 variables: every derivation (also renaming many variables, intervening on several), pairs of derivations thinned by a fixed hash, then a change",
                batches="all orders of giving the factors at once, as list or dictionary, with one wrong factor", incomplete="every subset of factors missing")


def specs(tier):
    q = tier == "quick"
    out = []
    for w in range(len(WORLDS)):
        for first in range(len(alphabet(w))): out.append(dict(kind="set", w=w, first=first, depth=3 if q else 4))
        out.append(dict(kind="batch", w=w)); out.append(dict(kind="incomplete", w=w))
    for w in range(len(WORLDS)):
        for first in range(24): out.append(dict(kind="derive", w=w, first=first, depth=2 if q else 3))
    for w in range(len(WIDE_WORLDS)):
        for part in range(6): out.append(dict(kind="wide", w=w, part=part, thin=3 if q else 1))
    return out


# ---------------------------------------------------------------- descriptions of factors, models

class F:
    """a factor: what it is and how to build it"""

    def __init__(self, left, right, dom, kind, salt=0, wrong=None):
        self.left, self.right, self.dom, self.kind, self.salt, self.wrong = left, list(right), dom, kind, salt, wrong
        vs = self.right + [left]
        self.vars = vs
        n = len(dom[left])
        self.val = {}
        for k, c in enumerate(itertools.product(*[dom[p] for p in self.right])):
            j = mix(left, k, salt) % n
            w = weights(n, k + salt + 1)
            for i, s in enumerate(dom[left]):
                self.val[frozenset({**dict(zip(self.right, c)), left: s}.items())] = w[i] if kind == "prob" else float(i == j)

    def at(self, a):
        return self.val[frozenset((v, a[v]) for v in self.vars)]

    def build(self, layout=0):
        from bcause.factors import MultinomialFactor, DeterministicFactor
        order = self.vars if layout % 2 == 0 else [self.left] + self.right[::-1]
        dom = {v: list(self.dom[v]) for v in order}
        if self.kind == "fun":
            r = [v for v in order if v != self.left]
            vals = [[s for s in dom[self.left] if self.at({**dict(zip(r, c)), self.left: s}) == 1.0][0] for c in itertools.product(*[dom[v] for v in r])]
            return DeterministicFactor(dom, values=vals, left_vars=[self.left])
        return MultinomialFactor(dom, values=[self.at(dict(zip(order, c))) for c in itertools.product(*dom.values())], left_vars=[self.left])

    def renamed(self, m):
        g = lambda v: m.get(v, v)
        f = F.__new__(F)
        f.left, f.right, f.kind, f.salt, f.wrong = g(self.left), [g(v) for v in self.right], self.kind, self.salt, None
        f.dom = {g(v): d for v, d in self.dom.items()}
        f.vars = f.right + [f.left]
        f.val = {frozenset((g(v), s) for v, s in k): x for k, x in self.val.items()}
        return f

    def constant(self, state):
        f = F(self.left, [], {self.left: self.dom[self.left]}, self.kind if self.kind != "prob" else "table")
        f.val = {frozenset({(self.left, s)}): float(s == state) for s in self.dom[self.left]}
        return f

    def from_real(self, real):
        """same shape, values as found"""
        f = F(self.left, self.right, self.dom, "prob")
        for a in itertools.product(*[self.dom[v] for v in self.vars]):
            d = dict(zip(self.vars, a)); f.val[frozenset(d.items())] = float(real.get_value(**d))
        return f


class M:
    """reference model"""

    def __init__(self, nodes, edges, endo=None, cast=True):
        self.nodes, self.edges, self.endo, self.cast = list(nodes), [tuple(e) for e in edges], endo, cast
        self.f = {v: None for v in nodes}

    def copy(self):
        m = M(self.nodes, self.edges, self.endo, self.cast)
        m.f = dict(self.f)
        return m

    def pa(self, v):
        return [a for a, b in self.edges if b == v]

    def accepts(self, v, f):
        if not isinstance(f, F): return False
        if f.left != v or set(f.right) != set(self.pa(v)): return False
        if self.endo is not None and v in self.endo and f.kind == "prob" and any(x not in (0, 1) for x in f.val.values()): return False
        for g in self.f.values():
            if g is not None:
                for x in f.vars:
                    if x in g.vars and set(g.dom[x]) != set(f.dom[x]): return False
        return True

    def build_empty(self):
        import networkx as nx
        from bcause.models import BayesianNetwork
        from bcause.models.cmodel import StructuralCausalModel
        g = nx.DiGraph(); g.add_nodes_from(self.nodes); g.add_edges_from(self.edges)
        if self.endo is None: return BayesianNetwork(g)
        return StructuralCausalModel(g, endogenous=list(self.endo), cast_multinomial=self.cast)


def compare(rec, real, ref, case, what):
    from bcause.factors import DeterministicFactor
    rec.check(set(real.graph.nodes) == set(ref.nodes) and set(real.variables) == set(ref.nodes), f"{what}: variables {real.variables} instead of {ref.nodes}", case)
    rec.check(set(real.graph.edges) == set(ref.edges), f"{what}: edges {list(real.graph.edges)} instead of {ref.edges}", case)
    if ref.endo is not None:
        rec.check(sorted(real.endogenous) == sorted(ref.endo), f"{what}: endogenous {real.endogenous} instead of {ref.endo}", case)
        rec.check(sorted(real.exogenous) == sorted(set(ref.nodes) - set(ref.endo)), f"{what}: exogenous {real.exogenous}", case)
    rec.check(set(real.factors) == set(ref.nodes), f"{what}: factors for {list(real.factors)}", case)
    for v in ref.nodes:
        rf, f = real.factors[v], ref.f[v]
        d = real.get_domains([v]).get(v)
        if f is None:
            rec.check(rf is None, f"{what}: {v} has factor {rf} and none was set", case)
            continue
        rec.check(rf is not None, f"{what}: the factor of {v} was lost", case)
        rec.check(list(rf.left_vars) == [v] and set(rf.right_vars) == set(f.right), f"{what}: factor of {v} is {rf.name}", case)
        rec.check(d is not None and same_states(list(d), list(f.dom[v])), f"{what}: domain of {v}: {d} instead of {f.dom[v]}", case)
        for x in f.vars: rec.check(same_states(list(rf.domain[x]), list(f.dom[x])), f"{what}: states of {x} in the factor of {v}: {rf.domain[x]}", case)
        fun = isinstance(rf, DeterministicFactor)
        if f.kind == "fun" and ref.endo is not None and v in ref.endo: rec.check(fun == (not ref.cast), f"{what}: the factor of {v} is a {type(rf).__name__}", case)
        for c in itertools.product(*[f.dom[x] for x in f.vars]):
            a = dict(zip(f.vars, c))
            got = float(rf.eval(**a)) if fun else float(rf.get_value(**a))
            rec.check(close(got, f.at(a), 1e-12), f"{what}: {rf.name} at {a} is {got} instead of {f.at(a)}", case)


# ---------------------------------------------------------------- the worlds explored

D1 = {"X": [0, 1], "Y": ["y0", "y1"], "U": [0, 1, 2], "V": ["a", "b"]}
D2 = {"X": [0, 1, 2], "Y": ["y0", "y1", "y2"], "U": [0, 1], "V": ["a", "b", "c"]}
WORLDS = [
    M(["X", "Y"], [("X", "Y")]),
    M(["X", "Y", "V"], [("X", "Y"), ("V", "Y")]),
    M(["U", "X", "Y"], [("U", "X"), ("X", "Y")], endo=["X", "Y"], cast=True),
    M(["Y", "U", "X"], [("U", "X"), ("X", "Y"), ("U", "Y")], endo=["X", "Y"], cast=False),
]


def alphabet(w):
    """(variable, factor) to set: right ones, and wrong in one way each"""
    m = WORLDS[w]
    out = []
    for v in m.nodes:
        pa = m.pa(v)
        endo = m.endo is not None and v in m.endo
        good = "fun" if endo else "prob"
        out.append((v, F(v, pa, D1, good)))
        out.append((v, F(v, pa, D1, "table" if endo else "prob", salt=3)))
        out.append((v, F(v, pa, {**D1, v: D2[v]}, good)))                                   # its own domain differs
        if pa: out.append((v, F(v, pa, {**D1, pa[0]: D2[pa[0]]}, good)))                    # a parent's domain differs
        if endo: out.append((v, F(v, pa, D1, "prob", wrong="not deterministic")))
        out.append((v, F(v, pa[1:] if pa else [u for u in m.nodes if u != v][:1], D1, good)))   # a parent missing or too many
    x, y = m.nodes[0], m.nodes[1]
    out.append((y, F(x, m.pa(x), D1, "table")))                                             # a factor of another variable
    rev = {v: d[::-1] for v, d in D1.items()}
    out.append((y, F(y, m.pa(y), rev, "table" if m.endo else "prob", salt=1)))              # states in another order
    out.append((x, "not a factor"))
    out.append((m.nodes[-1], None))
    return out


def try_set(real, v, f, layout):
    try:
        real.set_factor(v, f.build(layout) if isinstance(f, F) else f)
        return True
    except ValueError:
        return False


def run_set(spec, rec):
    A = alphabet(spec["w"])
    base = WORLDS[spec["w"]]
    for n in range(spec["depth"]):
        for rest in itertools.product(range(len(A)), repeat=n):
            seq = (spec["first"],) + rest
            case = ["set", spec["w"], seq]
            rec.at(case); rec.state(case)
            ref = base.copy(); real = base.build_empty()
            for k, j in enumerate(seq):
                v, f = A[j]
                ok = ref.accepts(v, f)
                got = try_set(real, v, f, k + spec["w"])
                rec.step()
                rec.check(got == ok, f"setting {v} to {describe(f)} was {'accepted' if got else 'rejected'} after {[describe(A[i][1]) for i in seq[:k]]}", case)
                if ok: ref.f[v] = f
                if k == len(seq) - 1: compare(rec, real, ref, case, "after " + ("setting" if ok else "a rejected factor"))
            rec.trace(); rec.outcome((spec["w"], tuple(str(describe(ref.f[v])) for v in ref.nodes)))


def describe(f):
    if not isinstance(f, F): return repr(f)
    return f"{f.kind}{f.salt} {f.left}|{f.right} { {v: f.dom[v] for v in f.vars} }"


def run_batch(spec, rec):
    """factors given to the constructor, as list or dict, in every order, all right or one wrong"""
    import networkx as nx
    from bcause.models import BayesianNetwork
    from bcause.models.cmodel import StructuralCausalModel
    base = WORLDS[spec["w"]]
    A = alphabet(spec["w"])
    good = {v: f for v, f in reversed(A) if isinstance(f, F) and f.left == v and base.accepts(v, f) and f.dom == D1}
    for perm in itertools.permutations(base.nodes):
        for j in range(-1, len(A)):
            fs = dict(good)
            if j >= 0:
                if not isinstance(A[j][1], F): continue
                fs[A[j][0]] = A[j][1]
            for as_list in (False, True):
                case = ["batch", spec["w"], perm, j, as_list]
                rec.at(case); rec.state(case)
                ref = base.copy(); ok = True
                for v in perm:
                    t = fs[v].left if as_list else v
                    if not ref.accepts(t, fs[v]): ok = False; break
                    ref.f[t] = fs[v]
                real0 = base.build_empty()
                arg = [fs[v].build() for v in perm] if as_list else {v: fs[v].build() for v in perm}
                try:
                    if base.endo is None: real = BayesianNetwork(real0.graph, arg)
                    else: real = StructuralCausalModel(real0.graph, arg, endogenous=list(base.endo), cast_multinomial=base.cast)
                except ValueError:
                    rec.check(not ok, f"rejected {[describe(fs[v]) for v in perm]}", case)
                else:
                    rec.check(ok, f"accepted {[describe(fs[v]) for v in perm]}", case)
                    compare(rec, real, ref, case, "built")
                rec.step(); rec.trace()


def derivations(ref):
    """(name, apply to reference, apply to real); reference application returns (new model or None, in place?)"""
    n0, n1 = ref.nodes[0], ref.nodes[-1]
    out = []
    out.append(("copy", lambda r: r.copy(), lambda m: m.copy()))
    maps = [{v: v + "_1" for v in ref.nodes}, {n0: "Q"}, {}]
    if n0 != n1: maps.append({n0: n1, n1: n0})
    if len(ref.nodes) > 2: maps.append({ref.nodes[2]: "X_9"})

    def ren(mp):
        def go(r):
            g = lambda v: mp.get(v, v)
            m = M([g(v) for v in r.nodes], [(g(a), g(b)) for a, b in r.edges], None if r.endo is None else [g(v) for v in r.endo], r.cast)
            m.f = {g(v): (f.renamed(mp) if f is not None else None) for v, f in r.f.items()}
            return m
        return go
    maps = [mp for mp in maps if len({mp.get(v, v) for v in ref.nodes}) == len(ref.nodes)]   # names stay different
    for mp in maps: out.append((f"rename {mp}", ren(mp), lambda m, mp=mp: m.rename_vars(dict(mp))))
    if ref.endo is not None:
        for v in ref.endo:
            if ref.f[v] is None: continue
            s = list(ref.f[v].dom[v])[-1]

            def inter(r, v=v, s=s):
                m = M(r.nodes, [e for e in r.edges if e[1] != v], r.endo, r.cast)
                m.f = dict(r.f); m.f[v] = r.f[v].constant(s)
                return m
            out.append((f"intervene {v}={s}", inter, lambda m, v=v, s=s: m.intervention(**{v: s})))

        def multi(r):
            m = r.copy(); m.cast = True
            return m
        out.append(("multinomial", multi, lambda m: m.to_multinomial()))
    for k in range(1, len(ref.nodes) + 1):
        for sub in itertools.combinations(ref.nodes, k):
            if any(a not in sub for a, b in ref.edges if b in sub): continue

            def subm(r, sub=sub):
                m = M([v for v in r.nodes if v in sub], [e for e in r.edges if e[1] in sub], None if r.endo is None else [v for v in r.endo if v in sub], r.cast)
                m.f = {v: r.f[v] for v in m.nodes}
                return m
            out.append((f"submodel {sub}", subm, lambda m, sub=sub: m.submodel(list(sub))))
    return out


def run_derive(spec, rec):
    w = spec["w"]
    base = WORLDS[w]

    def fresh():
        ref = base.copy()
        for v in base.nodes:
            endo = base.endo is not None and v in base.endo
            ref.f[v] = F(v, base.pa(v), D1, "fun" if endo else "prob")
        real = base.build_empty()
        for k, v in enumerate(reversed(base.nodes)): real.set_factor(v, ref.f[v].build(k))
        return real, ref

    def moves(pool):
        out = []
        for i, (real, ref) in enumerate(pool):
            for d in derivations(ref): out.append((i, "derive") + d)
            for v in ref.nodes:
                out.append((i, "set", v))
            out.append((i, "set wrong", ref.nodes[-1]))
            if ref.endo is not None:
                for place in (False, True): out.append((i, "randomise", place))
        return out

    def apply(pool, mv, case):
        i, what = mv[0], mv[1]
        real, ref = pool[i]
        if what == "derive":
            new = mv[4](real)
            rec.check(new is not real, f"{mv[2]} returned the model itself", case)
            return pool + [(new, mv[3](ref))]
        if what == "set":
            v = mv[2]
            f0 = ref.f[v]
            f = F(v, f0.right, f0.dom, "prob" if f0.kind == "prob" else "table", salt=5 + i)
            real.set_factor(v, f.build(1))
            ref2 = ref.copy(); ref2.f[v] = f
            return pool[:i] + [(real, ref2)] + pool[i + 1:]
        if what == "set wrong":
            v = mv[2]
            f0 = ref.f[v]
            rec.check(not try_set(real, v, F(v, f0.right, {**f0.dom, v: list(f0.dom[v]) + ["extra"]}, f0.kind), 0), f"a factor for {v} with another domain was accepted", case)
            return pool
        ex = [v for v in ref.nodes if v not in ref.endo]
        out = real.randomize_factors(ex, in_place=mv[2], allow_zero=False)
        ref2 = ref.copy()
        for v in ex:
            ref2.f[v] = ref.f[v].from_real(out.factors[v])
            rec.check(set(ref2.f[v].val.values()) != set(ref.f[v].val.values()), f"{v} was not randomised", case)
        if mv[2]:
            rec.check(out is real, "randomising in place returned another model", case)
            return pool[:i] + [(real, ref2)] + pool[i + 1:]
        rec.check(out is not real, "randomising a copy returned the model itself", case)
        return pool + [(out, ref2)]

    first = moves([fresh()])
    for k, mv in enumerate(first):
        if k % 24 != spec["first"]: continue

        def rec_explore(prefix):
            # re-executed from the start for every sequence
            np.random.seed(len(prefix))
            pool = [fresh()]
            names = []
            for j in prefix:
                ms = moves(pool)
                names.append([str(x) for x in ms[j][:3]])
                case = ["derive", w, names]
                rec.at(case)
                pool = apply(pool, ms[j], case)
                rec.step()
            rec.state((w, tuple(prefix)))
            for i, (real, ref) in enumerate(pool): compare(rec, real, ref, case, f"model {i}")
            rec.trace(); rec.outcome((w, str(names[-1]), len(pool)))
            if len(prefix) < spec["depth"]:
                nxt = moves(pool)
                for j in range(len(nxt)):
                    rec_explore(prefix + [j])
        rec_explore([k])


D3 = {"X": [0, 1], "X1": ["b", "a", "c"], "Y": [True, False], "A": [2, 7], "X11": ["s10", "s2", "s1"], "B": [0, 1], "U": [0, 1, 2], "U1": ["u", "v"], "V": [5, 3, 4, 1]}
WIDE_WORLDS = [
    M(["A", "X", "X11", "B", "Y", "X1"], [("X", "Y"), ("A", "Y"), ("Y", "X1"), ("X11", "X1"), ("B", "X11"), ("X", "X11")]),
    M(["V", "X11", "Y", "U", "X", "B", "X1", "U1", "A"], [("X", "X1"), ("X1", "Y"), ("A", "Y"), ("Y", "B"), ("X", "B"), ("U", "X"), ("U", "Y"), ("U1", "A"), ("U1", "X11"), ("V", "X1"), ("B", "X11")],
      endo=["X11", "X", "Y", "B", "X1", "A"], cast=True),
    M(["X", "X1", "Y", "A", "U", "U1", "V"], [("X1", "X"), ("Y", "X"), ("A", "Y"), ("U", "X"), ("U", "A"), ("U1", "Y"), ("V", "X1")], endo=["X", "X1", "Y", "A"], cast=False),
]


def more_derivations(ref):
    """renamings of many variables at once, interventions on several"""
    out = []
    V = ref.nodes
    for mp in ({v: V[(i + 1) % len(V)] for i, v in enumerate(V)}, {V[0]: V[2], V[2]: V[4], V[4]: V[0]}, {V[1]: "Q1", V[3]: V[1]}, {V[-1]: V[0] + "w", V[0]: V[-1]}, {v: v[::-1] + "." for v in V}):
        if len({mp.get(v, v) for v in V}) < len(V): continue
        def ren(r, mp=mp):
            g = lambda v: mp.get(v, v)
            m = M([g(v) for v in r.nodes], [(g(a), g(b)) for a, b in r.edges], None if r.endo is None else [g(v) for v in r.endo], r.cast)
            m.f = {g(v): f.renamed(mp) for v, f in r.f.items()}
            return m
        out.append((f"rename {mp}", ren, lambda m, mp=mp: m.rename_vars(dict(mp))))
    if ref.endo is not None:
        E = list(ref.endo)
        for vs in list(itertools.combinations(E, 2)) + [tuple(E[::-1][:3]), tuple(E), tuple(E[:-1])]:
            if len(vs) < 2: continue
            a = {v: list(ref.f[v].dom[v])[i % len(ref.f[v].dom[v])] for i, v in enumerate(vs)}

            def inter(r, a=a):
                m = M(r.nodes, [e for e in r.edges if e[1] not in a], r.endo, r.cast)
                m.f = {v: f.constant(a[v]) if v in a else f for v, f in r.f.items()}
                return m
            out.append((f"intervene {a}", inter, lambda m, a=a: m.intervention(**a)))
    return out


def run_wide(spec, rec):
    """models with 6-9 variables: one derivation, and pairs of them thinned by a fixed hash; then a change of one model"""
    w = spec["w"]
    base = WIDE_WORLDS[w]

    def fresh():
        ref = base.copy()
        for v in base.nodes: ref.f[v] = F(v, base.pa(v), D3, "fun" if base.endo is not None and v in base.endo else "prob")
        real = base.build_empty()
        for k, v in enumerate(reversed(base.nodes)): real.set_factor(v, ref.f[v].build(k))
        return real, ref

    def moves(ref):
        return [d for k, d in enumerate(derivations(ref)) if not d[0].startswith("submodel") or mix(("c22", d[0])) % 6 == 0] + (more_derivations(ref) if len(ref.nodes) > 4 else [])

    real, ref = fresh()
    for i, d in enumerate(moves(ref)):
        if i % 6 != spec["part"]: continue
        case = ["wide", w, d[0]]
        rec.at(case); rec.state(case); rec.step(); rec.trace()
        real2, ref2 = d[2](real), d[1](ref)
        compare(rec, real2, ref2, case, d[0]); compare(rec, real, ref, case, "original")
        rec.outcome((w, d[0]))
        for j, e in enumerate(moves(ref2)):
            if mix(("c22", w, i, j)) % spec["thin"]: continue
            case = ["wide", w, d[0], e[0]]
            rec.at(case); rec.state(case); rec.step(); rec.trace()
            real3, ref3 = e[2](real2), e[1](ref2)
            compare(rec, real3, ref3, case, e[0])
            # a change of the last one shows nowhere else
            v = ref3.nodes[(i + j) % len(ref3.nodes)]
            f0 = ref3.f[v]
            f = F(v, f0.right, f0.dom, "prob" if f0.kind == "prob" else "table", salt=7)
            real3.set_factor(v, f.build(j)); ref3.f[v] = f
            compare(rec, real3, ref3, case, "after setting a factor")
            compare(rec, real2, ref2, case, "the model derived from"); compare(rec, real, ref, case, "original")


def run_incomplete(spec, rec):
    """derived versions of models where some factors are not set"""
    base = WORLDS[spec["w"]]
    for bits in itertools.product((0, 1), repeat=len(base.nodes)):
        ref = base.copy()
        real = base.build_empty()
        for v, b in zip(base.nodes, bits):
            if b:
                ref.f[v] = F(v, base.pa(v), D1, "fun" if base.endo is not None and v in base.endo else "prob")
                real.set_factor(v, ref.f[v].build())
        for d in derivations(ref):
            case = ["incomplete", spec["w"], bits, d[0]]
            rec.at(case); rec.state(case)
            compare(rec, d[2](real), d[1](ref), case, d[0])
            compare(rec, real, ref, case, "original")
            rec.step(); rec.trace()


def run(spec, rec):
    {"set": run_set, "derive": run_derive, "batch": run_batch, "incomplete": run_incomplete, "wide": run_wide}[spec["kind"]](spec, rec)
    rec.sample(spec)
