"""C25: random factors under every resolution of the random draws (extreme and interior values)."""
import itertools
import numpy as np
from ..mgen import *
from ..draws import Draws
from ..ref import close, same_states
from .. import snap
from .c22 import M, F, compare, D1

TOP = 1 - 2.0 ** -53
G3, G2 = [0.0, .37, TOP], [0.0, .8]
STATES = {"A": [(0, 1), (1, 0), (2, 2)], "X": [2, 0, 1], "X1": [1.5, 0.0, -1.0], "B": ["b1", "b0", "b2"], "Y": [True, False]}
VT = ["numpy", "list", "treedict", None]


def BOUNDS(tier):
    q = tier == "quick"
    return dict(tables="all domains of 1-3 variables with 1-3 states and <=%d cells, all left/right splits, two orders of the right variables, all storage types, zeros allowed or not" % (6 if q else 8),
                draws="every resolution over a grid (0, the largest number below 1, and interior; two values from 7 cells on)",
                functions="all domains with <=%d functions: every function drawn exactly once" % (1000 if q else 7000),
                normalise="all arrays over {0, 1, 2.5} with <=%d cells, all sets of axes" % (6 if q else 8),
                models="4 network and causal models, all sets of variables, in place or not, empty or complete before; all pairs of seeds out of 4")


def doms(maxcells):
    names = ["X", "B", "X1"]
    for n in (1, 2, 3):
        for sz in itertools.product((1, 2, 3), repeat=n):
            if np.prod(sz) <= maxcells: yield {v: STATES[v][:s] for v, s in zip(names, sz)}


def splits(dom):
    vs = list(dom)
    for k in range(len(vs)):
        for r in itertools.combinations(vs, k):
            yield list(r)
            if k > 1: yield list(r)[::-1]


def specs(tier):
    q = tier == "quick"
    out = []
    for i, d in enumerate(doms(6 if q else 8)):
        for z in (True, False): out.append(dict(kind="multi", d=d, zero=z))
        out.append(dict(kind="uniform", d=d))
    for d in doms(9 if q else 12): out.append(dict(kind="function", d=d, cap=1000 if q else 7000))
    for sh in [s for n in (1, 2, 3) for s in itertools.product((1, 2, 3), repeat=n) if np.prod(s) <= (6 if q else 8)]: out.append(dict(kind="norm", shape=sh))
    for w in range(len(MODELS)): out.append(dict(kind="model", w=w, q=q))
    out.append(dict(kind="assign"))
    out.append(dict(kind="seed"))
    return out


def table(f):
    """values of the factor by assignment"""
    d = f.domain
    return {c: float(f.get_value(**dict(zip(d, c)))) for c in itertools.product(*d.values())}


def proper(f, dom, right, rec, case, positive=False):
    left = [v for v in dom if v not in right]
    rec.check(list(f.domain) == list(dom) and all(same_states(list(f.domain[v]), list(dom[v])) for v in dom), f"domain {f.domain}", case)
    rec.check(set(f.left_vars) == set(left) and set(f.right_vars) == set(right), f"signature {f.name}", case)
    t = table(f)
    rec.check(all(np.isfinite(x) and x >= 0 and (x > 0 or not positive) for x in t.values()), f"values {t}", case)
    sums = {}
    for c, x in t.items():
        a = dict(zip(dom, c)); k = tuple(a[v] for v in right)
        sums[k] = sums.get(k, 0) + x
    rec.check(all(close(s, 1.0, 1e-9) for s in sums.values()), f"sums {sums}", case)
    return t


def run_multi(spec, rec):
    from bcause.factors.mulitnomial import random_multinomial
    dom = spec["d"]
    cells = int(np.prod([len(d) for d in dom.values()]))
    seen = set()
    for i, right in enumerate(splits(dom)):
        for vt in VT:
            d0 = {v: list(s) for v, s in dom.items()}; r0 = list(right)
            arg = None if not right and vt == "list" else r0
            dr = Draws(G3 if cells <= 5 else G2, limit=300000)
            n = 0
            for f, p, k in dr.explore(lambda: random_multinomial(d0, arg, vtype=vt, allow_zero=spec["zero"])):
                case = ["multi", dom, right, vt, spec["zero"], n]; rec.at(case)
                t = proper(f, dom, right, rec, case, positive=not spec["zero"])
                if vt: rec.check(f.vtype == vt, f"stored as {f.vtype}", case)
                rec.step(); rec.state(case); n += 1
                seen.add(tuple(round(x, 6) for x in t.values()))
            rec.check(d0 == dom and r0 == right, "arguments changed", case)
            rec.check(not dr.real, "HARNESS: randomness out of control", case)
            rec.trace()
    left_all = max(int(np.prod([len(dom[v]) for v in dom if v not in r])) for r in splits(dom))
    rec.check(left_all == 1 or len(seen) > 1, "the same table whatever the draws", ["multi", dom, "vary"])
    rec.outcome((str(dom), len(seen)))


def run_uniform(spec, rec):
    from bcause.factors.mulitnomial import uniform_multinomial
    dom = spec["d"]
    for right in splits(dom):
        for vt in VT:
            case = ["uniform", dom, right, vt]; rec.at(case)
            f = uniform_multinomial({v: list(s) for v, s in dom.items()}, list(right) or None, vtype=vt)
            t = proper(f, dom, right, rec, case, True)
            n = np.prod([len(dom[v]) for v in dom if v not in right])
            rec.check(all(close(x, 1 / n, 1e-12) for x in t.values()), f"values {t}", case)
            rec.step(); rec.trace(); rec.state(case); rec.outcome(int(n))


def run_function(spec, rec):
    from bcause.factors.mulitnomial import random_deterministic
    dom = spec["d"]
    for right in splits(dom):
        left = [v for v in dom if v not in right]
        nl = int(np.prod([len(dom[v]) for v in left])); nr = int(np.prod([len(dom[v]) for v in right] or [1]))
        total = nl ** nr
        if total > spec["cap"]: rec.note("too many functions"); continue
        for vt in VT[:3] if total < 100 else VT[:1]:
            args = [right] + ([None] if not right else [])
            for arg in args:
                seen = {}
                dr = Draws([.5])
                case = ["function", dom, right, vt, arg]; rec.at(case)
                for f, p, k in dr.explore(lambda: random_deterministic({v: list(s) for v, s in dom.items()}, None if arg is None else list(arg), vtype=vt)):
                    t = proper(f, dom, right, rec, case)
                    rec.check(all(x in (0.0, 1.0) for x in t.values()), f"values {t}", case)
                    seen[tuple(t.values())] = seen.get(tuple(t.values()), 0) + p
                    rec.step()
                rec.check(len(seen) == total, f"{len(seen)} functions drawn out of {total}", case)
                rec.check(all(close(p, 1 / total, 1e-9) for p in seen.values()), "functions not equally likely", case)
                rec.check(not dr.real, "HARNESS: randomness out of control", case)
                rec.trace(); rec.state(case); rec.outcome(total)


def run_norm(spec, rec):
    from bcause.util.arrayutils import normalize_array
    sh = spec["shape"]
    n = int(np.prod(sh))
    axes = [list(a) for k in range(1, len(sh) + 1) for a in itertools.combinations(range(len(sh)), k)]
    for vals in itertools.product((0.0, 1.0, 2.5), repeat=n):
        a = np.array(vals).reshape(sh)
        for ax in axes:
            s = a.sum(axis=tuple(ax), keepdims=True)
            if (s == 0).any(): continue
            case = ["norm", sh, vals, ax]; rec.at(case)
            b = a.copy(); arg = b if n % 2 else b.tolist()
            out = normalize_array(arg, axis=ax)
            rec.check(np.shape(out) == sh and np.allclose(out, a / s, atol=1e-12) and (b == a).all(), f"{out} instead of {a / s}", case)
            rec.step(); rec.state(case)
        rec.trace()
    rec.outcome(sh)


def run_assign(spec, rec):
    """random assignments: one state of each variable as it is in the domain, every combination equally likely"""
    from bcause.util.domainutils import random_assignment
    for names in [c for k in (1, 2) for c in itertools.permutations(STATES, k)]:
        for sz in itertools.product(*[range(1, len(STATES[v]) + 1) for v in names]):
            dom = {v: STATES[v][:s] for v, s in zip(names, sz)}
            for it in [None] + [list(c) for k in range(len(names) + 1) for c in itertools.combinations(names, k)]:
                case = ["assign", dom, it]; rec.at(case)
                seen = {}
                for out, p, k in Draws([.5]).explore(lambda: random_assignment({v: list(s) for v, s in dom.items()}, it)):
                    rows = [out] if it is None else out
                    exp = [()] if it is None else list(itertools.product(*[dom[v] for v in it]))
                    rec.check(len(rows) == len(exp), f"{len(rows)} assignments", case)
                    for r, e in zip(rows, exp):
                        rec.check(list(r) == list(dom) and all(any(s is r[v] or (s == r[v] and isinstance(s, bool) == isinstance(r[v], (bool, np.bool_))) for s in dom[v]) for v in dom), f"{r} is not an assignment of {dom}", case)
                        if it: rec.check(tuple(r[v] for v in it) == e, f"{r} instead of {e} for {it}", case)
                    k = str(rows); seen[k] = seen.get(k, 0) + p
                    rec.step()
                free = [v for v in dom if not it or v not in it] if it is not None else list(dom)
                n = int(np.prod([len(dom[v]) for v in free] or [1])) ** (1 if it is None else len(exp))
                rec.check(len(seen) == n and all(close(p, 1 / n, 1e-9) for p in seen.values()), f"{len(seen)} results instead of {n}", case)
                rec.trace(); rec.state(case)
    rec.outcome("done")


S = {"X": [0, 1], "Y": ["y0", "y1"], "U": [0, 1], "V": ["a", "b"]}
S3 = {"X": [True, False], "Y": ["y0", "y1", "y2"], "U": [1], "V": ["a"]}
MODELS = [
    (M(["X", "Y"], [("X", "Y")]), S, "B"),
    (M(["V", "Y", "X"], [("X", "Y")]), S3, "B"),
    (M(["U", "X"], [("U", "X")], endo=["X"]), S, "S"),
    (M(["Y", "U", "X", "V"], [("U", "X"), ("V", "Y"), ("X", "Y")], endo=["X", "Y"]), S, "S"),
    (M(["X", "U", "Y", "V"], [("U", "X"), ("V", "Y"), ("U", "Y")], endo=["X", "Y"], cast=False), S3, "S"),
    (M(["X", "Y"], [("X", "Y")], endo=["X", "Y"]), S, "S"),
]


def complete(ref, dom):
    ref = ref.copy(); real = ref.build_empty()
    for v in ref.nodes:
        endo = ref.endo is not None and v in ref.endo
        ref.f[v] = F(v, ref.pa(v), dom, "fun" if endo else "prob")
        real.set_factor(v, ref.f[v].build(1))
    return ref, real


def run_model(spec, rec):
    base, dom, kind = MODELS[spec["w"]]
    given = {v: list(dom[v]) for v in ["Y", "V", "X", "U"]}                     # more variables than the model has, another order

    def settle(ref, real, touched, det, positive, case):
        """every touched factor is proper over the given domains, the others are as they were"""
        ref2 = ref.copy()
        for v in touched:
            f = real.factors[v]
            rec.check(f is not None and set(f.domain) == set(ref.pa(v)) | {v} and all(same_states(list(f.domain[x]), list(dom[x])) for x in f.domain), f"factor of {v}: {f}", case)
            t = proper(f, {x: list(s) for x, s in f.domain.items()}, [x for x in f.domain if x != v], rec, case, positive)
            if det: rec.check(all(x in (0.0, 1.0) for x in t.values()), f"{v} is not a function: {t}", case)
            g = F(v, ref.pa(v), dom, "table" if det else "prob"); ref2.f[v] = g.from_real(f); ref2.f[v].kind = "table" if det else "prob"
        compare(rec, real, ref2, case, "filled")

    def explore(mk, fn, cells, name):
        n = 0
        dr = Draws(G3 if cells <= 4 else G2, limit=100000)

        def once():
            ref, real = mk()
            out = fn(real)
            return ref, real, out
        for (ref, real, out), p, k in dr.explore(once):
            case = ["model", spec["w"], name, n]; rec.at(case); n += 1
            rec.step(); rec.state(case)
            yield case, ref, real, out
        rec.check(not dr.real, "HARNESS: randomness out of control", case)
        rec.trace(); rec.outcome((name[0], n))

    empty = lambda: (base.copy(), base.build_empty())
    full = lambda: complete(base, dom)
    size = lambda v: int(np.prod([len(dom[x]) for x in base.pa(v) + [v]]))
    for mk, start in ((empty, "empty"), (full, "complete")):
        if kind == "B":
            for case, ref, real, out in explore(mk, lambda m: m.randomize_factors({v: list(d) for v, d in given.items()}), sum(map(size, base.nodes)), ["randomise", start]):
                settle(ref, real, base.nodes, False, False, case)
            continue
        ex = [v for v in base.nodes if v not in base.endo]
        for what, vs in (("fill_random_equations", base.endo), ("fill_random_marginals", ex), ("fill_random_factors", base.nodes)):
            for case, ref, real, out in explore(mk, lambda m: getattr(m, what)({v: list(d) for v, d in given.items()}), 8, [what, start]):
                r2 = ref.copy()
                # equations are functions, marginals distributions
                for v in vs:
                    f = real.factors[v]
                    rec.check(f is not None and set(f.left_vars) == {v} and set(f.right_vars) == set(base.pa(v)) and all(same_states(list(f.domain[x]), list(dom[x])) for x in f.domain), f"factor of {v}: {f}", case)
                    t = proper(f, {x: list(s) for x, s in f.domain.items()}, [x for x in f.domain if x != v], rec, case)
                    if v in base.endo: rec.check(all(x in (0.0, 1.0) for x in t.values()), f"{v} is not a function: {t}", case)
                    r2.f[v] = F(v, base.pa(v), dom, "table").from_real(f); r2.f[v].kind = "table" if v in base.endo else "prob"
                compare(rec, real, r2, case, what)
        if start == "complete":
            for k in range(len(ex) + 1):
                for vs in itertools.combinations(ex, k):
                    for place in (True, False):
                        for zero in (True, False):
                            for case, ref, real, out in explore(mk, lambda m: m.randomize_factors(list(vs), in_place=place, allow_zero=zero), sum(map(size, vs)), ["randomise", vs, place, zero]):
                                rec.check((out is real) == place, "in place or copy", case)
                                settle(ref, out, vs, False, not zero, case)
                                if not place: compare(rec, real, ref, case, "the original")


def run_seed(spec, rec):
    """equal seeds give equal factors and models; the generators actually use the seeded source"""
    import bcause as bc
    from bcause.factors.mulitnomial import random_multinomial, random_deterministic
    base, dom, kind = MODELS[3]

    def everything(s):
        bc.randomUtil.seed(s)
        m = base.build_empty(); m.fill_random_factors({v: list(d) for v, d in dom.items()})
        m2 = m.randomize_factors(["U", "V"])
        d = {"A": [0, 1, 2], "B": ["x", "y"]}
        return (repr([table(f) for f in m.factors.values()]), repr([table(f) for f in m2.factors.values()]), repr(table(random_multinomial(d, ["B"]))), repr(table(random_deterministic(d, ["B"]))), repr(m.sample(5).to_dict("records")))
    for a, b in itertools.product((0, 1, 7, 2 ** 32 - 1), repeat=2):
        case = ["seed", a, b]; rec.at(case); rec.state(case)
        x, _, y = everything(a), everything(b), everything(a)
        rec.check(x == y, f"different results with seed {a}", case)
        rec.step(); rec.trace(); rec.outcome(a)


def run(spec, rec):
    {"multi": run_multi, "uniform": run_uniform, "function": run_function, "norm": run_norm, "model": run_model, "assign": run_assign, "seed": run_seed}[spec["kind"]](spec, rec)
    rec.sample({k: v for k, v in spec.items() if k != "d"})
