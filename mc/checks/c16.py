"""C16: expectation maximisation on the exogenous variables, step by step, against exact EM computed by enumeration; histories of runs and steps."""
import itertools, math
import numpy as np
from ..mgen import *
from .c15 import multisets, simplex
from .. import snap

DOMS = [{"X": [0, 1], "Y": [0, 1], "Z": [0, 1], "A": [0, 1], "B": [1, 0]}, {"X": ["x1", "x0"], "Y": [1, 0], "Z": ["a", "b"], "A": [True, False], "B": ["b1", "b0"]},
        {"X": [0, 1], "Y": ["p", "q", "r"], "Z": [1, 0], "A": ["u", "v"], "B": [0, 1]}]


def BOUNDS(tier):
    q = tier == "quick"
    return dict(models="all graphs with 1-2 endogenous variables and <=2 exogenous child sets; 3 endogenous: %s; variables without exogenous parents and childless exogenous ones" % ("every 9th" if q else "all") + "; %d models with 4-5 endogenous variables, exogenous ones with up to 5 children" % len(WIDE),
                data="all multisets of <=%d rows that the prior can produce" % (3 if q else 4), large_data="%d data sets of up to ~50 rows with repetitions, on 4 + %d models" % (6 if q else 12, len(WIDE)), priors="grid of interior, uniform and boundary points per exogenous variable",
                steps="1-%d, and runs to convergence" % (4 if q else 8), histories="all sequences of <=3 run/step operations on two data sets")


def specs(tier):
    q = tier == "quick"
    out = []
    for n in (1, 2):
        for k, (e, h) in enumerate(scm_structs(n, 2)):
            if h:
                for part in range(2): out.append(dict(kind="grid", n=n, e=e, h=h, i=k, rows=3 if q else 4, iters=4 if q else 8, part=part))
    for k, (e, h) in enumerate(scm_structs(3, 2)):
        if not h or (q and k % 9): continue
        out.append(dict(kind="grid", n=3, e=e, h=h, i=k, rows=2, iters=3 if q else 5, part=None))
    S = [([(0, 1)], [[0], [1]]), ([(0, 1)], [[0, 1]]), ([(0, 1)], [[0], [0, 1]]), ([], [[0, 1], [1]])]
    for k, (e, h) in enumerate(S):
        for a in range(6): out.append(dict(kind="hist", n=2, e=e, h=h, i=k, first=a))
    for k, (e, h) in enumerate(S): out.append(dict(kind="conv", n=2, e=e, h=h, i=k))
    for k in range(4): out.append(dict(kind="xor", k=k))
    for k, (n, e, h) in enumerate(WIDE): out.append(dict(kind="grid", n=n, e=e, h=h, i=k, rows=2 if q else 3, iters=2, part=None, every=3 if q else 2))
    for k, (e, h) in enumerate(S): out += [dict(kind="many", n=2, e=e, h=h, i=k, j=j) for j in range(6 if q else 12)]
    for k, (n, e, h) in enumerate(WIDE): out += [dict(kind="many", n=n, e=e, h=h, i=k, j=j, every=1) for j in range(3 if q else 8)]
    return out


def base_ref(spec):
    n = spec["n"]
    names = ["X", "Y", "Z", "A", "B"][:n]
    if "every" in spec: return onehot_scm(names, spec["e"], spec["h"], {v: DOMS[spec["i"] % 3][v] for v in names}, salt=spec["i"])
    return make_scm(names, spec["e"], spec["h"], {v: DOMS[spec["i"] % 3][v] for v in names}, salt=spec["i"],
                    exo_card=[2 + (spec["i"] + j) % 2 + (1 if len(h) > 1 else 0) for j, h in enumerate(spec["h"])])


class Exact:
    """exact EM over the exogenous distributions"""

    def __init__(self, ref):
        self.ref = ref
        self.names = ref.endo
        self.sol = []
        for k in itertools.product(*[range(len(ref.dom[u])) for u in ref.exo]):
            a = ref.solve({u: ref.dom[u][i] for u, i in zip(ref.exo, k)})
            self.sol.append((k, tuple(a[v] for v in self.names)))

    def joint(self, pr, row):
        out = []
        for k, r in self.sol:
            if r == row:
                p = 1.0
                for u, i in zip(self.ref.exo, k): p *= pr[u][i]
                out.append((k, p))
        return out

    def like(self, pr, row):
        return sum(p for _, p in self.joint(pr, row))

    def ll(self, pr, rows):
        return sum(math.log(self.like(pr, r)) for r in rows)

    def step(self, pr, rows, train):
        new = {u: list(p) for u, p in pr.items()}
        for u in train:
            j = self.ref.exo.index(u)
            acc = [0.0] * len(pr[u])
            for r in rows:
                js = self.joint(pr, r); t = sum(p for _, p in js)
                for k, p in js: acc[k[j]] += p / t
            new[u] = [a / len(rows) for a in acc]
        return new


def probs(m, ref):
    out = {}
    for u in ref.exo:
        f = m.factors[u]
        out[u] = [float(f.get_value(**{u: s})) for s in ref.dom[u]]
    return out


def same(a, b, tol=1e-8):
    return all(len(a[u]) == len(b[u]) and all(abs(x - y) <= tol for x, y in zip(a[u], b[u])) for u in b)


def others(m, ref, train):
    return tuple((v, snap.factor(m.factors[v])) for v in ref.endo + ref.exo if v not in train), tuple(m.graph.nodes), tuple(sorted(m.graph.edges)), tuple(m.endogenous)


def frame(rows, cols, k):
    import pandas as pd
    df = pd.DataFrame([dict(zip(cols, r)) for r in rows], columns=cols if k % 2 else list(reversed(cols)))
    if k % 3 == 1: df.index = [7 * i + 1 for i in range(len(df))]
    return df


def check_run(rec, em, ex, ref, prior_m, pr0, rows, train, max_iter, case, n_prev=0):
    """the evolution recorded by one run, against exact EM"""
    ev = em.model_evolution
    rec.check(1 <= len(ev) <= 1 + max_iter if max_iter < 1e9 else len(ev) >= 1, f"{len(ev)} models recorded for max_iter={max_iter}", case)
    rec.check(same(probs(ev[0], ref), pr0, 1e-12), "the evolution does not start at the prior", case)
    oth = others(prior_m, ref, train)
    cur, ll = pr0, ex.ll(pr0, rows)
    for j, m in enumerate(ev[1:]):
        want = ex.step(cur, rows, train)
        got = probs(m, ref)
        rec.check(same(got, want), f"step {j + 1}: {got} instead of {want}", case)
        rec.check(others(m, ref, train) == oth, f"step {j + 1} changed something that is not trainable", case)
        for u in ref.exo: rec.check(min(got[u]) >= 0 and abs(sum(got[u]) - 1) < 1e-9, f"step {j + 1}: {u} is not a distribution: {got[u]}", case)
        l2 = ex.ll(got, rows)
        rec.check(l2 >= ll - 1e-9, f"step {j + 1}: log-likelihood went from {ll} to {l2}", case)
        if j == len(ev) - 2 and len(ev) - 1 < max_iter:
            rec.check(same(cur, want, 1e-6), f"stopped after {j + 1} steps without having converged", case)
        cur, ll = got, l2
        rec.step()
    rec.check(same(probs(em.model, ref), cur, 1e-12), "the model is not the last one of the evolution", case)
    return cur


def priors(ref, k):
    grids = []
    for j, u in enumerate(ref.exo):
        c = len(ref.prob[u])
        g = [[1.0 / c] * c, weights(c, 3 + j + k), weights(c, 8 + j + k)[::-1], weights(c, 1 + j, zeros=True), [.98] + [.02 / (c - 1)] * (c - 1)]
        grids.append(g)
    for ps in itertools.product(*grids): yield dict(zip(ref.exo, ps))


def with_prior(ref, pr):
    return RefSCM(ref.pa, pr, ref.dom, fun={v: [ref.dom[v].index(x) for x in t.val.values()] for v, t in ref.fun.items()})


def run_grid(spec, rec):
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    ref = base_ref(spec)
    if spec["i"] % 4 == 3:
        ref = RefSCM(ref.pa, {**ref.prob, "Wz": [.25, .75]}, {**ref.dom, "Wz": [0, 1]}, fun={v: [ref.dom[v].index(x) for x in t.val.values()] for v, t in ref.fun.items()})
    ex = Exact(ref)
    space = list(itertools.product(*[ref.dom[v] for v in ref.endo]))
    if "every" in spec: space = [r for r in space if ex.like(ref.prob, r) > 0]
    c = 0
    PR = list(priors(ref, spec["i"]))
    for d, ms in enumerate(multisets(len(space), spec["rows"])):
        rows = [space[i] for i in ms]
        if spec["part"] is not None and d % 2 != spec["part"] or d % spec.get("every", 1): continue
        for k, pr in enumerate(PR):
            if len(PR) > 5 and (k + d) % (len(PR) // 5) : continue
            if any(ex.like(pr, r) < 1e-9 for r in rows): continue
            c += 1
            r2 = with_prior(ref, pr)
            m = r2.build(kind="det" if c % 2 else "mult", layout=c % 4, cast=c % 5 != 1, explicit=True if "Wz" in ref.exo else None)
            base = snap.model(m)
            df = frame(rows, ref.endo, c)
            f0 = snap.frame(df)
            train = None if c % 3 else [ref.exo[c % len(ref.exo)]]
            it = 1 + c % spec["iters"]
            case = [spec["n"], str(spec["e"]), str(spec["h"]), spec["i"], str(rows), k, it, train]
            rec.at(case); rec.state(case)
            em = ExpectationMaximization(m, trainable_vars=train) if train else ExpectationMaximization(m)
            em.run(df, max_iter=it)
            cur = check_run(rec, em, ex, ref, m, pr, rows, train or ref.exo, it, case)
            rec.check(sorted(em.trainable_vars) == sorted(train or ref.exo), f"trainable variables {em.trainable_vars}", case)
            rec.check(snap.frame(df) == f0, "the data changed", case)
            rec.check(snap.model(m) == base and em.prior_model is m or snap.model(em.prior_model) == base, "the prior model changed", case)
            rec.trace(); rec.outcome((case[:4], str({u: [round(x, 6) for x in p] for u, p in cur.items()})))


def run_many(spec, rec):
    """data sets of some tens of rows, in which rows are repeated and, at times, all possible ones appear"""
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    ref = base_ref(spec)
    ex = Exact(ref)
    space = [r for r in itertools.product(*[ref.dom[v] for v in ref.endo]) if ex.like(ref.prob, r) > 1e-9]
    j = spec["j"]
    rows = many(space, j)
    pr = {u: weights(len(ref.prob[u]), 4 + j + a) for a, u in enumerate(ref.exo)} if j % 2 else ref.prob
    for train in [None] + [[u] for u in ref.exo]:
        case = ["many", spec["n"], spec["i"], j, train]
        rec.at(case); rec.state(case)
        m = with_prior(ref, pr).build(kind="det" if j % 2 else "mult", layout=j % 4)
        base = snap.model(m)
        df = frame(rows, ref.endo, j)
        em = ExpectationMaximization(m, trainable_vars=train) if train else ExpectationMaximization(m)
        em.run(df, max_iter=4)
        cur = check_run(rec, em, ex, ref, m, pr, rows, train or ref.exo, 4, case)
        rec.check(snap.model(m) == base, "the prior model changed", case)
        rec.trace(); rec.outcome((case[:4], str({u: [round(x, 6) for x in p] for u, p in cur.items()})))


def many(space, j):
    """row r appears 1 + (3r + j) % 7 times; the rows are interleaved, and for odd j one in three is left out"""
    left = [1 + (3 * r + j) % 7 if j % 2 == 0 or (r + j) % 3 or len(space) < 3 else 0 for r in range(len(space))]
    out = []
    while any(left):
        for r in range(len(space)):
            if left[r]: out.append(space[r]); left[r] -= 1
    return out


def run_conv(spec, rec):
    """runs without a bound on the number of steps stop, at a fixed point"""
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    ref = base_ref(spec)
    ex = Exact(ref)
    space = [r for r in itertools.product(*[ref.dom[v] for v in ref.endo]) if ex.like(ref.prob, r) > 0]
    for d, ms in enumerate(multisets(len(space), 2)):
        rows = [space[i] for i in ms]
        case = ["conv", spec["i"], str(rows)]
        rec.at(case); rec.state(case)
        m = ref.build()
        em = ExpectationMaximization(m)
        em.run(frame(rows, ref.endo, d), max_iter=150)
        check_run(rec, em, ex, ref, m, ref.prob, rows, ref.exo, 150, case)
        rec.trace()


def run_xor(spec, rec):
    """one exogenous variable is stationary until the other one moves"""
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    dom = {"X": [0, 1], "U": [0, 1], "V": [0, 1]}
    ref = RefSCM({"X": ["U", "V"]}, {"U": [.7, .3], "V": [.5, .5]}, dom, fun={"X": [0, 1, 1, 0]})
    if spec["k"] % 2: ref = with_prior(ref, {"U": [.5, .5], "V": [.4, .6]})
    ex = Exact(ref)
    rows = [(1,)] * 3 if spec["k"] < 2 else [(1,)] * 3 + [(0,)]
    case = ["xor", spec["k"]]
    rec.at(case); rec.state(case)
    m = ref.build()
    em = ExpectationMaximization(m)
    em.run(frame(rows, ref.endo, 0), max_iter=12)
    check_run(rec, em, ex, ref, m, ref.prob, rows, ref.exo, 12, case)
    rec.trace()


def run_hist(spec, rec):
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    ref = base_ref(spec)
    ex = Exact(ref)
    space = [r for r in itertools.product(*[ref.dom[v] for v in ref.endo]) if ex.like(ref.prob, r) > 1e-6]
    D = [[space[0], space[-1], space[-1]], [space[1 % len(space)], space[0]]]
    OPS = [("run", 0, 1), ("run", 0, 3), ("run", 1, 2), ("step", None), ("step", 1), ("run", 1, 0)]
    for n in range(3):
        for rest in itertools.product(range(6), repeat=n):
            seq = [OPS[spec["first"]]] + [OPS[j] for j in rest]
            if seq[0][0] == "step": continue
            case = ["hist", spec["i"], [str(o) for o in seq]]
            rec.at(case); rec.state(case)
            m = ref.build(layout=spec["i"])
            base = snap.model(m)
            dfs = [frame(D[j], ref.endo, j * (len(rest) % 2)) for j in (0, 1)]
            f0 = [snap.frame(d) for d in dfs]
            em = ExpectationMaximization(m)
            ev, rows = None, None
            for op in seq:
                if op[0] == "run":
                    em.run(dfs[op[1]], max_iter=op[2])
                    rows = D[op[1]]
                    got = em.model_evolution
                    rec.check(len(got) <= 1 + op[2], f"{len(got)} models recorded by a run of at most {op[2]} steps", case)
                    ev = [ref.prob]
                    while len(ev) < len(got): ev.append(ex.step(ev[-1], rows, ref.exo))
                    if len(got) < 1 + op[2]: rec.check(len(ev) > 1 and same(ev[-1], ev[-2], 1e-6), "stopped early", case)
                else:
                    if any(ex.like(ev[-1], r) < 1e-9 for r in (D[op[1]] if op[1] is not None else rows)):
                        rec.note("data impossible after learning"); break
                    if op[1] is not None:
                        em.step(dfs[op[1]]); rows = D[op[1]]
                    else: em.step()
                    ev = ev + [ex.step(ev[-1], rows, ref.exo)]
                    got = em.model_evolution
                rec.step()
                rec.check(len(got) == len(ev), f"{len(got)} models recorded instead of {len(ev)}", case)
                for a, b in zip(got, ev): rec.check(same(probs(a, ref), b), f"evolution: {probs(a, ref)} instead of {b}", case)
                rec.check(same(probs(em.model, ref), ev[-1]), "model", case)
            rec.check([snap.frame(d) for d in dfs] == f0, "the data changed", case)
            rec.check(snap.model(m) == base, "the prior model changed", case)
            rec.trace(); rec.outcome((spec["i"], str(ev[-1])))


def run(spec, rec):
    {"grid": run_grid, "conv": run_conv, "xor": run_xor, "hist": run_hist, "many": run_many}[spec["kind"]](spec, rec)
    rec.sample(spec)
