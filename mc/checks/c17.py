"""C17: gradient learning: the objective handed to the optimiser is the exact negative log-likelihood; results are distributions and never worse than the start."""
import itertools, math
import numpy as np
from ..mgen import *
from .c15 import multisets, simplex
from .c16 import Exact, probs, others, frame, priors, with_prior, DOMS, WIDE, many
from .. import snap


def BOUNDS(tier):
    q = tier == "quick"
    return dict(models="all quasi-Markovian graphs with 1-2 endogenous variables; 3 endogenous: %s" % ("every 4th" if q else "all") + "; %d models with 4-5 endogenous variables, exogenous ones with up to 5 children" % len(WIDE),
                data="all multisets of <=%d rows (3 endogenous: 2 rows)" % (3 if q else 4), large_data="%d models, data sets of up to ~50 rows with repetitions" % (len(WIDE) + 2), objective="simplex grid with step 1/4 incl. the boundary, each exogenous variable, compared with enumeration",
                learning="max_iter 1, 2, 5, unbounded; from a grid of starting distributions", rejected="endogenous or partially observed trainable variables", histories="sequences of <=3 runs on two data sets")


def quasi(n, e, h):
    return h and all(sum(v in x for x in h) <= 1 for v in range(n))


def specs(tier):
    q = tier == "quick"
    out = []
    for n in (1, 2):
        for k, (e, h) in enumerate(scm_structs(n, 2)):
            if quasi(n, e, h):
                for part in range(2): out.append(dict(kind="grid", n=n, e=e, h=h, i=k, rows=3 if q else 4, part=part, stride=7 if q else 3))
    j = 0
    for k, (e, h) in enumerate(scm_structs(3, 3)):
        if not quasi(3, e, h): continue
        j += 1
        if q and j % 4: continue
        out.append(dict(kind="grid", n=3, e=e, h=h, i=k, rows=2, part=None, stride=11 if q else 5))
    for k, (n, e, h) in enumerate(WIDE): out.append(dict(kind="grid", n=n, e=e, h=h, i=k, rows=2 if q else 3, part=None, stride=7, every=5 if q else 2))
    out += [dict(kind="many", n=n, e=e, h=h, i=k, j=j, every=1) for k, (n, e, h) in enumerate(WIDE) for j in range(2 if q else 6)]
    out += [dict(kind="many", n=2, e=[(0, 1)], h=h, i=k, j=j) for k, h in enumerate([[[0], [1]], [[0, 1]]]) for j in range(4 if q else 10)]
    out += [dict(kind="reject"), dict(kind="reuse", i=0), dict(kind="reuse", i=1)] + [dict(kind="names", i=i) for i in range(len(EXO_NAMES))]
    return out


def base_ref(spec, exo_names=None):
    n = spec["n"]
    names = ["X", "Y", "Z", "A", "B"][:n]
    dom = {v: DOMS[spec["i"] % 3][v] for v in names}
    if spec["i"] % 5 == 2: dom["X"] = [True, False]
    if "every" in spec: return onehot_scm(names, spec["e"], spec["h"], dom, salt=spec["i"])
    return make_scm(names, spec["e"], spec["h"], dom, salt=spec["i"], exo_names=exo_names, exo_card=[2 + (spec["i"] + j) % 2 + (1 if len(h) > 1 else 0) for j, h in enumerate(spec["h"])])


class Capture:
    """records what is handed to the optimiser, and lets it work"""

    def __enter__(self):
        import scipy.optimize as so
        import bcause.learning.parameter.gradient as g
        self.calls, self.saved = [], []
        real = so.minimize

        def fake(fun, x0, args=(), **kw):
            a = args if isinstance(args, tuple) else (args,)
            self.calls.append((lambda th: fun(np.array(th), *a), np.array(x0, dtype=float)))
            return real(fun, x0, args=args, **kw)
        for mod in (so, g):
            if getattr(mod, "minimize", None) is real:
                self.saved.append(mod); mod.minimize = fake
        self.real = real
        return self

    def __exit__(self, *a):
        for mod in self.saved: mod.minimize = self.real


def part_nll(ref, u, theta, rows):
    """-log of the factor of the likelihood that depends on u"""
    ch = [v for v in ref.endo if u in ref.pa[v]]
    tot = 0.0
    for r in rows:
        a = dict(zip(ref.endo, r))
        p = sum(t for s, t in zip(ref.dom[u], theta) if all(ref.fun[v].at({**{q: a.get(q) for q in ref.pa[v]}, u: s}) == a[v] for v in ch))
        if p <= 0: return math.inf
        tot -= math.log(p)
    return tot


def objective(rec, ref, m, rows, df, u, case):
    from bcause.learning.parameter.gradient import GradientLikelihood
    with Capture() as cap:
        g = GradientLikelihood(m, trainable_vars=[u])
        g.run(df, max_iter=1)
    for fun, x0 in cap.calls[:1]:
        start = [float(m.factors[u].get_value(**{u: s})) for s in ref.dom[u]]
        if len(x0) != len(start): break        # another parameterisation of the problem
        for th in simplex(len(start), 4):
            want = part_nll(ref, u, th, rows)
            got = float(fun(th))
            rec.check(close(got, want), f"objective for {u} at {th}: {got} instead of {want}", case)
            rec.step()
        rec.note("objectives")
    return g


def learn(rec, ref, m, rows, df, pr, ex, mi, train, case):
    from bcause.learning.parameter.gradient import GradientLikelihood
    g = GradientLikelihood(m, trainable_vars=train, tol=1e-6) if train else GradientLikelihood(m)
    if mi is None: g.run(df)
    else: g.run(df, max_iter=mi)
    got = probs(g.model, ref)
    tr = train or ref.exo
    for u in tr:
        rec.check(all(x >= -1e-12 for x in got[u]) and abs(sum(got[u]) - 1) < 1e-6, f"{u} is not a distribution: {got[u]}", case)
        rec.check(list(g.model.factors[u].domain) == [u] and same_states(list(g.model.factors[u].domain[u]), ref.dom[u]), f"domain of the learned factor of {u}: {dict(g.model.factors[u].domain)}", case)
    rec.check(others(g.model, ref, tr) == others(m, ref, tr), "something that is not trainable changed", case)
    l0 = ex.ll(pr, rows)
    l1 = ex.ll(got, rows) if all(ex.like(got, r) > 0 for r in rows) else -math.inf
    rec.check(l1 >= l0 - 1e-6 * max(1, abs(l0)), f"log-likelihood went from {l0} to {l1}: {got}", case)
    ev = g.model_evolution
    rec.check(same_probs(probs(ev[0], ref), pr) and same_probs(probs(ev[-1], ref), got), "the evolution does not go from the prior to the model", case)
    rec.step(); rec.trace()
    rec.outcome(str({u: [round(x, 5) for x in p] for u, p in got.items()}))
    return g, l1


def same_probs(a, b):
    return all(np.allclose(a[u], b[u], atol=1e-12) for u in b)


def run_grid(spec, rec):
    ref = base_ref(spec)
    ex = Exact(ref)
    space = list(itertools.product(*[ref.dom[v] for v in ref.endo]))
    if "every" in spec: space = [r for r in space if ex.like(ref.prob, r) > 0]
    PR = list(priors(ref, spec["i"]))
    c = 0
    for d, ms in enumerate(multisets(len(space), spec["rows"])):
        rows = [space[i] for i in ms]
        if spec["part"] is not None and d % 2 != spec["part"] or d % spec.get("every", 1): continue
        for k, pr in enumerate(PR):
            if (k + d) % min(spec["stride"], len(PR)): continue
            if any(ex.like(pr, r) < 1e-9 for r in rows): continue
            c += 1
            m = with_prior(ref, pr).build(kind="det" if c % 2 else "mult", layout=c % 4)
            base = snap.model(m)
            df = frame(rows, ref.endo, c)
            f0 = snap.frame(df)
            case = [spec["n"], str(spec["e"]), str(spec["h"]), spec["i"], str(rows), k]
            rec.at(case); rec.state(case)
            u = ref.exo[c % len(ref.exo)]
            if c % 2: objective(rec, ref, m, rows, df, u, case + [u])
            mi = [None, 1, 2, 5][c % 4]
            learn(rec, ref, m, rows, df, pr, ex, mi, None if c % 3 else [u], case + [mi])
            rec.check(snap.frame(df) == f0, "the data changed", case)
            rec.check(snap.model(m) == base, "the prior model changed", case)


def run_many(spec, rec):
    """data sets of some tens of rows with repetitions"""
    ref = base_ref(spec)
    ex = Exact(ref)
    j = spec["j"]
    rows = many([r for r in itertools.product(*[ref.dom[v] for v in ref.endo]) if ex.like(ref.prob, r) > 1e-9], j)
    m = ref.build(kind="det" if j % 2 else "mult", layout=j % 4)
    base = snap.model(m)
    df = frame(rows, ref.endo, j)
    for mi, train in [(None, None), (3, None)] + [(2, [u]) for u in ref.exo]:
        case = ["many", spec["n"], spec["i"], j, mi, train]
        rec.at(case); rec.state(case)
        for u in train or []: objective(rec, ref, m, rows, df, u, case + [u])
        learn(rec, ref, m, rows, df, ref.prob, ex, mi, train, case)
    rec.check(snap.model(m) == base, "the prior model changed", case)


def run_reject(rec):
    from bcause.learning.parameter.gradient import GradientLikelihood
    for k, (e, h) in enumerate(scm_structs(2, 2)):
        if not quasi(2, e, h): continue
        spec = dict(n=2, e=e, h=h, i=0)
        ref = base_ref(spec)
        m = ref.build()
        space = list(itertools.product(*[ref.dom[v] for v in ref.endo]))
        nan = float("nan")
        cases = []
        df = frame(space, ref.endo, 0)
        for v in ref.endo: cases.append((f"endogenous {v} trainable", [v], df)); cases.append((f"{ref.exo[0]},{v}", [ref.exo[0], v], df))
        for v in ref.endo:      # endogenous variables that no row observes
            d5 = df.drop(columns=[v])
            d6 = df.copy().astype(object); d6[v] = nan
            for tag, d in (("absent", d5), ("all missing", d6)): cases += [(f"{v} {tag}", None, d), (f"{v} {tag}, trainable", [v], d), (f"{v} {tag}, trainable with {ref.exo[0]}", [ref.exo[0], v], d)]
        u = ref.exo[0]
        for miss in range(len(space)):
            d2 = df.copy()
            d2[u] = [nan if j == miss else ref.dom[u][0] for j in range(len(space))]
            cases.append((f"{u} observed in all rows but {miss}", None, d2)); cases.append((f"{u} observed in all rows but {miss}, given", [u], d2))
            d3 = df.copy()
            d3[u] = [nan if j != miss else ref.dom[u][0] for j in range(len(space))]
            cases.append((f"{u} observed in row {miss}", None, d3)); cases.append((f"{u} observed in row {miss}, given", [u], d3))
            for v in ref.endo:
                d4 = df.copy().astype(object)
                d4.loc[d4.index[miss], v] = nan
                cases.append((f"{v} missing in row {miss}", None, d4))
        for what, train, data in cases:
            case = ["reject", k, what]
            rec.at(case); rec.state(case); rec.step(); rec.trace()
            f0, base = snap.frame(data), snap.model(m)
            try:
                GradientLikelihood(m, trainable_vars=train).run(data, max_iter=1)
            except ValueError:
                rec.outcome((what, "rejected"))
                rec.check(snap.frame(data) == f0 and snap.model(m) == base, "a rejected run changed its arguments", case)
                continue
            rec.fail("accepted", case)


def run_reuse(spec, rec):
    """a learner run again gives what a fresh one gives"""
    from bcause.learning.parameter.gradient import GradientLikelihood
    S = [([(0, 1)], [[0], [1]]), ([(0, 1)], [[0, 1]])][spec["i"]]
    ref = base_ref(dict(n=2, e=S[0], h=S[1], i=spec["i"]))
    ex = Exact(ref)
    space = [r for r in itertools.product(*[ref.dom[v] for v in ref.endo]) if ex.like(ref.prob, r) > 1e-6]
    D = [[space[0], space[-1], space[-1]], [space[1 % len(space)], space[0]]]
    m = ref.build()
    base = snap.model(m)
    OPS = [(0, None), (1, None), (0, 1), (1, 2)]
    fresh = {}
    for o in OPS:
        g, _ = learn(rec, ref, m, D[o[0]], frame(D[o[0]], ref.endo, 0), ref.prob, ex, o[1], None, ["reuse", "fresh", str(o)])
        fresh[o] = (probs(g.model, ref), len(g.model_evolution))
    for n in (2, 3):
        for seq in itertools.product(OPS, repeat=n):
            case = ["reuse", spec["i"], [str(o) for o in seq]]
            rec.at(case); rec.state(case)
            g = GradientLikelihood(m)
            for o in seq:
                kw = {} if o[1] is None else dict(max_iter=o[1])
                g.run(frame(D[o[0]], ref.endo, 0), **kw)
                got = probs(g.model, ref)
                rec.check(all(np.allclose(got[u], fresh[o][0][u], atol=1e-9) for u in got), f"{got} instead of {fresh[o][0]}, given by a fresh learner", case)
                rec.check(len(g.model_evolution) == fresh[o][1], f"{len(g.model_evolution)} models recorded instead of {fresh[o][1]}", case)
                rec.step()
            rec.trace()
    rec.check(snap.model(m) == base, "the prior model changed", ["reuse", spec["i"]])


EXO_NAMES = [["U", "U1"], ["U1", "U"], ["XY", "U"], ["U", "XU"], ["U12", "U1"]]


def run_names(spec, rec):
    """variables whose names contain one another"""
    for exo in [EXO_NAMES[spec["i"]]]:
        ref = base_ref(dict(n=2, e=[(0, 1)], h=[[0], [1]], i=0), exo_names=exo)
        ex = Exact(ref)
        rows = [r for r in itertools.product(*[ref.dom[v] for v in ref.endo]) if ex.like(ref.prob, r) > 1e-6][:3]
        for train in (None, [exo[0]], [exo[1]]):
            case = ["names", exo, train]
            rec.at(case); rec.state(case)
            m = ref.build()
            df = frame(rows, ref.endo, 0)
            learn(rec, ref, m, rows, df, ref.prob, ex, None, train, case)
            for u in train or exo: objective(rec, ref, m, rows, df, u, case + [u])


def run(spec, rec):
    k = spec["kind"]
    if k == "grid": run_grid(spec, rec)
    elif k == "many": run_many(spec, rec)
    elif k == "reject": run_reject(rec)
    elif k == "reuse": run_reuse(spec, rec)
    else: run_names(spec, rec)
    rec.sample(spec)
