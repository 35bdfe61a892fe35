"""C31: results that depend on chance are a function of the seed: not of what ran before, of what is asked in between or of the process that runs it."""
import itertools, json, os, subprocess, sys
import numpy as np
from ..mgen import *
from .c08 import TOUR_SCMS

SEEDS = (0, 1, 12345)


def BOUNDS(tier):
    q = tier == "quick"
    return dict(models="%d causal models and the Bayesian networks with their graphs" % len(TOUR_SCMS), seeds=list(SEEDS),
                histories="every random operation after every random operation, and with every deterministic operation in between",
                processes="hash seeds 1-%d against the one of the check" % (3 if q else 16))


def specs(tier):
    q = tier == "quick"
    out = []
    for i in range(len(TOUR_SCMS)):
        for part in range(3): out.append(dict(kind="hist", i=i, part=part, slow=3 if q else 1))
    for k in range(1, 4 if q else 17): out.append(dict(kind="proc", k=k))
    return out


def models(i):
    from bcause.models import BayesianNetwork
    names, e, h = TOUR_SCMS[i]
    dom = {v: {"X": [0, 1], "Z": ["x0", "x1", "x2"], "Y": [True, False]}[v] for v in names}
    ref = make_scm(names, e, h, dom, salt=i)
    m = ref.build(kind="det" if i % 2 else "mult", layout=i % 4)
    mm = ref.build()
    return names, m, mm, BayesianNetwork(mm.graph, mm.factors)


def flat(f):
    return [[list(map(str, f.variables)), [float(x) for x in np.ravel(f.values_array())]]]


def factors(m):
    return [[v] + flat(f if hasattr(f, "maxmarginalize") and not type(f).__name__.startswith("Det") else f.to_multinomial()) for v, f in m.factors.items()]


def frame(df):
    return [list(df.columns), [[str(x) for x in r] for r in df.values.tolist()]]


def random_ops(i):
    """name -> (operation, whether its results are real-valued)"""
    from bcause.factors.mulitnomial import random_multinomial, random_deterministic
    from bcause.learning.aggregator.aggregator import SimpleModelAggregatorEM, SimpleModelAggregatorGD
    from bcause.util.domainutils import random_assignment
    from bcause.inference.causal.multi import EMCC
    import pandas as pd
    names, m, mm, bn = models(i)
    rows = pd.DataFrame([k for k in itertools.product(*[m.get_domains(v)[v] for v in names])][::2] * 2, columns=names)
    dom = {v: list(s) for v, s in mm.domains.items()}
    quasi = all(len(set(mm.get_parents(v)) & set(mm.exogenous)) < 2 for v in names)
    ops = {"sample": (lambda: frame(mm.sample(12)), False), "records": (lambda: [str(r) for r in mm.sample(12, as_pandas=False)], False),
           "endogenous": (lambda: frame(mm.sampleEndogenous(12)), False), "network": (lambda: frame(bn.sample(12)), False),
           "factor": (lambda: str(mm.factors[mm.exogenous[0]].sample(12)), False),
           "assignment": (lambda: str([random_assignment(dom) for _ in range(8)]), False),
           "assignments": (lambda: str([random_assignment(dom, [names[0]]) for _ in range(8)]), False),
           "equation": (lambda: [flat(random_deterministic({v: dom[v] for v in mm.get_parents(names[-1]) + [names[-1]]}, right_vars=mm.get_parents(names[-1]))) for _ in range(8)], False),
           "multinomial": (lambda: flat(random_multinomial({v: dom[v] for v in names}, right_vars=names[:1])), True),
           "positive": (lambda: flat(random_multinomial({v: dom[v] for v in names}, allow_zero=False)), True),
           "randomize": (lambda: factors(mm.randomize_factors(mm.exogenous)), True)}
    def inplace(md, fn):
        c = md.copy(); fn(c)
        return factors(c)
    ops["marginals"] = (lambda: inplace(mm, lambda c: c.fill_random_marginals(dom)), True)
    ops["equations"] = (lambda: inplace(mm, lambda c: c.fill_random_equations(dom)), False)
    ops["all"] = (lambda: inplace(mm, lambda c: c.fill_random_factors(dom)), True)
    ops["bn"] = (lambda: inplace(bn, lambda c: c.randomize_factors(dom)), True)
    def agg(cls, **kw):
        a = cls(mm, rows, **kw); a.run(2)
        return [factors(x) for x in a.models]
    ops["em"] = (lambda: agg(SimpleModelAggregatorEM, max_iter=1), None)
    if quasi: ops["gd"] = (lambda: agg(SimpleModelAggregatorGD, tol=1e-3, max_iter=1), None)
    def emcc():
        inf = EMCC(mm, rows, max_iter=1, num_runs=2)
        r = inf.causal_query(names[-1], do={names[0]: dom[names[0]][0]}) if len(names) > 1 else None
        return [float(x) for x in np.ravel(r.store_low.data)] + [float(x) for x in np.ravel(r.store_up.data)]
    ops["emcc"] = (emcc, None)
    return ops


def pure_ops(i):
    from bcause.inference.probabilistic.elimination import VariableElimination
    from bcause.inference.probabilistic.datainference import LaplaceInference
    from bcause.inference.causal.elimination import CausalVariableElimination
    from bcause.inference.ordering import Heuristic
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    from bcause.learning.parameter.gradient import GradientLikelihood
    import pandas as pd
    names, m, mm, bn = models(i)
    dom = {v: list(s) for v, s in mm.domains.items()}
    states = list(itertools.product(*[dom[v] for v in names]))
    rows = pd.DataFrame(states[::2] * 2, columns=names)
    inf = CausalVariableElimination(m)
    x, y = names[0], names[-1]
    ops = {"causal": lambda: inf.causal_query(y, do={x: dom[x][0]}), "counterfactual": lambda: inf.counterfactual_query(y, do={x: dom[x][0]}, evidence={x: dom[x][1]}),
           "likelihood": lambda: mm.log_likelihood(rows), "max": lambda: mm.max_log_likelihood(rows),
           "prob": lambda: mm.prob([{v: dom[v][0] for v in mm.variables}]), "blanket": lambda: [mm.markov_blanket(v) for v in mm.variables],
           "qgraph": lambda: (mm.qgraph, mm.get_qfactors(x)), "copy": lambda: (mm.copy(), mm.rename_vars({x: "new"}), mm.intervention(**{x: dom[x][0]}), str(mm), mm.to_bnet()),
           "laplace": lambda: LaplaceInference(rows, {v: dom[v] for v in names}).query(y),
           "em": lambda: ExpectationMaximization(mm, trainable_vars=list(mm.exogenous)).run(rows, max_iter=2), "build": lambda: models(i)}
    for hf in (None, *Heuristic):
        for mod, nm in ((m, "scm"), (bn, "bn")):
            ops[f"{nm} {hf}"] = lambda hf=hf, mod=mod: [VariableElimination(mod, hf).query(t, evidence=dict(e)) for t in names for e in ({}, *({v: dom[v][0]} for v in mod.variables[:2] if v != t))]
    if all(len(set(mm.get_parents(v)) & set(mm.exogenous)) < 2 for v in names):
        ops["gd"] = lambda: GradientLikelihood(mm, trainable_vars=list(mm.exogenous)).run(rows, max_iter=1)
    return ops


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float): return abs(a - b) < 1e-7
    return a == b


def digests():
    from bcause.util.randomUtil import seed
    out = {}
    for i in range(len(TOUR_SCMS)):
        for nm, (op, _) in random_ops(i).items():
            for s in SEEDS:
                seed(s)
                out[f"{i} {nm} {s}"] = op()
    return out


def run_proc(spec, rec):
    env = dict(os.environ, PYTHONHASHSEED=str(spec["k"]))
    case = ["hash seed", spec["k"]]
    rec.at(case)
    p = subprocess.run([sys.executable, "-m", "mc.checks.c31"], env=env, capture_output=True, text=True, cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    if p.returncode: raise RuntimeError(p.stderr[-2000:])
    got, want = json.loads(p.stdout.splitlines()[-1]), json.loads(json.dumps(digests()))
    rec.check(got.keys() == want.keys(), "other operations", case)
    for k in want:
        rec.check(same(got[k], want[k]), f"operation {k}: {str(got[k])[:150]} in a process with another hash seed instead of {str(want[k])[:150]}", case)
        rec.step(); rec.state([spec["k"], k])
    rec.trace(); rec.outcome(case)


def run_hist(spec, rec):
    from bcause.util.randomUtil import seed
    i = spec["i"]
    ops, pure = random_ops(i), pure_ops(i)
    base = {}
    for s in SEEDS:
        for nm, (op, _) in ops.items():
            rec.at([i, s, nm])
            if spec["part"]:
                seed(s); base[s, nm] = op()
                continue
            seed(s); base[s, nm] = op()
            again = op()
            seed(s)
            rec.check(same(op(), base[s, nm]), f"{nm}: another result with the same seed {s}", [i, s, nm])
            rec.check(same(op(), again), f"{nm}: another second result with the same seed {s}", [i, s, nm])
            if ops[nm][1]: rec.check(not same(again, base[s, nm]), f"{nm}: the same result twice in a row", [i, s, nm])
            rec.step(); rec.state([i, s, nm])
    for nm, (op, real) in ops.items():
        vals = [base[s, nm] for s in SEEDS]
        if real: rec.check(not any(same(a, b) for a, b in itertools.combinations(vals, 2)), f"{nm}: the same result with different seeds", [i, nm])
        elif real is False and not spec["part"]: rec.check(not all(same(vals[0], b) for b in vals), f"{nm}: the same result with all seeds", [i, nm])
    s = SEEDS[i % 3]
    slow = [o for o in ops if o in ("em", "gd", "emcc")]
    for j, (p, fn) in enumerate(pure.items()):
        if j % 3 != spec["part"]: continue
        for nm, (op, _) in ops.items():
            if nm in slow and (j // 3 + i) % spec["slow"]: continue
            case = [i, s, p, nm]
            rec.at(case)
            seed(s)
            try: fn()
            except ValueError: pass   # data that cannot be
            rec.check(same(op(), base[s, nm]), f"{nm}: {p} between the seed and the operation changes its result", case)
            rec.step(); rec.state(case)
    for j, (a, b) in enumerate(itertools.product(ops, repeat=2)):
        if j % 3 != spec["part"] or (a in slow or b in slow) and (j // 3) % spec["slow"]: continue
        case = [i, s, a, "then", b]
        rec.at(case)
        seed(s); r1 = ops[a][0](); r2 = ops[b][0]()
        rec.check(same(r1, base[s, a]), f"{a}: another result with the same seed {s}", case)
        seed(s); ops[a][0]()
        rec.check(same(ops[b][0](), r2), f"{b} after {a}: another result with the same seed {s}", case)
        rec.step(); rec.state(case); rec.trace()
    rec.outcome([i])


def run(spec, rec):
    import logging
    logging.disable(logging.CRITICAL)
    try: {"hist": run_hist, "proc": run_proc}[spec["kind"]](spec, rec)
    finally: logging.disable(logging.NOTSET)
    rec.sample(spec)


if __name__ == "__main__":
    import logging
    from .. import env
    env.setup()
    logging.disable(logging.CRITICAL)
    print(json.dumps(digests()))
