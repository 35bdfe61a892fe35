"""C18: model aggregation: every interleaving of the parallel runs within a preemption bound (controlled scheduler on the real
threads), every sequence of run/reset, and the multi-model engines built on them; each model against the stand-alone learner."""
import itertools, os
import numpy as np
from ..mgen import *
from .c15 import multisets
from .c16 import Exact, probs, others, frame, DOMS, same
from .. import snap
from ..sched import Sched

STRUCTS = [([(0, 1)], [[0], [1]]), ([(0, 1)], [[0, 1]]), ([(0, 1)], [[0], [0, 1]]), ([], [[0], [1]])]


def BOUNDS(tier):
    q = tier == "quick"
    return dict(runs="2 (3 for the learning code%s)" % (", half of the points" if q else "") + "", preemptions="1 before the first and before the last execution of every source line of bcause a run executes, both starting runs (gradient: one; second EM model: the learning code); "
                "2 (one in each run) over pairs of lines of the learning and aggregation code: %s" % ("every 8th pair (gradient: 24th)" if q else "all pairs"),
                learners="EM (%s steps), gradient" % ("1" if q else "1-2"), histories="all sequences of <=3 operations among run(1), run(2), reset, sequential and parallel",
                engines="EMCC, GDCC, incremental compilation, sequential and parallel; all do/target pairs")


def specs(tier):
    q = tier == "quick"
    out = [dict(kind="hist", A=A, par=par, first=f, i=i) for A in ("em", "gd") for par in (0, 1) for f in range(3) for i in (0, 1 if A == "em" else 3)]
    out += [dict(kind="engine", A=A, par=par, i=i) for A in ("em", "gd") for par in (0, 1) for i in ((0, 1, 2, 3) if A == "em" else (0, 1, 3))]
    J = 8
    for A, ms in (("em", (0, 1) if q else (0, 1, 2)), ("gd", (0,) if q else (0, 3))):
        for i in ms:
            for start in ((0, 1) if (i, A) == (0, "em") or not q else (1,)):
                for j in range(J): out.append(dict(kind="one", A=A, i=i, n=2, start=start, j=j, J=J, it=1 + (not q), own=int(q and i != ms[0])))
        for j in range(2 * J): out.append(dict(kind="two", A=A, i=ms[0], n=2, start=0, j=j, J=2 * J, it=1, stride=(8 if A == "em" else 24) if q else 1))
        for start in (0, 1, 2):
            for j in range(2 if q else 4): out.append(dict(kind="one", A=A, i=ms[0], n=3, start=start, j=j, J=4, it=1, own=1))
    return out


def ref_of(i):
    e, h = STRUCTS[i]
    return make_scm(["X", "Y"], e, h, {v: DOMS[i % 2][v] for v in "XY"}, salt=i, exo_card=[2 + (i + j) % 2 + (1 if len(x) > 1 else 0) for j, x in enumerate(h)])


def data_of(ref, i):
    ex = Exact(ref)
    space = [r for r in itertools.product(*[ref.dom[v] for v in ref.endo]) if ex.like(ref.prob, r) > 0]
    return [space[0], space[-1], space[-1], space[len(space) // 2]][:4 - i % 2]


def aggregator(A, m, df, it, par, train=None):
    from bcause.learning.aggregator.aggregator import SimpleModelAggregatorEM, SimpleModelAggregatorGD
    if A == "em": return SimpleModelAggregatorEM(m, df, trainable_vars=train, max_iter=it, parallel=par)
    return SimpleModelAggregatorGD(m, df, tol=1e-3, max_iter=it, trainable_vars=train, parallel=par)


def alone(A, prior, df, it, train):
    """a stand-alone learner started there"""
    if A == "em":
        from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
        l = ExpectationMaximization(prior, trainable_vars=train)
    else:
        from bcause.learning.parameter.gradient import GradientLikelihood
        l = GradientLikelihood(prior, trainable_vars=train, tol=1e-3)
    l.run(df, max_iter=it)
    return l.model


def verify(rec, agg, ref, ex, rows, m, df, A, it, n, case, train=None, skip=0, cache=None):
    """n models, each what a stand-alone learner gives from the parameters its run started from"""
    models, learners = list(agg.models), list(agg.learn_objects)
    rec.check(len(models) == n, f"{len(models)} models instead of {n}", case)
    rec.check(len(learners) == n, f"{len(learners)} learning objects instead of {n}", case)
    tr = train or ref.exo
    oth = others(m, ref, tr)
    starts = []
    for i, (mod, l) in enumerate(zip(models, learners)):
        got = probs(mod, ref)
        rec.check(same(probs(l.model, ref), got, 1e-12), f"the {i}-th learning object learnt {probs(l.model, ref)}, but the {i}-th model has {got}", case)
        rec.check(others(mod, ref, tr) == oth, f"model {i}: something not trainable differs from the prior model", case)
        st = probs(l.prior_model, ref)
        starts.append(tuple(map(tuple, (st[u] for u in tr))))
        if i < skip: continue
        if A == "em":
            want = st
            for _ in range(it): want = ex.step(want, rows, tr)
            tol = 1e-8
        else:
            want = probs(alone(A, l.prior_model, frame(rows, ref.endo, 1), it, tr), ref); tol = 1e-9
        rec.check(same(got, want, tol), f"model {i} has {got}; a stand-alone learner started from {st} gives {want}", case)
        rec.outcome(str(got))
    rec.check(len(set(starts)) == len(starts), f"several runs started from the same parameters: {starts}", case)


def run_hist(spec, rec):
    ref = ref_of(spec["i"]); ex = Exact(ref); rows = data_of(ref, spec["i"])
    OPS = [("run", 1), ("run", 2), ("reset",)]
    A = spec["A"]
    for n in range(3):
        for rest in itertools.product(range(3), repeat=n):
            seq = [OPS[spec["first"]]] + [OPS[k] for k in rest]
            for train in (None, [ref.exo[-1]]):
                case = ["hist", A, spec["par"], spec["i"], [str(o) for o in seq], train]
                rec.at(case); rec.state(case)
                m = ref.build(layout=spec["i"]); df = frame(rows, ref.endo, 1)
                base, f0 = snap.model(m), snap.frame(df)
                it = 2
                agg = aggregator(A, m, df, it, bool(spec["par"]), train)
                total, prev = 0, []
                for op in seq:
                    if op[0] == "run": agg.run(op[1]); total += op[1]
                    else: agg.reset(); total, prev = 0, []
                    rec.step()
                    verify(rec, agg, ref, ex, rows, m, df, A, it, total, case, train, skip=len(prev))
                    now = [snap.model(x) for x in agg.models]
                    rec.check(now[:len(prev)] == prev, "models obtained before changed", case)
                    prev = now
                    rec.check(snap.model(m) == base, "the prior model changed", case)
                    rec.check(snap.frame(df) == f0, "the data changed", case)
                for bad in (0, -1):
                    try: agg.run(bad)
                    except ValueError: pass
                    else: rec.fail(f"{bad} models accepted", case)
                rec.trace()


def root():
    import bcause
    return os.path.dirname(os.path.abspath(bcause.__file__))


OWN = ("/learning/", "/util/datadeps", "/inference/causal/multi")


def locations(log, own):
    cnt, out = {}, []
    for l in log: cnt[l] = cnt.get(l, 0) + 1
    for l in dict.fromkeys(log):
        if own and not any(o in l[0] for o in OWN): continue
        out.append((l, 1))
        if cnt[l] > 1: out.append((l, cnt[l]))
    return out


def execute(spec, rec, ref, ex, rows, plan, case, seed, start=None, record=False):
    A, n = spec["A"], spec["n"]
    m = ref.build(layout=spec["i"]); df = frame(rows, ref.endo, 1)
    base, f0 = snap.model(m), snap.frame(df)
    agg = aggregator(A, m, df, spec["it"], True)
    np.random.seed(seed)
    with Sched(n, start=spec["start"] if start is None else start, plan=plan, root=root(), record=record) as s:
        agg.run(n)
    if s.was_free: rec.note("executions not fully under control")
    rec.note("context switches", s.switches)
    verify(rec, agg, ref, ex, rows, m, df, A, spec["it"], n, case)
    rec.check(snap.model(m) == base, "the prior model changed", case)
    rec.check(snap.frame(df) == f0, "the data changed", case)
    rec.step(s.progress); rec.trace(); rec.note("schedules")
    return s


def run_one(spec, rec):
    ref = ref_of(spec["i"]); ex = Exact(ref); rows = data_of(ref, spec["i"])
    s = execute(spec, rec, ref, ex, rows, [], ["no preemption", spec["A"], spec["i"], spec["n"]], 1, record=True)
    if s.start is None or not s.log: return rec.note("no parallel threads seen")
    first = s.queue[spec["start"] % len(s.queue)] if hasattr(s, "queue") else 0
    pts = locations(s.log[first], spec.get("own"))
    for k, p in enumerate(pts):
        if k % spec["J"] != spec["j"]: continue
        case = ["one", spec["A"], spec["i"], spec["n"], spec["start"], f"{p[0][0]}:{p[0][1]}", p[1]]
        rec.at(case); rec.state(case)
        execute(spec, rec, ref, ex, rows, [p], case, k)


def run_two(spec, rec):
    ref = ref_of(spec["i"]); ex = Exact(ref); rows = data_of(ref, spec["i"])
    s = execute(spec, rec, ref, ex, rows, [], ["no preemption", spec["A"], spec["i"], spec["n"]], 1, record=True)
    if len(s.log) < 2: return rec.note("no parallel threads seen")
    pts = [p for p in locations(s.log[0], True) if p[1] == 1]
    for k, (p, r) in enumerate(itertools.product(pts, pts)):
        if k % spec["stride"] or (k // spec["stride"]) % spec["J"] != spec["j"]: continue
        case = ["two", spec["A"], spec["i"], f"{p[0][0]}:{p[0][1]}", f"{r[0][0]}:{r[0][1]}"]
        rec.at(case); rec.state(case)
        execute(spec, rec, ref, ex, rows, [p, r], case, k)


def run_engine(spec, rec):
    from bcause.inference.causal.multi import EMCC, GDCC
    ref = ref_of(spec["i"]); ex = Exact(ref); rows = data_of(ref, spec["i"])
    A, par = spec["A"], bool(spec["par"])
    for n in (1, 2, 3):
        for interval in (True, False):
            case = ["engine", A, par, spec["i"], n, interval]
            rec.at(case); rec.state(case)
            m = ref.build(layout=spec["i"]); df = frame(rows, ref.endo, 1)
            base, f0 = snap.model(m), snap.frame(df)
            kw = dict(num_runs=n, max_iter=2, interval_result=interval, parallel=par)
            inf = EMCC(m, df, **kw) if A == "em" else GDCC(m, df, tol=1e-3, **kw)
            if n == 2: inf.compile()
            first = True
            for x, y in (("X", "Y"), ("Y", "X")):
                for sx in ref.dom[x]:
                    ans = inf.causal_query(y, do={x: sx})
                    if first: models = list(inf.models); ps = [probs(t, ref) for t in models]; first = False
                    rec.check(len(models) == n and [id(t) for t in inf.models] == [id(t) for t in models], f"{len(inf.models)} models, learnt again or in another number", case)
                    exps = [RefSCM(ref.pa, p, ref.dom, fun={v: [ref.dom[v].index(z) for z in t.val.values()] for v, t in ref.fun.items()}).interventional([y], {x: sx}) for p in ps]
                    for sy in ref.dom[y]:
                        want = [e.get((sy,), 0.0) for e in exps]
                        if interval:
                            lo, up = bounds(ans, y, sy)
                            rec.check(close(lo, min(want), 1e-7) and close(up, max(want), 1e-7), f"P({y}={sy} | do {x}={sx}) in [{lo},{up}] instead of [{min(want)},{max(want)}]", case)
                        else:
                            got = [float(f.get_value(**{y: sy})) for f in ans]
                            rec.check(len(got) == n and all(close(a, b, 1e-7) for a, b in zip(got, want)), f"{got} instead of {want}", case)
                    rec.step()
            oth = others(m, ref, ref.exo)
            for t in models: rec.check(others(t, ref, ref.exo) == oth, "something that is not exogenous differs from the prior model", case)
            if A == "gd":
                for i in range(n):
                    ev = inf.get_model_evolution(i)
                    rec.check(same(probs(ev[-1], ref), ps[i], 1e-12), f"the evolution of model {i} ends in {probs(ev[-1], ref)} and the model is {ps[i]}", case)
            rec.check(snap.model(m) == base, "the prior model changed", case)
            rec.check(snap.frame(df) == f0, "the data changed", case)
            rec.trace()
    if A == "em":
        for n, step in ((1, 1), (3, 1), (4, 2), (3, 2)):
            case = ["incremental", par, spec["i"], n, step]
            rec.at(case); rec.state(case)
            m = ref.build(); df = frame(rows, ref.endo, 1)
            inf = EMCC(m, df, num_runs=n, max_iter=1, parallel=par)
            seen, k = [], 0
            for it in inf.compile_incremental(step_runs=step):
                k += step
                now = [snap.model(t) for t in it.models]
                rec.check(len(now) == k and now[:len(seen)] == seen, f"{len(now)} models after {k} runs, or earlier ones changed", case)
                seen = now
                ans = it.causal_query("Y", do={"X": ref.dom["X"][0]})
                for sy in ref.dom["Y"]:
                    want = [RefSCM(ref.pa, probs(t, ref), ref.dom, fun={v: [ref.dom[v].index(z) for z in t2.val.values()] for v, t2 in ref.fun.items()}).interventional(["Y"], {"X": ref.dom["X"][0]}).get((sy,), 0.0) for t in it.models]
                    lo, up = bounds(ans, "Y", sy)
                    rec.check(close(lo, min(want), 1e-7) and close(up, max(want), 1e-7), f"[{lo},{up}] instead of [{min(want)},{max(want)}]", case)
                rec.step()
            rec.check(n <= k < n + step, f"{k} models for num_runs={n}", case)
            rec.trace()


def bounds(ans, y, s):
    return tuple(float(np.ravel(v.get_value(**{y: s}))[0]) for v in (ans.store_low, ans.store_up))


def run(spec, rec):
    os.environ["LOKY_MAX_CPU_COUNT"] = "4"
    {"hist": run_hist, "one": run_one, "two": run_two, "engine": run_engine}[spec["kind"]](spec, rec)
    rec.sample(spec)
