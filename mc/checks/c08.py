"""C08: every answer of an engine equals a fresh engine's answer, over all histories of queries; models, arguments and data untouched."""
import itertools, copy
import numpy as np
from ..mgen import *
from ..ref import read
from .. import snap

# an operation is (engine kind specific tuple); RERUN repeats run() on the engine
RERUN = ("rerun",)


def BOUNDS(tier):
    return dict(engines="variable elimination (default and MIN_FILL), causal elimination, data inference, multi-model",
                alphabet="11-15 operations per engine: queries with overlapping targets/evidence, conditional queries, compile-and-run, failing queries, re-runs",
                histories="all sequences of length <= %d on one engine; all interleavings of length <= %d on two engines sharing the model" % ((3, 3) if tier == "quick" else (4, 4)),
                models=1 if tier == "quick" else 3,
                tours="every DAG with 2-4 nodes (4: up to isomorphism) and %d causal models: sequences on one engine where every query follows every other one, over %s queries given by roles of the variables" % (len(TOUR_SCMS), "36-45" if tier == "quick" else "60-120"))


def bn(i):
    lbl = ["X", "X1", "Y", "A"]
    dom = {"X": ["x0", "x1"], "X1": [2, 3, 1], "Y": [True, False], "A": ["a", "b"]}
    e = [[("X", "X1"), ("X1", "Y"), ("A", "Y")], [("X", "Y"), ("X", "X1"), ("Y", "A"), ("X1", "A")], [("A", "X"), ("A", "X1"), ("Y", "X1")]][i]
    return RefBN(lbl, e, dom, zeros=i, salt=i)


def scm(i):
    dom = {"X": [0, 1], "Z": ["p", "q"], "Y": [0, 1]}
    e, h = [([(0, 1), (1, 2)], [[0, 2], [1]]), ([(0, 2), (1, 2)], [[0, 1], [2]]), ([(0, 1), (0, 2), (1, 2)], [[0], [1, 2]])][i]
    return make_scm(["X", "Z", "Y"], e, h, dom, exo_card=[4, 3], salt=i)


VE_OPS = [("q", ["X"], None, {}), ("q", "Y", None, {"X": "x0"}), ("q", ["Y"], None, {"X": "x1"}), ("q", ["X", "Y"], None, {"A": "b"}), ("q", ["X1"], ["X"], {}),
          ("q", ["X1"], ["X", "Y"], {"A": "a"}), ("q", ["A"], [], {"X1": 3, "Y": False}), ("c", ["X"], {"Y": True}), ("c", ["A", "X1"], {}),
          ("q", ["X"], None, {"X": "x0"}), ("q", ["nope"], None, {}), ("q", ["X"], None, {"nope": 1}), ("q", ["X", "Y"], ["Y"], {}), RERUN]
CVE_OPS = [("do", "Y", {"X": 0}, {}), ("do", "Y", {"X": 1}, {}), ("do", ["Y"], {"Z": "p"}, {"X": 1}), ("do", "Z", {"X": 1}, {}), ("cf", "Y", {"X": 0}, {"X": 1}, None),
           ("cf", "Y", {"X": 1}, {"Y": 0}, None), ("cf", ["Y", "Y"], [{"X": 0}, {"X": 1}], {}, [1, 2]), ("cf", ["Y"], [{"X": 0}, {"Z": "q"}], {"Z": "p"}, [2]),
           ("pn",), ("pns",), ("do", "Y", {"nope": 0}, {}), ("do", "nope", {"X": 0}, {}), RERUN]
DATA_OPS = [("q", ["X"], None, {}), ("q", "Y", None, {"X": 0}), ("q", ["Y"], None, {"X": 1}), ("q", ["X", "Y"], None, {"Z": "p"}), ("q", ["Y"], ["X"], {}), ("q", ["Z"], ["X", "Y"], {}),
            ("c", ["Z"], {"Y": 0}), ("q", ["X"], None, {"X": 0}), ("q", ["nope"], None, {}), ("q", ["X", "Y"], ["Y"], {}), RERUN]
MULTI_OPS = [("do", "Y", {"X": 0}, {}), ("do", "Y", {"X": 1}, {}), ("cf", "Y", {"X": 0}, {"X": 1}, None), ("pn",), ("pns",), ("do", "Z", {"nope": 0}, {}), ("cf", ["Y", "Y"], [{"X": 0}, {"X": 1}], {}, [1, 2])]
OPS = dict(ve=VE_OPS, fill=VE_OPS, cve=CVE_OPS, data=DATA_OPS, multi=MULTI_OPS, mixed=None)


def specs(tier):
    out = []
    q = tier == "quick"
    for i in range(1 if q else 3):
        for k in ("ve", "cve", "data", "multi") + (("fill",) if not q else ()):
            n = len(OPS[k])
            for a in range(n):
                out.append(dict(kind="one", eng=k, i=i, first=a, depth=(3 if k != "cve" else 3) if q else (4 if k in ("ve", "data") else 3)))
        for k in ("ve", "cve", "data"):
            for a in range(len(OPS[k])):
                out.append(dict(kind="two", eng=k, i=(i + 1) % 3, first=a, depth=3))
    for n in (2, 3):
        for i, e in enumerate(labelled_dags(n)): out.append(dict(kind="tour", n=n, e=e, i=i, limit=45 if q else 90))
    for i, e in enumerate(iso_dags(4)): out.append(dict(kind="tour", n=4, e=e, i=i, limit=45 if q else 120))
    for i in range(len(TOUR_SCMS)):
        for part in range(2 if q else 6): out.append(dict(kind="ctour", i=i, salt=part, limit=36 if q else 60))
    return out


TOUR_SCMS = [(["X", "Y"], [(0, 1)], [[0], [1]]), (["X", "Y"], [(0, 1)], [[0, 1]]), (["X", "Z", "Y"], [(0, 1), (1, 2)], [[0], [1], [2]]), (["X", "Z", "Y"], [(0, 1), (0, 2), (1, 2)], [[0, 2], [1]]),
             (["X", "Z", "Y"], [(0, 1), (1, 2)], [[0, 2], [1, 2]]), (["X", "Z", "Y"], [(0, 2), (1, 2)], [[0, 1], [2]])]


def tour(n):
    """every ordered pair of n operations, repetitions included, follows one another exactly once (a de Bruijn sequence)"""
    seq = []
    for i in range(n):
        seq.append(i)
        for j in range(i + 1, n): seq += [i, j]
    return seq + [0]


def run_tour(spec, rec):
    """a single engine answers a sequence in which every query follows every other one; each answer by definition"""
    from bcause.inference.probabilistic.elimination import VariableElimination
    from bcause.inference.ordering import Heuristic
    n = spec["n"]
    lbl = ["X", "X1", "Y", "A"][:n]
    dom = {v: {"X": ["x0", "x1"], "X1": [2, 1], "Y": [True, False], "A": ["a", "b"]}[v] for v in lbl}
    ref = RefBN(lbl, [(lbl[a], lbl[b]) for a, b in spec["e"]], dom, salt=spec["i"])
    m = ref.build(layout=spec["i"] % 4)
    ops = []
    for roles in itertools.product(("t", "c", "-", 0, 1), repeat=n):
        T = [v for v, r in zip(lbl, roles) if r == "t"]
        if T: ops.append((T, [v for v, r in zip(lbl, roles) if r == "c"], {v: dom[v][r] for v, r in zip(lbl, roles) if r in (0, 1)}))
    ops = sorted(ops, key=lambda o: mix(spec["i"], o))[:spec["limit"]]
    inf = VariableElimination(m, [None, Heuristic.MIN_FILL, Heuristic.MIN_SIZE][spec["i"] % 3])
    base = snap.model(m)
    prev = None
    for k, j in enumerate(tour(len(ops))):
        T, C, E = ops[j]
        case = ["tour", n, str(spec["e"]), "after", str(prev), "query", str(ops[j])]
        rec.at(case); rec.state((n, spec["e"], prev and str(prev), j))
        if C or k % 2: r = inf.query(list(T), conditioning=list(C) if C else None, evidence=dict(E))
        else: r = inf.compile(list(T), dict(E)).run()
        d = cmp_query(r, ref, T, C, E)
        rec.check(d is None, d, case)
        rec.step()
        if k % len(ops) == 0: rec.check(snap.model(m) == base, "the model changed", case)
        prev = ops[j]
    rec.check(snap.model(m) == base, "the model changed", case)
    rec.trace(); rec.outcome((n, spec["e"], len(ops))); rec.sample(spec)


def run_ctour(spec, rec):
    from bcause.inference.causal.elimination import CausalVariableElimination
    names, e, h = TOUR_SCMS[spec["i"]]
    dom = {"X": [0, 1], "Z": ["p", "q"], "Y": [True, False]}
    ref = make_scm(names, e, h, {v: dom[v] for v in names}, salt=spec["i"] + spec["salt"])
    m = ref.build(kind="det" if spec["salt"] % 2 else "mult", layout=spec["i"] % 4, cast=spec["salt"] % 2 == 0)
    ops = []
    for roles in itertools.product(("t", "-", ("e", 0), ("e", 1), ("d", 0), ("d", 1)), repeat=len(names)):
        T = [v for v, r in zip(names, roles) if r == "t"]
        E = {v: dom[v][r[1]] for v, r in zip(names, roles) if r[0] == "e"}
        D = {v: dom[v][r[1]] for v, r in zip(names, roles) if r[0] == "d"}
        if not T or not D: continue
        for cf in (False, True):
            want = ref.counterfactual(T, [1] * len(T), [D], E) if cf else ref.interventional(T, D, E)
            if want is not None: ops.append((T, D, E, cf, want))
    ops = sorted(ops, key=lambda o: mix(spec["i"], spec["salt"], o[:4]))[:spec["limit"]]
    inf = CausalVariableElimination(m)
    base = snap.model(m)
    prev = None
    for k, j in enumerate(tour(len(ops))):
        T, D, E, cf, want = ops[j]
        case = ["ctour", str(TOUR_SCMS[spec["i"]]), spec["salt"], "after", str(prev), "query", str(ops[j][:4])]
        rec.at(case); rec.state((spec["i"], spec["salt"], prev and str(prev), j))
        r = inf.query(list(T), do=dict(D), evidence=dict(E), counterfactual=cf)
        d = cmp_dist(r, [f"{v}_1" for v in T] if cf else T, [dom[v] for v in T], want)
        rec.check(d is None, d, case)
        rec.step()
        if k % len(ops) == 0: rec.check(snap.model(m) == base, "the model changed", case)
        prev = ops[j][:4]
    rec.check(snap.model(m) == base, "the model changed", case)
    rec.trace(); rec.outcome((spec["i"], spec["salt"], len(ops))); rec.sample(spec)


def make(kind, i):
    """(reference, model object, engine factory, snapshot function)"""
    from bcause.inference.probabilistic.elimination import VariableElimination
    from bcause.inference.causal.elimination import CausalVariableElimination
    from bcause.inference.causal.multi import CausalMultiInference
    from bcause.inference.probabilistic.datainference import LaplaceInference
    from bcause.inference.ordering import Heuristic
    if kind in ("ve", "fill"):
        ref = bn(i)
        m = ref.build(layout=i + 1)
        return ref, (lambda: VariableElimination(m)) if kind == "ve" else (lambda: VariableElimination(m, Heuristic.MIN_FILL)), lambda: snap.model(m)
    if kind == "cve":
        ref = scm(i)
        m = ref.build(kind="det" if i % 2 else "mult", layout=i, cast=i != 1)
        return ref, lambda: CausalVariableElimination(m), lambda: snap.model(m)
    if kind == "multi":
        ref = scm(i)
        ms = [ref.build(), RefSCM(ref.pa, {u: weights(len(p), 7 + i) for u, p in ref.prob.items()}, ref.dom,
                                  fun={v: [ref.dom[v].index(x) for x in t.val.values()] for v, t in ref.fun.items()}).build()]
        return ref, lambda: CausalMultiInference(list(ms)), lambda: tuple(snap.model(m) for m in ms)
    import pandas as pd
    dom = {"X": [0, 1], "Z": ["p", "q"], "Y": [0, 1, 2]}
    rows = [(x, z, y) for j, (x, z, y) in enumerate(itertools.product(dom["X"], dom["Z"], dom["Y"])) for _ in range(1 + (j * 5 + i) % 3)]
    df = pd.DataFrame(rows, columns=["X", "Z", "Y"])
    d0 = copy.deepcopy(dom)
    return None, lambda: LaplaceInference(df, dom), lambda: (snap.frame(df), str(dom) == str(d0))


def do(inf, op):
    """Returns ("ok", answer) or ("raised", exception type); checks the arguments were not changed."""
    args = copy.deepcopy(op)
    try:
        if op[0] == "rerun": r = inf.run()
        elif op[0] == "q": r = inf.query(args[1], conditioning=args[2], evidence=args[3])
        elif op[0] == "c": r = inf.compile(args[1], args[2]).run()
        elif op[0] == "do": r = inf.causal_query(args[1], do=args[2], evidence=args[3])
        elif op[0] == "cf": r = inf.counterfactual_query(args[1], do=args[2], evidence=args[3], targets_subgraphs=args[4])
        elif op[0] == "pn": r = inf.prob_necessity("X", "Y")
        elif op[0] == "pns": r = inf.prob_necessity_sufficiency("X", "Y")
        res = ("ok", r)
    except Exception as e:
        res = ("raised", type(e).__name__)
    return res, args == op


def canon(res):
    """comparable form of a result"""
    if res[0] != "ok": return res
    r = res[1]
    if isinstance(r, (list, tuple)): return ("list", tuple(round(float(x), 10) for x in r))
    if not hasattr(r, "domain"): return ("num", round(float(r), 10))
    vs = sorted(r.domain)
    stores = [r.store_low, r.store_up] if hasattr(r, "store_low") else [r.store]
    out = []
    for st in stores:
        for k in itertools.product(*[r.domain[v] for v in vs]):
            out.append((tuple(map(str, k)), round(float(st.get_value(**dict(zip(vs, k)))), 10)))
    return ("factor", tuple(vs), tuple(sorted(r.left_vars)), tuple(sorted(r.right_vars)) if not hasattr(r, "store_low") else (), tuple(sorted(out)))


def run(spec, rec):
    if spec["kind"] in ("tour", "ctour"): return (run_tour if spec["kind"] == "tour" else run_ctour)(spec, rec)
    ref, fresh, snapshot = make(spec["eng"], spec["i"])
    ops = OPS[spec["eng"]]
    base = snapshot()
    expect = {}
    for j, op in enumerate(ops):
        if op == RERUN: continue
        rec.at(["fresh", spec["eng"], spec["i"], j])
        res, same = do(fresh(), op)
        expect[j] = canon(res)
        rec.check(same, f"arguments of {op} changed", ["args", spec["eng"], str(op)])
        # anchored in the definition for plain queries
        if spec["eng"] in ("ve", "fill") and op[0] in "qc" and res[0] == "ok":
            T = [op[1]] if isinstance(op[1], str) else op[1]
            m = cmp_query(res[1], ref, T, op[2] or [] if op[0] == "q" else [], op[3] if op[0] == "q" else op[2])
            rec.check(m is None, f"{op}: {m}", ["def", str(op)])
    rec.check(any(e[0] == "raised" for e in expect.values()), "no failing operation", ["alphabet", spec["eng"]])
    rec.check(snapshot() == base, "model or data changed", ["model", spec["eng"], spec["i"]])
    neng = 2 if spec["kind"] == "two" else 1
    alpha = [(e, j) for e in range(neng) for j in range(len(ops))]
    if neng == 2:      # a thinner alphabet, but on both engines
        keep = set(range(0, len(ops), 2)) | {len(ops) - 1}
        alpha = [(e, j) for e, j in alpha if j in keep]
    for n in range(0, spec["depth"]):
        for rest in itertools.product(alpha, repeat=n):
            seq = ((0, spec["first"]),) + rest
            case = [spec["kind"], spec["eng"], spec["i"], [(e, str(ops[j])) for e, j in seq]]
            rec.at(case)
            inf = [fresh() for _ in range(neng)]
            last = [None] * neng            # expected answer of a re-run, None when undefined
            got = []
            for e, j in seq:
                op = ops[j]
                if op == RERUN:
                    if last[e] is None: continue
                    want = last[e]
                else:
                    want = expect[j]
                res, same = do(inf[e], op)
                c = canon(res)
                rec.step()
                rec.check(same, f"arguments of {op} changed", case)
                rec.check(c == want, f"{op}: {str(c)[:600]} but a fresh engine gives {str(want)[:600]}", case)
                # run() repeats the last compiled query; conditional queries normalise after run()
                if op != RERUN:
                    last[e] = want if want[0] == "factor" and (op[0] in ("c", "do", "cf") or (op[0] == "q" and op[2] is None)) and spec["eng"] != "multi" else None
                got.append((res, c))
                rec.state((spec["eng"], spec["i"], tuple(sorted((x, y) for x, y in zip(range(neng), map(str, last)))), j, e))
            for res, c in got:
                rec.check(canon(res) == c, "an answer given earlier changed", case)
            rec.trace()
            rec.outcome((spec["eng"], case[3]))
        if n < 2 or n == spec["depth"] - 1: rec.check(snapshot() == base, "model or data changed", [spec["kind"], spec["eng"], spec["first"], n])
    rec.sample(spec)
