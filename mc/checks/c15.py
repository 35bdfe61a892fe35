"""C15: data-based inference, counts and maximum log-likelihood against counting."""
import itertools, math
from collections import Counter
import numpy as np
from ..mgen import *
from ..ref import read, close, same_states
from ..fgen import WCFG, size
from .. import snap

NAMES = ["X", "X1", "Y"]


def doms(style, n=3):
    return [{"X": [0, 1], "X1": ["a", "b"], "Y": [0, 1]}, {"X": ["x0", "x1", "x2"], "X1": [1, 0], "Y": [True, False]},
            {"X": ["b", "a"], "X1": ["u", "v"], "Y": ["p", "q"]}][style]


def BOUNDS(tier):
    q = tier == "quick"
    return dict(datasets="all multisets of <=%d rows over 2 variables (4 and 6 assignments), <=%d rows over 3 variables (8 assignments); row order and column order vary" % ((4, 3) if q else (6, 4)),
                wide="4 data sets of 40 rows over 3-5 columns with up to 11 states, all roles of the variables (quick: one in 4); 14 models with 4-6 endogenous variables, data of 1-24 rows",
                queries="all target/conditioning/evidence roles, all evidence states", missing="all data sets of <=%d rows over 2 string variables with missing entries" % (3 if q else 4),
                likelihood="all graphs with 2 endogenous (3: %s) variables x all data sets of <=%d distinct-count rows x a grid of exogenous distributions and equations" % ("a selection" if q else "all", 3 if q else 4))


def multisets(k, n):
    for r in range(1, n + 1):
        yield from itertools.combinations_with_replacement(range(k), r)


def specs(tier):
    q = tier == "quick"
    out = []
    for style in range(3):
        for part in range(4): out.append(dict(kind="inf", vars=2, rows=4 if q else 6, style=style, part=part, of=4))
        for part in range(16 if not q else 8): out.append(dict(kind="inf", vars=3, rows=3 if q else 4, style=style, part=part, of=16 if not q else 8))
    for part in range(8): out.append(dict(kind="missing", rows=3 if q else 4, part=part))
    for k, (e, h) in enumerate(scm_structs(2, 2, need_cover=True)):
        for part in range(2): out.append(dict(kind="ml", n=2, e=e, h=h, i=k, rows=3 if q else 4, part=part))
    for k, (e, h) in enumerate(scm_structs(3, 2, need_cover=True)):
        if q and k % 5: continue
        out.append(dict(kind="ml", n=3, e=e, h=h, i=k, rows=2, part=0))
    for i in range(4): out += [dict(kind="winf", i=i, part=p, thin=4 if q else 1) for p in range(4)]
    for i in range(len(WIDER)): out.append(dict(kind="wml", i=i, sets=4 if q else 12))
    return out


def run_winf(spec, rec):
    """5 columns with up to 11 states and 40 rows with repetitions: roles of all the variables, evidence from several rows"""
    from bcause.inference.probabilistic.datainference import LaplaceInference
    from bcause.util.datautils import to_counts
    i = spec["i"]
    cols = [["V1", "V10", "V2", "a b", "P"], ["P", "V", "V1", "e", "V2"], ["V", "V2", "V10"], ["a b", "e", "P", "V1"]][i]
    D = {v: list(WCFG[v]) for v in cols}
    rows = []
    for r in range(40):
        k = r if r % 3 else r // 2
        rows.append(tuple(D[v][mix((i, k, j)) % (len(D[v]) if r % 5 else min(2, len(D[v])))] for j, v in enumerate(cols)))
    df = frame(rows, cols, i)
    f0 = snap.frame(df)
    inf = LaplaceInference(df, {v: D[v] for v in (cols if i % 2 else sorted(cols))})
    n = 0
    for combo in itertools.product("-TCE", repeat=len(cols)):
        T, C, ev = ([v for v, r in zip(cols, combo) if r == x] for x in "TCE")
        if not T or size({v: D[v] for v in T + C}) > 250: continue
        n += 1
        if n % 4 != spec["part"] or mix(("w", n)) % spec["thin"]: continue
        for r in {rows[n % 40], rows[(n + 7) % 40], rows[5]} if ev else {rows[0]}:
            E = {v: r[cols.index(v)] for v in ev}
            case = ["winf", i, T, C, str(E)]
            rec.at(case); rec.state(case); rec.step(); rec.trace()
            match = [x for x in rows if all(x[cols.index(v)] == s for v, s in E.items())]
            res = inf.query(T, conditioning=C, evidence=E) if C else inf.query(T if n % 2 or len(T) > 1 else T[0], evidence=E)
            rec.check(sorted(res.domain) == sorted(T + C), f"answer over {list(res.domain)}", case)
            for v in res.domain: rec.check(same_states(list(res.domain[v]), D[v]), f"states of {v}: {res.domain[v]}", case)
            num, den = Counter(tuple(x[cols.index(v)] for v in T + C) for x in match), Counter(tuple(x[cols.index(v)] for v in C) for x in match)
            tab = read(res)
            for a in tab.assignments():
                d = den[tuple(a[v] for v in C)]
                if d: rec.check(close(tab.at(a), num[tuple(a[v] for v in T + C)] / d), f"P({T}|{C},{E}) at {a}: {tab.at(a)}", case)
            rec.outcome(tuple(tab.val.values()))
            if not ev:
                cn = read(to_counts({v: list(D[v]) for v in T}, df))
                full = Counter(tuple(x[cols.index(v)] for v in T) for x in rows)
                for a in cn.assignments(): rec.check(cn.at(a) == full[tuple(a[v] for v in T)], f"count at {a}: {cn.at(a)}", case)
    rec.check(snap.frame(df) == f0, "data changed", ["winf", i])


def run_wml(spec, rec):
    """models with 4-6 endogenous variables: empirical Q-factors and maximum likelihood of data sets of up to 24 rows"""
    n, e, h = WIDER[spec["i"]]
    names = WNAMES[:n]
    ref = make_scm(names, e, h, {v: WDOM[v] for v in names}, salt=spec["i"], exo_card=[2 + (spec["i"] + j) % 3 for j in range(len(h))], exo_names=WEXO[:len(h)])
    m = ref.build(kind="det" if spec["i"] % 2 else "mult", layout=spec["i"] % 4)
    joint = {}
    for u, p in ref.us():
        a = ref.solve(u); k = tuple(a[v] for v in names)
        joint[k] = joint.get(k, 0.0) + p
    space = [k for k, p in joint.items() if p > 0]
    qpar = {v: list(m.qgraph.predecessors(v)) for v in names}
    comps = [sorted(c) for c in {frozenset(m.get_endo_ccomponent(v)) for v in names}]
    for k in range(spec["sets"]):
        rows = [space[mix((spec["i"], k, r)) % len(space)] for r in range([1, 5, 12, 24][k % 4])]
        df = frame(rows, names, k)
        case = ["wml", spec["i"], k]
        rec.at(case); rec.state(case); rec.step(); rec.trace()
        emp = {}
        for v in names:
            js, ps = names.index(v), [names.index(p) for p in qpar[v]]
            den = Counter(tuple(r[p] for p in ps) for r in rows)
            num = Counter((r[js],) + tuple(r[p] for p in ps) for r in rows)
            emp[v] = lambda x, pa, num=num, den=den: num[(x,) + pa] / den[pa] if den[pa] else None
        term = {v: sum(math.log(emp[v](r[names.index(v)], tuple(r[names.index(p)] for p in qpar[v]))) for r in rows) for v in names}
        got = float(m.max_log_likelihood(df))
        rec.check(close(got, sum(term.values())), f"maximum log-likelihood {got} instead of {sum(term.values())}", case)
        own = sum(math.log(joint[r]) for r in rows)
        rec.check(got >= own - 1e-9, f"maximum log-likelihood {got} below that of the model, {own}", case)
        for C in comps:
            g = float(m.max_log_likelihood(df, variables=C))
            rec.check(close(g, sum(term[v] for v in C)), f"maximum log-likelihood of {C}: {g}", case)
        qf = m.get_qfactorisation(df)
        for v in names:
            rec.check(set(qf[v].domain) == {v} | set(qpar[v]), f"q-factor of {v}", case)
            tab = read(qf[v])
            for a in tab.assignments():
                want = emp[v](a[v], tuple(a[p] for p in qpar[v]))
                if want is not None: rec.check(close(tab.at(a), want), f"empirical q-factor of {v} at {a}: {tab.at(a)} instead of {want}", case)
        rec.outcome(round(got, 6))


def frame(rows, cols, k):
    import pandas as pd
    df = pd.DataFrame([dict(zip(cols, r)) for r in (rows if k % 2 == 0 else list(reversed(rows)))], columns=cols if k % 3 else list(reversed(cols)))
    if k % 4 == 1: df.index = [10 * i for i in range(len(df))][::-1]
    # integer columns as they are read from files or after joins: as floats, as objects, as categories
    for c in cols:
        if k % 7 in (1, 3, 5) and all(type(r[cols.index(c)]) is int for r in rows):
            df[c] = df[c].astype({1: float, 3: object, 5: "category"}[k % 7])
    return df


def run_inf(spec, rec):
    from bcause.inference.probabilistic.datainference import LaplaceInference
    from bcause.util.datautils import to_counts, filter_data
    cols = NAMES[:spec["vars"]]
    if spec["vars"] == 2 and spec["style"] == 2: cols = ["X1", "X"]
    D = {v: doms(spec["style"])[v] for v in NAMES}
    if spec["vars"] == 3: D["X"] = D["X"][:2]
    space = list(itertools.product(*[D[v] for v in cols]))
    for k, ms in enumerate(multisets(len(space), spec["rows"])):
        if k % spec["of"] != spec["part"]: continue
        rows = [space[i] for i in ms]
        df = frame(rows, cols, k)
        f0 = snap.frame(df)
        # the domains given may hold more variables than the data, in another order
        gd = {v: list(D[v]) for v in (cols if k % 2 else list(reversed(cols)))}
        if k % 3 == 0: gd = {"Extra": [0, 1], **gd}
        inf = LaplaceInference(df, gd, **({"preprocess_flag": False} if k % 5 == 0 else {}))
        j = 0
        for combo in itertools.product(*[["-", "T", "C"] + [("E", s) for s in D[v]] for v in cols]):
            T = [v for v, r in zip(cols, combo) if r == "T"]
            if not T: continue
            C = [v for v, r in zip(cols, combo) if r == "C"]
            E = {v: r[1] for v, r in zip(cols, combo) if isinstance(r, tuple)}
            match = [r for r in rows if all(r[cols.index(v)] == s for v, s in E.items())]
            if not match: continue
            j += 1
            case = [spec["vars"], spec["style"], [str(r) for r in rows], T, C, str(E)]
            rec.at(case)
            t = T[0] if len(T) == 1 and j % 2 else T
            res = inf.query(t, conditioning=C, evidence=E) if C else inf.query(t, evidence=E)
            vs = list(res.domain)
            rec.check(sorted(vs) == sorted(T + C), f"answer over {vs}", case)
            for v in vs: rec.check(same_states(list(res.domain[v]), D[v]), f"states of {v}: {res.domain[v]}", case)
            tab = read(res)
            for a in tab.assignments():
                den = sum(all(r[cols.index(v)] == a[v] for v in C) for r in match)
                if den == 0: continue
                num = sum(all(r[cols.index(v)] == a[v] for v in T + C) for r in match)
                rec.check(close(tab.at(a), num / den), f"P({T}|{C},{E}) at {a}: {tab.at(a)} instead of {num}/{den}", case)
            rec.step(); rec.trace(); rec.state(case)
            rec.outcome((tuple(T), tuple(C), tuple(tab.val.values())))
            fd = filter_data(df, E)
            rec.check(Counter(fd[cols].itertuples(index=False, name=None)) == Counter(match), f"rows kept for {E}", case)
        for k2 in range(1, len(cols) + 1):
            for S in itertools.permutations(cols, k2):
                case = [spec["vars"], spec["style"], [str(r) for r in rows], "counts", S]
                rec.at(case)
                for norm in (False, True):
                    tab = read(to_counts({v: list(D[v]) for v in S}, df, normalize=norm))
                    for a in tab.assignments():
                        c = sum(all(r[cols.index(v)] == a[v] for v in S) for r in rows)
                        rec.check(close(tab.at(a), c / len(rows) if norm else c), f"count at {a}: {tab.at(a)} instead of {c} (normalize={norm})", case)
                rec.step()
        rec.check(snap.frame(df) == f0, "data changed", [spec["vars"], spec["style"], [str(r) for r in rows], "data"])


def run_missing(spec, rec):
    from bcause.util.datautils import to_counts
    import pandas as pd
    D = {"X": ["x0", "x1"], "Y": ["b", "a"]}
    NA = [float("nan"), None][spec["part"] % 2]
    space = list(itertools.product(D["X"] + [NA], D["Y"] + [NA]))
    cols = ["X", "Y"]
    isna = lambda x: not isinstance(x, str)
    for k, ms in enumerate(multisets(len(space), spec["rows"])):
        if k % 4 != spec["part"] // 2: continue
        rows = [space[i] for i in ms]
        df = pd.DataFrame(rows, columns=cols, dtype=object)
        if k % 3 == 0: df["X"] = df["X"].astype("category")
        f0 = snap.frame(df)
        for S in (["X"], ["Y"], ["X", "Y"], ["Y", "X"]):
            for norm in (False, True):
                case = ["missing", str(rows), S, norm]
                rec.at(case); rec.state(case)
                gd = {v: list(D[v]) for v in S}
                f = to_counts(gd, df, normalize=norm)
                for v in S:
                    want = D[v] + (["nan"] if any(isna(r[cols.index(v)]) for r in rows) else [])
                    rec.check(sorted(f.domain[v]) == sorted(want), f"states of {v}: {f.domain[v]}", case)
                rec.check(gd == {v: D[v] for v in S}, "domains changed", case)
                tab = read(f)
                for a in tab.assignments():
                    c = sum(all(("nan" if isna(r[cols.index(v)]) else r[cols.index(v)]) == a[v] for v in S) for r in rows)
                    rec.check(close(tab.at(a), c / len(rows) if norm else c), f"count at {a}: {tab.at(a)} instead of {c}", case)
                rec.step(); rec.trace(); rec.outcome((tuple(S), tuple(tab.val.values())))
        rec.check(snap.frame(df) == f0, "data changed", ["missing", str(rows)])
    z = read(to_counts(D))
    rec.check(all(x == 0 for x in z.val.values()) and len(z.val) == 4, "counts without data", ["missing", "none"])


def simplex(c, steps):
    for k in itertools.product(range(steps + 1), repeat=c):
        if sum(k) == steps: yield [x / steps for x in k]


def run_ml(spec, rec):
    n = spec["n"]
    names = NAMES[:n]
    D = {"X": ["x1", "x0"], "X1": [0, 1, 2], "Y": [True, False]} if n == 2 else {"X": [0, 1], "X1": ["a", "b"], "Y": [1, 0]}
    D = {v: D[v] for v in names}
    ref = make_scm(names, spec["e"], spec["h"], D, salt=spec["i"], exo_card=[2 + (spec["i"] + j) % 2 for j in range(len(spec["h"]))])
    m = ref.build(kind="det" if spec["i"] % 2 else "mult", layout=spec["i"] % 4)
    base = snap.model(m)
    # other parameterisations: same structure, other equations and exogenous distributions
    par = []
    for s in range(3):
        r = make_scm(names, spec["e"], spec["h"], D, salt=spec["i"] + 5 * s, exo_card=[2 + (spec["i"] + j + s) % 2 for j in range(len(spec["h"]))])
        fun = {v: [r.dom[v].index(x) for x in t.val.values()] for v, t in r.fun.items()}
        for ps in itertools.product(*[list(simplex(len(r.prob[u]), 3)) for u in r.exo]):
            par.append(RefSCM(r.pa, dict(zip(r.exo, ps)), r.dom, fun=fun))
    tabs = []
    for r in par:
        t = {}
        for u, p in r.us():
            if p == 0: continue
            a = r.solve(u); k = tuple(a[v] for v in names)
            t[k] = t.get(k, 0.0) + p
        tabs.append(t)
    space = list(itertools.product(*[D[v] for v in names]))
    qpar = {v: list(m.qgraph.predecessors(v)) for v in names}
    comps = [sorted(c) for c in {frozenset(m.get_endo_ccomponent(v)) for v in names}]
    for k, ms in enumerate(multisets(len(space), spec["rows"])):
        if n == 2 and k % 2 != spec["part"]: continue
        rows = [space[i] for i in ms]
        df = frame(rows, names, k)
        f0 = snap.frame(df)
        case = ["ml", n, str(spec["e"]), str(spec["h"]), [str(r) for r in rows]]
        rec.at(case); rec.state(case)
        term = {v: 0.0 for v in names}
        for r in rows:
            for v in names:
                den = [s for s in rows if all(s[names.index(p)] == r[names.index(p)] for p in qpar[v])]
                term[v] += math.log(sum(s[names.index(v)] == r[names.index(v)] for s in den) / len(den))
        exp = sum(term.values())
        got = float(m.max_log_likelihood(df))
        rec.check(close(got, exp), f"maximum log-likelihood {got} instead of {exp}", case)
        for C in comps:
            g = float(m.max_log_likelihood(df, variables=C))
            rec.check(close(g, sum(term[v] for v in C)), f"maximum log-likelihood of {C}: {g}", case)
        best = max((sum(math.log(t[r]) for r in rows) for t in tabs if all(t.get(r, 0) > 0 for r in rows)), default=None)
        if best is not None:
            rec.check(got >= best - 1e-9, f"maximum log-likelihood {got} below {best}, reached by a parameterisation", case)
            rec.step(len(tabs))
        qf = m.get_qfactorisation(df)
        for v in names:
            f = qf[v]
            rec.check(set(f.domain) == {v} | set(qpar[v]), f"q-factor of {v}", case)
            tab = read(f)
            for a in tab.assignments():
                den = [s for s in rows if all(s[names.index(p)] == a[p] for p in qpar[v])]
                if den: rec.check(close(tab.at(a), sum(s[names.index(v)] == a[v] for s in den) / len(den)), f"empirical q-factor of {v} at {a}: {tab.at(a)}", case)
        rec.step(); rec.trace(); rec.outcome((spec["i"], round(got, 6)))
        rec.check(snap.frame(df) == f0, "data changed", case)
    rec.check(snap.model(m) == base, "model changed", case)


def run(spec, rec):
    {"inf": run_inf, "missing": run_missing, "ml": run_ml, "winf": run_winf, "wml": run_wml}[spec["kind"]](spec, rec)
    rec.sample(spec)
