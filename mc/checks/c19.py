"""C19: sampling: every resolution of the random choices is executed; the distribution of complete samples is compared with the model's."""
import itertools
import numpy as np
from ..mgen import *
from ..fgen import STORES, CFGS, mk, vals
from ..draws import Draws
from .. import snap


def BOUNDS(tier):
    q = tier == "quick"
    return dict(joint="all orders of 1-2 variables (cards 1-3, all state types), 4 stores, zeros, 1-3 rows", conditional="1-2 left and 1-2 right variables, all orders (3 variables: every %s)" % ("8th" if q else "2nd") + ", all sequences of <=%d observations, key orders, extra variables" % (2 if q else 3),
                networks="all DAGs with <=3 nodes, 1-2 rows (3 rows: <=2 nodes); 4 nodes: %s, 1 row" % ("up to isomorphism" if q else "all"),
                causal="all graphs with <=2 endogenous (3: %s) and <=2 exogenous variables, 1-2 rows, endogenous or all variables, frame or list" % ("every 9th" if q else "every 2nd"),
                random="every resolution of every random choice (real-valued draws: grid of 8)")


def specs(tier):
    q = tier == "quick"
    out = [dict(kind="joint", cfg=c, vt=v) for c in range(4) for v in STORES]
    out += [dict(kind="cond", cfg=c, vt=v, n=2 if q else 3, stride=8 if q else 2) for c in range(4) for v in STORES]
    for n in (1, 2, 3):
        for i, e in enumerate(labelled_dags(n)): out.append(dict(kind="bn", n=n, e=e, i=i, rows=3 if n < 3 else 2))
    for i, e in enumerate(iso_dags(4) if q else labelled_dags(4)): out.append(dict(kind="bn", n=4, e=e, i=i, rows=1))
    for n in (1, 2, 3):
        for k, (e, h) in enumerate(scm_structs(n, 2)):
            if not h or (n == 3 and k % (9 if q else 2)): continue
            out.append(dict(kind="scm", n=n, e=e, h=h, i=k, rows=2 if n < 3 else 1))
    return out


def row_key(row, names):
    return tuple((v, type(row[v]).__name__ in ("bool", "bool_"), str(row[v])) if isinstance(row[v], (str, bool, np.bool_)) else (v, False, str(float(row[v]))) for v in names)


def gather(rec, fn, parse, grid_ok=True):
    """{complete sample: probability} over all resolutions"""
    d = Draws()
    acc, n, tot = {}, 0, 0.0
    for res, p, k in d.explore(fn):
        key = parse(res)
        acc[key] = acc.get(key, 0.0) + p
        tot += p; n += 1; rec.step(max(1, k))
    if d.real: rec.note("random draws not under control")
    rec.trace(n)
    return acc, d.real


def compare(rec, got, want, real, case):
    for k in got: rec.check(want.get(k, 0.0) > 0, f"impossible sample {k}", case)
    if real: return
    for k, p in want.items():
        if p > 0: rec.check(close(got.get(k, 0.0), p, 1e-9), f"sample {k} drawn with probability {got.get(k, 0.0)} instead of {p}", case)
    rec.outcome(sorted((str(k), round(p, 9)) for k, p in want.items()))


def product(dists):
    """joint of independent rows, each a dict key -> p"""
    out = {(): 1.0}
    for d in dists: out = {k + (r,): p * q for k, p in out.items() for r, q in d.items() if p * q > 0}
    return out


def parse_rows(rec, rows, names, n, case):
    rec.check(isinstance(rows, list) and len(rows) == n, f"{rows} is not a list of {n} rows", case)
    for r in rows: rec.check(isinstance(r, dict) and set(r) == set(names), f"row {r} is not over {names}", case)
    return tuple(row_key(r, names) for r in rows)


def run_joint(spec, rec):
    cfg = CFGS[spec["cfg"]]
    names = list(cfg)
    for k in (1, 2):
        for sc in itertools.permutations(names, k):
            dom = {v: cfg[v] for v in sc}
            n = int(np.prod([len(d) for d in dom.values()]))
            for z in (0, 1):
                w = weights(n, n + z, zeros=bool(z) and n > 1)
                if z and n > 2: w[(n + 1) % n] = 0; w = [x / sum(w) for x in w]
                for rows in (1, 2, 3):
                    if n ** rows > 220: continue
                    f = mk(dom, w, spec["vt"])
                    base = snap.factor(f)
                    dist = {row_key(dict(zip(sc, a)), sc): p for a, p in zip(itertools.product(*dom.values()), w)}
                    want = product([dist] * rows)
                    case = ["joint", spec["cfg"], spec["vt"], sc, z, rows]
                    rec.at(case); rec.state(case)
                    got, real = gather(rec, lambda: f.sample(rows), lambda r: parse_rows(rec, r, sc, rows, case))
                    compare(rec, got, want, real, case)
                    if rows < 3:
                        def tup(r):
                            rec.check(len(r) == rows and all(len(x) == k for x in r), f"{r}", case)
                            return parse_rows(rec, [dict(zip(f.left_domain, x)) for x in r], sc, rows, case)
                        got, real = gather(rec, lambda: f.sample(rows, varnames=False), tup)
                        compare(rec, got, want, real, case + ["tuples"])
                    if rows == 1:
                        got, real = gather(rec, lambda: f.sample(), lambda r: parse_rows(rec, r, sc, 1, case))
                        compare(rec, got, want, real, case + ["default size"])
                    rec.check(snap.factor(f) == base, "the factor changed", case)
            for bad in (0, -1):
                try: f.sample(bad)
                except ValueError: pass
                else: rec.fail(f"sample of size {bad}", case)


def run_cond(spec, rec):
    cfg = CFGS[spec["cfg"]]
    names = list(cfg)
    for nl, nr in ((1, 1), (1, 2), (2, 1)):
        for sc in itertools.permutations(names, nl + nr):
            for left in itertools.combinations(sc, nl):
                right = [v for v in sc if v not in left]
                dom = {v: cfg[v] for v in sc}
                sz = int(np.prod([len(cfg[v]) for v in left]))
                confs = list(itertools.product(*[cfg[v] for v in right]))
                if sz == 1 or (nl + nr == 3 and mix(spec["cfg"], sc, left, spec["vt"]) % spec["stride"]): continue
                cpt = {c: weights(sz, j + 2, zeros=j % 2 == 1) for j, c in enumerate(confs)}
                def val(a):
                    j = 0
                    for v in left: j = j * len(cfg[v]) + cfg[v].index(a[v])
                    return cpt[tuple(a[v] for v in right)][j]
                f = mk(dom, [val(dict(zip(sc, a))) for a in itertools.product(*dom.values())], spec["vt"], left=left)
                base = snap.factor(f)
                dist = {c: {row_key(dict(zip(left, a)), left): p for a, p in zip(itertools.product(*[cfg[v] for v in left]), cpt[c])} for c in confs}
                for n in range(1, spec["n"] + 1):
                    for q, seq in enumerate(itertools.product(confs, repeat=n)):
                        if sz ** n > 150 or (n > 1 and len(confs) > 3 and q % 3): continue
                        want = product([dist[c] for c in seq])
                        for style in ((0, 1, 2) if n > 1 or q == 0 else (0, 1)):
                            obs = []
                            for j, c in enumerate(seq):
                                o = dict(zip(right, c))
                                if style == 1 and (j % 2 or n == 1): o = dict(reversed(list(o.items())))       # keys in another order
                                if style == 2: o = {"Extra": j, **o}                               # a variable the factor does not have
                                obs.append(o)
                            if style == 1 and len(right) < 2: continue
                            o0 = [dict(o) for o in obs]
                            case = ["cond", spec["cfg"], spec["vt"], sc, left, str(obs)]
                            rec.at(case); rec.state(case)
                            got, real = gather(rec, lambda: f.sample_conditional(obs), lambda r: parse_rows(rec, r, left, n, case))
                            compare(rec, got, want, real, case)
                            if q % 4 == 1:
                                got, real = gather(rec, lambda: f.sample_conditional(obs, varnames=False), lambda r: parse_rows(rec, [dict(zip(f.left_domain, x)) for x in r], left, n, case))
                                compare(rec, got, want, real, case + ["tuples"])
                            rec.check(obs == o0, "the observations changed", case)
                rec.check(snap.factor(f) == base, "the factor changed", case)
                try: f.sample_conditional([])
                except ValueError: pass
                else: rec.fail("no observations accepted", case)


def parse_frame(rec, df, names, n, case):
    import pandas as pd
    rec.check(isinstance(df, pd.DataFrame), f"{type(df)} instead of a data frame", case)
    rec.check(len(df) == n and sorted(df.columns) == sorted(names), f"{len(df)} rows over {list(df.columns)} instead of {n} over {names}", case)
    return tuple(row_key(r, names) for r in df.to_dict("records"))


def states_ok(row_keys):
    return True


def run_bn(spec, rec):
    n, e = spec["n"], spec["e"]
    names = ["X", "X1", "Y", "A"][:n]
    for cfg in range(4):
        if n == 4 and cfg != spec["i"] % 4: continue
        dom = {v: CFGS[cfg][v] for v in names}
        edges = [(names[a], names[b]) for a, b in e]
        for zeros in (0, 1):
            ref = RefBN(names, edges, dom, zeros=zeros, salt=spec["i"])
            j = ref.joint()
            dist = {}
            for a in itertools.product(*[dom[v] for v in names]):
                p = j[tuple(dom[v].index(s) for v, s in zip(names, a))]
                if p > 0: dist[row_key(dict(zip(names, a)), names)] = float(p)
            for rows in range(1, spec["rows"] + 1):
                if len(dist) ** rows > 130: continue
                for as_pandas in (True, False):
                    if not as_pandas and rows == 3: continue
                    case = ["bn", str(edges), cfg, zeros, rows, as_pandas]
                    rec.at(case); rec.state(case)
                    m = ref.build(layout=(spec["i"] + cfg) % 4, vtype=STORES[(spec["i"] + cfg + zeros) % 4])
                    base = snap.model(m)
                    parse = (lambda d: parse_frame(rec, d, names, rows, case)) if as_pandas else (lambda d: parse_rows(rec, d, names, rows, case))
                    fn = (lambda: m.sample(rows)) if as_pandas and zeros else (lambda: m.sample(rows, as_pandas=as_pandas))
                    got, real = gather(rec, fn, parse)
                    compare(rec, got, product([dist] * rows), real, case)
                    rec.check(snap.model(m) == base, "the model changed", case)


def run_scm(spec, rec):
    n, e, h = spec["n"], spec["e"], spec["h"]
    for cfg in range(4):
        if cfg % 2 != spec["i"] % 2 and n > 1: continue
        names = ["X", "Y", "A"][:n]
        ref = make_scm(names, e, h, {v: CFGS[cfg][v] for v in names}, salt=spec["i"] + cfg, zeros=bool(cfg % 2), exo_names=["U", "X1", "W"])
        allv = ref.endo + ref.exo
        full, endo = {}, {}
        for u, p in ref.us():
            if p <= 0: continue
            a = ref.solve(u)
            full[row_key(a, allv)] = p
            k = row_key(a, ref.endo); endo[k] = endo.get(k, 0.0) + p
        for rows in range(1, spec["rows"] + 1):
            if len(full) ** rows > 150: continue
            for which in (0, 1):
                for as_pandas in (True, False):
                    vs, dist = (allv, full) if which == 0 else (ref.endo, endo)
                    case = ["scm", n, str(e), str(h), cfg, rows, which, as_pandas]
                    rec.at(case); rec.state(case)
                    m = ref.build(kind="mult" if spec["i"] % 2 else "det", layout=(spec["i"] + cfg) % 4, cast=True)
                    base = snap.model(m)
                    parse = (lambda d: parse_frame(rec, d, vs, rows, case)) if as_pandas else (lambda d: parse_rows(rec, d, vs, rows, case))
                    meth = m.sample if which == 0 else m.sampleEndogenous
                    got, real = gather(rec, (lambda: meth(rows)) if as_pandas and cfg % 2 else (lambda: meth(rows, as_pandas=as_pandas)), parse)
                    compare(rec, got, product([dist] * rows), real, case)
                    rec.check(snap.model(m) == base, "the model changed", case)


def run(spec, rec):
    {"joint": run_joint, "cond": run_cond, "bn": run_bn, "scm": run_scm}[spec["kind"]](spec, rec)
    rec.sample(spec)
