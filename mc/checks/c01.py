"""C01: factor arithmetic. Every ordered pair of ordered scopes x operation x storage x state order x zero pattern."""
import itertools, operator
import numpy as np
from ..ref import Table, read, diff
from ..fgen import *

OPS = {"*": operator.mul, "+": operator.add, "-": operator.sub, "/": operator.truediv}
NAMED = {"*": "multiply", "+": "addition", "-": "subtract", "/": "divide"}


def div(x, y):
    if y == 0: return 0.0 if x == 0 else None     # None: unspecified
    return x / y


REF = {"*": lambda x, y: x * y, "+": lambda x, y: x + y, "-": lambda x, y: x - y, "/": div}


def BOUNDS(tier):
    return dict(variables=4, max_scope=3 if tier == "quick" else 4, cards="1..3", stores=STORES, operations=list(OPS),
                note="all ordered scope pairs; all state permutations of shared variables for scopes<=2 (reversal for larger); "
                     "all zero patterns of two small divisor shapes; scalars int/float/np.int64/np.float64 on both sides",
                wide="15 scopes of 1-5 variables with 1-11 states, pairs (quick: every third) with rotated states and zeros")


def specs(tier):
    out = []
    for vt in STORES:
        out.append(dict(kind="scalar", vt=vt))
    for vt in STORES:
        out.append(dict(kind="zeros", vt=vt))
    ncfg = 3 if tier == "quick" else 4
    maxs = 3
    for vt in STORES:
        for c in range(ncfg):
            for s1 in scopes(NAMES, maxs):
                out.append(dict(kind="pair", vt=vt, cfg=c, s1=list(s1), maxs=maxs if len(s1) < 3 or tier != "quick" else 2))
    if tier == "thorough":
        for vt in STORES:
            for c in range(4):
                for s1 in itertools.permutations(NAMES, 4):
                    out.append(dict(kind="pair", vt=vt, cfg=c, s1=list(s1), maxs=4))
    else:
        for vt in STORES:
            for s1 in (["X", "X1", "Y"], ["Y", "A", "X"], ["A", "Y", "X1", "X"]):
                out.append(dict(kind="pair", vt=vt, cfg=1, s1=s1, maxs=4, mins=3))
    out.sort(key=lambda s: len(s.get("s1", [])))
    for vt in STORES:
        for i in range(len(WSCOPES)):
            out.append(dict(kind="wide", vt=vt, i=i, thin=3 if tier == "quick" else 1))
    return out


def wide(spec, rec):
    """Scopes of up to 5 variables with up to 11 states: every pair of scopes, the second with its states rotated."""
    vt, i = spec["vt"], spec["i"]
    d1 = {v: WCFG[v] for v in WSCOPES[i]}
    for j, s2 in enumerate(WSCOPES):
        if (i + j) % spec["thin"] or size({v: WCFG[v] for v in set(WSCOPES[i]) | set(s2)}) > (700 if spec["thin"] > 1 else 2000): continue
        for k in (0, 1, 2):
            d2 = {v: rotated(WCFG[v], k * (1 + x)) for x, v in enumerate(s2)}
            if k and not set(s2) & set(d1): continue
            v1, v2 = wvals(size(d1), i), wvals(size(d2), j + 3, neg=True)
            if k == 1: v2 = [0.0 if (x * 7) % 5 == 0 else y for x, y in enumerate(v2)]
            pair(rec, d1, v1, d2, v2, vt, ["wide", i, j, k], ops=list(OPS)[(i + j + k) % 2::2] if spec["thin"] > 1 else OPS)


def judge(rec, res, t1, t2, op, vt, case):
    rec.at(case)
    ref = t1.combine(t2, REF[op])
    skip = {k for k, x in ref.val.items() if x is None}
    for k in skip: ref.val[k] = 0.0
    d = diff(read(res), ref, skip=skip)
    rec.check(d is None, f"{op} in {vt}: {d}")
    # single value reads agree, extra variables ignored
    some = list(ref.assignments())
    for a in (some if len(some) <= 4 else [some[0], some[len(some) // 2], some[-1]]):
        k = tuple(a[v] for v in ref.vars)
        if k in skip: continue
        got = res.get_value(**a)
        from ..ref import close
        rec.check(close(got, ref.at(a)), f"{op} in {vt}: get_value({a}) = {got}, not {ref.at(a)}")
    rec.check(type(res.store) is STORE_OF[vt], f"{op}: result stored as {res.store.__class__.__name__}")
    rec.step(); rec.trace()
    rec.state(case); rec.outcome(tuple(round(float(x), 9) for x in ref.val.values()))
    rec.sample(dict(case=case, first=float(list(ref.val.values())[0])))


def pair(rec, dom1, v1, dom2, v2, vt, tag, ops=OPS, intv=False):
    f1, f2 = mk(dom1, v1, vt), mk(dom2, v2, vt)
    t1, t2 = Table(dom1, v1), Table(dom2, v2)
    for op in ops:
        case = [vt, tag, [list(dom1.items()), list(dom2.items())], op]
        rec.at(case)
        judge(rec, OPS[op](f1, f2), t1, t2, op, vt, case)


STORE_OF = {}


def run(spec, rec):
    vt = spec["vt"]
    STORE_OF[vt] = type(mk({"X": ["a", "b"]}, [0.5, 0.5], vt).store)
    if spec["kind"] == "wide":
        wide(spec, rec)
    elif spec["kind"] == "pair":
        cfg, s1 = CFGS[spec["cfg"]], spec["s1"]
        dom1 = {v: cfg[v] for v in s1}
        for s2 in scopes(NAMES, spec["maxs"]):
            if len(s2) < spec.get("mins", 0): continue
            dom2 = {v: cfg[v] for v in s2}
            shared = [v for v in s2 if v in s1]
            pair(rec, dom1, vals(size(dom1)), dom2, vals(size(dom2), 3), vt, "plain")
            # the same states listed in another order in the second operand
            if shared:
                if len(s1) <= 2 and len(s2) <= 2:
                    perms = itertools.product(*[list(itertools.permutations(cfg[v])) for v in shared])
                else:
                    perms = [tuple(tuple(reversed(cfg[v])) for v in shared)]
                for ps in perms:
                    d2 = dict(dom2)
                    for v, p in zip(shared, ps): d2[v] = list(p)
                    if d2 == dom2: continue
                    pair(rec, dom1, vals(size(dom1)), d2, vals(size(d2), 5), vt, "permuted", ops=["*", "-", "/"])
    elif spec["kind"] == "zeros":
        cfg = CFGS[1]
        shapes = [(["X"], ["X"]), (["X", "Y"], ["X"]), (["X", "Y"], ["Y"]), (["Y"], ["X", "Y"]), (["X"], ["A"]),
                  (["X", "Y"], ["Y", "X"]), (["X"], []), ([], ["X"])]
        for s1, s2 in shapes:
            d1, d2 = {v: cfg[v] for v in s1}, {v: cfg[v] for v in s2}
            n1, n2 = size(d1), size(d2)
            for z2 in itertools.product([0, 1], repeat=n2):
                for z1 in itertools.product([0, 1], repeat=n1):
                    a = [x * z for x, z in zip(vals(n1), z1)]
                    b = [x * z for x, z in zip(vals(n2, 2), z2)]
                    if n1 + n2 > 6 and sum(z1) + sum(z2) not in (1, 2, 3, 5, 6, 7): continue
                    pair(rec, d1, a, d2, b, vt, ["zeros", z1, z2], ops=["/", "*"])
        # integer-valued tables
        for s1, s2 in shapes:
            d1, d2 = {v: cfg[v] for v in s1}, {v: cfg[v] for v in s2}
            a = [(3 * i + 1) % 5 for i in range(size(d1))]
            b = [(2 * i + 1) % 4 for i in range(size(d2))]
            pair(rec, d1, a, d2, b, vt, "ints")
            pair(rec, d1, a, d2, vals(size(d2)), vt, "mixed")
    else:
        for c, cfg in enumerate(CFGS):
            for s in scopes(NAMES, 2):
                dom = {v: cfg[v] for v in s}
                v = vals(size(dom), neg=True)
                if len(v) > 1: v[0] = 0.0
                t = Table(dom, v)
                f = mk(dom, v, vt)
                for k in (2, 0, -3, 2.5, 0.0, -0.5, np.float64(1.5), np.int64(3), np.float64(0)):
                    tk = Table({}, [float(k)])
                    for op in OPS:
                        case = [vt, "scalar", c, list(s), op, str(type(k).__name__), float(k)]
                        rec.at(case)
                        if not (op == "/" and k == 0):
                            judge(rec, OPS[op](f, k), t, tk, op, vt, case + ["right"])
                        rec.at(case + ["left"])
                        judge(rec, OPS[op](k, f), tk, t, op, vt, case + ["left"])
                    for op in OPS:
                        if op == "/" and k == 0: continue
                        rec.at([vt, "method", op, float(k)])
                        judge(rec, getattr(f, NAMED[op])(k), t, tk, op, vt, [vt, "method", c, list(s), op, type(k).__name__, float(k)])
