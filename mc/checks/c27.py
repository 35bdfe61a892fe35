"""C27: interval factors: the bounds given or enveloped, every view, restrictions, renamings, refusals."""
import itertools
import numpy as np
from ..ref import close, same_states
from ..fgen import *

FORMS = ["flat", "array", "nested", "scalar", "ints"]


def BOUNDS(tier):
    q = tier == "quick"
    return dict(scopes="every ordered scope of <=%d variables, 4 configurations of states" % (2 if q else 3), sides="every split into left and right, given either way", stores=STORES, forms=FORMS,
                restrictions="every set of observed variables x every state, one after another, with foreign variables", renames="total, partial, swap",
                wide="15 scopes of 1-5 variables with 1-11 states, observations thinned", envelopes="1-3 precise factors over the same variables in every order, values rotating; different domains refused")


def specs(tier):
    out = []
    for s in scopes(NAMES, 2 if tier == "quick" else 3):
        for c in range(4):
            for vt in STORES: out.append(dict(kind="given", s=list(s), cfg=c, vt=vt))
    for c in range(4):
        for vt in STORES: out.append(dict(kind="given", s=["Y", "X", "X1"], cfg=c, vt=vt))
    for i, s in enumerate(WSCOPES):
        for k, vt in enumerate(STORES):
            if tier == "quick" and (i + k) % 4: continue
            out.append(dict(kind="given", s=s, cfg="wide", vt=vt))
    for k in range(4 if tier == "quick" else 5):
        for s in itertools.combinations(NAMES, k):
            for c in range(4):
                if k == 4 and c % 2: continue
                out.append(dict(kind="envelope", s=list(s), cfg=c, vt=STORES[(c + k) % 4]))
    out.append(dict(kind="refuse"))
    return out


def run(spec, rec):
    from bcause.factors.values.store import DataStore
    before = DataStore.DEFAULT_STORE
    try:
        {"given": given, "envelope": envelope, "refuse": refuse}[spec["kind"]](spec, rec)
    finally:
        DataStore.set_default(before)
    rec.sample(spec)


def supply(form, v, shape):
    if form == "flat": return list(v), list(v)
    if form == "array": return np.array(v), list(v)
    if form == "nested": return (np.array(v).reshape(shape).tolist() if shape else list(v)), list(v)
    if form == "scalar": return v[0], [v[0]] * len(v)
    iv = [int(10 * x) for x in v]
    return list(iv), iv


def look(rec, f, dom, left, low, up, case, what):
    """every view of f against {assignment: bound}; dom in the order of the factor"""
    rec.at(case)
    vs = list(dom)
    rec.check(sorted(f.variables) == sorted(vs) and list(f.domain) == list(f.variables), f"{what}: variables {f.variables}, domain {dict(f.domain)}", case)
    for v in vs: rec.check(same_states(list(f.domain[v]), list(dom[v])), f"{what}: states of {v}: {f.domain[v]}", case)
    rec.check(sorted(f.left_vars) == sorted(left) and sorted(f.right_vars) == sorted(set(vs) - set(left)), f"{what}: left {f.left_vars}, right {f.right_vars}, expected left {left}", case)
    rec.check(set(f.left_domain) == set(left) and set(f.right_domain) == set(vs) - set(left), f"{what}: left domain {f.left_domain}, right domain {f.right_domain}", case)
    order = list(f.variables)
    space = [dict(zip(order, s)) for s in itertools.product(*[f.domain[v] for v in order])]
    key = lambda a: frozenset(a.items())
    el, eu = [low[key(a)] for a in space], [up[key(a)] for a in space]
    for a, l, u in zip(space, el, eu):
        gl, gu = f.get_value(**a, _bound="low"), f.get_value(_bound="up", **dict(reversed(list(a.items()))))
        rec.check(close(gl, l) and close(gu, u), f"{what}: bounds [{gl}, {gu}] instead of [{l}, {u}] at {a}", case)
        rec.step(2)
    vals = list(f.values)
    rec.check(len(vals) == 2 * len(space) and all(close(x, y) for x, y in zip(vals, el + eu)), f"{what}: values {vals} instead of {el + eu}", case)
    rec.check(list(f.values_list) == vals, f"{what}: value list {f.values_list}", case)
    vd = {frozenset(dict(k).items()): x for k, x in f.values_dict.items()}
    rec.check(len(vd) == 2 * len(space) and all(close(vd[key({**a, "_bound": b})], x) for b, e in (("low", el), ("up", eu)) for a, x in zip(space, e)), f"{what}: dictionary of values {f.values_dict}", case)
    for st, e in ((f.store_low, el), (f.store_up, eu)):
        rec.check(list(st.variables) == order and all(close(st.get_value(**a), x) for a, x in zip(space, e)), f"{what}: {st} shows {st.values_list} instead of {e}", case)
    if space:
        for b, e in (("low", el), ("up", eu)):
            got = f.prob([{**a, "_bound": b} for a in space])
            rec.check(len(got) == len(e) and all(close(x, y) for x, y in zip(got, e)), f"{what}: probabilities {got}", case)
    rec.check(f.name == "P(" + ",".join(f.left_vars) + ("|" + ",".join(f.right_vars) if f.right_vars else "") + ")", f"{what}: name {f.name}", case)
    rec.check("_bound" not in repr(f), f"{what}: {f!r}", case)
    rec.step(4)


def given(spec, rec):
    from bcause.factors.imprecise import IntervalProbFactor
    w = spec["cfg"] == "wide"
    cfg, s, vt = WCFG if w else CFGS[spec["cfg"]], spec["s"], spec["vt"]
    dom = {v: list(cfg[v]) for v in s}
    n, shape = size(dom), [len(dom[v]) for v in s]
    space = [frozenset(zip(s, k)) for k in itertools.product(*dom.values())]
    for fi, form in enumerate(FORMS):
        if w and fi not in (0, 2): continue
        a, b = (wvals if w else vals)(n, fi), (wvals if w else vals)(n, fi + 3)
        (gl, low), (gu, up) = supply(form, [min(x, y) for x, y in zip(a, b)], shape), supply(form, [max(x, y) for x, y in zip(a, b)], shape)
        L, U = dict(zip(space, low)), dict(zip(space, up))
        for left in (subsets(s) if not w else [s[:1], s[1:], s[::2], s]):
            right = [v for v in s if v not in left]
            for how in range(4 if fi == 0 else 1):
                kw = [dict(left_vars=list(left)), dict(right_vars=right, left_vars=list(left)), dict(right_vars=list(reversed(right)), left_vars=list(reversed(left))), dict(right_vars=right)][how]
                case = ["given", vt, spec["cfg"], s, form, left, how]
                rec.at(case); rec.state(case)
                f = IntervalProbFactor({v: list(d) for v, d in dom.items()}, gl, gu, vtype=vt, **kw)
                look(rec, f, dom, left, L, U, case, "factor")
                rec.trace()
                if w:
                    if how == 0 and fi == 0: derived(rec, f, dom, list(left), L, U, case, thin=n // 4)
                elif how == 0 and fi in (0, 4): derived(rec, f, dom, list(left), L, U, case)
        if form == "array":
            gl.fill(7.0); gu.fill(8.0)
            look(rec, f, dom, left, L, U, case, "after changing the arrays it was built from")
        if form == "nested" and shape and shape[0]:
            f2 = IntervalProbFactor(dom, gl, gu, vtype=vt)
            look(rec, f2, dom, s, L, U, case, "with no sides given")


def derived(rec, f, dom, left, L, U, case, thin=1):
    s = list(dom)
    n = 0
    for ob in subsets(s):
        for st in itertools.product(*[dom[v] for v in ob]):
            n += 1
            if n % thin: continue
            obs = dict(zip(ob, st))
            for foreign in ({}, {"Zz": 3}):
                c = case + ["restrict", list(obs.items()), bool(foreign)]
                rec.at(c)
                g = f.R(**{**foreign, **obs}) if foreign else f.restrict(**dict(reversed(list(obs.items()))))
                d2 = {v: dom[v] for v in s if v not in obs}
                sub = lambda T: {k - frozenset(obs.items()): x for k, x in T.items() if frozenset(obs.items()) <= k}
                look(rec, g, d2, [v for v in left if v in d2], sub(L), sub(U), c, "restricted factor")
                rec.state(c); rec.trace()
            if len(obs) == 2:
                g = f
                for v, x in reversed(list(obs.items())): g = g.restrict(**{v: x})
                look(rec, g, d2, [v for v in left if v in d2], sub(L), sub(U), c + ["one by one"], "factor restricted twice")
            if obs and d2:
                # a derived factor is independent
                g.store.set_value(5.0, {**{v: d2[v][0] for v in d2}, "_bound": "low"})
    look(rec, f, dom, left, L, U, case + ["after"], "original after restrictions")
    maps = [{v: v + "n" for v in s}, {s[0]: "Q"} if s else {}, {s[0]: s[-1], s[-1]: s[0]} if len(s) > 1 else {}, {"Zz": "Q"}]
    for m in maps:
        c = case + ["rename", str(m)]
        rec.at(c)
        g = f.rename_vars(dict(m))
        r = lambda v: m.get(v, v)
        ren = lambda T: {frozenset((r(v), x) for v, x in k): y for k, y in T.items()}
        look(rec, g, {r(v): d for v, d in dom.items()}, [r(v) for v in left], ren(L), ren(U), c, "renamed factor")
        rec.state(c); rec.trace()


def envelope(spec, rec):
    from bcause.factors.imprecise import IntervalProbFactor
    from bcause.factors.values.store import DataStore
    cfg, s, vt = CFGS[spec["cfg"]], spec["s"], spec["vt"]
    DataStore.set_default(vt)
    dom = {v: list(cfg[v]) for v in s}
    n = size(dom)
    space = [frozenset(zip(s, k)) for k in itertools.product(*dom.values())]
    tables = [dict(zip(space, vals(n, 5 * j, neg=j == 2))) for j in range(3)]
    orders = list(itertools.permutations(s))
    for m in (1, 2, 3):
        for os in itertools.product(orders, repeat=min(m, 2)):
            os = list(os) + [orders[len(orders) // 2]] * (m - len(os))
            if len(s) > 3 and mix4(os) % 7: continue
            for k, left in enumerate(subsets(s)):
                if len(s) > 2 and k % 3 != (m + len(left)) % 3: continue
                fs = []
                for j, o in enumerate(os):
                    d = {v: list(dom[v]) for v in o}
                    fs.append(mk(d, [tables[j][frozenset(zip(o, c))] for c in itertools.product(*d.values())], STORES[(j + k) % 4] if k % 2 else vt, left=left))
                case = ["envelope", vt, spec["cfg"], [list(o) for o in os], left]
                rec.at(case); rec.state(case)
                f = IntervalProbFactor.from_precise(fs)
                L = {c: min(t[c] for t in tables[:m]) for c in space}
                U = {c: max(t[c] for t in tables[:m]) for c in space}
                look(rec, f, dom, left, L, U, case, "envelope")
                rec.trace(); rec.outcome((tuple(L.values()), tuple(U.values())))
                if m == 2 and k == len(s) // 2: derived(rec, f, {v: dom[v] for v in os[0]}, list(left), L, U, case)


def mix4(x):
    from ..mgen import mix
    return mix(x)


def refuse(spec, rec):
    from bcause.factors.imprecise import IntervalProbFactor
    dom = {"X": ["x0", "x1"], "Y": [0, 1, 2]}
    a = mk(dom, vals(6), "numpy")
    bad = [("sizes differ", lambda: IntervalProbFactor(dom, vals(6), vals(5))), ("too few", lambda: IntervalProbFactor(dom, vals(5), vals(5))), ("too many", lambda: IntervalProbFactor(dom, vals(7), vals(7))),
           ("underscore", lambda: IntervalProbFactor({"_X": [0, 1]}, [.1, .2], [.3, .4])), ("domain", lambda: IntervalProbFactor([("X", [0, 1])], [.1, .2], [.3, .4])),
           ("other variable", lambda: IntervalProbFactor.from_precise([a, mk({"X": dom["X"], "Z": [0, 1, 2]}, vals(6), "numpy")])),
           ("other states", lambda: IntervalProbFactor.from_precise([a, mk({"X": dom["X"], "Y": [0, 1, 3]}, vals(6), "numpy")])),
           ("fewer variables", lambda: IntervalProbFactor.from_precise([a, mk({"X": dom["X"]}, vals(2), "numpy")])),
           ("third differs", lambda: IntervalProbFactor.from_precise([a, a, mk({"X": dom["X"]}, vals(2), "numpy")])),
           ("sides do not cover", lambda: IntervalProbFactor(dom, vals(6), vals(6), left_vars=["X"], right_vars=["X"]))]
    for what, fn in bad:
        case = ["refuse", what]
        rec.at(case); rec.state(case); rec.step(); rec.trace()
        try:
            f = fn()
        except ValueError:
            rec.outcome(what); continue
        rec.fail(f"accepted: {f!r}", case)
