"""C05: every view of every factor (all scopes, configurations, stores, ways of supplying the values)."""
import itertools, math, copy
import numpy as np
from ..ref import Table, read, diff, close, type_ok
from ..fgen import *

FORMS = ["flat", "tuple", "flatarray", "nested", "ndarray", "fortran", "scalar", "ints", "intarray"]


def BOUNDS(tier):
    return dict(max_scope=3 if tier == "quick" else 4, cards="1..3", stores=STORES, forms=FORMS, array_orders="all permutations (5 variables: every 7th)", wide="15 scopes of 1-5 variables with 1-11 states")


def specs(tier):
    out = []
    for s in scopes(NAMES, 3 if tier == "quick" else 4):
        for vt in STORES:
            for c in range(4):
                out.append(dict(vt=vt, cfg=c, s=list(s)))
    if tier == "quick":
        out += [dict(vt=vt, cfg=1, s=list(s)) for s in (NAMES, NAMES[::-1]) for vt in STORES]
    out.sort(key=lambda s: len(s["s"]))
    for i, s in enumerate(WSCOPES):
        for vt in STORES: out.append(dict(vt=vt, cfg="wide", s=s))
    return out


def supply(form, shape, v):
    """(object given to the constructor, values it stands for in row-major order, function that changes the object)"""
    n = int(np.prod(shape)) if shape else 1

    def scramble_list(o):
        for i in range(len(o)):
            if isinstance(o[i], list): scramble_list(o[i])
            else: o[i] = 77.0

    if form == "flat": o = list(v); return o, v, lambda: scramble_list(o)
    if form == "tuple": return tuple(v), v, lambda: None
    if form == "flatarray": o = np.array(v); return o, v, lambda: o.fill(77.0)
    if form == "nested":
        o = np.array(v).reshape(shape).tolist() if shape else [v[0]]
        return o, v, lambda: scramble_list(o)
    if form == "ndarray": o = np.array(v).reshape(shape) if shape else np.array(v); return o, v, lambda: o.fill(77.0)
    if form == "fortran":
        o = np.asfortranarray(np.array(v).reshape(shape)) if shape else np.array(v)
        return o, v, lambda: o.fill(77.0)
    if form == "scalar": return 0.25, [0.25] * n, lambda: None
    iv = [(5 * i + 1) % 7 for i in range(n)]
    if form == "ints": o = list(iv); return o, iv, lambda: scramble_list(o)
    if form == "intarray": o = np.array(iv).reshape(shape) if shape else np.array(iv); return o, iv, lambda: o.fill(77)


def run(spec, rec):
    from bcause.factors import MultinomialFactor
    vt, cfg, s = spec["vt"], CFGS[spec["cfg"]] if spec["cfg"] != "wide" else WCFG, spec["s"]
    dom = {v: list(cfg[v]) for v in s}
    shape = [len(dom[v]) for v in s]
    n = size(dom)
    for form in (FORMS if spec["cfg"] != "wide" else ["flat", "ndarray", "fortran", "nested"]):
        given, v, change = supply(form, shape, vals(n) if spec["cfg"] != "wide" else wvals(n, len(s)))
        case = [vt, spec["cfg"], s, form]
        rec.at(case)
        t = Table(dom, v)
        f = MultinomialFactor(domain=dict(dom), values=given, vtype=vt)
        views(rec, f, t, case)
        change()
        views(rec, f, t, case + ["after the supplied object changed"], light=True)
        rec.trace(); rec.state(case); rec.outcome(tuple(v))
    rec.sample(dict(scope=s, store=vt, cfg=spec["cfg"]))


def views(rec, f, t, case, light=False):
    vs = list(t.vars)
    space = list(t.assignments())
    exp = [t.at(a) for a in space]
    rec.step()
    rec.check(list(f.domain.keys()) == vs and all(list(f.domain[v]) == t.dom[v] for v in vs), f"domain {f.domain}", case)
    for nm, got in (("values_list", list(f.values_list)), ("values", list(f.values))):
        rec.check(len(got) == len(exp) and all(close(a, b) for a, b in zip(got, exp)), f"{nm}={got} instead of {exp}", case)
    vd = f.values_dict
    rec.check(len(vd) == len(exp), f"values_dict has {len(vd)} entries", case)
    for a in space:
        key = tuple(a.items())
        rec.check(key in vd and close(vd[key], t.at(a)), f"values_dict[{key}]={vd.get(key)} instead of {t.at(a)}", case)
    rec.check(close(f.store.sum_all(), sum(exp)), f"sum_all={f.store.sum_all()} instead of {sum(exp)}", case)
    if light: return
    for a in space:
        items = list(a.items())
        for obs in (dict(items), dict(reversed(items))):
            g = f.get_value(**obs)
            rec.check(close(g, t.at(a)), f"get_value({obs})={g} instead of {t.at(a)}", case)
    rec.step(2 * len(space))
    for order in ([None] + [list(p) for p in (itertools.permutations(vs) if len(vs) < 5 else list(itertools.permutations(vs))[::7])] if vs else [None]):
        arr = np.asarray(f.values_array(order) if order is not None else f.values_array())
        oo = order if order is not None else vs
        rec.check(list(arr.shape) == [len(t.dom[v]) for v in oo], f"values_array({order}) has shape {arr.shape}", case)
        for a in space:
            idx = tuple(t.dom[v].index(a[v]) for v in oo)
            rec.check(close(arr[idx], t.at(a)), f"values_array({order})[{idx}]={arr[idx]} instead of {t.at(a)}", case)
        rec.step()
    # lists of observations, in a scrambled order and with repetitions, with keys in another order
    q = [dict(reversed(list(a.items()))) for a in reversed(space)] + space[:1]
    p = f.prob(q)
    rec.check(len(p) == len(q) and all(close(x, t.at(a)) for x, a in zip(p, q)), f"prob: {p}", case)
    qp = [a for a in q if t.at(a) > 0]
    lp = f.log_prob(qp)
    rec.check(len(lp) == len(qp) and all(close(x, math.log(t.at(a))) for x, a in zip(lp, qp)), f"log_prob: {lp}", case)
    m = {v: v + "_r" for v in vs[:2]}
    if len(vs) > 1: m = {vs[0]: vs[-1], vs[-1]: vs[0]}
    for mm in (m, {vs[0]: "New"} if vs else {}, {}):
        d = diff(read(f.rename_vars(mm)), t.rename(mm))
        rec.check(d is None, f"rename {mm}: {d}", case)
    rec.step(3)
