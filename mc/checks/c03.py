"""C03: conditional signatures. Every role assignment {absent,left,right}^3 and order, for both operands."""
import itertools, operator
from ..fgen import *

V3 = ["X", "X1", "Y"]
DOM = {"X": ["x0", "x1"], "X1": [2, 1], "Y": [True, False]}
OPS = {"*": operator.mul, "+": operator.add, "-": operator.sub, "/": operator.truediv}


def BOUNDS(tier):
    return dict(variables=3 if tier == "quick" else 4, roles="absent/left/right each", four="quick: one signature in twelve over four variables (stores in turn) with every 13th second operand", stores=STORES, operands="all orders, all pairs")


def sigs(names):
    """(order, left, right)"""
    for k in range(len(names) + 1):
        for order in itertools.permutations(names, k):
            for roles in itertools.product("LR", repeat=k):
                yield list(order), [v for v, r in zip(order, roles) if r == "L"], [v for v, r in zip(order, roles) if r == "R"]


def specs(tier):
    out = []
    for vt in STORES:
        for i, s in enumerate(sigs(V3)):
            out.append(dict(vt=vt, sig=list(s), n=3))
    if tier != "thorough":
        for k, vt in enumerate(STORES):
            four = [s for s in sigs(NAMES) if len(s[0]) == 4]
            out += [dict(vt=vt, sig=list(s), n=4, thin=13) for s in four[k::48]]
    if tier == "thorough":
        for vt in STORES:
            for i, s in enumerate(sigs(NAMES)):
                if len(s[0]) == 4: out.append(dict(vt=vt, sig=list(s), n=4))
    out.sort(key=lambda s: len(s["sig"][0]))
    return out


def check_sig(rec, f, left, right, case):
    L, R, V = list(f.left_vars), list(f.right_vars), list(f.variables)
    rec.check(set(L) == set(left) and len(L) == len(set(L)), f"left variables {L} instead of {sorted(left)}", case)
    rec.check(set(R) == set(right) and len(R) == len(set(R)), f"right variables {R} instead of {sorted(right)}", case)
    rec.check(set(V) == set(left) | set(right) and len(V) == len(left) + len(right), f"variables {V}", case)
    rec.check(set(f.left_domain) == set(left) and set(f.right_domain) == set(right), "left/right domain", case)
    n = f.name
    rec.check(n.startswith("P(") and n.endswith(")"), f"name {n}", case)
    body = n[2:-1].split("|")
    rec.check(len(body) == (2 if right else 1), f"name {n} for left {L} right {R}", case)
    rec.check(sorted(x for x in body[0].split(",") if x) == sorted(left), f"name {n} for left {L} right {R}", case)
    if right: rec.check(sorted(body[1].split(",")) == sorted(right), f"name {n} for left {L} right {R}", case)
    rec.check(n in repr(f), f"repr {repr(f)[:80]}", case)
    rec.step(); rec.trace(); rec.state(case); rec.outcome(n)


def run(spec, rec):
    vt, (order, left, right) = spec["vt"], spec["sig"]
    names = V3 if spec["n"] == 3 else NAMES
    D = {**DOM, "A": ["a", "b"]}
    dom = {v: D[v] for v in order}
    v = vals(size(dom))
    # construction: three ways of saying the same
    f = mk(dom, v, vt, left=left, right=right)
    check_sig(rec, f, left, right, [vt, order, left, right, "both"])
    for tag, g in (("left", mk(dom, v, vt, left=left)), ("right", mk(dom, v, vt, right=right))):
        check_sig(rec, g, left, right, [vt, order, left, right, tag])
    if not right: check_sig(rec, mk(dom, v, vt), left, right, [vt, order, "none"])
    # sides named in any order: the same factor, in every later step too
    ref = list(map(float, f.values_list))
    for lp in itertools.permutations(left):
        for rp in itertools.permutations(right):
            case = [vt, order, list(lp), list(rp), "sides"]
            rec.at(case)
            for g in (mk(dom, v, vt, left=lp, right=rp), mk(dom, v, vt, right=rp), mk(dom, v, vt, left=lp)):
                check_sig(rec, g, left, right, case)
                rec.check(list(g.domain) == order and list(map(float, g.values_list)) == ref, f"values {g.values_list} of {g.name} instead of {ref}", case)
                for x in order:
                    for nm, h, e in (("marg", g.marginalize(x), f.marginalize(x)), ("restrict", g.restrict(**{x: D[x][-1]}), f.restrict(**{x: D[x][-1]})),
                                     ("rename", g.rename_vars({x: "Q"}), f.rename_vars({x: "Q"})), ("/", g / g.marginalize(x), f / f.marginalize(x))):
                        check_sig(rec, h, e.left_vars, e.right_vars, case + [nm, x])
                        rec.check(list(h.domain) == list(e.domain) and list(h.values_list) == list(e.values_list), f"{nm} {x}: {h} instead of {e}", case + [nm, x])
    # unary
    L, R = set(left), set(right)
    for rem in ordered_subsets(order):
        case = [vt, order, left, "marg", list(rem)]
        rec.at(case)
        check_sig(rec, f.marginalize(*rem), L - set(rem), R - set(rem), case)
        if rem:
            try:
                g = f.maxmarginalize(*rem)
            except NotImplementedError:
                rec.check(vt == "numpy1d", "not implemented", case)
            else:
                check_sig(rec, g, L - set(rem), R - set(rem), case + ["max"])
        obs = {x: D[x][-1] for x in rem}
        check_sig(rec, f.restrict(**obs), L - set(rem), R - set(rem), case + ["restrict"])
        check_sig(rec, f.restrict(**{**obs, "Q": 1}), L - set(rem), R - set(rem), case + ["restrict+"])
    maps = [{}, {"X": "Z"}, {"X": "Y", "Y": "X"}, {"X": "X1", "X1": "X"}, {"X": "X1", "X1": "Y", "Y": "X"}, {"Q": "W"}]
    for m in maps:
        case = [vt, order, left, "rename", list(m.items())]
        rec.at(case)
        mm = lambda S: {m.get(x, x) for x in S}
        if len(mm(order)) != len(order): continue
        check_sig(rec, f.rename_vars(m), mm(L), mm(R), case)
    for k in (2, 0.5):
        for op in OPS:
            rec.at([vt, order, left, op, k])
            check_sig(rec, OPS[op](f, k), L, R, [vt, order, left, op, k])
    # binary
    for z, (o2, l2, r2) in enumerate(sigs(names)):
        if z % spec.get("thin", 1): continue
        if spec["n"] == 4 and vt != "numpy" and len(o2) == 4 and o2 != sorted(o2): continue
        g = mk({x: D[x] for x in o2}, vals(2 ** len(o2), 2), vt, left=l2, right=r2)
        for op in OPS:
            case = [vt, order, left, op, o2, l2]
            rec.at(case)
            res = OPS[op](f, g)
            allv = set(order) | set(o2)
            rr = (R | set(o2)) if op == "/" else allv - (L | set(l2))
            check_sig(rec, res, allv - rr, rr, case)
            if op in "*/" and len(allv) > 1:
                # one more step from a non-initial state: signature of what is computed from the result
                x = sorted(allv)[0]
                check_sig(rec, res.marginalize(x), allv - rr - {x}, rr - {x}, case + ["then", x])
        check_sig(rec, g, l2, r2, [vt, "second operand", o2, l2])
    check_sig(rec, f, left, right, [vt, "operand", order, left])
    rec.sample(dict(f=f.name, store=vt))
