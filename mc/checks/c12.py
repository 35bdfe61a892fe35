"""C12: probabilities of necessity / sufficiency against enumeration, and identification of true and false states."""
import itertools
import numpy as np
from ..mgen import *
from ..large import *
from .c10 import all_functions, variants, wide_ref
from .. import snap

# states as (domain maker given the variable name, true, false)
STYLES = {
    "01": lambda n: ([0, 1], 1, 0), "10": lambda n: ([1, 0], 1, 0), "float": lambda n: ([1.0, 0.0], 1.0, 0.0),
    "bool": lambda n: ([True, False], True, False), "FT": lambda n: ([False, True], True, False),
    "s01": lambda n: ([n.lower() + "0", n.lower() + "1"], n.lower() + "1", n.lower() + "0"),
    "s10": lambda n: ([n + "1", n + "0"], n + "1", n + "0"),
    "s12": lambda n: ([n.lower() + "1", n.lower() + "2"], n.lower() + "1", n.lower() + "2"),
    "s21": lambda n: ([n.upper() + "2", n.upper() + "1"], n.upper() + "1", n.upper() + "2"),
}
BAD = {"23": [2, 3], "02": [0, 2], "ab": ["a", "b"], "s02": None, "other": ["z0", "z1"], "three": [0, 1, 2], "neg": [-1, 1], "num": ["0", "1"], "one": [1],
       "s012": None}


def BOUNDS(tier):
    return dict(two_endogenous="all functions of cause and effect, exogenous: separate, shared, both; every pair of domain styles",
                three_endogenous="all 25 DAGs x exogenous structures (<=2), every ordered cause/effect pair",
                wide="%d models with 4-6 endogenous variables, every ordered cause/effect pair" % len(WIDER), large="causal models over forests of %s binary variables in %d shapes, all pairs of spread positions" % ("16" if tier == "quick" else "16-40", len(KINDS)), styles=sorted(STYLES), rejected=sorted(BAD))


def specs(tier):
    out = [dict(kind="ident")]
    st = sorted(STYLES)
    S2 = [([(0, 1)], [[0], [1]]), ([(0, 1)], [[0, 1]]), ([(0, 1)], [[0], [0, 1]]), ([], [[0], [1]]), ([(1, 0)], [[0], [1]]), ([(0, 1)], [[0, 1], [1]])]
    for k, (e, h) in enumerate(S2):
        for part in range(8):
            out.append(dict(kind="two", e=e, h=h, i=k, part=part, deep=tier != "quick"))
    for a in st:
        for b in st:
            out.append(dict(kind="style", a=a, b=b))
    for k, (e, h) in enumerate(scm_structs(3, 2)):
        if not h: continue
        out.append(dict(kind="three", e=e, h=h, i=k, salt=k % 5, deep=tier != "quick"))
    for k, (n, e, h) in enumerate(WIDER): out.append(dict(kind="wide", n=n, e=e, h=h, i=k, deep=tier != "quick"))
    for kind in KINDS:
        for n in ((16,) if tier == "quick" else (16, 40)): out.append(dict(kind="large", shape=kind, n=n))
    return out


def expected(ref, c, e, ct, cf, et, ef):
    pn = ref.counterfactual([e], [1], [{c: cf}], {c: ct, e: et})
    ps = ref.counterfactual([e], [1], [{c: ct}], {c: cf, e: ef})
    pns = ref.counterfactual([e, e], [1, 2], [{c: cf}, {c: ct}])
    return (None if pn is None else pn.get((ef,), 0.0), None if ps is None else ps.get((et,), 0.0), pns.get((ef, et), 0.0))


def ask(rec, ref, model, c, e, tc, te, case, explicit):
    from bcause.inference.causal.elimination import CausalVariableElimination
    inf = CausalVariableElimination(model)
    pn, ps, pns = expected(ref, c, e, *tc, *te)
    # states given by the caller: of both, of one of them, of none
    kw = {}
    if explicit in (True, "cause"): kw["true_false_cause"] = tuple(tc)
    if explicit in (True, "effect"): kw["true_false_effect"] = tuple(te)
    for nm, exp in (("prob_necessity", pn), ("prob_sufficiency", ps), ("prob_necessity_sufficiency", pns)):
        if exp is None: continue
        rec.at(case + [nm])
        got = getattr(inf, nm)(c, e, **kw)
        rec.check(close(got, exp), f"{nm}({c},{e}) = {got} instead of {exp}", case + [nm])
        rec.step(); rec.trace(); rec.outcome((nm, round(exp, 7)))
    rec.state(case)


def run(spec, rec):
    k = spec["kind"]
    if k == "ident": return ident(rec)
    if k == "large":
        ref = LargeSCM(spec["shape"], spec["n"], binary=True)
        m = ref.build("det" if len(spec["shape"]) % 2 else "mult")
        for j, (c, e) in enumerate(itertools.permutations([ref.names[i] for i in spots(spec["n"])], 2)):
            ask(rec, ref, m, c, e, (1, 0), (1, 0), [k, spec["shape"], spec["n"], c, e], j % 2 == 0)
        return rec.sample(spec)
    if k == "wide":
        ref = wide_ref(spec)
        m = ref.build(**variants(spec["i"]))
        for j, (c, e) in enumerate(itertools.permutations(ref.endo, 2)):
            if not spec["deep"] and (spec["i"] + j) % 3: continue
            # any state may be called true
            tc, te = tuple(ref.dom[c][::1 if j % 2 else -1]), tuple(ref.dom[e][::1 if j % 4 < 2 else -1])
            ask(rec, ref, m, c, e, tc, te, [k, spec["i"], c, e], True)
        return rec.sample(spec)
    if k == "two":
        dom = {"X": [0, 1], "Y": [0, 1]}
        base = make_scm(["X", "Y"], spec["e"], spec["h"], dom, exo_card=[2, 2])
        funs = all_functions(base.pa, base.dom, base.endo, cap=1024)
        for j, f in enumerate(funs):
            if j % 8 != spec["part"]: continue
            if not spec["deep"] and len(funs) > 256 and (j // 8) % 3: continue
            for w in range(2 if spec["deep"] else 1):
                ref = RefSCM(base.pa, {u: weights(len(p), j + w) for u, p in base.prob.items()}, base.dom, fun=f)
                m = ref.build(**variants(j))
                ask(rec, ref, m, "X", "Y", (1, 0), (1, 0), [k, spec["e"], spec["h"], str(f), w, "XY"], j % 2 == 0)
                if j % 4 == 0: ask(rec, ref, m, "Y", "X", (1, 0), (1, 0), [k, spec["e"], spec["h"], str(f), w, "YX"], j % 8 == 0)
                if j % 8 == 1:      # the caller may call any state true
                    ask(rec, ref, m, "X", "Y", (0, 1), (0, 1), [k, spec["e"], spec["h"], str(f), w, "swap"], True)
                    ask(rec, ref, m, "X", "Y", (0, 1), (1, 0), [k, spec["e"], spec["h"], str(f), w, "swap cause"], "cause" if j % 16 == 1 else True)
                    ask(rec, ref, m, "X", "Y", (1, 0), (0, 1), [k, spec["e"], spec["h"], str(f), w, "swap effect"], "effect" if j % 16 == 1 else True)
    elif k == "style":
        da, ta, fa = STYLES[spec["a"]]("X")
        db, tb, fb = STYLES[spec["b"]]("Ya")
        for salt in range(3):
            ref = make_scm(["X", "Ya"], [(0, 1)], [[0], [0, 1]], {"X": da, "Ya": db}, exo_card=[2, 4], salt=salt)
            ref.fun["Ya"].val.update({kk: db[(mix(salt, 7, i)) % 2] for i, kk in enumerate(ref.fun["Ya"].val)})
            for ex in (False, True, "cause", "effect"):
                ask(rec, ref, ref.build(), "X", "Ya", (ta, fa), (tb, fb), [k, spec["a"], spec["b"], salt, ex], ex)
    else:
        dom = {"X": [0, 1], "M": ["m2", "m1"], "Y": [True, False]}
        T = {"X": (1, 0), "M": ("m1", "m2"), "Y": (True, False)}
        ref = make_scm(["X", "M", "Y"], spec["e"], spec["h"], dom, salt=spec["salt"], exo_card=[4, 3])
        m = ref.build(**variants(spec["i"]))
        before = snap.model(m)
        for j, (c, e) in enumerate(itertools.permutations(ref.endo, 2)):
            if not spec["deep"] and (spec["i"] + j) % 3: continue
            ask(rec, ref, m, c, e, T[c], T[e], [k, spec["e"], spec["h"], spec["salt"], c, e], (spec["i"] + j) % 2 == 0)
        rec.check(snap.model(m) == before, "model changed", [k, spec["i"], "unchanged"])
    rec.sample(spec)


def ident(rec):
    """which domains are accepted when the caller gives no states"""
    from bcause.inference.causal.elimination import CausalVariableElimination
    good = {"Ya": [0, 1]}
    for nm, d in BAD.items():
        for role in ("cause", "effect"):
            name = "X"
            dd = d or ([name + "0", name + "2"] if nm == "s02" else [name + "0", name + "1", name + "2"])
            dom = {"X": dd, "Ya": [0, 1]} if role == "cause" else {"X": [0, 1], "Ya": dd}
            if nm in ("s02", "s012") and role == "effect": dom["Ya"] = ["Ya" + x[1:] for x in dd]
            ref = make_scm(["X", "Ya"], [(0, 1)], [[0], [1]], dom, exo_card=[3, 3])
            inf = CausalVariableElimination(ref.build())
            for fn in ("prob_necessity", "prob_sufficiency", "prob_necessity_sufficiency"):
                case = ["ident", nm, role, fn]
                rec.at(case); rec.state(case); rec.step(); rec.trace()
                try:
                    got = getattr(inf, fn)("X", "Ya")
                except ValueError:
                    rec.outcome("rejected"); continue
                rec.fail(f"{fn} accepted the domain {dom} and returned {got}", case)
            if len(dd) == 2:
                # with the states given by the caller the same domain is fine
                tc, te = (tuple(dom["X"]), tuple(dom["Ya"]))
                ask(rec, ref, ref.build(), "X", "Ya", tc, te, ["given", nm, role], True)
