"""C06: every function on small parent spaces, as a structural equation and as a table, and canonical specifications."""
import itertools
import numpy as np
import pandas as pd
from ..ref import Table, read, diff, close, type_ok, same_states
from ..fgen import STORES

# name, states
CH = [("X1", ["x0", "x1"]), ("X1", [1, 0]), ("X1", [False, True]), ("X1", [5, 3]), ("X1", ["b", "a", "c"]), ("X1", [0, 1, 2]), ("X1", [2, 3, 1]),
      ("X1", [1.5, 0.5])]
PAR = [[], [("X", [0, 1])], [("X", ["p", "q", "r"])], [("X", [1, 0]), ("U", ["u1", "u0"])], [("U", [2, 1]), ("X", [True, False])],
       [("X", ["a"]), ("U", [3, 4])], [("X", [0, 1, 2]), ("Y", [1, 0])], [("X", [0, 1]), ("Y", ["s", "t"]), ("U", [9, 8])]]


# wide: more parents and states (past ten), functions i -> (a*i + b*(i//3)) mod |states|
WCH = [("V1", [3, 0, 4, 1, 2]), ("V1", ["s10", "s2", "s1", "s0"]), ("V1", [f"s{i}" for i in (0, 1, 10, 2, 3, 4, 5, 6, 7, 8, 9)]), ("V1", [True, False])]
WPAR = [[("V10", ["a", "c", "b"]), ("V2", [1, 0]), ("e", ["x"]), ("P", [2, 9, 4, 3])], [("b a", [False, True]), ("V", [0.5, -1.0, 2.0]), ("A", [1, 0]), ("V10", ["p", "q"])],
        [("V10", list(range(11))), ("A", ["1", "0"])], [("P", [f"t{i}" for i in range(12)])], [("Z", [1, 2]), ("Y", [1, 2]), ("X", [2, 1]), ("W", [2, 1]), ("V", [1, 2])]]


def BOUNDS(tier):
    return dict(functions="all functions from <=3 parents (<=8 configurations) to 2..3 states, capped at 729 per shape (quick 256)",
                stores=STORES, child_position="every", wide="functions of 1-5 parents with 11-48 configurations into 2-11 states, 8 functions each", canonical="0..3 endogenous parents, |X|^m <= 81 (thorough 256)")


def nconf(par):
    n = 1
    for _, d in par: n *= len(d)
    return n


def specs(tier):
    cap = 256 if tier == "quick" else 729
    out = []
    for ci, (c, cd) in enumerate(CH):
        for pi, par in enumerate(PAR):
            n = len(cd) ** nconf(par)
            if n > cap: continue
            for pos in range(len(par) + 1):
                for vt in (STORES if n <= 16 or tier == "thorough" else STORES[pos % 4:pos % 4 + 2] or STORES[:1]):
                    out.append(dict(kind="fun", ch=ci, par=pi, pos=pos, vt=vt))
    for ci in range(len(WCH)):
        for pi in range(len(WPAR)):
            for pos in range(len(WPAR[pi]) + 1):
                for k, vt in enumerate(STORES):
                    if tier == "quick" and (ci + 2 * pi + 3 * pos + k) % 8: continue
                    out.append(dict(kind="fun", ch=ci, par=pi, pos=pos, vt=vt, wide=True))
    for ci, (c, cd) in enumerate(CH):
        for par in ([], [["X", 2]], [["X", 3]], [["X", 2], ["Y", 2]], [["Y", 2], ["X", 1]], [["X", 1]], [["X", 3], ["Y", 2]], [["X", 2], ["Y", 2], ["A", 2]]):
            m = 1
            for _, k in par: m *= k
            if len(cd) ** m > (81 if tier == "quick" else 256): continue
            for vt in STORES:
                out.append(dict(kind="canon", ch=ci, par=par, vt=vt))
    return out


def run(spec, rec):
    if spec["kind"] == "canon": return canon(spec, rec)
    from bcause.factors import DeterministicFactor, MultinomialFactor
    wide = spec.get("wide")
    c, cd = (WCH if wide else CH)[spec["ch"]]
    par, vt = (WPAR if wide else PAR)[spec["par"]], spec["vt"]
    doms = dict(par)
    names = [p for p, _ in par]
    names.insert(spec["pos"], c)
    dom = {v: list(cd if v == c else doms[v]) for v in names}
    right = [v for v in names if v != c]
    confs = list(itertools.product(*[dom[v] for v in right]))
    family = itertools.product(cd, repeat=len(confs))
    if wide: family = [tuple(cd[(a * i + b * (i // 3)) % len(cd)] for i in range(len(confs))) for a, b in ((0, 0), (1, 0), (2, 1), (1, 2), (0, 1), (3, 1), (1, 5), (4, 3))]
    for fi, fun in enumerate(family):
        if wide: fi = (0, 1, 2, 5, 3, 30, 32, 4)[fi]
        case = (["wide"] if wide else []) + [spec["ch"], spec["par"], spec["pos"], vt, list(fun)]
        rec.at(case)
        F = dict(zip(confs, fun))
        f = DeterministicFactor(dict(dom), values=list(fun), left_vars=[c], vtype=vt)
        judge_det(rec, f, dom, c, right, F, case)
        # nested values, sides given the other way round
        nested = np.array(list(fun), dtype=object).reshape([len(dom[v]) for v in right]).tolist() if right else list(fun)
        if fi % 3 == 0:
            judge_det(rec, DeterministicFactor(dict(dom), values=nested, right_vars=list(right), vtype=vt), dom, c, right, F, case + ["nested"])
        if fi % 6 == 2:     # parents named explicitly, in any order
            rps = list(itertools.permutations(right))
            for rp in rps[::len(rps) // 4 or 1] if wide else rps:
                g = DeterministicFactor(dict(dom), values=list(fun), left_vars=[c], right_vars=list(rp), vtype=vt)
                judge_det(rec, g, dom, c, right, F, case + ["sides", list(rp)])
                g = DeterministicFactor(dict(dom), values=list(fun), right_vars=list(rp), vtype=vt)
                judge_det(rec, g, dom, c, right, F, case + ["right side", list(rp)])
                judge_det(rec, g.to_multinomial().to_deterministic(), dom, c, right, F, case + ["sides back", list(rp)])
        m = f.to_multinomial()
        ref = Table(dom, fn=lambda a: 1.0 if F[tuple(a[v] for v in right)] == a[c] else 0.0)
        d = diff(read(m), ref)
        rec.check(d is None, f"multinomial version: {d}", case)
        rec.check(list(m.left_vars) == [c] and set(m.right_vars) == set(right), f"multinomial version is {m.name}", case)
        rec.check(m.vtype == vt and type(m.store) is type(f.store), "multinomial version changes the storage type", case)
        mi = f.to_multinomial(as_int=True)
        d = diff(read(mi), ref)
        rec.check(d is None and all(isinstance(x, (int, np.integer)) for x in mi.values_list), f"integer version: {d} {mi.values_list}", case)
        judge_det(rec, m.to_deterministic(), dom, c, right, F, case + ["back"])
        # a table whose child sits elsewhere and given in another variable order
        if fi % 3 == 1 and right:
            rnames = list(reversed(names))
            rdom = {v: dom[v] for v in rnames}
            g = MultinomialFactor(rdom, values=[ref.at(a) for a in Table(rdom, fn=lambda a: 0).assignments()], left_vars=[c], vtype=vt)
            judge_det(rec, g.to_deterministic(), rdom, c, [v for v in rnames if v != c], F, case + ["reordered"], order=right)
        if fi % 5 == 0:
            mm = {c: "Wx"}
            if right: mm[right[0]] = c
            h = f.rename_vars(mm)
            hd = {mm.get(v, v): dom[v] for v in names}
            judge_det(rec, h, hd, "Wx", [mm.get(v, v) for v in right], F, case + ["renamed"])
            rows = [dict(zip(right, k), **{c: F[k]}) for k in confs]
            df = pd.DataFrame(list(reversed(rows)), columns=names)
            orig = df.copy(deep=True)
            g = DeterministicFactor.from_data_frame(df, {v: list(dom[v]) for v in names}, left_var=c)
            judge_det(rec, g, dom, c, right, F, case + ["data frame"])
            rec.check(df.equals(orig) and list(df.dtypes) == list(orig.dtypes), "from_data_frame changed its argument", case)
        if fi % 16 == 0:
            # a table combined with the equation is combined with the table of the equation
            for sub in ([c], [c, "T"], right[:1], [c] + right[-1:]):
                if not sub: continue
                gd = {v: (dom[v] if v in dom else [0, 1]) for v in sub}
                g = MultinomialFactor(dict(gd), [.15 + .1 * j for j in range(int(np.prod([len(x) for x in gd.values()])))], left_vars=sub[:1], vtype=vt)
                for nm, fn in (("*", lambda a, b: a * b), ("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("/", lambda a, b: a / b)):
                    for a, b, a1, b1 in ((g, f, g, m), (f, g, m, g)):
                        got, want = fn(a, b), fn(a1, b1)
                        d = diff(read(got), read(want))
                        rec.check(d is None and set(got.left_vars) == set(want.left_vars) and set(got.variables) == set(want.variables), f"{a.name} {nm} {b.name}: {d} {got.name}", case + [sub, nm])
            rec.step()
        nb = f.name
        rec.check(nb == f"f{c}({','.join(right)})" and nb in repr(f), f"name {nb}", case)
        rec.state(case); rec.trace(); rec.outcome(tuple(map(str, fun)))
    # constants
    for s in cd:
        case = [spec["ch"], spec["par"], vt, "constant", s]
        rec.at(case)
        k = f.constant(s)
        judge_det(rec, k, {c: cd}, c, [], {(): s}, case)
        d = diff(read(k.to_multinomial()), Table({c: cd}, fn=lambda a: 1.0 if a[c] == s else 0.0))
        rec.check(d is None, f"constant: {d}", case)
        km = m.constant(s)
        d = diff(read(km), Table({c: cd}, fn=lambda a: 1.0 if a[c] == s else 0.0))
        rec.check(d is None and list(km.left_vars) == [c] and not km.right_vars, f"constant multinomial: {d} {km.name}", case)
        rec.step(2); rec.trace()
    for g in (f, m):
        try:
            g.constant("no such state")
        except ValueError:
            pass
        else:
            rec.fail("constant accepted a state outside the domain", [spec["ch"], "constant"])
    rec.sample(dict(child=[c, cd], parents=par, position=spec["pos"], store=vt))


def judge_det(rec, f, dom, c, right, F, case, order=None):
    order = order or right
    rec.step()
    rec.check(list(f.left_vars) == [c] and set(f.right_vars) == set(right), f"sides {f.left_vars}|{f.right_vars}", case)
    rec.check(list(f.domain.keys()) == list(dom.keys()) and all(list(f.domain[v]) == list(dom[v]) for v in dom), f"domain {dict(f.domain)}", case)
    for k, s in F.items():
        obs = dict(zip(order, k))
        got = f.get_value(**obs)
        rec.check(got == s and type_ok(got if not isinstance(got, np.ndarray) else got.item(), s), f"value at {obs} is {got!r} instead of {s!r}", case)
        for x in dom[c]:
            rec.check(bool(f.eval(**obs, **{c: x})) == (x == s), f"eval({obs},{c}={x})", case)
    space = list(itertools.product(*[dom[v] for v in right]))
    vl = list(f.values_list)
    exp = [F[tuple(dict(zip(right, k))[v] for v in order)] for k in space]
    rec.check(len(vl) == len(exp) and all(a == b for a, b in zip(vl, exp)), f"values_list {vl} instead of {exp}", case)
    if right:
        arr = f.values_array(list(reversed(right)))
        for k, e in zip(space, exp):
            idx = tuple(dom[v].index(s) for v, s in reversed(list(zip(right, k))))
            rec.check(arr[idx] == e, f"values_array {arr}", case)


def canon(spec, rec):
    from bcause.factors.deterministic import canonical_deterministic
    from bcause.factors.mulitnomial import canonical_multinomial
    c, cd = CH[spec["ch"]]
    vt = spec["vt"]
    par = spec["par"]
    m = 1
    for _, k in par: m *= k
    nu = len(cd) ** m
    pdoms = {p: [f"{p.lower()}{i}" for i in range(k)] for p, k in par}
    udom = list(range(nu))
    pn = [p for p, _ in par]
    confs = list(itertools.product(*[pdoms[p] for p in pn]))
    for order in itertools.permutations([c, "U"] + pn):
        dom = {v: (cd if v == c else udom if v == "U" else pdoms[v]) for v in order}
        for pa in ([pn] if pn else [[], None]):
            case = ["canonical", spec["ch"], par, vt, list(order), pa is None]
            rec.at(case)
            f = canonical_deterministic(dict(dom), "U", pa, vt)
            rec.step(); rec.trace(); rec.state(case)
            rec.check(list(f.left_vars) == [c] and set(f.right_vars) == set(["U"] + pn), f"signature {f.name}", case)
            funs = []
            for u in udom:
                funs.append(tuple(f.get_value(**{"U": u, **dict(zip(pn, k))}) for k in confs))
            for u, fun in zip(udom, funs):
                rec.check(all(any(x == y and type_ok(x.item() if isinstance(x, np.ndarray) else x, y) for y in cd) for x in fun), f"function of state {u}: {fun}", case)
            exp = list(itertools.product(cd, repeat=m))
            rec.check([tuple(x) for x in funs] == exp, f"exogenous states select {funs[:4]}..., not every function once in order", case)
            rec.outcome(str(funs)[:300])
    g = canonical_multinomial(dict(dom), "U", pn, vt)
    ref = Table(dom, fn=lambda a: 1.0 if exp[udom.index(a["U"])][confs.index(tuple(a[p] for p in pn))] == a[c] else 0.0)
    d = diff(read(g), ref)
    rec.check(d is None, f"canonical multinomial: {d}", case)
    rec.check(list(g.left_vars) == [c], f"canonical multinomial {g.name}", case)
    rec.sample(case)
