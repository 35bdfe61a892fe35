"""C20: every model of the bounded space is written to a file and read back: same graph, same value at every assignment."""
import itertools, os, tempfile, logging, shutil
import numpy as np
from ..mgen import *
from ..fgen import STORES
from .c21 import CF, dom_of
from .. import snap

TINY = [[1e-5, 1 - 1e-5], [1e-12, 1 - 1e-12], [1 / 3, 2 / 3], [1.0, 0.0], [2 ** -40, 1 - 2 ** -40], [1e-300, 1.0], [0.1 + 0.2, 0.7 - 5.5e-17], [1.5e-7, 1 - 1.5e-7], [0.123456789012345, 0.876543210987655]]


def BOUNDS(tier):
    q = tier == "quick"
    return dict(networks="all DAGs with <=3 nodes, 4 nodes: %s; isolated variables; 12 variables" % ("up to isomorphism" if q else "all"), formats="uai, bif, xmlbif",
                layouts="4 parent/child positions, given variable orders (all for <=3 variables), permuted state orders between factors", texts="uai files with 4 kinds of white space and 5 notations of numbers", numbers="magnitudes 1e-300 to 1, 0, thirds, 15 digits (labelled formats: down to 1e-12)",
                causal="all graphs with <=2 endogenous (3: %s) and <=2 exogenous variables; deterministic or multinomial equations; constants after interventions" % ("every 5th" if q else "all"))


def specs(tier):
    q = tier == "quick"
    out = []
    for n in (1, 2, 3):
        for i, e in enumerate(labelled_dags(n)): out.append(dict(kind="bn", n=n, e=e, i=i))
    for i, e in enumerate(iso_dags(4) if q else labelled_dags(4)): out.append(dict(kind="bn", n=4, e=e, i=i))
    for n in (1, 2, 3):
        for k, (e, h) in enumerate(scm_structs(n, 2)):
            if n == 3 and k % (5 if q else 1): continue
            out.append(dict(kind="scm", n=n, e=e, h=h, i=k))
    out += [dict(kind="big", i=i) for i in range(6)] + [dict(kind="num", i=i) for i in range(len(TINY))]
    for i in range(8): out.append(dict(kind="text", i=i, step=3 if q else 1))
    return out


def roundtrip(m, ext, **kw):
    d = tempfile.mkdtemp(prefix="c20_")
    try:
        path = m.save(os.path.join(d, "model" + ext), **kw)
        assert os.path.exists(path)
        return type(m).read(path)
    finally:
        shutil.rmtree(d)


def cmp_read(rec, m2, nodes, edges, dom, value, order, ext, case, prefix="V", first=0, state0=0):
    """order: the variables by position (uai); value(v, assignment of v and its parents)"""
    if ext == ".uai":
        new = {v: f"{prefix}{i + first}" for i, v in enumerate(order)}
        lab = lambda v, s: dom[v].index(s) + state0
    else:
        new = {v: v for v in nodes}
        lab = lambda v, s: str(s)
    rec.check(sorted(m2.graph.nodes) == sorted(new.values()), f"variables {sorted(m2.graph.nodes)} instead of {sorted(new.values())}", case)
    rec.check(sorted(m2.graph.edges) == sorted((new[a], new[b]) for a, b in edges), f"edges {sorted(m2.graph.edges)} instead of {sorted((new[a], new[b]) for a, b in edges)}", case)
    for v in nodes:
        f = m2.factors[new[v]]
        pa = [a for a, b in edges if b == v]
        rec.check(list(f.left_vars) == [new[v]] and set(f.right_vars) == {new[p] for p in pa}, f"factor of {v}: {f.name}", case)
        for x in [v] + pa:
            exp = [lab(x, s) for s in dom[x]]
            rec.check(same_states(sorted(f.domain[new[x]]), sorted(exp)), f"states of {x} in the factor of {v}: {f.domain[new[x]]} instead of {exp}", case)
        rec.check(same_states(sorted(m2.domains[new[v]]), sorted(lab(v, s) for s in dom[v])), f"states of {v}: {m2.domains[new[v]]}", case)
        for k in itertools.product(*[dom[x] for x in pa + [v]]):
            a = dict(zip(pa + [v], k))
            got = float(f.get_value(**{new[x]: lab(x, s) for x, s in a.items()}))
            want = value(v, a)
            rec.check(abs(got - want) <= 1e-12 * max(want, 1e-300), f"P({v}) at {a} read back as {got!r} instead of {want!r}", case)
            rec.step()


def run_bn(spec, rec):
    from bcause.models import BayesianNetwork
    n = spec["n"]
    for cfg in range(4):
        for layout in range(4):
            if n == 4 and (cfg + layout + spec["i"]) % 4: continue
            names, dom = dom_of(n, cfg, (spec["i"] + cfg) % 2)
            edges = [(names[a], names[b]) for a, b in spec["e"]]
            ref = RefBN(names, edges, dom, zeros=(cfg + layout) % 2, salt=spec["i"] + cfg)
            val = lambda v, a: ref.cpt[v].at(a)
            m = ref.build(layout=layout, vtype=STORES[(cfg + layout + spec["i"]) % 4])
            base = snap.model(m)
            for ext in (".uai", ".bif", ".xmlbif"):
                orders = [None]
                if ext == ".uai":
                    perms = list(itertools.permutations(names))
                    orders += [list(p) for j, p in enumerate(perms) if n < 4 or j % 7 == layout]
                for o in orders:
                    case = ["bn", str(edges), cfg, layout, ext, o]
                    rec.at(case); rec.state(case)
                    m2 = roundtrip(m, ext, **(dict(var_order=o) if o else {}))
                    cmp_read(rec, m2, names, edges, dom, val, o or list(m.variables), ext, case)
                    rec.trace(); rec.outcome(case[:3])
            if n < 4:
                from bcause.readwrite import bnread
                d = tempfile.mkdtemp(prefix="c20_")
                path = m.save(os.path.join(d, "m.uai"))
                for pre, first, s0 in (("W", 1, 0), ("V", 0, 1), ("X_", 8, 3)):
                    case = ["bn, naming", str(edges), cfg, layout, pre, first, s0]
                    rec.at(case); rec.state(case)
                    cmp_read(rec, bnread.from_uai(path, var_prefix=pre, init_var_id=first, init_var_state=s0), names, edges, dom, val, list(m.variables), ".uai", case, pre, first, s0)
                    rec.trace()
                shutil.rmtree(d)
            for bad in (names[:-1], names + ["Q"]):
                if bad:
                    try: roundtrip(m, ".uai", var_order=bad)
                    except ValueError: pass
                    else: rec.fail(f"variable order {bad} accepted", case)
            rec.check(snap.model(m) == base, "the model changed", case)
            # factors listing the states of a parent in another order than the parent's own factor
            if edges:
                from bcause.factors import MultinomialFactor
                fs = {}
                for v in names:
                    o = ref.order_in_factor(v, layout)
                    d = {x: list(dom[x]) if x == v else list(reversed(dom[x])) for x in o}
                    fs[v] = MultinomialFactor(d, values=[val(v, dict(zip(o, k))) for k in itertools.product(*d.values())], left_vars=[v])
                m = BayesianNetwork(m.graph, fs)
                for ext in (".uai", ".bif", ".xmlbif"):
                    case = ["bn, states permuted", str(edges), cfg, layout, ext]
                    rec.at(case); rec.state(case)
                    cmp_read(rec, roundtrip(m, ext), names, edges, dom, val, list(m.variables), ext, case)
                    rec.trace()


def run_scm(spec, rec):
    n = spec["n"]
    names = ["X", "Y", "A"][:n]
    for cfg in range(4):
        if n == 3 and cfg != spec["i"] % 4: continue
        dom0 = {v: CF[cfg][v] for v in names}
        ref = make_scm(names, spec["e"], spec["h"], dom0, salt=spec["i"] + cfg, zeros=bool(cfg % 2), exo_names=["U", "X1", "W"])
        dom, allv = ref.dom, ref.endo + ref.exo
        for kind, cast, layout in (("det", True, 0), ("det", False, 1), ("mult", True, 2), ("det", False, 2), ("det", True, 3)):
            roots = any(not ref.pa[v] for v in ref.endo)
            m = ref.build(kind=kind, cast=cast, layout=layout, explicit=True if roots or cfg % 2 else None)
            worlds = [({}, m)]
            if not roots: worlds.append(({names[-1]: dom[names[-1]][-1]}, m.intervention(**{names[-1]: dom[names[-1]][-1]})))
            for do, mm in worlds:
                edges = [(a, b) for a, b in ref.edges if b not in do]
                base = snap.model(mm)
                def val(v, a):
                    if v in do: return 1.0 if a[v] == do[v] else 0.0
                    if v in ref.prob: return ref.prob[v][dom[v].index(a[v])]
                    return 1.0 if ref.fun[v].at(a) == a[v] else 0.0
                default = list(mm.endogenous) + list(mm.exogenous)
                for ext in (".uai", ".bif", ".xmlbif"):
                    if ext == ".uai" and any(not [e for e in edges if e[1] == v] for v in ref.endo) and False: continue
                    orders = [None]
                    if ext == ".uai":
                        perms = list(itertools.permutations(default))
                        orders += [list(p) for j, p in enumerate(perms) if j % 5 == layout % 5]
                    for o in orders[:6]:
                        case = ["scm", n, str(spec["e"]), str(spec["h"]), cfg, kind, cast, layout, str(do), ext, o]
                        rec.at(case); rec.state(case)
                        m2 = roundtrip(mm, ext, **(dict(var_order=o) if o else {}))
                        order = o or default
                        cmp_read(rec, m2, allv, edges, dom, val, order, ext, case)
                        if ext == ".uai":
                            want = {f"V{order.index(v)}" for v in mm.endogenous if len(dom[v]) > 1}
                            rec.check({v for v in m2.endogenous if len(m2.domains[v]) > 1 or v in want} == want, f"endogenous {m2.endogenous} instead of {want}", case)
                        rec.trace(); rec.outcome(case[:5])
                from bcause.readwrite import scmread
                d = tempfile.mkdtemp(prefix="c20_")
                path = mm.save(os.path.join(d, "m.uai"))
                for pre, first, s0 in (("W", 1, 0), ("V", 0, 1), ("X_", 8, 3)):
                    for c in (True, False):
                        case = ["scm, naming", n, str(spec["e"]), str(spec["h"]), cfg, kind, cast, layout, str(do), pre, first, s0, c]
                        rec.at(case); rec.state(case)
                        m2 = scmread.from_uai(path, var_prefix=pre, init_var_id=first, init_var_state=s0, cast_multinomial=c)
                        if not c:
                            for v in m2.endogenous:
                                f = m2.factors[v]
                                rec.check(type(f).__name__ == "DeterministicFactor" and all(x in m2.domains[v] for x in np.ravel(f.values)), f"equation of {v}: {f}", case)
                            m2 = m2.to_multinomial()
                        cmp_read(rec, m2, allv, edges, dom, val, default, ".uai", case, pre, first, s0)
                        rec.trace()
                shutil.rmtree(d)
                rec.check(snap.model(mm) == base, "the model changed", case)


NOTES = [lambda x: f"{x:.17E}", lambda x: f"+{x:.17g}", lambda x: repr(x).replace("0.", ".", 1) if repr(x).startswith("0.") else repr(x), lambda x: f"{x:.17e}".replace("e-0", "e-").replace("e+0", "e+"),
         lambda x: "%d." % x if x in (0, 1) else f"{x * 10:.17g}e-1"]


def renotate(text, note, k):
    """the same file with its numbers in another notation and other white space"""
    label, *toks = text.split()
    toks = [note(float(t)) if ("." in t or "e" in t) else t for t in toks]
    sep = ["\n", " ", "  \n\n", "\t"][k]
    return label + "\n" + sep.join(toks) + ("" if k == 1 else "\n")


def run_text(spec, rec):
    """uai files as other programs write them: any white space, any notation of the numbers"""
    from bcause.models import BayesianNetwork
    from bcause.models.cmodel import StructuralCausalModel
    todo = [("bn", 3, e, None) for e in labelled_dags(3)] + [("bn", 4, e, None) for e in iso_dags(4)] + [("scm", n, e, h) for n in (1, 2, 3) for k, (e, h) in enumerate(scm_structs(n, 2)) if n < 3 or k % 20 == 0]
    for j, (kind, n, e, h) in enumerate(todo):
        if j % 8 != spec["i"]: continue
        names, dom = dom_of(n, j % 4, j % 2)
        if kind == "bn":
            ref = RefBN(names, [(names[a], names[b]) for a, b in e], dom, zeros=j % 2, salt=j)
            m, cls = ref.build(layout=j % 4), BayesianNetwork
            nodes, edges, order = names, [(names[a], names[b]) for a, b in e], list(m.variables)
            val = lambda v, a: ref.cpt[v].at(a)
        else:
            ref = make_scm(names, e, h, dom, salt=j, zeros=bool(j % 2))
            m, cls = ref.build(kind="det" if j % 3 else "mult", layout=j % 4, explicit=True if any(not ref.pa[v] for v in ref.endo) else None), StructuralCausalModel
            dom, nodes, edges, order = ref.dom, ref.endo + ref.exo, list(ref.edges), list(m.endogenous) + list(m.exogenous)
            val = lambda v, a: ref.prob[v][dom[v].index(a[v])] if v in ref.prob else 1.0 if ref.fun[v].at(a) == a[v] else 0.0
        d = tempfile.mkdtemp(prefix="c20_")
        try:
            path = m.save(os.path.join(d, "m.uai"))
            text = open(path).read()
            for x, note in enumerate(NOTES):
                for k in range(4):
                    if (x + k + j) % spec["step"]: continue
                    case = ["text", kind, n, str(e), str(h), x, k]
                    rec.at(case); rec.state(case)
                    open(path, "w").write(renotate(text, note, k))
                    cmp_read(rec, cls.read(path), nodes, edges, dom, val, order, ".uai", case)
                    rec.trace()
        finally:
            shutil.rmtree(d)


def run_big(spec, rec):
    """more than ten variables"""
    i = spec["i"]
    nv = 12 + i % 2
    names = [f"N{j}" for j in range(nv)]
    if i % 2: names = names[::-1]
    edges = [(names[a], names[b]) for a in range(nv) for b in range(nv) if a < b and mix(i, a, b) % 5 == 0 and sum(mix(i, c, b) % 5 == 0 for c in range(b)) <= 4]
    dom = {v: list(range(2 + mix(i, v) % 2)) for v in names}
    ref = RefBN(names, edges, dom, salt=i)
    val = lambda v, a: ref.cpt[v].at(a)
    m = ref.build(layout=i % 4)
    for ext in (".uai", ".bif", ".xmlbif"):
        for o in (None, sorted(names), list(reversed(names))):
            if o and ext != ".uai": continue
            case = ["big", i, ext, o and o[0]]
            rec.at(case); rec.state(case)
            cmp_read(rec, roundtrip(m, ext, **(dict(var_order=o) if o else {})), names, edges, dom, val, o or list(m.variables), ext, case)
            rec.trace()
    # a causal chain with 8 + 8 variables
    en = [f"E{j}" for j in range(8)]
    ref = make_scm(en, [(j, j + 1) for j in range(7)] + [(j, j + 2) for j in range(0, 6, 2)], [[j] for j in range(8)], {v: [0, 1] if j % 3 else ["a", "b", "c"] for j, v in enumerate(en)}, salt=i, exo_names=[f"H{j}" for j in range(8)])
    m = ref.build(kind="det", cast=bool(i % 2), layout=i % 4)
    def val(v, a):
        if v in ref.prob: return ref.prob[v][ref.dom[v].index(a[v])]
        return 1.0 if ref.fun[v].at(a) == a[v] else 0.0
    for ext in (".uai", ".bif", ".xmlbif"):
        case = ["big causal", i, ext]
        rec.at(case); rec.state(case)
        cmp_read(rec, roundtrip(m, ext), ref.endo + ref.exo, ref.edges, ref.dom, val, list(m.endogenous) + list(m.exogenous), ext, case)
        rec.trace()


def run_num(spec, rec):
    """numbers of every magnitude"""
    import networkx as nx
    from bcause.models import BayesianNetwork
    from bcause.models.cmodel import StructuralCausalModel
    from bcause.factors import MultinomialFactor, DeterministicFactor
    p = TINY[spec["i"]]
    for c in range(2):
        q = p if c else p[::-1]
        dom = {"X": [0, 1], "Y": [0, 1, 2]}
        y = [q + [0.0], [0.0] + q]
        g = nx.DiGraph([("X", "Y")])
        for vt in STORES:
            m = BayesianNetwork(g, dict(X=MultinomialFactor({"X": [0, 1]}, values=q, vtype=vt), Y=MultinomialFactor({"X": [0, 1], "Y": [0, 1, 2]}, values=y[0] + y[1], left_vars=["Y"], vtype=vt)))
            val = lambda v, a: q[a["X"]] if v == "X" else y[a["X"]][a["Y"]]
            for ext in (".uai", ".bif", ".xmlbif"):
                case = ["num", spec["i"], c, vt, ext]
                rec.at(case); rec.state(case)
                cmp_read(rec, roundtrip(m, ext), ["X", "Y"], [("X", "Y")], dom, val, ["X", "Y"], ext, case)
                rec.trace()
        m = StructuralCausalModel(nx.DiGraph([("U", "X"), ("W", "X")]), [MultinomialFactor({"U": [0, 1]}, values=q), MultinomialFactor({"W": [0, 1, 2]}, values=y[0]),
                                  DeterministicFactor({"U": [0, 1], "W": [0, 1, 2], "X": [0, 1]}, values=[0, 1, 1, 1, 0, 0], left_vars=["X"])])
        f = [0, 1, 1, 1, 0, 0]
        val = lambda v, a: q[a["U"]] if v == "U" else y[0][a["W"]] if v == "W" else float(f[a["U"] * 3 + a["W"]] == a["X"])
        for ext in (".uai", ".bif", ".xmlbif"):
            case = ["num causal", spec["i"], c, ext]
            rec.at(case); rec.state(case)
            cmp_read(rec, roundtrip(m, ext), ["X", "U", "W"], [("U", "X"), ("W", "X")], {"X": [0, 1], "U": [0, 1], "W": [0, 1, 2]}, val, list(m.endogenous) + list(m.exogenous), ext, case)
            rec.trace()


class FastPP:
    """pgmpy's reader builds character classes with all of unicode each time, which takes half a second: all names here are ASCII"""
    import string, types
    unicode = types.SimpleNamespace(alphanums=string.ascii_letters + string.digits)

    def __getattr__(self, n):
        import pyparsing
        return getattr(pyparsing, n)


def fast_pyparsing():
    import pgmpy.readwrite.BIF as b
    if not isinstance(b.pp, FastPP): b.pp = FastPP()


def run(spec, rec):
    try: fast_pyparsing()
    except (ImportError, AttributeError): pass
    os.environ["LOKY_MAX_CPU_COUNT"] = "1"       # pgmpy would start processes to parse
    logging.disable(logging.WARNING)
    {"bn": run_bn, "scm": run_scm, "big": run_big, "num": run_num, "text": run_text}[spec["kind"]](spec, rec)
    logging.disable(logging.NOTSET)
    rec.sample(spec)
