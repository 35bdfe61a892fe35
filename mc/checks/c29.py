"""C29: factors given as trees: every tree over three variables (leaves at any depth, another variable order on each branch),
every view and every operation against the table the tree denotes; pairs of trees, and short histories of cell writes."""
import itertools, copy
import numpy as np
from ..ref import Table, read, diff, close
from ..fgen import *
from ..mgen import mix
from .. import snap

DOMS = [{"X": ["a", "b"], "X1": [3, 1, 2], "Y": [True, False]}, {"X": [1, 0], "X1": ["p", "q"], "Y": ["s"]}, {"X": ["X1", "Y"], "X1": [0, 1], "Y": [2, 0, 1]}]
OPS = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: 0.0 if x == 0 and y == 0 else x / y}


def BOUNDS(tier):
    return dict(trees="all trees over every subset of three variables in %d domains, each variable at most once on a path, leaves at any depth" % len(DOMS),
                unary="all ordered subsets removed, all observations, renames, single cell writes",
                binary="all pairs of trees over two variables; all trees over three variables with %s" % ("one tree of every scope of two, both ways" if tier == "quick" else "all trees over two, both ways, and with each other in the smallest domain"))


def trees(dom, vs, path=()):
    """all trees testing the variables vs, each at most once on a path; a leaf is its path"""
    out = [("leaf", path)]
    for v in vs:
        rest = [x for x in vs if x != v]
        subs = [trees(dom, rest, path + ((v, s),)) for s in dom[v]]
        for ch in itertools.product(*subs): out.append((v, tuple(zip(dom[v], ch))))
    return out


def build(t, salt, neg):
    """the real tree and, per leaf, its value"""
    from bcause.util.treesutil import treeNode
    cells = []
    def rec(t):
        if t[0] == "leaf":
            k = mix(t[1], salt)
            x = round(0.05 + k % 97 / 97.0, 6)
            if k % 11 == 0: x = 0.0
            if neg and k % 3 == 0: x = -x
            cells.append((dict(t[1]), x))
            return x
        return treeNode(t[0], {s: rec(c) for s, c in t[1]})
    return rec(t), cells


def table(dom, cells):
    def fn(a):
        hit = [x for p, x in cells if all(a[v] == s for v, s in p.items())]
        assert len(hit) == 1
        return hit[0]
    return Table(dom, fn=fn)


def specs(tier):
    q = tier == "quick"
    out = []
    for d in range(len(DOMS)):
        for part in range(8): out.append(dict(kind="un", d=d, part=part, parts=8))
        for part in range(8): out.append(dict(kind="bin", d=d, part=part, parts=8 if q else 32, full=not q))
    return out


def mkt(dom, tree, left=None):
    from bcause.factors import MultinomialFactor
    return MultinomialFactor({v: list(s) for v, s in dom.items()}, tree, left_vars=left, vtype="treedict")


def same(rec, f, t, case, left=None):
    d = diff(read(f), t)
    rec.check(d is None, d, case)
    rec.check(f.vtype == "treedict" and list(f.variables) == list(f.domain), f"storage {f.vtype}, variables {f.variables}, domain {list(f.domain)}", case)
    if left is not None: rec.check(set(f.left_vars) == set(left), f"left variables {f.left_vars} instead of {left}", case)
    rec.step(); rec.trace(); rec.state(case)


def run_un(spec, rec):
    from bcause.factors.values import TreeDictStore
    base = DOMS[spec["d"]]
    all_t = trees(base, list(base))
    for k, t in enumerate(all_t):
        if k % spec["parts"] != spec["part"]: continue
        perm = list(itertools.permutations(base))[k % 6]
        dom = {v: (list(base[v]) if k % 4 < 2 else list(reversed(base[v]))) for v in perm}
        tree, cells = build(t, k, k % 2)
        orig = copy.deepcopy(tree)
        ref = table(dom, cells)
        left = [perm[0]] if k % 3 == 0 else None
        f = mkt(dom, tree, left)
        L = left or list(perm)
        case = [spec["d"], k, str(t)[:120], list(perm)]
        rec.at(case)
        same(rec, f, ref, case, L)
        for a in ref.assignments():
            rec.check(close(f.get_value(**a), ref.at(a)), f"value at {a}: {f.get_value(**a)}", case)
        rec.check(close(f.store.sum_all(), sum(ref.val.values())), "sum", case)
        arr = f.values_array(list(reversed(perm)))
        for a in ref.assignments():
            rec.check(close(arr[tuple(dom[v].index(a[v]) for v in reversed(perm))], ref.at(a)), f"values_array at {a}", case)
        for rem in ordered_subsets(perm):
            keep = [v for v in L if v not in rem]
            same(rec, f.marginalize(*rem), ref.reduce(rem, sum), case + ["marg", rem], keep)
            if rem: same(rec, f.maxmarginalize(*rem), ref.reduce(rem, max), case + ["max", rem], keep)
        for sub in subsets(perm):
            for st in itertools.product(*[dom[v] for v in sub]):
                obs = dict(zip(sub, st))
                same(rec, f.restrict(**obs), ref.restrict(obs), case + ["restrict", str(obs)], [v for v in L if v not in obs])
        ren = {perm[0]: "N", perm[1]: perm[0]}
        same(rec, f.rename_vars(ren), ref.rename(ren), case + ["rename"], [ren.get(v, v) for v in L])
        for c, op in itertools.product((2, -0.5), OPS):
            same(rec, {"+": lambda: f + c, "-": lambda: f - c, "*": lambda: f * c, "/": lambda: f / c}[op](), Table(dom, fn=lambda a: OPS[op](ref.at(a), c)), case + [op, c])
            if op != "/": same(rec, {"+": lambda: c + f, "-": lambda: c - f, "*": lambda: c * f}[op](), Table(dom, fn=lambda a: OPS[op](c, ref.at(a))), case + ["r" + op, c])
        # cell writes: of the factor itself and of its restrictions, copies and marginals, one of them twice
        obs = {perm[2]: dom[perm[2]][0]}
        others = [(f.restrict(**obs).store, ref.restrict(obs)), (f.store.copy(), ref), (f.marginalize(perm[1]).store, ref.reduce([perm[1]], sum))]
        cur = Table(dom, list(ref.val.values()))
        for n, a in enumerate(ref.assignments()):
            if n % 2 and len(ref.val) > 8: continue
            f.store.set_value(5.5 + n, a)
            cur.val[tuple(a[v] for v in cur.vars)] = 5.5 + n
            d = diff(read(f), cur)
            rec.check(d is None, f"after writing {a}: {d}", case + ["write"])
            rec.step(); rec.state(case + [n])
        for st, tb in others:
            d = diff(read(st), tb)
            rec.check(d is None, f"a derived store changed: {d}", case + ["write"])
        st, tb = others[0]
        if tb.vars:
            a = list(tb.assignments())[-1]
            st.set_value(-7.25, a)
            tb = Table(tb.dom, list(tb.val.values())); tb.val[tuple(a[v] for v in tb.vars)] = -7.25
            rec.check(diff(read(st), tb) is None, f"writing a restriction: {diff(read(st), tb)}", case + ["write"])
            rec.check(diff(read(f), cur) is None, f"writing a restriction changed the factor: {diff(read(f), cur)}", case + ["write"])
        rec.check(tree == orig, "the tree given was changed", case)
        rec.outcome((spec["d"], k))


def run_bin(spec, rec):
    base = DOMS[spec["d"]]
    vs = list(base)
    T3 = trees(base, vs)
    T2 = {S: trees(base, list(S)) for S in itertools.combinations(vs, 2)}
    pairs = []
    for S1 in T2:
        for S2 in T2:
            for i in range(len(T2[S1])):
                for j in range(len(T2[S2])): pairs.append((S1, i, S2, j))
    # three variables with two, both ways: with one tree of each scope, or with all of them
    full = spec["full"]
    for n, S in enumerate(T2):
        for i in range(len(T3)):
            for j in (range(len(T2[S])) if full else [(i * 5 + n) % len(T2[S])]):
                pairs += [(tuple(vs), i, S, j), (S, j, tuple(vs), i)]
    if len(T3) < 200: pairs += [(tuple(vs), i, tuple(vs), j) for i in range(len(T3)) for j in (range(len(T3)) if full else [(i * 11 + 3) % len(T3), (i * 7 + 1) % len(T3)])]
    for k, (S1, i, S2, j) in enumerate(pairs):
        if k % spec["parts"] != spec["part"]: continue
        fs, rs = [], []
        for n, (S, idx) in enumerate(((S1, i), (S2, j))):
            tr, cells = build((T3 if len(S) == 3 else T2[S])[idx], 3 * k + n, (k + n) % 2)
            o = list(S) if (k + n) % 3 else list(reversed(S))
            dom = {v: (list(base[v]) if (k // 2 + n) % 2 else list(reversed(base[v]))) for v in o}
            fs.append(mkt(dom, tr, [o[0]] if k % 5 == n else None)); rs.append(table(dom, cells))
        snaps = [snap.factor(f) for f in fs]
        for op in OPS:
            case = [spec["d"], list(S1), i, list(S2), j, op]
            rec.at(case)
            if op == "/":
                # only zero can be divided by zero
                prod, rp = fs[0] * fs[1], rs[0].combine(rs[1], OPS["*"])
                same(rec, prod / fs[1], rp.combine(rs[1], OPS["/"]), case + ["product"])
                if any(y == 0 for y in rs[1].val.values()): continue
            res = {"+": lambda: fs[0] + fs[1], "-": lambda: fs[0] - fs[1], "*": lambda: fs[0] * fs[1], "/": lambda: fs[0] / fs[1]}[op]()
            same(rec, res, rs[0].combine(rs[1], OPS[op]), case)
        rec.check([snap.factor(f) for f in fs] == snaps, "an operand changed", [spec["d"], list(S1), i, list(S2), j])
        rec.outcome((spec["d"], len(S1), i, len(S2), j))


def run(spec, rec):
    (run_un if spec["kind"] == "un" else run_bin)(spec, rec)
    rec.sample(spec)
