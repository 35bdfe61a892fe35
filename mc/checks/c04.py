"""C04: every history (bounded) of factor operations, renames, store copies, cell writes and default-store changes,
replayed on the real code in each storage type, all live factors compared with the reference after every step."""
import itertools
from ..ref import Table, close, type_ok
from ..fgen import *

DOMS = [{"X": [2, 1], "Y": [2, 1]}, {"Y": [2, 1], "X1": [True, False]}]


def BOUNDS(tier):
    return dict(initial_factors=2, stores=STORES,
                depth="3 (any op, any op, any write) and 4 (reduced alphabet, last step a write)" if tier == "quick"
                else "4 (any op x3 restricted to touching a derived factor, then writes) and 5 (reduced alphabet)")


class World:
    """Real factors of one store next to their reference tables."""

    def __init__(self, vt, ints=False):
        from bcause.factors.values.store import DataStore
        DataStore.set_default("numpy")
        self.vt, self.real, self.ref, self.kind = vt, [], [], []
        for i, d in enumerate(DOMS):
            v = vals(size(d), i) if not ints else [[1, 0, 0, 1], [3, 1, 2, 5]][i]
            self.add(mk(d, v, vt), Table(d, v))
        self.n = 0
        self.base = type(self.real[0].store)

    def add(self, real, ref, kind="f"):
        for i, r in enumerate(self.real):
            if r is real:              # the very same object handed back
                self.real.append(real); self.ref.append(self.ref[i]); self.kind.append(kind)
                return
        self.real.append(real); self.ref.append(ref); self.kind.append(kind)

    def store(self, i):
        return self.real[i] if self.kind[i] == "s" else self.real[i].store


def ops_at(kinds, varsof, small=False, writes_only=False):
    """The alphabet in a state given by what is live."""
    n = len(kinds)
    out = []
    fs = [i for i in range(n) if kinds[i] == "f"]
    if not writes_only:
        for i in fs:
            for j in fs:
                if small and j != n - 1: continue
                out.append(["mul", i, j])
                if not small:
                    if i <= j: out.append(["add", i, j])
                    out.append(["div", i, j])
                    if i < j: out.append(["sub", i, j])
        for i in fs:
            if small and i < n - 2: continue
            vs = varsof[i]
            if vs:
                out.append(["marg", i, [vs[0]]])
                if len(vs) > 1: out.append(["marg", i, [vs[-1]]])
                out.append(["restrict", i, [vs[0]]])
                if len(vs) > 1: out.append(["restrict", i, [vs[-1]]])
                if not small:
                    out.append(["max", i, [vs[0]]])
                    if len(vs) > 1: out.append(["marg", i, list(vs)])
                    out.append(["restrict", i, list(vs)])
            out.append(["ren", i])
            if not small:
                out.append(["nop", i]); out.append(["num", i])
        for i in range(n):
            if small and i < n - 2: continue
            out.append(["scopy", i])
        if not small:
            out += [["default", "list"], ["default", "treedict"], ["default", "numpy1d"]]
    for i in range(n):
        for c in (0, -1):
            out.append(["write", i, c])
    return out


def apply(w, op, rec, case):
    """Run one operation on the real code and on the reference."""
    k, i = op[0], op[1]
    rec.step()
    if k == "default":
        from bcause.factors.values.store import DataStore
        DataStore.set_default(op[1]); return
    if k == "write":
        t = w.ref[i]
        key = list(t.val)[op[2]]
        w.n += 1
        val = 2.0 + w.n / 8
        w.store(i).set_value(val, dict(zip(t.vars, key)))
        t.val[key] = val
        return
    if k == "scopy":
        t = w.ref[i]
        c = w.store(i).copy()
        rec.check(c is not w.store(i), "store.copy() handed back the same store", case)
        w.add(c, Table(t.dom, list(t.val.values())), "s"); return
    f, t = w.real[i], w.ref[i]
    if k in ("mul", "add", "sub", "div"):
        g, u = w.real[op[2]], w.ref[op[2]]
        r = {"mul": lambda: f * g, "add": lambda: f + g, "sub": lambda: f - g, "div": lambda: f / g}[k]()
        fn = {"mul": lambda x, y: x * y, "add": lambda x, y: x + y, "sub": lambda x, y: x - y,
              "div": lambda x, y: (0.0 if x == 0 else None) if y == 0 else (None if x is None else x / y)}[k]
        w.add(r, t.combine(u, fn))
    elif k == "num":
        w.add(f * 2, t.combine(Table({}, [2.0]), lambda x, y: x * y))
    elif k == "marg":
        w.add(f.marginalize(*op[2]), t.reduce(op[2], sum))
    elif k == "max":
        try:
            r = f.maxmarginalize(*op[2])
        except NotImplementedError:
            if w.vt != "numpy1d": raise
            return
        w.add(r, t.reduce(op[2], max))
    elif k == "restrict":
        obs = {v: t.dom[v][-1] for v in op[2]}
        w.add(f.restrict(**obs), t.restrict(obs))
    elif k == "nop":
        w.add(f.restrict(Q=1), Table(t.dom, list(t.val.values())))
    elif k == "ren":
        m = {"X": "Y", "Y": "X"} if ("X" in t.vars) == ("Y" in t.vars) else {"X": "Z", "Y": "W"}
        m = {a: b for a, b in m.items() if b not in t.vars or b in m}
        w.add(f.rename_vars(m), t.rename(m))


def compare(w, rec, case):
    for i, (r, t) in enumerate(zip(w.real, w.ref)):
        st = w.store(i)
        dom = r.domain
        rec.check(set(dom) == set(t.vars) and all(sorted(map(str, dom[v])) == sorted(map(str, t.dom[v])) for v in t.vars),
                  f"factor {i} now has domain {dict(dom)} instead of {t.dom}", case)
        for a in t.assignments():
            x = t.at(a)
            if x is None: continue
            got = r.get_value(**a)
            rec.check(close(got, x), f"[{w.vt}] after {case}: factor {i} has {got} at {a}, expected {x}", case)
        rec.check(type(st) is w.base, f"factor {i} is stored as {type(st).__name__} instead of {w.base.__name__}", case)


def valid(w, op):
    """division by a zero cell or arithmetic on an unspecified value is outside the property"""
    if op[0] in ("mul", "add", "sub", "div", "num", "marg", "max", "restrict", "ren", "nop", "scopy"):
        idx = [op[1]] + ([op[2]] if op[0] in ("mul", "add", "sub", "div") else [])
        for i in idx:
            if any(x is None for x in w.ref[i].val.values()): return False
    return True


def explore(vt, prefix, depth, small, rec, touch=False, ints=False):
    """All extensions of prefix up to depth; the last step is a write."""
    w = World(vt, ints)
    for k, op in enumerate(prefix):
        rec.at([vt, prefix[:k + 1]])
        apply(w, op, rec, prefix[:k + 1])
    if prefix: compare(w, rec, [vt, prefix])
    rec.trace()
    if rec.state((vt, prefix, ints)): rec.outcome(tuple((t.vars, tuple(t.val.values())) for t in w.ref))
    if len(prefix) >= depth: return
    last = len(prefix) == depth - 1
    for op in ops_at(w.kind, [t.vars for t in w.ref], small=small, writes_only=last):
        if not valid(w, op): continue
        if touch and len(prefix) == 2 and not last and op[0] not in ("write", "default") and \
                not any(isinstance(x, int) and x >= 2 for x in op[1:]): continue
        explore(vt, prefix + [op], depth, small, rec, touch, ints)


def specs(tier):
    out = []
    first = ops_at(["f", "f"], [("X", "Y"), ("Y", "X1")])
    fsmall = [o for o in first if o in ops_at(["f", "f"], [("X", "Y"), ("Y", "X1")], small=True)]
    for vt in STORES:
        out.append(dict(vt=vt, prefix=[], depth=1, small=False))
        for op in first:
            out.append(dict(vt=vt, prefix=[op], depth=3, small=False))
        for op in fsmall:
            out.append(dict(vt=vt, prefix=[op], depth=3, small=True, ints=True))
        if tier == "quick":
            for op in fsmall:
                out.append(dict(vt=vt, prefix=[op], depth=4, small=True))
        else:
            for op in first:
                out.append(dict(vt=vt, prefix=[op], depth=4, small=False, touch=True))
            for op in fsmall:
                for op2 in (["write", 0, 0], ["write", 1, -1], ["scopy", 0], ["ren", 0], ["restrict", 1, ["Y"]], ["mul", 0, 1]):
                    out.append(dict(vt=vt, prefix=[op, op2], depth=5, small=True))
    out.sort(key=lambda s: s["depth"])
    return out


def run(spec, rec):
    explore(spec["vt"], spec["prefix"], spec["depth"], spec["small"], rec, spec.get("touch", False), spec.get("ints", False))
    rec.sample(dict(prefix=spec["prefix"], depth=spec["depth"], store=spec["vt"]))
