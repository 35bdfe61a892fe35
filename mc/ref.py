"""Boring reference: tables are dicts from sorted-by-variable assignments to numbers."""
import itertools, math

TOL = 1e-9


def close(a, b, tol=TOL):
    try:
        a, b = float(a), float(b)
    except Exception:
        return False
    if math.isnan(a) or math.isnan(b):
        return False
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


class Table:
    """vars: tuple of names; dom: {v: list of states}; val: {tuple of states in var order: number}"""

    def __init__(self, dom, values=None, fn=None):
        self.vars = tuple(dom)
        self.dom = {v: list(dom[v]) for v in dom}
        space = itertools.product(*[self.dom[v] for v in self.vars])
        if fn is not None:
            self.val = {k: fn(dict(zip(self.vars, k))) for k in space}
        else:
            self.val = dict(zip(space, values))

    def at(self, asg):
        return self.val[tuple(asg[v] for v in self.vars)]

    def assignments(self):
        for k in self.val:
            yield dict(zip(self.vars, k))

    def combine(self, other, op):
        dom = dict(self.dom)
        for v in other.vars:
            dom.setdefault(v, other.dom[v])
        return Table(dom, fn=lambda a: op(self.at(a), other.at(a)))

    def reduce(self, remove, fn):
        dom = {v: d for v, d in self.dom.items() if v not in remove}
        acc = {}
        for k, x in self.val.items():
            a = dict(zip(self.vars, k))
            acc.setdefault(tuple(a[v] for v in dom), []).append(x)
        t = Table(dom, fn=lambda a: fn(acc[tuple(a[v] for v in dom)]))
        return t

    def restrict(self, obs):
        dom = {v: d for v, d in self.dom.items() if v not in obs}
        return Table(dom, fn=lambda a: self.at({**obs, **a}))

    def keep(self, v, states):
        dom = {w: [x for x in d if w != v or x in states] for w, d in self.dom.items()}
        return Table(dom, fn=self.at)

    def rename(self, m):
        dom = {m.get(v, v): d for v, d in self.dom.items()}
        return Table(dom, values=list(self.val.values()))


def same_states(a, b):
    return len(a) == len(b) and all(x in b for x in a) and all(type_ok(x, [y for y in b if y == x][0]) for x in a)


def type_ok(x, y):
    """states must keep their kind (a string must not become a number, a bool not an int, ...)"""
    def kind(z):
        import numpy as np
        if isinstance(z, (bool, np.bool_)): return "b"
        if isinstance(z, (int, np.integer)): return "i"
        if isinstance(z, (float, np.floating)): return "f"
        if isinstance(z, str): return "s"
        return type(z).__name__
    return kind(x) == kind(y)


def read(f):
    """The table a real factor shows through its value list (last variable fastest)."""
    dom = f.domain
    vals = list(f.values_list)
    n = 1
    for v in dom: n *= len(dom[v])
    if n != len(vals):
        raise AssertionError(f"factor shows {len(vals)} values for a domain of size {n}")
    return Table(dom, values=vals)


def diff(real, ref, tol=TOL, skip=()):
    """None if the real table (a Table read from the code) equals the reference, else a message."""
    if set(real.vars) != set(ref.vars):
        return f"variables {list(real.vars)} instead of {list(ref.vars)}"
    for v in ref.vars:
        if not same_states(real.dom[v], ref.dom[v]):
            return f"states of {v}: {real.dom[v]} instead of {ref.dom[v]}"
    for a in ref.assignments():
        if skip and tuple(a[v] for v in ref.vars) in skip:
            continue
        if not close(real.at(a), ref.at(a), tol):
            return f"value at {a}: {real.at(a)} instead of {ref.at(a)}"
    return None
