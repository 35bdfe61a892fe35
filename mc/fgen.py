"""Alphabets for factor-level checks."""
import itertools

STORES = ["numpy", "numpy1d", "list", "treedict"]
NAMES = ["X", "X1", "Y", "A"]          # X / X1: one name contains the other
# every card 1..3, every state type, sorted and unsorted, index-like and not
CFGS = [
    {"X": ["x0", "x1"], "X1": [1, 2, 3], "Y": [False, True], "A": ["a"]},
    {"X": [7, 2], "X1": ["c", "a", "b"], "Y": [1, 0], "A": [True, False]},
    {"X": [0, 1], "X1": [0, 1], "Y": [0, 1, 2], "A": ["1", "0"]},
    {"X": [0.5, 1.5, -1.0], "X1": ["X", "Y"], "Y": ["t"], "A": [2, 1, 0]},
]


def scopes(names, maxlen):
    for k in range(maxlen + 1):
        yield from itertools.permutations(names, k)


def size(dom):
    n = 1
    for d in dom.values(): n *= len(d)
    return n


def vals(n, salt=0, neg=False):
    out = [round(0.05 + ((i * 37 + 11 + 29 * salt) % 101) / 101.0, 6) for i in range(n)]
    if neg:
        out = [x if (i + salt) % 3 else -x for i, x in enumerate(out)]
    return out


def ordered_subsets(xs):
    for k in range(len(xs) + 1):
        yield from itertools.permutations(xs, k)


def subsets(xs):
    for k in range(len(xs) + 1):
        yield from itertools.combinations(xs, k)


def mk(dom, values, vtype, left=None, right=None):
    from bcause.factors import MultinomialFactor
    kw = {}
    if left is not None: kw["left_vars"] = list(left)
    if right is not None: kw["right_vars"] = list(right)
    return MultinomialFactor(domain={v: list(d) for v, d in dom.items()}, values=list(values), vtype=vtype, **kw)


# --- wide factors: more variables, more states (past ten: "s10" sorts before "s2"), other kinds of names
WCFG = {"V1": [3, 0, 4, 1, 2], "V10": [f"s{i}" for i in (0, 1, 2, 10, 3, 4, 5, 6, 7, 8, 9)], "V2": [True, False],
        "a b": [0.5, -1.5, 2.0], "e": ["only"], "P": ["d", "a", "c", "b"], "V": [10, 9, 8, 11]}
WSCOPES = [["V1", "V10", "V2"], ["V10", "V1"], ["P", "V1", "e", "a b"], ["a b", "V2", "P", "V"], ["V", "P", "V1"], ["e", "V10", "V"],
           ["V2", "a b", "e", "P", "V1"], ["V1", "V2", "V", "e", "a b"], ["V10", "a b", "V2"], ["V", "V1", "V10"], ["P"], ["V10"],
           ["V2", "V10", "a b", "P"], ["P", "a b", "V2", "V1"], ["e", "V", "a b", "V1", "V2"]]


def wvals(n, salt=0, neg=False):
    out = [round(0.02 + ((i * 389 + 71 + 83 * salt) % 1009) / 1009.0, 6) for i in range(n)]
    if neg: out = [x if (i + salt) % 3 else -x for i, x in enumerate(out)]
    return out


def rotated(states, k):
    k %= len(states)
    return list(states[k:]) + list(states[:k])
