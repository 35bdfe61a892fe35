"""C32: enumerations of states, positions, coordinates and sub-domains describe the same space."""
import itertools
import numpy as np
from ..fgen import STORES

STATES = {"A": ["a1", "a2", "a3", "a4"], "B": [3, 0, 2, 1], "C": [True, False], "D": [0.5, 0.25, 1.0, 2.5], "E": ["", " ", "1", "x y"]}


def BOUNDS(tier):
    q = tier == "quick"
    return dict(domains="all ordered choices of 0-%d of %d variables with 1-%d states each" % (3 if q else 4, len(STATES), 3 if q else 4),
                observations="every assignment of every subset of the variables, in and out of order", draws="all outcomes of the random choices for domains of up to 12 configurations")


def specs(tier):
    q = tier == "quick"
    return [dict(kind="space", vs=list(vs), top=3 if q else 4) for r in range(0, 4 if q else 5) for vs in itertools.permutations(STATES, r)] + [dict(kind="array", top=3 if q else 4)] + [dict(kind="draws", part=i) for i in range(8)]


def domains(vs, top):
    for sizes in itertools.product(range(1, top + 1), repeat=len(vs)):
        if any(n > len(STATES[v]) for v, n in zip(vs, sizes)): continue
        yield {v: list(STATES[v][:n]) for v, n in zip(vs, sizes)}


def run_space(spec, rec):
    from bcause.util import domainutils as du
    vs = spec["vs"]
    for dom in domains(vs, spec["top"]):
        case = [str(dom)]
        rec.at(case)
        keep = {v: list(s) for v, s in dom.items()}
        want = [()]
        for v in vs: want = [c + (s,) for c in want for s in dom[v]]
        got = du.state_space(dom)
        rec.check([tuple(x) for x in got] == want and all([type(a) for a in x] == [type(b) for b in y] for x, y in zip(got, want)), f"state_space: {got}", case)
        asg = du.assingment_space(dom)
        rec.check([tuple(a.values()) for a in asg] == want and all(list(a) == vs for a in asg), f"assingment_space: {asg}", case)
        num = [()]
        for v in vs: num = [c + (i,) for c in num for i in range(len(dom[v]))]
        rec.check([tuple(x) for x in du.numeric_state_space(dom)] == num, "numeric_state_space", case)
        rec.check([tuple(a.values()) for a in du.numeric_assignment_space(dom)] == num and all(list(a) == vs for a in du.numeric_assignment_space(dom)), "numeric_assignment_space", case)
        rec.check(du.to_numeric_domains(dom) == {v: list(range(len(s))) for v, s in dom.items()}, "to_numeric_domains", case)
        st = list(du.steps(dom))
        rec.check(len(st) == len(vs) and all(sum(a * b for a, b in zip(st, c)) == i for i, c in enumerate(num)), f"steps: {st}", case)
        rec.check(du.steps_dict(dom) == dict(zip(vs, st)) and list(du.steps_dict(dom)) == vs, "steps_dict", case)
        for first in (0, 1):
            for named in (True, False):
                c = du.create_domain({v: len(s) for v, s in dom.items()}, first=first, str_values=named) if vs else {}
                exp = {v: [f"{v.lower()}{j}" if named else j for j in range(first, first + len(s))] for v, s in dom.items()}
                rec.check(c == exp and list(c) == list(exp), f"create_domain: {c}", case)
        for r in range(len(vs) + 1):
            for sub in itertools.permutations(vs, r):
                rec.check(du.subdomain(dom, *sub) == {v: dom[v] for v in sub} and list(du.subdomain(dom, *sub)) == list(sub), f"subdomain {sub}", case)
                if len(want) > 20 and list(sub) != sorted(sub): continue
                for ss in itertools.product(*[range(len(dom[v])) for v in sub]):
                    obs = {v: dom[v][j] for v, j in zip(sub, ss)}
                    agree = [i for i, c in enumerate(want) if all(c[vs.index(v)] == s for v, s in obs.items())]
                    for extra in ({}, {"other": 1}):
                        o = {**extra, **obs}
                        rec.check(list(du.index_list(dom, dict(o))) == agree and list(du.index_iterator(dom, dict(o))) == agree, f"index_list {o}: {du.index_list(dom, o)} instead of {agree}", case)
                    co = du.values_to_coord(dom, obs)
                    rec.check(co == dict(zip(sub, ss)) and list(co) == list(sub), f"values_to_coord {obs}: {co}", case)
                    re = du.restrict_domain(dom, obs)
                    rec.check(re == {v: [obs[v]] if v in obs else dom[v] for v in vs} and list(re) == vs, f"restrict_domain {obs}: {re}", case)
                    rec.check([tuple(x) for x in du.state_space(re)] == [want[i] for i in agree], f"space of the domain restricted to {obs}", case)
                    rec.step()
        rec.check(list(du.index_list(dom)) == list(range(len(want))), "index_list without observations", case)
        rec.check(dom == keep and list(dom) == vs, "the domain changed", case)
        rec.state(case); rec.trace()
    rec.outcome(vs)


def run_array(spec, rec):
    from bcause.util import arrayutils as au
    from bcause.factors import MultinomialFactor
    from bcause.factors.factor import Factor
    for n in range(6):
        items = list("abcde")[:n]
        got = au.powerset(items)
        rec.at(["powerset", n])
        rec.check(sorted(map(tuple, got)) == sorted(c for r in range(n + 1) for c in itertools.combinations(items, r)) and [len(c) for c in got] == sorted(len(c) for c in got), f"powerset: {got}", ["powerset", n])
        rec.check(au.len_iterable(iter(items)) == n and au.len_iterable(x for x in items) == n, "len_iterable", ["len", n])
        rec.check(au.as_lists(tuple(items)) == items and au.as_lists("abc") == ["abc"] and au.as_lists("abc", items) == [["abc"], items], "as_lists", ["as_lists", n])
        rec.state(["powerset", n])
    for r in (1, 2, 3):
        for shape in itertools.product(range(1, spec["top"] + 1), repeat=r):
            case = ["array", list(shape)]
            rec.at(case)
            n = int(np.prod(shape))
            vals = [j + 1. for j in range(n)]
            # values given with the first index running fastest
            pos = lambda idx: sum(i * int(np.prod(shape[:k])) for k, i in enumerate(idx))
            want = [vals[pos(idx)] for idx in itertools.product(*[range(s) for s in shape])]
            rec.check(list(au.change_shape_order(list(vals), shape)) == want, "change_shape_order", case)
            arr = np.reshape(vals, shape)
            for k in range(1, r + 1):
                for ax in itertools.combinations(range(r), k):
                    for perm in itertools.permutations(ax):
                        got = au.normalize_array(arr.tolist() if k == 1 else arr, list(perm))
                        rec.check(np.allclose(got, arr / arr.sum(axis=ax, keepdims=True)) and np.array_equal(arr, np.reshape(vals, shape)), f"normalize_array {perm}", case)
                        rec.step()
            for idx in itertools.product(*[range(s) for s in shape]):
                for kind in ("array", "list"):
                    d = arr.copy() if kind == "array" else arr.tolist()
                    au.set_value(-1., d, list(idx))
                    e = arr.copy(); e[idx] = -1.
                    rec.check(np.array_equal(np.array(d), e), f"set_value {idx} in a {kind}", case)
            rec.state(case)
    names = ["A", "B", "C"]
    dom = {"A": [0, 1], "B": ["x", "y", "z"], "C": [True, False]}
    scopes = [s for k in (1, 2) for s in itertools.combinations(names, k)]
    for vt in STORES:
        fs = [MultinomialFactor({v: dom[v] for v in s}, [.1 + .07 * j + .01 * i for j in range(int(np.prod([len(dom[v]) for v in s])))], vtype=vt) for i, s in enumerate(scopes)]
        for k in (1, 2, 3):
            for pick in itertools.product(range(len(fs)), repeat=k):
                if k == 3 and sum(pick) % 5: continue
                case = ["combine_all", vt, list(pick)]
                rec.at(case)
                got = Factor.combine_all(*[fs[j] for j in pick])
                over = [v for v in names if any(v in scopes[j] for j in pick)]
                rec.check(sorted(got.variables) == sorted(over), "other variables", case)
                for st in itertools.product(*[dom[v] for v in over]):
                    a = dict(zip(over, st))
                    want = float(np.prod([fs[j].get_value(**{v: a[v] for v in scopes[j]}) for j in pick]))
                    rec.check(abs(float(got.get_value(**a)) - want) < 1e-9, f"at {a}: {got.get_value(**a)} instead of {want}", case)
                rec.state(case); rec.trace()


def run_draws(spec, rec):
    from bcause.util import domainutils as du
    from ..draws import Draws
    n = 0
    for r in (0, 1, 2, 3):
        for vs in itertools.permutations(STATES, r):
            for dom in domains(vs, 3):
                n += 1
                if n % 8 != spec["part"]: continue
                total = int(np.prod([len(s) for s in dom.values()])) if vs else 1
                if total > 12: continue
                case = ["draws", str(dom)]
                rec.at(case)
                prob = {}
                for got, p, _ in Draws().explore(lambda: du.random_assignment(dom)):
                    rec.check(list(got) == list(vs), "other variables", case)
                    k = tuple(got.values()); prob[k] = prob.get(k, 0) + p; rec.step()
                want = set(itertools.product(*dom.values()))
                rec.check(set(prob) == want and all(abs(p - 1 / total) < 1e-9 for p in prob.values()), f"random_assignment: {prob}", case)
                for k in range(r + 1):
                    for it in itertools.permutations(vs, k):
                        free = [v for v in vs if v not in it]
                        m = int(np.prod([len(dom[v]) for v in it])) if it else 1
                        if int(np.prod([len(dom[v]) for v in free])) ** m > 130: continue
                        seen = {}
                        for got, p, _ in Draws().explore(lambda: du.random_assignment(dom, list(it))):
                            rec.check([tuple(a[v] for v in it) for a in got] == list(itertools.product(*[dom[v] for v in it])), f"random_assignment over {it}: {got}", case)
                            rec.check(all(list(a) == list(vs) and all(a[v] in dom[v] for v in vs) for a in got), f"random_assignment over {it}: {got}", case)
                            key = tuple(tuple(a[v] for v in free) for a in got); seen[key] = seen.get(key, 0) + p; rec.step()
                        nf = int(np.prod([len(dom[v]) for v in free])) if free else 1
                        rec.check(len(seen) == nf ** m and all(abs(p - nf ** -m) < 1e-9 for p in seen.values()), f"random_assignment over {it}: {len(seen)} outcomes instead of {nf ** m}", case)
                rec.state(case); rec.trace()
    rec.outcome(["draws", spec["part"]])


def run(spec, rec):
    {"space": run_space, "array": run_array, "draws": run_draws}[spec["kind"]](spec, rec)
    rec.sample(spec)
