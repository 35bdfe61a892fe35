"""C02: marginalize / maxmarginalize / restrict on every scope, every ordered subset, every observation."""
import itertools
from ..ref import Table, read, diff, close
from ..fgen import *


def BOUNDS(tier):
    return dict(variables=4, max_scope=4, cards="1..3", stores=STORES, cfgs=2 if tier == "quick" else 4,
                note="all ordered scopes; all ordered subsets removed; all partial observations (plus absent variables); signs mixed",
                wide="15 scopes of 1-5 variables with 1-11 states: every set removed in up to three orders, every 7th (thorough: every) observation")


def specs(tier):
    out = []
    ncfg = (1, 3) if tier == "quick" else (0, 1, 2, 3)
    for s in scopes(NAMES, 4):
        for vt in STORES:
            for c in ncfg:
                out.append(dict(vt=vt, cfg=c, s=list(s)))
            if tier == "quick" and len(s) <= 3:
                out += [dict(vt=vt, cfg=c, s=list(s)) for c in (0, 2)]
    out.sort(key=lambda s: len(s["s"]))
    for vt in STORES:
        for i, s in enumerate(WSCOPES): out.append(dict(kind="wide", vt=vt, s=s, cfg=f"w{i}", thin=7 if tier == "quick" else 1))
    return out


def wide(spec, rec):
    """Up to 5 variables with up to 11 states: sets of variables removed in two orders, observations of any number of variables."""
    vt, s = spec["vt"], spec["s"]
    dom = {v: WCFG[v] for v in s}
    v = wvals(size(dom), len(s), neg=True)
    f, t = mk(dom, v, vt), Table(dom, v)
    n = 0
    for rem in subsets(s):
        for order in {tuple(rem), tuple(reversed(rem)), tuple(sorted(rem))}:
            case = [vt, spec["cfg"], s, "wide", "marginalize", list(order)]
            rec.at(case)
            judge(rec, f.marginalize(*order), t.reduce(rem, sum), case, f)
            if not rem: continue
            case = [vt, spec["cfg"], s, "wide", "maxmarginalize", list(order)]
            rec.at(case)
            try:
                judge(rec, f.maxmarginalize(*order), t.reduce(rem, max), case, f)
            except NotImplementedError:
                rec.check(vt == "numpy1d", "maxmarginalize is not implemented", case)
        for states in itertools.product(*[dom[x] for x in rem]):
            n += 1
            if len(rem) > 1 and n % spec["thin"]: continue
            obs = dict(zip(rem, states))
            if n % 2: obs = dict(reversed(list(obs.items())))
            case = [vt, spec["cfg"], s, "wide", "restrict", list(obs.items())]
            rec.at(case)
            judge(rec, f.restrict(**obs), t.restrict(obs), case, f)
            if len(rem) == len(s): rec.check(close(f.get_value(**obs), t.at(obs)), f"get_value{obs}", case)
    d = diff(read(f), t)
    rec.check(d is None, f"operand changed: {d}", [vt, s, "operand"])


def judge(rec, res, ref, case, f):
    d = diff(read(res), ref)
    rec.check(d is None, f"{case}: {d}", case)
    rec.check(list(res.variables) == list(res.domain.keys()), f"variables {res.variables} do not match domain {list(res.domain)}", case)
    rec.check(type(res.store) is type(f.store), f"stored as {type(res.store).__name__}", case)
    rec.step(); rec.trace(); rec.state(case)
    rec.outcome(tuple(round(float(x), 9) for x in ref.val.values()))


def several(rec, spec, f, t, cfg, s):
    """Observations that keep several states of a variable (the numpy storage; the others decline)."""
    opts = []
    for v in s:
        d = list(cfg[v])
        lists = [list(p) for r in range(1, len(d) + 1) for p in itertools.permutations(d, r)]
        opts.append([None, d[-1]] + lists)
    for combo in itertools.product(*opts):
        obs = {v: o for v, o in zip(s, combo) if o is not None}
        if not any(isinstance(o, list) for o in obs.values()): continue
        case = [spec["vt"], spec["cfg"], s, "several", list(obs.items())]
        rec.at(case)
        ref = t.restrict({v: (o[0] if isinstance(o, list) else o) for v, o in obs.items() if not isinstance(o, list) or len(o) == 1})
        for v, o in obs.items():
            if isinstance(o, list) and len(o) > 1: ref = ref.keep(v, o)
        try:
            res = f.restrict(**obs)
        except NotImplementedError:
            rec.check(spec["vt"] != "numpy", "declined", case)
            rec.note("several_declined"); rec.step()
            continue
        judge(rec, res, ref, case, f)


def run(spec, rec):
    if spec.get("kind") == "wide": return wide(spec, rec)
    vt, cfg, s = spec["vt"], CFGS[spec["cfg"]], spec["s"]
    dom = {v: cfg[v] for v in s}
    for tag, v in (("mixed", vals(size(dom), neg=True)), ("negative", [-x for x in vals(size(dom), 4)])):
        f, t = mk(dom, v, vt), Table(dom, v)
        for rem in ordered_subsets(s):
            case = [vt, spec["cfg"], s, tag, "marginalize", list(rem)]
            rec.at(case)
            ref = t.reduce(rem, sum)
            judge(rec, f.marginalize(*rem), ref, case, f)
            if tag == "mixed":
                judge(rec, f ** list(rem), ref, case + ["**"], f)
                if len(rem) == 1: judge(rec, f ** rem[0], ref, case + ["**str"], f)
            if not rem: continue
            case = [vt, spec["cfg"], s, tag, "maxmarginalize", list(rem)]
            rec.at(case)
            ref = t.reduce(rem, max)
            try:
                res = f.maxmarginalize(*rem)
            except NotImplementedError:
                rec.check(vt == "numpy1d", "maxmarginalize is not implemented", case)
                rec.note("max_declined")
                continue
            judge(rec, res, ref, case, f)
            if tag == "negative":
                judge(rec, f ^ list(rem), ref, case + ["^"], f)
                if len(rem) == 1: judge(rec, f ^ rem[0], ref, case + ["^str"], f)
        for sub in subsets(s):
            for states in itertools.product(*[cfg[v] for v in sub]):
                obs = dict(zip(sub, states))
                case = [vt, spec["cfg"], s, tag, "restrict", list(obs.items())]
                rec.at(case)
                ref = t.restrict(obs)
                judge(rec, f.restrict(**obs), ref, case, f)
                if tag == "mixed":
                    # reversed observation order, and variables the factor does not have
                    judge(rec, f.R(**{**{"Z": "zz", "XX": 3}, **dict(reversed(list(obs.items())))}), ref, case + ["absent"], f)
                if len(sub) == len(s):
                    got = f.get_value(**obs)
                    rec.check(close(got, t.at(obs)), f"get_value{obs}={got}", case)
        if tag == "mixed" and len(s) <= (3 if vt == "numpy" else 2): several(rec, spec, f, t, cfg, s)
        d = diff(read(f), t)
        rec.check(d is None, f"operand changed: {d}", [vt, s, "operand"])
    rec.sample(dict(scope=s, store=vt, table=v[:4]))
