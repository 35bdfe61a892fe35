"""Explorer: runs every spec of a check (the complete bounded space), in parallel, and reports.

A check module defines
    specs(tier)      -> list of JSON-able specs that together partition the explored space, simplest first
    run(spec, rec)   -> explores one spec exhaustively on the real code, comparing with the reference
and optionally ASSUMPTIONS, BOUNDS(tier), post(agg).
"""
import os, sys, json, time, hashlib, traceback, signal, importlib, multiprocessing as mp, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE_DIR", os.path.join(VERIF, "evidence"))
SPEC_TIMEOUT = int(os.environ.get("VERIF_SPEC_TIMEOUT", "300"))


class Violation(Exception):
    def __init__(self, case, msg, data=None):
        super().__init__(msg)
        self.case, self.msg, self.data = case, msg, data


class Hang(Exception):
    pass


def h64(key):
    if not isinstance(key, (str, bytes)):
        key = repr(key)
    if isinstance(key, str):
        key = key.encode()
    return int.from_bytes(hashlib.blake2b(key, digest_size=8).digest(), "big")


class Rec:
    """What one spec explored."""

    def __init__(self, known=()):
        self.states, self.outcomes, self.samples = set(), set(), []
        self.transitions = self.traces = 0
        self.known, self.known_hits, self.notes = set(known), {}, {}
        self.case = None

    def state(self, key):
        h = h64(key)
        new = h not in self.states
        self.states.add(h)
        return new

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key):
        if len(self.outcomes) < 200000:
            self.outcomes.add(h64(key))

    def sample(self, s):
        if len(self.samples) < 1:
            self.samples.append(s)

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def at(self, case):
        """Label of the case being evaluated, for reports."""
        self.case = case

    def fail(self, msg, case=None, **data):
        case = case if case is not None else self.case
        key = case if isinstance(case, str) else json.dumps(case, sort_keys=True, default=str)
        if key in self.known:
            self.known_hits.setdefault(key, msg)
            return
        raise Violation(case, msg, data)

    def check(self, cond, msg, case=None, **data):
        if not cond:
            self.fail(msg, case, **data)


# ---------------------------------------------------------------- execution

_MOD = None
_KNOWN = ()


def _alarm(*_):
    raise Hang("the real code did not finish within %d s" % SPEC_TIMEOUT)


def run_spec(mod, spec, known=()):
    import numpy as np
    rec = Rec(known)
    random.seed(1); np.random.seed(1)
    err = None
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(SPEC_TIMEOUT)
    out, sys.stdout = sys.stdout, open(os.devnull, "w")
    try:
        mod.run(spec, rec)
    except Violation as v:
        err = dict(kind="violation", case=v.case, msg=v.msg, data=v.data)
    except (MemoryError, KeyboardInterrupt):
        raise
    except Hang as v:
        err = dict(kind="hang", case=rec.case, msg=str(v))
    except Exception as e:
        err = dict(kind="exception", case=rec.case, msg=f"{type(e).__name__}: {e}", trace=traceback.format_exc()[-4000:])
        key = rec.case if isinstance(rec.case, str) else json.dumps(rec.case, sort_keys=True, default=str)
        if key in rec.known:
            rec.known_hits.setdefault(key, err["msg"]); err = None
    finally:
        signal.alarm(0)
        sys.stdout.close(); sys.stdout = out
    return rec, err, time.time() - t0


def _worker(args):
    i, spec = args
    rec, err, dt = run_spec(_MOD, spec, _KNOWN)
    return i, rec.states, rec.outcomes, rec.samples, rec.transitions, rec.traces, rec.known_hits, rec.notes, err, dt


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        items = json.load(open(path))
    except FileNotFoundError:
        return {}
    return {e["case"]: e["what"] for e in items.get("findings", []) if e["property"] == prop}


def main(prop, tier, seed, workers=None):
    global _MOD, _KNOWN
    t0 = time.time()
    from . import env
    env.setup()
    mod = importlib.import_module("mc.checks." + prop.lower())
    known = load_known(prop)
    _MOD, _KNOWN = mod, tuple(known)
    specs = list(mod.specs(tier))
    states, outcomes, samples, trans, traces, hits, notes = set(), set(), [], 0, 0, {}, {}
    fails = []
    workers = workers or int(os.environ.get("VERIF_WORKERS", os.cpu_count() or 4))
    done = 0
    slow = (0, None)

    def absorb(r):
        nonlocal trans, traces, done, slow
        i, st, oc, sm, tr, tc, kh, nt, err, dt = r
        states.update(st); outcomes.update(oc); trans += tr; traces += tc; hits.update(kh); done += 1
        for k, v in nt.items():
            notes[k] = notes.get(k, 0) + v
        if sm and (len(samples) < 3 or (len(samples) < 6 and i > len(specs) // 2)):
            samples.append(dict(spec=specs[i], sample=sm[0]))
        if dt > slow[0]:
            slow = (dt, i)
        if err:
            fails.append((i, err))

    if workers == 1 or len(specs) == 1:
        for i, s in enumerate(specs):
            absorb(_worker((i, s)))
            if fails:
                break
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(workers, maxtasksperchild=None) as pool:
            chunk = max(1, min(8, len(specs) // (workers * 8)))
            # results in order, so that the first failure reported is the simplest one
            for r in pool.imap(_worker, list(enumerate(specs)), chunksize=chunk):
                absorb(r)
                if fails:
                    pool.terminate()
                    break
    if hasattr(mod, "post") and not fails:
        msg = mod.post(dict(states=len(states), outcomes=len(outcomes), notes=notes, transitions=trans, traces=traces))
        if msg:
            print("HARNESS ERROR:", msg)
            return 2
    os.makedirs(EVID, exist_ok=True)
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=len(states), transitions=trans, traces_validated_against_impl=traces,
                            distinct_outcomes=len(outcomes), specs_total=len(specs), specs_explored=done,
                            exhaustive=(done == len(specs) and not fails), bounds=mod.BOUNDS(tier),
                            slowest_spec_s=round(slow[0], 2), counters=notes, samples=samples or [dict(spec=specs[0])]),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=len(fails))
    if hits:
        ev["coverage"]["known_findings_hit"] = sorted(hits)
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1, default=str)
    for k in sorted(hits):
        print(f"KNOWN-FINDING: property={prop} {known[k]}")
    print(f"{prop} {tier}: specs={done}/{len(specs)} states={len(states)} transitions={trans} traces={traces} "
          f"outcomes={len(outcomes)} {notes} slowest={slow[0]:.1f}s wall={wall:.1f}s")
    if fails:
        i, err = fails[0]
        rdir = os.path.join(EVID, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, prop + ".json")
        json.dump(dict(property=prop, spec=specs[i], **err), open(path, "w"), indent=1, default=str)
        print(f"  {err['kind']}: {err['msg'][:1500]}\n  case: {str(err['case'])[:1500]}")
        if err.get("data"):
            print("  data:", str(err["data"])[:2000])
        if err.get("trace"):
            print("  " + err["trace"].strip().replace("\n", "\n  ")[-2500:])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


def replay(path):
    from . import env
    env.setup()
    d = json.load(open(path))
    mod = importlib.import_module("mc.checks." + d["property"].lower())
    rec, err, dt = run_spec(mod, d["spec"], tuple(load_known(d["property"])))
    print(json.dumps(err, indent=1, default=str))
    return 1 if err else 0
