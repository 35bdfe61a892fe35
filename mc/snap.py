"""Snapshots: everything observable about a model, a data set or an argument, to detect changes."""
import copy


def factor(f):
    if f is None: return None
    return (type(f).__name__, tuple((v, tuple(d)) for v, d in f.domain.items()), tuple(f.left_vars), tuple(f.right_vars),
            tuple(x if isinstance(x, (str, bool)) else float(x) if not hasattr(x, "dtype") or x.dtype.kind in "fiub" else str(x) for x in f.values_list))


def model(m):
    doms = {v: (tuple(d) if d is not None else None) for v, d in m.get_domains(list(m.variables)).items()}
    return (tuple(m.graph.nodes), tuple(sorted(m.graph.edges)), tuple(m.variables), tuple(sorted((v, d) for v, d in doms.items())),
            tuple((v, factor(f)) for v, f in m.factors.items()),
            tuple(m.endogenous) if hasattr(m, "endogenous") else None)


def frame(df):
    return (tuple(df.columns), tuple(map(str, df.dtypes)), tuple(map(str, df.index)), tuple(tuple(map(repr, r)) for r in df.itertuples(index=False)))
