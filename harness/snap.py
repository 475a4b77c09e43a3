# coding=utf-8
"""deep snapshots of diagrams and their comparison"""
import networkx as nx

from symex.api import get, plain


def copy(x):
    if isinstance(x, dict):
        return {k: copy(v) for k, v in x.items()}
    if isinstance(x, list):
        return [copy(v) for v in x]
    if isinstance(x, tuple):
        return tuple(copy(v) for v in x)
    if isinstance(x, nx.Graph):
        return {"nodes": [(n, copy(dict(a))) for n, a in x.nodes(data=True)],
                "edges": [(u, v, copy(dict(a))) for u, v, a in x.edges(data=True)], "graph": copy(dict(x.graph)),
                "kind": type(x).__name__}
    if x is None or isinstance(x, (str, int, float)):
        return x
    if isinstance(x, (set, frozenset)):
        return sorted(plain(y) if isinstance(y, str) else repr(y) for y in x)
    return ("object", type(x).__name__)


def snap(dg):
    """everything a diagram object holds"""
    return {k: copy(v) for k, v in vars(dg).items()}


def same(ctx, got, want, what):
    """two snapshots are equal, in content and order"""
    if isinstance(want, str) or isinstance(got, str):
        if got is not want:
            ctx.eq(got, want, what)
    elif isinstance(want, dict):
        if not isinstance(got, dict) or len(got) != len(want):
            ctx.fail("%s: got %s, expected %s" % (what, _s(got), _s(want)))
        for k, v in want.items():
            same(ctx, get(ctx, got, k, what), v, "%s/%s" % (what, _s(k)))
    elif isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(got) != len(want):
            ctx.fail("%s: got %s, expected %s" % (what, _s(got), _s(want)))
        for i, (a, b) in enumerate(zip(got, want)):
            same(ctx, a, b, "%s/%d" % (what, i))
    else:
        ctx.eq(got, want, what)


def _s(x):
    def st(y):
        if isinstance(y, str):
            return plain(y)
        if isinstance(y, dict):
            return {st(k): st(v) for k, v in y.items()}
        if isinstance(y, (list, tuple)):
            return [st(z) for z in y]
        return y
    r = repr(st(x))
    return r if len(r) < 300 else r[:300] + "..."


def without(s, node_keys=(), edge_keys=()):
    """a snapshot with some node and edge attributes left out"""
    out = dict(s)
    g = dict(out["diagram_graph"])
    g["nodes"] = [(n, {k: v for k, v in a.items() if k not in node_keys}) for n, a in g["nodes"]]
    g["edges"] = [(u, v, {k: w for k, w in a.items() if k not in edge_keys}) for u, v, a in g["edges"]]
    out["diagram_graph"] = g
    return out
