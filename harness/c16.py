# coding=utf-8
"""C16: crossing points are counted exactly"""
from fractions import Fraction

from symex.api import H
from . import apigen as A
from . import docgen as D


def metrics(ctx):
    return ctx.mod("bpmn_python.diagram_layout_metrics")


def diagram(ctx, waylists):
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    pid = dg.add_process_to_diagram()
    for i, w in enumerate(waylists):
        a = A.simple_node(ctx, dg, pid, "a%d" % i, "task")
        b = A.simple_node(ctx, dg, pid, "b%d" % i, "task")
        _, f = dg.add_sequence_flow_to_diagram(pid, a, b, "")
        f["waypoints"] = [(ctx.numtext(x), ctx.numtext(y)) for x, y in w]
    return dg


# -- exact oracle
def frac(x):
    return getattr(x, "frac", None) if getattr(x, "frac", None) is not None else Fraction(x)


def exact(s, t):
    """do the closed segments have a common point (rational arithmetic, by clipping)"""
    (ax, ay), (bx, by) = [(frac(x), frac(y)) for x, y in s]
    (cx, cy), (dx, dy) = [(frac(x), frac(y)) for x, y in t]
    # does the difference set (Minkowski) contain the origin: p(u, v) = a + u(b-a) - c - v(d-c)
    ux, uy, vx, vy, wx, wy = bx - ax, by - ay, dx - cx, dy - cy, cx - ax, cy - ay
    det = ux * vy - uy * vx
    if det != 0:
        u = (wx * vy - wy * vx) / det
        v = (wx * uy - wy * ux) / det
        return 0 <= u <= 1 and 0 <= v <= 1
    # parallel or a point: common line needed
    if ux == 0 and uy == 0 and vx == 0 and vy == 0:
        return wx == 0 and wy == 0
    ex, ey = (ux, uy) if (ux, uy) != (0, 0) else (vx, vy)
    if wx * ey - wy * ex != 0:
        return False

    def pr(x, y):
        return x * ex + y * ey
    lo1, hi1 = sorted([pr(ax, ay), pr(bx, by)])
    lo2, hi2 = sorted([pr(cx, cy), pr(dx, dy)])
    return lo1 <= hi2 and lo2 <= hi1


def shares(s, t):
    return any(frac(p[0]) == frac(q[0]) and frac(p[1]) == frac(q[1]) for p in s for q in t)


def pair(ctx):
    """two flows of one segment each with arbitrary real coordinates"""
    fix = ctx.p("origin")
    pts = []
    for i in range(4):
        if i == 0 and fix:
            pts.append((0.0, 0.0))
        else:
            pts.append((ctx.real("c.x%d" % i, "c."), ctx.real("c.y%d" % i, "c.")))
    s, t = pts[:2], pts[2:]
    got = metrics(ctx).count_crossing_points(diagram(ctx, [s, t]))
    ctx.ok(got in (0, 1), "two segments have at most one crossing")
    # sharing an end point: compared on the symbolic values
    common = any(p[0] == q[0] and p[1] == q[1] for p in s for q in t)
    want = exact(s, t) and not shares(s, t)
    if common:
        ctx.eq(got, 0, "crossings of segments with a common end point")
        ctx.reach("common")
        return
    ctx.eq(got, 1 if want else 0, "number of crossings of %s and %s" % ([tuple(map(float, p)) for p in s],
                                                                        [tuple(map(float, p)) for p in t])
           if not ctx.symbolic else "number of crossings")
    ctx.reach("crossing" if got else "apart")
    if ctx.symbolic and got == (1 if want else 0):
        import z3
        z = [(zz(x), zz(y)) for x, y in pts]
        vs = set(ctx.vars)
        vs = {n for n in vs if n.startswith("c.")}
        if got == 1:
            # the common point a + u(b - a) = c + v(d - c) by Cramer's rule; on one line: the projections overlap
            (ax, ay), (bx, by), (cx, cy), (dx, dy) = z
            ux, uy, vx, vy, wx, wy = bx - ax, by - ay, dx - cx, dy - cy, cx - ax, cy - ay
            det = ux * vy - uy * vx
            nu, nv = wx * vy - wy * vx, wx * uy - wy * ux

            def overlap(p, q, r, t):
                return z3.And(z3.Or(p <= r, p <= t, q <= r, q <= t), z3.Or(p >= r, p >= t, q >= r, q >= t))
            hit = z3.Or(z3.And(det > 0, nu >= 0, nu <= det, nv >= 0, nv <= det),
                        z3.And(det < 0, nu <= 0, nu >= det, nv <= 0, nv >= det),
                        z3.And(det == 0, nu == 0, nv == 0, overlap(ax, bx, cx, dx), overlap(ay, by, cy, dy)))
            ctx.check(hit, True, vs, "segments counted as crossing have a common point")
        else:
            u, v = ctx.aux("aux.u").z, ctx.aux("aux.v").z
            (ax, ay), (bx, by), (cx, cy), (dx, dy) = z
            hit = z3.And(u >= 0, u <= 1, v >= 0, v <= 1, ax + u * (bx - ax) == cx + v * (dx - cx),
                         ay + u * (by - ay) == cy + v * (dy - cy))
            ctx.check(z3.Not(hit), True, vs | {"aux.u", "aux.v"}, "segments not counted have no common point")


def zz(x):
    import z3
    return x.z if hasattr(x, "z") else z3.RealVal(str(Fraction(x)))


GRID = [(0, 0), (2, 0), (1, 1), (2, 2), (0, 2), (1, 0), (3, 1)]


def several(ctx):
    """several segments on a small grid: the count is the number of crossing pairs"""
    shape = [(3, 2), (4, 2), (2, 2, 2)][ctx.pick("shape", ctx.p("shapes", 2))]
    k = ctx.p("grid", 4)
    ways, n = [], 0
    for i, c in enumerate(shape):
        w = []
        for j in range(c):
            w.append(GRID[0] if (i, j) == (0, 0) else GRID[ctx.pick("g%d.%d" % (i, j), k)])
            n += 1
        ways.append(w)
    dg = diagram(ctx, ways)
    segs = [(w[i], w[i + 1]) for w in ways for i in range(len(w) - 1)]
    want = sum(1 for i in range(len(segs)) for j in range(i) if exact(segs[i], segs[j]) and not shares(segs[i], segs[j]))
    m = metrics(ctx)
    ctx.eq(m.count_crossing_points(dg), want, "number of crossings")
    ctx.eq(m.count_segments(dg), len(segs), "number of segments")
    ctx.reach("crossings%d" % want)


def segments(ctx):
    """any number of waypoints"""
    n = ctx.pick("flows", 4)
    ways, want = [], 0
    for i in range(n):
        k = 1 + ctx.pick("w%d" % i, ctx.p("ways", 5))
        want += k - 1
        ways.append([(ctx.real("x%d.%d" % (i, j)), ctx.real("y%d.%d" % (i, j))) for j in range(k)])
    ctx.eq(metrics(ctx).count_segments(diagram(ctx, ways)), want, "number of segments")
    ctx.reach("flows%d" % n)


def comb(k, j, x=0, y=0, d=1):
    """k horizontal and j vertical flows, each crossing each"""
    return [[(x - d, y + d * i), (x + d * j, y + d * i)] for i in range(k)] + [
        [(x + d * i, y - d), (x + d * i, y + d * k)] for i in range(j)]


def zigzag(n, h, x=0, y=0):
    return [(x + i, y + (h if i % 2 else 0)) for i in range(n)]


DRAWINGS = [
    comb(7, 8), comb(12, 1), comb(3, 3) + comb(2, 2, 100, 50) + comb(4, 1, -300, -70, 8), comb(5, 6, 0.5, -0.25, 0.5),
    [zigzag(14, 3), [(-1, 1), (15, 2)]], [zigzag(9, 4), zigzag(9, -4, 0, 3)], [zigzag(10, 2), zigzag(10, 2, 0, 20), zigzag(12, 2, 1, 1)],
    [[(0, 0), (6, 0), (6, 6), (2, 6), (2, -3), (8, -3), (8, 3), (-2, 3)]],
    [[(0, 0), (10, 0)]] + [[(i, 0), (i, i + 1)] for i in range(1, 10)],
    [[(0, 0), (10, 0)]] + [[(i, 0), (i + 5, 0)] for i in range(1, 9)],
    [[(0, 0), (4, 4)], [(4, 4), (8, 8)], [(8, 8), (0, 8)], [(0, 8), (4, 4)], [(2, 2), (6, 6)]],
    [[(0, 0), (10, 10)], [(0, 10), (10, 0)], [(5, 0), (5, 10)], [(0, 5), (10, 5)], [(2, 0), (8, 10)]],
    [[(5, 5), (5, 5)], [(0, 0), (10, 10)], [(5, 0), (5, 10)], [(7, 7), (7, 7), (7, 9)]],
    [[(0, 0), (0, 0), (1, 2), (1, 2), (1, 2), (3, 2), (3, 2), (0, 0), (0, 0), (5, 5), (5, 5)], [(0, 1), (4, 4), (4, 4), (9, 0)]],
    [[(i, 0), (i, 1)] for i in range(20)], [[(1e6, 1e6), (-1e6, -1e6)], [(1e6, -1e6), (-1e6, 1e6)], [(-3, 7.5), (0.125, -9)]],
]


def many(ctx):
    """drawings with many crossings"""
    ways = DRAWINGS[ctx.pick("drawing", len(DRAWINGS))]
    if ctx.flag("reversed"):
        ways = [w[::-1] for w in ways[::-1]]
    if ctx.flag("turned"):
        ways = [[(y, -x) for x, y in w] for w in ways]
    # exact in floating point
    f = [1, 2.0 ** -24, 2.0 ** 20][ctx.pick("scale", 3)]
    ways = [[(x * f, y * f) for x, y in w] for w in ways]
    dg = diagram(ctx, ways)
    segs = [(w[i], w[i + 1]) for w in ways for i in range(len(w) - 1)]
    want = sum(1 for i in range(len(segs)) for j in range(i) if exact(segs[i], segs[j]) and not shares(segs[i], segs[j]))
    m = metrics(ctx)
    ctx.eq(m.count_crossing_points(dg), want, "number of crossings")
    ctx.eq(m.count_segments(dg), len(segs), "number of segments")
    ctx.reach("many" if want > 10 else "few")


HARNESSES = [
    H("pair", pair, "two segments with arbitrary real coordinates (8 symbolic reals)", {}, {}, reach=["common", "crossing",
      "apart"], quick_s=120, thorough_s=900),
    H("several", several, "3 or 4 segments in 2 flows (thorough also 3 flows) on a grid of 4 (5) points", {"grid": 4,
      "shapes": 2}, {"grid": 5, "shapes": 3}, reach=["crossings0", "crossings1"]),
    H("many", many, "%d drawings of up to 34 segments and 60 crossings, turned, reversed, and scaled by 2^-24 and 2^20" % len(DRAWINGS), {},
      reach=["many", "few"]),
    H("segments", segments, "0..3 flows with 1..5 waypoints each, any coordinates", {"ways": 4}, {"ways": 6},
      reach=["flows0", "flows3"]),
]
ASSUMPTIONS = ["coordinates are decimal texts of real numbers and arithmetic on them is exact (counterexamples are replayed "
               "with integral coordinates, which floating point computes exactly)",
               "every flow has at least one waypoint"]
