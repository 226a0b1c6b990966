"""C19: Triangulate and Polygonate use exactly the scaled, rounded input points."""
from gvc.core import *
from gvc.lib import *
from gvc.externs import m_round

NP = MOD + 'normgeom.NormPoint'
GP = MOD + 'geom.Point'
GT = MOD + 'geom.Triangle'
GPOLY = MOD + 'geom.Polygon'
DP = 'github.com/fogleman/delaunay.Point'
INC = MOD + 'triangulation/incrdelaunay.'


def unit_group(E, st):
    """a point group with coordinates in [0,1] and an image of up to 2^20 pixels a side"""
    pts = E.sym(st, MOD + 'normgeom.NormPointGroup', 'points')
    wh = [E.sym(st, 'int', c) for c in 'wh']
    for x in wh:
        st.assume(And(x >= 1, x <= 2 ** 20))

    def inrange(E, st, node, obj, idx, v):
        if node.key[0] == NP and node.key[2] in 'vn' and node.stage == 0:
            return [Implies(And(obj == pts.obj, idx >= pts.off, idx < pts.off + pts.len), And(v >= 0, v <= 1) if node.key[2] == 'v' else Not(v))]
    E.base_hooks.append(inrange)
    return pts, wh


def scaled(E, st, pts, k, wh):
    """the coordinates of point k scaled by width and height and rounded to the nearest integer"""
    p = elem(E, st, pts, k, E.p.typ(NP))
    out = []
    for c, n in zip(p.vals, wh):
        x = F(c.v, FALSE, 1)
        out.append(m_round(E, st, [E.fmul(st, x, E.i2f(st, n, 'int'), False)], None))
    return out


def triangulate(E):
    st = State()
    pts, wh = unit_group(E, st)
    k, i0 = E.fresh('k'), E.fresh('i0')
    st.assume(And(k >= 0, k < pts.len, i0 >= 0))
    want = scaled(E, st, pts, k, wh)
    dpt = E.p.typ(DP)
    tid = [t for t in range(len(E.p.types)) if E.p.ts(t) == 'github.com/fogleman/delaunay.Triangulation'][0]
    calls, res = [], {}

    def external(E, st, a, ins):
        g = a[0]
        calls.append(1)
        E.oblige(st, 'post', 'exactly the given points are triangulated', g.len == pts.len)
        e = elem(E, st, g, k, dpt)
        for c, v, x in zip('XY', e.vals, want):
            E.oblige(st, 'post', 'point %s is scaled and rounded' % c, And(Not(v.nan), v.v == x.v))
        p = E.new(st, tid)
        ts = E.sym(st, '[]int', 'triangles')
        st.assume(ts.len % 3 == 0)
        E.store(st, P(p.obj, p.idx, p.root, (E.p.field(tid, 'Triangles'),), None, True), ts, E.p.typ('[]int'))
        res.update(ts=ts, g=g, st=st.copy())
        return Tup([p, IF(E.fresh('errtag'), E.fresh('err'), I(0))])

    E.externs['github.com/fogleman/delaunay.Triangulate'] = external

    def facts(E, st, q):      # indices of the triangulation are indices of the points
        if 'ts' in res and q.root == 'int':
            v = E.rd(st, E.node(st, ('int', (), 'i')), q.obj, q.idx)
            ts = res['ts']
            st.assume(Implies(And(q.obj == ts.obj, q.idx >= ts.off, q.idx < ts.off + ts.len), And(v >= 0, v < pts.len)))
    E.load_facts.append(facts)

    def templates(E, ctx):
        out = []
        for sn, g in slices_of(ctx, DP):
            if 'ts' in res:
                continue

            def ok(v, g=g):
                e = elem(E, v.st, g(v), k, dpt)
                return Implies(k < g(v).len, And(*[And(Not(a.nan), a.v == b.v) for a, b in zip(e.vals, want)]))
            for n in ctx.ints():
                for d in (0, 1):
                    out.append(('%s point<%s+%d' % (sn, n, d), lambda v, n=n, d=d, ok=ok: Or(k >= v.vals[n] + d, ok(v))))
        for sn, g in slices_of(ctx, GT):
            if 'ts' not in res:
                continue
            for n in ctx.ints():
                for d in (0, 1):
                    for j in range(3):
                        out.append(('%s triangle<%s+%d vertex %d' % (sn, n, d, j), lambda v, n=n, d=d, g=g, j=j: Or(i0 >= v.vals[n] + d, i0 >= g(v).len, vertex(v.st, g(v), j))))
        return out

    def vertex(st, tris, j):
        t = elem(E, st, tris, i0, E.p.typ(GT))
        a = elem(E, res['st'].shadow(st), res['ts'], z3.simplify(3 * i0 + j), E.p.typ('int'))
        st.assume(Implies(And(i0 >= 0, 3 * i0 + 2 < res['ts'].len), And(a >= 0, a < pts.len)))
        p = elem(E, res['st'].shadow(st), res['g'], a, dpt)
        got = t.vals[0].vals[j].vals
        return And(*[z3.ToReal(x) == c.v for x, c in zip(got, p.vals)])

    E.templates.append(templates)
    # the rounded coordinates of every point are integers within the image
    def whole(E, st, q):
        if q.root == DP and 'ts' in res:
            a, g = q.idx - res['g'].off, res['g']
            v = E.load(res['st'].shadow(st), P(q.obj, q.idx, DP, (), None, True), dpt)
            inside = And(q.obj == g.obj, a >= 0, a < g.len)
            for c, n in zip(v.vals, wh):
                st.assume(Implies(inside, And(Not(c.nan), c.v >= 0, c.v <= z3.ToReal(n), z3.ToReal(z3.ToInt(c.v)) == c.v)))
    E.load_facts.append(whole)
    # ... which is the lemma (obligation 'whole' below) for the arbitrary point k
    for c, x, n in zip('XY', want, wh):
        E.oblige(st, 'lemma', 'the rounded %s is an integer within the image' % c, And(Not(x.nan), x.v >= 0, x.v <= z3.ToReal(n), z3.ToReal(z3.ToInt(x.v)) == x.v))
    outs = E.run(MOD + 'triangulation.Triangulate', [pts] + wh, st)
    for s, r in outs:
        if not calls:
            E.oblige(s, 'post', 'the points are triangulated', FALSE)
            continue
        E.oblige(s, 'post', 'one triangle for each three indices', 3 * r.len == res['ts'].len)
        s2 = s.copy()
        s2.assume(And(i0 >= 0, i0 < r.len))
        for j in range(3):
            E.oblige(s2, 'post', 'vertex %d of a triangle is the point with the index' % j, vertex(s2, r, j))
    E.need(outs, 'Triangulate returns')


def area(E):
    st = State()
    E.prove_fin = True
    poly = E.sym(st, '[]' + DP, 'polygon')
    st.assume(poly.len <= 1024)
    B = 2 ** 20
    isint = z3.Function('whole', RealS, BoolS)       # x is an integer

    def inrange(E, st, node, obj, idx, v):
        if node.key[0] == DP and node.key[2] in 'vn' and node.stage == 0:
            return [Implies(And(obj == poly.obj, idx >= poly.off, idx < poly.off + poly.len), And(v >= -B, v <= B, isint(v), isint(-v)) if node.key[2] == 'v' else Not(v))]
    E.base_hooks.append(inrange)

    M = z3.Function('product', RealS, RealS, RealS)      # multiplication, of which only its bounds matter

    def exact(E, st, op, f32, r, ex, args, fin):
        """IEEE: the exact result is returned when it is an integer of at most 2^53"""
        a, b = args
        if op == 'fadd':
            st.assume(Implies(And(isint(a), isint(b), a + b <= 2 ** 53, a + b >= -2 ** 53), And(r == a + b, isint(a + b))))
        elif op == 'fmul':
            st.assume(Implies(And(isint(a), isint(b), a <= 2 ** 21, a >= -2 ** 21, b <= 2 ** 21, b >= -2 ** 21), And(r == M(a, b), M(a, b) == M(b, a), isint(r), r <= 2 ** 42, r >= -2 ** 42)))
        elif op == 'fdiv' and isnum(b) and num(b) == 2:
            st.assume(Implies(isint(a), r == a / 2))
        st.assume(isint(z3.RealVal(0)))
    E.round_hook = exact
    X = lambda st, i: [c.v for c in elem(E, st, poly, i, E.p.typ(DP)).vals]
    T = z3.Function('S', IntS, RealS)        # twice the signed area of the first k terms of the shoelace formula

    def define(st, k):
        (a, b), (c, d) = X(st, k), X(st, z3.simplify(If(k == 0, poly.len - 1, k - 1)))
        st.assume(T(I(0)) == 0)
        st.assume(Implies(And(k >= 0, k < poly.len), And(T(k + 1) == T(k) + M(c + a, d - b))))

    def templates(E, ctx):
        out = []
        for f in ctx.floats():
            for n in ctx.ints():
                for d in (0, 1):
                    out.append(('%s = S(%s+%d)' % (f, n, d), lambda v, f=f, n=n, d=d: define(v.st, v.vals[n] + d) or And(Not(v.vals[f].nan), v.vals[f].v == T(v.vals[n] + d))))
                    out.append(('|%s| <= 2^43 (%s+%d)' % (f, n, d), lambda v, f=f, n=n, d=d: And(v.vals[f].v <= 2 ** 42 * z3.ToReal(v.vals[n] + d), v.vals[f].v >= -2 ** 42 * z3.ToReal(v.vals[n] + d))))
            out.append(('%s whole' % f, lambda v, f=f: isint(v.vals[f].v)))
        for n in ctx.ints():
            for m in ctx.ints():
                if n != m:
                    out.append(('%s before %s' % (n, m), lambda v, n=n, m=m: v.vals[n] == If(v.vals[m] == 0, poly.len - 1, v.vals[m] - 1)))
                    out.append(('%s before %s+1' % (n, m), lambda v, n=n, m=m: v.vals[n] == If(v.vals[m] + 1 == 0, poly.len - 1, v.vals[m])))
        return out
    E.templates.append(templates)
    define(st, I(0))
    st.assume(isint(z3.RealVal(0)))
    outs = E.run(MOD + 'triangulation.Area', [poly], st)
    for s, r in outs:
        t = T(poly.len)
        s.assume(T(I(0)) == 0)
        E.oblige(s, 'lemma', 'the sum is a whole number', isint(t))
        s.assume(isint(t))
        tw = E.fresh('twice')
        for neg in (0, 1):
            s2 = s.copy()
            s2.assume(t <= 0 if neg else t >= 0)
            h = (-t if neg else t) / 2
            d = ' (%s)' % ('clockwise' if neg else 'anticlockwise')
            # in the arbitrary-precision reals: for whole t the rounded half differs from |t|/2 by 0 or 1/2
            E.oblige(s2, 'post', 'the area is half the sum, rounded' + d, r == z3.ToInt(h + R('1/2')))
        s3 = State()
        s3.assume(And(z3.ToReal(tw) == t, t >= 0))
        E.oblige(s3, 'lemma', 'rounding half of a whole number up is nearest', And(2 * z3.ToInt(t / 2 + R('1/2')) - tw <= 1, 2 * z3.ToInt(t / 2 + R('1/2')) - tw >= 0))
    E.need(outs, 'Area returns')


def polygonate(E):
    E.optimistic = True
    st = State()
    pts, wh = unit_group(E, st)
    for n in wh:
        st.assume(n <= 32767)
    FPT, GPT = E.p.typ(INC + 'FloatPoint'), E.p.typ(GP)
    k, i0, j = E.fresh('k'), E.fresh('i0'), E.fresh('j')
    st.assume(And(k >= 0, k < pts.len, i0 >= 0, j >= 0))
    want = scaled(E, st, pts, k, wh)
    src = E.sym(st, '[]' + INC + 'FloatPoint', 'delivered')
    other = E.sym(st, '[]' + INC + 'FloatPoint', 'otherpolygon')
    st.assume(And(src.len >= 0, j < src.len))

    def inrange(E, st, node, obj, idx, v):     # polygons have finite vertices
        if node.key[0] == INC + 'FloatPoint' and node.key[2] in 'vn' and node.stage == 0:
            return [And(v >= -2 ** 40, v <= 2 ** 40) if node.key[2] == 'v' else Not(v)]
    E.base_hooks.append(inrange)
    dtid = E.p.typ(INC + 'Delaunay')
    made = {}
    st.ghost.update(new=I(0), ins=I(0), vor=I(0), np=I(0))

    def new(E, s, args):
        for a, b, c in zip(args, wh, ('width', 'height')):
            E.oblige(s, 'post', 'the triangulation is made for the ' + c, a == b)
        p = E.new(s, dtid)
        made['d'] = p
        s.ghost['new'] = s.ghost['new'] + 1
        return [(s, p)]

    def insert(E, s, args):
        d, p = args
        E.oblige(s, 'post', 'points are inserted in the new triangulation', And(d.obj == made['d'].obj, d.idx == made['d'].idx, s.ghost['vor'] == 0))
        for c, v, x in zip('XY', p.vals, want):
            E.oblige(s, 'post', 'the %s of inserted point k is scaled and rounded' % c, Implies(s.ghost['ins'] == k, z3.ToReal(v) == x.v))
        s.ghost['ins'] = s.ghost['ins'] + 1
        return [(s, None)]

    rx = lambda st, sl, i: [z3.ToInt(0 + m_round(E, st, [F(c.v, FALSE, 2 ** 40)], None).v) for c in elem(E, st, sl, i, FPT).vals]
    cnt = z3.Function('cnt', IntS, IntS)         # how many of the first vertices are kept

    def define(st, n):
        st.assume(cnt(I(0)) == 0)
        a, b = rx(st, src, n), rx(st, src, z3.simplify(n - 1))
        st.assume(Implies(And(n >= 0, n < src.len), cnt(n + 1) == cnt(n) + If(Or(n == 0, a[0] != b[0], a[1] != b[1]), I(1), I(0))))

    def is_round(st, out, m, i):
        e = elem(E, st, out, m, GPT)
        return And(*[a == b for a, b in zip(e.vals, rx(st, src, i))])

    def good(st, out):
        return And(out.len == cnt(src.len), cnt(j + 1) >= 1, cnt(j + 1) <= out.len, is_round(st, out, cnt(j + 1) - 1, j))

    def voronoi(E, s, args):
        d, f, w, h = args
        E.oblige(s, 'post', 'the Voronoi diagram is that of all the points', And(d.obj == made['d'].obj, d.idx == made['d'].idx, s.ghost['new'] == 1, s.ghost['ins'] == pts.len) if 'd' in made else FALSE)
        for a, b, c in zip((w, h), wh, ('width', 'height')):
            E.oblige(s, 'post', 'the diagram is clipped to the ' + c, a == b)
        s.ghost['vor'] = s.ghost['vor'] + 1

        def body(E, s):
            out = []
            for hit in (True, False):
                s1 = s.copy()
                s1.assume((s.ghost['np'] == i0) == z3.BoolVal(hit))
                s1.trail += (('polygon i0' if hit else 'another polygon', 0),)
                for s2, r in E.call_value(None, s1, f, [src if hit else other], {}):
                    s2.ghost['np'] = s.ghost['np'] + 1
                    out.append(s2)
            return out
        return [(x, None) for x in E.abstract_loop(s, 'Voronoi polygons', body)]

    E.summaries[INC + 'NewDelaunay'] = new
    E.summaries['(*%sDelaunay).Insert' % INC] = insert
    E.summaries[INC + 'Voronoi'] = voronoi

    def templates(E, ctx):
        out = []
        for n in ctx.ints():
            for d in (0, 1):
                out.append(('inserted %s+%d' % (n, d), lambda v, n=n, d=d: v.ghost('ins') == v.vals[n] + d))
        out.append(('np >= 0', lambda v: v.ghost('np') >= 0))
        for sn, g in slices_of(ctx, GPOLY):
            out.append(('%s np polygons' % sn, lambda v, g=g: g(v).len == v.ghost('np')))
            out.append(('%s polygon i0' % sn, lambda v, g=g: Or(i0 >= v.ghost('np'), good(v.st, elem(E, v.st, g(v), i0, E.p.typ(GPOLY)).vals[0]))))
            out.append(('%s polygon i0 old' % sn, lambda v, g=g: Or(i0 >= v.ghost('np'), elem(E, v.st, g(v), i0, E.p.typ(GPOLY)).vals[0].obj < v.st.nxt)))
            out.append(('%s polygon i0 older' % sn, lambda v, g=g: Or(i0 >= v.ghost('np'), elem(E, v.st, g(v), i0, E.p.typ(GPOLY)).vals[0].obj < v.entry.st.nxt)))
        for sn, g in slices_of(ctx, GP):
            for n in ctx.ints():
                for d in (0, 1):
                    m = lambda v, n=n, d=d: v.vals[n] + d
                    out.append(('%s cnt(%s+%d)' % (sn, n, d), lambda v, g=g, m=m: define(v.st, m(v)) or g(v).len == cnt(m(v))))
                    out.append(('%s has j if < %s+%d' % (sn, n, d), lambda v, g=g, m=m: Or(j >= m(v), And(cnt(j + 1) >= 1, cnt(j + 1) <= g(v).len, is_round(v.st, g(v), cnt(j + 1) - 1, j)))))
                    out.append(('%s last %s+%d' % (sn, n, d), lambda v, g=g, m=m: Or(m(v) <= 0, And(g(v).len >= 1, is_round(v.st, g(v), z3.simplify(g(v).len - 1), z3.simplify(m(v) - 1))))))
        return out
    E.templates.append(templates)
    st.assume(cnt(I(0)) == 0)
    define(st, j)
    outs = E.run(MOD + 'polygonation.Polygonate', [pts] + wh, st)
    for s, r in outs:
        E.oblige(s, 'post', 'the Voronoi diagram is built once', s.ghost['vor'] == 1)
        E.oblige(s, 'post', 'one polygon for each Voronoi polygon', r.len == s.ghost['np'])
        s2 = s.copy()
        s2.assume(i0 < r.len)
        out = elem(E, s2, r, i0, E.p.typ(GPOLY)).vals[0]
        E.oblige(s2, 'post', 'as many vertices as without consecutive repeats', out.len == cnt(src.len))
        E.oblige(s2, 'post', 'the vertices are the rounded vertices in order', And(cnt(j + 1) >= 1, cnt(j + 1) <= out.len, is_round(s2, out, cnt(j + 1) - 1, j)))
    E.need(outs, 'Polygonate returns')


UNITS = [('triangulation.Triangulate', triangulate), ('triangulation.Area', area), ('polygonation.Polygonate', polygonate)]
HARNESS = [dict(name='triangulator', pkg='triangulation', package='triangulation_test', files=['c19a.go.txt'], run='TestVerifC19'),
           dict(name='polygonator', pkg='polygonation', package='polygonation_test', files=['c19b.go.txt'], run='TestVerifC19')]
ASSUMPTIONS = ['coordinates in [0,1]; images of at most 2^20 (Triangulate) and 32767 (Polygonate) pixels a side',
               'Area: polygons with at most 1024 integer vertices of at most 2^20 in size',
               'delaunay.Triangulate (fogleman/delaunay, external) returns indices of the points it is given, three for each triangle',
               'incrdelaunay.NewDelaunay, Insert and Voronoi are replaced by their contracts: Insert adds its point, Voronoi calls back with any number of polygons with finite vertices of at most 2^40 (what they deliver is the subject of C11 and C12)']
LEVEL_NOTE = ('Every obligation of Triangulate, Area and Polygonate is discharged for all point groups (an arbitrary point, triangle, polygon and vertex), with the shoelace sum and the number of vertices kept defined by recursion. '
              'Trusts the verifier gvc, the SSA front end, z3/cvc5, sound facts about IEEE rounding, and the contracts of the two Delaunay libraries at the call sites. A bounded run of the real code looks for failing inputs.')
