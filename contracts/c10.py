"""C10: geometric predicates are exact and the super triangle encloses the image."""
from gvc.core import *
from gvc.lib import *

PK = MOD + 'triangulation/incrdelaunay.'
PT = PK + 'Point'
TRI = PK + 'Triangle'
MAXPX = 4096
LO, HI = -2 * MAXPX, 2 * MAXPX + MAXPX // 2      # the vertices of super triangles


def z(p, q, r):
    """twice the signed area of pqr"""
    return (p[0] - r[0]) * (q[1] - r[1]) - (q[0] - r[0]) * (p[1] - r[1])


def orient(a, b, c):
    """the exact orientation determinant |a 1; b 1; c 1|, expanded"""
    return a[0] * b[1] - a[1] * b[0] + b[0] * c[1] - b[1] * c[0] + c[0] * a[1] - c[1] * a[0]


def incirc(a, b, c, d):
    """the exact in-circle determinant |p.x p.y p.x^2+p.y^2 1|, rows a b c d (positive inside for orient > 0)"""
    m = [[p[0], p[1], p[0] * p[0] + p[1] * p[1], I(1)] for p in (a, b, c, d)]

    def det(rows, cols):
        if len(rows) == 1:
            return m[rows[0]][cols[0]]
        r = I(0)
        for k, c_ in enumerate(cols):
            t = m[rows[0]][c_] * det(rows[1:], cols[:k] + cols[k + 1:])
            r = r + t if k % 2 == 0 else r - t
        return r
    return det([0, 1, 2, 3], [0, 1, 2, 3])


def zero_poly(x):
    x = z3.simplify(x, som=True, som_blowup=100000)
    return isnum(x) and num(x) == 0


def same_sign(E, st, what, r, spec):
    """r has the sign of spec; when r is spec as a polynomial it is settled by expansion"""
    for f, n in ((r - spec, ''), ):
        if zero_poly(f):
            E.oblige(st, 'post', what, TRUE, 'polynomial identity')
            return
    E.oblige(st, 'post', what, And((r > 0) == (spec > 0), (r < 0) == (spec < 0)))


def signs(E, s, o):
    """the signs of the polynomial o that the path condition's comparisons of o (or -o) with constants allow"""
    t, O = z3.Solver(), z3.Int('o')
    for f in s.pc:
        neg = z3.is_not(f)
        c = f.arg(0) if neg else f
        if not (z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and z3.is_int(c.arg(0))):
            continue
        p = z3.simplify(c.arg(0) - c.arg(1), som=True, som_blowup=100000)
        for sg in (1, -1):
            k = z3.simplify(p - sg * o, som=True, som_blowup=100000)
            if isnum(k):
                g = z3.substitute(c, (c.arg(0), sg * O + k), (c.arg(1), I(0)))
                t.add(z3.Not(g) if neg else g)
                break
    r = []
    for sg, c in ((1, O > 0), (-1, O < 0)):
        if t.check(c) != z3.unsat:
            r.append(sg)
    return r


def points(E, st, names, lo=LO, hi=HI, tn='int64'):
    out = []
    for n in names:
        p = [E.sym(st, tn, n + c) for c in 'XY']
        for v in p:
            st.assume(And(v >= lo, v <= hi))
            E.ranges[v.get_id()] = (lo, hi)
            E.keep_alive.append(v)
        out.append(p)
    return out


def setup(E):
    E.overflow = True
    E.ranges = {}
    E.keep_alive = []
    return State()


def orientation(E):
    st = setup(E)
    a, b, c = points(E, st, 'abc')
    outs = E.run(PK + 'orientation', a + b + c, st)
    for s, r in outs:
        same_sign(E, s, 'sign of the exact determinant', r, orient(a, b, c))
    E.need(outs, 'orientation returns')


def in_circle(E):
    st = setup(E)
    a, b, c = points(E, st, 'abc')
    [d] = points(E, st, 'd', 0, MAXPX)
    o, D = orient(a, b, c), incirc(a, b, c, d)
    outs = E.run(PK + 'inCircle', a + b + c + d, st)
    for s, r in outs:
        for sg in signs(E, s, o):
            t = s.copy()
            t.assume(o > 0 if sg > 0 else o < 0)
            same_sign(E, t, 'sign of the exact determinant of a %s oriented triangle' % ('positively' if sg > 0 else 'negatively'), r, D if sg > 0 else -D)
    # the specification, and with it the answer, does not depend on the order of the vertices
    for n, p in (('b a c', (b, a, c)), ('a c b', (a, c, b))):
        ok = zero_poly(orient(*p) + o) and zero_poly(incirc(*p, d) + D)
        E.oblige(st, 'lemma', 'both determinants change sign when the vertices are listed as ' + n, TRUE if ok else FALSE)
    E.need(outs, 'inCircle returns')


def ptv(E, p):
    return ST(list(p), E.p.typ(PT))


def score(E):
    st = setup(E)
    a, b, c = points(E, st, 'abc', tn='int16')
    [d] = points(E, st, 'd', 0, MAXPX, 'int16')
    outs = E.run(PK + 'calculateScore', [ptv(E, p) for p in (a, b, c, d)], st)
    for s, r in outs:
        E.oblige(s, 'post', 'the score is a number', Not(r.nan))
    E.need(outs, 'calculateScore returns')


def dist(E):
    st = setup(E)
    a, b = points(E, st, 'ab', tn='int16')
    outs = E.run(method_fn(E, E.p.typ(PT), 'DistSq'), [ptv(E, a), ptv(E, b)], st)
    want = (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1])
    for s, r in outs:
        if zero_poly(r - want):
            E.oblige(s, 'post', 'squared distance', TRUE)
        else:
            E.oblige(s, 'post', 'squared distance', r == want)
    E.need(outs, 'DistSq returns')


def edge(E):
    st = State()
    a = [E.sym(st, 'int16', 'a' + c) for c in 'XY']
    b = [E.sym(st, 'int16', 'b' + c) for c in 'XY']
    eq = lambda p, q: And(p.vals[0] == q[0], p.vals[1] == q[1])
    outs = E.run(PK + 'NewEdge', [ptv(E, a), ptv(E, b)], st)
    et = E.p.t(E.p.funcs[PK + 'NewEdge']['results'])['e'][0]
    n = 0
    for s, r in outs:
        u, v = sub(E, s, r, et, 'A'), sub(E, s, r, et, 'B')
        E.oblige(s, 'post', 'an edge has the given ends', Or(And(eq(u, a), eq(v, b)), And(eq(u, b), eq(v, a))))
        for s2, r2 in E.run(PK + 'NewEdge', [ptv(E, b), ptv(E, a)], s):
            w, x = sub(E, s2, r2, et, 'A'), sub(E, s2, r2, et, 'B')
            E.oblige(s2, 'post', 'the edge is the same whichever end is named first', And(eq(w, u.vals), eq(x, v.vals)))
            n += 1
    E.need(outs, 'NewEdge returns')


def super_triangle(E):
    st = State()
    w, h = [E.sym(st, 'int', c) for c in 'wh']
    x, y = E.fresh('x'), E.fresh('y')
    st.assume(And(w >= 1, w <= MAXPX, h >= 1, h <= MAXPX, x >= 0, x <= w, y >= 0, y <= h))
    tt = E.p.typ(TRI)
    E.summaries[PK + 'calcCircumcircle'] = lambda E, st, a: [(st, E.sym(st, E.p.typ(PK + 'Circumcircle'), 'circle'))]
    outs = E.run(PK + 'NewSuperTriangle', [w, h], st)
    for s, r in outs:
        a, b, c = [sub(E, s, r, tt, n).vals for n in 'ABC']
        for n, (p, q) in (('AB', (a, b)), ('BC', (b, c)), ('CA', (c, a))):
            third = {'AB': c, 'BC': a, 'CA': b}[n]
            o, t = orient(p, q, [x, y]), orient(p, q, third)
            E.oblige(s, 'post', 'image points are strictly on the inner side of ' + n, Or(And(o > 0, t > 0), And(o < 0, t < 0)))
        for i, p in enumerate((a, b, c)):
            E.oblige(s, 'post', 'vertex %s is small enough for exact predicates' % 'ABC'[i], And(*[And(v >= LO, v <= HI) for v in p]))
        E.oblige(s, 'post', 'the first vertex is not the mark of a removed triangle', a[0] != -1)
    E.need(outs, 'NewSuperTriangle returns')


def closest(E):
    st = setup(E)
    tt, pt, dt = E.p.typ(TRI), E.p.typ(PT), E.p.typ(PK + 'Delaunay')
    [p] = points(E, st, 'p', 0, MAXPX, 'int16')
    d = E.sym(st, dt, 'd')
    V = z3.Function('vertex', IntS, IntS, BoolS)      # any property all vertices of live triangles have

    def hook(E, st, node, obj, idx, v):
        if node.stage == 0 and node.key[0] == TRI and node.key[2] == 'i':
            E.ranges[v.get_id()] = (LO, HI)
            E.keep_alive.append(v)
            return [And(v >= LO, v <= HI)]
        return []
    E.base_hooks.append(hook)
    [(path, _)] = [x for x in struct_slices(E, dt, TRI)][:1] or [(None, None)]
    tris = sub_path(d, path)
    k = E.fresh('k')
    st.assume(And(k >= 0, k < tris.len))

    def vertices(st, i):
        t = elem(E, st, tris, i, tt)
        return [sub(E, st, t, tt, n).vals for n in 'ABC']

    def loaded(E, st, q):
        """whatever element of the table is read: vertices of live triangles have the property"""
        if q.root == TRI:
            v = E.load(st, P(q.obj, q.idx, TRI, (), None, True), tt)
            vs = [sub(E, st, v, tt, n).vals for n in 'ABC']
            for w in vs:
                st.assume(Implies(vs[0][0] != -1, V(w[0], w[1])))
    E.load_facts.append(loaded)
    mine = vertices(st, k)
    live = mine[0][0] != -1
    st.assume(live)
    dist = lambda a, b: (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1])
    want = [dist(p, m) for m in mine]

    def templates(E, ctx):
        out = []
        pts = [n for n, v in ctx.live.items() if isinstance(v, ST) and v.tid == pt and n in ctx.phi_t]
        for n in ctx.ints():
            for d0 in (0, 1):
                for i, w in enumerate(want):
                    for m in ctx.ints():
                        if m != n:
                            out.append(('k<%s+%d: %s <= dist %s' % (n, d0, m, 'ABC'[i]), lambda v, n=n, d0=d0, w=w, m=m: Implies(k < v.vals[n] + d0, v.vals[m] <= w)))
        cells = [(ci, q) for ci, (q, tid) in enumerate(ctx.entry_st.cells) if tid == pt]
        get = [(n, lambda v, n=n: v.vals[n].vals) for n in pts] + [('cell%d' % ci, lambda v, q=q: E.load(v.st, P(q.obj, q.idx, q.root, q.path, None, True), pt).vals) for ci, q in cells]
        for n, g in get:
            for m in ctx.ints():
                out.append(('%s at distance %s' % (n, m), lambda v, g=g, m=m: Or(v.vals[m] == 2 ** 63 - 1, v.vals[m] == dist(p, g(v)))))
                out.append(('%s a vertex or %s maximal' % (n, m), lambda v, g=g, m=m: Or(v.vals[m] == 2 ** 63 - 1, V(*g(v)))))
        for m in ctx.ints():
            out.append(('%s at most maximal' % m, lambda v, m=m: v.vals[m] <= 2 ** 63 - 1))
        return out
    E.templates.append(templates)
    outs = E.run(method_fn(E, dt, 'GetClosestTo'), [d, ptv(E, p)], st)
    for s, r in outs:
        for i, w in enumerate(want):
            E.oblige(s, 'post', 'no vertex %s of a live triangle is closer' % 'ABC'[i], dist(p, r.vals) <= w)
        E.oblige(s, 'post', 'the point is a vertex of a live triangle', V(*r.vals))
    E.need(outs, 'GetClosestTo returns')


UNITS = [('incrdelaunay.orientation', orientation), ('incrdelaunay.inCircle', in_circle), ('incrdelaunay.calculateScore', score), ('incrdelaunay.Point.DistSq', dist),
         ('incrdelaunay.NewEdge', edge), ('incrdelaunay.NewSuperTriangle', super_triangle), ('incrdelaunay.Delaunay.GetClosestTo', closest)]
ASSUMPTIONS = ['images of up to 4096 pixels a side; predicate arguments are points of the image or vertices of its super triangle']
HARNESS = [dict(name='incrdelaunay', pkg='triangulation/incrdelaunay', package='incrdelaunay', files=['c10.go.txt'], run='TestVerifC10')]
LEVEL_NOTE = ('The results of the predicates are proved equal to the exact determinants as polynomials, every int64 operation in them free of overflow by interval arithmetic; '
              'the super triangle and the nearest-point query are proved for every size and every table of triangles. Trusts gvc, the SSA front end and z3/cvc5.')
