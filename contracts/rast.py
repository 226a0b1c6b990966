"""what a triangle covers: the specification shared by C06 and C07.

For a triangle with vertices A, B, C sorted by y (yA <= yB <= yC, ties in either order), row y covers the
columns L(y) <= x < R(y), where every edge value is the truncation of fl(fl(m*(y-y0))+x0), m = fl(dx/dy):
  yA <= y < yB:  both edges start at A, with the smaller and the larger of the slopes of AC and AB
  yB <= y < yC, yA < yB:  AC from A and BC from B; BC is on the left iff slope AC > slope AB
  yB <= y < yC, yA = yB:  the edges from the smaller and the larger of xA, xB to C
No other row is covered."""
import itertools
from gvc.core import *
from gvc.lib import *

TRI = MOD + 'geom.Triangle'
GP = MOD + 'geom.Point'
R_ = MOD + 'rasterize.'
MAXC = 2 ** 15
FAR = 2 ** 40
PERMS = list(itertools.permutations(range(3)))
# (name, the orders of the vertices to look at, relation of yA yB, of yB yC)
PATTERNS = [('three rows', PERMS, '<', '<'), ('flat top', [(0, 1, 2), (0, 2, 1), (1, 2, 0)], '=', '<'),
            ('flat bottom', [(0, 1, 2), (1, 0, 2), (2, 0, 1)], '<', '='), ('one row', [(0, 1, 2)], '=', '=')]
CASES = [('%s, vertices %s' % (n, o), n, o, r) for n, os, *r in PATTERNS for o in os]


class Shape:
    """the vertices A, B, C of a symbolic triangle and what it covers"""

    def __init__(s, E, st, order, rel, points=None):
        s.E, s.same, s.keep = E, {}, []
        new = points is None
        if new:
            points = []
            for i in range(3):
                points.append([E.sym(st, 'int', c + str(i)) for c in 'xy'])
        for p in points:
            for v in p:
                st.assume(And(v >= 0, v <= MAXC))
        s.points = points
        s.A, s.B, s.C = [points[i] for i in order]
        s.rel = rel
        for i, j, r in ((0, 1, rel[0]), (1, 2, rel[1])) if new else ():
            if r == '=':
                points[order[j]][1] = points[order[i]][1]
        for a, b, r in ((s.A, s.B, rel[0]), (s.B, s.C, rel[1])):
            st.assume(a[1] < b[1] if r == '<' else a[1] == b[1])

    def value(s, points=None):
        E = s.E
        return ST([Arr_([ST(list(p), E.p.typ(GP)) for p in points or s.points], E)], E.p.typ(TRI))

    def slope(s, st, p, q):
        """fl((q.x-p.x)/(q.y-p.y)); the same whichever end comes first"""
        E = s.E
        d = [[E.i2f(st, z3.simplify(a[i] - b[i]), 'int') for i in (0, 1)] for a, b in ((q, p), (p, q))]
        m, w = [E.fbin('/', x, y, st, 'float64') for x, y in d]
        st.assume(m.v == w.v)       # rounding is symmetric
        s.same[w.v.get_id()] = m.v
        s.keep += [m.v, w.v]
        if p[0] is not q[0]:        # the sign of a slope (dy is positive)
            st.assume(And(Implies(q[0] >= p[0], m.v >= 0), Implies(q[0] <= p[0], m.v <= 0)))
        return m

    def edge(s, st, m, p, q, y, box=False):
        """the column where the edge pq with slope m starting at p is in row y"""
        E = s.E
        k = E.i2f(st, z3.simplify(y - p[1]), 'int')
        v = E.fbin('+', E.fbin('*', m, k, st, 'float64'), E.i2f(st, p[0], 'int'), st, 'float64')
        if box:                     # the lemma of C07
            st.assume(Implies(And(p[1] <= y, y < q[1]), And(Implies(p[0] <= q[0], And(v.v >= z3.ToReal(p[0]), v.v <= z3.ToReal(q[0]))),
                                                            Implies(p[0] >= q[0], And(v.v <= z3.ToReal(p[0]), v.v >= z3.ToReal(q[0]))))))
        return E.trunc(v.v)

    def wide(s, x0, x1):
        """min x <= x0 and x1 <= max x"""
        return And(Or(*[x0 >= p[0] for p in s.points]), Or(*[x1 <= p[0] for p in s.points]))

    def rows(s):
        return s.A[1], s.C[1]

    def span(s, st, y, box=False):
        """(L, R) of row y (arbitrary outside the rows of the triangle)"""
        A, B, C = s.A, s.B, s.C
        res = []
        if s.rel == ['=', '=']:
            return I(0), I(0)
        if s.rel == ['=', '<']:
            m = [s.slope(st, p, C) for p in (A, B)]
            # same divisor: quotients of different integers this small differ by more than the rounding
            st.assume(And(Implies(A[0] < B[0], m[0].v > m[1].v), Implies(A[0] > B[0], m[0].v < m[1].v), Implies(A[0] == B[0], m[0].v == m[1].v)))
            e = [s.edge(st, a, p, C, y, box) for a, p in zip(m, (A, B))]
            c = A[0] <= B[0]
            return If(c, e[0], e[1]), If(c, e[1], e[0])
        mc, mb = s.slope(st, A, C), s.slope(st, A, B)
        ec, eb = s.edge(st, mc, A, C, y, box), s.edge(st, mb, A, B, y, box)
        if s.rel == ['<', '=']:
            st.assume(And(Implies(C[0] > B[0], mc.v > mb.v), Implies(C[0] < B[0], mc.v < mb.v), Implies(C[0] == B[0], mc.v == mb.v)))
        sw = mc.v > mb.v
        up = If(sw, eb, ec), If(sw, ec, eb)
        if s.rel == ['<', '=']:
            return up
        es = s.edge(st, s.slope(st, B, C), B, C, y, box)
        lo = If(sw, es, ec), If(sw, ec, es)
        return tuple(If(y < B[1], a, b) for a, b in zip(up, lo))


def Arr_(vals, E):
    tid = [t for t in range(len(E.p.types)) if E.p.ts(t) == '[3]' + GP]
    return ST(vals, tid[0])


def row_templates(py, bases=()):
    """the ghost n counts what happened in row py: once for every row passed"""
    def templates(E, ctx):
        out = []
        for i in ctx.ints():
            def passed(v, i=i):
                e, x = v.entry.vals[i], v.vals[i]
                return v.ghost('n') == v.entry.ghost('n') + If(Or(And(e <= py, py < x), And(x < py, py <= e)), I(1), I(0))
            out.append(('rows passed %s' % i, passed))
            out.append(('rows passed %s+1' % i, lambda v, i=i: v.ghost('n') == v.entry.ghost('n') + If(And(v.entry.vals[i] < py, py <= v.vals[i]), I(1), I(0))))
        return out
    return templates


def lines(E, case, box=False):
    """DDATriangleLines calls back exactly once for every row, with the span of that row"""
    nm, pat, order, rel = case
    E.prove_fin = E.light = E.lean = True
    st = State()
    ed = Edges(E)
    sh = Shape(E, st, order, rel)
    py = E.fresh('py')
    st.assume(And(py >= -FAR, py <= FAR))
    st.ghost['n'] = I(0)
    ed.ghost = True
    L, R = sh.span(st, py, box)
    ed.ghost = False
    lo, hi = sh.rows()

    def line(E, s, a):
        x0, x1, y = a
        if box:
            E.oblige(s, 'post', 'a line stays between the leftmost and the rightmost vertex', Implies(And(y == py, x0 < x1), sh.wide(x0, x1)))
            E.oblige(s, 'post', 'a line lies in a row of the triangle', Implies(y == py, And(y >= lo, y < hi)))
        else:
            E.oblige(s, 'post', 'a line starts at the left edge', Implies(y == py, x0 == L))
            E.oblige(s, 'post', 'a line ends at the right edge', Implies(y == py, x1 == R))
        E.oblige(s, 'post', 'rows are near the triangle', And(y >= -FAR, y <= FAR))
        s.ghost['n'] = s.ghost['n'] + If(y == py, I(1), I(0))
        return [(s, None)]
    E.templates.append(row_templates(py))
    outs = E.run(R_ + 'DDATriangleLines', [sh.value(), Fn(handler=line)], st)
    for s, _ in outs:
        E.oblige(s, 'post', 'every row of the triangle is visited once and no other', s.ghost['n'] == If(And(lo <= py, py < hi), I(1), I(0)))
    E.need(outs, 'DDATriangleLines returns')


def span_in_box(E, case):
    """what the specification of C06 covers lies in the bounding box"""
    nm, pat, order, rel = case
    E.prove_fin = E.light = E.lean = True
    st = State()
    ed = Edges(E)
    ed.ghost = True
    sh = Shape(E, st, order, rel)
    px, py = E.fresh('px'), E.fresh('py')
    lo, hi = sh.rows()
    st.assume(And(lo <= py, py < hi))
    L, R = sh.span(st, py, True)
    st.assume(And(L <= px, px < R))
    E.oblige(st, 'post', 'the pixels of a triangle lie in its bounding box', And(sh.wide(px, px + 1), Or(*[py >= p[1] for p in sh.points]), Or(*[py < p[1] for p in sh.points])))
    if rel != ['=', '=']:
        E.need([(st, None)], 'the span of a row')
    else:
        E.need([(State(), None)], 'the span of a row')


def lemma(E):
    """the lemma used for the bounding box: a point fl(fl(m*k)+x), m = fl(D/n), 0 <= k < n, of an edge from x
    to x+D lies between its ends. Rounding is monotone and exact on the integers involved, so that
    fl(m*k) <= D needs only m*k <= D; and it is symmetric, so D >= 0 is no restriction"""
    st = State()
    D, n, k = (E.fresh(c) for c in 'Dnk')
    m, mk, p, e = (E.fresh(c, RealS) for c in ('m', 'mk', 'p', 'e'))
    x = E.fresh('x')
    r = z3.ToReal
    st.assume(And(0 <= D, D <= MAXC, 0 < n, n <= MAXC, 0 <= k, k < n, 0 <= x, x <= MAXC))
    u = rv(Fraction(1, 2 ** 53))
    st.assume(And(m >= 0, m * r(n) <= r(D) * (1 + u)))      # m = fl(D/n): relative error at most 2^-53, the sign of D
    st.assume(mk == m * r(k))
    st.assume(And(m * (r(n) - 1 - r(k)) >= 0, m * (rv(MAXC) - r(n)) >= 0))      # products of two numbers >= 0
    E.oblige(st, 'lemma', 'the exact product is at most the width', mk <= r(D))
    E.oblige(st, 'lemma', 'the exact product is not negative', mk >= 0)
    st.assume(And(Implies(mk <= r(D), p <= r(D)), Implies(mk >= 0, p >= 0)))    # p = fl(mk)
    for c, b in ((x, TRUE), (x + D, TRUE)):                                     # e = fl(p+x)
        st.assume(And(Implies(p + r(x) <= r(c), e <= r(c)), Implies(p + r(x) >= r(c), e >= r(c))))
    E.oblige(st, 'lemma', 'the point lies between the ends', And(e >= r(x), e <= r(x + D)))
    E.need([(st, None)], 'the lemma')


def linear(t):
    """a canonical form of a linear term: equal for equal terms"""
    out = {}

    def walk(t, c):
        if isnum(t):
            out[1] = out.get(1, 0) + c * int(num(t))
        elif z3.is_add(t):
            for a in t.children():
                walk(a, c)
        elif z3.is_sub(t):
            walk(t.arg(0), c)
            for a in t.children()[1:]:
                walk(a, -c)
        elif z3.is_app_of(t, z3.Z3_OP_UMINUS):
            walk(t.arg(0), -c)
        elif z3.is_mul(t) and t.num_args() == 2 and isnum(t.arg(0)):
            walk(t.arg(1), c * int(num(t.arg(0))))
        else:
            out[t.get_id()] = out.get(t.get_id(), 0) + c
    walk(t, 1)
    return frozenset((k, v) for k, v in out.items() if v)


def minus(k):
    return frozenset((a, -c) for a, c in k)


class Edges:
    """names for the rounded values the rasteriser computes: slopes m = fl(dx/dy), points e = fl(fl(m*k)+x)
    of edges and their truncations, with the facts about rounding that matter. Points are ordered like the
    exact ones for the same edge in two rows, of which one is the ghost row (created while s.ghost), and for
    two edges from the same x in the same row."""

    def __init__(s, E):
        s.E, s.slopes, s.prods, s.points, s.names, s.tr, s.ghost = E, {}, {}, [], {}, {}, False
        s.fbin0, s.f2i0, s.trunc0 = E.fbin, E.f2i, E.trunc
        E.fbin, E.f2i, E.trunc = s.fbin, s.f2i, s.trunc

    def name(s, key, hint, sort, terms):
        n = s.names.get(key)
        if n is None:
            n = s.E.fresh(hint, sort)
            s.E.sym_stage[n.decl().name()] = max(s.E.max_stage(t) for t in terms)
            s.names[key] = n, terms
            return n
        return n[0]

    def int_(s, x):
        return z3.simplify(x.i) if x.i is not None and is_false(x.nan) else None

    def fbin(s, o, x, y, st, tn):
        xi, yi = s.int_(x), s.int_(y)
        if tn == 'float64' and o == '/' and xi is not None and yi is not None and not isnum(yi):
            lx, ly = linear(xi), linear(yi)
            for k in ((lx, ly), (minus(lx), minus(ly))):
                r = s.slopes.get(k)
                if r is not None:
                    m, facts = r[:2]
                    break
            else:
                if s.E.proves(st, yi > 0):
                    pos = True
                elif s.E.proves(st, yi < 0):
                    pos = False
                else:
                    return s.fbin0(o, x, y, st, tn)
                m = s.name(('/', lx, ly), 'slope', RealS, (xi, yi))
                c = xi if pos else -xi
                facts = [Implies(c >= 0, m >= 0), Implies(c <= 0, m <= 0)]
                s.slopes[lx, ly] = m, facts, xi, yi
            if not (x.mag <= 2 ** 20 and s.E.proves(st, yi != 0)):
                return s.fbin0(o, x, y, st, tn)
            for f in facts:
                st.assume(f)
            return F(m, FALSE, x.mag * 2)
        if tn == 'float64' and o == '*':
            for u, k in ((x, y), (y, x)):
                ki = s.int_(k)
                if any(u.v.eq(r[0]) for r in s.slopes.values()) and ki is not None and u.mag and k.mag <= 2 ** 60:
                    p = s.name(('*', u.v.get_id(), linear(ki)), 'rise', RealS, (u.v, ki))
                    s.prods[p.get_id()] = u.v, ki, p
                    return F(p, FALSE, u.mag * k.mag * 2)
        if tn == 'float64' and o == '+':
            for u, b in ((x, y), (y, x)):
                bi = s.int_(b)
                if u.v.get_id() in s.prods and bi is not None and b.mag <= 2 ** 60:
                    m, k, _ = s.prods[u.v.get_id()]
                    e = s.name(('+', u.v.get_id(), linear(bi)), 'column', RealS, (u.v, bi))
                    s.point(st, e, m, k, bi)
                    s.trunc(e, st)
                    return F(e, FALSE, (u.mag + b.mag) * 2)
        return s.fbin0(o, x, y, st, tn)

    def point(s, st, e, m, k, x):
        st.assume(Implies(k == 0, e == z3.ToReal(x)))
        for m2, k2, x2, e2, g in s.points:
            if not x.eq(x2) or e.eq(e2):
                continue
            if (g or s.ghost) and m.eq(m2):
                up = And(Implies(k <= k2, e <= e2), Implies(k >= k2, e >= e2))
                dn = And(Implies(k <= k2, e >= e2), Implies(k >= k2, e <= e2))
                st.assume(And(Implies(m >= 0, up), Implies(m <= 0, dn)))
            elif linear(k) == linear(k2) and not m.eq(m2):
                st.assume(Implies(m == m2, e == e2))
                if g or s.ghost:
                    continue
                st.assume(And(Implies(And(k <= 0, m <= m2), e >= e2), Implies(And(k <= 0, m >= m2), e <= e2)))
        if not any(e.eq(r[3]) for r in s.points):
            s.points.append((m, k, x, e, s.ghost))

    def trunc(s, v, st=None):
        r = s.tr.get(v.get_id())
        if r is None:
            if z3.is_app_of(v, z3.Z3_OP_ITE):
                a, b = (s.trunc(c, st) for c in v.children()[1:])
                return If(v.arg(0), a, b)
            if st is None:
                return s.trunc0(v)
            t = s.name(('trunc', v.get_id()), 'whole', IntS, (v,))
            f, g = z3.ToReal(t) <= v, z3.ToReal(t) >= v
            r = s.tr[v.get_id()] = t, v, And(Implies(v >= 0, And(z3.ToReal(t) <= v, v < z3.ToReal(t) + 1, t >= 0)),
                                             Implies(v <= 0, And(z3.ToReal(t) >= v, v > z3.ToReal(t) - 1, t <= 0)))
        if st is not None:
            st.assume(r[2])
        return r[0]

    def f2i(s, st, x, tname):
        def known(v):
            return v.get_id() in s.tr or z3.is_app_of(v, z3.Z3_OP_ITE) and all(known(c) for c in v.children()[1:])
        if tname == 'int' and is_false(x.nan) and x.mag is not None and x.mag < 2 ** 63 and x.i is None and known(x.v):
            return s.trunc(x.v, st)
        return s.f2i0(st, x, tname)


XORDERS = list(itertools.permutations(range(3)))


def blocks(E, case):
    """DDATriangleBlocks covers every pixel of a row's span once and no other pixel"""
    nm, pat, order, rel, xorder = case
    E.prove_fin = E.light = E.lean = True
    st = State()
    ed = Edges(E)
    sh = Shape(E, st, order, rel)
    v = [(sh.A, sh.B, sh.C)[i] for i in xorder]
    for a, b in zip(v, v[1:]):
        st.assume(a[0] <= b[0])
    bs = E.sym(st, 'int', 'blockSize')
    st.assume(And(bs >= 1, bs <= 2 ** 30))
    px, py = E.fresh('px'), E.fresh('py')
    st.ghost['n'] = I(0)
    st.assume(And(py >= -FAR, py <= FAR))
    ed.ghost = True
    L, R = sh.span(st, py)
    ed.ghost = False
    lo, hi = sh.rows()
    one = lambda c: If(c, I(1), I(0))
    cov = And(L <= px, px < R)

    def line(E, s, a):
        x0, x1, y = a
        E.oblige(s, 'post', 'rows are near the triangle', And(y >= -FAR, y <= FAR))
        s.ghost['n'] = s.ghost['n'] + one(And(y == py, x0 <= px, px < x1))
        return [(s, None)]

    def block(E, s, a):
        x, y = a
        E.oblige(s, 'post', 'rows are near the triangle', And(y >= -FAR, y + bs <= FAR))
        s.ghost['n'] = s.ghost['n'] + one(And(y <= py, py < y + bs, x <= px, px < x + bs))
        return [(s, None)]

    def templates(E, ctx):
        out = []
        outer = outer_ints(ctx)
        count = lambda c: lambda v: v.ghost('n') == v.entry.ghost('n') + one(c(v))
        if not outer:
            for i in ctx.ints():
                out.append(('rows passed %s' % i, count(lambda v, i=i: And(cov, Or(And(v.entry.vals[i] <= py, py < v.vals[i]), And(v.vals[i] < py, py <= v.entry.vals[i]))))))
            return out
        for on, o in outer[-1:]:
            # the limits of the spans: the floats and integers that depend on the current rows
            cand, seen = [], set()
            oterm = o(None)
            for n, v in ctx.live.items():
                x = v.v if isinstance(v, F) and v.fin() else v if z3.is_expr(v) and z3.is_int(v) else None
                if x is None or isnum(x) or n in ctx.phi_t or x.get_id() in seen or x.eq(oterm):
                    continue
                seen.add(x.get_id())
                if E.max_stage(x) >= E.max_stage(oterm):
                    cand.append((n, x))
            fl = [(n, x) for n, x in cand if z3.is_real(x) and z3.is_app_of(x, z3.Z3_OP_ITE)] or [(n, x) for n, x in cand if z3.is_real(x)]
            lims = [(n, (lambda w, x=x: E.trunc(x)) if z3.is_real(x) else (lambda w, x=x: x)) for n, x in fl + [(n, x) for n, x in cand if z3.is_int(x)]]
            for y in ctx.ints():
                for rn, row in (('-', lambda v, o=o, y=y: And(o(v) - v.vals[y] < py, py <= o(v) - v.entry.vals[y])), ('+', lambda v, o=o, y=y: And(o(v) + v.entry.vals[y] <= py, py < o(v) + v.vals[y]))):
                    for ln, l in lims:
                        out.append(('rows %s%s, left of %s' % (rn, y, ln), count(lambda v, row=row, l=l: And(row(v), L <= px, px < l(v)))))
                        out.append(('rows %s%s, right of %s' % (rn, y, ln), count(lambda v, row=row, l=l: And(row(v), l(v) <= px, px < R))))
                for tn, t in (('up', lambda v, o=o: o(v) - bs + 1), ('down', o)):
                    out.append(('blocks %s, %s' % (y, tn), count(lambda v, y=y, t=t: And(t(v) <= py, py < t(v) + bs, v.entry.vals[y] <= px, px < v.vals[y]))))
                for ln, l in lims[:len(fl)]:
                    out.append(('%s<=%s' % (y, ln), lambda v, y=y, l=l: Or(v.vals[y] <= l(v), v.vals[y] == v.entry.vals[y])))
        return out
    E.templates.append(templates)
    lf, bf = Fn(handler=line), Fn(handler=block)
    h = helper(E)
    if h:
        outs = E.run(R_ + HELPER, [dict(zip(NAMES, (sh.C[0], sh.C[1], sh.B[0], sh.B[1], sh.A[0], sh.A[1], bs, lf, bf)))[n] for n in h], st)
    else:
        outs = []
        for o in [o for n, os, *r in PATTERNS if r == rel for o in os]:
            pts = [None] * 3
            for i, q in zip(o, (sh.A, sh.B, sh.C)):
                pts[i] = q
            s2 = st.copy()
            s2.trail += (('vertices',) + o,)
            outs += E.run(R_ + 'DDATriangleBlocks', [sh.value(pts), bs, lf, bf], s2)
    for s, _ in outs:
        E.oblige(s, 'post', 'every pixel of the triangle is covered once and no other', s.ghost['n'] == one(And(lo <= py, py < hi, cov)))
    E.need(outs, 'the blocks of a triangle')


HELPER, NAMES = 'normalTriangleBlocks', 'x0 y0 x1 y1 x2 y2 blockSize line block'.split()


def helper(E):
    """the names of the parameters of the function that rasterises vertices sorted by y, if there is one"""
    f = E.p.funcs.get(R_ + HELPER)
    n = [p['n'] for p in f['params']] if f else []
    return n if sorted(n) == sorted(NAMES) else None


def sorting(E, case):
    """DDATriangleBlocks hands the vertices over sorted by y, with the block size and the callbacks (when it
    does so with the helper; else its units look at every order of the vertices)"""
    nm, pat, order, rel = case
    st = State()
    h = helper(E)
    if not h:
        E.need([(st, None)], 'no helper')
        return
    sh = Shape(E, st, order, rel)
    bs = E.sym(st, 'int', 'blockSize')
    lf, bf = Fn(handler=lambda E, s, a: [(s, None)]), Fn(handler=lambda E, s, a: [(s, None)])
    st.ghost['calls'] = I(0)

    def call(E, s, a):
        g = dict(zip(h, a))
        v = [(g['x%d' % i], g['y%d' % i]) for i in range(3)]
        E.oblige(s, 'post', 'the vertices are handed over by decreasing y', And(v[0][1] >= v[1][1], v[1][1] >= v[2][1]))
        E.oblige(s, 'post', 'each vertex is handed over once', Or(*[And(*[And(a[0] == v[i][0], a[1] == v[i][1]) for a, i in zip(sh.points, o)]) for o in PERMS]))
        E.oblige(s, 'post', 'the block size and the callbacks are handed over', And(g['blockSize'] == bs, z3.BoolVal(getattr(g['line'], 'handler', 0) is lf.handler and getattr(g['block'], 'handler', 0) is bf.handler)))
        s.ghost['calls'] = s.ghost['calls'] + 1
        return [(s, None)]
    E.summaries[R_ + HELPER] = call
    outs = E.run(R_ + 'DDATriangleBlocks', [sh.value(), bs, lf, bf], st)
    for s, _ in outs:
        E.oblige(s, 'post', 'the triangle is rasterised once', s.ghost['calls'] == 1)
    E.need(outs, 'DDATriangleBlocks returns')


def triangle(E):
    """any triangle"""
    st = State()
    pts = [[E.sym(st, 'int', c + str(i)) for c in 'xy'] for i in range(3)]
    return st, pts, ST([Arr_([ST(list(p), E.p.typ(GP)) for p in pts], E)], E.p.typ(TRI))


def corners(E, st, tri):
    """the coordinates of the vertices of a triangle value"""
    return [p.vals for p in tri.vals[0].vals]


def same_triangle(E, st, tri, pts):
    return And(*[a == b for p, q in zip(corners(E, st, tri), pts) for a, b in zip(p, q)])


def pixels(E):
    """DDATriangle calls back once for each pixel of the lines of DDATriangleLines and for no other"""
    st, pts, tri = triangle(E)
    px, py, L, R = (E.fresh(c) for c in ('px', 'py', 'L', 'R'))
    has = E.fresh('row', BoolS)
    st.ghost['n'], st.ghost['calls'] = I(0), I(0)
    one = lambda c: If(c, I(1), I(0))

    def pixel(E, s, a):
        s.ghost['n'] = s.ghost['n'] + one(And(a[0] == px, a[1] == py))
        return [(s, None)]

    def all_lines(E, s, a):
        E.oblige(s, 'post', 'the lines of the same triangle', same_triangle(E, s, a[0], pts))
        s.ghost['calls'] = s.ghost['calls'] + 1

        def others(E, s2):
            x0, x1, y = (E.fresh(c) for c in ('x0', 'x1', 'y'))
            s2.assume(y != py)
            return [t for t, _ in E.call_value(None, s2, a[1], [x0, x1, y], {})]
        res = []
        for s1 in E.abstract_loop(s, 'lines of other rows before', others):
            no = s1.copy()
            s1.assume(has)
            s1.trail += (('the row',),)
            no.assume(Not(has))
            for s2 in [t for t, _ in E.call_value(None, s1, a[1], [L, R, py], {})] + [no]:
                s2.trail += (('after',),)
                res += E.abstract_loop(s2, 'lines of other rows after', others)
        return [(t, None) for t in res]

    def templates(E, ctx):
        out = [('n unchanged', lambda v: v.ghost('n') == v.entry.ghost('n'))]
        for x in ctx.ints():
            out.append(('pixels of the row passed, %s' % x, lambda v, x=x: v.ghost('n') == v.entry.ghost('n') + one(Or(And(v.entry.vals[x] <= px, px < v.vals[x]), And(v.vals[x] < px, px <= v.entry.vals[x])))))
            out.append(('pixels of the row passed, %s+1' % x, lambda v, x=x: v.ghost('n') == v.entry.ghost('n') + one(And(v.entry.vals[x] < px, px <= v.vals[x]))))
            out.append(('%s <= R' % x, lambda v, x=x: Or(v.vals[x] <= R, v.vals[x] == v.entry.vals[x])))
        return out
    E.templates.append(templates)
    E.summaries[R_ + 'DDATriangleLines'] = all_lines
    outs = E.run(R_ + 'DDATriangle', [tri, Fn(handler=pixel)], st)
    for s, _ in outs:
        E.oblige(s, 'post', 'a pixel is reported once when it is in the line of its row, else not at all', s.ghost['n'] == one(And(has, L <= px, px < R)))
        E.oblige(s, 'post', 'the triangle is rasterised once', s.ghost['calls'] == 1)
    E.need(outs, 'DDATriangle returns')


POLY = MOD + 'geom.Polygon'


def fan(E):
    """Polygon.Triangulate calls back with the triangles (first, k+1, k+2) of the polygon, k = 0, 1, ..."""
    st = State()
    poly = E.sym(st, POLY, 'polygon')
    ps = sub(E, st, poly, E.p.typ(POLY), 'Points')
    st.ghost['c'] = I(0)
    c = E.fresh('c')
    st.assume(And(c >= 0, c < ps.len - 2))
    want = [elem(E, st, ps, i, E.p.typ(GP)).vals for i in (I(0), c + 1, c + 2)]

    def tri(E, s, a):
        v = corners(E, s, a[0])
        E.oblige(s, 'post', 'a triangle of the fan on the first vertex', Implies(s.ghost['c'] == c, Or(*[And(*[And(*[x == y for x, y in zip(v[i], w)]) for i, w in zip(o, want)]) for o in PERMS])))
        s.ghost['c'] = s.ghost['c'] + 1
        return [(s, None)]

    def templates(E, ctx):
        out = []
        for i in ctx.ints():
            out.append(('one triangle for each %s' % i, lambda v, i=i: v.ghost('c') - v.entry.ghost('c') == v.vals[i] - v.entry.vals[i]))
            out.append(('%s <= number of vertices' % i, lambda v, i=i: Or(v.vals[i] <= ps.len, v.vals[i] == v.entry.vals[i])))
        return out
    E.templates.append(templates)
    outs = E.run('(%s).Triangulate' % POLY, [poly, Fn(handler=tri)], st)
    for s, _ in outs:
        E.oblige(s, 'post', 'there are two triangles fewer than vertices', s.ghost['c'] == If(ps.len < 2, I(0), ps.len - 2))
    E.need(outs, 'Triangulate returns')


def fan_small(E):
    """fewer than three vertices: no triangle"""
    st = State()
    poly = E.sym(st, POLY, 'polygon')
    ps = sub(E, st, poly, E.p.typ(POLY), 'Points')
    st.assume(ps.len <= 2)

    def tri(E, s, a):
        E.oblige(s, 'post', 'no triangle for fewer than three vertices', FALSE)
        return [(s, None)]
    outs = E.run('(%s).Triangulate' % POLY, [poly, Fn(handler=tri)], st)
    E.need(outs, 'Triangulate returns')


def polygon(E, fn, target):
    """DDAPolygon and DDAPolygonBlocks rasterise each triangle of the fan once"""
    st = State()
    poly = E.sym(st, POLY, 'polygon')
    ps = sub(E, st, poly, E.p.typ(POLY), 'Points')
    cbs = [Fn(handler=lambda E, s, a: [(s, None)]) for _ in range(2 if 'Blocks' in fn else 1)]
    bs = E.sym(st, 'int', 'blockSize')
    st.ghost['fans'] = I(0)
    st.ghost['t'] = I(0)
    cur = {}

    def one(E, s, a):
        E.oblige(s, 'post', 'the triangle of the fan is rasterised', same_triangle(E, s, a[0], cur['pts']))
        ok = [getattr(x, 'handler', 0) is y.handler for x, y in zip(a[-len(cbs):], cbs)]
        E.oblige(s, 'post', 'with the callbacks and the block size of the caller', And(z3.BoolVal(all(ok)), a[1] == bs if len(cbs) == 2 else TRUE))
        s.ghost['t'] = s.ghost['t'] + 1
        return [(s, None)]

    def all_triangles(E, s, a):
        v = sub(E, s, a[0], E.p.typ(POLY), 'Points')
        E.oblige(s, 'post', 'the polygon itself is triangulated', And(v.obj == ps.obj, v.off == ps.off, v.len == ps.len))
        s.ghost['fans'] = s.ghost['fans'] + 1

        def body(E, s2):
            pts = [[E.fresh(c) for c in 'xy'] for i in range(3)]
            cur['pts'] = pts
            n = s2.ghost['t']
            res = []
            for s3, _ in E.call_value(None, s2, a[1], [ST([Arr_([ST(list(p), E.p.typ(GP)) for p in pts], E)], E.p.typ(TRI))], {}):
                E.oblige(s3, 'post', 'a triangle is rasterised once', s3.ghost['t'] == n + 1)
                res.append(s3)
            return res
        return [(t, None) for t in E.abstract_loop(s, 'triangles of the fan', body)]
    E.summaries['(%s).Triangulate' % POLY] = all_triangles
    E.summaries[R_ + target] = one
    args = [poly] + ([bs] if len(cbs) == 2 else []) + cbs
    outs = E.run(R_ + fn, args, st)
    for s, _ in outs:
        E.oblige(s, 'post', 'the polygon is rasterised once', s.ghost['fans'] == 1)
    E.need(outs, fn + ' returns')


BLOCKS = [('%s, x order %s' % (n, ''.join('ABC'[i] for i in xo)), n, (2, 1, 0), r, xo) for n, os, *r in PATTERNS for xo in XORDERS]
BLOCKS = [b for b in BLOCKS if b[3] != ['=', '='] or b[4] == (0, 1, 2)]
BLOCK_UNITS = [('rasterize.DDATriangleBlocks, ' + c[0], lambda E, c=c: blocks(E, c)) for c in BLOCKS] + \
              [('rasterize.DDATriangleBlocks sorts, ' + c[0], lambda E, c=c: sorting(E, c)) for c in CASES]
