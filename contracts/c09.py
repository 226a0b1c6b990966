"""C09: the circumcircle index holds each live triangle in exactly its cells."""
import itertools, struct
from fractions import Fraction
from gvc.core import *
from gvc.lib import *

PK = MOD + 'triangulation/incrdelaunay.'
PT, TR, CC, GR = PK + 'Point', PK + 'Triangle', PK + 'Circumcircle', PK + 'CircumcircleGrid'
COLT, ROWT, CELLT = '[][][]uint32', '[][]uint32', '[]uint32'
o1 = z3.Function('column of storage', IntS, IntS)
o2 = z3.Function('row of storage', IntS, IntS)
oc = z3.Function('column of table', IntS, IntS)
D1, D2 = z3.Function('pair1', IntS, IntS), z3.Function('pair2', IntS, IntS)
pair = z3.Function('pair', IntS, IntS, IntS)


class Grid:
    """a grid in any state: any numbers of columns and rows, every cell with storage of its own; seen
    at an arbitrary cell (gx, gy)"""

    def __init__(g, E, st):
        g.E = E
        g.tid = E.p.typ(GR)
        v = E.sym(st, g.tid, 'grid')
        for i, f in enumerate(E.p.ut(g.tid)['f']):
            if f['n'] in ('colPixels', 'rowPixels'):
                x = v.vals[i]
                st.assume(And(Not(x.nan), x.v >= R('1/1024'), x.v <= 2 ** 20))
                v.vals[i] = F(x.v, FALSE, 2 ** 20)
        g.v = v
        g.ptr = E.new(st, g.tid)
        E.store(st, g.ptr, v, g.tid)
        (g.path, _), = struct_slices(E, g.tid, ROWT)
        g.cols, g.rows = sub(E, st, v, g.tid, 'cols'), sub(E, st, v, g.tid, 'rows')
        g.cp, g.rp = sub(E, st, v, g.tid, 'colPixels'), sub(E, st, v, g.tid, 'rowPixels')
        st.assume(And(g.cols >= 1, g.cols <= 2 ** 20, g.rows >= 1, g.rows <= 2 ** 20))
        tab = sub_path(v, g.path)
        st.assume(tab.len == g.cols)
        g.nxt0 = st.nxt
        g.st0 = st.copy()
        g.busy = set()
        g.depth = 0
        E.base_hooks.append(g.facts)
        g.gx, g.gy = E.fresh('gx'), E.fresh('gy')
        st.assume(And(g.gx >= 0, g.gx < g.cols, g.gy >= 0, g.gy < g.rows))
        g.st0 = st.copy()

    def table(g, st):
        v = g.E.load(st, g.ptr, g.tid)
        return sub_path(v, g.path)

    def col(g, st, x):
        return elem(g.E, st, g.table(st), x, g.E.p.typ(ROWT))

    def cell(g, st, x, y):
        return elem(g.E, st, g.col(st, x), y, g.E.p.typ(CELLT))

    def ghost(g, st):
        return g.cell(st, g.gx, g.gy)

    def facts(g, E, st, node, obj, idx, v):
        if node.stage != 0 or node.key[2] != 'so' or node.key[0] not in (ROWT, CELLT):
            return []
        k = (node.key[0],)
        if k in g.busy:
            return []
        g.busy.add(k)
        try:
            s0 = g.st0.shadow(st)
            tab = sub_path(g.v, g.path)
            if node.key[0] == ROWT:         # a column of the table
                x = z3.simplify(idx - tab.off)
                c = elem(E, s0, tab, x, E.p.typ(ROWT))
                return [Implies(And(obj == tab.obj, x >= 0, x < g.cols), And(c.len == g.rows, c.cap > 0, oc(c.obj) == x))]
            x = oc(obj)                     # a cell
            c = elem(E, s0, tab, x, E.p.typ(ROWT))
            y = z3.simplify(idx - c.off)
            r = elem(E, s0, c, y, E.p.typ(CELLT))
            return [Implies(And(x >= 0, x < g.cols, obj == c.obj, y >= 0, y < g.rows, r.cap > 0), And(o1(r.obj) == x, o2(r.obj) == y))]
        finally:
            g.busy.discard(k)

    def univ(g, fname):
        """universal candidates: whichever cell is read, its storage is its own: the original one, or
        one made for it by the loops"""
        names = []
        for h in g.E.p.loops(g.E.p.funcs[fname]):
            blk = [b for b in g.E.p.funcs[fname]['blocks'] if b['i'] == h][0]
            for ins in blk['ins']:
                if ins['op'] == 'phi' and g.E.p.ts(ins['t']) == 'int':
                    names.append(('%s@%d' % (fname, h), ins['n']))

        def univ(E, ctx):
            out = []
            keyp = lambda key: key[0] == CELLT

            def ok(v, i, fresh):
                if g.depth >= 3:
                    return TRUE
                g.depth += 1
                try:
                    return ok_(v, i, fresh)
                finally:
                    g.depth -= 1

            def ok_(v, i, fresh):
                x, y = D1(i), D2(i)
                r = g.cell(v.st, x, y)
                return Implies(And(x >= 0, x < g.cols, y >= 0, y < g.rows, r.cap > 0),
                               If(r.obj < g.nxt0, And(o1(r.obj) == x, o2(r.obj) == y), fresh(r.obj, x, y)))

            def idx(v, obj, ix):
                c = elem(E, v.st, sub_path(g.v, g.path), oc(obj), E.p.typ(ROWT))
                a, b = oc(obj), z3.simplify(ix - c.off)
                p = pair(a, b)
                v.st.assume(And(D1(p) == a, D2(p) == b))
                return p
            out.append(('cells own their storage', keyp, lambda v, i: ok(v, i, lambda o, x, y: FALSE), idx))
            for a, b in itertools.permutations(names, 2):
                if a[0] == b[0]:
                    continue
                for d in (0, 1):
                    for e in (0, 1):
                        out.append(('cells own their storage: %s+%d %s+%d' % (a[0][-3:] + a[1], d, b[0][-3:] + b[1], e), keyp,
                                    lambda v, i, a=a, b=b, d=d, e=e: ok(v, i, lambda o, x, y: And(E.own(*a)(o) + d == x, E.own(*b)(o) + e == y)), idx))
            return out
        return univ


def circle(E, st, name='t'):
    """a triangle whose circumcircle is finite and no larger than any of an image of 4096 pixels"""
    t = E.sym(st, TR, name)
    ti = E.p.field(E.p.typ(TR), 'Circumcircle')
    cs = t.vals[ti]
    for i, x in enumerate(cs.vals):
        st.assume(And(Not(x.nan), x.v <= 2 ** 50, x.v >= (0 if E.p.ut(E.p.typ(CC))['f'][i]['n'] == 'Radius' else -2 ** 50)))
        cs.vals[i] = F(x.v, FALSE, 2 ** 50)
    return t


def quotient_bounds(E, st, op, f32, r, exact, args, fin):
    a, b = args
    if op == 'fdiv':
        st.assume(Implies(And(b >= R('1/1024'), a >= 0), And(r >= 0, r <= a * 1025)))
        st.assume(Implies(And(b >= R('1/1024'), a <= 0), And(r <= 0, r >= a * 1025)))


def touched(E, st, g, t):
    """the cell overlaps the bounding square of the (slightly enlarged) circumcircle"""
    ct = E.p.typ(CC)
    c = sub(E, st, t, E.p.typ(TR), 'Circumcircle')
    f = lambda n: sub(E, st, c, ct, n)
    eps = R(str(Fraction(struct.unpack('f', struct.pack('f', 0.001))[0])))
    r = E.fbin('+', f('Radius'), F(eps, FALSE, 1), st, 'float32')
    out = []
    for n, k, size, pix in (('cX', g.gx, g.cols, g.cp), ('cY', g.gy, g.rows, g.rp)):
        lo = E.fbin('/', E.fbin('-', f(n), r, st, 'float32'), pix, st, 'float64')
        hi = E.fbin('/', E.fbin('+', f(n), r, st, 'float32'), pix, st, 'float64')
        out += [z3.ToReal(k) < hi.v, z3.ToReal(k) + 1 > lo.v]
    return And(*out)


def edit(E, method):
    """AddTriangle and RemoveTriangle, seen at the cell (gx, gy)"""
    st = State()
    E.prove_fin = E.ifconv = True
    E.round_hook = quotient_bounds
    g = Grid(E, st)
    t = circle(E, st)
    ix = E.sym(st, 'uint32', 'index')
    hit = touched(E, st, g, t)
    c0 = g.ghost(st)
    el = lambda s, c, j: elem(E, s, c, j, E.p.typ('uint32'))
    j, e = E.fresh('j'), E.fresh('e')
    st.assume(And(j >= 0))
    if method == 'RemoveTriangle':
        # the index is in the cell at most once, at place e
        st.assume(And(e < c0.len, Implies(e >= 0, el(st, c0, e) == ix)))

        def once(E, s, node, obj, idx, v):
            if node.key[0] == 'uint32' and node.stage == 0:
                return [Implies(And(obj == c0.obj, idx >= c0.off, idx < c0.off + c0.len, v == ix), idx - c0.off == e)]
            return []
        E.base_hooks.append(once)
    st0 = st.copy()
    same_slice = lambda a, b: And(a.len == b.len, Or(a.len == 0, And(a.obj == b.obj, a.off == b.off)))

    def todo(s):
        c = g.ghost(s)
        return And(c.len == c0.len, Implies(j < c.len, el(s, c, j) == el(st0.shadow(s), c0, j)))

    def done(s):
        c = g.ghost(s)
        old = lambda k: el(st0.shadow(s), c0, k)
        if method == 'AddTriangle':
            return And(c.len == c0.len + 1, el(s, c, z3.simplify(c.len - 1)) == ix, Implies(j < c0.len, el(s, c, j) == old(j)))
        last = z3.simplify(c0.len - 1)
        return And(c.len == If(e >= 0, c0.len - 1, c0.len), Implies(j < c.len, el(s, c, j) == If(j == e, old(last), old(j))))

    def strict(s):
        """the slice itself is untouched"""
        c = g.ghost(s)
        return And(c.obj == c0.obj, c.off == c0.off, c.len == c0.len, c.cap == c0.cap)
    fname = method_fn(E, E.p.typ('*' + GR), method)
    E.univ.append(g.univ(fname))

    axes = ((g.gx, g.gy, 'xy'), (g.gy, g.gx, 'yx'))

    inner_ok = lambda outer: len(outer) == 1

    def contents(E, ctx):
        """all entries of the cell are the old ones until its turn comes"""
        out = []
        keyp = lambda key: key[0] == 'uint32'
        same = lambda v, i: Implies(And(i >= 0, i < c0.len), el(v.st, c0, i) == el(st0.shadow(v.st), c0, i))
        ix_ = lambda v, obj, ix: z3.simplify(ix - c0.off)
        outer = outer_ints(ctx, True)
        for n in ctx.ints():
            for a, b, an in axes:
                if not outer:
                    out.append(('%s contents outer %s' % (an, n), keyp, lambda v, i, n=n, a=a: Implies(Not(And(hit, a < v.vals[n])), same(v, i)), ix_))
                if inner_ok(outer):
                    for rn, r in outer:
                        out.append(('%s contents inner %s %s' % (an, rn, n), keyp, lambda v, i, n=n, a=a, b=b, r=r: Implies(Not(And(hit, Or(a < r(v), And(a == r(v), b < v.vals[n])))), same(v, i)), ix_))
        return out
    if method == 'RemoveTriangle':
        E.univ.append(contents)

    def templates(E, ctx):
        out = []
        outer = outer_ints(ctx, True)
        for n in ctx.ints():
            for d in (0, 1):
                for a, b, an in axes:
                    p = lambda v, n=n, d=d, a=a: And(hit, a < v.vals[n] + d)
                    if not outer:
                        out.append(('%s done outer %s+%d' % (an, n, d), lambda v, p=p: Implies(p(v), done(v.st))))
                        out.append(('%s todo outer %s+%d' % (an, n, d), lambda v, p=p: Implies(Not(p(v)), And(todo(v.st), strict(v.st)))))
                    if inner_ok(outer):
                        for rn, r in outer:
                            p = lambda v, n=n, d=d, a=a, b=b, r=r: And(hit, Or(a < r(v), And(a == r(v), b < v.vals[n] + d)))
                            out.append(('%s done inner %s %s+%d' % (an, rn, n, d), lambda v, p=p: Implies(p(v), done(v.st))))
                            out.append(('%s todo inner %s %s+%d' % (an, rn, n, d), lambda v, p=p: Implies(Not(p(v)), And(todo(v.st), strict(v.st)))))
                if method == 'RemoveTriangle':
                    # the search in the cell
                    for (an, a), (bn, b) in itertools.permutations(outer, 2):
                        out.append(('%s %s: not before %s+%d' % (an, bn, n, d), lambda v, n=n, d=d, a=a, b=b: Implies(And(g.gx == a(v), g.gy == b(v), e >= 0), e >= v.vals[n] + d)))
        out.append(('as on entry', lambda v: And(Implies(todo(v.entry.st), todo(v.st)), Implies(strict(v.entry.st), strict(v.st)), Implies(done(v.entry.st), done(v.st)))))
        return out
    E.templates.append(templates)
    outs = E.run(fname, [g.ptr, t, ix], st)
    what = {'AddTriangle': 'every touched cell gets the index once, at its end, and keeps its entries', 'RemoveTriangle': 'every touched cell loses the index and keeps its other entries'}[method]
    for s, r in outs:
        s.assume(Implies(Not(hit), TRUE))
        a, b = s.copy(), s.copy()
        a.assume(hit)
        E.oblige(a, 'post', what, done(a))
        b.assume(Not(hit))
        E.oblige(b, 'post', 'no other cell changes', todo(b))
        for n in ('cols', 'rows', 'colPixels', 'rowPixels'):
            i = E.p.field(g.tid, n)
            x, y = [E.flat(E.load(q, P(g.ptr.obj, g.ptr.idx, GR, (i,), None, True), E.p.ut(g.tid)['f'][i]['t']), E.p.ut(g.tid)['f'][i]['t']) for q in (s, st0.shadow(s))]
            E.oblige(s, 'frame', n + ' stays', And(*[u == w for u, w in zip(x, y)]))
        E.oblige(s, 'frame', 'the table has as many columns and rows', And(g.table(s).len == g.cols, g.col(s, g.gx).len == g.rows))
    E.need(outs, method + ' returns')


POS = 'place of every index in the cell'


class Cell:
    """the cell of a query point, in any state: distinct indices of live triangles"""

    def __init__(q, E, st, g, p):
        q.E, q.g = E, g
        pt = E.p.typ(PT)
        q.tt = E.p.typ(TR)
        q.tris = E.sym(st, '[]' + TR, 'triangles')
        st.assume(And(q.tris.cap > 0, q.tris.obj >= 1))
        # the cell the point lies in; points on the right and bottom border belong to the last one
        for n, k, size, pix in (('X', g.gx, g.cols, g.cp), ('Y', g.gy, g.rows, g.rp)):
            c = sub(E, st, p, pt, n)
            v = E.fbin('/', E.i2f(st, c, 'int16'), pix, st, 'float64')
            fl = z3.ToInt(v.v)
            st.assume(And(c >= 0, fl >= 0, fl <= size))     # see the unit NewCircumcircleGrid
            st.assume(k == If(fl == size, size - 1, fl))
        q.c0 = g.ghost(st)
        st.assume(Implies(q.c0.cap > 0, q.c0.obj != q.tris.obj))
        q.K, q.e = E.fresh('K'), E.fresh('e')
        st.assume(And(q.K >= 0, q.K <= 2 ** 32 - 1, q.e >= -1, q.e < q.c0.len, Implies(q.e >= 0, q.el(st, q.e) == q.K)))
        q.pos0 = z3.Const('pos0', z3.ArraySort(IntS, IntS))
        st.assume(z3.Select(q.pos0, q.K) == q.e)
        st.ghost['pos'] = q.pos0
        st.ghost['count'] = z3.IntVal(0)
        st.ghost['in'] = q.e >= 0
        E.base_hooks.append(q.facts)
        q.tri = elem(E, st, q.tris, q.K, q.tt)
        q.st0 = st.copy()
        st.assume(Implies(q.e >= 0, And(q.K < q.tris.len, q.ax(st, q.tri) != -1)))

    def ax(q, st, t):
        E = q.E
        return sub(E, st, sub(E, st, t, q.tt, 'A'), E.p.typ(PT), 'X')

    def el(q, st, i):
        return elem(q.E, st, q.c0, i, q.E.p.typ('uint32'))

    def valid(q, pos, v, i):
        return And(z3.Select(pos, v) == i, v < q.tris.len)

    def facts(q, E, st, node, obj, idx, v):
        if node.key[0] == 'uint32' and node.stage == 0:
            i = z3.simplify(idx - q.c0.off)
            return [Implies(And(obj == q.c0.obj, i >= 0, i < q.c0.len), q.valid(q.pos0, v, i))]
        return []


def test(E, st, kind, tri, p):
    """the condition of the query"""
    tt, pt = E.p.typ(TR), E.p.typ(PT)
    vs = [sub(E, st, tri, tt, n) for n in 'ABC']
    xy = [(sub(E, st, v, pt, 'X'), sub(E, st, v, pt, 'Y')) for v in vs]
    px, py = sub(E, st, p, pt, 'X'), sub(E, st, p, pt, 'Y')
    if kind == 'vertex':
        return Or(*[And(x == px, y == py) for x, y in xy])
    return INC(*[z for v in xy for z in v], px, py) >= 0


INC = z3.Function('inCircle', *([IntS] * 9))
Iv = lambda x: z3.IntVal(x)


def query(E, method, kind, removes):
    st = State()
    E.prove_fin = E.ifconv = True
    E.round_hook = quotient_bounds
    g = Grid(E, st)
    p = E.sym(st, PT, 'p')
    E.allow_panic = lambda *a: TRUE         # queries refuse cells that hold freed triangles
    q = Cell(E, st, g, p)
    E.summaries[PK + 'inCircle'] = lambda E, s, a: [(s, INC(*a))]
    hit = test(E, st, kind, q.tri, p)
    none = E.fresh('no triangle of the cell passes', BoolS)

    def nothing(E, s, node, obj, idx, v):
        if node.key[0] == 'uint32' and node.stage == 0 and method == 'HasPoint':
            tri = elem(E, q.st0.shadow(s), q.tris, v, q.tt)
            return [Implies(And(none, obj == q.c0.obj, idx >= q.c0.off, idx < q.c0.off + q.c0.len), Not(test(E, s, kind, tri, p)))]
        return []
    E.base_hooks.append(nothing)
    gfn = method_fn(E, E.p.typ('*' + GR), 'RemoveTriangle')
    calls = []

    def callback(E, s, args):
        ix = args[0]
        s.ghost['count'] = s.ghost['count'] + If(ix == q.K, Iv(1), Iv(0))
        if removes:
            # the caller may reuse the slot of the triangle
            E.oblige(s, 'pre', 'the callback is told an index of the slice', And(ix >= 0, ix < q.tris.len))
            E.store(s, P(q.tris.obj, z3.simplify(q.tris.off + ix), TR, (), None, True), E.sym(s, TR, 'reused'), q.tt)
        calls.append(1)
        return [(s, None)]

    def remove(E, s, args):
        """RemoveTriangle at the cell of the point, which the triangle's circle touches as it was put there"""
        t, ix = args[1], args[2]
        c = g.ghost(s)
        i = z3.Select(s.ghost['pos'], ix)
        s.assume(Implies(And(i >= 0, i < c.len), TRUE))
        E.oblige(s, 'pre', 'the removed triangle is one of the cell', And(i >= 0, i < c.len, elem(E, s, c, i, E.p.typ('uint32')) == ix))
        E.oblige(s, 'pre', 'it is removed with its own circle', Implies(ix == q.K, And(*[a == b for a, b in zip(E.flat(t, q.tt), E.flat(q.tri, q.tt))])))
        n = z3.simplify(c.len - 1)
        last = elem(E, s, c, n, E.p.typ('uint32'))
        E.store(s, P(c.obj, z3.simplify(c.off + i), 'uint32', (), None, True), last, E.p.typ('uint32'))
        col = g.col(s, g.gx)
        E.store(s, P(col.obj, z3.simplify(col.off + g.gy), CELLT, (), None, True), S(c.obj, c.off, n, c.cap, c.root), E.p.typ(CELLT))
        s.ghost['pos'] = z3.Store(z3.Store(s.ghost['pos'], last, i), ix, z3.IntVal(-1))
        s.ghost['in'] = And(s.ghost['in'], ix != q.K)
        return [(s, None)]
    if removes:
        E.summaries[gfn] = remove

        def distinct(E, ctx):
            keyp = lambda key: key[0] == 'uint32'

            def ok(v, i):
                c = g.ghost(v.st)
                return Implies(And(i >= 0, i < c.len), q.valid(v.st.ghost['pos'], q.el(v.st, i), i))
            return [('indices are distinct', keyp, ok, lambda v, obj, ix: z3.simplify(ix - q.c0.off))]
        E.univ.append(distinct)

    def templates(E, ctx):
        out = []
        same = lambda v: And(*[a == b for a, b in zip(E.flat(elem(E, v.st, q.tris, q.K, q.tt), q.tt), E.flat(q.tri, q.tt))])

        def at(v):
            """the place of K now"""
            return z3.Select(v.st.ghost['pos'], q.K)
        if removes:
            out.append(('K at its place', lambda v: And(v.st.ghost['in'] == (at(v) >= 0), at(v) >= -1, at(v) < g.ghost(v.st).len,
                                                       Implies(v.st.ghost['in'], And(q.e >= 0, q.el(v.st, at(v)) == q.K, same(v), v.st.ghost['count'] == 0)))))
            out.append(('K gone', lambda v: Implies(Not(v.st.ghost['in']), v.st.ghost['count'] == If(q.e >= 0, Iv(1), Iv(0)))))
            out.append(('K gone because it passed', lambda v: Implies(And(Not(v.st.ghost['in']), q.e >= 0), hit)))
            out.append(('the cell', lambda v: And(g.ghost(v.st).obj == q.c0.obj, g.ghost(v.st).off == q.c0.off, g.ghost(v.st).cap == q.c0.cap)))
        for n in ctx.ints():
            if removes:
                out.append(('%s is the length' % n, lambda v, n=n: v.vals[n] == g.ghost(v.st).len))
            for d in (0, 1):
                if removes:
                    out.append(('K before %s+%d fails' % (n, d), lambda v, n=n, d=d: Implies(And(v.st.ghost['in'], at(v) < v.vals[n] + d), Not(hit))))
                else:
                    out.append(('K before %s+%d counted' % (n, d), lambda v, n=n, d=d: v.st.ghost['count'] == If(And(q.e >= 0, q.e < v.vals[n] + d, hit), Iv(1), Iv(0))))
                    out.append(('K before %s+%d fails' % (n, d), lambda v, n=n, d=d: Implies(And(q.e >= 0, q.e < v.vals[n] + d), Not(hit))))
        return out
    E.templates.append(templates)
    fname = method_fn(E, g.tid, method)
    v = E.load(st, g.ptr, g.tid)
    args = [v, p, q.tris] + ([Fn(handler=callback)] if method != 'HasPoint' else [])
    outs = E.run(fname, args, st)
    for s, r in outs:
        if method == 'HasPoint':
            E.oblige(s, 'post', 'false means that no triangle of the cell has the vertex', Implies(And(q.e >= 0, hit), r))
            E.oblige(s, 'post', 'true means that a triangle of the cell has the vertex', Implies(none, Not(r)))
            continue
        E.oblige(s, 'post', 'a triangle is visited once if it is in the cell and passes, and not otherwise', s.ghost['count'] == If(And(q.e >= 0, hit), Iv(1), Iv(0)))
        if removes:
            E.oblige(s, 'post', 'exactly the visited triangles leave the cell', s.ghost['in'] == And(q.e >= 0, Not(hit)))
    E.need(outs, method + ' returns')


def construct(E):
    """NewCircumcircleGrid establishes what the other units assume of a grid, and every point of the image
    has a cell"""
    st = State()
    E.prove_fin = E.ifconv = True
    cols, rows, w, h = (E.sym(st, 'int', n) for n in ('cols', 'rows', 'w', 'h'))
    for k, size in ((cols, w), (rows, h)):
        st.assume(And(k >= 1, k <= 2 ** 20, size >= 1, size <= 32767, k <= 1000 * size))
    eps = R('1/4503599627370496')

    def division(E, st, op, f32, r, exact, args, fin):
        a, b = args
        if op == 'fdiv' and not f32:        # one rounding: relative error at most 2^-53
            st.assume(Implies(And(a >= 0, b > 0), And(r * b <= a * (1 + eps), r * b >= a * (1 - eps), r >= 0)))
    E.round_hook = division
    x1, x2, y = E.fresh('x1'), E.fresh('x2'), E.fresh('y')
    st.assume(And(x1 >= 0, x1 < x2, x2 < cols, y >= 0, y < rows))
    gt = E.p.typ(GR)
    (path, _), = struct_slices(E, gt, ROWT)
    cell = lambda s, tab, x: elem(E, s, elem(E, s, tab, x, E.p.typ(ROWT)), y, E.p.typ(CELLT))
    E.univ.append(row_invariants(E, CELLT))

    def templates(E, ctx):
        out = []
        for sn, tab in slices_of(ctx, ROWT):
            for n in ctx.ints():
                for d in (0, 1):
                    def empty(v, n=n, d=d, tab=tab):
                        c = cell(v.st, tab(v), x1)
                        return Implies(x1 < v.vals[n] + d, And(c.len == 0, c.cap == 0))
                    out.append(('%s cells empty before %s+%d' % (sn, n, d), empty))
        return out
    E.templates.append(templates)
    outs = E.run(PK + 'NewCircumcircleGrid', [cols, rows, w, h], st)
    for s, r in outs:
        f = lambda n: sub(E, s, r, gt, n)
        tab = sub_path(r, path)
        E.oblige(s, 'post', 'numbers of columns and rows', And(f('cols') == cols, f('rows') == rows, tab.len == cols))
        a, b = [elem(E, s, tab, x, E.p.typ(ROWT)) for x in (x1, x2)]
        E.oblige(s, 'post', 'every column has all rows', And(a.len == rows, b.len == rows, a.cap > 0))
        E.oblige(s, 'post', 'columns share no storage', a.obj != b.obj)
        c = cell(s, tab, x1)
        E.oblige(s, 'post', 'every cell is empty', And(c.len == 0, c.cap == 0))
        for k, size, pix in ((cols, w, f('colPixels')), (rows, h, f('rowPixels'))):
            q = s.copy()
            E.oblige(q, 'post', 'pixels per cell', And(Not(pix.nan), pix.v >= R('1/1024'), pix.v <= 32768))
            q.assume(And(Not(pix.nan), pix.v >= R('1/1024')))
            x = E.sym(q, 'int16', 'x')
            q.assume(And(x >= 0, x <= size))
            v = E.fbin('/', E.i2f(q, x, 'int16'), pix, q, 'float64')
            p1, p2 = v.v * pix.v, pix.v * z3.ToReal(k)
            E.oblige(q, 'lemma', 'the columns reach the border', p2 * (1 + 4 * eps) >= z3.ToReal(size))
            q.assume(p2 * (1 + 4 * eps) >= z3.ToReal(size))
            E.oblige(q, 'lemma', 'place of the point', p1 <= z3.ToReal(x) * (1 + eps))
            q.assume(p1 <= z3.ToReal(x) * (1 + eps))
            E.oblige(q, 'lemma', 'every point of the image has a cell', And(v.v >= 0, v.v < z3.ToReal(k) + 1))
    E.need(outs, 'NewCircumcircleGrid returns')


UNITS = [('incrdelaunay.NewCircumcircleGrid', construct)]
UNITS += [('incrdelaunay.CircumcircleGrid.' + m, lambda E, m=m: edit(E, m)) for m in ('AddTriangle', 'RemoveTriangle')]
UNITS += [('incrdelaunay.CircumcircleGrid.' + m, lambda E, m=m, k=k, r=r: query(E, m, k, r)) for m, k, r in (
    ('HasPoint', 'vertex', False), ('IterThatHasVertex', 'vertex', False), ('IterCircumcirclesThatContain', 'circle', False),
    ('RemoveThatHasVertex', 'vertex', True), ('RemoveCircumcirclesThatContain', 'circle', True))]
HARNESS = [dict(name='queries', pkg='triangulation/incrdelaunay', package='incrdelaunay_test', files=['c09a.go.txt'], run='TestVerifC09'),
           dict(name='cells', pkg='triangulation/incrdelaunay', package='incrdelaunay', files=['c09b.go.txt'], run='TestVerifC09Cells')]
ASSUMPTIONS = ['circumcircles have finite centres and radii up to 2^50 (those of triangles with distinct int16 vertices that are not in line)',
               'the bounding square is the one computed in IEEE arithmetic: centre +- (radius + 0.001) in float32, divided by the cell size; that it contains the exact circle of every triangle met is part of C11 (bounded)',
               'grids with up to 1000 columns per pixel of width and rows per pixel of height, images up to 32767 pixels',
               'queries that remove: their calls of RemoveTriangle act on the cell of the point as RemoveTriangle is proved to (the entry was put there with the same circle); the callback may overwrite the visited slot of the triangle slice and does not touch the grid',
               'inCircle is opaque here (C10 proves it exact); a query may refuse (panic) a cell that holds a freed slot (marked by the x coordinate -1 of its first vertex, which no vertex of a triangulation has)']
LEVEL_NOTE = ('AddTriangle, RemoveTriangle and the five queries are proved for an arbitrary cell of an arbitrary grid, an arbitrary triangle and an arbitrary index; NewCircumcircleGrid establishes the assumed form of the grid and every point of the image has a cell. '
              'Histories follow by induction on the operations (paper step). Trusts gvc, the SSA front end and z3/cvc5.')
BUDGET = 500
