"""the fitness functions: shared by C14 and C17"""
from gvc.core import *
from gvc.lib import *

FI = MOD + 'fitness.'
ID = MOD + 'triangulation/incrdelaunay.'
PT, TRI, FP = ID + 'Point', ID + 'Triangle', ID + 'FloatPoint'
CD = FI + 'CacheData'
RA = MOD + 'rasterize.'
GP, GT, GPOLY = MOD + 'geom.Point', MOD + 'geom.Triangle', MOD + 'geom.Polygon'
PD = FI + 'PointsData'
MUT = MOD + 'mutation.Mutation'
NP = MOD + 'normgeom.NormPoint'
CH = ('r', 'g', 'b', 'sq')
MAXPX = 32767
KIND = {'triangles': dict(F=FI + 'trianglesImageFunction', C=FI + 'TriangleCacheData', T=ID + 'Delaunay', iter='IterTriangles', new='NewDelaunay', dda='DDATriangleBlocks', nc=6),
        'polygons': dict(F=FI + 'polygonsImageFunction', C=FI + 'PolygonCacheData', T=ID + 'IVoronoi', iter='IterPolygons', new='NewVoronoi', dda='DDAPolygonBlocks', nc=1)}
one = lambda c: If(c, I(1), I(0))


class Fit:
    """a fitness function object with the tables C13 describes"""

    def __init__(s, E, st, kind):
        s.E, s.kind, s.reading = E, kind, False
        s.k = KIND[kind]
        E.exact = True
        s.tid = E.p.typ(s.k['F'])
        s.v = E.sym(st, s.tid, 'f')
        s.p = E.new(st, s.tid)
        E.store(st, s.p, s.v, s.tid)
        g = s.first
        tgt = g('target')
        tt = E.p.ut(s.tid)['f'][E.p.field(s.tid, 'target')]['t']
        s.w, s.h = sub(E, st, tgt, tt, 'width'), sub(E, st, tgt, tt, 'height')
        s.rows = sub(E, st, tgt, tt, 'pixels')
        nt = E.p.ut(s.tid)['f'][E.p.field(s.tid, 'targetN')]['t']
        s.brows = sub(E, st, g('targetN'), nt, 'pixels')
        s.bs = g('blockSize')
        st.assume(And(s.w >= 1, s.w <= MAXPX, s.h >= 1, s.h <= MAXPX, s.bs >= 1, s.bs <= 128))
        st.assume(And(s.rows.len == s.h, s.brows.len == If(Or(s.bs > s.w, s.bs > s.h), I(0), s.h - s.bs + 1)))
        md = g('maxDifference')
        st.assume(And(Not(md.nan), md.v == z3.ToReal(195075 * s.w * s.h), md.v > 0))
        s.PS = [z3.Function('prefix.' + c, IntS, IntS, IntS) for c in CH]

    def first(s, f):
        return s.v.vals[s.E.p.field(s.tid, f)]

    def get(s, st, f):
        i = s.E.p.field(s.tid, f)
        t = s.E.p.ut(s.tid)['f'][i]['t']
        return s.E.load(st, P(s.p.obj, s.p.idx, s.p.root, (i,), None, True), t)

    def tables(s):
        """facts about the rows and pixels of the image tables"""
        E = s.E
        prow, pix, brow = '[]' + FI + 'pixel', FI + 'pixel', '[]' + FI + 'pixelN'

        def loaded(E, st, q):
            if q.root == prow and q.path == ():
                r = E.load(st, P(q.obj, q.idx, q.root, (), None, True), E.p.typ(prow))
                st.assume(Implies(And(q.obj == s.rows.obj, q.idx >= s.rows.off, q.idx < s.rows.off + s.h), r.len == s.w))
            elif q.root == brow and q.path == ():
                r = E.load(st, P(q.obj, q.idx, q.root, (), None, True), E.p.typ(brow))
                st.assume(Implies(And(q.obj == s.brows.obj, q.idx >= s.brows.off, q.idx < s.brows.off + s.brows.len), r.len == s.w - s.bs + 1))
            elif q.root == pix:
                t = E.p.typ(pix)
                v = E.load(st, P(q.obj, q.idx, q.root, (), None, True), t)
                for f, c in zip(s.PS, CH):
                    st.assume(f(q.obj, z3.simplify(q.idx + 1)) == f(q.obj, q.idx) + v.vals[E.p.field(t, c)])
        E.load_facts.append(loaded)

    def rasterizer(s, name, shape):
        """contract of the block rasterizer: callbacks for spans and blocks in the image, whose pixels and
        sums are those of the shape, as C06, C07 and C13 have it"""
        E = s.E

        def dda(E, st, a):
            key = shape(E, st, a)
            E.oblige(st, 'post', 'the block size is that of the tables', a[1] == s.bs)
            s0 = st.copy()
            for c in CH + ('n',):
                s0.ghost['sum ' + c] = I(0)

            def body(E, s1):
                out = []
                s2 = s1.copy()
                x0, x1, y = E.fresh('x0'), E.fresh('x1'), E.fresh('y')
                s1.assume(And(y >= 0, y < s.h, x0 >= 0, x0 <= x1, x1 <= s.w))
                s1.trail += (('span',),)
                row = elem(E, s1, s.rows, y, E.p.typ('[]' + FI + 'pixel'))
                add = [f(row.obj, z3.simplify(row.off + x1)) - f(row.obj, z3.simplify(row.off + x0)) for f in s.PS] + [x1 - x0]
                for s3, _ in E.call_value(None, s1, a[2], [x0, x1, y], {}):
                    for c, d in zip(CH + ('n',), add):
                        s3.ghost['sum ' + c] = s3.ghost['sum ' + c] + d
                    out.append(s3)
                x, y = E.fresh('x'), E.fresh('y')
                s2.assume(And(y >= 0, y < s.brows.len, x >= 0, x <= s.w - s.bs))
                s2.trail += (('block',),)
                bt = E.p.typ(FI + 'pixelN')
                b = elem(E, s2, elem(E, s2, s.brows, y, E.p.typ('[]' + FI + 'pixelN')), x, bt)
                for s3, _ in E.call_value(None, s2, a[3], [x, y], {}):
                    for c, d in zip(CH + ('n',), [b.vals[E.p.field(bt, c)] for c in CH] + [s.bs * s.bs]):
                        s3.ghost['sum ' + c] = s3.ghost['sum ' + c] + d
                    out.append(s3)
                return out
            res = []
            for s4 in E.abstract_loop(s0, 'spans and blocks', body):
                tot = s.moments(key)
                for c, t in zip(CH + ('n',), tot):
                    s4.assume(s4.ghost['sum ' + c] == t)
                s.deviation(s4, key)
                s4.ghost['rasterised'] = s4.ghost.get('rasterised', I(0)) + 1
                res.append((s4, None))
            return res
        E.summaries[RA + name] = dda

    def moments(s, key):
        return [z3.Function('total ' + c, *([IntS] * len(key) + [IntS]))(*key) for c in CH + ('n',)]

    def DEV(s, key):
        return z3.Function('deviation', *([IntS] * len(key) + [RealS]))(*key)

    def deviation(s, st, key):
        """the squared deviation from the mean, from the moments"""
        r, g, b, sq, n = [z3.ToReal(x) for x in s.moments(key)]
        st.assume(Implies(n == 0, s.DEV(key) == 0))
        st.assume(And(n >= 0, n <= 2 ** 30))
        st.assume(Implies(n != 0, s.DEV(key) == sq - (r * r + g * g + b * b) / n))

    def templates(s):
        E = s.E

        def sums(E, ctx):
            out = []
            cells = []
            for ci, (p, t) in enumerate(ctx.entry_st.cells):
                u = E.p.ut(t)
                if u['k'] == 'basic' and u['name'] in ('float64', 'int', 'int64', 'uint64', 'uint'):
                    cells.append(('cell%d' % ci, u['name'] == 'float64', lambda v, p=p, t=t: E.load(v.st, P(p.obj, p.idx, p.root, p.path, None, True), t)))
            gh = [n for n in ctx.entry_st.ghost if isinstance(n, str)]
            for cn, fl, g in cells:
                if fl:
                    out.append((cn + ' is a number', lambda v, g=g: Not(g(v).nan)))
                    for n in ('D', 'A'):
                        if n in gh and ctx.name == 'shapes':
                            out.append(('%s grows with %s' % (cn, n), lambda v, g=g, n=n: g(v).v - v.ghost(n) == g(v.entry).v - v.entry.ghost(n)))
                elif ctx.name == 'spans and blocks':
                    for c in CH + ('n',):
                        out.append(('%s grows with %s' % (cn, c), lambda v, g=g, c=c: g(v) - v.ghost('sum ' + c) == g(v.entry) - v.entry.ghost('sum ' + c)))
                elif ctx.ints():
                    for sn, sl in slices_of(ctx, FI + 'pixel')[:1]:
                        for x in ctx.ints():
                            for f, c in zip(s.PS, CH):
                                at = lambda v, f=f, x=x, sl=sl: f(sl(v).obj, z3.simplify(sl(v).off + v.vals[x]))
                                out.append(('%s is the sum of %s up to %s' % (cn, c, x), lambda v, g=g, at=at: g(v) - at(v) == g(v.entry) - at(v.entry)))
            if ctx.ints() and ctx.name != 'shapes':
                for x in ctx.ints():
                    for nm, lim in live_ints(ctx):
                        if nm != x:
                            out.append(('%s <= %s' % (x, nm), lambda v, x=x, lim=lim: Or(v.vals[x] <= lim(v), v.vals[x] == v.entry.vals[x])))
            return out
        E.templates.append(sums)

    def entry(s, st, e):
        """the fields of a cache entry"""
        t = s.E.p.typ(s.k['C'])
        return s.E.load(st, P(e.obj, e.idx, s.k['C'], (), None, True), t)

    def coords(s, ent):
        t = s.E.p.typ(s.k['C'])
        return [ent.vals[s.E.p.field(t, c)] for c in ('aX', 'aY', 'bX', 'bY', 'cX', 'cY')]

    def entf(s, ent, f):
        return ent.vals[s.E.p.field(s.E.p.typ(s.k['C']), f)]


def quiet_structure(E, st, f):
    """the triangulation is no concern of this unit: its methods change nothing of the fitness function"""
    T = f.k['T']
    tt = E.p.typ('*' + T)

    def new(E, st, a):
        o = E.fresh('triangulation')
        st.assume(o >= 1)
        return [(st, P(o, I(0), T, (), None, True))]
    E.summaries[ID + f.k['new']] = new
    E.summaries[FI + 'createPoint'] = lambda E, st, a: [(st, E.sym(st, E.p.typ(PT), 'point'))]
    for m in ('Insert', 'Remove', 'Set'):
        name = method_fn(E, tt, m)

        def edit(E, st, a, m=m):
            if f.reading:
                E.oblige(st, 'frame', 'the triangulation is not edited while its shapes are read', FALSE)
            return [(st, E.fresh('ok', BoolS) if m == 'Insert' and f.kind == 'triangles' else None)]
        E.summaries[name] = edit


def points_data(E, st):
    d = E.sym(st, E.p.typ(PD), 'data')
    return d


def value(E, kind, branch):
    """Calculate: the value, and the entries kept for the next evaluation"""
    st = State()
    f = Fit(E, st, kind)
    f.tables()
    f.templates()
    quiet_structure(E, st, f)
    tri = kind == 'triangles'
    T0, B0 = f.first('Triangulation'), f.first('Base')
    st.assume({'new': T0.obj == 0, 'based': And(T0.obj != 0, B0.obj != 0), 'again': And(T0.obj != 0, B0.obj == 0)}[branch])
    tris, nxt = f.first('TriangleCache'), f.first('nextCache')
    CHM = E.fresh('hash limit')
    st.assume(And(tris.len >= 1, tris.len <= 2 ** 31, tris.len <= CHM, tris.obj != nxt.obj, nxt.len >= 0))
    ct = E.p.typ(f.k['C'])
    tag = E.p.typ('*' + f.k['C']) + 1
    cd = E.p.typ(CD)
    SEQ3 = z3.Function('sequence of', IntS, IntS, IntS, IntS)
    SEQ = lambda c: SEQ3(c.obj, c.off, c.len)
    nxt0 = {}

    def key_of(E, st, e):
        ent = f.entry(st, e)
        return f.coords(ent) if tri else [SEQ(f.entf(ent, 'coords'))]

    def good(E, st, e):
        ent = f.entry(st, e)
        fit = f.entf(ent, 'fitness')
        return And(e.tag == tag, e.obj >= 1, e.idx == 0, Not(fit.nan), fit.v == f.DEV(key_of(E, st, e)), f.entf(ent, 'hash') < CHM)

    def loaded(E, s, q):
        if q.root == CD and q.path == ():
            e = E.load(s, P(q.obj, q.idx, CD, (), None, True), cd)
            inside = And(q.obj == tris.obj, q.idx >= tris.off, q.idx < tris.off + tris.len)
            s.assume(Implies(inside, Or(e.tag == 0, And(good(E, s, e), e.obj < nxt0['all']))))
            if not tri:
                c = f.entf(f.entry(s, e), 'coords')
                s.assume(Implies(And(inside, e.tag != 0), And(c.obj < nxt0['all'], Implies(c.len > 0, c.obj >= 1))))
    E.load_facts.append(loaded)
    k0 = E.fresh('k')
    st.assume(k0 >= 0)
    T0k = [E.fresh('t%d' % i) for i in range(f.k['nc'])]

    def kept(s, sl, i, key):
        """entry i of the slice is that of the shape"""
        e = elem(E, s, sl, i, cd)
        ent = f.entry(s, e)
        fit = f.entf(ent, 'fitness')
        same = And(*[a == b for a, b in zip(f.coords(ent), key)]) if tri else TRUE
        return And(sl.len > i, e.tag == tag, e.obj >= 1, e.idx == 0, e.obj < s.nxt, Not(fit.nan), fit.v == f.DEV(key), f.entf(ent, 'hash') < CHM, same)

    def frame(E, ctx):
        nc = lambda v: f.get(v.st, 'nextCache')
        if ctx.name == 'shapes':
            return [('one entry for each shape', lambda v: nc(v).len == v.ghost('c')),
                    ('entry k is kept', lambda v: Implies(v.ghost('c') > k0, kept(v.st, nc(v), k0, T0k))),
                    ('the entries are not in the cache that is read', lambda v: And(nc(v).obj != tris.obj, nc(v).cap >= nc(v).len)),
                    ('c >= 0', lambda v: v.ghost('c') >= 0)]
        if ctx.entry_st.ghost.get('c') is None:
            return []
        return [('next cache stays', lambda v: And(nc(v).len == nc(v.entry).len, nc(v).obj == nc(v.entry).obj, nc(v).off == nc(v.entry).off, nc(v).cap == nc(v.entry).cap)),
                ('entry k stays', lambda v: Implies(And(k0 < nc(v).len, kept(v.entry.st, nc(v.entry), k0, T0k)), kept(v.st, nc(v), k0, T0k)))]
    E.templates.append(frame)
    cur = {}

    def shapes(E, st, a):
        st.ghost['c'], st.ghost['D'], st.ghost['A'] = I(0), R(0), R(0)

        def body(E, s):
            nxt0['call'] = s.nxt
            keys = [(P(p.obj, p.idx, p.root, p.path, None, True), t) for p, t in s.cells if E.p.ts(t) == '[]int16']
            n = s.ghost['c']
            before = f.get(s, 'nextCache')
            arg = new_shape(E, s)
            key = cur['key']
            for x, y in zip(T0k, key):
                s.assume(Implies(n == k0, x == y))
            out = []
            f.reading = True
            after_all = E.call_value(None, s, a[-1], [arg], {})
            f.reading = False
            for s2, _ in after_all:
                E.oblige(s2, 'frame', 'the triangulation and the base stay', And(*[f.get(s2, n).obj == f.get(s, n).obj for n in ('Triangulation', 'Base')]))
                after = f.get(s2, 'nextCache')
                E.oblige(s2, 'post', 'one entry is kept for a shape', after.len == before.len + 1)
                e = elem(E, s2, after, before.len, cd)
                ent = f.entry(s2, e)
                fit = f.entf(ent, 'fitness')
                E.oblige(s2, 'post', 'the entry kept holds the deviation of the shape', And(e.tag == tag, e.obj != 0, Not(fit.nan), fit.v == f.DEV(key)))
                E.oblige(s2, 'post', 'the entry kept holds the coordinates of the shape', And(*[x == y for x, y in zip(f.coords(ent), key)]) if tri else seq_kept(E, s2, e, ent))
                if not tri:
                    c = f.entf(ent, 'coords')
                    E.oblige(s2, 'post', 'the coordinates kept are not written to again', Or(c.cap == 0, *[]) if not keys else Or(c.cap == 0, And(*[E.load(s2, p, t).obj != c.obj for p, t in keys])))
                E.oblige(s2, 'post', 'the index kept with the entry is one of the cache', f.entf(ent, 'hash') < CHM)
                s2.ghost['c'] = n + 1
                s2.ghost['D'] = s2.ghost['D'] + f.DEV(key)
                s2.ghost['A'] = s2.ghost['A'] + cur['area']
                out.append(s2)
            return out
        return [(s, None) for s in E.abstract_loop(st, 'shapes', body)]

    def new_shape(E, s):
        if tri:
            tt, pt = E.p.typ(TRI), E.p.typ(PT)
            t = E.sym(s, tt, 'triangle')
            c = []
            for n in 'ABC':
                v = sub(E, s, t, tt, n)
                for i, lim in ((0, f.w), (1, f.h)):
                    s.assume(And(v.vals[i] >= 0, v.vals[i] <= lim))
                    c.append(v.vals[i])
            cur['key'] = c
            cross = z3.ToReal(c[2] - c[0]) * z3.ToReal(c[5] - c[1]) - z3.ToReal(c[4] - c[0]) * z3.ToReal(c[3] - c[1])
            ar = z3.Function('area', *([IntS] * 6 + [RealS]))(*c)
            s.assume(And(ar >= 0, Or(ar + ar == cross, ar + ar == -cross)))
            cur['area'] = ar
            return t
        return poly_shape(E, s)

    def tri_shape(E, st, a):
        tt, pt = E.p.typ(GT), E.p.typ(GP)
        vs = [p.vals for p in sub(E, st, a[0], tt, 'Points').vals]
        c = cur['key']
        want = [(c[0], c[1]), (c[2], c[3]), (c[4], c[5])]
        import itertools
        E.oblige(st, 'post', 'the shape itself is rasterised', Or(*[And(*[And(v[0] == w[0], v[1] == w[1]) for v, w in zip(vs, pm)]) for pm in itertools.permutations(want)]))
        return c

    # ---------------------------------------------------------------- polygons
    def poly_cell(st):
        for p, t in reversed(st.cells):
            if E.p.ts(t) == GPOLY:
                v = E.load(st, P(p.obj, p.idx, p.root, p.path, None, True), t)
                return sub(E, st, v, t, 'Points')
        raise Unsupported('no polygon that is filled')

    def rounded(v):
        return z3.ToInt(v.v + R('1/2'))

    def poly_shape(E, s):
        ps = E.sym(s, E.p.typ('[]' + FP), 'polygon')
        s.assume(And(ps.len >= 1, ps.len <= 2 ** 30, ps.obj >= 1, ps.obj < nxt0['all']))
        cur['Q'] = E.fresh('sequence')
        cur['key'] = [cur['Q']]
        cur['src'] = ps
        cur['area'] = R(0)
        cur['i'], cur['pos'] = E.fresh('i'), E.fresh('place')
        s.assume(And(cur['i'] >= 0, cur['i'] < ps.len))
        return ps

    def source(E, s, q):
        if q.root == FP:
            v = E.load(s, P(q.obj, q.idx, FP, (), None, True), E.p.typ(FP))
            for x, lim in zip(v.vals, (f.w, f.h)):
                s.assume(And(Not(x.nan), x.v >= 0, x.v <= z3.ToReal(lim)))

    def same_as_polygon(s, sl, pts, k):
        """the slice of coordinates lists the points"""
        if not isinstance(sl, S):
            return FALSE
        pt = E.p.typ(GP)
        p = elem(E, s, pts, k, pt)
        i16 = E.p.typ('int16')
        return And(sl.len == 2 * pts.len, Implies(And(k >= 0, k < pts.len), And(elem(E, s, sl, z3.simplify(2 * k), i16) == p.vals[0], elem(E, s, sl, z3.simplify(2 * k + 1), i16) == p.vals[1])))

    def is_source(s, pts):
        """the point of the shape with an arbitrary number is where it should be"""
        p = elem(E, s, pts, cur['pos'], E.p.typ(GP))
        v = elem(E, s, cur['src'], cur['i'], E.p.typ(FP))
        return And(cur['pos'] >= 0, cur['pos'] < pts.len, p.vals[0] == rounded(v.vals[0]), p.vals[1] == rounded(v.vals[1]))

    kk = E.fresh('kk')

    def poly_raster(E, st, a):
        pts = poly_cell(st)
        v = sub(E, st, a[0], E.p.typ(GPOLY), 'Points')
        E.oblige(st, 'post', 'the shape itself is rasterised', And(v.obj == pts.obj, v.off == pts.off, v.len == pts.len))
        E.oblige(st, 'post', 'the shape has every vertex of the polygon, rounded', is_source(st, pts))
        return cur['key']

    def equals(E, st, a):
        recv, other = a
        sides = []
        for x in (recv, other):
            if isinstance(x, IF):
                E.oblige(st, 'pre', 'Equals compares with an entry of its kind', x.tag == tag)
                x = f.entry(st, x)
            elif isinstance(x, P):
                x = E.load(st, x, ct)
            c = f.entf(x, 'coords')
            E.oblige(st, 'pre', 'a key lists the coordinates of the shape', Or(c.obj < nxt0['all'], same_as_polygon(st, c, poly_cell(st), kk)))
            E.oblige(st, 'pre', 'a key has every vertex of the polygon, rounded', Or(c.obj < nxt0['all'], is_source(st, poly_cell(st))))
            sides.append(If(c.obj < nxt0['all'], SEQ(c), cur['Q']))
        r = E.fresh('equal', BoolS)
        st.assume(Implies(r, sides[0] == sides[1]))
        return [(st, r)]

    def seq_kept(E, s, e, ent):
        c = f.entf(ent, 'coords')
        old = And(c.obj < nxt0['all'], SEQ(c) == cur['Q'])
        return Or(old, And(c.obj >= nxt0['call'], same_as_polygon(s, c, poly_cell(s), kk)))

    def poly_templates(E, ctx):
        out = []
        if 'src' not in cur or ctx.name in ('shapes', 'spans and blocks') or not ctx.ints() or 'sum n' in ctx.entry_st.ghost and ctx.entry_st.ghost.get('rasterising'):
            return out
        try:
            poly_cell(ctx.entry_st)
        except Unsupported:
            return out
        pts = lambda v: poly_cell(v.st)
        keys = [(ci, p, t) for ci, (p, t) in enumerate(ctx.entry_st.cells) if E.p.ts(t) == '[]int16']
        for x in ctx.ints():
            for d in (0, 1):
                def placed(v, x=x, d=d):
                    v.st.assume(Implies(v.vals[x] + d == cur['i'] + 1, cur['pos'] == pts(v).len - 1))
                    return Implies(v.vals[x] + d > cur['i'], is_source(v.st, pts(v)))
                out.append(('vertices before %s+%d are there' % (x, d), placed))
                out.append(('no more points than %s+%d' % (x, d), lambda v, x=x, d=d: pts(v).len <= v.vals[x] + d))
        for ci, p, t in keys:
            g = lambda v, p=p, t=t: E.load(v.st, P(p.obj, p.idx, p.root, p.path, None, True), t)
            out.append(('cell%d lists the points' % ci, lambda v, g=g: same_as_polygon(v.st, g(v), pts(v), kk)))
            out.append(('cell%d is new or empty' % ci, lambda v, g=g: Or(g(v).cap == 0, g(v).obj >= nxt0['all'])))
        out.append(('points are new or none', lambda v: Or(pts(v).cap == 0, pts(v).obj >= nxt0['all'])))
        return out

    def outer_poly(E, ctx):
        if ctx.name != 'shapes':
            return []
        out = []
        for ci, (p, t) in enumerate(ctx.entry_st.cells):
            if E.p.ts(t) == '[]int16':
                out.append(('key cell%d is new or empty' % ci, lambda v, p=p, t=t: (lambda x: Or(x.cap == 0, x.obj >= nxt0['all']))(E.load(v.st, P(p.obj, p.idx, p.root, p.path, None, True), t))))
            if E.p.ts(t) == GPOLY:
                out.append(('polygon cell%d is new or empty' % ci, lambda v, p=p, t=t: (lambda x: Or(x.cap == 0, x.obj >= nxt0['all']))(sub(E, v.st, E.load(v.st, P(p.obj, p.idx, p.root, p.path, None, True), t), t, 'Points'))))
        return out

    f.rasterizer(f.k['dda'], tri_shape if tri else poly_raster)
    it = E.p.typ(f.k['T']) if tri else E.p.typ('*' + f.k['T'])
    E.summaries[method_fn(E, it, f.k['iter'])] = shapes
    if not tri:
        E.templates += [poly_templates, outer_poly]
        E.load_facts.append(source)
        E.region_preds.append((lambda key: key[0] in ('int16', GP), 'made by this call', lambda o: o >= nxt0['all']))
        E.optimistic = 'preds'
        E.hope = True
        E.summaries[method_fn(E, E.p.typ(f.k['C']), 'Equals')] = equals
    data = points_data(E, st)
    nxt0['all'] = nxt0['call'] = st.nxt
    st0, w0, wi = st.copy(), E.fresh('place'), E.fresh('index')
    outs = E.run(method_fn(E, E.p.typ('*' + f.k['F']), 'Calculate'), [f.p, data], st)
    for s, r in outs:
        D, A = s.ghost.get('D', R(0)), s.ghost.get('A', R(0))
        blank = 195075 * (z3.ToReal(f.w * f.h) - A) if tri else R(0)
        E.oblige(s, 'post', 'the fitness is 1 minus the share of the greatest difference', And(Not(r.nan), r.v == 1 - (D + blank) / f.first('maxDifference').v))
        tc = f.get(s, 'TriangleCache')
        E.oblige(s, 'post', 'the cache left has an entry for each shape', tc.len == s.ghost.get('c', I(0)))
        E.oblige(s, 'post', 'entry k of the cache left is that of shape k', Implies(And(k0 >= 0, k0 < tc.len), kept(s, tc, k0, T0k)))
        E.oblige(s, 'frame', 'the image, block size and maximal difference stay', And(*[a == b for n in ('target', 'targetN', 'blockSize', 'maxDifference') for a, b in zip(E.flat(f.get(s, n), E.p.ut(f.tid)['f'][E.p.field(f.tid, n)]['t']), E.flat(f.first(n), E.p.ut(f.tid)['f'][E.p.field(f.tid, n)]['t']))]))
        for root in [f.k['C'], 'int16'] + ([FP] if not tri else []):
            t = E.p.typ(root)
            q = P(w0, wi, root, (), None, True)
            E.oblige(s, 'frame', 'no %s that was there is changed' % root.split('.')[-1], Implies(And(w0 >= 1, w0 < st0.nxt), And(*[a == b for a, b in zip(E.flat(E.load(s, q, t), t), E.flat(E.load(st0, q, t), t))])))
    E.need(outs, 'Calculate returns')


CF = FI + 'CacheFunction'
PAR = MOD + 'algorithm/evaluator.parallel'


def equals_unit(E, kind):
    """Equals is true only of an entry with the same coordinates"""
    st = State()
    ct = E.p.typ(KIND[kind]['C'])
    a, b = E.sym(st, ct, 'a'), E.sym(st, ct, 'b')
    q = E.new(st, ct)
    E.store(st, q, b, ct)
    k = E.fresh('k')
    tag = E.p.typ('*' + KIND[kind]['C']) + 1
    fn = lambda v, n: v.vals[E.p.field(ct, n)]
    if kind == 'polygons':
        i16 = E.p.typ('int16')
        ca, cb = fn(a, 'coords'), fn(b, 'coords')

        def templates(E, ctx):
            return [('equal before %s+%d' % (x, d), lambda v, x=x, d=d: Implies(And(k >= 0, k < v.vals[x] + d), elem(E, v.st, ca, k, i16) == elem(E, v.st, cb, k, i16))) for x in ctx.ints() for d in (0, 1)]
        E.templates.append(templates)
    recv = a
    outs = call_method(E, st, a, ct, 'Equals', [IF(I(tag), q.obj, I(0))])
    for s, r in outs:
        if kind == 'triangles':
            E.oblige(s, 'post', 'equal exactly when all coordinates are', r == And(*[fn(a, n) == fn(b, n) for n in ('aX', 'aY', 'bX', 'bY', 'cX', 'cY')]))
        else:
            E.oblige(s, 'post', 'equal only when as many coordinates', Implies(r, ca.len == cb.len))
            E.oblige(s, 'post', 'equal only when coordinate k is', Implies(And(r, k >= 0, k < ca.len), elem(E, s, ca, k, i16) == elem(E, s, cb, k, i16)))
    E.need(outs, 'Equals returns')


def create_point(E):
    """createPoint rounds to the nearest pixel corner, inside the image"""
    E.exact = True
    st = State()
    f = E.p.typ('float64')
    x, y = E.sym(st, f, 'x'), E.sym(st, f, 'y')
    w, h = E.sym(st, 'int', 'w'), E.sym(st, 'int', 'h')
    st.assume(And(w >= 1, w <= MAXPX, h >= 1, h <= MAXPX))
    for v in (x, y):
        st.assume(And(Not(v.nan), v.v >= 0, v.v <= 1))
    outs = E.run(FI + 'createPoint', [x, y, w, h], st)
    for s, r in outs:
        for v, c, lim in ((x, r.vals[0], w), (y, r.vals[1], h)):
            m = z3.ToReal(lim) * v.v
            E.oblige(s, 'post', 'the coordinate is the nearest whole number', And(z3.ToReal(c) <= m + R('1/2'), m + R('1/2') < z3.ToReal(c) + 1))
            E.oblige(s, 'post', 'the coordinate is in the image', And(c >= 0, c <= lim))
    E.need(outs, 'createPoint returns')


def evaluator(E, st):
    tid = E.p.typ(PAR)
    v = E.sym(st, tid, 'p')
    p = E.new(st, tid)
    E.store(st, p, v, tid)
    get = lambda s, n: E.load(s, P(p.obj, p.idx, p.root, (E.p.field(tid, n),), None, True), E.p.ut(tid)['f'][E.p.field(tid, n)]['t'])
    return tid, v, p, get


def update_unit(E):
    """parallel.Update: the entries the function kept are put where it will look for them, and it gets that cache"""
    st = State()
    tid, v, p, get = evaluator(E, st)
    ev, cache = sub(E, st, v, tid, 'evaluators'), sub(E, st, v, tid, 'cache')
    cft, cdt = E.p.typ(CF), E.p.typ(CD)
    st.assume(And(cache.len >= 1, cache.cap >= cache.len, cache.len <= 2 ** 31))
    H = z3.Function('index of entry', IntS, IntS)
    ENTRY = z3.Function('is entry', IntS, IntS, IntS, BoolS)
    kept = E.sym(st, E.p.typ('[]' + CD), 'kept')
    st.assume(And(kept.obj != cache.obj, kept.len >= 0))
    i = E.sym(st, 'int', 'i')
    st.assume(And(i >= 0, i < ev.len))
    mine = elem(E, st, ev, i, cft)
    st.assume(mine.tag != 0)
    slot = E.fresh('slot')
    st.assume(And(slot >= 0, slot < cache.len))
    st.ghost['handed'] = I(0)
    same = lambda a, b: And(a.tag == b.tag, a.obj == b.obj, a.idx == b.idx)

    def loaded(E, s, q):
        if q.root == CD and q.path == ():
            e = E.load(s, P(q.obj, q.idx, CD, (), None, True), cdt)
            s.assume(Implies(And(q.obj == kept.obj, q.idx >= kept.off, q.idx < kept.off + kept.len), And(ENTRY(e.tag, e.obj, e.idx), e.tag != 0)))
            s.assume(And(H(e.obj) >= 0, H(e.obj) < cache.len))
    E.load_facts.append(loaded)
    E.invokes[(CF, 'Cache')] = lambda E, s, r, a: [(s, kept)] if E.oblige(s, 'pre', 'the cache of the function asked', same(r, mine)) or True else None
    E.invokes[(CD, 'CachedHash')] = lambda E, s, r, a: [(s, H(r.obj))]

    def set_cache(E, s, r, a):
        E.oblige(s, 'post', 'the function gets the cache', And(same(r, mine), a[0].obj == cache.obj, a[0].off == cache.off, a[0].len == cache.len))
        s.ghost['handed'] = s.ghost['handed'] + 1
        return [(s, None)]
    E.invokes[(CF, 'SetCache')] = set_cache
    first = elem(E, st, cache, slot, cdt)
    at = lambda s, j: elem(E, s, cache, j, cdt)
    good = lambda s, j: (lambda e: And(ENTRY(e.tag, e.obj, e.idx), H(e.obj) == j))(at(s, j))

    def templates(E, ctx):
        out = [('a slot holds what it held or an entry with its index', lambda v: Or(same(at(v.st, slot), first), good(v.st, slot)))]
        return out
    E.templates.append(templates)
    outs = E.run(method_fn(E, E.p.typ('*' + PAR), 'Update'), [p, i], st)
    for s, r in outs:
        E.oblige(s, 'post', 'the function gets the cache once', s.ghost['handed'] == 1)
        E.oblige(s, 'post', 'a slot holds what it held or an entry with its index', Or(same(at(s, slot), first), good(s, slot)))
        for n in ('evaluators', 'cache', 'nextCache'):
            a, b = get(s, n), sub(E, s, v, tid, n)
            E.oblige(s, 'frame', 'the slices of the evaluator stay', And(a.obj == b.obj, a.off == b.off, a.len == b.len))
    E.need(outs, 'Update returns')


def prepare_unit(E):
    """parallel.Prepare swaps the caches; Get, Swap and SetBase speak of the members asked for"""
    st = State()
    tid, v, p, get = evaluator(E, st)
    outs = E.run(method_fn(E, E.p.typ('*' + PAR), 'Prepare'), [p], st)
    sl = lambda a, b: And(a.obj == b.obj, a.off == b.off, a.len == b.len, a.cap == b.cap)
    for s, r in outs:
        for n, m in (('cache', 'nextCache'), ('nextCache', 'cache'), ('evaluators', 'evaluators')):
            E.oblige(s, 'post', '%s is what %s was' % (n, m), sl(get(s, n), sub(E, s, v, tid, m)))
    E.need(outs, 'Prepare returns')
    same = lambda a, b: And(a.tag == b.tag, a.obj == b.obj, a.idx == b.idx)
    cft = E.p.typ(CF)

    def at(s, k):
        return elem(E, s, get(s, 'evaluators'), k, cft)
    st = State()
    tid, v, p, get = evaluator(E, st)
    i, j, k = [E.sym(st, 'int', n) for n in 'ijk']
    n = sub(E, st, v, tid, 'evaluators').len
    for x in (i, j, k):
        st.assume(And(x >= 0, x < n))
    ei, ej, ek = [at(st, x) for x in (i, j, k)]
    for x in (ei, ej, ek):
        st.assume(x.tag != 0)
    outs = E.run(method_fn(E, E.p.typ('*' + PAR), 'Swap'), [p, i, j], st.copy())
    for s, r in outs:
        E.oblige(s, 'post', 'i and j change places', And(same(at(s, i), ej), same(at(s, j), ei)))
        E.oblige(s, 'post', 'the others stay', Implies(And(k != i, k != j), same(at(s, k), ek)))
    E.need(outs, 'Swap returns')
    outs = E.run(method_fn(E, tid, 'Get'), [v, i], st.copy())
    for s, r in outs:
        E.oblige(s, 'post', 'Get gives function i', And(r.obj == ei.obj, r.idx == ei.idx, r.tag == ei.tag))
    E.need(outs, 'Get returns')
    s0 = st.copy()
    s0.ghost['based'] = I(0)

    def set_base(E, s, r, a):
        E.oblige(s, 'post', 'function i is based on function j', And(same(r, ei), same(a[0], ej)))
        s.ghost['based'] = s.ghost['based'] + 1
        return [(s, None)]
    E.invokes[(CF, 'SetBase')] = set_base
    outs = E.run(method_fn(E, E.p.typ('*' + PAR), 'SetBase'), [p, i, j], s0)
    for s, r in outs:
        E.oblige(s, 'post', 'once', s.ghost['based'] == 1)
    E.need(outs, 'SetBase returns')


def constructors(E, kind):
    """the functions made for an image: its tables, block size, greatest difference, no triangulation"""
    F = KIND[kind]['F']
    tid = E.p.typ(F)
    st = State()
    w, h = E.sym(st, 'int', 'w'), E.sym(st, 'int', 'h')
    bs = E.sym(st, 'int', 'block size')
    st.assume(And(w >= 1, w <= MAXPX, h >= 1, h <= MAXPX, bs >= 1, bs <= 128))
    img = E.sym(st, E.p.typ(MOD + 'image.Data'), 'target')
    st.assume(img.tag != 0)
    E.invokes[(MOD + 'image.Data', 'Size')] = lambda E, s, r, a: [(s, Tup([w, h]))] 
    made = {}
    for n, f in (('target', 'fromImage'), ('targetN', 'fromImageN')):
        made[n] = E.sym(st, result_tid(E, FI + f), f)

    def table(n, f):
        def get(E, s, a):
            E.oblige(s, 'pre', '%s of the image' % f, And(a[0].tag == img.tag, a[0].obj == img.obj, a[0].idx == img.idx))
            if len(a) > 1:
                E.oblige(s, 'pre', 'the blocks have the size asked for', a[1] == bs)
            return [(s, made[n])]
        E.summaries[FI + f] = get
    table('target', 'fromImage')
    table('targetN', 'fromImageN')
    tag = E.p.typ('*' + F) + 1

    def right(s, e):
        v = E.load(s, P(e.obj, e.idx, F, (), None, True), tid)
        g = lambda n: v.vals[E.p.field(tid, n)]
        md = g('maxDifference')
        ft = lambda n: E.p.ut(tid)['f'][E.p.field(tid, n)]['t']
        return And(e.tag == tag, e.obj >= 1, e.idx == 0,
                   *[a == b for n in ('target', 'targetN') for a, b in zip(E.flat(g(n), ft(n)), E.flat(made[n], ft(n)))],
                   g('blockSize') == bs, Not(md.nan), md.v == z3.ToReal(195075 * w * h), g('TriangleCache').len >= 2, g('nextCache').len == 0,
                   g('Triangulation').obj == 0, g('Base').obj == 0), g('TriangleCache').obj
    one = FI + {'triangles': 'NewTrianglesImageFunction', 'polygons': 'NewPolygonsImageFunction'}[kind]
    E.exact = True
    if one in E.p.funcs:
        outs = E.run(one, [img, bs], st.copy())
        for s, r in outs:
            E.oblige(s, 'post', 'the function is of the image', right(s, r)[0])
        E.need(outs, 'the constructor returns')
    k, l, n = E.fresh('k'), E.fresh('l'), E.sym(st, 'int', 'n')
    st.assume(And(n >= 0, k >= 0, k < l, l < n))
    cft = E.p.typ(CF)

    def pair(s, sl, lim):
        a, b = elem(E, s, sl, k, cft), elem(E, s, sl, l, cft)
        (ra, ca), (rb, cb) = right(s, a), right(s, b)
        return And(Implies(k < lim, And(ra, a.obj < s.nxt)), Implies(l < lim, And(rb, b.obj < s.nxt, a.obj != b.obj)))

    def templates(E, ctx):
        out = []
        for sn, sl in slices_of(ctx, CF):
            for x in ctx.ints():
                for d in (0, 1):
                    out.append(('%s made before %s+%d' % (sn, x, d), lambda v, sl=sl, x=x, d=d: pair(v.st, sl(v), v.vals[x] + d)))
        return out
    E.templates.append(templates)
    outs = E.run(FI + {'triangles': 'TrianglesImageFunctions', 'polygons': 'PolygonsImageFunctions'}[kind], [img, bs, n], st.copy())
    for s, r in outs:
        E.oblige(s, 'post', 'n functions', r.len == n)
        E.oblige(s, 'post', 'functions k and l are of the image, and different', pair(s, r, r.len))
    E.need(outs, 'the constructor returns')
