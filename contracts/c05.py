"""C05: rendering colours every shape with its mean pixel colour."""
from gvc.core import *
from gvc.lib import *

GP = MOD + 'geom.Point'
GT = MOD + 'geom.Triangle'
GPOLY = MOD + 'geom.Polygon'
NP = MOD + 'normgeom.NormPoint'
NPOLY = MOD + 'normgeom.NormPolygon'
RGB = MOD + 'color.RGB'
R_ = MOD + 'render.'
U = 2 ** 64
CH = 'RGB'


class Image:
    """contract of the image.Data argument: Size and RGBAt are pure; RGBAt is asked for pixels of the image only"""

    def __init__(s, E, st):
        s.E = E
        s.wh = [E.sym(st, 'int', c) for c in 'wh']
        for x in s.wh:
            st.assume(And(x >= 1, x <= 2 ** 31))
        s.ch = [z3.Function('image.' + c, IntS, IntS, RealS) for c in CH]
        E.invokes[(MOD + 'image.Data', 'Size')] = lambda E, st, recv, a: [(st, Tup(list(s.wh)))]
        E.invokes[(MOD + 'image.Data', 'RGBAt')] = s.at

    def at(s, E, st, recv, a):
        E.oblige(st, 'safe', 'the pixel asked for is in the image', And(a[0] >= 0, a[0] < s.wh[0], a[1] >= 0, a[1] < s.wh[1]))
        return [(st, ST(s.colour(st, *a), E.p.typ(RGB)))]

    def colour(s, st, x, y):
        out = [F(f(x, y), FALSE, 1) for f in s.ch]
        for c in out:
            st.assume(And(c.v >= 0, c.v <= 1))
        return out


class Sums:
    """the colour sums over the pixels of a triangle, in rasterising order, by recursion: FS(c, a, n) is a
    plus the first n pixels of the triangle with coordinates c; N(c) is the number of pixels"""

    def __init__(s, E, im):
        s.E, s.im = E, im
        s.FS = [z3.Function('sum' + c, *([IntS] * 6 + [RealS, IntS, RealS])) for c in CH]
        s.N = z3.Function('pixels', *([IntS] * 7))
        s.PX = [z3.Function('pixel' + c, *([IntS] * 7 + [IntS])) for c in 'XY']

    def pixel(s, st, c, n):
        """the n-th pixel of the triangle, which C07 puts in its bounding box"""
        E, w = s.E, s.im.wh
        out = [f(*(c + [n])) for f in s.PX]
        for x, vs in zip(out, (c[0::2], c[1::2])):
            st.assume(Implies(And(n >= 0, n < s.N(*c)), And(Or(*[v <= x for v in vs]), Or(*[x < v for v in vs]))))
        return out

    def sum(s, st, k, c, a, n):
        """FS, with its definition for the next pixel and for no pixel"""
        f = lambda m: s.FS[k](*(c + [a, m]))
        st.assume(f(I(0)) == a)
        col = s.im.colour(st, *s.pixel(st, c, n))[k]
        nxt = s.E.fbin('+', F(f(n), FALSE), col, st, 'float64')
        st.assume(Implies(And(n >= 0, n < s.N(*c)), f(z3.simplify(n + 1)) == nxt.v))
        return f(n)

    def total(s, c, accs):
        return [f(*(c + [a, s.N(*c)])) for f, a in zip(s.FS, accs)]


def coords(E, st, tri):
    pts = sub(E, st, tri, E.p.typ(GT), 'Points')
    return [v for p in pts.vals for v in p.vals]


def rasterizer(E, sums):
    """contract of rasterize.DDATriangle: the callback is called once for each pixel of the triangle
    (which pixels these are is the subject of C06 and C07)"""
    stack = []

    def dda(E, st, args):
        c = coords(E, st, args[0])
        n = sums.N(*c)
        st.assume(And(n >= 0, n <= 2 ** 62))
        s0 = st.copy()
        s0.ghost['np'] = I(0)
        E.pixel_loop = getattr(E, 'pixel_loop', [])
        E.pixel_loop.append((c, n))

        def body(E, s):
            np_ = s.ghost['np']
            s.assume(np_ < n)
            x, y = sums.pixel(s, c, np_)
            out = []
            for s2, r in E.call_value(None, s, args[1], [x, y], {}):
                s2.ghost['np'] = z3.simplify(np_ + 1)
                out.append(s2)
            return out
        tag = len(st.trail)
        outs = E.abstract_loop(s0, 'the pixels', body)
        E.pixel_loop.pop()
        res = []
        for s in outs:
            s.assume(s.ghost['np'] == n)
            s.trail += (('pixels', len(E.pixel_loop), tag),)
            res.append((s, None))
        return res
    E.summaries[MOD + 'rasterize.DDATriangle'] = dda


def float_cells(E, ctx):
    """getters for the floats and counters in captured or address-taken variables"""
    fs, ns = [], []
    for ci, (p, tid) in enumerate(ctx.entry_st.cells):
        stack = [((), tid)]
        while stack:
            path, t = stack.pop()
            u = E.p.ut(t)
            if u['k'] == 'struct':
                stack += [(path + (i,), f['t']) for i, f in enumerate(u['f'])]
            elif u['k'] == 'basic' and u['name'] in ('float64', 'int', 'uint', 'uint64', 'int64'):
                g = lambda v, p=p, path=path, t=t: E.load(v.st, P(p.obj, p.idx, p.root, p.path + path, None, True), t)
                name = 'cell%d%s' % (ci, path)
                (fs if u['name'] == 'float64' else ns).append((name, g))
    return fs, ns


def pixel_templates(sums):
    def t(E, ctx):
        out = []
        if ctx.name != 'the pixels' or not getattr(E, 'pixel_loop', None):
            return out
        c, n = E.pixel_loop[-1]
        fs, ns = float_cells(E, ctx)
        for name, g in fs:
            for k in range(3):
                out.append(('%s = sum%s' % (name, CH[k]), lambda v, g=g, k=k: And(Not(g(v).nan), g(v).v == sums.sum(v.st, k, c, g(v.entry).v, v.ghost('np')))))
        for name, g in ns:
            out.append(('%s counts' % name, lambda v, g=g: Or(g(v.entry) > 2 ** 62, g(v) == g(v.entry) + v.ghost('np'))))
        out.append(('np >= 0', lambda v: And(v.ghost('np') >= 0, v.ghost('np') <= n)))
        return out
    return t


def shape_index(E):
    """what the number of the current shape may be: a variable of the outermost loop, or one more"""
    out = []
    for loop, hv in E.loop_stack[:1]:
        for n, x in hv.items():
            if z3.is_expr(x) and z3.is_int(x):
                out += [(n, lambda v, x=x: x), (n + '+1', lambda v, x=x: x + 1)]
    return out


def norm(E, st, p, wh):
    """x/w, y/h"""
    return [E.fbin('/', E.i2f(st, a, 'int'), E.i2f(st, b, 'int'), st, 'float64') for a, b in zip(p, wh)]


def same(a, b):
    return And(a.nan == b.nan, Or(a.nan, a.v == b.v))


def mean(E, st, total, count):
    n = E.i2f(st, count, 'uint')
    return [E.fbin('/', F(t, FALSE), n, st, 'float64') for t in total]


def triangles(E):
    st = State()
    im = Image(E, st)
    sums = Sums(E, im)
    w, h = im.wh
    tris = E.sym(st, '[]' + GT, 'triangles')
    img = E.sym(st, MOD + 'image.Data', 'image')
    k = E.fresh('k')
    st.assume(And(img.tag != 0, k >= 0, k < tris.len))
    rasterizer(E, sums)
    tt, pt = E.p.typ(GT), E.p.typ(GP)
    inside(E, tris, GT, im)
    c = coords(E, st, elem(E, st, tris, k, tt))
    n = sums.N(*c)
    st.assume(And(n >= 0, n <= 2 ** 62))
    zero = [R(0)] * 3
    tot = sums.total(c, zero)
    # the sums over the vertices clamped to the last column and row
    VF = [z3.Function('vertices' + x, IntS, RealS) for x in CH]
    for f in VF:
        st.assume(f(I(0)) == 0)
    for j in range(3):
        col = im.colour(st, If(c[2 * j] < w - 1, c[2 * j], w - 1), If(c[2 * j + 1] < h - 1, c[2 * j + 1], h - 1))
        for f, x in zip(VF, col):
            st.assume(f(I(j + 1)) == E.fbin('+', F(f(I(j)), FALSE), x, st, 'float64').v)
    vertices = [norm(E, st, c[2 * j:2 * j + 2], im.wh) for j in range(3)]
    m1 = mean(E, st, tot, n)
    m0 = mean(E, st, [f(I(3)) for f in VF], I(3))
    colour = [F(If(n == 0, a.v, b.v), If(n == 0, a.nan, b.nan)) for a, b in zip(m0, m1)]
    TD = E.p.typ(R_ + 'TriangleData')

    def parts(v, g):
        e = elem(E, v.st, g(v), k, TD)
        tri = sub(E, st, sub(E, st, e, TD, 'Triangle'), E.p.typ(MOD + 'normgeom.NormTriangle'), 'Points')
        return [('vertex %d' % j, And(*[same(a, b) for a, b in zip(tri.vals[j].vals, vertices[j])])) for j in range(3)] \
            + [('colour %s' % x, same(a, b)) for x, a, b in zip(CH, sub(E, st, e, TD, 'Color').vals, colour)]

    def templates(E, ctx):
        out = []
        for sn, g in slices_of(ctx, R_ + 'TriangleData'):
            for i in range(6):
                for m in ctx.ints():
                    for d in (0, 1):
                        out.append(('%s entry<%s+%d part %d' % (sn, m, d, i), lambda v, g=g, m=m, d=d, i=i: Or(k >= v.vals[m] + d, parts(v, g)[i][1])))
                out.append(('%s part %d stays' % (sn, i), lambda v, g=g, i=i: Implies(parts(v.entry, g)[i][1], parts(v, g)[i][1])))
        if ctx.name != 'the pixels':
            fs, ns = float_cells(E, ctx)
            outer = shape_index(E)
            for on, og in outer:
                for m in ctx.ints():
                    for d in (0, 1):
                        for name, g in fs:
                            for j in range(3):
                                out.append(('%s=%s: %s = vertices%s %s+%d' % (on, 'k', name, CH[j], m, d),
                                            lambda v, og=og, g=g, j=j, m=m, d=d: Or(og(v) != k, And(Not(g(v).nan), g(v).v == VF[j](v.vals[m] + d)))))
                        for name, g in ns:
                            out.append(('%s=%s: %s = %s+%d' % (on, 'k', name, m, d), lambda v, og=og, g=g, m=m, d=d: Or(og(v) != k, g(v) == v.vals[m] + d)))
        return out
    E.templates += [pixel_templates(sums), templates]
    outs = E.run(R_ + 'TrianglesOnImage', [tris, img], st)
    for s, r in outs:
        E.oblige(s, 'post', 'one entry for each triangle', r.len == tris.len)
        v = View(s, {})
        for name, f in parts(v, lambda v: r):
            E.oblige(s, 'post', 'the %s of entry k' % name, f)
        now = coords(E, s, elem(E, s, tris, k, tt))
        E.oblige(s, 'post', 'the input triangle is unchanged', And(*[a == b for a, b in zip(now, c)]))
    E.need(outs, 'TrianglesOnImage returns')


def inside(E, sl, root, im):
    """the vertices lie in the image (borders included)"""
    w, h = im.wh
    ptid, gt = E.p.typ(GP), E.p.typ(GT)

    def hook(E, st, node, obj, idx, v):
        if node.key[0] == root and node.key[2] == 'i' and node.stage == 0:
            lim = w if node.key[1][-1] == E.p.field(ptid, 'X') else h
            return [And(v >= 0, v <= lim)]
    E.base_hooks.append(hook)


def polygons(E):
    st = State()
    im = Image(E, st)
    sums = Sums(E, im)
    w, h = im.wh
    polys = E.sym(st, '[]' + GPOLY, 'polygons')
    img = E.sym(st, MOD + 'image.Data', 'image')
    k, j = E.fresh('k'), E.fresh('j')
    st.assume(And(img.tag != 0, k >= 0, k < polys.len, j >= 0))
    rasterizer(E, sums)
    gt, pt, npt = E.p.typ(GPOLY), E.p.typ(GP), E.p.typ(NP)
    inside(E, polys, GP, im)
    zero = R(0)
    s0 = st                      # the state in which the input is as given
    pk = sub(E, st, elem(E, st, polys, k, gt), gt, 'Points')
    st.assume(And(j < pk.len, pk.len <= 2 ** 30))
    init = st.copy()
    point = lambda st, i: elem(E, init.shadow(st), pk, i, pt).vals
    PF = [z3.Function('fan' + x, IntS, RealS) for x in CH]          # the sums over the first triangles of the fan
    PC = z3.Function('fan pixels', IntS, IntS)
    VF = [z3.Function('vertices' + x, IntS, RealS) for x in CH]     # the sums over the first vertices

    def define_fan(st, m):
        """the m-th triangle of the fan"""
        st.assume(And(*[f(I(0)) == 0 for f in PF] + [PC(I(0)) == 0]))
        c = [v for i in (m + 2, m + 1, I(0)) for v in point(st, z3.simplify(i))]
        n = sums.N(*c)
        ok = And(m >= 0, m + 2 < pk.len)
        m1 = z3.simplify(m + 1)
        st.assume(And(n >= 0, n <= 2 ** 26))
        st.assume(Implies(ok, PC(m1) == PC(m) + n))
        for f, g in zip(PF, sums.FS):
            st.assume(Implies(ok, f(m1) == g(*(c + [f(m), n]))))
            st.assume(g(*(c + [f(m), I(0)])) == f(m))

    def define_vertex(st, m):
        st.assume(And(*[f(I(0)) == 0 for f in VF]))
        x, y = point(st, m)
        col = im.colour(st, If(x < w - 1, x, w - 1), If(y < h - 1, y, h - 1))
        m1 = z3.simplify(m + 1)
        for f, g in zip(VF, col):
            st.assume(Implies(And(m >= 0, m < pk.len), f(m1) == E.fbin('+', F(f(m), FALSE), g, st, 'float64').v))

    vert = norm(E, st, point(st, j), im.wh)
    fan = z3.simplify(If(pk.len > 2, pk.len - 2, I(0)))
    define_fan(st, I(0))
    define_vertex(st, I(0))
    cnt = PC(fan)
    m1 = mean(E, st, [f(fan) for f in PF], cnt)
    m0 = mean(E, st, [f(pk.len) for f in VF], pk.len)
    colour = [F(If(cnt == 0, a.v, b.v), If(cnt == 0, a.nan, b.nan)) for a, b in zip(m0, m1)]
    PD = E.p.typ(R_ + 'PolygonData')

    def out_points(v, g):
        e = elem(E, v.st, g(v), k, PD)
        return sub(E, st, sub(E, st, e, PD, 'Polygon'), E.p.typ(NPOLY), 'Points'), e

    def parts(v, g):
        p, e = out_points(v, g)
        q = elem(E, v.st, p, j, npt)
        return [('number of vertices', p.len == pk.len), ('vertex j', And(*[same(a, b) for a, b in zip(q.vals, vert)]))] \
            + [('colour %s' % x, same(a, b)) for x, a, b in zip(CH, sub(E, st, e, PD, 'Color').vals, colour)]

    def templates(E, ctx):
        out = []
        for sn, g in slices_of(ctx, R_ + 'PolygonData'):
            for m in ctx.ints():
                for d in (0, 1):
                    for i in range(5):
                        out.append(('%s entry<%s+%d part %d' % (sn, m, d, i), lambda v, g=g, m=m, d=d, i=i: Or(k >= v.vals[m] + d, parts(v, g)[i][1])))
                    out.append(('%s entry<%s+%d old' % (sn, m, d), lambda v, g=g, m=m, d=d: Or(k >= v.vals[m] + d, out_points(v, g)[0].obj < v.st.nxt)))
                    out.append(('%s entry<%s+%d older' % (sn, m, d), lambda v, g=g, m=m, d=d: Or(k >= v.vals[m] + d, out_points(v, g)[0].obj < v.entry.st.nxt)))
            for i in range(5):
                out.append(('%s part %d stays' % (sn, i), lambda v, g=g, i=i: Implies(parts(v.entry, g)[i][1], parts(v, g)[i][1])))
        if ctx.name == 'the pixels':
            return out
        fs, ns = float_cells(E, ctx)
        outer = shape_index(E)
        for on, og in outer:
            here = lambda v, og=og: og(v) == k
            for m in ctx.ints():
                for name, g in fs:
                    for i in range(3):
                        for d in (0, 1):
                            ix = lambda v, m=m, d=d: z3.simplify(v.vals[m] + d)
                            out.append(('%s=k: %s = vertices%s %s+%d' % (on, name, CH[i], m, d),
                                        lambda v, here=here, g=g, i=i, ix=ix: define_vertex(v.st, ix(v)) or Or(Not(here(v)), And(Not(g(v).nan), g(v).v == VF[i](ix(v))))))
                        for d in (0, 1, 2):
                            ix = lambda v, m=m, d=d: z3.simplify(v.vals[m] - d)
                            out.append(('%s=k: %s = fan%s %s-%d' % (on, name, CH[i], m, d),
                                        lambda v, here=here, g=g, i=i, ix=ix: define_fan(v.st, ix(v)) or Or(Not(here(v)), And(Not(g(v).nan), g(v).v == PF[i](ix(v))))))
                for name, g in ns:
                    for d in (0, 1):
                        out.append(('%s=k: %s = %s+%d' % (on, name, m, d), lambda v, here=here, g=g, m=m, d=d: Or(Not(here(v)), g(v) == v.vals[m] + d)))
                    for d in (0, 1, 2):
                        out.append(('%s=k: %s = fan pixels %s-%d' % (on, name, m, d), lambda v, here=here, g=g, m=m, d=d: Or(Not(here(v)), g(v) == PC(z3.simplify(v.vals[m] - d)))))
                        for i in range(3):
                            out.append(('%s=k: no fan pixels %s-%d, no fan%s' % (on, m, d, CH[i]), lambda v, here=here, m=m, d=d, i=i: Or(Not(here(v)), PC(z3.simplify(v.vals[m] - d)) > 0, PF[i](z3.simplify(v.vals[m] - d)) == 0)))
                        out.append(('%s=k: fan pixels %s-%d bound' % (on, m, d), lambda v, here=here, g=g, m=m, d=d: Or(Not(here(v)), And(PC(z3.simplify(v.vals[m] - d)) >= 0, PC(z3.simplify(v.vals[m] - d)) <= 2 ** 26 * (v.vals[m] - d)))))
                for sn, g in slices_of(ctx, NP):
                    for d in (0, 1):
                        out.append(('%s=k: %s vertex<%s+%d' % (on, sn, m, d), lambda v, here=here, g=g, m=m, d=d:
                                    Or(Not(here(v)), j >= v.vals[m] + d, And(*[same(a, b) for a, b in zip(elem(E, v.st, g(v), j, npt).vals, vert)]))))
        return out
    E.templates += [pixel_templates(sums), templates]
    outs = E.run(R_ + 'PolygonsOnImage', [polys, img], st)
    for s, r in outs:
        E.oblige(s, 'post', 'one entry for each polygon', r.len == polys.len)
        v = View(s, {})
        for name, f in parts(v, lambda v: r):
            E.oblige(s, 'post', 'the %s of entry k' % name, f)
        now = sub(E, s, elem(E, s, polys, k, gt), gt, 'Points')
        E.oblige(s, 'post', 'the input polygon is unchanged', And(now.obj == pk.obj, now.off == pk.off, now.len == pk.len, *[a == b for a, b in zip(elem(E, s, now, j, pt).vals, point(s, j))]))
    E.need(outs, 'PolygonsOnImage returns')


UNITS = [('render.TrianglesOnImage', triangles), ('render.PolygonsOnImage', polygons)]
HARNESS = [dict(name='renderer', pkg='render', package='render_test', files=['c05.go.txt'], run='TestVerifC05')]
ASSUMPTIONS = ['images of 1 to 2^31 pixels a side; polygons of 1 to 2^30 vertices, each vertex within the image (its right and bottom border included)',
               'rasterize.DDATriangle is replaced by its contract at the call sites: the callback is called once for each pixel of the triangle, at most 2^26 of them for a triangle of a polygon, each within the bounding box (which pixels, and that they are the same for any order of the vertices, is the subject of C06 and C07)',
               'image.Data: Size and RGBAt are pure, channels are in [0,1]',
               'the mean is the sum in floating point, in rasterising order, divided by the number of pixels']
LEVEL_NOTE = ('Every obligation of TrianglesOnImage and PolygonsOnImage, with AverageRGB, ToNorm and min run through, is discharged for all lists of shapes and images (an arbitrary shape and vertex), with the sums over pixels, fans and vertices defined by recursion. '
              'Trusts the verifier gvc, the SSA front end, z3/cvc5 and the rasteriser contract at the call sites. A bounded run of the real code looks for failing inputs.')
