"""C04: image conversion is faithful pixel by pixel."""
from gvc.core import *
from gvc.lib import *

RGB = MOD + 'color.RGB'


def image_model(E, st):
    """contract of the image.Image argument: At and RGBA are pure, channels are 16-bit"""
    at = z3.Function('image.At', IntS, IntS, IntS)
    ch = [z3.Function('RGBA.' + c, IntS, IntS) for c in 'RGBA']

    def At(E, st, recv, args):
        o = at(args[0], args[1])
        return [(st, IF(I(1), o, I(0)))]

    def RGBA(E, st, recv, args):
        vs = [f(recv.obj) for f in ch]
        for v in vs:
            st.assume(And(v >= 0, v <= 65535))
        return [(st, Tup(vs))]
    rect = E.p.typ('image.Rectangle')
    pt = E.p.typ('image.Point')
    lo = [E.sym(st, 'int', 'min' + c) for c in 'xy']
    wh = [E.sym(st, 'int', c) for c in 'wh']
    for x in lo:
        st.assume(And(x >= -2 ** 40, x <= 2 ** 40))
    for x in wh:
        st.assume(And(x >= 0, x <= 2 ** 40))
    mn = ST([lo[0], lo[1]], pt)
    mx = ST([z3.simplify(lo[0] + wh[0]), z3.simplify(lo[1] + wh[1])], pt)
    E.invokes[('image.Image', 'Bounds')] = lambda E, st, r, a: [(st, ST([mn, mx], rect))]
    E.invokes[('image.Image', 'At')] = At
    E.invokes[('image/color.Color', 'RGBA')] = RGBA
    xy = {'Min': lo, 'Max': [mx.vals[0], mx.vals[1]]}
    fld = lambda r, p, c: sub(E, None, sub(E, None, r, rect, p), pt, c)
    E.externs['(image.Rectangle).Dx'] = lambda E, st, a, ins: z3.simplify(fld(a[0], 'Max', 'X') - fld(a[0], 'Min', 'X'))
    E.externs['(image.Rectangle).Dy'] = lambda E, st, a, ins: z3.simplify(fld(a[0], 'Max', 'Y') - fld(a[0], 'Min', 'Y'))
    E.externs['(image.Rectangle).Size'] = lambda E, st, a, ins: ST([z3.simplify(fld(a[0], 'Max', c) - fld(a[0], 'Min', c)) for c in 'XY'], pt)
    return lo, wh, lambda x, y: [f(at(x, y)) for f in ch[:3]]


def templates(x0, y0, done, zero):
    def t(E, ctx):
        out = []
        for sn, g in slices_of(ctx, '[]' + RGB):
            def val(v, g=g):
                row = elem(E, v.st, g(v), y0, E.p.typ('[]' + RGB))
                return row, elem(E, v.st, row, x0, E.p.typ(RGB))

            def ok(v, g=g, val=val, pred=None):
                row, px = val(v)
                return Implies(y0 < g(v).len, pred(px))
            if done is not None:
                out += cell_done(ctx, x0, y0, lambda v, ok=ok: ok(v, pred=done), sn + ' pixel')
            for n in ctx.ints():
                for d in (0, 1):
                    out.append(('%s black<%s+%d' % (sn, n, d), lambda v, ok=ok, n=n, d=d: Or(y0 >= v.vals[n] + d, ok(v, pred=zero))))
        return out
    return t


def size_is(E, s, data, rt, wh):
    [(s, r)] = call_method(E, s, data, rt, 'Size', [])
    E.oblige(s, 'post', 'Size is the width and height', And(r.vals[0] == wh[0], r.vals[1] == wh[1]))
    return s


def to_data(E):
    st = State()
    lo, wh, rgb = image_model(E, st)
    x0, y0 = E.fresh('x0'), E.fresh('y0')
    st.assume(And(x0 >= 0, x0 < wh[0], y0 >= 0, y0 < wh[1]))
    ctor = MOD + 'image.ToData'
    rt = result_tid(E, ctor)
    src = rgb(z3.simplify(lo[0] + x0), z3.simplify(lo[1] + y0))
    want = []
    for v in src:
        st.assume(And(v >= 0, v <= 65535))
        want.append(E.fdiv(st, F(z3.ToReal(v / 256), FALSE, 255, True, v / 256), F(z3.RealVal(255), FALSE, 255, True, I(255)), False))
    eq = lambda a, b: And(Not(a.nan), a.v == b.v)
    done = lambda px: And(*[eq(px.vals[E.p.field(E.p.typ(RGB), c)], w) for c, w in zip('RGB', want)])
    zero = lambda px: And(*[And(Not(c.nan), c.v == 0) for c in px.vals])
    E.templates.append(templates(x0, y0, done, zero))
    E.univ.append(row_invariants(E, RGB))
    outs = E.run(ctor, [IF(I(10 ** 6), I(1), I(0))], st)
    res = []
    for s, data in outs:
        s = size_is(E, s, data, rt, wh)
        for s, px in call_method(E, s, data, rt, 'RGBAt', [x0, y0]):
            for c, w in zip('RGB', want):
                x = sub(E, s, px, E.p.typ(RGB), c)
                E.oblige(s, 'post', 'channel %s is the 8-bit value / 255' % c, eq(x, w))
                E.oblige(s, 'post', 'channel %s is in [0,1]' % c, And(x.v >= 0, x.v <= 1))
            res.append((s, px))
    E.need(res, 'ToData returns')


def new_data(E):
    st = State()
    wh = [E.sym(st, 'int', c) for c in 'wh']
    for x in wh:
        st.assume(And(x >= 0, x <= 2 ** 40))
    x0, y0 = E.fresh('x0'), E.fresh('y0')
    st.assume(And(x0 >= 0, x0 < wh[0], y0 >= 0, y0 < wh[1]))
    ctor = MOD + 'image.NewData'
    rt = result_tid(E, ctor)
    zero = lambda px: And(*[And(Not(c.nan), c.v == 0) for c in px.vals])
    E.templates.append(templates(x0, y0, None, zero))
    E.univ.append(row_invariants(E, RGB))
    res = []
    for s, data in E.run(ctor, wh, st):
        s = size_is(E, s, data, rt, wh)
        for s, px in call_method(E, s, data, rt, 'RGBAt', [x0, y0]):
            E.oblige(s, 'post', 'black everywhere', zero(px))
            res.append((s, px))
    E.need(res, 'NewData returns')


UNITS = [('image.ToData', to_data), ('image.NewData', new_data)]
HARNESS = [dict(name='image', pkg='image', package='image_test', files=['c04.go.txt'], run='TestVerifC04')]
ASSUMPTIONS = ['the image.Image argument is well formed (Min <= Max), pure, and its colour channels are 16-bit, as the image/color contract says']
LEVEL_NOTE = ('All obligations discharged for images of any size and origin, for an arbitrary fixed pixel; rows are proved pairwise distinct. '
              'Trusts gvc, the SSA front end, z3/cvc5 and the contract of the image.Image argument.')
