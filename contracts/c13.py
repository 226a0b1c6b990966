"""C13: block sums equal the sums of their pixels."""
from gvc.core import *
from gvc.lib import *

RGB = MOD + 'color.RGB'
PIX = MOD + 'fitness.pixel'
PIXN = MOD + 'fitness.pixelN'
CH = ('r', 'g', 'b', 'sq')
SQMAX = 196000


def image_model(E, st):
    """contract of the image.Data argument: Size and RGBAt are pure, channels in [0,1], RGBAt requires
    coordinates in range"""
    ch = [z3.Function('img.' + c, IntS, IntS, RealS) for c in 'RGB']
    wh = [E.sym(st, 'int', c) for c in 'wh']
    for x in wh:
        st.assume(And(x >= 0, x <= 2 ** 31))
    rgb = E.p.typ(RGB)

    def at(st, x, y):
        vs = [f(x, y) for f in ch]
        for v in vs:
            st.assume(And(v >= 0, v <= 1))
        return [F(v, FALSE, 1) for v in vs]

    def RGBAt(E, st, recv, a):
        E.oblige(st, 'pre', 'RGBAt is called inside the image', And(a[0] >= 0, a[0] < wh[0], a[1] >= 0, a[1] < wh[1]))
        return [(st, ST(at(st, a[0], a[1]), rgb))]
    E.invokes[(MOD + 'image.Data', 'RGBAt')] = RGBAt
    E.invokes[(MOD + 'image.Data', 'Size')] = lambda E, st, recv, a: [(st, Tup(list(wh)))]
    k = F(z3.RealVal(255), FALSE, 255, True, I(255))

    def spec(st, x, y):
        """the integers a pixel contributes"""
        c = at(st, x, y)
        m = lambda a, b: E.fmul(st, a, b, False)
        out = [E.f2i(st, m(v, k), 'uint32') for v in c]
        for o in out:
            st.assume(And(o >= 0, o <= 255))
        q = [m(m(m(v, k), v), k) for v in c]
        s = E.f2i(st, E.fadd(st, E.fadd(st, q[0], q[1], False), q[2], False), 'uint32')
        return out + [s]
    return wh, spec, IF(I(10 ** 6), I(1), I(0))


def pixels(E):
    st = State()
    wh, spec, img = image_model(E, st)
    x0, y0 = E.fresh('x0'), E.fresh('y0')
    st.assume(And(x0 >= 0, x0 < wh[0], y0 >= 0, y0 < wh[1]))
    want = spec(st, x0, y0)
    tid, row_t = E.p.typ(PIX), E.p.typ('[]' + PIX)
    fi = [E.p.field(tid, c) for c in CH]

    def templates(E, ctx):
        out = []
        for sn, g in slices_of(ctx, '[]' + PIX):
            def ok(v, g=g):
                px = elem(E, v.st, elem(E, v.st, g(v), y0, row_t), x0, tid)
                return Implies(y0 < g(v).len, And(*[px.vals[f] == w for f, w in zip(fi, want)]))
            out += cell_done(ctx, x0, y0, ok, sn + ' pixel')
        return out
    E.templates.append(templates)
    E.univ.append(row_invariants(E, PIX))
    fn = MOD + 'fitness.fromImage'
    rt = result_tid(E, fn)
    outs = E.run(fn, [img], st)
    for s, d in outs:
        rows = sub_path(d, struct_slices(E, rt, '[]' + PIX)[0][0])
        E.oblige(s, 'post', 'one row per image row', rows.len == wh[1])
        row = elem(E, s, rows, y0, row_t)
        E.oblige(s, 'post', 'one pixel per column', row.len == wh[0])
        px = elem(E, s, row, x0, tid)
        for c, f, w in zip(CH, fi, want):
            E.oblige(s, 'post', 'pixel value ' + c, px.vals[f] == w)
    E.need(outs, 'fromImage returns')


def blocks(E, ch):
    E.wrap_fresh = True
    st = State()
    wh, spec, img = image_model(E, st)
    n = E.sym(st, 'int', 'n')
    st.assume(And(n >= 1, n <= 128))
    x0, y0 = E.fresh('x0'), E.fresh('y0')
    st.assume(And(x0 >= 0, x0 <= wh[0] - n, y0 >= 0, y0 <= wh[1] - n))
    tid, row_t = E.p.typ(PIXN), E.p.typ('[]' + PIXN)
    fi = [E.p.field(tid, CH[ch])]
    # D_c(i,j): the sum over columns x0..x0+i-1 and rows y0..y0+j-1, by its defining equations
    D = [z3.Function('D_' + CH[ch], IntS, IntS, IntS)]

    def define(st, i, j):
        """the defining equation of D at (i+1, j+1), and its borders"""
        p = spec(st, z3.simplify(x0 + i), z3.simplify(y0 + j))[ch:ch + 1]
        for d, x in zip(D, p):
            st.assume(Implies(And(i >= 0, j >= 0), d(i + 1, j + 1) == d(i + 1, j) + d(i, j + 1) - d(i, j) + x))
        border(st, i, j)

    def border(st, i, j):
        for d in D:
            for a in (i, z3.simplify(i + 1)):
                st.assume(d(a, I(0)) == 0)
            for b in (j, z3.simplify(j + 1)):
                st.assume(d(I(0), b) == 0)
            st.assume(d(I(0), n) == 0)
            st.assume(d(n, I(0)) == 0)
    border(st, I(0), I(0))
    orig = E.invokes[(MOD + 'image.Data', 'RGBAt')]

    def RGBAt(E, st, recv, a):
        define(st, z3.simplify(a[0] - x0), z3.simplify(a[1] - y0))
        return orig(E, st, recv, a)
    E.invokes[(MOD + 'image.Data', 'RGBAt')] = RGBAt
    total = [d(n, n) for d in D]

    def templates(E, ctx):
        out = []
        outer = outer_ints(ctx)[-2:]
        ints = [(m, lambda w, m=m: w.vals[m]) for m in ctx.ints()] + outer_ints(ctx, True)
        for sn, g in slices_of(ctx, '[]' + PIXN):
            def cell(v, g=g):
                row = elem(E, v.st, g(v), y0, row_t)
                return row, [elem(E, v.st, row, x0, tid).vals[f] for f in fi]
            inside = lambda v, g=g: y0 < g(v).len
            done = lambda v, cell=cell, inside=inside: Implies(inside(v), And(*[a == b for a, b in zip(cell(v)[1], total)]))
            zero = lambda v, cell=cell, inside=inside: Implies(inside(v), And(*[a == 0 for a in cell(v)[1]]))
            ptrs = [(pn, p) for pn, p in ctx.live.items() if isinstance(p, P) and p.root == PIXN and p.path == () and pn not in ctx.phi_t]
            if not ptrs:
                for m in ctx.ints():
                    for d in (0, 1):
                        out.append(('%s made: y<%s+%d zero' % (sn, m, d), lambda v, m=m, d=d, zero=zero: Or(y0 >= v.vals[m] + d, zero(v))))
                        for q, o, qn in ((x0, y0, 'x'), (y0, x0, 'y')):
                            out.append(('%s zero: %s<%s+%d' % (sn, qn, m, d), lambda v, q=q, m=m, d=d, zero=zero: Or(q < v.vals[m] + d, zero(v))))
                            out.append(('%s done: %s>=%s+%d' % (sn, qn, m, d), lambda v, q=q, m=m, d=d, done=done: Or(q >= v.vals[m] + d, done(v))))
                            for rn, r in outer_ints(ctx, True):
                                out.append(('%s zero: row %s, %s<%s+%d' % (sn, rn, qn, m, d), lambda v, q=q, o=o, r=r, m=m, d=d, zero=zero: Or(r(v) != o, q < v.vals[m] + d, zero(v))))
                                out.append(('%s done: row %s, %s>=%s+%d' % (sn, rn, qn, m, d), lambda v, q=q, o=o, r=r, m=m, d=d, done=done: Or(r(v) != o, q >= v.vals[m] + d, done(v))))
                for rn, r in outer_ints(ctx, True):
                    for o, on in ((x0, 'x'), (y0, 'y')):
                        out.append(('%s kept unless %s=%s' % (sn, on, rn), lambda v, r=r, o=o, cell=cell, inside=inside: Implies(And(inside(v), r(v) != o), And(*[a == b for a, b in zip(cell(v)[1], cell(v.entry)[1])]))))
            # the loops over one block: the pointer to the current block
            for pn, p in ptrs[:2]:

                def at(v, cell=cell, p=p):
                    row, vals = cell(v)
                    return And(p.obj == row.obj, p.idx == row.off + x0), vals
                out.append(('%s other blocks kept (%s)' % (sn, pn), lambda v, at=at, cell=cell, inside=inside: Implies(And(inside(v), Not(at(v)[0])), And(*[a == b for a, b in zip(cell(v)[1], cell(v.entry)[1])]))))
                at_inside = lambda v, at=at, inside=inside: And(inside(v), at(v)[0])
                for a in ctx.ints():
                    for ci, c in ((0, CH[ch]),):
                        d = D[ci]
                        cur = lambda v, at=at, ci=ci: at(v)[1][ci]
                        nm = '%s %s %s ' % (sn, pn, c)
                        out.append((nm + 'cur<=%s' % a, lambda v, a=a, cur=cur, g=at_inside: Implies(g(v), And(cur(v) >= 0, cur(v) <= SQMAX * 128 * v.vals[a]))))
                        for sw in (0, 1):
                            sum_ = lambda i, j, sw=sw, d=d: d(j, i) if sw else d(i, j)
                            out.append((nm + 'outer sum %s %d' % (a, sw), lambda v, a=a, cur=cur, g=at_inside, sum_=sum_: border(v.st, v.vals[a], v.vals[a]) or Implies(g(v), cur(v) == sum_(v.vals[a], n))))
                        for bn, b in outer:
                            out.append((nm + 'cur<=%s,%s' % (a, bn), lambda v, a=a, b=b, cur=cur, g=at_inside: Implies(g(v), And(cur(v) >= 0, cur(v) <= SQMAX * 128 * b(v) + SQMAX * v.vals[a]))))
                            for sw in (0, 1):
                                sum_ = lambda i, j, sw=sw, d=d: d(j, i) if sw else d(i, j)
                                out.append((nm + 'inner sum %s %s %d' % (a, bn, sw), lambda v, a=a, b=b, cur=cur, g=at_inside, sum_=sum_: border(v.st, b(v), v.vals[a]) or border(v.st, v.vals[a], b(v)) or Implies(g(v), cur(v) == sum_(b(v), n) + sum_(b(v) + 1, v.vals[a]) - sum_(b(v), v.vals[a]))))
        return out
    E.templates.append(templates)
    E.univ.append(row_invariants(E, PIXN, lens=[('w-n+1', lambda v: wh[0] - n + 1)]))
    fn = MOD + 'fitness.fromImageN'
    rt = result_tid(E, fn)
    outs = E.run(fn, [img, n], st)
    for s, d in outs:
        rows = sub_path(d, struct_slices(E, rt, '[]' + PIXN)[0][0])
        E.oblige(s, 'post', 'one row for each position', rows.len == wh[1] - n + 1)
        row = elem(E, s, rows, y0, row_t)
        E.oblige(s, 'post', 'one block for each position in a row', row.len == wh[0] - n + 1)
        px = elem(E, s, row, x0, tid)
        for c, f, w in zip(CH[ch:ch + 1], fi, total):
            E.oblige(s, 'post', 'block sum ' + c, px.vals[f] == w)
    E.need(outs, 'fromImageN returns')


def small(E):
    st = State()
    wh, spec, img = image_model(E, st)
    n = E.sym(st, 'int', 'n')
    st.assume(And(n >= 1, Or(n > wh[0], n > wh[1])))
    outs = E.run(MOD + 'fitness.fromImageN', [img, n], st)
    E.need(outs, 'fromImageN returns on an image smaller than a block')


UNITS = [('fitness.fromImage', pixels)] + [('fitness.fromImageN ' + c, lambda E, i=i: blocks(E, i)) for i, c in enumerate(CH)] + [('fitness.fromImageN on small images', small)]
ASSUMPTIONS = ['the image.Data argument is pure with channels in [0,1] and the size it reports is at most 2^31 a side', 'block sizes 1..128 (uint32 sums)']
HARNESS = [dict(name='fitness', pkg='fitness', package='fitness', files=['c13.go.txt'], run='TestVerifC13')]
LEVEL_NOTE = ('All obligations discharged for images and blocks of any size up to the stated bounds, for an arbitrary fixed pixel or block: the double sum is specified by its '
              'recursive definition, and the nested loops are proved to compute it in either order. Trusts gvc, the SSA front end, z3/cvc5 and the contract of the image.Data argument.')
