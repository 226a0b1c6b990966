"""C03: copies and Set are exact and share no storage."""
import itertools
from gvc.core import *
from gvc.lib import *

PK = MOD + 'triangulation/incrdelaunay.'
NP = MOD + 'normgeom.NormPoint'
NG = MOD + 'normgeom.NormPointGroup'
DL, GR, PM, QM, IV = (PK + n for n in ('Delaunay', 'CircumcircleGrid', 'pointMap', 'polygonMap', 'IVoronoi'))
side = z3.Function('side of storage', IntS, IntS)          # 1: the receiver's, 2: the source's
o1 = z3.Function('first index of storage', IntS, IntS)
o2 = z3.Function('second index of storage', IntS, IntS)


def equal(E, st, tid, a, b):
    return And(*[x == y for x, y in zip(E.flat(a, tid), E.flat(b, tid))])


def whole(E, st, s, i, root):
    return elem(E, st, s, i, E.p.typ(root))


def group(E, method):
    st = State()
    p = E.sym(st, NG, 'p')
    other = E.sym(st, NG, 'other')
    j = E.fresh('j')
    st.assume(And(j >= 0, Or(p.obj != other.obj, p.cap == 0, other.cap == 0)))
    init = st.copy()
    at = lambda s, g: whole(E, s, g, j, NP)
    same_as = lambda s, g, h: equal(E, s, E.p.typ(NP), at(s, g), at(init.shadow(s), h))

    def templates(E, ctx):
        out = []
        for sn, g in slices_of(ctx, NP):
            for n in ctx.ints():
                for d in (0, 1):
                    for src in (p, other):
                        out.append(('%s set<%s+%d %s' % (sn, n, d, src is p), lambda v, g=g, n=n, d=d, src=src: Or(j >= v.vals[n] + d, j >= g(v).len, same_as(v.st, g(v), src))))
        return out
    E.templates.append(templates)
    if method == 'Copy':
        nxt = st.nxt
        outs = E.run(method_fn(E, E.p.typ(NG), 'Copy'), [p], st)
        for s, r in outs:
            E.oblige(s, 'post', 'the copy has as many points', r.len == p.len)
            s.assume(j < p.len)
            E.oblige(s, 'post', 'every point is copied', same_as(s, r, p))
            E.oblige(s, 'post', 'the copy has storage of its own', r.obj >= nxt)
            E.oblige(s, 'frame', 'the source keeps its points', same_as(s, p, p))
        E.need(outs, 'Copy returns')
    elif method == 'Set':
        st.assume(p.len == other.len)
        outs = E.run(method_fn(E, E.p.typ(NG), 'Set'), [p, other], st)
        for s, r in outs:
            s.assume(j < p.len)
            E.oblige(s, 'post', 'every point is set', same_as(s, p, other))
            E.oblige(s, 'frame', 'the source keeps its points', same_as(s, other, other))
        E.need(outs, 'Set returns')
    else:
        st.assume(p.len != other.len)
        seen = []

        def panicking(E, s, f, ins):
            seen.append((s.copy(), None))
            s2 = s.copy()
            for g in (p, other):
                s3 = s2.copy()
                s3.assume(j < g.len)
                E.oblige(s3, 'post', 'nothing is changed before the panic', same_as(s3, g, g))
            return TRUE
        E.allow_panic = panicking
        outs = E.run(method_fn(E, E.p.typ(NG), 'Set'), [p, other], st)
        for s, r in outs:
            E.oblige(s, 'post', 'setting from a group of another length panics', FALSE)
        E.need(seen, 'Set from a group of another length panics')


class Pair:
    """a receiver and a source table [][]T (or [][][]T), every row (cell) with storage of its own, the
    receiver's apart from the source's; seen at an arbitrary row b (cell b, c) and element j"""

    def __init__(t, E, st, root, elem_root, deep):
        t.E, t.deep, t.er = E, deep, elem_root
        t.rt = '[]' + elem_root                 # the type of a row (cell) slice
        t.ct = '[]' + t.rt                      # of a column (deep) or of the table
        t.tid = E.p.typ(root)
        t.root = root
        t.ptr, t.tab, t.n = [], [], []
        top = t.ct if deep else t.rt
        for i, name in enumerate(('receiver', 'source')):
            v = E.sym(st, t.tid, name)
            p = E.new(st, t.tid)
            E.store(st, p, v, t.tid)
            (t.path, _), = struct_slices(E, t.tid, top)
            t.ptr.append(p)
            t.tab.append(sub_path(v, t.path))
        a, b = t.tab
        st.assume(And(a.len == b.len, a.len >= 1, a.obj != b.obj, a.cap > 0, b.cap > 0))
        t.rows = E.fresh('rows')
        st.assume(And(t.rows >= 1, t.rows <= 2 ** 20))
        t.b, t.c, t.b2, t.c2, t.j = (E.fresh(n) for n in ('b', 'c', 'b2', 'c2', 'j'))
        for x in (t.b, t.b2):
            st.assume(And(x >= 0, x < a.len))
        for x in (t.c, t.c2):
            st.assume(And(x >= 0, x < t.rows) if deep else x == 0)
        st.assume(t.j >= 0)
        t.nxt0 = st.nxt
        t.st0 = st.copy()
        t.busy = set()
        t.depth = 0
        E.base_hooks.append(t.facts)
        E.region_preds.append((lambda key: key[0] in (t.rt, t.er) + ((t.ct,) if deep else ()), 'the receiver\'s', lambda o: Or(side(o) == 1, o >= t.nxt0)))
        # a slice without capacity has no storage, and counts as the receiver's
        st.assume(And(side(I(0)) == 1, side(a.obj) == 1, side(b.obj) == 2))
        t.st0 = st.copy()

    def table(t, st, k):
        return sub_path(t.E.load(st, t.ptr[k], t.tid), t.path)

    def cell(t, st, k, b, c):
        r = elem(t.E, st, t.table(st, k), b, t.E.p.typ(t.ct if t.deep else t.rt))
        return elem(t.E, st, r, c, t.E.p.typ(t.rt)) if t.deep else r

    def facts(t, E, st, node, obj, idx, v):
        """the representation invariant of the state before, instantiated wherever its memory is read"""
        if node.stage != 0 or node.key[2] != 'so' or node.key[0] not in ((t.ct, t.rt) if t.deep else (t.rt,)) or node.key[1] != ():
            return []
        k0 = node.key[0]
        if k0 in t.busy:
            return []
        t.busy.add(k0)
        try:
            s0, out = t.st0.shadow(st), []
            for k in (0, 1):
                tab = t.tab[k]
                if not t.deep:
                    x = z3.simplify(idx - tab.off)
                    r = elem(E, s0, tab, x, E.p.typ(t.rt))
                    out.append(Implies(And(obj == tab.obj, x >= 0, x < tab.len), If(r.cap > 0, And(side(r.obj) == k + 1, o1(r.obj) == x), r.obj == 0)))
                elif k0 == t.ct:
                    x = z3.simplify(idx - tab.off)
                    c = elem(E, s0, tab, x, E.p.typ(t.ct))
                    out.append(Implies(And(obj == tab.obj, x >= 0, x < tab.len), And(c.len == t.rows, c.cap > 0, side(c.obj) == k + 1, o1(c.obj) == x)))
                else:
                    x = o1(obj)
                    c = elem(E, s0, tab, x, E.p.typ(t.ct))
                    y = z3.simplify(idx - c.off)
                    r = elem(E, s0, c, y, E.p.typ(t.rt))
                    out.append(Implies(And(x >= 0, x < tab.len, obj == c.obj, y >= 0, y < t.rows), If(r.cap > 0, And(side(r.obj) == k + 1, o1(r.obj) == x, o2(r.obj) == y), r.obj == 0)))
            return out
        finally:
            t.busy.discard(k0)

    def done(t, st, b=None, c=None):
        E, s0 = t.E, t.st0.shadow(st)
        x, y = t.cell(st, 0, t.b, t.c), t.cell(s0, 1, t.b, t.c)
        tid = E.p.typ(t.er)
        return And(x.len == y.len, Implies(t.j < y.len, equal(E, st, tid, elem(E, st, x, t.j, tid), elem(E, s0, y, t.j, tid))))

    def univ(t, fname):
        names = []
        for h in t.E.p.loops(t.E.p.funcs[fname]):
            blk = [b for b in t.E.p.funcs[fname]['blocks'] if b['i'] == h][0]
            for ins in blk['ins']:
                if ins['op'] == 'phi' and t.E.p.ts(ins['t']) == 'int':
                    names.append(('%s@%d' % (fname, h), ins['n']))
        D1, D2, pair = z3.Function('pair1', IntS, IntS), z3.Function('pair2', IntS, IntS), z3.Function('pair', IntS, IntS, IntS)

        def u(E, ctx):
            out = []
            keyp = lambda key: key[0] == t.rt and key[1] == ()

            def ok(v, i, fresh):
                if t.depth >= 3:
                    return TRUE
                t.depth += 1
                try:
                    x, y = (D1(i), D2(i)) if t.deep else (i, I(0))
                    r = t.cell(v.st, 0, x, y)
                    lim = And(x >= 0, x < t.tab[0].len) if not t.deep else And(x >= 0, x < t.tab[0].len, y >= 0, y < t.rows)
                    own = And(side(r.obj) == 1, o1(r.obj) == x, *([o2(r.obj) == y] if t.deep else []))
                    return Implies(lim, If(r.cap == 0, r.obj == 0, If(r.obj < t.nxt0, own, fresh(r.obj, x, y))))
                finally:
                    t.depth -= 1

            def idx(v, obj, ix):
                if not t.deep:
                    return z3.simplify(ix - t.tab[0].off)
                c = elem(E, v.st, t.tab[0], o1(obj), E.p.typ(t.ct))
                a, b = o1(obj), z3.simplify(ix - c.off)
                p = pair(a, b)
                v.st.assume(And(D1(p) == a, D2(p) == b))
                return p
            out.append(('rows own their storage', keyp, lambda v, i: ok(v, i, lambda o, x, y: FALSE), idx))
            if t.deep:
                for a, b in itertools.permutations(names, 2):
                    if a[0] != b[0]:
                        for d in (0, 1):
                            for e in (0, 1):
                                out.append(('cells own their storage: %s+%d %s+%d' % (a[0][-3:] + a[1], d, b[0][-3:] + b[1], e), keyp,
                                            lambda v, i, a=a, b=b, d=d, e=e: ok(v, i, lambda o, x, y: And(E.own(*a)(o) + d == x, E.own(*b)(o) + e == y)), idx))
            else:
                for a in names:
                    for d in (0, 1):
                        out.append(('rows own their storage: %s+%d' % (a[0][-3:] + a[1], d), keyp, lambda v, i, a=a, d=d: ok(v, i, lambda o, x, y: E.own(*a)(o) + d == x), idx))
            return out
        return u


def table_set(E, root, er, deep=False):
    st = State()
    E.ifconv, E.optimistic = deep, 'preds'
    t = Pair(E, st, root, er, deep)
    fname = method_fn(E, E.p.typ('*' + root), 'Set')
    E.univ.append(t.univ(fname))

    def templates(E, ctx):
        out = []
        outer = outer_ints(ctx, True)
        for n in ctx.ints():
            for d in (0, 1):
                if not outer:
                    out.append(('set<%s+%d' % (n, d), lambda v, n=n, d=d: Implies(t.b < v.vals[n] + d, t.done(v.st))))
                    if deep:
                        out.append(('set c<%s+%d' % (n, d), lambda v, n=n, d=d: Implies(t.c < v.vals[n] + d, t.done(v.st))))
                for rn, r in outer:
                    for p, q, an in ((t.b, t.c, 'bc'), (t.c, t.b, 'cb')):
                        out.append(('%s set inner %s %s+%d' % (an, rn, n, d), lambda v, n=n, d=d, r=r, p=p, q=q: Implies(Or(p < r(v), And(p == r(v), q < v.vals[n] + d)), t.done(v.st))))
        out.append(('set stays', lambda v: Implies(t.done(v.entry.st), t.done(v.st))))
        return out
    E.templates.append(templates)
    init = st.copy()
    src0 = t.cell(init.shadow(st), 1, t.b, t.c)
    outs = E.run(fname, t.ptr, st)
    for s, r in outs:
        E.oblige(s, 'post', 'every row has the length and the elements of the source\'s', t.done(s))
        x, y, z = t.cell(s, 0, t.b, t.c), t.cell(s, 0, t.b2, t.c2), t.cell(s, 1, t.b2, t.c2)
        E.oblige(s, 'post', 'no two rows of the receiver share storage', Or(x.cap == 0, y.cap == 0, And(t.b == t.b2, t.c == t.c2), x.obj != y.obj))
        E.oblige(s, 'post', 'no row of the receiver shares storage with the source', Or(x.cap == 0, z.cap == 0, x.obj != z.obj))
        src = t.cell(s, 1, t.b, t.c)
        E.oblige(s, 'frame', 'the source keeps its rows', And(src.obj == src0.obj, src.off == src0.off, src.len == src0.len, src.cap == src0.cap))
        s2 = s.copy()
        s2.assume(t.j < src0.len)
        tid = E.p.typ(er)
        E.oblige(s2, 'frame', 'the source keeps its elements', equal(E, s2, tid, elem(E, s2, src, t.j, tid), elem(E, init.shadow(s2), src0, t.j, tid)))
        a, b = t.table(s, 0), t.table(s, 1)
        E.oblige(s, 'frame', 'the tables stay', And(a.obj == t.tab[0].obj, a.off == t.tab[0].off, a.len == t.tab[0].len, b.obj == t.tab[1].obj, b.off == t.tab[1].off, b.len == t.tab[1].len))
    E.need(outs, 'Set returns')


def at(E, a, b, path=()):
    """a is the address of field path (names) of what b points to"""
    tid = E.p.typ(b.root) if isinstance(b.root, str) else b.root
    return And(z3.BoolVal(a.path == b.path + path), a.obj == b.obj, a.idx == b.idx)


def sub_set(E, log, name):
    def f(E, st, args):
        st.trail = st.trail + (('sub', name),)
        st.ghost = dict(st.ghost, **{name: st.ghost.get(name, ()) + (args[:2],)})
        return [(st, None)]
    E.summaries[name] = f


def field(E, tid, name):
    """the path of a field"""
    return (E.p.field(tid, name),)


def delaunay_set(E):
    st = State()
    tid = E.p.typ(DL)
    names = ('triangles', 'grid', 'pointMap', 'freeTriangles', 'superTriangle', 'numPoints', 'uniquePoints')
    fld = {n: field(E, tid, n) for n in names}
    roots = {'triangles': PK + 'Triangle', 'freeTriangles': 'uint32'}
    v, p = [], []
    for n in ('receiver', 'source'):
        v.append(E.sym(st, tid, n))
        p.append(E.new(st, tid))
        E.store(st, p[-1], v[-1], tid)
    get = lambda s, k, n: sub_path(E.load(s, p[k], tid), fld[n])
    j = E.fresh('j')
    st.assume(j >= 0)
    for n in roots:
        a, b = get(st, 0, n), get(st, 1, n)
        # what C03 asks: the two triangulations share no storage before
        st.assume(Or(a.obj != b.obj, a.cap == 0, b.cap == 0))
    nxt = st.nxt
    init = st.copy()
    subs = [('(*%s).Set' % GR, 'grid'), ('(*%s).Set' % PM, 'pointMap')]
    for name, _ in subs:
        sub_set(E, None, name)
    outs = E.run(method_fn(E, E.p.typ('*' + DL), 'Set'), p, st)
    for s, r in outs:
        for name, f in subs:
            calls = s.ghost.get(name, ())
            E.oblige(s, 'post', '%s is set once, from the source\'s' % f, And(z3.BoolVal(len(calls) == 1), *[And(at(E, c[0], p[0], fld[f]), at(E, c[1], p[1], fld[f])) for c in calls]))
        for n, root in roots.items():
            a, b, b0 = get(s, 0, n), get(s, 1, n), get(init.shadow(s), 1, n)
            E.oblige(s, 'post', '%s: as long as the source\'s' % n, a.len == b.len)
            E.oblige(s, 'post', '%s: storage of its own' % n, Or(a.obj != b.obj, a.cap == 0, b.cap == 0))
            E.oblige(s, 'frame', '%s: the receiver\'s old storage or a new one' % n, Or(a.obj == get(init.shadow(s), 0, n).obj, a.obj >= nxt))
            E.oblige(s, 'frame', '%s: the source keeps its slice' % n, And(b.obj == b0.obj, b.off == b0.off, b.len == b0.len, b.cap == b0.cap))
            s2 = s.copy()
            s2.assume(j < b.len)
            et = E.p.typ(root)
            e0 = elem(E, init.shadow(s2), b0, j, et)
            E.oblige(s2, 'post', '%s: every element is the source\'s' % n, equal(E, s2, et, elem(E, s2, a, j, et), e0))
            E.oblige(s2, 'frame', '%s: the source keeps its elements' % n, equal(E, s2, et, elem(E, s2, b, j, et), e0))
        for n in ('superTriangle', 'numPoints', 'uniquePoints'):
            ft = E.p.ut(tid)['f'][fld[n][0]]['t']
            b0 = get(init.shadow(s), 1, n)
            E.oblige(s, 'post', n + ' is the source\'s', equal(E, s, ft, get(s, 0, n), b0))
            E.oblige(s, 'frame', n + ' of the source stays', equal(E, s, ft, get(s, 1, n), b0))
    E.need(outs, 'Set returns')


def voronoi_set(E):
    st = State()
    tid = E.p.typ(IV)
    v, p, d = [], [], []
    for n in ('receiver', 'source'):
        v.append(E.sym(st, tid, n))
        p.append(E.new(st, tid))
        E.store(st, p[-1], v[-1], tid)
    fd, fm = field(E, tid, 'delaunay'), field(E, tid, 'polygonMap')
    d = [sub_path(x, fd) for x in v]
    for x in d:
        st.assume(x.obj > 0)
    st.assume(d[0].obj != d[1].obj)
    subs = ['(*%s).Set' % DL, '(*%s).Set' % QM]
    for name in subs:
        sub_set(E, None, name)
    outs = E.run(method_fn(E, E.p.typ('*' + IV), 'Set'), p, st)
    for s, r in outs:
        a, b = s.ghost.get(subs[0], ()), s.ghost.get(subs[1], ())
        E.oblige(s, 'post', 'the triangulation is set once, from the source\'s', And(z3.BoolVal(len(a) == 1), *[And(at(E, c[0], d[0]), at(E, c[1], d[1])) for c in a]))
        E.oblige(s, 'post', 'the polygons are set once, from the source\'s', And(z3.BoolVal(len(b) == 1), *[And(at(E, c[0], p[0], fm), at(E, c[1], p[1], fm)) for c in b]))
        for k, n in ((0, 'receiver'), (1, 'source')):
            x = E.load(s, p[k], tid)
            E.oblige(s, 'frame', 'the %s keeps its triangulation' % n, equal(E, s, E.p.typ('*' + DL), sub_path(x, fd), d[k]))
    E.need(outs, 'Set returns')


UNITS = [('normgeom.NormPointGroup.' + m, lambda E, m=m: group(E, m)) for m in ('Copy', 'Set', 'Set of another length')]
UNITS += [('incrdelaunay.pointMap.Set', lambda E: table_set(E, PM, PK + 'pointEntry')),
          ('incrdelaunay.polygonMap.Set', lambda E: table_set(E, QM, PK + 'polygonEntry')),
          ('incrdelaunay.CircumcircleGrid.Set', lambda E: table_set(E, GR, 'uint32', True)),
          ('incrdelaunay.Delaunay.Set', delaunay_set),
          ('incrdelaunay.IVoronoi.Set', voronoi_set)]

HARNESS = [
    dict(name='incrdelaunay: Set after random histories, then edits', pkg='triangulation/incrdelaunay', package='incrdelaunay', files=['c03a.go.txt'], run='TestVerifC03Delaunay|TestVerifC03Voronoi'),
    dict(name='normgeom: copies of point groups', pkg='normgeom', package='normgeom', files=['c03b.go.txt'], run='TestVerifC03Group')]
ASSUMPTIONS = [
    'receiver and source are for images of one size and have different storage to begin with (NewDelaunay, NewVoronoi and newPointMap allocate; a slice without capacity has no storage)',
    'Delaunay.Set and IVoronoi.Set are checked against the contracts of the tables\' own Set functions, which are proved here from their bodies; that these contracts compose (a triangulation is equal when all of its parts are) is an argument on paper',
    'polygonMap entries share the polygon points ([]FloatPoint) after Set; no code writes to a stored polygon (processPoint stores fresh copies), which the bounded histories check and the proof does not',
    'the scratch slices edges, hull, ears, points, newPolygon and pointsToUpdate are no part of the state: they are emptied before use',
    'machine integers are mathematical integers within Go\'s ranges (no overflow obligations for these functions)']
LEVEL_NOTE = 'point groups and all five Set functions proved for every length and every content; equality and independence of whole diagrams over histories also explored bounded'
