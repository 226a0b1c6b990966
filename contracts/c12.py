"""C12: Voronoi polygons: which are redone after an edit, what is stored, and that they lie in the image."""
import json
from gvc.core import *
from gvc.lib import *
from . import c08
from .c08 import Table, eqp
from .c10 import MAXPX, zero_poly

PK = MOD + 'triangulation/incrdelaunay.'
PT, PE, PM, DL, TR, CC = PK + 'Point', PK + 'polygonEntry', PK + 'polygonMap', PK + 'Delaunay', PK + 'Triangle', PK + 'Circumcircle'
IV, FP = PK + 'IVoronoi', PK + 'FloatPoint'
one = lambda c: If(c, I(1), I(0))
EPS = z3.Q(2, 10000)


# ---------------------------------------------------------------- the table of polygons
class Polygons(Table):
    """a polygon map in any state its operations can reach, seen from an arbitrary point q, which has a polygon
    (m = 1: entry e of bucket hq) or none (m = 0); every bucket owns its storage"""

    def __init__(t, E, st):
        t.E = E
        t.pe, t.pt, t.pm = E.p.typ(PE), E.p.typ(PT), E.p.typ(PM)
        t.rowt = E.p.typ('[]' + PE)
        v = E.sym(st, t.pm, 'map')
        t.ptr = E.new(st, t.pm)
        E.store(st, t.ptr, v, t.pm)
        (t.path, _), = struct_slices(E, t.pm, '[]' + PE)
        t.st0 = st.copy()
        t.n = t.rows(st).len
        st.assume(t.n >= 1)
        t.q = t.point(st, 'q')
        t.m, t.e = E.fresh('m'), E.fresh('e')
        st.assume(And(Or(t.m == 0, t.m == 1), (t.m == 0) == (t.e < 0)))
        t.hq = t.hash(st, t.q)
        t.b, t.j = E.fresh('b'), E.fresh('j')
        st.assume(And(t.b >= 0, t.b < t.n, t.j >= 0))
        t.owner = z3.Function('owner', IntS, IntS)
        t.nxt0 = st.nxt
        t.busy = set()
        t.poly = E.sym(st, '[]' + FP, 'polygon of q')

    def entry(t, st, row, j):
        v = elem(t.E, st, row, j, t.pe)
        pt = sub(t.E, st, v, t.pe, 'point').vals
        po = sub(t.E, st, v, t.pe, 'polygon')
        return [pt[0], pt[1], po.obj, po.off, po.len]

    def value(t):
        return t.q.vals + [t.poly.obj, t.poly.off, t.poly.len]

    def begin(t, st, buckets):
        E, bs = t.E, [t.hq, t.b] + list(buckets)
        st.assume(And(*[t.owned(st, b) for b in bs]))
        r = t.row(st, t.hq)
        st.assume(Implies(t.m > 0, And(t.e < r.len, *[a == b for a, b in zip(t.entry(st, r, t.e), t.value())])))

        def facts(E, st2, node, obj, idx, v):
            if node.key[0] != PE or node.stage != 0:
                return []
            k = (id(st2.pcs), obj.get_id(), idx.get_id())
            if k in t.busy:
                return []
            t.busy.add(k)
            try:
                s0 = t.st0.shadow(st2)
                en = t.entry(s0, S(obj, I(0), I(1), I(1), PE), idx)
                out = []
                for b in bs:
                    r = t.row(s0, b)
                    at = And(obj == r.obj, idx >= r.off, idx < r.off + r.len)
                    out.append(Implies(And(at, t.is_q(en)), And(b == t.hq, idx - r.off == t.e, t.m > 0)))
                return out
            finally:
                t.busy.discard(k)
        E.base_hooks.append(facts)

    def check(t, st, what, m, changed=None, poly=None):
        E = t.E
        E.oblige(st, 'rep', what + ': as many buckets as before', t.rows(st).len == t.n)
        r = t.row(st, t.b)
        E.oblige(st, 'rep', what + ': every bucket owns its storage', Or(r.cap == 0, And(r.obj < t.nxt0, t.owner(r.obj) == t.b), And(r.obj >= t.nxt0, t.b == changed) if changed is not None else FALSE))
        hr = t.row(st, t.hq)
        poly = poly or t.poly
        want = t.q.vals + [poly.obj, poly.off, poly.len]
        spots = [t.e, z3.simplify(hr.len - 1)] + t.spots
        here = Or(*[And(x >= 0, x < hr.len, *[a == b for a, b in zip(t.entry(st, hr, x), want)]) for x in spots])
        E.oblige(st, 'post', what + ': the point has its polygon', Implies(m > 0, here))
        s2 = st.copy()
        s2.assume(And(t.j < r.len, t.is_q(t.entry(s2, r, t.j))))
        E.oblige(s2, 'post', what + ': the point has an entry in its bucket only, and only if it has a polygon', And(t.b == t.hq, m > 0))
        j2 = E.fresh('j2')
        s2.assume(And(j2 >= 0, j2 < r.len, j2 != t.j))
        E.oblige(s2, 'post', what + ': the point has at most one entry', Not(t.is_q(t.entry(s2, r, j2))))


def idxs(E, s, t):
    """indices of the entries written on this path, relative to the bucket of q"""
    out, seen = [], set()
    for k, nd in s.mem.items():
        while nd is not None and k[0] == PE:
            if nd.kind == 'store':
                x = z3.simplify(nd.a[1] - t.row(s, t.hq).off)
                if x.get_id() not in seen:
                    seen.add(x.get_id())
                    out.append(x)
            nd = nd.prev
    return out


def operation(E, method, same):
    """AddPolygon of a point without one, RemovePolygon of a point with one; seen from q = p or from q != p"""
    st = State()
    t = Polygons(E, st)
    t.spots = []
    if same:
        p, hp = t.q, t.hq
        st.assume(t.m == (0 if method == 'AddPolygon' else 1))
    else:
        p = t.point(st, 'p')
        st.assume(Not(eqp(p, t.q)))
        hp = t.hash(st, p)
        E.allow_panic = lambda *a: TRUE         # whether p has a polygon is not known here
    poly = E.sym(st, '[]' + FP, 'polygon')
    t.begin(st, [hp])
    t.st0 = st.copy()
    c08.search(E, t, p, hp)
    args = [t.ptr, p] + ([poly] if method == 'AddPolygon' else [])
    outs = E.run(method_fn(E, E.p.typ('*' + PM), method), args, st)
    for s, r in outs:
        t.spots = idxs(E, s, t)
        if method == 'AddPolygon':
            t.check(s, method, I(1) if same else t.m, hp, poly if same else None)
        else:
            E.oblige(s, 'post', 'RemovePolygon reports that there was one', r)
            t.check(s, method, I(0) if same else t.m, hp)
    E.need(outs, method + ' returns')


def removing_nothing(E):
    """RemovePolygon of a point without a polygon panics"""
    st = State()
    t = Polygons(E, st)
    t.spots = []
    st.assume(t.m == 0)
    t.begin(st, [])
    t.st0 = st.copy()
    E.allow_panic = lambda *a: TRUE
    frozen = st.copy()
    outs = E.run(method_fn(E, E.p.typ('*' + PM), 'RemovePolygon'), [t.ptr, t.q], st)
    for s, r in outs:
        E.oblige(s, 'post', 'removing a polygon that is not there panics', FALSE)
    E.need([frozen], 'a point without a polygon exists')


def fresh_map(E):
    st = State()
    n, b = E.sym(st, 'int', 'size'), E.fresh('b')
    st.assume(And(n >= 1, n <= MAXOBJ_LEN, b >= 0, b < n))
    outs = E.run(PK + 'newPolygonMap', [n], st)
    pm = E.p.typ(PM)
    (path, _), = struct_slices(E, pm, '[]' + PE)
    for s, r in outs:
        rows = sub_path(r, path)
        E.oblige(s, 'post', 'the map has the size asked for', rows.len == n)
        row = elem(E, s, rows, b, E.p.typ('[]' + PE))
        E.oblige(s, 'post', 'every bucket is empty and shares no storage', And(row.len == 0, row.cap == 0))
    E.need(outs, 'newPolygonMap returns')


# ---------------------------------------------------------------- the incremental diagram
class Diagram:
    def __init__(s, E, st):
        s.E = E
        s.tid = E.p.typ(IV)
        s.tt, s.pt, s.ft = E.p.typ(TR), E.p.typ(PT), E.p.typ(FP)
        s.d = E.new(st, E.p.typ(DL))
        E.store(st, s.d, E.sym(st, E.p.typ(DL), 'd'), E.p.typ(DL))
        v = E.sym(st, s.tid, 'v')
        v.vals[E.p.field(s.tid, 'delaunay')] = P(s.d.obj, s.d.idx, DL, (), None, True)
        s.p = E.new(st, s.tid)
        E.store(st, s.p, v, s.tid)
        s.v = v
        for n in 'wh':
            st.assume(And(s.get(st, n) >= 1, s.get(st, n) <= MAXPX))
        for n in ('points', 'newPolygon', 'pointsToUpdate'):
            x = s.get(st, n)
            st.assume(And(x.len >= 0, x.cap >= x.len))
        sup = s.dget(st, 'superTriangle')
        s.sup = s.verts(sup)
        s.w, s.h = s.get(st, 'w'), s.get(st, 'h')

    def verts(s, t):
        return [t.vals[s.E.p.field(s.tt, n)] for n in 'ABC']

    def ptr(s, f, base=None):
        return P(s.p.obj, s.p.idx, IV, (s.E.p.field(s.tid, f),), None, True)

    def typ(s, f):
        return s.E.p.ut(s.tid)['f'][s.E.p.field(s.tid, f)]['t']

    def get(s, st, f):
        return s.E.load(st, s.ptr(f), s.typ(f))

    def dget(s, st, f):
        t = s.E.p.typ(DL)
        i = s.E.p.field(t, f)
        return s.E.load(st, P(s.d.obj, s.d.idx, DL, (i,), None, True), s.E.p.ut(t)['f'][i]['t'])

    def is_super(s, q):
        return Or(*[eqp(q, x) for x in s.sup])

    def tri(s, st, i):
        return elem(s.E, st, s.dget(st, 'triangles'), i, s.tt)


def to_update(E):
    """addPointToUpdate: a point is listed once, unless it is a vertex of the super triangle; others stay"""
    st = State()
    D = Diagram(E, st)
    p, q = E.sym(st, D.pt, 'p'), E.sym(st, D.pt, 'q')
    L = D.get(st, 'pointsToUpdate')
    at = lambda s, j, l=None: elem(E, s, l or D.get(s, 'pointsToUpdate'), j, D.pt)
    pl = E.fresh('place of q')
    st.assume(And(pl >= -1, pl < L.len, Implies(pl >= 0, eqp(at(st, pl), q))))
    st0 = st.copy()

    def fact(s, obj, idx):
        x = E.load(st0.shadow(s), P(obj, idx, PT, (), None, True), D.pt)
        s.assume(Implies(And(obj == L.obj, idx >= L.off, idx < L.off + L.len, eqp(x, q)), idx - L.off == pl))
    E.load_facts.append(lambda E, s, a: fact(s, a.obj, a.idx) if a.root == PT and a.path == () else None)

    def templates(E, ctx):
        return [('q is not before %s+%d' % (x, d), lambda v, x=x, d=d: Implies(eqp(p, q), Or(pl < 0, pl >= v.vals[x] + d))) for x in ctx.ints() for d in (0, 1)]
    E.templates.append(templates)
    outs = E.run(method_fn(E, E.p.typ('*' + IV), 'addPointToUpdate'), [D.p, p], st)
    j1, j2 = E.fresh('j1'), E.fresh('j2')
    for s, r in outs:
        n = D.get(s, 'pointsToUpdate')
        should = Or(pl >= 0, And(eqp(p, q), Not(D.is_super(q))))
        E.oblige(s, 'post', 'a point that should be listed is', Implies(should, Or(*[And(x >= 0, x < n.len, eqp(at(s, x), q)) for x in (pl, z3.simplify(n.len - 1))])))
        s2 = s.copy()
        s2.assume(And(j1 >= 0, j1 < n.len, j2 >= 0, j2 < n.len, j1 != j2))
        for j in (j1, j2):
            fact(s2, L.obj, z3.simplify(L.off + j))
        E.oblige(s2, 'post', 'no other point is', Implies(Not(should), Not(eqp(at(s2, j1), q))))
        E.oblige(s2, 'post', 'a point is listed once', Not(And(eqp(at(s2, j1), q), eqp(at(s2, j2), q))))
    E.need(outs, 'addPointToUpdate returns')


def edit(E, method):
    """Insert and Remove: the polygons of the points whose nearest region can change - the vertices of the triangles
    with the point in their circle, or at the point - are redone once each, after the triangulation has changed;
    seen from an arbitrary point q"""
    st = State()
    D = Diagram(E, st)
    p, q = E.sym(st, D.pt, 'p'), E.sym(st, D.pt, 'q')
    for x in (p, q):
        st.assume(And(*[And(c >= 0, c <= MAXPX) for c in x.vals]))
        st.assume(Not(D.is_super(x)))
    IN = z3.Function('place of q in the list', IntS, IntS)
    st.ghost.update(phase=I(0), due=I(0), listed=I(0), list=I(0), n=I(0), gone=I(0), made=I(0), copies=I(0), asked=I(0))
    f = 'pointsToUpdate'
    insert = method == 'Insert'

    def as_given(s):
        e = D.get(s, f)
        return And(e.obj == s.ghost['list'], e.len == s.ghost['n'], e.off == 0)

    def update(E, s, a):
        """contract of addPointToUpdate (unit above)"""
        e = D.get(s, f)
        E.oblige(s, 'pre', 'the list holds the points given since it was emptied', Or(e.len == 0, as_given(s)))
        before = If(e.len == 0, I(0), s.ghost['listed'])
        new = E.sym(s, D.typ(f), 'list')
        s.assume(And(new.obj >= s.nxt - 1, new.off == 0, new.len >= 0, new.cap >= new.len))
        s.ghost['listed'] = z3.simplify(one(Or(before == 1, And(eqp(a[1], q), Not(D.is_super(a[1]))))))
        s.assume(And(IN(new.obj) >= -1, IN(new.obj) < new.len, (IN(new.obj) >= 0) == (s.ghost['listed'] == 1)))
        s.ghost['list'], s.ghost['n'] = new.obj, new.len
        E.store(s, D.ptr(f), new, D.typ(f))
        return [(s, None)]
    E.summaries['(*%sIVoronoi).addPointToUpdate' % PK] = update

    def facts(E, s, a):
        if a.root == PT and a.path == ():
            x = E.load(s, P(a.obj, a.idx, PT, (), None, True), D.pt)
            s.assume(Implies(And(a.obj == s.ghost['list'], a.idx >= 0, a.idx < s.ghost['n']), eqp(x, q) == (a.idx == IN(s.ghost['list']))))
    E.load_facts.append(facts)

    def visit(want):
        def h(E, s, a):
            E.oblige(s, 'post', want + ' are looked for' if want == WANT else 'the right triangles are looked for', z3.BoolVal(want == WANT))
            E.oblige(s, 'post', 'with the point', eqp(a[1], p))
            E.oblige(s, 'post', 'before the triangulation changes', s.ghost['phase'] == 0)
            tr = D.dget(s, 'triangles')
            E.oblige(s, 'post', 'in the triangulation of the diagram', And(a[2].obj == tr.obj, a[2].off == tr.off, a[2].len == tr.len))
            s.ghost['asked'] = s.ghost['asked'] + 1

            def body(E, s2):
                i = E.sym(s2, 'uint32', 'slot')
                s2.assume(i < tr.len)
                vs = D.verts(D.tri(s2, i))
                if insert:
                    s2.assume(And(*[Not(eqp(x, p)) for x in vs]))
                out = []
                for s3, _ in E.call_value(None, s2, a[3], [i], {}):
                    s3.ghost['due'] = one(Or(s3.ghost['due'] == 1, *[eqp(x, q) for x in vs]))
                    out.append(s3)
                return out
            return [(x, None) for x in E.abstract_loop(s, 'affected', body)]
        return h
    WANT = 'the triangles with the point in their circle' if insert else 'the triangles at the point'
    E.summaries['(%sCircumcircleGrid).IterCircumcirclesThatContain' % PK] = visit('the triangles with the point in their circle')
    E.summaries['(%sCircumcircleGrid).IterThatHasVertex' % PK] = visit('the triangles at the point')
    copies = E.sym(st, 'uint32', 'copies')
    if not insert:
        st.assume(copies >= 1)

    def copies_of(E, s, a):
        E.oblige(s, 'pre', 'copies are counted before the triangulation changes', And(eqp(a[1], p), s.ghost['phase'] == 0))
        return [(s, copies)]
    E.summaries['(*%spointMap).CopiesOf' % PK] = copies_of

    def change(name):
        def h(E, s, a):
            E.oblige(s, 'post', 'the triangulation gets the same edit', And(z3.BoolVal(name == method), eqp(a[1], p), a[0].obj == D.d.obj))
            s.ghost['phase'] = s.ghost['phase'] + 1
            t = E.p.typ(DL)
            i = E.p.field(t, 'triangles')
            E.store(s, P(D.d.obj, D.d.idx, DL, (i,), None, True), E.sym(s, E.p.ut(t)['f'][i]['t'], 'triangles'), E.p.ut(t)['f'][i]['t'])
            return [(s, TRUE if name == 'Insert' else None)]
        return h
    for n in ('Insert', 'Remove'):
        E.summaries['(*%sDelaunay).%s' % (PK, n)] = change(n)

    def gone(E, s, a):
        E.oblige(s, 'post', 'only a polygon that can change is dropped', Implies(eqp(a[1], q), s.ghost['due'] == 1))
        E.oblige(s, 'post', 'a polygon is dropped before it is made again', Implies(eqp(a[1], q), s.ghost['made'] == 0))
        s.ghost['gone'] = s.ghost['gone'] + one(eqp(a[1], q))
        return [(s, TRUE)]
    E.summaries['(*%spolygonMap).RemovePolygon' % PK] = gone

    def made(E, s, a):
        E.oblige(s, 'post', 'polygons are made from the changed triangulation', s.ghost['phase'] == 1)
        s.ghost['made'] = s.ghost['made'] + one(eqp(a[1], q))
        return [(s, None)]
    E.summaries['(*%sIVoronoi).processPoint' % PK] = made

    listed = lambda v: If(D.get(v.st, f).len == 0, I(0), v.ghost('listed'))

    def templates(E, ctx):
        g = lambda v: v.ghost
        if ctx.name == 'affected':
            return [('listed when due', lambda v: listed(v) == v.ghost('due')),
                    ('list as given', lambda v: Or(D.get(v.st, f).len == 0, as_given(v.st))),
                    ('flags', lambda v: And(Or(v.ghost('due') == 0, v.ghost('due') == 1), Or(v.ghost('listed') == 0, v.ghost('listed') == 1))),
                    ('place', lambda v: Or(D.get(v.st, f).len == 0, And(IN(v.ghost('list')) < v.ghost('n'), (IN(v.ghost('list')) >= 0) == (v.ghost('listed') == 1))))]
        out = []
        pos = lambda v: IN(v.ghost('list'))
        for x in ctx.ints():
            for d in (0, 1):
                for n in ('gone', 'made'):
                    for c, extra in (('', TRUE), (' not p', Not(eqp(p, q)))):
                        out.append(('%s%s before %s+%d' % (n, c, x, d), lambda v, x=x, d=d, n=n, extra=extra: v.ghost(n) == one(And(extra, D.get(v.st, f).len > 0, pos(v) >= 0, pos(v) < v.vals[x] + d))))
        return out
    E.templates.append(templates)
    outs = E.run(method_fn(E, E.p.typ('*' + IV), method), [D.p, p], st)
    for s, r in outs:
        alone = copies > 0 if insert else copies > 1
        due = s.ghost['due'] == 1
        E.oblige(s, 'post', 'the triangulation is edited once', s.ghost['phase'] == 1)
        E.oblige(s, 'post', 'while other copies of the point are there polygons stay', Implies(alone, And(s.ghost['gone'] == 0, s.ghost['made'] == 0)))
        E.oblige(s, 'post', 'otherwise the affected triangles are looked for once', Implies(Not(alone), s.ghost['asked'] == 1))
        E.oblige(s, 'post', 'every polygon that can change is dropped once, and no other', Implies(Not(alone), s.ghost['gone'] == one(due)))
        E.oblige(s, 'post', 'every polygon dropped is made again once, and that of the point if it is new', Implies(Not(alone), s.ghost['made'] == one(Or(due, eqp(p, q)) if insert else And(due, Not(eqp(p, q))))))
    E.need(outs, method + ' returns')


# ---------------------------------------------------------------- clipping
def quotients(f):
    """the divisions in a formula"""
    out, seen, todo = [], set(), [f]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DIV:
            out.append(t)
        todo += t.children()
    return out


def quotient(t, n, d):
    """t is n / d (d not 0)"""
    a, b = t.arg(0), t.arg(1)
    return zero_poly(a * d - n * b) and (zero_poly(b - d) or zero_poly(b + d))


def crossing(E):
    """segmentsIntersect in exact arithmetic: the one common point of two segments that are not parallel"""
    st = State()
    E.exact = True
    P0, P1, P2, P3 = [[E.sym(st, 'float64', 'p%d%s' % (i, c)) for c in 'xy'] for i in range(4)]
    for q in (P0, P1, P2, P3):
        for c in q:
            st.assume(Not(c.nan))
    (ax, ay), (bx, by), (cx, cy), (dx, dy) = [[c.v for c in q] for q in (P0, P1, P2, P3)]
    D = (bx - ax) * (dy - cy) - (by - ay) * (dx - cx)
    st.assume(D != 0)
    u, w = z3.Real('u'), z3.Real('w')
    ex, ey = ax + u * (bx - ax) - cx - w * (dx - cx), ay + u * (by - ay) - cy - w * (dy - cy)
    U, W = (dx - cx) * (ay - cy) - (dy - cy) * (ax - cx), (bx - ax) * (ay - cy) - (by - ay) * (ax - cx)
    E.oblige(st, 'lemma', 'where the segments meet, by the rule of Cramer', z3.BoolVal(zero_poly(u * D - U - (ex * (dy - cy) - ey * (dx - cx))) and zero_poly(w * D - W - (ex * (by - ay) - ey * (bx - ax)))), 'polynomial identity')
    outs = E.run(PK + 'segmentsIntersect', P0 + P1 + P2 + P3, st)
    cross = lambda x, y, X, Y: x * Y - y * X
    for s, r in outs:
        x, y, hit = r.vals if hasattr(r, 'vals') else r
        s2 = s.copy()
        s2.assume(hit)
        E.oblige(s2, 'post', 'the point reported is a number', And(Not(x.nan), Not(y.nan)))
        E.oblige(s2, 'post', 'the point reported is on the line of the first segment', cross(x.v - ax, y.v - ay, bx - ax, by - ay) == 0)
        E.oblige(s2, 'post', 'the point reported is on the line of the second segment', cross(x.v - cx, y.v - cy, dx - cx, dy - cy) == 0)
        # by Cramer's rule a common point ax + u (bx - ax), cx + w (dx - cx) has u = U / D and w = W / D (settled by
        # expansion below); the quotients computed are recognised as these by polynomial identity
        s3 = State()
        swap = [(t, z) for f in s.pc for t in quotients(f) for z, n in ((u, U), (w, W)) if quotient(t, n, D)]
        for f in s.pc + [Not(hit)]:
            s3.assume(z3.substitute(f, *swap) if swap else f)
        E.oblige(s3, 'post', 'segments that are said not to meet have no common point', Not(And(u >= 0, u <= 1, w >= 0, w <= 1)))
    E.need(outs, 'segmentsIntersect returns')


def more_rounding(E, st, op, f32, r, exact, args, fin):
    """rounding is monotone: more facts about products with a number between 0 and 1, and about signs of sums"""
    a, b = args
    if op == 'fmul':
        for x, y in ((a, b), (b, a)):
            st.assume(Implies(And(fin, x >= 0, x <= 1, y <= 0), r >= y))
    elif op == 'fadd':
        st.assume(Implies(And(fin, a + b >= 0), r >= 0))
        st.assume(Implies(And(fin, a + b <= 0), r <= 0))


def on_edge(E, k):
    """segmentsIntersect in machine arithmetic: what it reports for an edge of the image is in the image"""
    st = State()
    w, h = E.sym(st, 'int', 'w'), E.sym(st, 'int', 'h')
    st.assume(And(w >= 1, w <= MAXPX, h >= 1, h <= MAXPX))
    (x0, y0), (x1, y1) = [((0, 0), (1, 0)), ((1, 0), (1, 1)), ((1, 1), (0, 1)), ((0, 1), (0, 0))][k]
    f = lambda on, n: F(z3.ToReal(n), FALSE, MAXPX, True, n) if on else F(z3.RealVal(0), FALSE, 0, True, I(0))
    seg = [E.sym(st, 'float64', 'q%d' % i) for i in range(4)]
    E.round_hook = more_rounding
    for c in seg:
        st.assume(And(Not(c.nan), c.v <= 2 ** 50, c.v >= -2 ** 50))
    outs = E.run(PK + 'segmentsIntersect', [f(x0, w), f(y0, h), f(x1, w), f(y1, h)] + seg, st)
    for s, r in outs:
        x, y, hit = r.vals if hasattr(r, 'vals') else r
        s2 = s.copy()
        s2.assume(hit)
        E.oblige(s2, 'post', 'a crossing with an edge of the image is in the image', And(Not(x.nan), Not(y.nan), x.v >= 0, x.v <= z3.ToReal(w), y.v >= 0, y.v <= z3.ToReal(h)))
    E.need(outs, 'segmentsIntersect returns')


def is_number(x, lim=2 ** 50):
    return And(Not(x.nan), x.v <= lim, x.v >= -lim)


def initialised(E, st):
    """the state after the initialisation of the package's variables; that nothing writes them later is checked on
    the instructions: outside init they are only loaded"""
    init = PK + 'init'
    for b in E.p.funcs[init]['blocks']:
        for i in b['ins']:
            if i['op'] == 'call' and i['call']['fn'].get('n', '').endswith('.init'):
                E.summaries[i['call']['fn']['n']] = lambda E, s, a: [(s, None)]
            if i['op'] == 'unop' and i['x'].get('n') == init + '$guard':
                E.store(st, E.global_ptr(i['x']), FALSE, E.p.ut(i['x']['t'])['e'])
    for name, fn in E.p.funcs.items():
        for b in fn['blocks'] or [] if name != init else []:
            for i in b['ins']:
                if i['op'] == 'unop' and i.get('o') == '*':
                    continue
                if '"global", "n": "%s' % PK in json.dumps(i):
                    E.oblige(st, 'pre', 'the variables of the package are only read', FALSE)
    cells = list(st.cells)
    (s, r), = E.run(init, [], st)
    s.cells = cells         # its local variables are gone
    return s


def polygon_of(E, what):
    """processPoint and Voronoi: the polygon of a point is made from the centre of every triangle at the point,
    each used once; it lies in the image (to 0.0002 pixels); what is stored is a copy of its own"""
    st = State()
    D = Diagram(E, st)
    stored = what == 'processPoint'
    E.ifconv = E.light = True
    E.optimistic = 'preds'
    p = E.sym(st, D.pt, 'p')
    st.assume(And(*[And(c >= 0, c <= MAXPX) for c in p.vals]))
    st.assume(Not(D.is_super(p)))
    w, h = D.w, D.h
    fw, fh = z3.ToReal(w), z3.ToReal(h)
    inside = lambda q: And(Not(q.vals[0].nan), Not(q.vals[1].nan), q.vals[0].v >= -EPS, q.vals[1].v >= -EPS, q.vals[0].v <= fw + EPS, q.vals[1].v <= fh + EPS)
    st = initialised(E, st)
    nxt0 = st.nxt
    st.ghost.update(asked=I(0), made=I(0))
    st.assume(D.get(st, 'points').obj != D.get(st, 'newPolygon').obj)

    cf = E.p.field(D.tt, 'Circumcircle')

    def facts(E, s, a):
        if a.root == TR and (a.path == () or a.path[0] == cf and len(a.path) <= 2):
            for x in facts.load(E, s, a):
                s.assume(is_number(x))
    busy = []

    def circ(E, s, a):
        if busy:
            return ()
        busy.append(1)
        try:
            return E.load(s, P(a.obj, a.idx, TR, (cf,), None, True), E.p.typ(CC)).vals
        finally:
            busy.pop()
    facts.load = circ
    E.load_facts.append(facts)

    def meet(E, s, a):
        """contract of segmentsIntersect (units above)"""
        e = [x.v for x in a[:4]]
        zero = z3.RealVal(0)
        E.oblige(s, 'pre', 'polygons are clipped against the edges of the image', Or(*[And(*[x == y for x, y in zip(e, c)]) for c in
                 ((zero, zero, fw, zero), (fw, zero, fw, fh), (fw, fh, zero, fh), (zero, fh, zero, zero))]))
        r = [E.sym(s, 'float64', 'x'), E.sym(s, 'float64', 'y')]
        hit = E.sym(s, 'bool', 'hit')
        s.assume(Implies(hit, And(*[Not(c.nan) for c in r] + [r[0].v >= 0, r[1].v >= 0, r[0].v <= fw, r[1].v <= fh])))
        return [(s, Tup(r + [hit]))]
    E.summaries[PK + 'segmentsIntersect'] = meet
    E.summaries[PK + 'epsilonEquals'] = lambda E, s, a: [(s, E.sym(s, 'bool', 'near'))]

    def outside(E, s, a):
        """contract of outside (unit below)"""
        E.oblige(s, 'pre', 'outside is asked about the image', And(a[1] == w, a[2] == h))
        r = E.sym(s, 'bool', 'outside')
        s.assume(Implies(And(Not(r), *[Not(c.nan) for c in a[0].vals]), inside(a[0])))
        return [(s, r)]
    E.summaries[PK + 'outside'] = outside
    E.summaries[PK + 'polygonPointIntersect'] = lambda E, s, a: [(s, E.sym(s, 'bool', 'corner'))]

    def visit(E, s, a):
        """contract of the grid query (C09): the triangles with the vertex, each once"""
        E.oblige(s, 'post', 'the triangles at the point are looked for', eqp(a[1], p))
        tr = D.dget(s, 'triangles')
        E.oblige(s, 'post', 'in the triangulation of the diagram', And(a[2].obj == tr.obj, a[2].off == tr.off, a[2].len == tr.len))
        s.ghost['asked'] = s.ghost['asked'] + 1

        def body(E, s2):
            i = E.sym(s2, 'uint32', 'slot')
            s2.assume(i < tr.len)
            return [s3 for s3, _ in E.call_value(None, s2, a[3], [i], {})]
        return [(x, None) for x in E.abstract_loop(s, 'triangles at the point', body)]
    E.summaries['(%sCircumcircleGrid).IterThatHasVertex' % PK] = visit

    def sort(E, s, a):
        """sort.Slice: any sequence of exchanges of elements"""
        x = a[0]
        sl = E.iface_val(s, x, num(z3.simplify(x.tag)) - 1)

        def body(E, s2):
            i, j = E.fresh('i'), E.fresh('j')
            s2.assume(And(i >= 0, i < sl.len, j >= 0, j < sl.len))
            u, v = elem(E, s2, sl, i, D.ft), elem(E, s2, sl, j, D.ft)
            E.store(s2, P(sl.obj, z3.simplify(sl.off + i), FP, (), None, True), v, D.ft)
            E.store(s2, P(sl.obj, z3.simplify(sl.off + j), FP, (), None, True), u, D.ft)
            return [s2]
        return [(r, None) for r in E.abstract_loop(s, 'sorted', body)]
    E.summaries['sort.Slice'] = sort

    def lists(ctx):
        if stored:
            return [(n, lambda v, n=n: D.get(v.st, n)) for n in ('points', 'newPolygon')]
        return [(n, g) for n, g in slices_of(ctx, FP) if n not in ctx.live or n in ctx.phi_t]

    def univ(E, ctx):
        out = []
        keyp = lambda key: key[0] == FP
        flags = [(TRUE, lambda v: FALSE)]
        for ci, (c, tid) in enumerate(ctx.entry_st.cells):
            if E.p.ts(tid) == 'bool':
                flags.append((ci, lambda v, c=c, tid=tid: E.load(v.st, c, tid)))
        for sn, g in lists(ctx):
            for fn, fl in flags:
                ok = lambda q, v, fl=fl, fn=fn: inside(q) if fn is TRUE else And(*[is_number(c) for c in q.vals] + [Or(fl(v), inside(q))])
                out.append(('%s in the image %s' % (sn, fn), keyp, lambda v, i, g=g, ok=ok: Implies(And(i >= 0, i < g(v).len), ok(elem(E, v.st, g(v), i, D.ft), v)), lambda v, obj, ix, g=g: ix - g(v).off))
        return out
    E.univ.append(univ)
    k = E.fresh('k')

    def deliver(E, s, poly):
        s2 = s.copy()
        s2.assume(And(k >= 0, k < poly.len))
        E.oblige(s2, 'post', 'the polygon lies in the image', inside(elem(E, s2, poly, k, D.ft)))

    def made(E, s, a):
        E.oblige(s, 'post', 'the polygon is stored for the point', eqp(a[1], p))
        E.oblige(s, 'post', 'the stored polygon has storage of its own', Or(a[2].cap == 0, a[2].obj >= nxt0))
        deliver(E, s, a[2])
        s.ghost['made'] = s.ghost['made'] + 1
        return [(s, None)]
    E.summaries['(*%spolygonMap).AddPolygon' % PK] = made
    if stored:
        outs = E.run(method_fn(E, E.p.typ('*' + IV), what), [D.p, p], st)
        for s, r in outs:
            E.oblige(s, 'post', 'the triangles at the point are looked for once', s.ghost['asked'] == 1)
            E.oblige(s, 'post', 'a polygon is stored once', s.ghost['made'] == 1)
    else:
        def points(E, s, a):
            """contract of IterPoints (C08); the callback is judged for one point"""
            E.oblige(s, 'post', 'the points of the triangulation are gone through', a[0].rows if False else TRUE)

            def body(E, s2):
                s2.ghost['asked'], s2.ghost['made'] = I(0), I(0)
                out = []
                for s3, _ in E.call_value(None, s2, a[1], [p], {}):
                    E.oblige(s3, 'post', 'the triangles at the point are looked for once', s3.ghost['asked'] == 1)
                    E.oblige(s3, 'post', 'at most one polygon for a point', s3.ghost['made'] <= 1)
                    out.append(s3)
                return out
            return [(x, None) for x in E.abstract_loop(s, 'points', body)]
        E.summaries['(%spointMap).IterPoints' % PK] = points

        def cb(E, s, a):
            s.ghost['made'] = s.ghost['made'] + 1
            deliver(E, s, a[0])
            E.oblige(s, 'post', 'no empty polygon is delivered', a[0].len > 0)
            return [(s, None)]
        outs = E.run(PK + 'Voronoi', [D.d, Fn(handler=cb), w, h], st)
    E.need(outs, what + ' returns')


def outside_unit(E):
    """outside: whether a point is more than epsilon away from the image"""
    st = State()
    q = E.sym(st, FP, 'q')
    w, h = E.sym(st, 'int', 'w'), E.sym(st, 'int', 'h')
    st.assume(And(w >= 1, w <= MAXPX, h >= 1, h <= MAXPX))
    st.assume(And(*[is_number(c) for c in q.vals]))

    def near(E, st, op, f32, r, exact, args, fin):
        """a sum of numbers below 2^13 is rounded by less than 2^-30"""
        a, b = args
        if op == 'fadd':
            e = z3.Q(1, 2 ** 30)
            st.assume(Implies(And(a <= 2 ** 13, a >= -2 ** 13, b <= 2 ** 13, b >= -2 ** 13), And(r <= a + b + e, r >= a + b - e)))
    E.round_hook = near
    x, y = [c.v for c in q.vals]
    fw, fh = z3.ToReal(w), z3.ToReal(h)
    outs = E.run(PK + 'outside', [q, w, h], st)
    for s, r in outs:
        E.oblige(s, 'post', 'what is not outside lies in the image (to 0.0002 pixels)', Implies(Not(r), And(x >= -EPS, y >= -EPS, x <= fw + EPS, y <= fh + EPS)))
        E.oblige(s, 'post', 'what is outside does not lie in the image', Implies(r, Not(And(x >= 0, y >= 0, x <= fw, y <= fh))))
    E.need(outs, 'outside returns')


def corner_unit(E, case):
    """polygonPointIntersect, exactly: a point that is no vertex is in the polygon when no two sides have it on
    different hands; a point that no side has on its right (or none on its left) is in it"""
    st = State()
    E.exact = True
    p = E.sym(st, FP, 'p')
    ft = E.p.typ(FP)
    sl = E.sym(st, '[]' + FP, 'polygon')
    k1, k2 = E.fresh('k1'), E.fresh('k2')
    st.assume(And(sl.len >= 0, sl.cap >= sl.len, k1 >= 0, k1 < sl.len, k2 >= 0, k2 < sl.len))
    st.assume(And(*[Not(c.nan) for c in p.vals]))

    def side(s, k):
        n = If(k + 1 == sl.len, I(0), k + 1)
        return elem(E, s, sl, k, ft).vals, elem(E, s, sl, n, ft).vals

    M = z3.Function('product', RealS, RealS, RealS)      # products, of which only commutativity is used

    def mul(st, x, y, f32):
        a, b = [z3.simplify(c.v) for c in (x, y)]
        st.assume(M(a, b) == M(b, a))
        return F(M(a, b), Or(x.nan, y.nan))
    E.fmul_ = mul

    def hand(q):
        (x1, y1), (x2, y2) = [[c.v for c in a] for a in q]
        m = lambda a, b: M(z3.simplify(a), z3.simplify(b))
        return m(p.vals[0].v - x1, y2 - y1) - m(p.vals[1].v - y1, x2 - x1)
    busy = []

    def facts(E, s, a):
        if a.root != FP or busy:
            return
        busy.append(1)
        k = z3.simplify(a.idx - sl.off)
        c, d = side(s, k)
        at = And(a.obj == sl.obj, k >= 0, k < sl.len)
        s.assume(Implies(at, And(*[Not(x.nan) for x in c])))
        if case == 'no vertex':
            s.assume(Implies(at, Not(And(c[0].v == p.vals[0].v, c[1].v == p.vals[1].v))))
        else:
            s.assume(Implies(at, hand((c, d)) >= 0 if case == 'left' else hand((c, d)) <= 0))
        busy.pop()
    E.load_facts.append(facts)
    h1, h2 = hand(side(st, k1)), hand(side(st, k2))

    def templates(E, ctx):
        out = []
        for a in ctx.ints():
            out.append(('%s not positive' % a, lambda v, a=a: v.vals[a] <= 0))
            for b in ctx.ints() if case == 'no vertex' else ():
                if a < b:
                    out.append(('%s or %s not positive' % (a, b), lambda v, a=a, b=b: Or(v.vals[a] <= 0, v.vals[b] <= 0)))
            for i in ctx.ints() if case == 'no vertex' else ():
                for d in (0, 1):
                    if a != i:
                        out.append(('%s counts left %s+%d' % (a, i, d), lambda v, a=a, i=i, d=d: Implies(And(k1 < v.vals[i] + d, h1 > 0), v.vals[a] > 0)))
                        out.append(('%s counts right %s+%d' % (a, i, d), lambda v, a=a, i=i, d=d: Implies(And(k2 < v.vals[i] + d, h2 < 0), v.vals[a] > 0)))
        return out
    E.templates.append(templates)
    outs = E.run(PK + 'polygonPointIntersect', [sl, p], st)
    for s, r in outs:
        if case == 'no vertex':
            E.oblige(s, 'post', 'a point with sides on different hands is not in the polygon', Implies(r, Not(And(h1 > 0, h2 < 0))))
        else:
            E.oblige(s, 'post', 'a point on one hand of all sides is in the polygon', r)
    E.need(outs, 'polygonPointIntersect returns')


UNITS = [('polygonMap.AddPolygon, the point itself', lambda E: operation(E, 'AddPolygon', True)), ('polygonMap.AddPolygon, another point', lambda E: operation(E, 'AddPolygon', False)),
         ('polygonMap.RemovePolygon, the point itself', lambda E: operation(E, 'RemovePolygon', True)), ('polygonMap.RemovePolygon, another point', lambda E: operation(E, 'RemovePolygon', False)),
         ('polygonMap.RemovePolygon, no polygon', removing_nothing), ('newPolygonMap', fresh_map),
         ('outside', outside_unit), ('polygonPointIntersect, no vertex', lambda E: corner_unit(E, 'no vertex')), ('polygonPointIntersect, on the left', lambda E: corner_unit(E, 'left')), ('polygonPointIntersect, on the right', lambda E: corner_unit(E, 'right')), ('segmentsIntersect, exactly', crossing)] + [('segmentsIntersect, edge %d of the image' % k, lambda E, k=k: on_edge(E, k)) for k in range(4)] + [
         ('IVoronoi.processPoint', lambda E: polygon_of(E, 'processPoint')), ('incrdelaunay.Voronoi', lambda E: polygon_of(E, 'Voronoi')),
         ('IVoronoi.addPointToUpdate', to_update), ('IVoronoi.Insert', lambda E: edit(E, 'Insert')), ('IVoronoi.Remove', lambda E: edit(E, 'Remove'))]
HARNESS = [dict(name='tiling', pkg='triangulation/incrdelaunay', package='incrdelaunay', files=['c11.go.txt'], run='TestVerifC12', timeout=600)]
ASSUMPTIONS = ['images of up to 4096 x 4096 pixels and points in them that are not vertices of the super triangle; triangles have circles with finite centres (up to 2^50)',
               'a point inserted for the first time is not yet a vertex of any triangle; a point that is removed has a copy (C08, C11)',
               'IVoronoi is used through Insert, Remove and Set: the polygons stored are those of the points listed (by induction over the units), so that RemovePolygon finds one (its panic otherwise is proved)',
               'sort.Slice is any sequence of exchanges of elements (its comparison is not looked at); the grid queries by C09; the package variables hold what init gives them (their initialisation is executed, and checked not to be written elsewhere)',
               'segmentsIntersect: exact statement in real arithmetic (segments not parallel), range statement in IEEE arithmetic for the edges of the image',
               'that a polygon is exactly the nearest region of its point, and that areas add up to that of the image, is decided by the bounded harness only: random histories, checked against areas and nearest points after every few operations']
LEVEL_NOTE = ('Proved for all states: the table of polygons is a map from points to polygons, an edit drops and remakes once exactly the polygons of the vertices of the affected triangles (an arbitrary point is followed), after the triangulation has changed, '
              'a polygon is made once per point from the triangles at the point, stored in storage of its own, and every vertex delivered lies in the image (to 0.0002 px) for processPoint and Voronoi; the clipping predicates segmentsIntersect, outside and polygonPointIntersect meet their geometric specification. '
              'Partial: the tiling itself (areas, nearest points) is bounded testing, not counted as proved. Trusts gvc, the SSA front end and z3/cvc5.')
BUDGET = 600
