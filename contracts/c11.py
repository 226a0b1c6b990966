"""C11: the triangulation is Delaunay: the steps of Bowyer-Watson insertion, slots and what is reported."""
from gvc.core import *
from gvc.lib import *
from .c10 import LO, HI, MAXPX

PK = MOD + 'triangulation/incrdelaunay.'
DL, TR, PT, ED, CC = PK + 'Delaunay', PK + 'Triangle', PK + 'Point', PK + 'Edge', PK + 'Circumcircle'
one = lambda c: If(c, I(1), I(0))


class Tri:
    """a triangulation in any state: any table of triangles, any list of free slots"""

    def __init__(s, E, st, invariant=True):
        s.E = E
        s.tid = E.p.typ(DL)
        s.v = E.sym(st, s.tid, 'd')
        s.p = E.new(st, s.tid)
        E.store(st, s.p, s.v, s.tid)
        s.tt, s.pt, s.et = E.p.typ(TR), E.p.typ(PT), E.p.typ(ED)
        s.tris, s.free, s.edges = s.first('triangles'), s.first('freeTriangles'), s.first('edges')
        st.assume(And(s.tris.len < 2 ** 32 - 1, s.tris.cap >= s.tris.len, s.free.cap >= s.free.len, s.free.len <= s.tris.len, s.edges.cap >= s.edges.len))
        s.k = E.fresh('k')          # an arbitrary slot
        st.assume(And(s.k >= 0, s.k < s.tris.len))
        s.st0 = st.copy()
        if invariant:
            E.load_facts.append(s.facts)

    def first(s, f):
        return s.v.vals[s.E.p.field(s.tid, f)]

    def get(s, st, f):
        i = s.E.p.field(s.tid, f)
        return s.E.load(st, P(s.p.obj, s.p.idx, s.p.root, (i,), None, True), s.E.p.ut(s.tid)['f'][i]['t'])

    def tri(s, st, i, sl=None):
        return elem(s.E, st, sl or s.get(st, 'triangles'), i, s.tt)

    def verts(s, t):
        return [tuple(t.vals[s.E.p.field(s.tt, n)].vals) for n in 'ABC']

    def dead(s, t):
        return s.verts(t)[0][0] == -1

    def fr(s, st, j, sl=None):
        return elem(s.E, st, sl or s.get(st, 'freeTriangles'), j, s.E.p.typ('uint32'))

    def facts(s, E, st, q):
        """at first: the free slots are dead ones, each listed once (POS: the place in the list)"""
        if q.root == 'uint32' and q.path == ():
            st0 = s.st0.shadow(st)
            x = E.load(st0, P(q.obj, q.idx, 'uint32', (), None, True), E.p.typ('uint32'))
            inside = And(q.obj == s.free.obj, q.idx >= s.free.off, q.idx < s.free.off + s.free.len)
            st.assume(Implies(inside, And(x < s.tris.len, s.dead(s.tri(st0, x, s.tris)), s.POS(x) == q.idx - s.free.off)))

    POS = staticmethod(z3.Function('place in the free list', IntS, IntS))


def grid_event(E, T, want):
    """AddTriangle of the grid: only counted, with the triangle and the slot it is given"""
    def add(E, st, a):
        E.oblige(st, 'post', 'the grid of the triangulation is told', And(a[0].obj == T.p.obj) if isinstance(a[0], P) else FALSE)
        st.ghost['told'] = st.ghost['told'] + 1
        st.ghost['slot'] = a[2]
        E.oblige(st, 'post', 'the grid is told of the triangle', And(*[x == y for x, y in zip(E.flat(a[1], T.tt), E.flat(want, T.tt))]))
        return [(st, None)]
    E.summaries['(*%sCircumcircleGrid).AddTriangle' % PK] = add


def slots(E, what):
    """addTriangle and markFreeTriangle"""
    st = State()
    T = Tri(E, st)
    j1, j2 = E.fresh('j1'), E.fresh('j2')
    st.ghost['told'], st.ghost['slot'] = I(0), I(-1)
    flat = lambda t: E.flat(t, T.tt)
    same = lambda a, b: And(*[x == y for x, y in zip(flat(a), flat(b))])
    tk = T.tri(st, T.k)
    if what == 'addTriangle':
        t = E.sym(st, T.tt, 't')
        st.assume(Not(T.dead(t)))
        grid_event(E, T, t)
        arg = t
    else:
        arg = E.sym(st, 'uint32', 'i')
        st.assume(And(arg < T.tris.len, Not(T.dead(T.tri(st, arg)))))
        grid_event(E, T, tk)
    st0 = st.copy()
    outs = E.run(method_fn(E, E.p.typ('*' + DL), what), [T.p, arg], st)
    for s, r in outs:
        tris, free = T.get(s, 'triangles'), T.get(s, 'freeTriangles')
        slot = s.ghost['slot'] if what == 'addTriangle' else arg
        if what == 'addTriangle':
            E.oblige(s, 'post', 'the grid is told once', s.ghost['told'] == 1)
            E.oblige(s, 'post', 'the slot was free or is new', Or(slot == T.tris.len, And(slot >= 0, slot < T.tris.len, T.dead(T.tri(st0.shadow(s), slot, T.tris)))))
            E.oblige(s, 'post', 'the slot holds the triangle', And(slot < tris.len, same(T.tri(s, slot), t)))
            E.oblige(s, 'post', 'the table grows by a new slot only', tris.len == If(slot == T.tris.len, T.tris.len + 1, T.tris.len))
        else:
            E.oblige(s, 'post', 'the grid is left alone', s.ghost['told'] == 0)
            E.oblige(s, 'post', 'the slot is dead', T.dead(T.tri(s, slot)))
            E.oblige(s, 'post', 'the table keeps its length', tris.len == T.tris.len)
        E.oblige(s, 'frame', 'every other slot stays', Implies(T.k != slot, same(T.tri(s, T.k), tk)))
        s2 = s.copy()
        s2.assume(And(j1 >= 0, j1 < free.len, j2 >= 0, j2 < free.len, j1 != j2))
        for j in (j1, j2):
            q = z3.simplify(T.free.off + j)
            T.facts(E, s2, P(T.free.obj, q, 'uint32', (), None, True))
        a, b = T.fr(s2, j1), T.fr(s2, j2)
        E.oblige(s2, 'post', 'free slots are dead ones of the table', And(a < tris.len, T.dead(T.tri(s2, a))))
        E.oblige(s2, 'post', 'a free slot is listed once', a != b)
    E.need(outs, what + ' returns')


def add_edge(E):
    """addEdge: whether edge e0 is listed changes exactly when e0 is given; an edge is listed once at most"""
    st = State()
    T = Tri(E, st, invariant=False)
    e = E.sym(st, T.et, 'e')
    e0 = E.sym(st, T.et, 'e0')
    eq = lambda a, b: And(*[x == y for x, y in zip(E.flat(a, T.et), E.flat(b, T.et))])
    n = T.edges.len
    p0, pe = E.fresh('place of e0'), E.fresh('place of e')
    at = lambda s, j, sl=None: elem(E, s, sl or T.get(s, 'edges'), j, T.et)
    for x, v in ((p0, e0), (pe, e)):
        st.assume(And(x >= -1, x < n))
        st.assume(Implies(x >= 0, eq(at(st, x), v)))
    st.assume(Implies(eq(e, e0), p0 == pe))
    st0 = st.copy()

    def facts(E, s, q):
        if q.root == ED and q.path == ():
            x = E.load(st0.shadow(s), P(q.obj, q.idx, ED, (), None, True), T.et)
            i = q.idx - T.edges.off
            inside = And(q.obj == T.edges.obj, i >= 0, i < n)
            s.assume(Implies(inside, And(Implies(eq(x, e0), i == p0), Implies(eq(x, e), i == pe))))
    E.load_facts.append(facts)

    def templates(E, ctx):
        out = []
        for x in ctx.ints():
            for d in (0, 1):
                out.append(('e is not before %s+%d' % (x, d), lambda v, x=x, d=d: Or(pe < 0, pe >= v.vals[x] + d)))
        return out
    E.templates.append(templates)
    outs = E.run(method_fn(E, E.p.typ('*' + DL), 'addEdge'), [T.p, e], st)
    j1, j2 = E.fresh('j1'), E.fresh('j2')
    for s, r in outs:
        ed = T.get(s, 'edges')
        m = And(p0 >= 0)
        s2 = s.copy()
        s2.assume(And(j1 >= 0, j1 < ed.len, j2 >= 0, j2 < ed.len, j1 != j2))
        for j in (j1, j2):
            for d in (0, 1):
                facts(E, s2, P(T.edges.obj, z3.simplify(T.edges.off + j + d), ED, (), None, True))
        listed = Or(*[And(w >= 0, w < ed.len, eq(at(s, w), e0)) for w in (p0, pe, z3.simplify(p0 - 1), z3.simplify(ed.len - 1), I(0))])
        should = If(eq(e, e0), Not(m), m)
        E.oblige(s, 'post', 'an edge that should be listed is', Implies(should, listed))
        E.oblige(s2, 'post', 'an edge that should not be listed is not', Implies(Not(should), Not(eq(at(s2, j1), e0))))
        E.oblige(s2, 'post', 'an edge is listed once', Not(And(eq(at(s2, j1), e0), eq(at(s2, j2), e0))))
        for f in ('triangles', 'freeTriangles', 'hull', 'ears'):
            a, b = T.get(s, f), T.first(f)
            E.oblige(s, 'frame', 'addEdge changes the edges only', And(a.obj == b.obj, a.off == b.off, a.len == b.len))
    E.need(outs, 'addEdge returns')


def reported(E):
    """IterTriangles reports the live triangles without a vertex of the super triangle, each once"""
    st = State()
    T = Tri(E, st, invariant=False)
    sup = T.first('superTriangle')
    v0 = E.sym(st, T.tt, 'any')
    flat = lambda t: E.flat(t, T.tt)
    same = lambda a, b: And(*[x == y for x, y in zip(flat(a), flat(b))])
    CNT = z3.Function('reportable triangles like this one before', IntS, IntS)
    st.assume(CNT(I(0)) == 0)
    rep = lambda t: And(Not(T.dead(t)), *[Not(And(a[0] == b[0], a[1] == b[1])) for a in T.verts(t) for b in T.verts(sup)])

    def facts(E, s, q):
        if q.root == TR and q.path == ():
            t = E.load(s, P(q.obj, q.idx, TR, (), None, True), T.tt)
            i = z3.simplify(q.idx - T.tris.off)
            s.assume(Implies(And(q.obj == T.tris.obj, i >= 0, i < T.tris.len), CNT(z3.simplify(i + 1)) == CNT(i) + one(And(rep(t), same(t, v0)))))
    E.load_facts.append(facts)
    st.ghost['calls'] = I(0)

    def cb(E, s, a):
        E.oblige(s, 'post', 'what is reported is live and touches no vertex of the super triangle', rep(a[0]))
        s.ghost['calls'] = s.ghost['calls'] + one(same(a[0], v0))
        return [(s, None)]

    def templates(E, ctx):
        out = []
        for x in ctx.ints():
            for d in (0, 1):
                out.append(('reported before %s+%d' % (x, d), lambda v, x=x, d=d: v.ghost('calls') == CNT(z3.simplify(v.vals[x] + d))))
                out.append(('reported from %s+%d' % (x, d), lambda v, x=x, d=d: v.ghost('calls') == CNT(T.tris.len) - CNT(z3.simplify(v.vals[x] + d))))
        return out
    E.templates.append(templates)
    tid = E.p.typ(DL)
    try:
        fn = method_fn(E, tid, 'IterTriangles')
        recv = T.v
    except Unsupported:
        fn, recv = method_fn(E, E.p.typ('*' + DL), 'IterTriangles'), T.p
    outs = E.run(fn, [recv, Fn(handler=cb)], st)
    for s, r in outs:
        E.oblige(s, 'post', 'every triangle is reported as often as it is in the table', s.ghost['calls'] == CNT(T.tris.len))
    E.need(outs, 'IterTriangles returns')


def insert(E):
    """Insert: the triangles with the point in their circle are removed, and each edge that bounds them (is an edge
    of an odd number of them) and does not pass through the point makes a triangle with the point"""
    st = State()
    T = Tri(E, st, invariant=False)
    p = E.sym(st, T.pt, 'p')
    st.assume(And(*[And(c >= 0, c <= MAXPX) for c in p.vals]))
    e0 = E.sym(st, T.et, 'e0')
    ends = lambda e: [tuple(sub(E, st, e, T.et, n).vals) for n in 'AB']
    small = lambda e: And(*[And(c >= LO, c <= HI) for q in ends(e) for c in q])
    eq = lambda a, b: And(*[x == y for x, y in zip(E.flat(a, T.et), E.flat(b, T.et))])
    pq = lambda a, b: And(a[0] == b[0], a[1] == b[1])
    un = lambda a, b, e: Or(And(pq(a, ends(e)[0]), pq(b, ends(e)[1])), And(pq(a, ends(e)[1]), pq(b, ends(e)[0])))
    st.assume(small(e0))
    IN = z3.Function('place of e0 in the list', IntS, IntS)
    ORDERED = z3.Function('is an edge by NewEdge', *([IntS] * 4 + [BoolS]))
    st.assume(ORDERED(*[c for q in ends(e0) for c in q]))
    st.assume(Not(pq(*ends(e0))))
    PX, PY = [c for c in p.vals]
    (ax, ay), (bx, by) = ends(e0)
    G = (bx - ax) * (PY - by) - (by - ay) * (PX - bx)
    fi = E.p.field(T.tid, 'edges')
    ft = E.p.ut(T.tid)['f'][fi]['t']
    ep = P(T.p.obj, T.p.idx, DL, (fi,), None, True)

    def new_edge(E, s, a):
        """contract of NewEdge (C10): the two ends, in an order that does not depend on which is named first"""
        r = E.sym(s, T.et, 'edge')
        u, v = [tuple(x.vals) for x in a]
        x, y = ends(r)
        s.assume(Or(And(pq(x, u), pq(y, v)), And(pq(x, v), pq(y, u))))
        s.assume(Implies(un(u, v, e0), eq(r, e0)))
        return [(s, r)]
    E.summaries[PK + 'NewEdge'] = new_edge

    def listed(s):
        e = T.get(s, 'edges')
        return And(e.obj == s.ghost['list'], e.len == s.ghost['n'], e.off == 0)

    def add(E, s, a):
        """contract of addEdge (unit above)"""
        e = T.get(s, 'edges')
        E.oblige(s, 'pre', 'the list of edges holds the edges given since it was emptied', Or(e.len == 0, listed(s)))
        before = If(e.len == 0, I(0), s.ghost['par'])
        new = E.sym(s, ft, 'edges')
        s.assume(And(new.obj >= 1, new.off == 0, new.cap >= new.len, new.len >= 0))
        s.ghost['par'] = z3.simplify(If(eq(a[1], e0), 1 - before, before))
        s.assume(And(IN(new.obj) >= -1, IN(new.obj) < new.len, (IN(new.obj) >= 0) == (s.ghost['par'] == 1)))
        s.assume(new.obj >= s.nxt - 1)
        s.ghost['list'], s.ghost['n'] = new.obj, new.len
        E.store(s, ep, new, ft)
        return [(s, None)]
    E.summaries['(*%sDelaunay).addEdge' % PK] = add

    def facts(E, s, q):
        if q.root == ED and q.path == ():
            x = E.load(s, P(q.obj, q.idx, ED, (), None, True), T.et)
            L = s.ghost['list']
            s.assume(Implies(And(q.obj == L, q.idx >= 0, q.idx < s.ghost['n']), And(eq(x, e0) == (q.idx == IN(L)), small(x), Implies(un(*ends(x), e0), eq(x, e0)))))
        if q.root == TR and q.path == ():
            t = E.load(s, P(q.obj, q.idx, TR, (), None, True), T.tt)
            s.assume(And(*[And(c >= LO, c <= HI) for w in T.verts(t) for c in w]))
    E.load_facts.append(facts)
    CIRC = [z3.Function('circle ' + n, *([IntS] * 6 + [RealS])) for n in 'xyr']

    def circle(E, s, a):
        r = E.sym(s, E.p.typ(CC), 'circle')
        for f, x in zip(CIRC, r.vals):
            s.assume(And(x.v == f(*[c for q in a for c in q.vals]), Not(x.nan)))
        return [(s, r)]
    E.summaries[PK + 'calcCircumcircle'] = circle
    st.ghost.update(par=I(0), spec=I(0), list=I(0), n=I(0), added=I(0), marked=I(0), counted=I(0), visits=I(0))
    flat = lambda t: E.flat(t, T.tt)

    def add_tri(E, s, a):
        t = a[1]
        vs = T.verts(t)
        me = tuple(p.vals)
        E.oblige(s, 'post', 'a new triangle has the point as a vertex', Or(*[pq(v, me) for v in vs]))
        E.oblige(s, 'post', 'its circle is that of its vertices', And(*[x.v == f(*[c for v in vs for c in v]) for f, x in zip(CIRC, t.vals[E.p.field(T.tt, 'Circumcircle')].vals)]))
        m = Or(*[And(pq(vs[i], me), un(vs[(i + 1) % 3], vs[(i + 2) % 3], e0)) for i in range(3)])
        s.ghost['added'] = s.ghost['added'] + one(m)
        return [(s, None)]
    E.summaries['(*%sDelaunay).addTriangle' % PK] = add_tri
    cur = {}

    def mark(E, s, a):
        E.oblige(s, 'post', 'the slot freed is that of the triangle', a[1] == cur['i'] if 'i' in cur else FALSE)
        s.ghost['marked'] = s.ghost['marked'] + 1
        return [(s, None)]
    E.summaries['(*%sDelaunay).markFreeTriangle' % PK] = mark

    def cavity(E, s, a):
        """contract of the grid query (C09): every triangle with the point in its circle, once"""
        E.oblige(s, 'post', 'the triangles with the point in their circle are looked for', And(*[x == y for x, y in zip(a[1].vals, p.vals)]))
        tr = T.get(s, 'triangles')
        E.oblige(s, 'post', 'in the table of the triangulation', And(a[2].obj == tr.obj, a[2].off == tr.off, a[2].len == tr.len))
        s.ghost['visits'] = s.ghost['visits'] + 1

        def body(E, s2):
            i = E.sym(s2, 'uint32', 'slot')
            s2.assume(i < tr.len)
            t = T.tri(s2, i)
            vs = T.verts(t)
            s2.assume(And(*[Not(pq(vs[j], vs[(j + 1) % 3])) for j in range(3)]))
            n = [un(vs[j], vs[(j + 1) % 3], e0) for j in range(3)]
            odd = z3.Xor(z3.Xor(n[0], n[1]), n[2])
            m0 = s2.ghost['marked']
            cur['i'] = i
            out = []
            for s3, _ in E.call_value(None, s2, a[3], [i], {}):
                E.oblige(s3, 'post', 'the slot of the triangle is freed once', s3.ghost['marked'] == m0 + 1)
                s3.ghost['spec'] = If(odd, 1 - s3.ghost['spec'], s3.ghost['spec'])
                out.append(s3)
            cur.clear()
            return out
        return [(x, None) for x in E.abstract_loop(s, 'cavity', body)]
    E.summaries['(%sCircumcircleGrid).RemoveCircumcirclesThatContain' % PK] = cavity

    def count(E, s, a):
        s.ghost['counted'] = s.ghost['counted'] + 1
        E.oblige(s, 'post', 'the point is counted', And(*[x == y for x, y in zip(a[1].vals, p.vals)]))
        r = E.sym(s, 'uint32', 'copies')
        s.assume(r >= 1)
        return [(s, r)]
    E.summaries['(*%spointMap).AddPoint' % PK] = count

    def par(v):
        e = T.get(v.st, 'edges')
        return If(e.len == 0, I(0), v.ghost('par'))

    def templates(E, ctx):
        if ctx.name == 'cavity':
            return [('edges of the removed triangles', lambda v: par(v) == v.ghost('spec')),
                    ('edges as given', lambda v: Or(T.get(v.st, 'edges').len == 0, listed(v.st))),
                    ('parities', lambda v: And(Or(v.ghost('par') == 0, v.ghost('par') == 1), Or(v.ghost('spec') == 0, v.ghost('spec') == 1))),
                    ('place', lambda v: Or(T.get(v.st, 'edges').len == 0, And(IN(v.ghost('list')) < v.ghost('n'), (IN(v.ghost('list')) >= 0) == (v.ghost('par') == 1))))]
        out = []
        pos = lambda v: IN(v.ghost('list'))
        for x in ctx.ints():
            for d in (0, 1):
                out.append(('made before %s+%d' % (x, d), lambda v, x=x, d=d: v.ghost('added') == one(And(v.ghost('n') > 0, T.get(v.st, 'edges').len > 0, pos(v) >= 0, pos(v) < v.vals[x] + d, G != 0))))
                out.append(('made from %s+%d' % (x, d), lambda v, x=x, d=d: v.ghost('added') == one(And(T.get(v.st, 'edges').len > 0, pos(v) >= v.vals[x] + d, G != 0))))
        return out
    E.templates.append(templates)
    outs = E.run(method_fn(E, E.p.typ('*' + DL), 'Insert'), [T.p, p], st)
    for s, r in outs:
        E.oblige(s, 'post', 'the removed triangles are looked for once', s.ghost['visits'] == 1)
        E.oblige(s, 'post', 'a triangle is made of an edge that bounds the removed triangles and no other, unless it passes through the point', s.ghost['added'] == one(And(s.ghost['spec'] == 1, G != 0)))
        E.oblige(s, 'post', 'the point is counted once', s.ghost['counted'] == 1)
        a, b = T.get(s, 'superTriangle'), T.first('superTriangle')
        E.oblige(s, 'frame', 'the super triangle stays', And(*[x == y for x, y in zip(flat(a), flat(b))]))
    E.need(outs, 'Insert returns')


UNITS = [('Delaunay.addTriangle', lambda E: slots(E, 'addTriangle')), ('Delaunay.markFreeTriangle', lambda E: slots(E, 'markFreeTriangle')),
         ('Delaunay.addEdge', add_edge), ('Delaunay.IterTriangles', reported), ('Delaunay.Insert', insert)]
HARNESS = [dict(name='histories', pkg='triangulation/incrdelaunay', package='incrdelaunay', files=['c11.go.txt'], run='TestVerifC11', timeout=600)]
ASSUMPTIONS = ['Bowyer-Watson: if the triangles are Delaunay and those removed are exactly the ones with the new point in their circle, the triangles made of the point and the edges that bound the removed region are Delaunay again (textbook theorem, not proved here)',
               'Insert is given a point of an image of up to 4096 pixels (the range in which C10 proves the geometric predicates) and triangles whose vertices are those of the super triangle or of the image; addEdge, addTriangle, markFreeTriangle stand by the contracts proved for them here, NewEdge and inCircle by C10, the grid by C09, the point map by C08',
               'the grid visits the triangles with the point in their circle according to the circle it stored (float32 centre and radius plus 0.001); that this margin covers the rounding is only tested',
               'the retriangulation after Remove (sorting of the hole, choice of ears) and the global clauses (no overlap, the super triangle filled, empty circles after any history) are decided by the bounded harness only: random histories, checked in exact integer arithmetic after every operation']
LEVEL_NOTE = ('Insert is proved, for any state of the table: every triangle the grid reports is freed once, a triangle is made with the point for exactly the edges that belong to an odd number of them and are not in line with it, '
              'with the circle of its vertices; slots, free list, edge list and what IterTriangles reports are proved for all tables. Partial: that the steps keep the whole Delaunay (Bowyer-Watson) is a paper step and Remove is bounded (not counted as proved). Trusts gvc, the SSA front end and z3/cvc5.')
