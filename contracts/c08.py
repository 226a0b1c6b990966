"""C08: point bookkeeping is an exact multiset."""
from gvc.core import *
from gvc.lib import *

PK = MOD + 'triangulation/incrdelaunay.'
PT, PE, PM, DL = PK + 'Point', PK + 'pointEntry', PK + 'pointMap', PK + 'Delaunay'
COPIES = 2 ** 32 - 2


class Table:
    """a point map in any state its operations can reach, seen from an arbitrary point q held m times:
    the entries of q are e (in bucket hq), or none when m = 0; every bucket owns its storage"""

    def __init__(t, E, st, others=()):
        t.E = E
        t.pe, t.pt, t.pm = E.p.typ(PE), E.p.typ(PT), E.p.typ(PM)
        t.rowt = E.p.typ('[]' + PE)
        v = E.sym(st, t.pm, 'map')
        t.ptr = E.new(st, t.pm)
        E.store(st, t.ptr, v, t.pm)
        (t.path, _), = struct_slices(E, t.pm, '[]' + PE)
        t.st0 = st.copy()
        t.n = t.rows(st).len
        st.assume(t.n >= 1)
        t.q = t.point(st, 'q')
        t.m, t.e = E.fresh('m'), E.fresh('e')
        st.assume(And(t.m >= 0, t.m <= COPIES, (t.m == 0) == (t.e < 0)))
        t.hq = t.hash(st, t.q)
        t.b, t.j = E.fresh('b'), E.fresh('j')
        st.assume(And(t.b >= 0, t.b < t.n, t.j >= 0))
        t.owner = z3.Function('owner', IntS, IntS)
        t.nxt0 = st.nxt
        t.busy = set()

    def point(t, st, name):
        p = t.E.sym(st, PT, name)
        st.assume(And(*[c >= 0 for c in p.vals]))
        return p

    def hash(t, st, p):
        (s, h), = t.E.run(PK + 'Point.Hash' if PK + 'Point.Hash' in t.E.p.funcs else method_fn(t.E, t.pt, 'Hash'), [p], st)
        r = t.E.irem(st, h, t.n)
        st.assume(And(r >= 0, r < t.n))
        return r

    def rows(t, st):
        return sub_path(t.E.load(st, t.ptr, t.pm), t.path)

    def row(t, st, b):
        return elem(t.E, st, t.rows(st), b, t.rowt)

    def entry(t, st, row, j):
        v = elem(t.E, st, row, j, t.pe)
        return [sub(t.E, st, v, t.pe, n) for n in ('x', 'y', 'count')]

    def is_q(t, en):
        return And(*[a == b for a, b in zip(en[:2], t.q.vals)])

    def owned(t, st, b, o=None):
        r = t.row(st, b)
        return Implies(r.cap > 0, (o or t.owner)(r.obj) == b)

    def begin(t, st, buckets):
        """the representation invariant of the state before the operation, instantiated wherever its
        memory is read"""
        E, bs = t.E, [t.hq, t.b] + list(buckets)
        st.assume(And(*[t.owned(st, b) for b in bs]))
        r = t.row(st, t.hq)
        st.assume(Implies(t.m > 0, And(t.e < r.len, *[a == b for a, b in zip(t.entry(st, r, t.e), t.q.vals + [t.m])])))

        def facts(E, st2, node, obj, idx, v):
            if node.key[0] != PE or node.stage != 0:
                return []
            k = (id(st2.pcs), obj.get_id(), idx.get_id())
            if k in t.busy:
                return []
            t.busy.add(k)
            try:
                s0 = t.st0.shadow(st2)
                en = t.entry(s0, S(obj, I(0), I(1), I(1), PE), idx)
                out = []
                for b in bs:
                    r = t.row(s0, b)
                    at = And(obj == r.obj, idx >= r.off, idx < r.off + r.len)
                    out.append(Implies(at, And(en[2] >= 1, en[2] <= COPIES, Implies(t.is_q(en), And(b == t.hq, idx - r.off == t.e, t.m > 0)))))
                return out
            finally:
                t.busy.discard(k)
        E.base_hooks.append(facts)

    def check(t, st, what, m, changed=None):
        """the representation invariant afterwards, with q held m times; returns nothing"""
        E = t.E
        E.oblige(st, 'rep', what + ': as many buckets as before', t.rows(st).len == t.n)
        r = t.row(st, t.b)
        E.oblige(st, 'rep', what + ': every bucket owns its storage', Or(r.cap == 0, And(r.obj < t.nxt0, t.owner(r.obj) == t.b), And(r.obj >= t.nxt0, t.b == changed) if changed is not None else FALSE))
        s2 = st.copy()
        s2.assume(t.j < r.len)
        en = t.entry(s2, r, t.j)
        E.oblige(s2, 'rep', what + ': every entry holds at least one copy', en[2] >= 1)
        # q is found with its number of copies: at the same entry, at the end, or where another one was
        hr = t.row(st, t.hq)
        spots = [t.e, z3.simplify(hr.len - 1)] + [x for x in getattr(t, 'spots', [])]
        here = Or(*[And(x >= 0, x < hr.len, *[a == b for a, b in zip(t.entry(st, hr, x), t.q.vals + [m])]) for x in spots])
        E.oblige(st, 'post', what + ': the point is held with its number of copies', Implies(m > 0, here))
        E.oblige(s2, 'post', what + ': the point has an entry in its bucket only, and only if it is held', Implies(t.is_q(en), And(t.b == t.hq, m > 0, en[2] == m)))
        s2.assume(t.is_q(en))
        j2 = E.fresh('j2')
        s2.assume(And(j2 >= 0, j2 < r.len, j2 != t.j))
        E.oblige(s2, 'post', what + ': the point has at most one entry', Not(t.is_q(t.entry(s2, r, j2))))


def search(E, t, p, hp):
    """loop invariants: entries passed so far are not p (said of the entry of q, and of an arbitrary one)"""
    def templates(E, ctx):
        out = []
        for n in ctx.ints():
            for d in (0, 1):
                out.append(('q not passed (%s+%d)' % (n, d), lambda v, n=n, d=d: Implies(And(t.m > 0, eqp(p, t.q)), t.e >= v.vals[n] + d)))
        return out
    E.templates.append(templates)


def eqp(p, q):
    return And(*[a == b for a, b in zip(p.vals, q.vals)])


def operation(E, method, delta, same, held=None):
    """one operation on point p, seen from q = p or from q != p"""
    st = State()
    t = Table(E, st)
    if same:
        p, hp = t.q, t.hq
    else:
        p = t.point(st, 'p')
        st.assume(Not(eqp(p, t.q)))
        hp = t.hash(st, p)
    t.begin(st, [hp])
    t.st0 = st.copy()
    if held is not None:
        st.assume(t.m > 0 if held else t.m == 0)
    # where q is put when its entry is moved: the place of the entry removed
    spot = E.fresh('spot')
    t.spots = [spot]
    frozen = st.copy()
    search(E, t, p, hp)
    if held is not True and method == 'RemovePoint':
        E.allow_panic = lambda *a: TRUE
    outs = E.run(method_fn(E, E.p.typ('*' + PM), method), [t.ptr, p], st)
    for s, r in outs:
        if held is False and method == 'RemovePoint':
            E.oblige(s, 'post', 'removing a point that is not held panics', FALSE)
            continue
        d = delta if same else 0
        if same:
            E.oblige(s, 'post', '%s returns the number of copies' % method, r == t.m + d)
        # q's entry can have moved to the place of the entry removed, which is where the only change is
        t.spots = []
        if not same and method == 'RemovePoint':
            hr0, hr = t.row(t.st0.shadow(s), t.hq), t.row(s, t.hq)
            moved = [a for a in idxs(E, s, t)]
            t.spots = moved
        t.check(s, method, t.m + d, hp)
    if held is False and method == 'RemovePoint':
        E.need([frozen], 'a point that is not held exists')
    else:
        E.need(outs, method + ' returns')


def idxs(E, s, t):
    """indices of the bucket entries written on this path, relative to the bucket"""
    out = []
    for key, part in s.log:
        pass
    for k, nd in s.mem.items():
        while nd is not None and k[0] == PE:
            if nd.kind == 'store':
                obj, idx, val = nd.a
                out.append(z3.simplify(idx - t.row(s, t.hq).off))
            nd = nd.prev
    seen, r = set(), []
    for x in out:
        if x.get_id() not in seen:
            seen.add(x.get_id())
            r.append(x)
    return r


def iterate(E):
    """every held point is enumerated once, and no other"""
    st = State()
    t = Table(E, st)
    t.begin(st, [])
    t.st0 = st.copy()
    st.ghost['calls'] = I(0)

    def callback(E, s, args):
        hit = eqp(args[0], t.q)
        s.ghost['calls'] = If(hit, s.ghost['calls'] + 1, s.ghost['calls'])
        return [(s, None)]

    one = If(t.m > 0, I(1), I(0))

    def facts(E, st2, node, obj, idx, v):       # the bucket being read satisfies the invariant
        if node.key[0] != PE or node.stage != 0:
            return []
        k = (id(st2.pcs), obj.get_id(), idx.get_id(), 'o')
        if k in t.busy:
            return []
        t.busy.add(k)
        try:
            s0 = t.st0.shadow(st2)
            en = t.entry(s0, S(obj, I(0), I(1), I(1), PE), idx)
            b = t.owner(obj)
            r = t.row(s0, b)
            at = And(b >= 0, b < t.n, obj == r.obj, idx >= r.off, idx < r.off + r.len)
            return [Implies(at, Implies(t.is_q(en), And(b == t.hq, idx - r.off == t.e, t.m > 0)))]
        finally:
            t.busy.discard(k)
    E.base_hooks.append(facts)

    def rowfacts(E, st2, node, obj, idx, v):    # every bucket owns its storage
        if node.key != ('[]' + PE, (), 'so') or node.stage != 0 or ('r', id(st2.pcs), obj.get_id(), idx.get_id()) in t.busy:
            return []
        k = ('r', id(st2.pcs), obj.get_id(), idx.get_id())
        t.busy.add(k)
        try:
            s0 = t.st0.shadow(st2)
            tab = t.rows(s0)
            r = elem(E, s0, tab, z3.simplify(idx - tab.off), t.rowt)
            return [Implies(And(obj == tab.obj, idx >= tab.off, idx < tab.off + tab.len, r.cap > 0), t.owner(r.obj) == idx - tab.off)]
        finally:
            t.busy.discard(k)
    E.base_hooks.append(rowfacts)

    def templates(E, ctx):
        out = []
        calls = lambda v: v.ghost('calls')
        for n in ctx.ints():
            for d in (0, 1):
                out.append(('calls by bucket %s+%d' % (n, d), lambda v, n=n, d=d: calls(v) == If(t.hq < v.vals[n] + d, one, I(0))))
                out.append(('no call before bucket %s+%d' % (n, d), lambda v, n=n, d=d: Implies(t.hq >= v.vals[n] + d, calls(v) == 0)))
                for rn, r in outer_ints(ctx, True) + [(None, None)]:
                    if r is not None:
                        out.append(('calls in bucket %s by entry %s+%d' % (rn, n, d), lambda v, n=n, d=d, r=r: calls(v) == If(t.hq < r(v), one, If(And(t.hq == r(v), t.e < v.vals[n] + d), one, I(0)))))
        return out
    E.templates.append(templates)
    v = E.load(st, t.ptr, t.pm)
    f = method_fn(E, t.pm, 'IterPoints')
    outs = E.run(f, [v, Fn(handler=callback)], st)
    for s, r in outs:
        E.oblige(s, 'post', 'a held point is enumerated once, any other not at all', s.ghost['calls'] == one)
        t.check(s, 'IterPoints', t.m)
    E.need(outs, 'IterPoints returns')


def fresh_map(E):
    st = State()
    n, b = E.sym(st, 'int', 'size'), E.fresh('b')
    st.assume(And(n >= 1, n <= MAXOBJ_LEN, b >= 0, b < n))
    outs = E.run(PK + 'newPointMap', [n], st)
    pm = E.p.typ(PM)
    (path, _), = struct_slices(E, pm, '[]' + PE)
    for s, r in outs:
        rows = sub_path(r, path)
        E.oblige(s, 'post', 'the map has the size asked for', rows.len == n)
        row = elem(E, s, rows, b, E.p.typ('[]' + PE))
        E.oblige(s, 'post', 'every bucket is empty and shares no storage', And(row.len == 0, row.cap == 0))
    E.need(outs, 'newPointMap returns')


def delaunay(E, st):
    d = E.new(st, E.p.typ(DL))
    E.store(st, d, E.sym(st, E.p.typ(DL), 'd'), E.p.typ(DL))
    for f in ('numPoints', 'uniquePoints'):
        st.assume(And(get(E, st, d, f) >= 0, get(E, st, d, f) <= 2 ** 62))
    return d


def get(E, st, d, name):
    i = E.p.field(E.p.typ(DL), name)
    return E.load(st, P(d.obj, d.idx, DL, (i,), None, True), E.p.ut(E.p.typ(DL))['f'][i]['t'])


def flatv(E, st, d, names):
    out = []
    for n in names:
        i = E.p.field(E.p.typ(DL), n)
        out += E.flat(get(E, st, d, n), E.p.ut(E.p.typ(DL))['f'][i]['t'])
    return out


def grid_contracts(E):
    """what the point bookkeeping may assume of the triangulation proper: any triangles are visited, in
    any number; the entries written are the grid's"""
    def visit(E, st, a):
        g, p, tris, f = a

        def body(E, s):
            i = E.sym(s, 'uint32', 'slot')
            s.assume(i < tris.len)
            return [x for x, r in E.call_value(None, s, f, [i], {})]
        return [(x, None) for x in E.abstract_loop(st, 'triangles visited', body)]
    for m in ('RemoveCircumcirclesThatContain', 'RemoveThatHasVertex', 'IterCircumcirclesThatContain', 'IterThatHasVertex'):
        E.summaries['(%sCircumcircleGrid).%s' % (PK, m)] = visit
    E.summaries['(*%sCircumcircleGrid).AddTriangle' % PK] = lambda E, st, a: [(st, None)]
    E.summaries[PK + 'NewTriangle'] = lambda E, st, a: [(st, E.sym(st, E.p.typ(PK + 'Triangle'), 'tri'))]
    E.summaries[PK + 'calculateScore'] = lambda E, st, a: [(st, E.sym(st, 'float64', 'score'))]


    def add_edge(E, st, a):
        """contract of addEdge (unit below): changes the list of edges and nothing else"""
        i = E.p.field(E.p.typ(DL), 'edges')
        t = E.p.ut(E.p.typ(DL))['f'][i]['t']
        e = E.sym(st, t, 'edges')
        E.store(st, P(a[0].obj, a[0].idx, DL, (i,), None, True), e, t)
        return [(st, None)]
    E.summaries['(*%sDelaunay).addEdge' % PK] = add_edge


def add_edge_frame(E):
    st = State()
    d = delaunay(E, st)
    e = E.sym(st, PK + 'Edge', 'e')
    E.partial = True
    st0 = st.copy()
    outs = E.run(method_fn(E, E.p.typ('*' + DL), 'addEdge'), [d, e], st)
    names = [f['n'] for f in E.p.ut(E.p.typ(DL))['f'] if f['n'] != 'edges']
    for s, r in outs:
        E.oblige(s, 'frame', 'addEdge changes the list of edges only', And(*[a == b for a, b in zip(flatv(E, s, d, names), flatv(E, st0.shadow(s), d, names))]))
    E.need(outs, 'addEdge returns')


def map_contract(E, d, log):
    """contracts of the point map, from the units above"""
    def m(name):
        def f(E, st, a):
            i = E.p.field(E.p.typ(DL), 'pointMap')
            E.oblige(st, 'post', 'the point map of the triangulation is used', And(a[0].obj == d.obj, a[0].idx == d.idx) if a[0].path == (i,) and a[0].root == DL else FALSE)
            r = E.sym(st, 'uint32', 'copies')
            log.append((name, a[1], r))
            st.ghost['ops'] = st.ghost['ops'] + 1
            st.ghost['copies'] = r
            if name == 'AddPoint':
                st.assume(r >= 1)
            st.ghost['adds' if name == 'AddPoint' else 'removes'] = st.ghost['adds' if name == 'AddPoint' else 'removes'] + 1
            return [(st, r)]
        return f
    for n in ('AddPoint', 'RemovePoint'):
        E.summaries['(*%spointMap).%s' % (PK, n)] = m(n)


def edit(E, method):
    st = State()
    # partial correctness: the panics of the triangle surgery are not the bookkeeping's (see C11)
    E.partial = True
    E.allow_panic = lambda *a: TRUE
    E.cand_filter = lambda loop, n: n.endswith((' same', 'same or fresh', ' fresh'))
    d = delaunay(E, st)
    p = E.sym(st, PT, 'p')
    st.assume(And(*[c >= 0 for c in p.vals]))
    st.ghost.update(adds=I(0), removes=I(0), ops=I(0), copies=I(0))
    log = []
    grid_contracts(E)
    map_contract(E, d, log)
    E.externs['sort.Slice'] = lambda E, st, a, ins: None
    st0 = st.copy()
    outs = E.run(method_fn(E, E.p.typ('*' + DL), method), [d, p], st)
    k = 1 if method == 'Insert' else -1
    for s, r in outs:
        g = s.ghost
        E.oblige(s, 'post', '%s counts the point once' % method, And(g['adds'] == (1 if k > 0 else 0), g['removes'] == (0 if k > 0 else 1)))
        E.oblige(s, 'post', '%s changes the number of points by one' % method, get(E, s, d, 'numPoints') == get(E, st0.shadow(s), d, 'numPoints') + k)
        last = g['copies'] == (1 if k > 0 else 0)
        E.oblige(s, 'post', '%s changes the number of distinct points with the first or last copy only' % method,
                 get(E, s, d, 'uniquePoints') == get(E, st0.shadow(s), d, 'uniquePoints') + If(last, I(k), I(0)))
        if k < 0:
            names = ('triangles', 'freeTriangles', 'grid')
            E.oblige(s, 'post', 'while copies are left the triangulation stays as it is', Implies(Not(last), And(*[a == b for a, b in zip(flatv(E, s, d, names), flatv(E, st0.shadow(s), d, names))])))
            tr = get(E, st0.shadow(s), d, 'triangles')
            i = E.fresh('i')
            s2 = s.copy()
            s2.assume(And(i >= 0, i < tr.len, Not(last)))
            tt = E.p.typ(PK + 'Triangle')
            old, new = E.flat(elem(E, st0.shadow(s2), tr, i, tt), tt), E.flat(elem(E, s2, tr, i, tt), tt)
            E.oblige(s2, 'post', 'while copies are left no triangle is changed', And(*[a == b for a, b in zip(old, new)]))
    for n, q, r in log:
        E.oblige(State(), 'post', '%s counts the given point' % method, z3.BoolVal(all(a.eq(b) for a, b in zip(q.vals, p.vals))))
    E.need(outs, method + ' returns')


def number(E):
    st = State()
    d = delaunay(E, st)
    v = E.load(st, d, E.p.typ(DL))
    outs = E.run(method_fn(E, E.p.typ(DL), 'NumPoints'), [v], st)
    for s, r in outs:
        E.oblige(s, 'post', 'the number of points is the one counted', r == get(E, s, d, 'numPoints'))
    E.need(outs, 'NumPoints returns')


def new_delaunay(E):
    st = State()
    w, h = E.sym(st, 'int', 'w'), E.sym(st, 'int', 'h')
    st.assume(And(w >= 1, w <= 4096, h >= 1, h <= 4096))
    grid_contracts(E)
    E.summaries[PK + 'NewCircumcircleGrid'] = lambda E, st, a: [(st, E.sym(st, E.p.typ(PK + 'CircumcircleGrid'), 'grid'))]

    def newmap(E, st, a):
        E.oblige(st, 'pre', 'the point map has at least one bucket', a[0] >= 1)
        r = E.sym(st, E.p.typ(PM), 'empty')
        for i, x in enumerate(E.flat(r, E.p.typ(PM))):
            st.ghost['map%d' % i] = x
        return [(st, r)]
    E.summaries[PK + 'newPointMap'] = newmap
    outs = E.run(PK + 'NewDelaunay', [w, h], st)
    for s, d in outs:
        E.oblige(s, 'post', 'a new triangulation holds no points', And(get(E, s, d, 'numPoints') == 0, get(E, s, d, 'uniquePoints') == 0))
        E.oblige(s, 'post', 'its point map is a new one', And(*[x == s.ghost.get('map%d' % i, x + 1) for i, x in enumerate(E.flat(get(E, s, d, 'pointMap'), E.p.typ(PM)))]))
    E.need(outs, 'NewDelaunay returns')


UNITS = [('incrdelaunay.pointMap.%s, %s' % (n, w), lambda E, a=(n, d, s, h): operation(E, *a))
         for n, d in (('AddPoint', 1), ('RemovePoint', -1), ('CopiesOf', 0))
         for w, s, h in (('the point itself', True, True), ('the point itself, not held', True, False), ('another point', False, None))]
UNITS += [('incrdelaunay.pointMap.IterPoints', iterate), ('incrdelaunay.newPointMap', fresh_map), ('incrdelaunay.Delaunay.Insert', lambda E: edit(E, 'Insert')),
          ('incrdelaunay.Delaunay.Remove', lambda E: edit(E, 'Remove')), ('incrdelaunay.Delaunay.addEdge', add_edge_frame), ('incrdelaunay.Delaunay.NumPoints', number), ('incrdelaunay.NewDelaunay', new_delaunay)]
HARNESS = [dict(name='delaunay', pkg='triangulation/incrdelaunay', package='incrdelaunay_test', files=['c08a.go.txt'], run='TestVerifC08'),
           dict(name='pointmap', pkg='triangulation/incrdelaunay', package='incrdelaunay', files=['c08b.go.txt'], run='TestVerifC08Map')]
ASSUMPTIONS = ['points of the image have coordinates of 0 or more; fewer than 2^32-1 copies of a point and 2^62 points in all',
               'Delaunay.Insert and Remove: partial correctness (panics of the triangle surgery are left to C11); the grid queries are replaced by any number of calls of their callback with any triangle in use, AddTriangle and sort.Slice by no effect on the counters']
LEVEL_NOTE = ('The representation invariant of the point map (each point has one entry, in its own bucket, with its number of copies; buckets own their storage) is proved to be established by newPointMap '
              'and kept by AddPoint, RemovePoint and CopiesOf with the multiset effect, for an arbitrary point and table; IterPoints visits each held point once; Insert, Remove, NumPoints and NewDelaunay keep the counters. '
              'Histories follow by induction on the operations (paper step). Trusts gvc, the SSA front end and z3/cvc5.')
