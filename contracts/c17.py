"""C17: evaluating with a base leaves the triangulation of the member's points."""
from .fit import *


def structure(E, kind, branch):
    """Calculate: what becomes of the triangulation"""
    st = State()
    f = Fit(E, st, kind)
    tri = kind == 'triangles'
    T0, B0 = f.first('Triangulation'), f.first('Base')
    st.assume({'new': T0.obj == 0, 'based': And(T0.obj != 0, B0.obj != 0, T0.obj != B0.obj), 'again': And(T0.obj != 0, B0.obj == 0)}[branch])
    st.assume(And(T0.idx == 0, B0.idx == 0))
    T = f.k['T']
    tt = E.p.typ('*' + T)
    data = points_data(E, st)
    dt = E.p.typ(PD)
    pts, muts = sub(E, st, data, dt, 'Points'), sub(E, st, data, dt, 'Mutations')
    npt, mt = E.p.typ(NP), E.p.typ(MUT)
    st.assume(pts.obj != muts.obj)
    # q is an arbitrary pixel; counts of the points that are rounded to q
    q = (E.fresh('qx'), E.fresh('qy'))
    PTS, OLD, NEW = [z3.Function(n, IntS, IntS) for n in ('points at q before', 'old points at q before', 'new points at q before')]
    BASE, MINE = E.fresh('points of the base at q'), E.fresh('points held at q')
    rnd = lambda v, lim: z3.ToInt(v.v * z3.ToReal(lim) + R('1/2'))
    is_q = lambda p: one(And(rnd(p.vals[0], f.w) == q[0], rnd(p.vals[1], f.h) == q[1]))
    unit = lambda p: And(*[And(Not(v.nan), v.v >= 0, v.v <= 1) for v in p.vals])

    def pt(E, s, p):
        s.assume(unit(p))
        for v, lim in zip(p.vals, (f.w, f.h)):
            m = v.v * z3.ToReal(lim)
            s.assume(And(m >= 0, m <= z3.ToReal(lim)))

    def loaded(E, s, x):
        if x.root == NP and x.path == ():
            p = E.load(s, P(x.obj, x.idx, NP, (), None, True), npt)
            pt(E, s, p)
            i = z3.simplify(x.idx - pts.off)
            s.assume(Implies(And(x.obj == pts.obj, i >= 0, i < pts.len), PTS(z3.simplify(i + 1)) == PTS(i) + is_q(p)))
        if x.root == MUT and x.path == ():
            m = E.load(s, P(x.obj, x.idx, MUT, (), None, True), mt)
            i = z3.simplify(x.idx - muts.off)
            for n, F in (('Old', OLD), ('New', NEW)):
                p = sub(E, s, m, mt, n)
                pt(E, s, p)
                s.assume(Implies(And(x.obj == muts.obj, i >= 0, i < muts.len), And(F(z3.simplify(i + 1)) == F(i) + is_q(p), F(i) >= 0, F(z3.simplify(i + 1)) <= F(muts.len))))
    E.load_facts.append(loaded)
    st.assume(And(PTS(I(0)) == 0, OLD(I(0)) == 0, NEW(I(0)) == 0, BASE >= 0, MINE >= 0, NEW(muts.len) >= 0))
    # the mutations turn the points of the base into those of the member
    st.assume(And(OLD(muts.len) <= BASE, PTS(pts.len) == BASE - OLD(muts.len) + NEW(muts.len)))
    st.ghost['held'], st.ghost['made'], st.ghost['target'] = MINE, I(0), T0.obj

    def mine(s, p):
        E.oblige(s, 'post', 'only the triangulation of the member is edited', And(p.obj == s.ghost['target'], p.idx == 0))

    def new(E, s, a):
        E.oblige(s, 'post', 'a new triangulation is of the size of the image', And(a[0] == f.w, a[1] == f.h))
        o = E.new(s, E.p.typ(T))
        s.ghost['held'], s.ghost['target'] = I(0), o.obj
        s.ghost['made'] = s.ghost['made'] + 1
        return [(s, o)]

    def at_q(p):
        return And(p.vals[0] == q[0], p.vals[1] == q[1])

    def insert(E, s, a):
        mine(s, a[0])
        s.ghost['held'] = s.ghost['held'] + one(at_q(a[1]))
        return [(s, E.fresh('ok', BoolS) if tri else None)]

    def remove(E, s, a):
        mine(s, a[0])
        E.oblige(s, 'pre', 'a point that is removed is held', Implies(at_q(a[1]), s.ghost['held'] > 0))
        s.ghost['held'] = s.ghost['held'] - one(at_q(a[1]))
        return [(s, None)]

    def set_(E, s, a):
        mine(s, a[0])
        E.oblige(s, 'post', 'it is set to the base', And(B0.obj != 0, a[1].obj == B0.obj, a[1].idx == B0.idx))
        s.ghost['held'] = BASE
        return [(s, None)]

    def shapes(E, s, a):
        E.oblige(s, 'post', 'the shapes are those of the member', a[0].obj == s.ghost['target'] if isinstance(a[0], P) else And(*[x == y for x, y in zip(E.flat(a[0], E.p.typ(T)), E.flat(E.load(s, P(s.ghost['target'], I(0), T, (), None, True), E.p.typ(T)), E.p.typ(T)))]))
        E.oblige(s, 'post', 'the shapes are read when all points are in place', s.ghost['held'] == want)
        s.ghost['read'] = s.ghost.get('read', I(0)) + 1

        return [(s, None)]

    want = {'new': PTS(pts.len), 'based': PTS(pts.len), 'again': MINE}[branch]
    E.summaries[ID + f.k['new']] = new
    it = E.p.typ(T) if tri else tt
    E.summaries[method_fn(E, tt, 'Insert')] = insert
    E.summaries[method_fn(E, tt, 'Remove')] = remove
    E.summaries[method_fn(E, tt, 'Set')] = set_
    E.summaries[method_fn(E, it, f.k['iter'])] = shapes
    # what the callback computes is no concern here; C14 proves that it leaves the triangulation alone

    def templates(E, ctx):
        out = []
        h = lambda v: v.ghost('held') - v.entry.ghost('held')
        for x in ctx.ints():
            for d in (0, 1):
                i = lambda v, x=x, d=d: z3.simplify(v.vals[x] + d)
                e = lambda v, x=x, d=d: z3.simplify(v.entry.vals[x] + d)
                out.append(('in range %s+%d' % (x, d), lambda v, i=i: i(v) >= 0))
                out.append(('points up to %s+%d' % (x, d), lambda v, i=i, e=e: h(v) == PTS(i(v)) - PTS(e(v))))
                out.append(('new up to %s+%d' % (x, d), lambda v, i=i, e=e: h(v) == NEW(i(v)) - NEW(e(v))))
                out.append(('old up to %s+%d' % (x, d), lambda v, i=i, e=e: h(v) == OLD(e(v)) - OLD(i(v))))
                out.append(('old and new up to %s+%d' % (x, d), lambda v, i=i, e=e: h(v) == OLD(e(v)) - OLD(i(v)) + NEW(i(v)) - NEW(e(v))))
                for nm, lim in live_ints(ctx):
                    if nm != x:
                        out.append(('%s+%d <= %s' % (x, d, nm), lambda v, i=i, lim=lim: i(v) <= lim(v)))
        return out
    E.templates.append(templates)
    outs = E.run(method_fn(E, E.p.typ('*' + f.k['F']), 'Calculate'), [f.p, data], st)
    for s, r in outs:
        E.oblige(s, 'post', 'the points held are those of the member', s.ghost['held'] == want)
        E.oblige(s, 'post', 'the shapes are read once', s.ghost.get('read', I(0)) == 1)
        t, b = f.get(s, 'Triangulation'), f.get(s, 'Base')
        E.oblige(s, 'post', 'the triangulation is that of the member', And(t.obj == s.ghost['target'], t.idx == 0 if branch != 'x' else TRUE))
        E.oblige(s, 'post', 'the triangulation is made only when there is none', And(s.ghost['made'] == (1 if branch == 'new' else 0), Implies(T0.obj != 0, t.obj == T0.obj)))
        E.oblige(s, 'post', 'the base is forgotten', b.obj == 0)
    E.need(outs, 'Calculate returns')


def set_base(E, kind):
    """SetBase takes the other function's triangulation, and changes nothing else"""
    st = State()
    f, g = Fit(E, st, kind), None
    v = E.sym(st, f.tid, 'other')
    o = E.new(st, f.tid)
    E.store(st, o, v, f.tid)
    tag = E.p.typ('*' + f.k['F']) + 1
    outs = E.run(method_fn(E, E.p.typ('*' + f.k['F']), 'SetBase'), [f.p, IF(I(tag), o.obj, I(0))], st)
    u = E.p.ut(f.tid)['f']
    for s, r in outs:
        b, want = f.get(s, 'Base'), sub(E, s, v, f.tid, 'Triangulation')
        E.oblige(s, 'post', 'the base is the triangulation of the other', And(b.obj == want.obj, b.idx == want.idx))
        after = E.load(s, o, f.tid)
        E.oblige(s, 'frame', 'the other stays', And(*[a == c for a, c in zip(E.flat(after, f.tid), E.flat(v, f.tid))]))
        for i, fd in enumerate(u):
            if fd['n'] != 'Base':
                E.oblige(s, 'frame', '%s stays' % fd['n'], And(*[a == c for a, c in zip(E.flat(f.get(s, fd['n']), fd['t']), E.flat(f.first(fd['n']), fd['t']))]))
    E.need(outs, 'SetBase returns')


UNITS = [('%s Calculate, %s' % (k, b), lambda E, k=k, b=b: structure(E, k, b)) for k in KIND for b in ('new', 'based', 'again')]
UNITS += [('%s SetBase' % k, lambda E, k=k: set_base(E, k)) for k in KIND]
UNITS += [('fitness.createPoint', create_point), ('parallel.Prepare, Swap, Get, SetBase', prepare_unit)]
HARNESS = [dict(name='fitness', pkg='fitness', package='fitness_test', files=['c14.go.txt'], run='TestVerifC17')]
ASSUMPTIONS = ['Delaunay and IVoronoi hold what was inserted and not removed, and Set makes them hold what the argument holds (C08, C03, C11)',
               'the mutations turn the points of the base into those of the member: pixel by pixel, the old points are held by the base, and taking them away and adding the new ones gives the points of the member',
               'the base is the triangulation of another member; coordinates are in [0,1]; images are at most 32767 px a side',
               'x*w+0.5 is taken as an exact real number (old and new points are rounded by the same expression, so only equality with the nearest pixel depends on it)',
               'reading the shapes leaves the triangulation alone (proved in C14)']
LEVEL_NOTE = ('All obligations discharged, for both functions and all three ways in, for an arbitrary pixel, every number of points and mutations: the points held when the shapes are read are '
              'those of the member, edits reach only the member\'s own triangulation, the base is only read, and removed points are held. The bounded run compares shapes and fitness along '
              'chains of evaluations with those built from scratch. Trusts gvc, the SSA front end, z3/cvc5.')
