"""C01: mutation stays in the unit square and is reported exactly."""
from gvc.core import *
from gvc.lib import *

CASES = ['NewGaussianMethod', 'NewRandomMethod', 'DefaultGaussianMethod']


def norm(E, st, amount):
    """contract of random.NormFloat64 (verified by C18): never NaN"""
    def f(E, st, args):
        r = E.fresh('norm', RealS)
        st.assume(And(r <= INF, r >= -INF))
        st.assume(Implies(amount.v == 0, And(r < INF, r > -INF)))
        return [(st, F(r))]
    return f


def f32unit(E, st, args):
    r = E.fresh('f32', RealS)
    st.assume(And(r >= 0, r < 1))
    return [(st, F(r, FALSE, 1))]


def verify_method(E, name):
    st = State()
    group = E.p.typ(MOD + 'normgeom.NormPointGroup')
    pt = E.p.typ(MOD + 'normgeom.NormPoint')
    root = E.p.ts(pt)
    fx, fy = E.p.field(pt, 'X'), E.p.field(pt, 'Y')
    mut = E.p.typ(MOD + 'mutation.Mutation')
    mo, mn, mi = E.p.field(mut, 'Old'), E.p.field(mut, 'New'), E.p.field(mut, 'Index')
    pts = E.sym(st, group, 'points')
    ctor = MOD + 'mutation.' + name
    if name.startswith('Default'):
        n = E.sym(st, 'int', 'numPoints')
        st.assume(n >= 1)
        rate, amount = None, F(R(1))
        [(st, recv)] = E.run(ctor, [n], st)
    else:
        rate, amount = E.sym(st, 'float64', 'rate'), E.sym(st, 'float64', 'amount')
        st.assume(And(Not(amount.nan), amount.v < INF, amount.v > -INF))
        st.assume(And(Not(rate.nan), rate.v < R(2) ** 100, rate.v > -R(2) ** 100))
        [(st, recv)] = E.run(ctor, [rate, amount], st)
    rtid = result_tid(E, ctor)
    k = E.fresh('k')
    st.assume(And(k >= 0, k < pts.len))
    entry = st.copy()

    def inrange(E, st, node, obj, idx, v):      # precondition: every coordinate in [0,1]
        if node.key[0] == root and node.key[2] == 'v' and node.stage == 0:
            return [Implies(And(obj == pts.obj, idx >= pts.off, idx < pts.off + pts.len), And(v >= 0, v <= 1))]
        if node.key[0] == root and node.key[2] == 'n' and node.stage == 0:
            return [Implies(And(obj == pts.obj, idx >= pts.off, idx < pts.off + pts.len), Not(v))]
    E.base_hooks.append(inrange)
    at = lambda s, i, f: E.load(s, P(pts.obj, z3.simplify(pts.off + i), root, (f,), None, True), E.p.ut(pt)['f'][f]['t'])
    same = lambda a, b: And(a.nan == b.nan, a.v == b.v)
    st.ghost['calls'] = I(0)
    st.ghost['newx'], st.ghost['newy'] = E.fresh('newx', RealS), E.fresh('newy', RealS)
    st.ghost['newxn'], st.ghost['newyn'] = FALSE, FALSE

    def callback(E, s, args):
        m = args[0]
        ix = m.vals[mi]
        E.oblige(s, 'post', 'callback: index in range', And(ix >= 0, ix < pts.len))
        nx, ny = m.vals[mn].vals[fx], m.vals[mn].vals[fy]
        E.oblige(s, 'post', 'callback: New is the point as it is now', And(same(nx, at(s, ix, fx)), same(ny, at(s, ix, fy))))
        E.oblige(s, 'post', 'callback: Old is the point as it was', Implies(ix == k, And(same(m.vals[mo].vals[fx], at(entry, k, fx)), same(m.vals[mo].vals[fy], at(entry, k, fy)))))
        hit = ix == k
        s.ghost['calls'] = If(hit, s.ghost['calls'] + 1, s.ghost['calls'])
        for g, v in (('newx', nx.v), ('newy', ny.v), ('newxn', nx.nan), ('newyn', ny.nan)):
            s.ghost[g] = If(hit, v, s.ghost[g])
        return [(s, None)]

    unchanged = lambda s: And(same(at(s, k, fx), at(entry, k, fx)), same(at(s, k, fy), at(entry, k, fy)))
    isnew = lambda s: And(at(s, k, fx).v == s.ghost['newx'], at(s, k, fy).v == s.ghost['newy'], at(s, k, fx).nan == s.ghost['newxn'], at(s, k, fy).nan == s.ghost['newyn'])
    unit = lambda s: And(*[And(Not(at(s, k, f).nan), at(s, k, f).v >= 0, at(s, k, f).v <= 1) for f in (fx, fy)])
    j = E.fresh('outside')
    st.assume(Or(j < pts.off, j >= pts.off + pts.len))
    entry = st.copy()
    raw = lambda s, f: E.load(s, P(pts.obj, j, root, (f,), None, True), E.p.ut(pt)['f'][f]['t'])
    framed = lambda s: And(same(raw(s, fx), raw(entry, fx)), same(raw(s, fy), raw(entry, fy)))

    def templates(E, ctx):
        if 'calls' not in ctx.entry_st.ghost:
            return []
        calls = lambda v: v.ghost('calls')
        out = [('calls in 0..1', lambda v: And(calls(v) >= 0, calls(v) <= 1)),
               ('calls=0 => unchanged', lambda v: Implies(calls(v) == 0, unchanged(v.st))),
               ('calls=1 => new', lambda v: Implies(calls(v) == 1, isnew(v.st))),
               ('unit', lambda v: unit(v.st)),
               ('frame', lambda v: framed(v.st)),
               ]
        if rate is not None:
            out.append(('rate<=0', lambda v: Implies(rate.v <= 0, calls(v) == 0)))
        out += progress(ctx, k, lambda v: And(calls(v) == 0, unchanged(v.st)), 'todo', lambda v: Implies(rate.v >= 1, calls(v) == 1) if rate is not None else TRUE, 'done')
        return out
    E.templates.append(templates)
    E.summaries[MOD + 'random.NormFloat64'] = norm(E, st, amount)
    E.summaries[MOD + 'random.Float32'] = f32unit
    outs = call_method(E, st, recv, rtid, 'Mutate', [pts, Fn(handler=callback)])
    for s, r in outs:
        c = s.ghost['calls']
        E.oblige(s, 'post', 'coordinates stay in [0,1]', unit(s))
        E.oblige(s, 'post', 'at most one callback per point', c <= 1)
        E.oblige(s, 'post', 'no callback: point unchanged', Implies(c == 0, unchanged(s)))
        E.oblige(s, 'post', 'callback: point is the reported one', Implies(c == 1, isnew(s)))
        if rate is not None:
            E.oblige(s, 'post', 'rate <= 0 mutates nothing', Implies(rate.v <= 0, c == 0))
            E.oblige(s, 'post', 'rate >= 1 mutates every point', Implies(rate.v >= 1, c == 1))
        E.oblige(s, 'frame', 'nothing outside the group is written', framed(s))
    E.need(outs, 'Mutate returns')


UNITS = [('mutation.%s + Mutate' % m, lambda E, m=m: verify_method(E, m)) for m in CASES]
HARNESS = [dict(name='mutation', pkg='mutation', package='mutation_test', files=['c01.go.txt'], run='TestVerifC01')]
ASSUMPTIONS = ['amount is finite, rate is not NaN and below 2^100 in size', 'for amount 0 the normal deviate is finite (NormFloat64 is infinite only after two zero draws in a row)']
LEVEL_NOTE = ('Every obligation of Mutate of both methods, run on the values their constructors return, is discharged for all groups, rates and amounts '
              '(quantified by an arbitrary fixed index). Trusts the verifier gvc, the SSA front end, z3/cvc5, the contracts of math/rand and (checked in C18) of package random, and sound facts about IEEE rounding.')
