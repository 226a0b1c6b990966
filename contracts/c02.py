"""C02: generators return exactly n points inside the unit square."""
from gvc.core import *
from gvc.lib import *


def verify(E, spaced):
    st = State()
    pt = E.p.typ(MOD + 'normgeom.NormPoint')
    root = E.p.ts(pt)
    n = E.sym(st, 'int', 'n')
    st.assume(And(n >= 1, n <= 2 ** 40))
    k = E.fresh('k')
    st.assume(And(k >= 0, k < n))

    def templates(E, ctx):
        out = []
        for name, g in slices_of(ctx, root):
            out.append(('%s[k] in the unit square' % name, lambda v, g=g: Implies(k < g(v).len, unit_point(E, v.st, g(v), k, pt))))
        return out
    E.templates.append(templates)
    if spaced:
        it = E.sym(st, 'int', 'iterations')
        st.assume(And(it >= 0, it <= 2 ** 50))
        ctor = MOD + 'generator.NewSpacedGenerator'
        rt = result_tid(E, ctor)
        starts = E.run(ctor, [it], st)
    else:
        rt = E.p.typ(MOD + 'generator.RandomGenerator')
        starts = [(st, E.zero(rt))]
    outs = []
    for s, g in starts:
        outs += call_method(E, s, g, rt, 'Generate', [n])
    for s, r in outs:
        E.oblige(s, 'post', 'exactly n points', r.len == n)
        E.oblige(s, 'post', 'every point is in the unit square', unit_point(E, s, r, k, pt))
    E.need(outs, 'Generate returns')


UNITS = [('generator.RandomGenerator.Generate', lambda E: verify(E, False)),
         ('generator.NewSpacedGenerator + Generate', lambda E: verify(E, True))]
HARNESS = [dict(name='generator', pkg='generator', package='generator_test', files=['c02.go.txt'], run='TestVerifC02')]
ASSUMPTIONS = ['n <= 2^40 and iterations <= 2^50']
LEVEL_NOTE = ('All obligations (exact length, every coordinate finite and in [0,1] for an arbitrary index, no panic) are discharged for every n and every number of iterations. '
              'Trusts gvc, the SSA front end, z3/cvc5 and the contracts of math/rand and math.Pow/Sqrt.')
