"""the genetic algorithms: shared by C15 and C16"""
from gvc.core import *
from gvc.lib import *

AL = MOD + 'algorithm.'
EV = MOD + 'algorithm/evaluator.Evaluator'
FF = MOD + 'fitness.Function'
MM = MOD + 'mutation.Method'
MU = MOD + 'mutation.Mutation'
NP = MOD + 'normgeom.NormPoint'
NG = MOD + 'normgeom.NormPointGroup'
FD = AL + 'FitnessData'
ALGOS = {'modifiedGenetic': AL + 'modifiedGenetic', 'simple': AL + 'simple'}
FO = z3.Function('fitness of the member held in', IntS, RealS)


class Alg:
    def __init__(s, E, st, name):
        s.E, s.T, s.name = E, ALGOS[name], name
        s.tid = E.p.typ(s.T)
        s.v = E.sym(st, s.tid, 'g')
        s.p = E.new(st, s.tid)
        E.store(st, s.p, s.v, s.tid)
        s.size = s.first('population').len
        # NewSimple, NewModifiedGenetic: one slot of everything for each member
        for f in ('newPopulation', 'fitnesses', 'mutations'):
            st.assume(s.first(f).len == s.size)
        s.cutoff = s.first('cutoff')
        st.assume(And(s.cutoff >= 1, s.size >= 2 * s.cutoff, s.size <= 2 ** 40))
        tabs = [s.first(f) for f in ('population', 'newPopulation', 'fitnesses', 'mutations')]
        for i, a in enumerate(tabs):
            st.assume(And(a.cap > 0, *[a.obj != b.obj for b in tabs[:i]]))
        if name == 'modifiedGenetic':
            st.assume(s.first('beneficialMutations').len == s.cutoff)
        st.assume(And(s.first('evaluator').tag != 0, s.first('mutator').tag != 0))

    def first(s, f):
        return s.v.vals[s.E.p.field(s.tid, f)]

    def get(s, st, f):
        return s.E.load(st, s.p, s.tid).vals[s.E.p.field(s.tid, f)]

    def pop(s, st, i, f='population'):
        return elem(s.E, st, s.get(st, f), i, s.E.p.typ(NG))

    def fit(s, st, i):
        e = elem(s.E, st, s.get(st, 'fitnesses'), i, s.E.p.typ(FD))
        return e.vals[s.E.p.field(s.E.p.typ(FD), 'Fitness')], e.vals[s.E.p.field(s.E.p.typ(FD), 'I')]

    def method(s, m, ptr=True):
        return method_fn(s.E, s.E.p.typ('*' + s.T) if ptr else s.tid, m)

    def same(s, st, st0, fields):
        """these fields are as in st0"""
        out = []
        for f in fields:
            t = s.E.p.ut(s.tid)['f'][s.E.p.field(s.tid, f)]['t']
            out += [a == b for a, b in zip(s.E.flat(s.get(st, f), t), s.E.flat(s.get(st0.shadow(st), f), t))]
        return And(*out)


def feq(a, b):
    return And(a.nan == b.nan, Or(a.nan, a.v == b.v))


def slq(a, b):
    return And(a.obj == b.obj, a.off == b.off, a.len == b.len, a.cap == b.cap)


def counted(E, key, record):
    """handler of an interface method that counts its calls and keeps their arguments"""
    def f(E, st, recv, args):
        st.ghost = {**st.ghost, key: st.ghost.get(key, ()) + (record(recv, args),)}
        return [(st, None)]
    E.invokes[key] = f


def by_name(E, st, g, m, args):
    """g.m(args), by value or by pointer, whichever the method wants"""
    f = E.p.methods.get((g.tid, m))
    if f is not None:
        return E.run(f, [E.load(st, g.p, g.tid)] + args, st)
    return E.run(g.method(m), [g.p] + args, st)


def order(E, name):
    """Len, Less and Swap are what sort.Sort takes them for"""
    st = State()
    g = Alg(E, st, name)
    i, j, k = E.fresh('i'), E.fresh('j'), E.fresh('k')
    for x in (i, j, k):
        st.assume(And(x >= 0, x < g.size))
    st0 = st.copy()
    outs = by_name(E, st.copy(), g, 'Len', [])
    for s, r in outs:
        E.oblige(s, 'post', 'Len is the number of members', r == g.size)
    E.need(outs, 'Len returns')
    outs = by_name(E, st.copy(), g, 'Less', [i, j])
    for s, r in outs:
        a, b = g.fit(s, i)[0], g.fit(s, j)[0]
        E.oblige(s, 'post', 'Less: the first is strictly fitter', Implies(And(Not(a.nan), Not(b.nan)), r == (a.v > b.v)))
        E.oblige(s, 'frame', 'Less changes nothing', And(g.same(s, st0, ('population', 'fitnesses', 'best')), feq(g.fit(s, k)[0], g.fit(st0.shadow(s), k)[0])))
    E.need(outs, 'Less returns')
    swaps = []
    counted(E, (EV, 'Swap'), lambda recv, a: (recv, a))
    outs = E.run(g.method('Swap'), [g.p, i, j], st)
    for s, r in outs:
        to = If(k == i, j, If(k == j, i, k))
        s0 = st0.shadow(s)
        E.oblige(s, 'frame', 'Swap keeps the slices', g.same(s, st0, ('population', 'newPopulation', 'fitnesses', 'best', 'mutations')))
        a, b = g.fit(s, k), g.fit(s0, to)
        E.oblige(s, 'post', 'Swap exchanges the fitnesses i and j and no other', And(feq(a[0], b[0]), a[1] == b[1]))
        E.oblige(s, 'post', 'Swap exchanges the members i and j and no other', slq(g.pop(s, k), g.pop(s0, to)))
        calls = s.ghost.get((EV, 'Swap'), ())
        E.oblige(s, 'post', 'Swap exchanges the evaluators of i and j', And(z3.BoolVal(len(calls) == 1), *[And(r.obj == g.first('evaluator').obj, r.tag == g.first('evaluator').tag, Or(And(a[0] == i, a[1] == j), And(a[0] == j, a[1] == i))) for r, a in calls]))
    E.need(outs, 'Swap returns')


def paired(E, st, g, lim=None):
    """every fitness is that of the member at the same index, before"""
    lim = g.size if lim is None else lim
    st0 = st.copy()
    fits, pop = g.first('fitnesses'), g.first('population')
    fl = E.p.field(E.p.typ(FD), 'Fitness')

    def hook(E, st, node, obj, idx, v):
        if node.key[0] == FD and node.key[1] == (fl,) and node.key[2] in ('f', 'v') and node.stage == 0:
            ix = z3.simplify(idx - fits.off)
            return [Implies(And(obj == fits.obj, ix >= 0, ix < lim), v == FO(elem(E, st0.shadow(st), pop, ix, E.p.typ(NG)).obj))]
        if node.key[0] == FD and node.key[1] == (fl,) and node.key[2] in ('n', 'nan') and node.stage == 0:
            ix = z3.simplify(idx - fits.off)
            return [Implies(And(obj == fits.obj, ix >= 0, ix < lim), Not(v))]
    E.base_hooks.append(hook)

    def univ(E, ctx):
        keyp = lambda key: key[0] == FD and key[1] == (fl,)

        def idx(v, obj, ix):
            return z3.simplify(ix - fits.off)

        def ok(v, i):
            f = g.fit(v.st, i)[0]
            return Implies(And(i >= 0, i < lim), And(Not(f.nan), f.v == FO(g.pop(v.st, i).obj)))
        return [('fitnesses are paired with members', keyp, ok, idx)]
    E.univ.append(univ)


def sorter(E, g, k):
    """sort.Sort: any sequence of Swaps, after which nothing is Less than a member before it"""
    def handler(E, st, a):
        x = a[0]
        tag = z3.simplify(x.tag)
        E.oblige(st, 'pre', 'sort.Sort is given the algorithm', And(x.obj == g.p.obj, x.idx == g.p.idx, z3.BoolVal(isnum(tag) and E.p.ts(num(tag) - 1) == '*' + g.T)))
        n = g.size

        def swap(E, s):
            i, j = E.fresh('i'), E.fresh('j')
            s.assume(And(i >= 0, i < n, j >= 0, j < n))
            return [t for t, r in E.run(g.method('Swap'), [g.p, i, j], s)]
        (s,) = E.abstract_loop(st, 'sort.Sort', swap)
        s.trail = s.trail + (('sorted', 0),)
        out = []
        for t, r in by_name(E, s, g, 'Less', [k, I(0)]):
            t.assume(Not(r))
            out.append((t, None))
        return out
    return handler


def update(E, name):
    st = State()
    g = Alg(E, st, name)
    k = E.fresh('k')
    st.assume(And(k >= 0, k < g.size))
    paired(E, st, g)
    st0 = st.copy()
    E.invokes[(EV, 'Swap')] = lambda E, st, recv, a: [(st, None)]
    E.optimistic = True

    E.summaries['sort.Sort'] = sorter(E, g, k)

    def setb(E, s, a):
        s.ghost = dict(s.ghost, best=s.ghost.get('best', ()) + ((a[0], a[1]),))
        return [(s, None)]
    E.summaries['(%s).Set' % NG] = setb
    outs = E.run(g.method('updateFitnesses'), [g.p], st)
    for s, r in outs:
        calls = s.ghost.get('best', ())
        E.oblige(s, 'post', 'the best member is set once, from the first member', And(z3.BoolVal(len(calls) == 1), *[And(slq(a, g.first('best')), slq(b, g.pop(s, I(0)))) for a, b in calls]))
        E.oblige(s, 'frame', 'the best member keeps its own storage', slq(g.get(s, 'best'), g.first('best')))
        st_ = E.load(s, g.p, g.tid).vals[E.p.field(g.tid, 'stats')]
        bf = st_.vals[E.p.field(E.p.typ(AL + 'Stats'), 'BestFitness')]
        E.oblige(s, 'post', 'the reported fitness is that of the first member', And(Not(bf.nan), bf.v == FO(g.pop(s, I(0)).obj)))
        E.oblige(s, 'post', 'no member has a higher fitness', FO(g.pop(s, k).obj) <= bf.v)
        E.oblige(s, 'post', 'fitnesses stay paired with members', And(Not(g.fit(s, k)[0].nan), g.fit(s, k)[0].v == FO(g.pop(s, k).obj)))
    E.need(outs, 'updateFitnesses returns')


def int_vars(ctx):
    """the integer loop variables, captured ones included"""
    out = [(n, (lambda v, n=n: v.vals[n])) for n in ctx.ints()]
    for ci, (p, tid) in enumerate(ctx.entry_st.cells):
        if ctx.E.p.ts(tid) == 'int':
            out.append(('cell%d' % ci, lambda v, p=p, tid=tid: ctx.E.load(v.st, p, tid)))
    return out


# ------------------------------------------------------------------------------------------------ evaluation
EVO = z3.Function('evaluation function of member', IntS, IntS)
EVI = z3.Function('member of evaluation function', IntS, IntS)
GB = z3.Function('base of member', IntS, IntS)


def no_effect(E, st, recv, a):
    return [(st, None)]


def evaluators(E, g, counts=()):
    """the evaluator gives each member a function of its own"""
    def get(E, st, recv, a):
        i = a[0]
        E.oblige(st, 'pre', 'Get is asked for a member', And(i >= 0, i < g.size))
        st.assume(EVI(EVO(i)) == i)
        return [(st, IF(I(E.p.typ('*' + MOD + 'fitness.trianglesImageFunction') + 1), EVO(i), I(0)))]
    E.invokes[(EV, 'Get')] = get
    E.invokes[(EV, 'Prepare')] = no_effect


def get_base(E, g):
    def f(E, st, a):
        r = GB(a[1])
        st.assume(And(r >= 0, r < g.cutoff, Implies(And(a[1] >= 0, a[1] < g.cutoff), r == a[1])))
        return [(st, r)]
    E.summaries['(%s).getBase' % g.T] = f


def calculate(E, name, full=False):
    """calculateFitnesses; full: with the beneficial mutations (C16)"""
    st = State()
    g = Alg(E, st, name)
    modified = name == 'modifiedGenetic'
    limit = g.size - g.cutoff if modified else g.size
    k = E.fresh('k')
    st.assume(And(k >= 0, k < limit))
    E.optimistic = True
    if full:
        paired(E, st, g, g.cutoff)
    evaluators(E, g)
    z = I(0)
    st.ghost = dict(sent=z, sent_k=z, rcv=z, rcv_k=z, closed=FALSE, upd_k=z, prep=z, ben_k=z)
    st0 = st.copy()
    mut = lambda s, i: elem(E, s, g.get(s, 'mutations'), i, E.p.typ('[]' + MU))
    ft = E.p.typ(FD)
    parts = lambda d: (d.vals[E.p.field(ft, 'Fitness')], d.vals[E.p.field(ft, 'I')])

    def calc(E, s, recv, a):
        i = EVI(recv.obj)
        t = E.p.typ(MOD + 'fitness.PointsData')
        pts, muts = (a[0].vals[E.p.field(t, f)] for f in ('Points', 'Mutations'))
        E.oblige(s, 'post', 'a function is given the points of its member', slq(pts, g.pop(s, i)))
        E.oblige(s, 'post', 'a function is given the mutations of its member', slq(muts, mut(s, i)))
        return [(s, F(FO(pts.obj), FALSE))]
    E.invokes[(FF, 'Calculate')] = calc

    def submit(E, s, a):
        return [(t, IF(I(0), I(0), I(0))) for t, r in E.call_value(None, s, a[0], [], {})]
    E.summaries['github.com/panjf2000/ants/v2.Submit'] = submit
    holds = lambda s, d: And(d[1] >= 0, d[1] < limit, Not(d[0].nan), d[0].v == FO(g.pop(s, d[1]).obj))

    def make(E, fr, s, ins):
        return E.fresh('channel')

    def send(E, fr, s, ch, x, ins):
        d = parts(x)
        E.oblige(s, 'post', 'a worker reports the fitness of its own member', holds(s, d))
        E.oblige(s, 'post', 'nothing is sent after close', Not(s.ghost['closed']))
        s.ghost['sent'] = s.ghost['sent'] + 1
        s.ghost['sent_k'] = If(d[1] == k, s.ghost['sent_k'] + 1, s.ghost['sent_k'])
        return None

    def recv(E, fr, s, ch, ins):
        h = s.ghost
        E.oblige(s, 'post', 'no receive blocks for ever', Or(h['closed'], h['rcv'] < h['sent']))
        s.assume(And(h['rcv'] <= h['sent'], h['rcv_k'] <= h['sent_k'], Implies(h['rcv'] == h['sent'], h['rcv_k'] == h['sent_k'])))
        a, b = s, s.copy()
        x = E.sym(b, ft, 'received')
        d = parts(x)
        b.assume(holds(b, d))
        b.assume(And(h['rcv'] < h['sent'], Implies(d[1] == k, h['rcv_k'] < h['sent_k'])))
        b.ghost = dict(h, rcv=h['rcv'] + 1, rcv_k=If(d[1] == k, h['rcv_k'] + 1, h['rcv_k']))
        a.assume(And(h['closed'], h['rcv'] == h['sent']))
        nothing = E.zero(ft)
        a.trail, b.trail = a.trail + (('recv', 0),), b.trail + (('recv', 1),)
        return [('multi', a, Tup([nothing, FALSE])), ('multi', b, Tup([x, TRUE]))]

    def close(E, fr, s, ch, ins):
        E.oblige(s, 'post', 'the channel is closed once', Not(s.ghost['closed']))
        s.ghost['closed'] = TRUE
        return None
    for n, f in (('make', make), ('send', send), ('recv', recv), ('close', close)):
        E.externs['chan.' + n] = f

    def upd(E, s, recv, a):
        i = a[0]
        E.oblige(s, 'post', 'Update follows Prepare', s.ghost['prep'] == 1)
        s.ghost['upd_k'] = If(i == k, s.ghost['upd_k'] + 1, s.ghost['upd_k'])
        E.oblige(s, 'post', 'Update follows the evaluation', Implies(i == k, s.ghost['rcv_k'] == 1))
        return [(s, None)]
    E.invokes[(EV, 'Update')] = upd

    def prep(E, s, recv, a):
        s.ghost['prep'] = s.ghost['prep'] + 1
        return [(s, None)]
    E.invokes[(EV, 'Prepare')] = prep
    if modified:
        get_base(E, g)

        def ben(E, s, a):
            i = a[1]
            f = g.fit(s, i)[0]
            if full:
                E.oblige(s, 'post', 'the fitness of a member with beneficial mutations is there', Implies(i == k, And(Not(f.nan), f.v == FO(g.pop(s, k).obj))))
            s.ghost['ben_k'] = If(i == k, s.ghost['ben_k'] + 1, s.ghost['ben_k'])
            return [(s, None)]
        E.summaries['(*%s).setBeneficial' % g.T] = ben
    better = FO(g.pop(st0.shadow(st), k).obj) > FO(g.pop(st0.shadow(st), GB(k)).obj)
    done = lambda s: And(Not(g.fit(s, k)[0].nan), g.fit(s, k)[0].v == FO(g.pop(s, k).obj))

    def templates(E, ctx):
        out = []
        G = lambda n: lambda v: v.ghost(n)
        for n, x in int_vars(ctx):
            for d in (0, 1):
                out.append(('sent=%s+%d' % (n, d), lambda v, x=x, d=d: v.ghost('sent') == x(v) + d))
                out.append(('rcv=%s+%d' % (n, d), lambda v, x=x, d=d: v.ghost('rcv') == x(v) + d))
                out.append(('k sent iff k<%s+%d' % (n, d), lambda v, x=x, d=d: v.ghost('sent_k') == If(k < x(v) + d, I(1), I(0))))
                out.append(('I set if k<%s+%d' % (n, d), lambda v, x=x, d=d: Implies(k < x(v) + d, g.fit(v.st, k)[1] == k)))
        out += [('closed iff all received', lambda v: v.ghost('closed') == (v.ghost('rcv') == limit)),
                ('rcv<=limit', lambda v: v.ghost('rcv') <= limit),
                ('rcv_k 0..1', lambda v: And(v.ghost('rcv_k') >= 0, v.ghost('rcv_k') <= 1)),
                ('fitness k is there', lambda v: Implies(v.ghost('rcv_k') >= 1, done(v.st))),
                ('I stays', lambda v: g.fit(v.st, k)[1] == k),
                ('updates', lambda v: v.ghost('upd_k') == v.ghost('rcv_k'))]
        if full and modified:
            out.append(('beneficial', lambda v: v.ghost('ben_k') == If(And(v.ghost('rcv_k') == 1, better), I(1), I(0))))
        return out
    E.templates.append(templates)
    outs = E.run(g.method('calculateFitnesses'), [g.p], st)
    for s, r in outs:
        h = s.ghost
        E.oblige(s, 'post', 'every member is evaluated once', h['sent_k'] == 1)
        E.oblige(s, 'post', 'every result is used once', h['rcv_k'] == 1)
        E.oblige(s, 'post', 'the fitness of a member is that of its points', done(s))
        E.oblige(s, 'post', 'fitness k belongs to member k', g.fit(s, k)[1] == k)
        E.oblige(s, 'post', 'the evaluator is prepared once', h['prep'] == 1)
        E.oblige(s, 'post', 'the evaluator is updated once for each member', h['upd_k'] == 1)
        E.oblige(s, 'frame', 'the members stay', And(g.same(s, st0, ('population', 'newPopulation', 'fitnesses', 'best', 'mutations')), slq(g.pop(s, k), g.pop(st0.shadow(s), k))))
        if full and modified:
            E.oblige(s, 'post', 'mutations count as beneficial if and only if they make the member fitter than its base', h['ben_k'] == If(better, I(1), I(0)))
    E.need(outs, 'calculateFitnesses returns')


# ------------------------------------------------------------------------------------------------ a generation
MODF = z3.Function('index modulo cutoff', IntS, IntS)
MI = z3.Function('member whose points are stored in', IntS, IntS)
SIDE = z3.Function('population whose points are stored in', IntS, IntS)
MR = z3.Function('member whose mutations are stored in', IntS, IntS)
LEN = z3.Int('points per member')


def members(E, st, g):
    """the form of the tables: every member has storage of its own, all have as many points"""
    st.assume(And(LEN >= 0, LEN <= 2 ** 40))
    pops = [g.first('population'), g.first('newPopulation')]
    muts = g.first('mutations')
    st0 = st.copy()
    busy = set()

    def hook(E, st, node, obj, idx, v):
        if node.stage != 0 or node.key[1] != () or node.key[2] != 'so' or node.key[0] not in (NG, '[]' + MU) or node.key[0] in busy:
            return []
        busy.add(node.key[0])
        try:
            out = []
            if node.key[0] == NG:
                for k, tab in enumerate(pops):
                    ix = z3.simplify(idx - tab.off)
                    m = elem(E, st0.shadow(st), tab, ix, E.p.typ(NG))
                    out.append(Implies(And(obj == tab.obj, ix >= 0, ix < g.size), And(m.len == LEN, Or(LEN == 0, And(MI(m.obj) == ix, SIDE(m.obj) == k + 1)))))
            else:
                ix = z3.simplify(idx - muts.off)
                m = elem(E, st0.shadow(st), muts, ix, E.p.typ('[]' + MU))
                out.append(Implies(And(obj == muts.obj, ix >= 0, ix < g.size), If(m.cap > 0, MR(m.obj) == ix, m.obj == 0)))
            return out
        finally:
            busy.discard(node.key[0])
    E.base_hooks.append(hook)
    return st0


def modulo(st, c, x):
    """the recursion of i mod c at x (lemma unit 'modulo')"""
    for y in (x, z3.simplify(x + 1)):
        st.assume(And(MODF(I(0)) == 0, Implies(y >= 0, And(MODF(y) >= 0, MODF(y) < c))))
    st.assume(Implies(x >= 0, MODF(z3.simplify(x + 1)) == If(MODF(x) + 1 == c, I(0), MODF(x) + 1)))


def modulo_lemma(E):
    """getBase is the remainder, and the remainder follows the recursion used for newGeneration"""
    st = State()
    g = Alg(E, st, 'modifiedGenetic')
    i = E.fresh('i')
    st.assume(And(i >= 0, i < g.size))
    c = g.cutoff
    # Euclid: i = q*c + m; what % of the language means
    q, m, q2, m2 = (E.fresh(n) for n in ('quotient', 'remainder', 'quotient2', 'remainder2'))
    st.assume(And(q >= 0, m >= 0, m < c, i == q * c + m, z3.Function('rem', IntS, IntS, IntS)(i, c) == m))
    outs = by_name(E, st, g, 'getBase', [i])
    for s, r in outs:
        E.oblige(s, 'post', 'the base of a member is its index modulo the cutoff', r == m)
    E.need(outs, 'getBase returns')
    s = State()
    s.assume(And(c >= 1, i >= 0, m >= 0, m < c, m2 >= 0, m2 < c, i == q * c + m, i + 1 == q2 * c + m2))
    d = E.fresh('d')
    s.assume(And(d == q2 - q, d * c == 1 + m - m2, Implies(d >= 2, d * c >= 2 * c), Implies(d <= -1, d * c <= -c)))
    E.oblige(s, 'lemma', 'the remainder of the next index', m2 == If(m + 1 == c, I(0), m + 1))
    s = State()
    s.assume(And(c >= 1, i >= 0, i < c, m >= 0, m < c, i == q * c + m, Implies(q >= 1, q * c >= c), Implies(q <= -1, q * c <= -c)))
    E.oblige(s, 'lemma', 'a small index is its own remainder', m == i)


def generation(E, name):
    st = State()
    g = Alg(E, st, name)
    modified = name == 'modifiedGenetic'
    c = g.cutoff
    limit = g.size - c if modified else g.size
    k, j, b = E.fresh('k'), E.fresh('j'), E.fresh('b')
    st.assume(And(k >= 0, k < limit, j >= 0, b >= 0, b < c))
    E.optimistic = True
    nxt0 = st.nxt
    st0 = members(E, st, g)
    cur = []
    R = E.sym(st, MU, 'the jth mutation of k')
    mt = E.p.typ(MU)
    z, none = I(0), I(-1)
    st.ghost = dict(src=none, told=z, base=none, mutated=z, reports=z)
    st0 = st.copy()
    old = lambda s, i: g_pop0(E, s, st0, g, i, 'population')
    new = lambda s, i: g_pop0(E, s, st0, g, i, 'newPopulation')

    def set_(E, s, a):
        d, o = a
        E.oblige(s, 'pre', 'a member is set to one with as many points', d.len == o.len)
        # which member it is: the one found at the same storage
        hit = d.obj == new(s, k).obj
        E.oblige(s, 'frame', 'only members of the new population are written', Or(LEN == 0, SIDE(d.obj) == 2))
        E.oblige(s, 'post', 'a member is copied from the old population', Or(LEN == 0, SIDE(o.obj) == 1))
        s.ghost['src'] = If(hit, o.obj, s.ghost['src'])
        s.ghost['mutated'] = If(hit, I(0), s.ghost['mutated'])
        return [(s, None)]
    st.assume(LEN > 0)
    st0 = st.copy()
    E.summaries['(%s).Set' % NG] = set_

    def setbase(E, s, recv, a):
        i, o = a
        E.oblige(s, 'pre', 'SetBase is told of two members', And(i >= 0, i < g.size, o >= 0, o < g.size))
        s.ghost['told'] = If(i == k, s.ghost['told'] + 1, s.ghost['told'])
        s.ghost['base'] = If(i == k, o, s.ghost['base'])
        return [(s, None)]
    E.invokes[(EV, 'SetBase')] = setbase

    def mutate(E, s, recv, a):
        pts, cb = a
        hit = pts.obj == new(s, k).obj
        E.oblige(s, 'frame', 'only members of the new population are mutated', SIDE(pts.obj) == 2)
        E.oblige(s, 'post', 'a member is mutated after it is set', Implies(hit, s.ghost['src'] != -1))
        s.ghost['mutated'] = If(hit, s.ghost['mutated'] + 1, s.ghost['mutated'])

        def report(E, t):
            m = E.sym(t, MU, 'mutation')
            t.assume(Implies(And(hit, t.ghost['reports'] == j), And(*[x == y for x, y in zip(E.flat(m, mt), E.flat(R, mt))])))
            t.ghost['reports'] = If(hit, t.ghost['reports'] + 1, t.ghost['reports'])
            return [x for x, r in E.call_value(None, t, cb, [m], {})]
        cur.append(MI(pts.obj))
        try:
            return [(t, None) for t in E.abstract_loop(s, 'Mutate', report)]
        finally:
            cur.pop()
    E.invokes[(MM, 'Mutate')] = mutate
    row = lambda s, i: elem(E, s, g.get(s, 'mutations'), i, E.p.typ('[]' + MU))

    def recorded(s):
        r = row(s, k)
        return And(r.len == s.ghost['reports'], Implies(j < r.len, And(*[x == y for x, y in zip(E.flat(elem(E, s, r, j, mt), mt), E.flat(R, mt))])))
    untouched = lambda s: And(s.ghost['src'] == -1, s.ghost['told'] == 0, s.ghost['mutated'] == 0, s.ghost['reports'] == 0)
    surv = lambda s: And(s.ghost['src'] == old(s, k).obj, s.ghost['told'] == 0, s.ghost['mutated'] == 0, s.ghost['reports'] == 0)
    gb = lambda s: s.ghost['base']
    mutant = lambda s: And(s.ghost['told'] == 1, s.ghost['mutated'] == 1, gb(s) >= 0, gb(s) < c)
    copied = lambda s: s.ghost['src'] == old(s, gb(s)).obj
    basek = lambda s: gb(s) == MODF(k)

    def cleared(s):
        m = elem(E, s, g.get(s, 'beneficialMutations'), b, E.p.typ(AL + 'MutationsData'))
        return And(m.vals[0].len == 0, m.vals[1].len == 0)

    def templates(E, ctx):
        out = []
        ints = int_vars(ctx)
        for n, x in ints:
            def at(v, x=x):
                r = x(v)
                modulo(v.st, c, r)
                return r
            out.append(('%s mod, or the end' % n, lambda v, at=at: Or(at(v) >= limit, MODF(at(v)) == 0)))
            out.append(('%s mod c' % n, lambda v, at=at: MODF(at(v)) == If(at(v) < c, at(v), I(0))))
            out.append(('%s>=c' % n, lambda v, at=at: at(v) >= c))
            out.append(('%s<=limit' % n, lambda v, at=at: at(v) <= limit))
            out.append(('%s<=c' % n, lambda v, at=at: at(v) <= c))
            for n2, x2 in ints:
                if n2 != n:
                    out.append(('%s mod %s' % (n, n2), lambda v, at=at, x2=x2: Or(at(v) >= limit, MODF(at(v)) == If(x2(v) < c, x2(v), I(0)))))
            if ctx.name != 'Mutate':
                for nm, f in (('survivor', lambda s: Implies(k < c, surv(s))), ('told', lambda s: Implies(k >= c, mutant(s))), ('copied', lambda s: Implies(k >= c, copied(s))), ('base', lambda s: Implies(k >= c, basek(s))), ('recorded', recorded)):
                    out.append(('%s if k<%s' % (nm, n), lambda v, at=at, f=f: Implies(k < at(v), f(v.st))))
                out.append(('untouched if k>=%s' % n, lambda v, at=at: Implies(k >= at(v), untouched(v.st))))
                if modified:
                    out.append(('cleared if b<%s' % n, lambda v, at=at: Implies(b < at(v), cleared(v.st))))
                    out.append(('cleared if b<%s+1' % n, lambda v, at=at: Implies(b < at(v) + 1, cleared(v.st))))
        if ctx.name == 'Mutate':
            me = cur[-1]
            out.append(('no report for others', lambda v: Or(me == k, v.ghost('reports') == v.entry.ghost('reports'))))
            out.append(('mutations of others stay', lambda v: Or(me == k, And(*[a == b for a, b in zip(E.flat(row(v.st, k), E.p.typ('[]' + MU)), E.flat(row(v.entry.st, k), E.p.typ('[]' + MU)))]))))
            out.append(('recorded, if it is k', lambda v: Implies(me == k, recorded(v.st))))
        out.append(('recorded stays', lambda v: Implies(recorded(v.entry.st), recorded(v.st))))
        out.append(('recorded', lambda v: recorded(v.st)))
        return out
    E.templates.append(templates)

    E.on_alloc.append(lambda E, s, o: MR(o) == cur[-1] if cur else TRUE)

    def univ(E, ctx):
        keyp = lambda key: key[0] == '[]' + MU and key[1] == ()
        tab = g.first('mutations')

        def ok(v, i):
            r = elem(E, v.st, tab, i, E.p.typ('[]' + MU))
            return Implies(And(i >= 0, i < g.size), If(r.cap == 0, r.obj == 0, MR(r.obj) == i))
        return [('mutations have storage of their own', keyp, ok, lambda v, obj, ix: z3.simplify(ix - tab.off))]
    E.univ.append(univ)
    f = g.method('newGeneration')
    outs = E.run(f, [g.p], st)
    for s, r in outs:
        E.oblige(s, 'post', 'the populations change places', And(slq(g.get(s, 'population'), g.first('newPopulation')), slq(g.get(s, 'newPopulation'), g.first('population'))))
        E.oblige(s, 'post', 'a survivor is a copy of the member of its rank, not mutated and without a base', Implies(k < c, surv(s)))
        E.oblige(s, 'post', 'every other member is mutated once and told of one base', Implies(k >= c, mutant(s)))
        E.oblige(s, 'post', 'every other member is a copy of the base that is told', Implies(k >= c, copied(s)))
        if modified:
            E.oblige(s, 'post', 'the base that is told is the one later used to judge the member', Implies(k >= c, basek(s)))
            E.oblige(s, 'post', 'the beneficial mutations of every base are cleared', cleared(s))
        E.oblige(s, 'post', 'the mutations recorded are exactly those reported', recorded(s))
        E.oblige(s, 'frame', 'best and fitnesses stay', g.same(s, st0, ('best', 'fitnesses', 'cutoff')))
    E.need(outs, 'newGeneration returns')


def g_pop0(E, s, st0, g, i, f):
    return elem(E, st0.shadow(s), g.first(f), i, E.p.typ(NG))


# ------------------------------------------------------------------------------------------------ combination
BI = z3.Function('entry of the beneficial mutation of point', IntS, IntS, IntS)      # base, point


def ben_tables(E, st, g, LENP=None):
    """each base's beneficial mutations: storage of their own, at most one for a point, of points there are"""
    tab = g.first('beneficialMutations')
    mdt, mt = E.p.typ(AL + 'MutationsData'), E.p.typ(MU)
    st0 = st.copy()
    busy = set()

    def hook(E, st, node, obj, idx, v):
        if node.stage != 0 or node.key[0] != AL + 'MutationsData' or node.key[2] != 'so' or 'b' in busy:
            return []
        busy.add('b')
        try:
            ix = z3.simplify(idx - tab.off)
            d = elem(E, st0.shadow(st), tab, ix, mdt)
            return [Implies(And(obj == tab.obj, ix >= 0, ix < g.cutoff), And(d.vals[0].len == d.vals[1].len, If(d.vals[0].cap > 0, MR(d.vals[0].obj) == -1 - ix, d.vals[0].obj == 0)))]
        finally:
            busy.discard('b')
    E.base_hooks.append(hook)
    ip = (E.p.field(mt, 'Index'),)

    def ihook(E, st, node, obj, idx, v):
        if node.stage != 0 or node.key[0] != MU or node.key[1] != ip or 'i' in busy:
            return []
        busy.add('i')
        try:
            b = z3.simplify(-1 - MR(obj))
            d = elem(E, st0.shadow(st), tab, b, mdt).vals[0]
            j = z3.simplify(idx - d.off)
            return [Implies(And(b >= 0, b < g.cutoff, d.obj == obj, d.cap > 0, j >= 0, j < d.len), And(v >= 0, v < LEN, BI(b, v) == j))]
        finally:
            busy.discard('i')
    E.base_hooks.append(ihook)


def combine(E):
    st = State()
    g = Alg(E, st, 'modifiedGenetic')
    c = g.cutoff
    limit = g.size - c
    k, p, j, x = (E.fresh(n) for n in ('k', 'p', 'j', 'x'))
    b = MODF(k)
    st.assume(And(k >= limit, k < g.size, p >= 0, p < LEN, j >= 0, x >= 0, x < limit, b >= 0, b < c))
    E.optimistic = "preds"
    members(E, st, g)
    ben_tables(E, st, g)
    z = I(0)
    st.ghost = dict(told=z, evals=z, updates=z)
    st0 = st.copy()
    mt, npt = E.p.typ(MU), E.p.typ(NP)
    pt = lambda s, i: elem(E, s, g.pop(s, i), p, npt)
    pt0 = lambda s, i: elem(E, st0.shadow(s), g.pop(st0.shadow(s), i), p, npt)
    row = lambda s, i: elem(E, s, g.get(s, 'mutations'), i, E.p.typ('[]' + MU))
    ben = lambda s: elem(E, st0.shadow(s), g.first('beneficialMutations'), b, E.p.typ(AL + 'MutationsData')).vals[0]
    bm = lambda s, i: elem(E, st0.shadow(s), ben(s), i, mt)
    new, index, oldf = E.p.field(mt, 'New'), E.p.field(mt, 'Index'), E.p.field(mt, 'Old')
    same = lambda t, u, v: And(*[i == o for i, o in zip(E.flat(u, t), E.flat(v, t))])

    def get_base_mod(E, s, a):
        i = a[1]
        r = MODF(i)
        s.assume(And(r >= 0, r < c, Implies(i < c, r == i)))
        # two members at the end have different bases
        s.assume(Implies(And(i >= limit, i < g.size, i != k), r != b))
        return [(s, r)]
    E.summaries['(%s).getBase' % g.T] = get_base_mod

    def points(s, n):
        """point p of member k with the first n mutations"""
        w = BI(b, p)
        hit = And(w >= 0, w < n, w < ben(s).len, bm(s, w).vals[index] == p)
        return And(Implies(hit, same(npt, pt(s, k), bm(s, w).vals[new])), Implies(Not(hit), same(npt, pt(s, k), pt0(s, b))))
    recorded = lambda s, n: And(row(s, k).len == n, Implies(j < n, same(mt, elem(E, s, row(s, k), j, mt), bm(s, j))))
    some = lambda s: ben(s).len > 0

    def setbase(E, s, recv, a):
        i, o = a
        E.oblige(s, 'post', 'a combined member is told its base', Implies(i == k, o == b))
        E.oblige(s, 'post', 'only combined members with beneficial mutations are told a base', Implies(i == k, some(s)))
        E.oblige(s, 'post', 'the evaluator is told the base of members at the end only', And(i >= limit, i < g.size))
        s.ghost['told'] = If(i == k, s.ghost['told'] + 1, s.ghost['told'])
        return [(s, None)]
    E.invokes[(EV, 'SetBase')] = setbase
    evaluators(E, g)

    def calc(E, s, recv, a):
        i = EVI(recv.obj)
        t = E.p.typ(MOD + 'fitness.PointsData')
        pts, muts = (a[0].vals[E.p.field(t, f)] for f in ('Points', 'Mutations'))
        E.oblige(s, 'post', 'the function is given the points of its member', slq(pts, g.pop(s, i)))
        E.oblige(s, 'post', 'the function is given the mutations of its member', Implies(i == k, And(slq(muts, row(s, i)))))
        E.oblige(s, 'post', 'the member is complete when it is evaluated', Implies(i == k, And(points(s, ben(s).len), recorded(s, ben(s).len), s.ghost['told'] == 1)))
        s.ghost['evals'] = If(i == k, s.ghost['evals'] + 1, s.ghost['evals'])
        return [(s, F(FO(pts.obj), FALSE))]
    E.invokes[(FF, 'Calculate')] = calc

    def upd(E, s, recv, a):
        E.oblige(s, 'post', 'the evaluator is updated after the evaluation', Implies(a[0] == k, s.ghost['evals'] == 1))
        s.ghost['updates'] = If(a[0] == k, s.ghost['updates'] + 1, s.ghost['updates'])
        return [(s, None)]
    E.invokes[(EV, 'Update')] = upd
    fitq = lambda s: g.fit(s, k)[0]

    def result(s):
        h = s.ghost
        n = If(some(s), I(1), I(0))
        return And(h['told'] == n, h['evals'] == n, h['updates'] == n)

    def fitness(s):
        return And(Not(fitq(s).nan), fitq(s).v == If(some(s), FO(g.pop(s, k).obj), z3.RealVal(0)), g.fit(s, k)[1] == k)
    full = lambda s: Implies(some(s), And(points(s, ben(s).len), recorded(s, ben(s).len)))
    nothing = lambda s: And(*[s.ghost[n] == 0 for n in ('told', 'evals', 'updates')])
    base_pt = lambda s: same(npt, pt(s, b), pt0(s, b))
    first_pt = lambda s: same(npt, pt(s, x), pt0(s, x))
    first_fit = lambda s: And(feq(g.fit(s, x)[0], g.fit(st0.shadow(s), x)[0]))

    def stay(s):
        return same(mt, bm_now(s, j), bm(s, j))
    bm_now = lambda s, i: elem(E, s, ben(s), i, mt)
    w_stay = lambda s: Implies(BI(b, p) >= 0, same(mt, bm_now(s, BI(b, p)), bm(s, BI(b, p))))

    def templates(E, ctx):
        out = [('base stays', lambda v: base_pt(v.st)), ('first stay', lambda v: first_pt(v.st)), ('first fitnesses stay', lambda v: first_fit(v.st)),
               ('beneficial stay', lambda v: Implies(j < ben(v.st).len, stay(v.st))), ('beneficial w stays', lambda v: Implies(BI(b, p) < ben(v.st).len, w_stay(v.st)))]
        for n, f in int_vars(ctx):
            out.append(('%s>=limit' % n, lambda v, f=f: f(v) >= limit))
            for d in (0, 1):
                out.append(('%s+%d nothing' % (n, d), lambda v, f=f, d=d: Implies(k >= f(v) + d, nothing(v.st))))
                out.append(('%s+%d result' % (n, d), lambda v, f=f, d=d: Implies(k < f(v) + d, result(v.st))))
                out.append(('%s+%d fitness' % (n, d), lambda v, f=f, d=d: Implies(k < f(v) + d, fitness(v.st))))
                out.append(('%s+%d points' % (n, d), lambda v, f=f, d=d: Implies(And(k < f(v) + d), full(v.st))))
                out.append(('%s+%d inner points' % (n, d), lambda v, f=f, d=d: Or(*[y(v) != k for _, y in outer_ints(ctx)], points(v.st, f(v) + d)) if outer_ints(ctx) else TRUE))
                out.append(('%s+%d inner record' % (n, d), lambda v, f=f, d=d: Or(*[y(v) != k for _, y in outer_ints(ctx)], row(v.st, k).len == f(v) + d) if outer_ints(ctx) else TRUE))
        if outer_ints(ctx):
            at = lambda s: elem(E, s, row(s, k), j, mt)
            out.append(('others stay', lambda v: Or(*[y(v) == k for _, y in outer_ints(ctx)], And(slq(row(v.st, k), row(v.entry.st, k)), same(mt, at(v.st), at(v.entry.st)), same(npt, pt(v.st, k), pt(v.entry.st, k))))))
            out.append(('inner recorded', lambda v: Or(*[y(v) != k for _, y in outer_ints(ctx)], recorded(v.st, row(v.st, k).len))))
        return out
    E.templates.append(templates)

    tab = g.first('mutations')
    E.cell_invs.append(('[]' + MU, (), lambda q, v: Implies(And(q.obj == tab.obj, q.idx >= tab.off, q.idx < tab.off + g.size), If(v.cap == 0, v.obj == 0, MR(v.obj) == q.idx - tab.off)), None))
    E.region_preds.append((lambda key: key[0] == MU, 'mutations of members', lambda o: MR(o) >= 0))
    E.region_preds.append((lambda key: key[0] == NP, 'members at the end', lambda o: And(SIDE(o) == 1, MI(o) >= limit)))

    def owner(E, s, o):
        ints = [y for n, y in E.loop_stack[0][1].items() if z3.is_expr(y) and z3.is_int(y)] if E.loop_stack else []
        return MR(o) == (ints[0] if E.growing and ints else I(-2 ** 62))
    E.on_alloc.append(owner)
    outs = E.run(g.method('combineMutations'), [g.p], st)
    for s, r in outs:
        s.assume(k < g.size)
        E.oblige(s, 'post', 'a combined member is evaluated once, with its base told, if there are beneficial mutations', result(s))
        E.oblige(s, 'post', 'its fitness is the one calculated, or 0 if there are none', fitness(s))
        E.oblige(s, 'post', 'a combined member is its base with exactly the beneficial mutations', Implies(some(s), points(s, ben(s).len)))
        E.oblige(s, 'post', 'its mutations are exactly the beneficial ones', Implies(some(s), recorded(s, ben(s).len)))
        E.oblige(s, 'frame', 'bases and other members stay', And(first_pt(s), first_fit(s)))
        E.oblige(s, 'frame', 'the tables stay', g.same(s, st0, ('population', 'newPopulation', 'fitnesses', 'best', 'mutations')))
    E.need(outs, 'combineMutations returns')


IR = z3.Function('base whose member indexes are stored in', IntS, IntS)


def beneficial(E):
    st = State()
    g = Alg(E, st, 'modifiedGenetic')
    c = g.cutoff
    i, x, y, w, o = (E.fresh(n) for n in ('i', 'x', 'y', 'w', 'other base'))
    b = E.fresh('base')
    st.assume(And(i >= 0, i < g.size - c, x >= 0, x < y, w >= 0, b >= 0, b < c, o >= 0, o < c, o != b))
    E.optimistic = 'preds'
    LEN_ = z3.Int('points per member')
    st.assume(And(LEN_ >= 0, LEN_ <= 2 ** 40))
    members(E, st, g)
    tab = g.first('beneficialMutations')
    mdt, mt = E.p.typ(AL + 'MutationsData'), E.p.typ(MU)
    index = E.p.field(mt, 'Index')
    fm, fi = E.p.field(mdt, 'Mutations'), E.p.field(mdt, 'Indexes')
    at = lambda q: And(q.obj == tab.obj, q.idx >= tab.off, q.idx < tab.off + c)
    E.cell_invs.append((AL + 'MutationsData', (fm,), lambda q, v: Implies(at(q), If(v.cap == 0, v.obj == 0, MR(v.obj) == -1 - (q.idx - tab.off))), None))
    E.cell_invs.append((AL + 'MutationsData', (fi,), lambda q, v: Implies(at(q), If(v.cap == 0, v.obj == 0, IR(v.obj) == 1 + q.idx - tab.off)), None))
    E.cell_invs.append(('int', (), lambda q, v: Implies(IR(q.obj) >= 1, And(v >= 0, v < g.size)), lambda ob: IR(ob) >= 1))
    E.on_alloc.append(lambda E, s, ob: And(MR(ob) == (-1 - b if E.growing else I(-2 ** 62)), IR(ob) == (1 + b if E.growing else I(0))))
    E.region_preds.append((lambda key: key[0] == MU, 'mutations of the base', lambda ob: MR(ob) == -1 - b))
    E.region_preds.append((lambda key: key[0] == 'int', 'indexes of the base', lambda ob: IR(ob) == 1 + b))
    E.summaries['(%s).getBase' % g.T] = lambda E, s, a: [(s, b)] if a[1].eq(i) else [(s, MODF(a[1]))]
    st0 = st.copy()
    md = lambda s, q: elem(E, s, g.get(s, 'beneficialMutations'), q, mdt)
    mut = lambda s, q, k: elem(E, s, md(s, q).vals[fm], k, mt)
    who = lambda s, q, k: elem(E, s, md(s, q).vals[fi], k, E.p.typ('int'))
    n_ = lambda s, q: md(s, q).vals[fm].len
    s_ = lambda s: st0.shadow(s)
    same = lambda u, v: And(*[a == e for a, e in zip(E.flat(u, mt), E.flat(v, mt))])
    lens = lambda s: md(s, b).vals[fm].len == md(s, b).vals[fi].len
    distinct = lambda s: Implies(y < n_(s, b), mut(s, b, x).vals[index] != mut(s, b, y).vals[index])
    fit = lambda s, k: g.fit(s_(s), k)[0]
    mine = lambda s: elem(E, s_(s), g.first('mutations'), i, E.p.typ('[]' + MU))
    st.assume(And(lens(st), distinct(st), Not(fit(st, i).nan)))
    for k in (x, y):
        st.assume(Implies(k < n_(st, b), And(Not(fit(st, who(st, b, k)).nan), who(st, b, k) != i)))
    st0 = st.copy()

    def entry(s, k):
        """an entry that was there is kept, or gives way to a fitter member's for the same point; new ones are this member's"""
        old = k < n_(s_(s), b)
        kept = And(same(mut(s, b, k), mut(s_(s), b, k)), who(s, b, k) == who(s_(s), b, k))
        fitter = And(who(s, b, k) == i, mut(s, b, k).vals[index] == mut(s_(s), b, k).vals[index], fit(s, i).v > fit(s, who(s_(s), b, k)).v)
        return And(n_(s, b) >= n_(s_(s), b), Implies(old, Or(kept, fitter)), Implies(And(Not(old), k < n_(s, b)), who(s, b, k) == i))
    others = lambda s: And(slq(md(s, o).vals[fm], md(s_(s), o).vals[fm]), slq(md(s, o).vals[fi], md(s_(s), o).vals[fi]),
                           Implies(x < n_(s, o), And(same(mut(s, o, x), mut(s_(s), o, x)), who(s, o, x) == who(s_(s), o, x))))
    mymut = lambda s: same(elem(E, s, mine(s), w, mt), elem(E, s_(s), mine(s), w, mt))

    def templates(E, ctx):
        out = [('lens', lambda v: lens(v.st)), ('distinct', lambda v: distinct(v.st)), ('others', lambda v: others(v.st)),
               ('entry x', lambda v: entry(v.st, x)), ('entry y', lambda v: entry(v.st, y)), ('mine', lambda v: mymut(v.st))]
        cells = [(p, t) for p, t in ctx.entry_st.cells if E.p.ts(t) == MU]
        if outer_ints(ctx):
            for n in ctx.ints():
                for d in (0, 1):
                    for ci, (p, t) in enumerate(cells):
                        for k, kn in ((x, 'x'), (y, 'y')):
                            out.append(('cell %d, %s<%s+%d has another point' % (ci, kn, n, d), lambda v, p=p, n=n, d=d, k=k: Implies(And(k < v.vals[n] + d, k < n_(v.st, b)), mut(v.st, b, k).vals[index] != E.load(v.st, p, mt).vals[index])))
        return out
    E.templates.append(templates)
    outs = E.run(g.method('setBeneficial'), [g.p, i], st)
    for s, r in outs:
        E.oblige(s, 'post', 'as many mutations as indexes', lens(s))
        E.oblige(s, 'post', 'no two beneficial mutations of a base are for one point', distinct(s))
        E.oblige(s, 'post', 'an entry is kept, or replaced by that of a fitter member for the same point', entry(s, x))
        E.oblige(s, 'frame', 'the mutations of other bases stay', others(s))
        E.oblige(s, 'frame', 'the mutations of the member stay', mymut(s))
        E.oblige(s, 'frame', 'the population stays', g.same(s, st0, ('population', 'newPopulation', 'fitnesses', 'best', 'mutations')))
    E.need(outs, 'setBeneficial returns')


# ------------------------------------------------------------------------------------------------ steps and construction
TF = z3.Function('fitness of points', IntS, RealS)


def step(E, name):
    """the contracts of the parts of a step, composed"""
    st = State()
    g = Alg(E, st, name)
    modified = name == 'modifiedGenetic'
    sf = E.p.field(g.tid, 'stats')
    stt = E.p.typ(AL + 'Stats')
    fb, fg = E.p.field(stt, 'BestFitness'), E.p.field(stt, 'Generation')
    stats = lambda s: E.load(s, g.p, g.tid).vals[sf]
    c0 = E.fresh('content of the best member')
    before = stats(st).vals[fb]
    gen = stats(st).vals[fg]
    # what updateFitnesses of the step before established
    st.assume(And(Not(before.nan), before.v == TF(c0), TF(c0) >= 0, gen >= 0, gen < 2 ** 62))
    st.ghost = dict(stage=0)
    ghost = {}

    def part(n, needs, then, effect=None):
        def f(E, s, a):
            E.oblige(s, 'post', '%s comes at its place in a step' % n, z3.BoolVal(s.ghost['stage'] == needs))
            E.oblige(s, 'pre', '%s is called on the algorithm itself' % n, And(a[0].obj == g.p.obj, a[0].idx == g.p.idx))
            s.ghost = dict(s.ghost, stage=then)
            if effect:
                effect(s)
            return [(s, None)]
        E.summaries['(*%s).%s' % (g.T, n)] = f
    # newGeneration: member 0 is a copy of the former best (generation, k = 0)
    part('newGeneration', 0, 1)
    # calculateFitnesses: the fitness of member 0 is that of its points (calculate, k = 0)
    part('calculateFitnesses', 1, 2, lambda s: s.ghost.update(fit0=TF(c0)))
    if modified:
        # combineMutations: member 0 and its fitness stay (combine, x = 0)
        part('combineMutations', 2, 3)

    def after(s):
        # updateFitnesses: no member is fitter than the first, the reported fitness is that of the first (update)
        c1 = E.fresh('content of the new best member')
        s.assume(TF(c1) >= s.ghost['fit0'])
        s.ghost['c1'] = c1
        E.store(s, P(g.p.obj, g.p.idx, g.p.root, g.p.path + (sf, fb), None, True), F(TF(c1), FALSE), E.p.ut(stt)['f'][fb]['t'])
    part('updateFitnesses', 3 if modified else 2, 4, after)
    outs = E.run(g.method('Step'), [g.p], st.copy())
    for s, r in outs:
        now = stats(s).vals
        E.oblige(s, 'post', 'a step is complete', z3.BoolVal(s.ghost['stage'] == 4))
        E.oblige(s, 'post', 'the best fitness never falls', And(Not(now[fb].nan), now[fb].v >= before.v))
        E.oblige(s, 'post', 'the best fitness is that of the best member', now[fb].v == TF(s.ghost['c1']) if 'c1' in s.ghost else FALSE)
        E.oblige(s, 'post', 'the generation count grows by one', now[fg] == gen + 1)
        E.oblige(s, 'frame', 'tables, cutoff and best stay as the parts left them', g.same(s, st, ('population', 'newPopulation', 'fitnesses', 'best', 'mutations', 'cutoff')))
    E.need(outs, 'Step returns')
    for m, f in (('Best', 'best'), ('Stats', 'stats')):
        outs = by_name(E, st.copy(), g, m, [])
        for s, r in outs:
            t = E.p.ut(g.tid)['f'][E.p.field(g.tid, f)]['t']
            E.oblige(s, 'post', '%s delivers the field' % m, And(*[a == b for a, b in zip(E.flat(r, t), E.flat(g.first(f), t))]))
        E.need(outs, '%s returns' % m)


def construct(E, name):
    st = State()
    T = ALGOS[name]
    modified = name == 'modifiedGenetic'
    size, cutoff, k, j = (E.fresh(n) for n in ('size', 'cutoff', 'k', 'j'))
    st.assume(And(cutoff >= 1, size >= 2 * cutoff, size <= 2 ** 40, k >= 0, k < size, j >= 0))
    npt = E.p.typ(NP)
    mutator = E.sym(st, MM, 'mutator')
    ev = E.sym(st, EV, 'evaluator')
    st.assume(And(mutator.tag != 0, ev.tag != 0))
    t = E.p.typ(NG)
    G = E.sym(st, NG, 'kth group')
    nxt0 = st.nxt
    pj = elem(E, st, G, j, npt)
    st.assume(Implies(j < G.len, And(Not(pj.vals[0].nan), Not(pj.vals[1].nan))))
    st.ghost = dict(calls=I(0), evals=I(0), stage=I(0))
    st0 = st.copy()
    E.optimistic = True

    def group(E, s, a):
        r = E.sym(s, NG, 'group')
        s.assume(Implies(s.ghost['calls'] == k, slq(r, G)))
        s.ghost['calls'] = s.ghost['calls'] + 1
        return [(s, r)]

    def evals(E, s, a):
        E.oblige(s, 'post', 'evaluators are asked for once, one for each member', And(a[0] == size, s.ghost['evals'] == 0))
        s.ghost['evals'] = s.ghost['evals'] + 1
        return [(s, ev)]
    tid = E.p.typ(T)
    fld = lambda s, p, f: E.load(s, p, tid).vals[E.p.field(tid, f)]
    row = lambda s, sl, i, root: elem(E, s, sl, i, E.p.typ(root))
    eqpt = lambda s, a, s2, b: And(*[x == y for x, y in zip(E.flat(elem(E, s, a, j, npt), npt), E.flat(elem(E, s2, b, j, npt), npt))])

    def kth(s, pop, new):
        n = row(s, new, k, NG)
        return And(slq(row(s, pop, k, NG), G), n.len == G.len, Or(n.obj >= nxt0, n.cap == 0), Implies(j < G.len, And(eqpt(s, n, st0.shadow(s), G), eqpt(s, G, st0.shadow(s), G))))

    def state(s, p):
        pop, new = fld(s, p, 'population'), fld(s, p, 'newPopulation')
        E.oblige(s, 'post', 'every group generated is a member, and has a copy with storage of its own', And(pop.len == size, new.len == size, kth(s, pop, new)))
        E.oblige(s, 'post', 'there is one fitness and one list of mutations for each member', And(fld(s, p, 'fitnesses').len == size, fld(s, p, 'mutations').len == size))
        E.oblige(s, 'post', 'every group is generated by its own call', s.ghost['calls'] == size)
        best = fld(s, p, 'best')
        m0 = row(s, pop, I(0), NG)
        E.oblige(s, 'post', 'the best member has storage of its own and as many points as the members', And(best.len == m0.len, Or(best.obj >= nxt0, best.cap == 0), Or(best.cap == 0, And(best.obj != G.obj, best.obj != row(s, new, k, NG).obj))))
        e, m = fld(s, p, 'evaluator'), fld(s, p, 'mutator')
        E.oblige(s, 'post', 'the algorithm has the evaluator, the mutation method and the cutoff', And(e.tag == ev.tag, e.obj == ev.obj, m.tag == mutator.tag, m.obj == mutator.obj, fld(s, p, 'cutoff') == cutoff))
        if modified:
            E.oblige(s, 'post', 'every base has a list of beneficial mutations', fld(s, p, 'beneficialMutations').len == cutoff)

    def calc(E, s, a):
        state(s, a[0])
        E.oblige(s, 'post', 'the members are evaluated once', s.ghost['stage'] == 0)
        s.ghost['stage'] = s.ghost['stage'] + 1
        return [(s, None)]

    def upd(E, s, a):
        E.oblige(s, 'post', 'the best is found once, after the evaluation', s.ghost['stage'] == 1)
        s.ghost['stage'] = s.ghost['stage'] + 1
        return [(s, None)]
    E.summaries['(*%s).calculateFitnesses' % T] = calc
    E.summaries['(*%s).updateFitnesses' % T] = upd

    def templates(E, ctx):
        out = []
        pops = [(n, f) for n, f in slices_of(ctx, NG)]
        for n, f in int_vars(ctx):
            out.append(('calls=%s' % n, lambda v, f=f: v.ghost('calls') == f(v)))
            for a, (an, ag) in enumerate(pops):
                out.append(('%s len %s' % (an, n), lambda v, f=f, ag=ag: ag(v).len == f(v)))
                for bn, bg in pops:
                    if bn != an:
                        out.append(('%s, %s apart' % (an, bn), lambda v, ag=ag, bg=bg: Or(ag(v).cap == 0, bg(v).cap == 0, ag(v).obj != bg(v).obj)))
                        out.append(('%s, %s kth <%s' % (an, bn, n), lambda v, f=f, ag=ag, bg=bg: Implies(k < f(v), kth(v.st, ag(v), bg(v)))))
        return out
    E.templates.append(templates)
    outs = E.run(AL + ('NewModifiedGenetic' if modified else 'NewSimple'), [Fn(handler=group), size, cutoff, Fn(handler=evals), mutator], st)
    for s, r in outs:
        E.oblige(s, 'post', 'the members are evaluated and the best is found', s.ghost['stage'] == 2)
        state(s, r)
    E.need(outs, 'the constructor returns')


CF = MOD + 'fitness.CacheFunction'


def parallel(E):
    PT = MOD + 'algorithm/evaluator.parallel'
    st = State()
    tid = E.p.typ(PT)
    v = E.sym(st, tid, 'p')
    p = E.new(st, tid)
    E.store(st, p, v, tid)
    evs = v.vals[E.p.field(tid, 'evaluators')]
    i, j, k = E.fresh('i'), E.fresh('j'), E.fresh('k')
    st.assume(And(*[And(x >= 0, x < evs.len) for x in (i, j, k)]))
    st0 = st.copy()
    ct = E.p.typ(CF)
    now = lambda s, n: elem(E, s, E.load(s, p, tid).vals[E.p.field(tid, 'evaluators')], n, ct)
    first = lambda s, n: elem(E, st0.shadow(s), evs, n, ct)
    eq = lambda a, b: And(a.tag == b.tag, a.obj == b.obj, a.idx == b.idx)
    for n in (i, j, k):
        st.assume(first(st, n).tag != 0)
    st0 = st.copy()

    def run(m, args):
        s = st.copy()
        f = E.p.methods.get((tid, m))
        return E.run(f, [v] + args, s) if f else E.run(method_fn(E, E.p.typ('*' + PT), m), [p] + args, s)
    outs = run('Get', [i])
    for s, r in outs:
        E.oblige(s, 'post', 'Get delivers the function of the member', eq(r, first(s, i)))
    E.need(outs, 'Get returns')
    outs = run('Swap', [i, j])
    for s, r in outs:
        E.oblige(s, 'post', 'Swap exchanges the functions of i and j and no other', eq(now(s, k), first(s, If(k == i, j, If(k == j, i, k)))))
    E.need(outs, 'Swap returns')
    counted(E, (CF, 'SetBase'), lambda recv, a: (recv, a[0]))
    outs = run('SetBase', [i, j])
    for s, r in outs:
        calls = s.ghost.get((CF, 'SetBase'), ())
        E.oblige(s, 'post', 'SetBase tells the function of the member about that of its base', And(z3.BoolVal(len(calls) == 1), *[And(eq(a, first(s, i)), eq(b, first(s, j))) for a, b in calls]))
        E.oblige(s, 'frame', 'SetBase moves no function', eq(now(s, k), first(s, k)))
    E.need(outs, 'SetBase returns')
