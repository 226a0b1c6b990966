"""C18: the fast random source is in range, deterministic and never fails."""
from gvc.core import *
from gvc.lib import *

PK = MOD + 'random.'
PURE = ('math.',)


def table_bounds(E, const):
    """facts about the never-assigned global arrays, read off the package initialiser's SSA"""
    tabs, local = {}, {}
    addr, loads = {}, {}
    for b in E.p.funcs[MOD + 'random.init']['blocks']:
        for ins in b['ins']:
            if ins['op'] == 'alloc':
                local[ins['n']] = {}
            elif ins['op'] == 'indexaddr' and ins['i']['k'] == 'const' and ins['x']['k'] in ('reg', 'global'):
                addr[ins['n']] = (ins['x']['n'], int(ins['i']['v']))
            elif ins['op'] == 'unop' and ins['o'] == '*' and ins['x']['k'] == 'reg':
                loads[ins['n']] = ins['x']['n']
            elif ins['op'] == 'store':
                d, v = ins['addr'], ins['v']
                if d['k'] == 'reg' and d['n'] in addr:
                    g, i = addr[d['n']]
                    t = local.get(g) if g in local else tabs.setdefault(g, {})
                    t[i] = Fraction(v['v']) if v['k'] == 'const' else None
                elif d['k'] == 'global' and v['k'] == 'reg' and loads.get(v['n']) in local:
                    tabs[d['n']] = local[loads[v['n']]]
    tabs = {g: t for g, t in tabs.items() if g in const and all(v is not None for v in t.values())}

    def hook(E, st, node, obj, idx, v):
        if not isnum(obj) or node.stage != 0:
            return []
        for g, t in tabs.items():
            if g in E.glob and num(E.glob[g]) == num(obj):
                n = max(t) + 1
                vals = list(t.values())
                if node.key[2] == 'n':
                    return [Implies(And(idx >= 0, idx < n), Not(v))]
                if node.key[2] in ('v', 'i'):
                    c = (lambda x: z3.RealVal(str(x))) if node.key[2] == 'v' else (lambda x: I(int(x)))
                    # elements the literal leaves out are zero
                    return [Implies(And(idx >= 0, idx < n), And(v >= c(min(vals + [0])), v <= c(max(vals + [0]))))]
        return []
    E.base_hooks.append(hook)


def written_globals(E):
    """globals of the package that some function other than the initialiser may write"""
    w, seen = set(), set()
    for f in E.p.funcs.values():
        derived = {}
        for b in f['blocks']:
            for ins in b['ins']:
                ops = []

                def walk(x):
                    if isinstance(x, dict):
                        if x.get('k') == 'global':
                            ops.append(x['n'])
                        elif x.get('k') == 'reg' and x['n'] in derived:
                            ops.append(derived[x['n']])
                        else:
                            for y in x.values():
                                walk(y)
                    elif isinstance(x, list):
                        for y in x:
                            walk(y)
                walk({k: v for k, v in ins.items() if k not in ('t', 'xt', 'vt')})
                for g in ops:
                    seen.add(g)
                if f['short'] == 'init':
                    continue
                if ins['op'] in ('indexaddr', 'fieldaddr') and ops:
                    derived[ins['n']] = ops[0]
                elif ins['op'] == 'unop' and ins['o'] == '*':
                    pass
                else:
                    w.update(ops)
    return w, seen


def start(E):
    st = State()
    w, seen = written_globals(E)
    const = {g for g in seen if g not in w}
    table_bounds(E, const)
    E.reads = set()

    def on_load(p):
        if isnum(p.obj) and num(p.obj) < 0:
            E.reads.add(num(p.obj))
    E.on_load = on_load
    return st, const


def finish(E, const, outs, name):
    """every global the function reads is constant or set by Seed to a function of the seed alone"""
    E.on_load = None
    byid = {num(v): k for k, v in E.glob.items()}
    for g in sorted(E.reads):
        gn = byid[g]
        ok = gn in const or seeded(E, gn)
        E.oblige(State(), 'determinism', 'the state read (%s) is constant or reset by Seed' % gn.split('/')[-1], z3.BoolVal(bool(ok)))
    for a in sorted(E.assumed):
        E.oblige(State(), 'determinism', 'calls only deterministic functions (%s)' % a, z3.BoolVal(a.startswith(PURE)))
    E.need(outs, name + ' returns')


def seeded(E, gn):
    st = State()
    seed = E.sym(st, 'int64', 'seed')
    g = None
    for f in E.p.funcs.values():
        for b in f['blocks']:
            for ins in b['ins']:
                for v in [ins.get('x'), ins.get('addr'), ins.get('v')] + list((ins.get('call') or {}).get('args') or []):
                    if isinstance(v, dict) and v.get('k') == 'global' and v['n'] == gn:
                        g = v
    save = E.emit
    E.emit = False
    try:
        outs = E.run(PK + 'Seed', [seed], st)
    finally:
        E.emit = save
    p = E.global_ptr(g)
    tid = E.p.ut(g['t'])['e']
    for s, r in outs:
        for x in E.flat(E.load(s, p, tid), tid):
            for sym in symbols(x):
                if sym != seed.decl().name():
                    return False
    return True


def symbols(t):
    if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
        return {t.decl().name()}
    r = set()
    if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith('m0:'):
        r.add(t.decl().name())
    for c in t.children():
        r |= symbols(c)
    return r


def intn(E):
    st, const = start(E)
    n = E.sym(st, 'int', 'n')
    st.assume(And(n >= 1, n <= 2 ** 31 - 1))
    outs = E.run(PK + 'Intn', [n], st)
    for s, r in outs:
        E.oblige(s, 'post', '0 <= Intn(n) < n', And(r >= 0, r < n))
    finish(E, const, outs, 'Intn')


def float32(E):
    st, const = start(E)
    outs = E.run(PK + 'Float32', [], st)
    for s, r in outs:
        E.oblige(s, 'post', '0 <= Float32() < 1', And(Not(r.nan), r.v >= 0, r.v < 1))
    finish(E, const, outs, 'Float32')


def int63(E):
    st, const = start(E)
    outs = E.run(PK + 'Int63', [], st)
    for s, r in outs:
        E.oblige(s, 'post', 'Int63() >= 0', And(r >= 0, r < 2 ** 63))
    finish(E, const, outs, 'Int63')


def uint32(E):
    st, const = start(E)
    outs = E.run(PK + 'Uint32', [], st)
    for s, r in outs:
        E.oblige(s, 'post', 'Uint32() fits 32 bits', And(r >= 0, r < 2 ** 32))
    finish(E, const, outs, 'Uint32')


def normf(E):
    st, const = start(E)
    outs = E.run(PK + 'NormFloat64', [], st)
    for s, r in outs:
        E.oblige(s, 'post', 'NormFloat64() is not NaN', Not(r.nan))
    finish(E, const, outs, 'NormFloat64')


UNITS = [('random.Intn', intn), ('random.Float32', float32), ('random.Int63', int63), ('random.Uint32', uint32), ('random.NormFloat64', normf)]
HARNESS = [dict(name='random', pkg='random', package='random_test', files=['c18.go.txt'], run='TestVerifC18')]
ASSUMPTIONS = ['math.Log and math.Exp are deterministic; math.Log of a value in [0,1] is in [-Inf,0]',
               'partial correctness: that the rejection loops end is not proved']
LEVEL_NOTE = ('All obligations (result ranges, index bounds, no panic, no NaN, and that all state read is constant or reset by Seed to a function of the seed) are discharged '
              'for every generator state, through the source of go-pcgr. Bit operations are uninterpreted within their ranges; termination of rejection loops is not proved.')
