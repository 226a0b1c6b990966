"""gvc: a deductive verifier for the Go SSA dump written by tools/ssadump.

Obligations are generated by forward symbolic execution of the real code's SSA (dumped from
/repo's working tree on every run).  Paths are split; loops are cut at their headers with
inductive invariants; functions under a contract are replaced by the contract at their call
sites, others are inlined.  Every obligation is a quantifier-free formula over mathematical
integers, reals, booleans and uninterpreted functions discharged by z3 (cvc5 as fall-back).

Loop invariants: a contract supplies candidate clauses (and the verifier adds general ones);
the largest inductive subset is computed (Houdini) and the obligations are then checked under
it.  A candidate that is not inductive is simply not used, so candidates need no trust.
"""
import re, json, sys, time, itertools, subprocess, tempfile, os
from fractions import Fraction
import z3

sys.setrecursionlimit(100000)
IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
INF = z3.Real('INF')
MAXOBJ_LEN = 2 ** 47


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


def I(n):
    return z3.IntVal(n)


_NUM = (z3.IntNumRef, z3.RatNumRef)
_T, _F = TRUE.ast.value, FALSE.ast.value      # terms are hash-consed


def isnum(t):
    return isinstance(t, _NUM)


def is_true(t):
    return t.ast.value == _T


def is_false(t):
    return t.ast.value == _F


def num(t):
    if isinstance(t, z3.IntNumRef):
        return t.as_long()
    if isinstance(t, z3.RatNumRef):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


_CTX = z3.main_ctx()
_REF = _CTX.ref()
_mk_and, _mk_or, _mk_not = (getattr(z3.z3core, 'Z3_mk_' + n).__defaults__[0].f for n in ('and', 'or', 'not'))


def pow2(x):
    """1, 2, 4, ..., 2^60"""
    return x >= 1 and x == int(x) and int(x) & (int(x) - 1) == 0 and x <= 2 ** 60


def _nary(mk, a):
    n = len(a)
    arr = (z3.Ast * n)(*[x.ast for x in a])
    return z3.BoolRef(mk(_REF, n, arr), _CTX)


def And(*a):
    a = [x for x in a if x.ast.value != _T]
    if any(x.ast.value == _F for x in a):
        return FALSE
    return TRUE if not a else a[0] if len(a) == 1 else _nary(_mk_and, a)


def Or(*a):
    a = [x for x in a if x.ast.value != _F]
    if any(x.ast.value == _T for x in a):
        return TRUE
    return FALSE if not a else a[0] if len(a) == 1 else _nary(_mk_or, a)


def Not(a):
    if is_true(a):
        return FALSE
    if is_false(a):
        return TRUE
    if z3.is_not(a):
        return a.arg(0)
    return z3.BoolRef(_mk_not(_REF, a.ast), _CTX)


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def eqt(a, b):
    if a.eq(b):
        return TRUE
    if isnum(a) and isnum(b):
        return z3.BoolVal(num(a) == num(b))
    return a == b


# ---------------------------------------------------------------- values
class F:
    """float: nan flag and real value; mag/isint are sound static facts; i the exact int term"""
    __slots__ = ('v', 'nan', 'mag', 'isint', 'i')

    def __init__(s, v, nan=FALSE, mag=None, isint=False, i=None):
        s.v, s.nan, s.mag, s.isint, s.i = v, nan, mag, isint, i

    def fin(s):
        return s.mag is not None


class P:
    __slots__ = ('obj', 'idx', 'root', 'path', 'arr', 'nn')

    def __init__(s, obj, idx, root, path=(), arr=None, nn=False):
        s.obj, s.idx, s.root, s.path, s.arr, s.nn = obj, idx, root, path, arr, nn


class S:
    __slots__ = ('obj', 'off', 'len', 'cap', 'root')

    def __init__(s, obj, off, ln, cap, root):
        s.obj, s.off, s.len, s.cap, s.root = obj, off, ln, cap, root


class IF:
    __slots__ = ('tag', 'obj', 'idx')

    def __init__(s, tag, obj, idx):
        s.tag, s.obj, s.idx = tag, obj, idx


class Fn:
    __slots__ = ('name', 'binds', 'handler', 'id')

    def __init__(s, name=None, binds=None, handler=None, id=None):
        s.name, s.binds, s.handler, s.id = name, binds, handler, id


class ST:
    __slots__ = ('vals', 'tid')

    def __init__(s, vals, tid):
        s.vals, s.tid = vals, tid


class Tup:
    __slots__ = ('vals',)

    def __init__(s, vals):
        s.vals = vals


# ---------------------------------------------------------------- memory
class Node:
    __slots__ = ('kind', 'prev', 'a', 'memo', 'nxt', 'stage', 'key', 'depth')

    def __init__(s, kind, prev, a, key, nxt=None, stage=0):
        s.kind, s.prev, s.a, s.key, s.nxt, s.stage, s.memo = kind, prev, a, key, nxt, stage, {}


INT_RANGES = {'int': (-2 ** 63, 2 ** 63 - 1), 'int64': (-2 ** 63, 2 ** 63 - 1), 'int32': (-2 ** 31, 2 ** 31 - 1),
              'int16': (-2 ** 15, 2 ** 15 - 1), 'int8': (-128, 127), 'uint': (0, 2 ** 64 - 1), 'uint64': (0, 2 ** 64 - 1),
              'uintptr': (0, 2 ** 64 - 1), 'uint32': (0, 2 ** 32 - 1), 'uint16': (0, 2 ** 16 - 1), 'uint8': (0, 255),
              'rune': (-2 ** 31, 2 ** 31 - 1), 'byte': (0, 255), 'untyped int': (-2 ** 63, 2 ** 63 - 1)}


class Prog:
    def __init__(s, path):
        d = json.load(open(path))
        s.types = d['types']
        for t in s.types:
            if t and t['k'] == 'struct':
                t['f'] = t['f'] or []
        s.funcs = {f['name']: f for f in d['funcs']}
        s.methods = {}
        for m in d['methods'] or []:
            s.methods[(m['t'], m['m'])] = m['f']
        s.tid = {t['s']: i for i, t in enumerate(s.types)}
        s._leaves = {}
        s._loops = {}

    def t(s, tid):
        return s.types[tid]

    def u(s, tid):
        t = s.types[tid]
        while t['k'] == 'named':
            tid = t['u']
            t = s.types[tid]
        return tid

    def ut(s, tid):
        return s.types[s.u(tid)]

    def kind(s, tid):
        return s.ut(tid)['k']

    def ts(s, tid):
        return s.types[tid]['s']

    def typ(s, name):
        if name not in s.tid:
            raise Unsupported('type %s not found' % name)
        return s.tid[name]

    def field(s, tid, name):
        for i, f in enumerate(s.ut(tid)['f']):
            if f['n'] == name:
                return i
        raise Unsupported('field %s.%s not found' % (s.ts(tid), name))

    def leaves(s, tid):
        """[(path, comp, basicname)]"""
        if tid in s._leaves:
            return s._leaves[tid]
        t = s.ut(tid)
        k = t['k']
        if k == 'basic':
            n = t['name']
            if n in ('float64', 'float32', 'untyped float'):
                r = [((), 'v', n), ((), 'n', n)]
            elif n == 'bool' or n == 'untyped bool':
                r = [((), 'b', n)]
            elif n in INT_RANGES:
                r = [((), 'i', n)]
            else:
                r = [((), 'str', n)]
        elif k == 'ptr':
            r = [((), 'po', ''), ((), 'px', '')]
        elif k == 'slice':
            r = [((), 'so', ''), ((), 'sf', ''), ((), 'sl', ''), ((), 'sc', '')]
        elif k == 'iface':
            r = [((), 'it', ''), ((), 'io', ''), ((), 'ix', '')]
        elif k == 'func':
            r = [((), 'fn', '')]
        elif k in ('map', 'chan'):
            r = [((), 'mo', '')]
        elif k == 'struct':
            r = []
            for i, f in enumerate(t['f']):
                r += [((i,) + p, c, b) for p, c, b in s.leaves(f['t'])]
        elif k == 'array':
            if t['n'] > 16:
                raise Unsupported('large array value')
            r = []
            for i in range(t['n']):
                r += [((i,) + p, c, b) for p, c, b in s.leaves(t['e'])]
        else:
            raise Unsupported('leaves of ' + t['s'])
        s._leaves[tid] = r
        return r

    def loops(s, fn):
        """header -> set of body blocks, via dominators"""
        if fn['name'] in s._loops:
            return s._loops[fn['name']]
        bs = {b['i']: b for b in fn['blocks']}

        def dom(a, b):  # a dominates b
            while b != -1:
                if a == b:
                    return True
                b = bs[b]['idom']
            return False
        res = {}
        for b in fn['blocks']:
            for h in b['succs']:
                if dom(h, b['i']):
                    body = res.setdefault(h, {h})
                    stack = [b['i']]
                    while stack:
                        x = stack.pop()
                        if x in body:
                            continue
                        body.add(x)
                        stack += bs[x]['preds']
        s._loops[fn['name']] = res
        return res


def comp_sort(c):
    return BoolS if c in ('b', 'n') else RealS if c == 'v' else IntS


class State:
    __slots__ = ('mem', 'pc', 'pcs', 'ghost', 'nxt', 'stage', 'log', 'cells', 'trail', 'dead')

    def __init__(s):
        s.mem, s.pc, s.pcs, s.ghost, s.log, s.cells, s.trail = {}, [], set(), {}, [], [], ()
        s.nxt = z3.Int('nxt0')
        s.stage = 0
        s.dead = False

    def copy(s):
        n = State.__new__(State)
        n.mem, n.pc, n.pcs, n.ghost = dict(s.mem), list(s.pc), set(s.pcs), dict(s.ghost)
        n.nxt, n.stage, n.log, n.cells, n.trail, n.dead = s.nxt, s.stage, list(s.log), list(s.cells), s.trail, s.dead
        return n

    def shadow(s, cur):
        """this state's memory, but facts learnt while reading it go to cur"""
        n = s.copy()
        n.pc, n.pcs = cur.pc, cur.pcs
        return n

    def assume(s, f):
        if is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                s.assume(c)
            return
        i = f.get_id()
        if i in s.pcs:
            return
        s.pcs.add(i)
        s.pc.append(f)


class Collect:
    """stands in for a state: collects what is assumed"""

    def __init__(s):
        s.facts = []

    def assume(s, f):
        if not is_true(f):
            s.facts.append(f)


class Frame:
    __slots__ = ('fn', 'env', 'depth', 'blocks', 'loops', 'tag', 'free', 'joined')

    def __init__(s, fn, env, depth, blocks, loops, tag, free):
        s.joined = None
        s.fn, s.env, s.depth, s.blocks, s.loops, s.tag, s.free = fn, env, depth, blocks, loops, tag, free

    def copy(s):
        return Frame(s.fn, dict(s.env), s.depth, s.blocks, s.loops, s.tag, s.free)


class View:
    """what a candidate invariant may look at: the loop's int/float/slice header values and a state"""

    def __init__(s, st, vals, entry=None):
        s.st, s.vals = st, vals
        s.entry = View(entry.st.shadow(st), entry.vals) if entry is not None else s

    def ghost(s, n):
        return s.st.ghost[n]


class Obl:
    __slots__ = ('name', 'kind', 'status', 'backend', 'secs', 'detail', 'model')

    def __init__(s, name, kind, status, backend, secs, detail='', model=''):
        s.name, s.kind, s.status, s.backend, s.secs, s.detail, s.model = name, kind, status, backend, secs, detail, model


def rv(q):
    return z3.RealVal(str(Fraction(q)))


def limits(sol, ms, slack=5):
    """bound a query by the solver's own count of steps (about ms milliseconds of linear arithmetic), so
    that the outcome does not depend on the load of the machine, and by a much longer time"""
    sol.set('rlimit', ms * 2000)
    sol.set('timeout', max(10000, ms * slack))


class Engine:
    def __init__(s, prog, externs=None, budget=600):
        s.p = prog
        s.externs = externs or {}
        s.summaries = {}
        s.invokes = {}        # (iface type string, method) -> handler(E, st, recv IF, args, in_)
        s.obls = []
        s.emit = True
        s.fresh_n = 0
        s.stage_n = 0
        s.ub = {}             # obj term id -> (stage bound, ref)
        s.birth = {}          # obj term id -> (stage, ref)
        s.sym_stage = {}      # decl name -> stage created
        s.closures = {}
        s.base_nodes = {}
        s.base_hooks = []     # fn(E, key, obj, idx, val) -> facts
        s.templates = []      # fn(E, ctx) -> [(name, fn(view))]
        s.optimistic, s.pess, s.opt_used = False, set(), False     # see classify
        s.region_preds = []   # (key predicate, name, fn(obj))
        s.loop_cache = {}
        s.t_solver = 0.0
        s.n_queries = 0
        s.stack = []
        s.solver = z3.SimpleSolver()
        limits(s.solver, 4000)
        s.inlined = set()
        s.assumed = set()
        s.used_contracts = set()
        s.deadline = time.time() + budget
        s.maxdepth = 40
        s.mono = False
        s.monolog = {}
        s.axioms = [INF > z3.RealVal(2) ** 200]
        s.cur = ''
        s.overflow = False
        s.ranges = {}         # atom id -> (lo, hi), for interval arithmetic on overflow obligations
        s.paths = 0
        s.maxpaths = 4000
        s.glob = {}
        s.trace = bool(os.environ.get('GVC_TRACE'))
        s.feas_cache = {}
        s.sol_cache = {}
        s.allow_panic = None
        s.stage_prev, s.loop_stage = {}, {}
        s.partial, s.cand_filter, s.ifconv = False, None, False
        s.on_load = None
        s.exact = False       # floats are real numbers: no rounding, no infinities
        s.lean = False        # leave out the general facts about rounding (a round_hook gives those that matter)
        s.light, s.plain_memo, s.plain_keep, s.stage_memo = False, {}, [], {}
        s.load_facts = []     # fn(E, st, pointer): facts about the element a load touches
        s.loading = False
        s.const_mem = {}
        s.full = False
        s.loops_seen = 0
        s.disc = 0
        s.reg_cache = {}
        s.fmemo = {}
        s.wrap_fresh = False
        s.prove_fin = False   # try to bound float operands, so that infinities and NaN drop out
        s.disc_templates = False
        s.hope = False
        s.loop_stack = []
        s.cell_invs = []      # (type, path, f(pointer, value), tag): holds at first, obliged at stores, assumed at loads;
        # tag(obj): f is about objects with this tag only, and does not depend on the index
        s.growing = False
        s.on_alloc = []       # fn(E, st, obj) -> ghost facts that define a new object's ghost attributes
        s.univ = []           # fn(E, ctx) -> [(name, key predicate, P(view, i), index(view, obj, idx))]
        s.sib_hooks = {}
        s.contract_default = {}

    # ------------------------------------------------------------ fresh symbols
    def fresh(s, name, sort=IntS):
        s.fresh_n += 1
        n = '%s!%d' % (name, s.fresh_n)
        c = z3.Const(n, sort)
        s.sym_stage[n] = s.stage_n
        return c

    def freshfn(s, name, *sorts):
        s.fresh_n += 1
        n = '%s!%d' % (name, s.fresh_n)
        s.sym_stage[n] = s.stage_n
        return z3.Function(n, *sorts)

    def new_stage(s, st):
        s.stage_n += 1
        s.stage_prev[s.stage_n] = st.stage
        st.stage = s.stage_n
        return s.stage_n

    def max_stage(s, t):
        """largest creation stage of any symbol in t"""
        memo = s.stage_memo
        k = t.get_id()
        r = memo.get(k)
        if r is not None:
            return r[0]
        st = 0
        d = t.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            st = s.sym_stage.get(d.name(), 0)
        for c in t.children():
            st = max(st, s.max_stage(c))
        memo[k] = (st, t)
        return st

    # ------------------------------------------------------------ solver
    def _sync(s, pc):
        n = 0
        m = min(len(pc), len(s.stack))
        while n < m and s.stack[n] is pc[n]:
            n += 1
        if n < len(s.stack):
            s.solver.pop(len(s.stack) - n)
            del s.stack[n:]
        for f in pc[n:]:
            s.solver.push()
            s.solver.add(f)
            s.stack.append(f)

    def check(s, st, *extra, timeout=None):
        """sat / unsat / unknown of pc and extra"""
        if time.time() > s.deadline:
            raise Budget('time budget of the verification run exceeded')
        t0 = time.time()
        s.n_queries += 1
        pc = s.axioms + st.pc
        s._sync(pc)
        s.solver.push()
        for f in extra:
            s.solver.add(f)
        if timeout:
            limits(s.solver, timeout)
        r = s.solver.check()
        if timeout:
            limits(s.solver, 4000)
        s.solver.pop()
        dt = time.time() - t0
        s.t_solver += dt
        if s.trace and dt > 1:
            print('  slow query %.1fs %s' % (dt, r), s.cur, file=sys.stderr)
        return r

    def feasible(s, st, cond):
        if is_true(cond):
            return True
        if is_false(cond):
            return False
        i = cond.get_id()
        if i in st.pcs:
            return True
        n = Not(cond)
        if n.get_id() in st.pcs:
            return False
        return s.check(st, cond, timeout=1500) != z3.unsat

    def proves(s, st, f, timeout=2000):
        if is_true(f):
            return True
        if is_false(f):
            return False
        if f.get_id() in st.pcs:
            return True
        if s.light and s.plain(f):
            # first (only, for the many questions about ranges of integers) without the facts about rounding
            sol = z3.Solver()
            limits(sol, timeout)
            sol.add(*[g for g in s.axioms + st.pc if s.plain(g)])
            sol.add(Not(f))
            t0 = time.time()
            s.n_queries += 1
            r = sol.check()
            s.t_solver += time.time() - t0
            if r == z3.unsat:
                return True
            if timeout < 1000:
                return False
        return s.check(st, Not(f), timeout=timeout) == z3.unsat

    def plain(s, f):
        """does the formula mention no rounded operation?"""
        k = f.get_id()
        r = s.plain_memo.get(k)
        if r is None:
            if z3.is_app(f) and f.num_args() and f.decl().kind() == z3.Z3_OP_UNINTERPRETED and f.decl().name()[:4] in ('fadd', 'fmul', 'fdiv'):
                r = False
            else:
                r = all(s.plain(c) for c in f.children())
            s.plain_memo[k] = r
            s.plain_keep.append(f)
        return r

    def oblige(s, st, kind, name, f, detail=''):
        """record the obligation pc => f, then assume f"""
        if st.dead:
            return
        if s.emit:
            t0 = time.time()
            status, backend, model = s.discharge(st, f)
            s.obls.append(Obl(s.cur + '/' + name, kind, status, backend, time.time() - t0, detail, model))
            if status != 'proved' and s.trace:
                print('  NOT PROVED', s.cur, name, kind, status, st.trail[-12:], file=sys.stderr)
                if model:
                    print(model[:1500], file=sys.stderr)
        st.assume(f)

    def need(s, outs, name):
        """reachability: some outcome is possible under the preconditions"""
        ok = 'failed'
        for st in [o[0] if isinstance(o, tuple) else o for o in outs]:
            r = s.check(st, timeout=8000)
            if r == z3.sat:
                ok = 'proved'
                break
            if r == z3.unknown:
                ok = 'proved'
        s.obls.append(Obl(s.cur + '/' + name, 'reach', ok, 'z3', 0, 'no outcome is possible: the preconditions are contradictory or the function never returns' if ok != 'proved' else ''))

    def discharge(s, st, f):
        if is_true(f):
            return 'proved', 'simplify', ''
        if f.get_id() in st.pcs:
            return 'proved', 'simplify', ''
        r = s.check(st, Not(f))
        if r == z3.unsat:
            return 'proved', 'z3', ''
        # a fresh, non-incremental solver
        sol = z3.Solver()
        limits(sol, 15000, 3)
        sol.add(*s.axioms)
        sol.add(*st.pc)
        sol.add(Not(f))
        t0 = time.time()
        r2 = sol.check()
        s.t_solver += time.time() - t0
        if r2 == z3.unsat:
            return 'proved', 'z3', ''
        if r2 == z3.sat:
            m = sol.model()
            txt = ', '.join('%s=%s' % (d.name(), m[d]) for d in m.decls() if d.arity() == 0 and '!' in d.name() or d.arity() == 0)
            return 'failed', 'z3', txt[:3000]
        r3 = s.cvc5(sol)
        if r3 == 'unsat':
            return 'proved', 'cvc5', ''
        return ('failed' if r3 == 'sat' else 'unknown'), 'cvc5', ''

    def cvc5(s, sol):
        t0 = time.time()
        try:
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
                fh.write('(set-logic ALL)\n' + sol.to_smt2())
            r = subprocess.run(['cvc5', '--tlimit=15000', fh.name], capture_output=True, text=True, timeout=20)
            out = r.stdout.strip().splitlines()
            return out[0] if out else 'unknown'
        except Exception:
            return 'unknown'
        finally:
            s.t_solver += time.time() - t0
            try:
                os.unlink(fh.name)
            except Exception:
                pass

    # ------------------------------------------------------------ memory
    def base(s, key):
        n = s.base_nodes.get(key)
        if n is None:
            root, path, comp = key
            f = z3.Function('m0:%s%s.%s' % (root, ''.join('.%s' % x for x in path), comp), IntS, IntS, comp_sort(comp))
            n = Node('fn', None, (f, None), key, nxt=z3.Int('nxt0'), stage=0)
            s.base_nodes[key] = n
        return n

    def node(s, st, key):
        return st.mem.get(key) or s.base(key)

    def bound_stage(s, t):
        """a stage such that t was < nxt at that stage, or None"""
        if isnum(t):
            return 0
        r = s.ub.get(t.get_id())
        if r:
            return r[0]
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            a, b = s.bound_stage(t.arg(1)), s.bound_stage(t.arg(2))
            if a is not None and b is not None:
                return max(a, b)
        return None

    def same_obj(s, a, b):
        if a.eq(b):
            return True
        if isnum(a) and isnum(b):
            return num(a) == num(b)
        ba, bb = s.birth.get(a.get_id()), s.birth.get(b.get_id())
        if ba and bb:
            return False      # two different allocations
        if ba:
            u = s.bound_stage(b)
            if u is not None and u <= ba[0]:
                return False
        if bb:
            u = s.bound_stage(a)
            if u is not None and u <= bb[0]:
                return False
        return None

    def same_idx(s, a, b):
        if a.eq(b):
            return True
        if isnum(a) and isnum(b):
            return num(a) == num(b)
        d = z3.simplify(a - b)
        if isnum(d):
            return num(d) == 0
        return None

    def rd(s, st, node, obj, idx):
        mk = (obj.get_id(), idx.get_id())
        m = node.memo.get(mk)
        if m is None:
            leaves = []
            v = s._rd(node, obj, idx, leaves)
            m = node.memo[mk] = (v, leaves, obj, idx)
        for n, o, i, v in m[1]:
            s.leaf_facts(st, n, o, i, v)
        return m[0]

    def _rd(s, node, obj, idx, leaves):
        while True:
            k = node.kind
            if k == 'fn':
                f, extra = node.a
                v = f(obj, idx)
                leaves.append((node, obj, idx, v))
                return v
            if k == 'store':
                o, i, val = node.a
                a = s.same_obj(o, obj)
                if a is False:
                    node = node.prev
                    continue
                b = s.same_idx(i, idx)
                if b is False:
                    node = node.prev
                    continue
                if a and b:
                    return val
                return If(And(TRUE if a else obj == o, TRUE if b else idx == i), val, s._rd(node.prev, obj, idx, leaves))
            if k == 'zero':
                o, val = node.a
                a = s.same_obj(o, obj)
                if a is False:
                    node = node.prev
                    continue
                if a:
                    return val
                return If(obj == o, val, s._rd(node.prev, obj, idx, leaves))
            if k == 'copy':
                do, df, so, sf, n, snode = node.a
                a = s.same_obj(do, obj)
                if a is False:
                    node = node.prev
                    continue
                j = z3.simplify(idx - df)
                c = And(TRUE if a else obj == do, s.le(I(0), j), s.lt(j, n))
                if is_false(c):
                    node = node.prev
                    continue
                v = s._rd(snode, so, z3.simplify(j + sf), leaves)
                if is_true(c):
                    return v
                return If(c, v, s._rd(node.prev, obj, idx, leaves))
            if k == 'havoc':
                parts, fnode = node.a
                cs = []
                for p in parts:
                    cs.append(s.region_cond(p, obj))
                c = Or(*cs)
                if is_false(c):
                    node = node.prev
                    continue
                if is_true(c):
                    node = fnode
                    continue
                return If(c, s._rd(fnode, obj, idx, leaves), s._rd(node.prev, obj, idx, leaves))
            raise Unsupported('node ' + k)

    def le(s, a, b):
        if isnum(a) and isnum(b):
            return z3.BoolVal(num(a) <= num(b))
        return a <= b

    def lt(s, a, b):
        if isnum(a) and isnum(b):
            return z3.BoolVal(num(a) < num(b))
        return a < b

    def region_cond(s, p, obj):
        if p[0] == 'obj':
            a = s.same_obj(p[1], obj)
            return TRUE if a else FALSE if a is False else obj == p[1]
        if p[0] == 'fresh':
            u = s.bound_stage(obj)
            if u is not None and u <= p[2]:
                return FALSE
            b = s.birth.get(obj.get_id())
            if b and b[0] <= p[2]:
                return FALSE
            if b and b[0] > p[2]:
                return TRUE
            return obj >= p[1]
        if p[0] == 'pred':
            return p[2](obj)
        return TRUE

    def leaf_facts(s, st, node, obj, idx, v):
        root, path, comp = node.key
        if (v.get_id(), 'lf') in st.pcs:
            return
        st.pcs.add((v.get_id(), 'lf'))
        st.pcs.add(('ref', v))
        mk = lambda c: s.sibling(node, c)(obj, idx)
        if comp == 'i':
            rng = s.key_range(node.key)
            st.assume(v >= rng[0])
            st.assume(v <= rng[1])
        elif comp == 'v':
            st.assume(v <= INF)
            st.assume(v >= -INF)
        elif comp in ('po', 'so', 'io', 'mo'):
            st.assume(v >= 0)
            st.assume(v < node.nxt)
            s.ub[v.get_id()] = (node.stage, v)
        elif comp == 'px':
            pass
        elif comp == 'it':
            st.assume(v >= 0)
        elif comp in ('sf', 'sl', 'sc'):
            st.assume(v >= 0)
            if comp == 'sl':
                c = mk('sc')
                st.assume(v <= c)
                st.assume(v <= MAXOBJ_LEN)
                s.leaf_facts(st, s.sib_node(node, 'sc'), obj, idx, c)
            if comp == 'sc':
                o = mk('so')
                st.assume(v <= MAXOBJ_LEN)
                st.assume(Implies(o == 0, v == 0))
                s.leaf_facts(st, s.sib_node(node, 'so'), obj, idx, o)
        for h in s.base_hooks:
            for f in h(s, st, node, obj, idx, v) or ():
                st.assume(f)
        if node.a[1] is not None:
            for h in s.sib_hooks.get(id(node.a[1]), ()):
                h(st, node, obj, idx)

    def sib_node(s, node, comp):
        root, path, c = node.key
        if c == comp:
            return node
        if node.a[1] is None:      # base
            return s.base((root, path, comp))
        sib = node.a[1]            # havoc: shared dict of fn nodes by key
        k = (root, path, comp)
        if k not in sib:
            f = s.freshfn('m:%s%s.%s' % (root, ''.join('.%s' % x for x in path), comp), IntS, IntS, comp_sort(comp))
            s.sym_stage[f.name()] = node.stage
            sib[k] = Node('fn', None, (f, sib), k, nxt=node.nxt, stage=node.stage)
        return sib[k]

    def sibling(s, node, comp):
        return s.sib_node(node, comp).a[0]

    def key_range(s, key):
        root, path, comp = key
        tid = s.p.typ(root)
        for p, c, b in s.p.leaves(tid):
            if p == path and c == comp:
                return INT_RANGES[b]
        return INT_RANGES['int']

    def wr(s, st, key, obj, idx, val):
        st.mem[key] = Node('store', s.node(st, key), (obj, idx, val), key)
        st.log.append((key, ('obj', obj)))

    def load(s, st, p, tid):
        """load a value of type tid through pointer p"""
        if s.on_load is not None:
            s.on_load(p)
        if s.load_facts and not s.loading:
            s.loading = True
            for f in s.load_facts:
                f(s, st, p)
            s.loading = False
        t = s.p.ut(tid)
        if t['k'] == 'array' and p.arr is not None:
            return ST([s.load(st, P(p.obj, z3.simplify(p.idx + i), p.root, p.path, None, True), t['e']) for i in range(t['n'])], tid)
        vals = []
        for path, comp, b in s.p.leaves(tid):
            vals.append(s.rd(st, s.node(st, (p.root, p.path + path, comp)), p.obj, p.idx))
        v = s.unflat(vals, tid)
        if s.cell_invs and not s.loading:
            s.loading = True
            for g in s.cell_facts(p, v):
                st.assume(g)
            s.loading = False
        return v

    def cell_facts(s, p, v):
        for root, path, f, tag in s.cell_invs:
            if root == p.root and path[:len(p.path)] == p.path:
                x = v
                for i in path[len(p.path):]:
                    x = x.vals[i]
                yield f(p, x)

    def store(s, st, p, v, tid):
        t = s.p.ut(tid)
        if s.cell_invs:
            for g in s.cell_facts(p, v):
                s.oblige(st, 'invariant', 'what is stored in a %s keeps its invariant' % p.root, g)
        if t['k'] == 'array' and p.arr is not None:
            for i in range(t['n']):
                s.store(st, P(p.obj, z3.simplify(p.idx + i), p.root, p.path, None, True), v.vals[i], t['e'])
            return
        for (path, comp, b), x in zip(s.p.leaves(tid), s.flat(v, tid)):
            s.wr(st, (p.root, p.path + path, comp), p.obj, p.idx, x)

    # ------------------------------------------------------------ values <-> leaves
    def unflat(s, vals, tid):
        it = iter(vals)
        r = s._unflat(it, tid)
        return r

    def _unflat(s, it, tid):
        t = s.p.ut(tid)
        k = t['k']
        if k == 'basic':
            n = t['name']
            if n in ('float64', 'float32', 'untyped float'):
                v = next(it)
                n_ = next(it)
                mag = abs(num(v)) if isnum(v) else None
                s_int = isnum(v) and Fraction(num(v)).denominator == 1
                return F(v, n_, mag if is_false(n_) else None, s_int)
            return next(it)
        if k == 'ptr':
            o, x = next(it), next(it)
            e = t['e']
            et = s.p.ut(e)
            if et['k'] == 'array':
                return P(o, x, s.p.ts(et['e']), (), et['n'])
            return P(o, x, s.p.ts(e))
        if k == 'slice':
            return S(next(it), next(it), next(it), next(it), s.p.ts(t['e']))
        if k == 'iface':
            return IF(next(it), next(it), next(it))
        if k == 'func':
            x = next(it)
            if isnum(x) and num(x) in s.closures:
                return s.closures[num(x)]
            return Fn(id=x)
        if k in ('map', 'chan'):
            return next(it)
        if k == 'struct':
            return ST([s._unflat(it, f['t']) for f in t['f']], tid)
        if k == 'array':
            return ST([s._unflat(it, t['e']) for i in range(t['n'])], tid)
        raise Unsupported('unflat ' + t['s'])

    def flat(s, v, tid):
        t = s.p.ut(tid)
        k = t['k']
        if k == 'basic':
            if isinstance(v, F):
                return [v.v, v.nan]
            return [v]
        if k == 'ptr':
            if v.path != ():
                raise Unsupported('interior pointer stored in memory')
            return [v.obj, v.idx]
        if k == 'slice':
            return [v.obj, v.off, v.len, v.cap]
        if k == 'iface':
            return [v.tag, v.obj, v.idx]
        if k == 'func':
            if v.id is None:
                v.id = I(len(s.closures) + 1)
                s.closures[len(s.closures) + 1] = v
            return [v.id]
        if k in ('map', 'chan'):
            return [v]
        if k == 'struct':
            r = []
            for f, x in zip(t['f'], v.vals):
                r += s.flat(x, f['t'])
            return r
        if k == 'array':
            r = []
            for x in v.vals:
                r += s.flat(x, t['e'])
            return r
        raise Unsupported('flat ' + t['s'])

    def zero(s, tid):
        return s.unflat([FALSE if c in ('b', 'n') else z3.RealVal(0) if c == 'v' else I(0) for p, c, b in s.p.leaves(tid)], tid)

    def sym(s, st, tid, name):
        """a symbolic well-typed value"""
        if isinstance(tid, str):
            tid = s.p.typ(tid)
        vals = []
        lv = s.p.leaves(tid)
        for p, c, b in lv:
            vals.append(s.fresh('%s%s.%s' % (name, ''.join('.%s' % x for x in p), c), comp_sort(c)))
        for (p, c, b), v in zip(lv, vals):
            if c == 'i':
                r = INT_RANGES[b]
                st.assume(v >= r[0])
                st.assume(v <= r[1])
            elif c == 'v':
                st.assume(v <= INF)
                st.assume(v >= -INF)
            elif c in ('po', 'so', 'io', 'mo'):
                st.assume(v >= 0)
                st.assume(v < st.nxt)
                s.ub[v.get_id()] = (st.stage, v)
            elif c in ('sf', 'sl', 'sc', 'it'):
                st.assume(v >= 0)
                if c in ('sl', 'sc'):
                    st.assume(v <= MAXOBJ_LEN)
        for i, (p, c, b) in enumerate(lv):
            if c == 'sl':
                st.assume(vals[i] <= vals[i + 1])
                st.assume(Implies(vals[i - 2] == 0, vals[i + 1] == 0))
        return s.unflat(vals, tid)

    def own(s, loop, phi):
        """ghost: the value of the loop variable when an object was allocated"""
        return z3.Function('own:%s:%s' % (loop, phi), IntS, IntS)

    def alloc_obj(s, st):
        o = st.nxt
        o = z3.simplify(o)
        for name, hv in s.loop_stack[-3:]:
            for n, v in hv.items():
                if z3.is_expr(v) and z3.is_int(v):
                    st.assume(s.own(name, n)(o) == v)
        for f in s.on_alloc:
            st.assume(f(s, st, o))
        st2 = s.new_stage(st)
        s.birth[o.get_id()] = (st2 - 0.5, o)
        # nxt after
        st.nxt = z3.simplify(st.nxt + 1)
        st.assume(o >= 1)
        return o

    def new(s, st, tid, init=None):
        """allocate an object holding one value of type tid; returns P"""
        t = s.p.ut(tid)
        o = s.alloc_obj(st)
        if t['k'] == 'array':
            root = s.p.ts(t['e'])
            s.zero_obj(st, o, t['e'])
            return P(o, I(0), root, (), t['n'], True)
        p = P(o, I(0), s.p.ts(tid), (), None, True)
        s.zero_obj(st, o, tid)
        if init is not None:
            s.store(st, p, init, tid)
        st.cells.append((p, tid))
        return p

    def zero_obj(s, st, o, tid):
        root = s.p.ts(tid)
        for path, c, b in s.p.leaves(tid):
            key = (root, path, c)
            z = FALSE if c in ('b', 'n') else z3.RealVal(0) if c == 'v' else I(0)
            st.mem[key] = Node('zero', s.node(st, key), (o, z), key)
            st.log.append((key, ('obj', o)))

    # ------------------------------------------------------------ ints
    def wrap(s, st, x, tname, exact=False):
        """x as a value of the integer type"""
        if isnum(x):
            lo, hi = INT_RANGES[tname]
            n = num(x)
            m = hi - lo + 1
            return I((n - lo) % m + lo)
        lo, hi = INT_RANGES[tname]
        if tname in ('int', 'int64') and not exact:
            if s.overflow:
                r = s.interval(st, x)
                if r is not None and r[0] >= lo and r[1] <= hi:
                    if s.emit:
                        s.obls.append(Obl(s.cur + '/no %s overflow' % tname, 'overflow', 'proved', 'interval', 0))
                else:
                    s.oblige(st, 'overflow', 'no %s overflow' % tname, And(x >= lo, x <= hi))
            return x
        if s.proves(st, And(x >= lo, x <= hi), timeout=500):
            return x
        if s.wrap_fresh:      # over-approximation: any value of the type
            r = s.fresh('wrapped')
            st.assume(And(r >= lo, r <= hi))
            st.assume(Implies(And(x >= lo, x <= hi), r == x))
            return r
        m = hi - lo + 1
        return (x - lo) % m + lo if lo else x % m

    def interval(s, st, x):
        """bounds of an integer term from the declared ranges of its atoms, by interval arithmetic"""
        if isnum(x):
            return num(x), num(x)
        r = s.ranges.get(x.get_id())
        if r is not None:
            return r
        k = x.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            rs = [s.interval(st, c) for c in x.children()]
            if any(r is None for r in rs):
                return None
            a = rs[0]
            if k == z3.Z3_OP_UMINUS:
                return -a[1], -a[0]
            if k == z3.Z3_OP_MUL and all(c.get_id() == x.arg(0).get_id() for c in x.children()) and len(rs) == 2:
                m = max(abs(a[0]), abs(a[1]))
                return (0 if a[0] <= 0 <= a[1] else min(a[0] ** 2, a[1] ** 2)), m * m
            for b in rs[1:]:
                if k == z3.Z3_OP_ADD:
                    a = (a[0] + b[0], a[1] + b[1])
                elif k == z3.Z3_OP_SUB:
                    a = (a[0] - b[1], a[1] - b[0])
                else:
                    ps = [p * q for p in a for q in b]
                    a = (min(ps), max(ps))
            return a
        if k == z3.Z3_OP_ITE:
            a, b = s.interval(st, x.arg(1)), s.interval(st, x.arg(2))
            return None if a is None or b is None else (min(a[0], b[0]), max(a[1], b[1]))
        return None

    def tname(s, tid):
        return s.p.ut(tid).get('name')

    # ------------------------------------------------------------ driver
    def run(s, fname, args, st, free=None):
        """symbolically execute function fname; returns [(state, result)]"""
        if fname not in s.p.funcs:
            raise Unsupported('function %s not found' % fname)
        return s.call_fn(fname, args, st, 0, free or [])

    def call_fn(s, fname, args, st, depth, free, top=False):
        if depth > s.maxdepth:
            raise Unsupported('inlining too deep (recursion?) at ' + fname)
        fn = s.p.funcs[fname]
        env = {}
        for p, a in zip(fn['params'], args):
            env[p['n']] = a
        for p, a in zip(fn['freevars'], free):
            env[p['n']] = a
        fr = Frame(fn, env, depth, {b['i']: b for b in fn['blocks']}, s.p.loops(fn), '', free)
        if depth > 0:
            s.inlined.add(fname)
        outs = s.run_blocks(fr, 0, None, st, None)
        res = []
        for o in outs:
            assert o[0] == 'ret', o[0]
            res.append((o[1], o[2]))
        return res

    def run_blocks(s, fr, blk, prev, st, loop):
        """loop = None or (header, body set): stop at header (back) or on leaving the body (exit).
        returns outcomes ('ret', st, val) / ('back', st, fr, prev) / ('exit', st, fr, blk, prev)"""
        out = []
        work = [(fr, blk, prev, st)]
        first = True
        while work:
            fr, blk, prev, st = work.pop()
            if st.dead:
                continue
            if loop is not None:
                if blk == loop[0] and not first:
                    out.append(('back', st, fr, prev))
                    continue
                if blk not in loop[1]:
                    out.append(('exit', st, fr, blk, prev))
                    continue
            if blk in fr.loops and not (loop is not None and blk == loop[0]):
                first = False
                for o in s.handle_loop(fr, blk, prev, st):
                    if o[0] == 'ret':
                        out.append(o)
                    else:  # exit of the inner loop
                        work.append((o[2], o[3], o[4], o[1]))
                continue
            if not (first and loop is not None):
                s.eval_phis(fr, blk, prev, st)
            first = False
            st.trail = st.trail + ((fr.fn['short'], blk),)
            for o in s.exec_block(fr, blk, st):
                if o[0] == 'ret':
                    out.append(o)
                else:
                    work.append((o[1], o[2], blk, o[3]))
            s.paths += 1
            if s.paths > s.maxpaths * 50:
                raise Budget('too many paths')
        return out

    def eval_phis(s, fr, blk, prev, st):
        b = fr.blocks[blk]
        if fr.joined is not None:
            j, vals = fr.joined
            fr.joined = None
            assert j == blk
            fr.env.update(vals)
            return
        vals = {}
        for ins in b['ins']:
            if ins['op'] != 'phi':
                break
            k = b['preds'].index(prev)
            vals[ins['n']] = s.val(fr, ins['x'][k], st, ins['t'])
        fr.env.update(vals)

    def val(s, fr, v, st, tid=None):
        k = v['k']
        if k == 'reg':
            return fr.env[v['n']]
        if k == 'const':
            return s.const(v)
        if k == 'func':
            return Fn(v['n'], [])
        if k == 'global':
            return s.global_ptr(v)
        raise Unsupported('value ' + k)

    def global_ptr(s, v):
        n = v['n']
        if n not in s.glob:
            s.glob[n] = I(-1 - len(s.glob))
        e = s.p.ut(v['t'])['e']
        et = s.p.ut(e)
        if et['k'] == 'array':
            return P(s.glob[n], I(0), s.p.ts(et['e']), (), et['n'], True)
        return P(s.glob[n], I(0), s.p.ts(e), (), None, True)

    def const(s, v):
        t = s.p.ut(v['t'])
        x = v['v']
        if x is None:
            return s.zero(v['t'])
        k = t['k']
        if k == 'basic':
            n = t['name']
            if n in ('float64', 'float32', 'untyped float'):
                f = Fraction(x)
                return F(z3.RealVal(str(f)), FALSE, abs(f), f.denominator == 1, I(int(f)) if f.denominator == 1 else None)
            if isinstance(x, bool):
                return z3.BoolVal(x)
            if n in INT_RANGES:
                return I(int(Fraction(x)))
            return I(abs(hash(str(x))) % 10 ** 9 if False else s.str_id(str(x)))
        if k == 'iface':
            return s.zero(v['t'])
        raise Unsupported('const of ' + t['s'])

    def str_id(s, x):
        d = s.__dict__.setdefault('_strs', {})
        return d.setdefault(x, len(d) + 1)

    # ------------------------------------------------------------ block execution
    def exec_block(s, fr, blk, st):
        """returns [('ret', st, val) | ('go', fr, nextblk, st)]"""
        b = fr.blocks[blk]
        # states being advanced through the block: list of (fr, st)
        cur = [(fr, st)]
        for pos, ins in enumerate(b['ins']):
            op = ins['op']
            if op == 'phi':
                continue
            if op == 'if':
                res = []
                for f, t in cur:
                    c = s.val(f, ins['x'], t)
                    c = z3.simplify(c) if not (is_true(c) or is_false(c)) else c
                    t.pcs.add(('cond', fr.fn['name'], blk, c))
                    yes, no = b['succs']
                    a = s.feasible(t, c)
                    d = s.feasible(t, Not(c))
                    if a and d and s.ifconv:
                        j = s.if_convert(f, blk, yes, no, t, c)
                        if j is not None:
                            res.append(('go', f, j, t))
                            continue
                    if a and d:
                        f2, t2 = f.copy(), t.copy()
                        t.assume(c)
                        t2.assume(Not(c))
                        res.append(('go', f, yes, t))
                        res.append(('go', f2, no, t2))
                    elif a:
                        t.assume(c)
                        res.append(('go', f, yes, t))
                    elif d:
                        t.assume(Not(c))
                        res.append(('go', f, no, t))
                return res
            if op == 'jump':
                return [('go', f, b['succs'][0], t) for f, t in cur]
            if op == 'return':
                res = []
                for f, t in cur:
                    vs = [s.val(f, x, t) for x in ins['x']]
                    res.append(('ret', t, vs[0] if len(vs) == 1 else Tup(vs) if vs else None))
                return res
            if op == 'panic':
                for f, t in cur:
                    ok = FALSE
                    if s.allow_panic is not None:
                        ok = s.allow_panic(s, t, f, ins)
                    s.oblige(t, 'safety', 'no panic in %s' % fr.fn['name'], ok, ins['p'])
                    t.dead = True
                return []
            nxt = []
            for f, t in cur:
                if t.dead:
                    continue
                nxt += s.exec_ins(f, ins, t)
            cur = nxt
            if not cur:
                return []
        raise Unsupported('block without terminator')

    PURE = {'fieldaddr', 'unop', 'binop', 'convert', 'field'}

    def if_convert(s, fr, blk, yes, no, st, c):
        """join the two ways of a conditional that only chooses values: the values become conditional
        ones and a single path goes on at the join. Returns the join, or None"""
        arms = []
        bs = fr.blocks
        arm = lambda k, j: len(bs[k]['preds']) == 1 and bs[k]['succs'] == [j] and bs[k]['ins'][-1]['op'] == 'jump'
        if bs[yes]['succs'] == [no] and arm(yes, no):
            j, arms = no, [(yes, yes), (None, blk)]
        elif bs[no]['succs'] == [yes] and arm(no, yes):
            j, arms = yes, [(None, blk), (no, no)]
        elif len(bs[yes]['succs']) == 1 and bs[yes]['succs'] == bs[no]['succs'] and arm(yes, bs[yes]['succs'][0]) and arm(no, bs[yes]['succs'][0]):
            j, arms = bs[yes]['succs'][0], [(yes, yes), (no, no)]
        else:
            return None
        if j in fr.loops:
            return None
        for k, _ in arms:
            if k is None:
                continue
            for ins in bs[k]['ins'][:-1]:
                if ins['op'] not in s.PURE or ins['op'] == 'binop' and ins['o'] not in ('+', '-', '<', '<=', '>', '>=', '==', '!=') or ins['op'] == 'unop' and ins['o'] not in ('*', '-', '!'):
                    return None
        got = []
        for k, prev in arms:
            if k is not None:
                for ins in bs[k]['ins'][:-1]:
                    r = s.exec_ins(fr, ins, st)
                    if len(r) != 1 or r[0][0] is not fr or r[0][1] is not st:
                        raise Unsupported('conditional join')
            vals = {}
            for ins in bs[j]['ins']:
                if ins['op'] != 'phi':
                    break
                vals[ins['n']] = s.val(fr, ins['x'][bs[j]['preds'].index(prev)], st, ins['t'])
            got.append(vals)
        joined = {}
        for n, x in got[0].items():
            y = got[1][n]
            if isinstance(x, F) and isinstance(y, F):
                mag = max(x.mag, y.mag) if x.mag is not None and y.mag is not None else None
                joined[n] = F(If(c, x.v, y.v), If(c, x.nan, y.nan), mag, x.isint and y.isint, If(c, x.i, y.i) if x.i is not None and y.i is not None else None)
            elif z3.is_expr(x) and z3.is_expr(y):
                joined[n] = x if x.eq(y) else If(c, x, y)
            else:
                return None
        fr.joined = (j, joined)
        st.trail = st.trail + ((fr.fn['short'], blk, 'joined'),)
        return j

    def safe(s, st, name, f, ins):
        if s.partial:       # partial correctness: what happens when the run does not panic
            st.assume(f)
            return
        s.oblige(st, 'safety', name, f, ins.get('p', ''))

    def exec_ins(s, fr, ins, st):
        op = ins['op']
        h = getattr(s, 'op_' + op, None)
        if h is None:
            raise Unsupported('instruction %s at %s' % (ins.get('what', op), ins.get('p')))
        r = h(fr, ins, st)
        if isinstance(r, list) and r and isinstance(r[0], tuple) and r[0][0] == 'multi':
            res = []
            for i, (_, t, v) in enumerate(r):
                f = fr if i == len(r) - 1 else fr.copy()
                if 'n' in ins:
                    f.env[ins['n']] = v
                res.append((f, t))
            return res
        if r is DEAD:
            return []
        if 'n' in ins:
            fr.env[ins['n']] = r
        return [(fr, st)]

    def op_alloc(s, fr, ins, st):
        return s.new(st, ins['e'])

    def nonnil(s, fr, p, st, ins):
        if p.nn:
            return
        s.safe(st, 'nil dereference in ' + fr.fn['name'], p.obj != 0, ins)

    def op_store(s, fr, ins, st):
        p = s.val(fr, ins['addr'], st)
        v = s.val(fr, ins['v'], st)
        s.nonnil(fr, p, st, ins)
        s.store(st, p, v, ins['vt'])

    def op_unop(s, fr, ins, st):
        o = ins['o']
        x = s.val(fr, ins['x'], st)
        if o == '*':
            s.nonnil(fr, x, st, ins)
            return s.load(st, x, s.p.ut(ins['xt'])['e'])
        if o == '-':
            if isinstance(x, F):
                return F(-x.v if not isnum(x.v) else z3.RealVal(str(-Fraction(num(x.v)))), x.nan, x.mag, x.isint, -x.i if x.i is not None else None)
            return s.wrap(st, z3.simplify(-x), s.tname(ins['t']))
        if o == '!':
            return Not(x)
        if o == '^':
            n = s.tname(ins['t'])
            if n.startswith('u'):
                return INT_RANGES[n][1] - x
            return -x - 1
        if o == '<-':
            h = s.externs.get('chan.recv')
            if h is None:
                raise Unsupported('channel receive')
            return h(s, fr, st, x, ins)
        raise Unsupported('unop ' + o)

    def op_binop(s, fr, ins, st):
        x, y = s.val(fr, ins['x'], st), s.val(fr, ins['y'], st)
        return s.binop(ins['o'], x, y, ins['xt'], ins['t'], st, ins, fr)

    def binop(s, o, x, y, xt, rt, st, ins, fr):
        if isinstance(x, F):
            return s.fbin(o, x, y, st, s.tname(xt))
        if o in ('==', '!='):
            r = s.equal(x, y, xt)
            return r if o == '==' else Not(r)
        k = s.p.kind(xt)
        n = s.tname(xt)
        if n == 'string':
            if o == '+':
                return z3.Function('strcat', IntS, IntS, IntS)(x, y)
            raise Unsupported('string op')
        if o == '<':
            return s.lt(x, y)
        if o == '<=':
            return s.le(x, y)
        if o == '>':
            return s.lt(y, x)
        if o == '>=':
            return s.le(y, x)
        if z3.is_bool(x):
            if o == '&':
                return And(x, y)
            if o == '|':
                return Or(x, y)
        if o == '+':
            return s.wrap(st, z3.simplify(x + y), n)
        if o == '-':
            return s.wrap(st, z3.simplify(x - y), n)
        if o == '*':
            return s.wrap(st, z3.simplify(x * y), n)
        if o == '/':
            s.safe(st, 'division by zero in ' + fr.fn['name'], y != 0, ins)
            return s.idiv(st, x, y)
        if o == '%':
            s.safe(st, 'division by zero in ' + fr.fn['name'], y != 0, ins)
            return s.irem(st, x, y)
        if o == '&':
            return s.band(st, x, y)
        if o == '<<':
            if isnum(y) and num(y) < 64:
                return s.wrap(st, z3.simplify(x * (2 ** num(y))), n, exact=True)
            s.safe(st, 'negative shift in ' + fr.fn['name'], y >= 0, ins)
            p2 = z3.Function('pow2', IntS, IntS)(y)
            st.assume(p2 >= 1)
            st.assume(Implies(y <= 40, p2 <= 2 ** 40))
            if isnum(x) and num(x) == 1:
                r = z3.Function('shl1', IntS, IntS)(y)
                st.assume(Implies(And(y >= 0, y <= 40), And(r >= 1, r <= 2 ** 40)))
                st.assume(Implies(And(y >= 0, y <= 40), z3.Function('ispow2', IntS, BoolS)(r)))
                return r
            r = z3.Function('shl_' + n, IntS, IntS, IntS)(x, y)
            st.assume(And(r >= INT_RANGES[n][0], r <= INT_RANGES[n][1]))
            return r
        if o == '>>':
            if isnum(y):
                return x / (2 ** num(y)) if not isnum(x) else I(num(x) >> num(y))
            r = z3.Function('shr', IntS, IntS, IntS)(x, y)
            st.assume(Implies(x >= 0, And(r >= 0, r <= x)))
            return r
        if o in ('|', '^', '&^'):
            r = z3.Function('bit_%s_%s' % ({'|': 'or', '^': 'xor', '&^': 'andnot'}[o], n), IntS, IntS, IntS)(x, y)
            rng = INT_RANGES[n]
            st.assume(And(r >= rng[0], r <= rng[1]))
            return r
        raise Unsupported('binop ' + o)

    def idiv(s, st, x, y):
        if isnum(y):
            c = num(y)
            if isnum(x):
                q = abs(num(x)) // abs(c)
                return I(q if (num(x) >= 0) == (c >= 0) else -q)
            if s.proves(st, x >= 0, timeout=500):
                q = x / abs(c)
            else:
                q = If(x >= 0, x / abs(c), -((-x) / abs(c)))
            return q if c > 0 else -q
        r = z3.Function('quo', IntS, IntS, IntS)(x, y)
        st.assume(Implies(And(x >= 0, y > 0), And(r >= 0, r <= x, r * y <= x, x < (r + 1) * y)))
        return r

    def irem(s, st, x, y):
        if isnum(y):
            c = abs(num(y))
            if isnum(x):
                r = abs(num(x)) % c
                return I(r if num(x) >= 0 else -r)
            if s.proves(st, x >= 0, timeout=500):
                return x % c
            return If(x >= 0, x % c, -((-x) % c))
        r = z3.Function('rem', IntS, IntS, IntS)(x, y)
        st.assume(Implies(And(x >= 0, y > 0), And(r >= 0, r < y, r <= x)))
        st.assume(Implies(And(x >= 0, y > 0, x < y), r == x))
        st.assume(Implies(And(x >= 0, y > 0, x == y), r == 0))
        st.assume(Implies(And(x >= y, x < 2 * y, y > 0), r == x - y))
        st.assume(Implies(And(x < 0, y > 0), And(r <= 0, r > -y)))
        st.assume(Implies(And(x < 0, y > 0, -x < y), r == x))
        return r

    def band(s, st, x, y):
        if isnum(x):
            x, y = y, x
        if isnum(y):
            n = num(y)
            if isnum(x):
                return I(num(x) & n)
            if n >= 0 and (n & (n + 1)) == 0:
                return x % (n + 1)
        r = z3.Function('band', IntS, IntS, IntS)(x, y)
        st.assume(Implies(y >= 0, And(r >= 0, r <= y)))
        st.assume(Implies(x >= 0, And(r >= 0, r <= x)))
        return r

    def equal(s, x, y, tid):
        t = s.p.ut(tid)
        k = t['k']
        if k == 'basic':
            if isinstance(x, F):
                return And(Not(x.nan), Not(y.nan), eqt(x.v, y.v))
            if z3.is_bool(x):
                return x == y
            return eqt(x, y)
        if k == 'ptr':
            if x.path != y.path:
                if x.path == () or y.path == ():
                    # nil against an interior pointer
                    return And(x.obj == y.obj, x.obj == 0)
                return FALSE
            return And(eqt(x.obj, y.obj), Or(eqt(x.obj, I(0)), eqt(x.idx, y.idx)))
        if k == 'slice':
            return eqt(x.obj, I(0)) if isnum(y.obj) and num(y.obj) == 0 else eqt(y.obj, I(0))
        if k == 'iface':
            if isnum(y.tag) and num(y.tag) == 0:
                return eqt(x.tag, I(0))
            if isnum(x.tag) and num(x.tag) == 0:
                return eqt(y.tag, I(0))
            return And(x.tag == y.tag, x.obj == y.obj, x.idx == y.idx)
        if k == 'func':
            nilx = x.id is not None and isnum(x.id) and num(x.id) == 0
            nily = y.id is not None and isnum(y.id) and num(y.id) == 0
            if nily:
                return FALSE if x.name or x.handler else eqt(x.id, I(0))
            if nilx:
                return FALSE if y.name or y.handler else eqt(y.id, I(0))
            raise Unsupported('func compare')
        if k == 'struct':
            return And(*[s.equal(a, b, f['t']) for a, b, f in zip(x.vals, y.vals, t['f'])])
        if k == 'array':
            return And(*[s.equal(a, b, t['e']) for a, b in zip(x.vals, y.vals)])
        if k in ('map', 'chan'):
            return eqt(x, y)
        raise Unsupported('equality on ' + t['s'])

    # ------------------------------------------------------------ floats
    def isinf(s, x):
        if x.fin():
            return FALSE
        return Or(eqt(x.v, INF), eqt(x.v, -INF))

    def fbin(s, o, x, y, st, tn):
        nn = And(Not(x.nan), Not(y.nan))
        if o == '==':
            return And(nn, eqt(x.v, y.v))
        if o == '!=':
            return Not(And(nn, eqt(x.v, y.v)))
        if o in ('<', '>', '<=', '>='):
            for a, b in ((x, y), (y, x)):       # a bound that is known, against a number that may be anything
                if a.fin() and a.mag <= 2 ** 52 and not isnum(a.v) and (not b.fin() or b.mag > 2 ** 53):
                    st.assume(And(a.v <= rv(a.mag), a.v >= -rv(a.mag)))
            if o in ('>', '>='):
                x, y = y, x
            if isnum(x.v) and isnum(y.v):
                c = z3.BoolVal(num(x.v) < num(y.v) if o in '<>' else num(x.v) <= num(y.v))
            else:
                c = x.v < y.v if o in '<>' else x.v <= y.v
            return And(nn, c)
        f32 = tn == 'float32'
        if s.prove_fin:
            x, y = s.finite(st, x), s.finite(st, y)
        if o == '+':
            return s.fadd(st, x, y, f32)
        if o == '-':
            return s.fadd(st, x, F(-y.v if not isnum(y.v) else z3.RealVal(str(-Fraction(num(y.v)))), y.nan, y.mag, y.isint, -y.i if y.i is not None else None), f32)
        if o == '*':
            return s.fmul(st, x, y, f32)
        if o == '/':
            return s.fdiv(st, x, y, f32)
        raise Unsupported('float op ' + o)

    def finite(s, st, x):
        """x, with its infinities dropped when the path condition bounds it"""
        if x.fin() and is_false(x.nan) or isnum(x.v):
            return x
        k = (x.v.get_id(), x.nan.get_id())
        for m in (2 ** 20, 2 ** 50, 2 ** 60):
            if s.proves(st, And(Not(x.nan), x.v <= m, x.v >= -m), timeout=300):
                return F(x.v, FALSE, m, x.isint, x.i)
        return x

    def magmax(s, f32):
        return 2 ** 120 if f32 else 2 ** 1000

    def uf(s, name, f32, st, a, b=None):
        n = name + ('32' if f32 else '')
        f = z3.Function(n, RealS, RealS, RealS)
        return f(a, b)

    def inf_ite(s, c, a, b):
        return If(c, a, b)

    def memo_float(s, f, op, st, x, y, f32):
        if s.__dict__.get('round_hook'):
            return f(st, x, y, f32)
        key = (op, f32) + tuple(z.get_id() if z is not None else None for a in (x, y) for z in (a.v, a.nan, a.i)) + (x.mag, x.isint, y.mag, y.isint)
        m = s.fmemo.get(key)
        if m is None:
            c = Collect()
            r = f(c, x, y, f32)
            m = s.fmemo[key] = (r, [c for fact in c.facts for c in (fact.children() if z3.is_and(fact) else (fact,))], x.v, x.nan, x.i, y.v, y.nan, y.i)
        for fact in m[1]:
            st.assume(fact)
        return m[0]

    def fadd(s, st, x, y, f32):
        return s.memo_float(s.fadd_, 'add', st, x, y, f32)

    def fmul(s, st, x, y, f32):
        return s.memo_float(s.fmul_, 'mul', st, x, y, f32)

    def fadd_(s, st, x, y, f32):
        if s.exact:
            return F(z3.simplify(x.v + y.v), Or(x.nan, y.nan), x.mag + y.mag if x.fin() and y.fin() else None)
        if isnum(x.v) and num(x.v) == 0 and is_false(x.nan):
            return y
        if isnum(y.v) and num(y.v) == 0 and is_false(y.nan):
            return x
        nan = Or(x.nan, y.nan)
        both = x.fin() and y.fin()
        if both and x.isint and y.isint and x.mag + y.mag <= (2 ** 24 if f32 else 2 ** 53):
            return F(z3.simplify(x.v + y.v), nan, x.mag + y.mag, True, z3.simplify(x.i + y.i) if x.i is not None and y.i is not None else None)
        a, b = x.v, y.v
        r = s.uf('fadd', f32, st, a, b)
        if not s.lean:
            st.assume(r == s.uf('fadd', f32, st, b, a))
        # rounding of the exact sum is monotone, so it is on the same side of either operand and of 0
        fin = And(Not(s.isinf(x)), Not(s.isinf(y)))
        facts = [Implies(b >= 0, r >= a), Implies(b <= 0, r <= a), Implies(a >= 0, r >= b), Implies(a <= 0, r <= b),
                 Implies(a + b == 0, r == 0), Implies(b == 0, r == a), Implies(a == 0, r == b),
                 Implies(And(a < 0, b > 0, -a < b), r > 0) if False else TRUE]
        for f in facts if not s.lean else []:
            st.assume(Implies(fin, f) if not is_true(fin) else f)
        s.rounding(st, 'fadd', f32, r, a + b, (a, b), fin)
        if both and x.mag + y.mag <= s.magmax(f32):
            return F(r, nan, (x.mag + y.mag) * Fraction(1000001, 1000000))
        st.assume(And(r <= INF, r >= -INF))
        xi, yi = s.isinf(x), s.isinf(y)
        nan = Or(nan, And(xi, yi, x.v != y.v))
        return F(If(xi, x.v, If(yi, y.v, r)), nan)

    def rounding(s, st, op, f32, r, exact, args, fin):
        """optional stronger facts (monotonicity between the applications on this path)"""
        h = s.__dict__.get('round_hook')
        if h:
            h(s, st, op, f32, r, exact, args, fin)

    def fmul_(s, st, x, y, f32):
        nan = Or(x.nan, y.nan)
        if s.exact:
            return F(z3.simplify(x.v * y.v), nan, x.mag * y.mag if x.fin() and y.fin() else None)
        both = x.fin() and y.fin()
        for p, q in ((x, y), (y, x)):
            if isnum(p.v) and is_false(p.nan):
                if num(p.v) == 1:
                    return q
                if num(p.v) == 0 and q.fin():
                    return F(z3.RealVal(0), q.nan, 0, True, I(0))
                if q.isint and q.fin() and num(p.v) > 0 and pow2(1 / Fraction(num(p.v))):
                    return F(z3.simplify(p.v * q.v), q.nan, q.mag * Fraction(num(p.v)))
                if both and p.isint and q.isint and p.mag * q.mag <= (2 ** 24 if f32 else 2 ** 53):
                    return F(z3.simplify(p.v * q.v), nan, p.mag * q.mag, True, z3.simplify(p.i * q.i) if p.i is not None and q.i is not None else None)
        a, b = x.v, y.v
        r = s.uf('fmul', f32, st, a, b)
        if not s.lean:
            st.assume(r == s.uf('fmul', f32, st, b, a))
        fin = And(Not(s.isinf(x)), Not(s.isinf(y)))
        facts = [Implies(Or(a == 0, b == 0), r == 0),
                 Implies(And(a >= 0, b >= 0), r >= 0), Implies(And(a <= 0, b <= 0), r >= 0),
                 Implies(And(a >= 0, b <= 0), r <= 0), Implies(And(a <= 0, b >= 0), r <= 0),
                 Implies(And(a <= 1, a >= 0, b >= 0), r <= b), Implies(And(b <= 1, b >= 0, a >= 0), r <= a),
                 Implies(a == 1, r == b), Implies(b == 1, r == a)]
        for f in facts if not s.lean else facts[:1]:
            st.assume(Implies(fin, f) if not is_true(fin) else f)
        s.rounding(st, 'fmul', f32, r, None, (a, b), fin)
        isint = x.isint and y.isint
        if both and x.mag * y.mag <= s.magmax(f32):
            return F(r, nan, x.mag * y.mag * Fraction(1000001, 1000000))
        st.assume(And(r <= INF, r >= -INF))
        xi, yi = s.isinf(x), s.isinf(y)
        nan = Or(nan, And(xi, y.v == 0), And(yi, x.v == 0))
        pos = (a > 0) == (b > 0)
        return F(If(Or(xi, yi), If(pos, INF, -INF), r), nan)

    def fdiv(s, st, x, y, f32):
        a, b = x.v, y.v
        if s.exact:
            return F(z3.simplify(a / b), Or(x.nan, y.nan, b == 0))
        if isnum(b) and num(b) == 1:
            return x
        if isnum(b) and x.isint and x.fin() and is_false(y.nan) and pow2(num(b)):
            return F(z3.simplify(a / b), x.nan, x.mag / Fraction(num(b)))
        nan = Or(x.nan, y.nan)
        r = s.uf('fdiv', f32, st, a, b)
        fin = And(Not(s.isinf(x)), Not(s.isinf(y)), b != 0 if not (isnum(b) and num(b) != 0) else TRUE)
        facts = [Implies(a == 0, r == 0), Implies(a == b, r == 1), Implies(b == 1, r == a), Implies(b == -1, r == -a),
                 Implies(And(a >= 0, b > 0), r >= 0), Implies(And(a <= 0, b < 0), r >= 0),
                 Implies(And(a >= 0, b < 0), r <= 0), Implies(And(a <= 0, b > 0), r <= 0),
                 Implies(And(a >= 0, b >= 1), r <= a), Implies(And(a <= 0, b >= 1), r >= a),
                 Implies(And(a >= 0, a <= b), r <= 1), Implies(And(a <= 0, -a <= b), r >= -1)]
        for f in facts if not s.lean else []:
            st.assume(Implies(fin, f) if not is_true(fin) else f)
        s.rounding(st, 'fdiv', f32, r, None, (a, b), fin)
        xi, yi = s.isinf(x), s.isinf(y)
        bz = eqt(b, z3.RealVal(0))
        if x.fin() and (y.isint or isnum(b)) and is_false(bz):
            return F(r, nan, x.mag * (1 if y.isint else 1 / abs(Fraction(num(b)))) * Fraction(1000001, 1000000))
        if x.fin() and y.isint and s.proves(st, b != 0, timeout=500):
            return F(r, nan, x.mag * Fraction(1000001, 1000000))
        if s.prove_fin and x.fin() and y.fin() and is_false(y.nan) and s.proves(st, b >= z3.RealVal('1/1024'), timeout=500):
            return F(r, nan, x.mag * 1025)
        st.assume(And(r <= INF, r >= -INF))
        nan = Or(nan, And(bz, eqt(a, z3.RealVal(0))), And(xi, yi))
        if y.isint:
            infz = If(a > 0, INF, -INF)
        else:
            infz = If(z3.Function('negzero', RealS, BoolS)(b), If(a > 0, -INF, INF), If(a > 0, INF, -INF))
        v = If(bz, infz, If(xi, If((a > 0) == (b > 0), INF, -INF), If(yi, z3.RealVal(0), r)))
        return F(v, nan)

    def i2f(s, st, n, tname, f32=False):
        lim = 2 ** 24 if f32 else 2 ** 53
        if isnum(n):
            k = num(n)
            if abs(k) <= lim:
                return F(z3.RealVal(k), FALSE, abs(k), True, n)
        lo, hi = INT_RANGES[tname]
        mag = max(-lo, hi)
        if s.exact:
            return F(z3.ToReal(n), FALSE, mag, True, n)
        if mag > lim:
            key = (n.get_id(), 'mag', f32)
            for m in (2 ** 15, 2 ** 31, lim):
                if m <= lim and s.proves(st, And(n <= m, n >= -m), timeout=700):
                    mag = m
                    break
        if mag <= lim:
            return F(z3.ToReal(n), FALSE, mag, True, n)
        r = z3.Function('i2f32' if f32 else 'i2f', IntS, RealS)(n)
        st.assume(Implies(And(n <= lim, n >= -lim), r == z3.ToReal(n)))
        st.assume(Implies(n >= 0, r >= 0))
        st.assume(Implies(n <= 0, r <= 0))
        st.assume(And(Implies(n > lim, r >= lim), Implies(n < -lim, r <= -lim)))
        for k in (32, 53, 63, 64):
            st.assume(Implies(n <= 2 ** k, r <= 2 ** k))
        return F(r, FALSE, 2 ** 65, True)

    def trunc(s, v):
        return If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))

    def f2i(s, st, x, tname):
        if x.i is not None and tname in ('int', 'int64'):
            return x.i
        if isnum(x.v):
            f = Fraction(num(x.v))
            n = int(f)
            return s.wrap(st, I(n), tname)
        lo, hi = INT_RANGES[tname]
        ok = And(Not(x.nan), x.v < z3.RealVal(hi + 1), x.v > z3.RealVal(lo - 1))
        if x.mag is not None and x.mag < min(-lo + 1, hi + 1) and is_false(x.nan):
            ok = TRUE
        nn = s.proves(st, x.v >= 0, timeout=500)
        if nn and x.mag is not None and x.mag < hi + 1 and is_false(x.nan):
            ok = TRUE
        t = z3.ToInt(x.v) if nn else s.trunc(x.v)
        r = If(ok, t, z3.Function('f2i_overflow_' + tname, RealS, BoolS, IntS)(x.v, x.nan))
        if not is_true(ok):
            st.assume(And(r >= lo, r <= hi))
        elif x.mag is not None:
            st.assume(And(r <= int(x.mag), r >= (0 if nn else -int(x.mag))))
        return r

    # ------------------------------------------------------------ conversions, addressing
    def op_convert(s, fr, ins, st):
        x = s.val(fr, ins['x'], st)
        a, b = s.p.ut(ins['xt']), s.p.ut(ins['t'])
        if a['k'] == 'basic' and b['k'] == 'basic':
            an, bn = a['name'], b['name']
            if isinstance(x, F):
                if bn in ('float64', 'untyped float'):
                    return x
                if bn == 'float32':
                    if an == 'float32':
                        return x
                    return s.tof32(st, x)
                return s.f2i(st, x, bn)
            if bn in ('float64', 'float32'):
                return s.i2f(st, x, an, bn == 'float32')
            if an in INT_RANGES and bn in INT_RANGES:
                return s.wrap(st, x, bn)
        if a['k'] == b['k']:
            return x
        raise Unsupported('convert %s -> %s' % (a['s'], b['s']))

    def tof32(s, st, x):
        if x.isint and x.fin() and x.mag <= 2 ** 24:
            return x
        r = z3.Function('r32', RealS, RealS)(x.v)
        st.assume(Implies(x.v >= 0, r >= 0))
        st.assume(Implies(x.v <= 0, r <= 0))
        st.assume(And(r <= INF, r >= -INF))
        st.assume(Implies(And(x.v >= 0, x.v <= 1), r <= 1))
        st.assume(Implies(x.v >= 1, r >= 1))
        if x.fin() and x.mag <= 2 ** 120:
            return F(r, x.nan, x.mag * Fraction(1000001, 1000000))
        return F(r, x.nan)

    def op_changetype(s, fr, ins, st):
        x = s.val(fr, ins['x'], st)
        if isinstance(x, ST):
            return ST(x.vals, ins['t'])
        return x

    def op_changeiface(s, fr, ins, st):
        return s.val(fr, ins['x'], st)

    def op_makeiface(s, fr, ins, st):
        x = s.val(fr, ins['x'], st)
        xt = ins['xt']
        tag = I(xt + 1)
        k = s.p.kind(xt)
        if k == 'ptr':
            if x.path != ():
                raise Unsupported('interior pointer in interface')
            return IF(tag, x.obj, x.idx)
        if k == 'func':
            raise Unsupported('func in interface')
        p = s.new(st, xt, x) if s.p.kind(xt) != 'array' else None
        if p is None:
            raise Unsupported('array in interface')
        st.cells.pop()
        return IF(tag, p.obj, p.idx)

    def iface_val(s, st, x, tid):
        """the dynamic value of interface x, known to have type tid"""
        t = s.p.ut(tid)
        if t['k'] == 'ptr':
            e = t['e']
            et = s.p.ut(e)
            return P(x.obj, x.idx, s.p.ts(e))
        return s.load(st, P(x.obj, x.idx, s.p.ts(tid)), tid)

    def op_typeassert(s, fr, ins, st):
        x = s.val(fr, ins['x'], st)
        at = ins['at']
        if s.p.kind(at) == 'iface':
            s.safe(st, 'type assertion in ' + fr.fn['name'], x.tag != 0, ins)
            return x
        c = eqt(x.tag, I(at + 1))
        if ins.get('commaok'):
            raise Unsupported('comma-ok type assertion')
        s.safe(st, 'type assertion in ' + fr.fn['name'], c, ins)
        return s.iface_val(st, x, at)

    def op_closure(s, fr, ins, st):
        return Fn(ins['fn'], [s.val(fr, b, st) for b in ins['b']])

    def op_extract(s, fr, ins, st):
        return s.val(fr, ins['x'], st).vals[ins['i']]

    def op_field(s, fr, ins, st):
        return s.val(fr, ins['x'], st).vals[ins['f']]

    def op_fieldaddr(s, fr, ins, st):
        p = s.val(fr, ins['x'], st)
        s.nonnil(fr, p, st, ins)
        et = s.p.ut(ins['xt'])['e']
        ft = s.p.ut(et)['f'][ins['f']]['t']
        return P(p.obj, p.idx, p.root, p.path + (ins['f'],), None, True)

    def op_indexaddr(s, fr, ins, st):
        x = s.val(fr, ins['x'], st)
        i = s.val(fr, ins['i'], st)
        if isinstance(x, S):
            s.safe(st, 'index in range in ' + fr.fn['name'], And(s.le(I(0), i), s.lt(i, x.len)), ins)
            return P(x.obj, z3.simplify(x.off + i), x.root, (), None, True)
        # pointer to array
        n = s.p.ut(s.p.ut(ins['xt'])['e'])['n']
        s.nonnil(fr, x, st, ins)
        s.safe(st, 'index in range in ' + fr.fn['name'], And(s.le(I(0), i), s.lt(i, I(n))), ins)
        if x.arr is not None:
            return P(x.obj, z3.simplify(x.idx + i), x.root, x.path, None, True)
        if isnum(i):
            return P(x.obj, x.idx, x.root, x.path + (num(i),), None, True)
        raise Unsupported('dynamic index into an array field')

    def op_index(s, fr, ins, st):
        x = s.val(fr, ins['x'], st)
        i = s.val(fr, ins['i'], st)
        n = len(x.vals)
        s.safe(st, 'index in range in ' + fr.fn['name'], And(s.le(I(0), i), s.lt(i, I(n))), ins)
        if isnum(i):
            return x.vals[num(i)]
        et = s.p.ut(ins['xt'])['e']
        fl = [s.flat(v, et) for v in x.vals]
        r = fl[-1]
        for k in range(n - 2, -1, -1):
            r = [If(i == k, a, b) for a, b in zip(fl[k], r)]
        return s.unflat(r, et)

    def op_makeslice(s, fr, ins, st):
        n, c = s.val(fr, ins['len'], st), s.val(fr, ins['cap'], st)
        e = s.p.ut(ins['t'])['e']
        s.safe(st, 'make: 0 <= len <= cap in ' + fr.fn['name'], And(s.le(I(0), n), s.le(n, c)), ins)
        st.assume(s.le(c, I(MAXOBJ_LEN)))
        o = s.alloc_obj(st)
        s.zero_obj(st, o, e)
        return S(o, I(0), n, c, s.p.ts(e))

    def op_slice(s, fr, ins, st):
        x = s.val(fr, ins['x'], st)
        lo = s.val(fr, ins['lo'], st) if ins['lo'] else I(0)
        if isinstance(x, P):   # pointer to array
            n = I(s.p.ut(s.p.ut(ins['xt'])['e'])['n'])
            if x.arr is None:
                raise Unsupported('slicing an array field')
            x = S(x.obj, x.idx, n, n, x.root)
        elif not isinstance(x, S):
            raise Unsupported('slice of ' + s.p.ts(ins['xt']))
        hi = s.val(fr, ins['hi'], st) if ins['hi'] else x.len
        mx = s.val(fr, ins['max'], st) if ins['max'] else x.cap
        s.safe(st, 'slice bounds in ' + fr.fn['name'], And(s.le(I(0), lo), s.le(lo, hi), s.le(hi, mx), s.le(mx, x.cap)), ins)
        return S(x.obj, z3.simplify(x.off + lo), z3.simplify(hi - lo), z3.simplify(mx - lo), x.root)

    def op_rundefers(s, fr, ins, st):
        return None

    def op_makechan(s, fr, ins, st):
        h = s.externs.get('chan.make')
        if h is None:
            raise Unsupported('make(chan)')
        return h(s, fr, st, ins)

    def op_send(s, fr, ins, st):
        h = s.externs.get('chan.send')
        if h is None:
            raise Unsupported('channel send')
        return h(s, fr, st, s.val(fr, ins['ch'], st), s.val(fr, ins['x'], st), ins)

    # ------------------------------------------------------------ calls
    def op_call(s, fr, ins, st):
        c = ins['call']
        args = [s.val(fr, a, st) for a in c['args']]
        if 'invoke' in c:
            recv = s.val(fr, c['recv'], st)
            return s.multi(s.invoke(fr, st, recv, c['it'], c['invoke'], args, ins))
        f = c['fn']
        if f['k'] == 'builtin':
            return s.builtin(fr, st, f['n'], args, c, ins)
        fv = s.val(fr, f, st)
        return s.multi(s.call_value(fr, st, fv, args, ins))

    def multi(s, outs):
        outs = [(a, b) for a, b in outs if not a.dead]
        if not outs:
            return DEAD
        return [('multi', a, b) for a, b in outs]

    def call_value(s, fr, st, fv, args, ins):
        if fv.handler is not None:
            return fv.handler(s, st, args)
        if fv.name is None:
            raise Unsupported('call of an unknown function value at ' + ins.get('p', ''))
        return s.call_named(fr.depth if fr else 0, st, fv.name, args, fv.binds or [], ins)

    def call_named(s, depth, st, name, args, binds, ins):
        if name in s.summaries:
            s.used_contracts.add(name)
            return s.summaries[name](s, st, args)
        if name in s.p.funcs:
            f = s.p.funcs[name]
            if f['synthetic'].startswith('wrapper') or True:
                return s.call_fn(name, args, st, depth + 1, binds)
        h = s.externs.get(name)
        if h is None:
            raise Unsupported('call of external function %s' % name)
        s.assumed.add(name)
        if s.prove_fin:
            args = [s.finite(st, a) if isinstance(a, F) else a for a in args]
        r = h(s, st, args, ins)
        if isinstance(r, list) and r and isinstance(r[0], tuple) and isinstance(r[0][0], State):
            return r
        return [(st, r)]

    def invoke(s, fr, st, recv, it, method, args, ins):
        its = s.p.ts(it)
        h = s.invokes.get((its, method))
        s.safe(st, 'nil interface call in ' + fr.fn['name'], recv.tag != 0, ins)
        tag = recv.tag
        if h is not None:
            return h(s, st, recv, args)
        if not isnum(tag):
            tag = z3.simplify(tag)
        if isnum(tag):
            tid = num(tag) - 1
            fn = s.p.methods.get((tid, method))
            if fn:
                return s.call_named(fr.depth, st, fn, [s.iface_val(st, recv, tid)] + args, [], ins)
        # one of the tags the path condition allows
        for (tid, m), fn in s.p.methods.items():
            if m == method and s.proves(st, recv.tag == tid + 1, timeout=500):
                return s.call_named(fr.depth, st, fn, [s.iface_val(st, recv, tid)] + args, [], ins)
        raise Unsupported('interface call %s.%s' % (its, method))

    def builtin(s, fr, st, n, args, c, ins):
        if n == 'len':
            x = args[0]
            if isinstance(x, S):
                return x.len
            if isinstance(x, ST):
                return I(len(x.vals))
            if isinstance(x, P) and x.arr is not None:
                return I(x.arr)
            raise Unsupported('len')
        if n == 'cap':
            return args[0].cap
        if n == 'append':
            return s.append(st, args[0], args[1], s.p.ut(ins['t'])['e'])
        if n == 'copy':
            d, x = args
            k = z3.simplify(If(d.len <= x.len, d.len, x.len)) if not d.len.eq(x.len) else d.len
            if not isnum(k) and not d.len.eq(x.len):
                if s.proves(st, d.len == x.len, timeout=500):
                    k = x.len
                elif s.proves(st, d.len <= x.len, timeout=500):
                    k = d.len
                elif s.proves(st, x.len <= d.len, timeout=500):
                    k = x.len
            s.copy_elems(st, d.root, d.obj, d.off, x.obj, x.off, k)
            return k
        if n in ('print', 'println'):
            return None
        if n == 'close':
            h = s.externs.get('chan.close')
            if h:
                return h(s, fr, st, args[0], ins)
        if n == 'ssa:wrapnilchk':
            return args[0]
        raise Unsupported('builtin ' + n)

    def copy_elems(s, st, root, do, df, so, sf, n, skip_zero=True):
        if isnum(n) and num(n) <= 0:
            return
        for r, path, f, tag in s.cell_invs:
            if r == root:
                if tag is None or path:
                    raise Unsupported('a copy of cells with an invariant')
                if isnum(n) and num(n) <= 4:
                    for i in range(num(n)):
                        x = s.load(st, P(so, z3.simplify(sf + i), root, (), None, True), s.p.typ(root))
                        s.oblige(st, 'invariant', 'what is copied to a %s keeps its invariant' % root, f(P(do, z3.simplify(df + i), root, (), None, True), x))
                else:
                    s.oblige(st, 'invariant', 'what is copied to a %s keeps its invariant' % root, Implies(And(n > 0, tag(do)), tag(so)))
        for path, comp, b in s.p.leaves(s.p.typ(root)):
            key = (root, path, comp)
            node = s.node(st, key)
            if isnum(n) and num(n) <= 4:
                vals = [s.rd(st, node, so, z3.simplify(sf + i)) for i in range(num(n))]
                for i, v in enumerate(vals):
                    s.wr(st, key, do, z3.simplify(df + i), v)
            else:
                st.mem[key] = Node('copy', node, (do, df, so, sf, n, node), key)
                st.log.append((key, ('obj', do)))

    def append(s, st, x, y, etid):
        root = s.p.ts(etid)
        n = z3.simplify(x.len + y.len)
        res = []
        st.assume(n <= MAXOBJ_LEN)
        fits = s.le(n, x.cap)
        can_fit = s.feasible(st, fits)
        can_grow = s.feasible(st, Not(fits))
        if can_fit:
            a = st.copy() if can_grow else st
            a.assume(fits)
            if not (isnum(y.len) and num(y.len) == 0):
                s.copy_elems(a, root, x.obj, z3.simplify(x.off + x.len), y.obj, y.off, y.len)
            res.append(('multi', a, S(x.obj, x.off, n, x.cap, root)))
        if can_grow:
            st.assume(Not(fits))
            s.growing = True          # for on_alloc
            o = s.alloc_obj(st)
            s.growing = False
            s.zero_obj(st, o, etid)
            s.copy_elems(st, root, o, I(0), x.obj, x.off, x.len)
            s.copy_elems(st, root, o, x.len, y.obj, y.off, y.len)
            c = s.fresh('cap')
            st.assume(c >= n)
            st.assume(c <= 2 * MAXOBJ_LEN)
            res.append(('multi', st, S(o, I(0), n, c, root)))
        if not res:
            st.dead = True
            return DEAD
        return res

    # ------------------------------------------------------------ loops
    def havoc_val(s, st, v, tid, name):
        """a fresh well-typed value of the type, in state st (after nxt was havocked)"""
        if isinstance(v, Fn):
            return v
        r = s.sym(st, tid, name)
        return r

    def handle_loop(s, fr, h, prev, st):
        fn = fr.fn
        b = fr.blocks[h]
        phis = [i for i in b['ins'] if i['op'] == 'phi']
        s.eval_phis(fr, h, prev, st)
        body = fr.loops[h]
        entry_vals = {p['n']: fr.env[p['n']] for p in phis}

        def run_body(st2, vals):
            f2 = fr.copy()
            f2.env.update(vals)
            outs = s.run_blocks(f2, h, None, st2, (h, body))
            backs, exits = [], []
            for o in outs:
                if o[0] == 'back':
                    f3 = o[2]
                    s.eval_phis(f3, h, o[3], o[1])
                    backs.append((o[1], {p['n']: f3.env[p['n']] for p in phis}))
                else:
                    exits.append(o)
            return backs, exits
        live = {}
        for n, v in fr.env.items():
            live[n] = v
        return s.loop(fr, '%s@%d' % (fn['name'], h), st, {p['n']: p['t'] for p in phis}, entry_vals, run_body, live, (fn['name'], frozenset(body)))

    def abstract_loop(s, st, name, body, live=None):
        """zero or more executions of body(E, st) -> [state]; returns the state after (list of one)"""
        def run_body(st2, vals):
            skip = st2.copy()
            backs = [(t, {}) for t in body(s, st2)]
            return backs, [('exit', skip, None, None, None)]
        outs = s.loop(None, name, st, {}, {}, run_body, live or {}, None)
        return [o[1] for o in outs]

    def loop(s, fr, name, st, phi_t, entry_vals, run_body, live, body_id):
        saved_emit, saved_full = s.emit, s.full
        s.loops_seen += 1
        entry_st = st
        run_body0 = run_body

        def run_body(st2, vals):
            s.loop_stack.append((name, vals))
            try:
                return run_body0(st2, vals)
            finally:
                s.loop_stack.pop()
        ckey = (name, entry_st.trail)
        regions = {}      # key -> list of parts
        ghosts_mod = set()
        phi_mod = set(phi_t)
        # ---- discovery of what the body modifies, with an evolving havoc set
        s.emit = s.full = False
        s.disc += 1
        conds = []
        rkey = (ckey, s.disc > 1)
        regions, ghosts_mod = s.regions_again(s.reg_cache.get(rkey), entry_st)
        for rnd in range(12):
            hs, hv, hstage, sib = s.loop_header(entry_st, phi_t, entry_vals, regions, ghosts_mod, name)
            mark = len(hs.log)
            backs, exits = run_body(hs.copy(), dict(hv))
            changed = False
            for bst, bv in backs:
                for key, part in bst.log[mark:]:
                    for np in s.classify(part, hstage, hs, entry_st, key, bst, ckey):
                        if s.add_part(regions.setdefault(key, []), np):
                            changed = True
                            if os.environ.get('GVC_REG'):
                                print('  REG', name[-20:], s.disc, rnd, key, np[0], str(np[1])[:300] if len(np) > 1 else '', file=sys.stderr)
                for g, v in bst.ghost.items():
                    if g not in ghosts_mod and (g not in hs.ghost or not v.eq(hs.ghost[g])):
                        if g in hs.ghost:
                            ghosts_mod.add(g)
                            changed = True
                for it in bst.pcs:
                    if isinstance(it, tuple) and it[0] == 'cond':
                        conds.append(it)
            for e in exits:
                for it in e[1].pcs:
                    if isinstance(it, tuple) and it[0] == 'cond':
                        conds.append(it)
            if not changed:
                break
        else:
            raise Unsupported('loop modification set did not stabilise: ' + name)
        s.disc -= 1
        s.reg_cache[rkey] = ({k: list(v) for k, v in regions.items()}, set(ghosts_mod))
        if not backs and not exits:
            s.emit, s.full = saved_emit, saved_full
            return []
        # ---- candidates
        hs, hv, hstage, sib = s.loop_header(entry_st, phi_t, entry_vals, regions, ghosts_mod, name)
        ctx = LoopCtx(s, name, fr, entry_st, entry_vals, hs, hv, phi_t, regions, ghosts_mod, hstage, live, conds, body_id)
        cands = s.builtin_cands(ctx)
        if s.cand_filter is not None:
            cands = [c for c in cands if s.cand_filter(name, c[0])]
        if s.disc and not s.disc_templates:
            cands = [c for c in cands if c[0].endswith((' same', ' same or fresh', ' fresh'))]
            if not cands:
                s.emit, s.full = saved_emit, saved_full
                return exits
        for t in s.templates if not s.disc or s.disc_templates else ():
            cands += list(t(s, ctx) or [])
        seen = set()
        uniq = []
        for n, f in cands:
            if n not in seen:
                seen.add(n)
                uniq.append((n, f))
        cands = uniq
        ucands, seen = [], set()
        for t in s.univ if not s.disc or s.disc_templates else ():
            for u in t(s, ctx) or []:
                if u[0] not in seen:
                    seen.add(u[0])
                    ucands.append(u)
        skolem = s.fresh('all_i')
        usk = lambda us: [('forall ' + u[0], lambda v, u=u: u[2](v, skolem)) for u in us]
        keep_u = lambda us, cs: [u for u in us if any(c[0] == 'forall ' + u[0] for c in cs)]
        cached = s.loop_cache.get(ckey) if not s.disc else None
        if cached is not None:
            cands = [c for c in cands if c[0] in cached]
            ucands = [u for u in ucands if 'forall ' + u[0] in cached]
        entry_view = View(entry_st, entry_vals)

        def once():
            hs, hv, hstage, sib = s.loop_header(entry_st, phi_t, entry_vals, regions, ghosts_mod, name)
            s.attach(sib, hs, hv, ucands, entry_view)
            hview = View(hs, hv, entry_view)
            for n, f in cands:
                hs.assume(f(hview))
            mark = len(hs.log)
            backs, exits = run_body(hs.copy(), dict(hv))
            once.header = (hs, hstage, mark)
            return backs, exits

        def strays(backs):
            """writes outside the modified regions (which optimistic discovery may have missed)"""
            if not s.opt_used or s.disc and s.hope:     # in discovery only guesses, which the pass that follows checks
                return set()
            hs, hstage, mark = once.header
            bad = set()
            for bst, bv in backs:
                for key, part in bst.log[mark:]:
                    if key in bad:
                        continue
                    for np in s.classify(part, hstage, hs, entry_st, key, bst):
                        if s.add_part(list(regions.get(key, [])), np):
                            bad.add(key)
            return bad
        if cached is not None and not saved_emit and not saved_full:
            # the invariants found before are only assumed here; a later pass checks them again
            backs, exits = once()
            s.emit, s.full = saved_emit, saved_full
            return exits
        # entry
        cands = s.filter_cands(entry_st, cands, entry_view)
        if ucands:
            t = entry_st.copy()
            ucands = keep_u(ucands, s.filter_cands(t, usk(ucands), View(t, entry_vals)))
        # consecution
        for rnd in range(80):
            seen0 = s.loops_seen
            was_full = s.full
            backs, exits = once()
            before = len(cands) + len(ucands)
            for bst, bv in backs:
                cs = s.filter_cands(bst, cands + usk(ucands), View(bst, bv, entry_view))
                ucands = keep_u(ucands, cs)
                cands = [c for c in cs if not c[0].startswith('forall ')]
            if len(cands) + len(ucands) == before:
                bad = strays(backs)
                if bad:
                    s.pess |= {(ckey, k) for k in bad}
                    for c in (s.reg_cache.pop((ckey, x), None) for x in (True, False)):
                        pass
                    s.loop_cache.pop(ckey, None)
                    s.emit, s.full = saved_emit, saved_full
                    return s.loop(fr, name, entry_st, phi_t, entry_vals, run_body0, live, body_id)
                if (saved_emit or saved_full) and not was_full and s.loops_seen > seen0:
                    s.full = True       # once more, checking the invariants of the inner loops
                    continue
                break
            s.full = False
        if s.disc:
            # the enclosing loop is still finding out what it modifies: nothing to remember yet
            backs, exits = once()
            s.emit, s.full = saved_emit, saved_full
            return exits
        s.loop_cache[ckey] = {n for n, f in cands} | {'forall ' + u[0] for u in ucands}
        if s.trace:
            print('  loop', name, 'trail', len(entry_st.trail), 'invariants:', [n for n, f in cands][:int(os.environ.get('GVC_TRACE') or 1)], 'regions', {k: [p[0] for p in v] for k, v in regions.items()}, file=sys.stderr)
        # ---- final run with obligations on
        s.emit, s.full = saved_emit, saved_full
        if s.emit:
            backs, exits = once()
            cands = cands + usk(ucands)
            s.loopinfo = getattr(s, 'loopinfo', {})
            s.loopinfo[name] = [n for n, f in cands]
            for key in sorted(strays(backs), key=str):
                s.oblige(backs[0][0], 'frame', '%s writes only what it was found to write' % name, FALSE, str(key))
            for bst, bv in backs:
                bview = View(bst, bv, entry_view)
                fs = [f(bview) for n, f in cands]
                if fs:
                    s.oblige(bst, 'invariant', 'loop invariants of %s preserved' % name, And(*fs), ' ; '.join(n for n, f in cands))
            ev = [f(entry_view) for n, f in cands]
            if ev:
                t = entry_st.copy()
                s.oblige(t, 'invariant', 'loop invariants of %s hold on entry' % name, And(*ev), '')
        return exits

    def regions_again(s, cached, entry_st):
        """what an earlier run of this loop was found to modify, as a starting point (the discovery
        still checks that nothing is missing)"""
        if cached is None:
            return {}, set()
        res = {}
        for key, parts in cached[0].items():
            ps = []
            for p in parts:
                if p[0] == 'fresh':
                    ps.append(('fresh', entry_st.nxt, entry_st.stage))
                elif p[0] == 'obj':
                    if s.max_stage(p[1]) <= entry_st.stage and not s.stale(p[1], entry_st):
                        ps.append(p)
                else:
                    ps.append(p)
            if ps:
                res[key] = ps
        return res, {g for g in cached[1] if g in entry_st.ghost}

    def stale(s, t, st):
        """whether t speaks of an earlier attempt at an enclosing loop"""
        live, x = set(), st.stage
        while x:
            live.add(x)
            x = s.stage_prev.get(x, 0)
        todo = [t]
        while todo:
            x = todo.pop()
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and s.loop_stage.get(s.sym_stage.get(x.decl().name(), 0), False) and s.sym_stage[x.decl().name()] not in live:
                return True
            todo += x.children()
        return False

    def add_part(s, parts, np):
        for p in parts:
            if p[0] == 'all':
                return False
            if p[0] == np[0]:
                if p[0] == 'obj' and p[1].eq(np[1]):
                    return False
                if p[0] == 'fresh':
                    return False
                if p[0] == 'pred' and p[1] == np[1]:
                    return False
        if np[0] == 'all':
            parts[:] = [np]
        else:
            parts.append(np)
        return True

    def classify(s, part, hstage, hs, entry_st, key, bst, opt=None):
        if part[0] == 'obj':
            o = part[1]
            b = s.birth.get(o.get_id())
            if b and b[0] > entry_st.stage:
                return [('fresh', entry_st.nxt, entry_st.stage)]
            if s.max_stage(o) < hstage and not b:
                return [part]
            if b and s.max_stage(o) < hstage:
                return [part]
            if z3.is_app_of(o, z3.Z3_OP_ITE):
                return s.classify(('obj', o.arg(1)), hstage, hs, entry_st, key, bst, opt) + s.classify(('obj', o.arg(2)), hstage, hs, entry_st, key, bst, opt)
            # provably one of the entry objects?
            if s.proves(bst, o >= entry_st.nxt, timeout=500):
                return [('fresh', entry_st.nxt, entry_st.stage)]
            for kp, n, f in s.region_preds:
                if kp(key):
                    g = f(o)
                    if s.proves(bst, g, timeout=1000):
                        return [('pred', n, f)]
                    if s.proves(bst, Or(g, o >= entry_st.nxt), timeout=1000):
                        return [('pred', n, f), ('fresh', entry_st.nxt, entry_st.stage)]
            # hoped to be an object made by the loop: checked later, with the invariants
            if s.optimistic and opt is not None and (opt, key) not in s.pess:
                s.opt_used = True
                hoped = [('pred', n, f) for kp, n, f in s.region_preds if kp(key)] if s.optimistic == 'preds' else []
                return hoped + [('fresh', entry_st.nxt, entry_st.stage)]
            return [('all',)]
        if part[0] == 'fresh':
            if part[2] >= hstage:
                return [('fresh', entry_st.nxt, entry_st.stage)]
            return [part]
        if part[0] == 'pred':
            return [part]
        return [('all',)]

    def loop_header(s, entry_st, phi_t, entry_vals, regions, ghosts_mod, name):
        hs = entry_st.copy()
        s.loop_stage[s.new_stage(hs)] = True
        hstage = hs.stage
        nn = s.fresh('nxt')
        hs.assume(nn >= entry_st.nxt)
        hs.nxt = nn
        sib = {}
        for key, parts in regions.items():
            prevn = s.node(hs, key)
            fnn = s.hnode(key, nn, hstage, sib)
            hs.mem[key] = Node('havoc', prevn, (list(parts), fnn), key)
            for p in parts:
                hs.log.append((key, p))
        for g in ghosts_mod:
            hs.ghost[g] = s.fresh('g_' + g, entry_st.ghost[g].sort())
        hv = {}
        for n, tid in phi_t.items():
            v = entry_vals[n]
            hv[n] = s.havoc_like(hs, v, tid, name.split('.')[-1] + ':' + n)
        hs.trail = entry_st.trail + (('loop', name),)
        return hs, hv, hstage, sib

    def attach(s, sib, hs, hv, ucands, entry_view):
        """instantiate the universal invariants of a loop header whenever its memory is read"""
        if not ucands:
            return
        s.keep = getattr(s, 'keep', [])
        s.keep.append(sib)
        busy = set()

        def hook(st, node, obj, idx):
            for u in ucands:
                if not u[1](node.key):
                    continue
                k = (id(st.pcs), u[0], obj.get_id(), idx.get_id())
                if k in busy:
                    continue
                busy.add(k)
                try:
                    v = View(hs.shadow(st), hv, entry_view)
                    st.assume(u[2](v, z3.simplify(u[3](v, obj, idx))))
                finally:
                    busy.discard(k)
        s.sib_hooks[id(sib)] = [hook]

    def hnode(s, key, nn, stage, sib):
        if key in sib:
            return sib[key]
        root, path, comp = key
        f = s.freshfn('m:%s%s.%s' % (root, ''.join('.%s' % x for x in path), comp), IntS, IntS, comp_sort(comp))
        n = Node('fn', None, (f, sib), key, nxt=nn, stage=stage)
        sib[key] = n
        return n

    def havoc_like(s, st, v, tid, name):
        if isinstance(v, Fn):
            raise Unsupported('function value modified in a loop')
        if isinstance(v, P) and v.path != ():
            raise Unsupported('interior pointer modified in a loop')
        r = s.sym(st, tid, name)
        return r

    def filter_cands(s, st, cands, view):
        """the candidates that hold in st"""
        t00 = time.time()
        n00 = s.n_queries
        nc = len(cands)
        try:
            return s.filter_cands_(st, cands, view)
        finally:
            if s.trace and time.time() - t00 > 1:
                print('  FILTER %d cands %d queries %.1fs disc %d' % (nc, s.n_queries - n00, time.time() - t00, s.disc), [x[0].split('.')[-1] for x in s.loop_stack], st.trail[-2:], file=sys.stderr)

    def filter_cands_(s, st, cands, view):
        fs = []
        for n, f in cands:
            try:
                fs.append((n, f, f(view)))
            except (KeyError, AttributeError) as e:
                continue
        live = [(n, f, g) for n, f, g in fs if not is_false(g)]
        for rnd in range(200):
            goal = And(*[g for n, f, g in live])
            if is_true(goal):
                break
            pc = s.axioms + st.pc
            s._sync(pc)
            t0 = time.time()
            s.n_queries += 1
            s.solver.push()
            s.solver.add(Not(goal))
            limits(s.solver, 3000)
            r = s.solver.check()
            limits(s.solver, 4000)
            dropped = False
            if r == z3.sat:
                m = s.solver.model()
                keep = []
                for n, f, g in live:
                    if is_false(m.eval(g, model_completion=True)):
                        dropped = True
                        w = os.environ.get('GVC_WATCH')
                        if w and w in n:
                            if os.environ.get('GVC_EVAL'):
                                seen, todo = set(), [g] + list(st.pc)
                                while todo:
                                    x = todo.pop()
                                    if x.get_id() in seen:
                                        continue
                                    seen.add(x.get_id())
                                    todo += x.children()
                                    if z3.is_app(x) and (x.decl().name() in ('fadd', 'fmul', 'fdiv') or x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                                        print('   EVAL', m.eval(x), '=', re.sub(r'\s+', ' ', x.sexpr())[:300], file=sys.stderr)
                            print('  WATCH drop', n, st.trail[-4:], z3.simplify(g).sexpr()[:1500], '\n   ', ', '.join('%s=%s' % (d.name(), m[d]) for d in m.decls() if d.arity() == 0)[:1500], file=sys.stderr)
                    else:
                        keep.append((n, f, g))
            s.solver.pop()
            s.t_solver += time.time() - t0
            if time.time() > s.deadline:
                raise Budget('time budget of the verification run exceeded')
            if r == z3.unsat:
                break
            if r == z3.sat and dropped:
                live = keep
                continue
            # undecided: one by one
            keep = []
            for n, f, g in live:
                if s.proves(st, g, timeout=1500):
                    keep.append((n, f, g))
                elif os.environ.get('GVC_WATCH') and os.environ['GVC_WATCH'] in n:
                    print('  WATCH drop undecided', n, st.trail[-4:], file=sys.stderr)
            live = keep
            break
        return [(n, f) for n, f, g in live]

    def builtin_cands(s, ctx):
        out = []
        ints = ctx.ints()
        hv, ev = ctx.hv, ctx.entry_vals
        bnamed = [(re.sub(r'![0-9]+', '', t.sexpr()), t) for t in ctx.bounds()]
        for n in ints:
            e = ev[n]
            out.append(('%s>=entry' % n, lambda v, n=n: v.vals[n] >= v.entry.vals[n]))
            out.append(('%s<=entry' % n, lambda v, n=n: v.vals[n] <= v.entry.vals[n]))
            out.append(('%s>=0' % n, lambda v, n=n: v.vals[n] >= 0))
            for k, t in bnamed:
                out.append(('%s<=%s' % (n, k), lambda v, n=n, t=t: Or(v.vals[n] <= t, v.vals[n] == v.entry.vals[n])))
                out.append(('%s<%s' % (n, k), lambda v, n=n, t=t: Or(v.vals[n] < t, v.vals[n] == v.entry.vals[n])))
                out.append(('%s>=%s' % (n, k), lambda v, n=n, t=t: v.vals[n] >= t))
        for a, b in itertools.combinations(ints, 2):
            out.append(('%s-%s' % (a, b), lambda v, a=a, b=b: v.vals[a] - v.vals[b] == v.entry.vals[a] - v.entry.vals[b]))
            out.append(('%s+%s' % (a, b), lambda v, a=a, b=b: v.vals[a] + v.vals[b] == v.entry.vals[a] + v.entry.vals[b]))
            out.append(('%s<=%s' % (a, b), lambda v, a=a, b=b: v.vals[a] <= v.vals[b]))
            out.append(('%s<=%s' % (b, a), lambda v, a=a, b=b: v.vals[b] <= v.vals[a]))
        for n, tid in ctx.phi_t.items():
            e = ev[n]
            if isinstance(e, S):
                out.append(('%s.obj same or fresh' % n, lambda v, n=n: Or(v.vals[n].obj == v.entry.vals[n].obj, v.vals[n].obj >= v.entry.st.nxt)))
                out.append(('%s.obj same' % n, lambda v, n=n: v.vals[n].obj == v.entry.vals[n].obj))
                out.append(('%s.obj fresh' % n, lambda v, n=n: v.vals[n].obj >= v.entry.st.nxt))
                out.append(('%s.off same' % n, lambda v, n=n: v.vals[n].off == v.entry.vals[n].off))
                out.append(('%s.off zero' % n, lambda v, n=n: v.vals[n].off == 0))
                out.append(('%s.len same' % n, lambda v, n=n: v.vals[n].len == v.entry.vals[n].len))
                out.append(('%s.cap same' % n, lambda v, n=n: v.vals[n].cap == v.entry.vals[n].cap))
                for i in ints:
                    out.append(('%s.len-%s' % (n, i), lambda v, n=n, i=i: v.vals[n].len - v.vals[i] == v.entry.vals[n].len - v.entry.vals[i]))
                    out.append(('%s.len+%s' % (n, i), lambda v, n=n, i=i: v.vals[n].len + v.vals[i] == v.entry.vals[n].len + v.entry.vals[i]))
            elif isinstance(e, F):
                out.append(('%s not nan' % n, lambda v, n=n: Not(v.vals[n].nan)))
                out.append(('%s finite' % n, lambda v, n=n: And(v.vals[n].v < INF, v.vals[n].v > -INF)))
                out.append(('%s>=0' % n, lambda v, n=n: v.vals[n].v >= 0))
                out.append(('%s<=1' % n, lambda v, n=n: v.vals[n].v <= 1))
            elif isinstance(e, P):
                out.append(('%s same' % n, lambda v, n=n: And(v.vals[n].obj == v.entry.vals[n].obj, v.vals[n].idx == v.entry.vals[n].idx)))
            elif z3.is_expr(e) and z3.is_bool(e):
                out.append(('%s false' % n, lambda v, n=n: Not(v.vals[n])))
                out.append(('%s true' % n, lambda v, n=n: v.vals[n]))
        # captured / address-taken scalar variables
        for ci, (p, tid) in enumerate(ctx.entry_st.cells):
            root = p.root
            if not any(k[0] == root and any(q[0] == 'all' or q[0] == 'pred' or (q[0] == 'obj' and s.same_obj(q[1], p.obj) is not False) for q in parts) for k, parts in ctx.regions.items()):
                continue
            for path, c, b in s.p.leaves(tid):
                key = (root, p.path + path, c)
                if key not in ctx.regions:
                    continue
                rd = lambda v, key=key, p=p: s.rd(v.st, s.node(v.st, key), p.obj, p.idx)
                out.append(('cell%d%s.%s same' % (ci, path, c), lambda v, rd=rd: rd(v) == rd(v.entry)))
                if c == 'n':
                    out.append(('cell%d%s not nan' % (ci, path), lambda v, rd=rd: Not(rd(v))))
                if c in ('i', 'sl', 'sf', 'sc'):
                    out.append(('cell%d%s.%s>=entry' % (ci, path, c), lambda v, rd=rd: rd(v) >= rd(v.entry)))
                if c == 'so':
                    out.append(('cell%d%s.%s same or fresh' % (ci, path, c), lambda v, rd=rd: Or(rd(v) == rd(v.entry), rd(v) >= v.entry.st.nxt)))
        return out


class LoopCtx:
    def __init__(s, E, name, fr, entry_st, entry_vals, hs, hv, phi_t, regions, ghosts, hstage, live, conds, body_id):
        s.E, s.name, s.fr, s.entry_st, s.entry_vals, s.hs, s.hv, s.phi_t = E, name, fr, entry_st, entry_vals, hs, hv, phi_t
        s.regions, s.ghosts, s.hstage, s.live, s.conds, s.body_id = regions, ghosts, hstage, live, conds, body_id

    def ints(s):
        return [n for n, v in s.entry_vals.items() if z3.is_expr(v) and z3.is_int(v)]

    def slices(s):
        return [n for n, v in s.entry_vals.items() if isinstance(v, S)]

    def floats(s):
        return [n for n, v in s.entry_vals.items() if isinstance(v, F)]

    def bounds(s):
        """loop-invariant int terms that the loop's branch conditions compare with"""
        res = {}

        def walk(t):
            if z3.is_not(t) or z3.is_and(t) or z3.is_or(t):
                for c in t.children():
                    walk(c)
                return
            if t.num_args() == 2 and z3.is_int(t.arg(0)) and (z3.is_le(t) or z3.is_lt(t) or z3.is_ge(t) or z3.is_gt(t) or z3.is_eq(t)):
                for a, b in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                    ph = s.E.max_stage(a) >= s.hstage0(a)
                # split a linear comparison into invariant and variant summands
                d = z3.simplify(t.arg(0) - t.arg(1), som=True)
                inv, var = [], []
                terms = d.children() if z3.is_add(d) else [d]
                for x in terms:
                    (inv if s.E.max_stage(x) <= s.entry_st.stage else var).append(x)
                if var and len(var) <= 2:
                    tot = sum(inv, I(0))
                    neg = False
                    sgn = 1
                    x = var[0]
                    if z3.is_mul(x) and isnum(x.arg(0)) and num(x.arg(0)) < 0:
                        sgn = -1
                    b = z3.simplify(-tot if sgn == 1 else tot)
                    res.setdefault(b.get_id(), b)
        for it in s.conds:
            if s.body_id is not None and it[1] == s.body_id[0] and it[2] in s.body_id[1]:
                walk(it[3])
        for n, v in s.live.items():
            if isinstance(v, S) and n not in s.phi_t:
                res.setdefault(v.len.get_id(), v.len)
        for n, v in s.live.items():
            if n in s.phi_t:
                continue
            if z3.is_expr(v) and z3.is_int(v) and s.fr is not None and any(p['n'] == n for p in s.fr.fn['params']):
                res.setdefault(v.get_id(), v)
        return list(res.values())[:8]

    def hstage0(s, a):
        return s.hstage


DEAD = object()
