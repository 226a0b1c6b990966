"""helpers shared by the contracts"""
import z3
from .core import *

R = z3.RealVal


def progress(ctx, k, todo, tn, done, dn, extra=lambda v: TRUE):
    """candidate invariants 'indices not reached yet satisfy todo, indices passed satisfy done',
    for every integer loop variable, counting up or down"""
    out = []
    for n in ctx.ints():
        for d in (0, 1):
            out.append(('%s: k<%s+%d or %s' % (tn, n, d, tn), lambda v, n=n, d=d: Or(k < v.vals[n] + d, todo(v))))
            out.append(('%s: k>=%s+%d or %s' % (dn, n, d, dn), lambda v, n=n, d=d: Or(k >= v.vals[n] + d, done(v))))
            out.append(('%s: k>%s-%d or %s' % (tn, n, d, tn), lambda v, n=n, d=d: Or(k > v.vals[n] - d, todo(v))))
            out.append(('%s: k<=%s-%d or %s' % (dn, n, d, dn), lambda v, n=n, d=d: Or(k <= v.vals[n] - d, done(v))))
    return out


MOD = 'github.com/RH12503/Triangula/'


def result_tid(E, fname, i=0):
    if fname not in E.p.funcs:
        raise Unsupported('function %s not found' % fname)
    return E.p.t(E.p.funcs[fname]['results'])['e'][i]


def method_fn(E, tid, method):
    """the function that implements a method for a static type (pointer receivers included)"""
    f = E.p.methods.get((tid, method))
    if f is None:
        raise Unsupported('no method %s on %s' % (method, E.p.ts(tid)))
    return f


def call_method(E, st, v, tid, method, args):
    """v.method(args) for a value of static type tid"""
    if isinstance(v, IF):
        tag = z3.simplify(v.tag)
        if not isnum(tag):
            raise Unsupported('dynamic type of the receiver unknown')
        tid = num(tag) - 1
        v = E.iface_val(st, v, tid)
    return E.run(method_fn(E, tid, method), [v] + args, st)


def sub(E, st, v, tid, name):
    """field of a struct value by name"""
    return v.vals[E.p.field(tid, name)]


def struct_slices(E, tid, root, path=()):
    """paths of the slice fields of a struct type whose elements have type root"""
    t = E.p.ut(tid)
    if t['k'] == 'slice':
        return [(path, tid)] if E.p.ts(t['e']) == root else []
    r = []
    if t['k'] == 'struct':
        for i, f in enumerate(t['f']):
            r += struct_slices(E, f['t'], root, path + (i,))
    return r


def sub_path(v, path):
    for i in path:
        v = v.vals[i]
    return v


def slices_of(ctx, root):
    """getters view -> slice value for every slice with the given element type that is live at the
    loop: in a variable, a loop variable, a captured cell, or a struct field of one of these"""
    E, out = ctx.E, []
    seen, keep = set(), []
    hview = View(ctx.hs.shadow(ctx.hs), ctx.hv)

    def add(name, get, key=None):
        # one getter for all that agree in the (havocked) state at the loop header
        x = get(hview)
        key = (x.obj.get_id(), x.off.get_id(), x.len.get_id())
        if key in seen:
            return
        seen.add(key)
        keep.append(x)
        out.append((name, get))

    for n, v in ctx.live.items():
        phi = n in ctx.phi_t
        if isinstance(v, S) and v.root == root:
            add(n, (lambda w, n=n: w.vals[n]) if phi else (lambda w, v=v: v), None if phi else (v.obj.get_id(), v.off.get_id(), v.len.get_id()))
        elif isinstance(v, ST):
            for path, t in struct_slices(E, v.tid, root):
                x = sub_path(v, path)
                add('%s%s' % (n, path), (lambda w, n=n, path=path: sub_path(w.vals[n], path)) if phi else (lambda w, x=x: x),
                    None if phi else (x.obj.get_id(), x.off.get_id(), x.len.get_id()))
        elif isinstance(v, P) and not phi and v.path == () and v.arr is None and not (isnum(v.obj) and num(v.obj) == 0):
            tid = E.p.tid.get(v.root)
            if tid is not None:
                for path, t in struct_slices(E, tid, root):
                    add('*%s%s' % (n, path), lambda w, v=v, path=path, t=t: E.load(w.st, P(v.obj, v.idx, v.root, path, None, True), t), ('p', v.obj.get_id(), v.idx.get_id(), path))
    for ci, (p, tid) in enumerate(ctx.entry_st.cells):
        for path, t in struct_slices(E, tid, root):
            add('cell%d%s' % (ci, path), lambda w, p=p, path=path, t=t: E.load(w.st, P(p.obj, p.idx, p.root, p.path + path, None, True), t), ('p', p.obj.get_id(), p.idx.get_id(), path))
    return out


def live_ints(ctx):
    """getters for the loop-invariant integers and the loop variables"""
    out = []
    seen = set()
    for n, v in ctx.live.items():
        if z3.is_expr(v) and z3.is_int(v):
            if n in ctx.phi_t:
                out.append((n, lambda w, n=n: w.vals[n]))
            elif not isnum(v) and v.get_id() not in seen:
                seen.add(v.get_id())
                out.append((n, lambda w, v=v: v))
    return out


def outer_ints(ctx, plus=False):
    """getters for the integer variables of the enclosing loops"""
    out = []
    for loop, hv in ctx.E.loop_stack:
        for n, x in hv.items():
            if z3.is_expr(x) and z3.is_int(x):
                out.append((n, lambda w, x=x: x))
    if not plus:
        return out
    seen = {z3.simplify(g(None) + 1).get_id() for n, g in out}
    for n, v in ctx.live.items():
        if n not in ctx.phi_t and z3.is_expr(v) and z3.is_int(v) and v.get_id() in seen:
            out.append((n, lambda w, v=v: v))
    return out


def row_invariants(E, elem_root, lens=None, key_bounds=True):
    """universal candidates about tables [][]T: rows i < (progress) were allocated for index i (so they
    are pairwise distinct), start at offset 0 and have one of the given lengths"""
    rowt = '[]' + elem_root

    def univ(E, ctx):
        out = []
        keyp = lambda key: key[0] == rowt
        for sn, g in slices_of(ctx, rowt):
            tid = E.p.typ(rowt)
            row = lambda v, i, g=g: elem(E, v.st, g(v), i, tid)
            idx = lambda v, obj, ix, g=g: ix - g(v).off
            lims = [('len', lambda v, g=g: g(v).len)]
            for n in ctx.ints():
                for d in (0, 1):
                    lims.append(('%s+%d' % (n, d), lambda v, n=n, d=d: v.vals[n] + d))
            for ln, lim in lims:
                guard = lambda v, i, g=g, lim=lim: And(i >= 0, i < g(v).len, i < lim(v))
                ints = [(ctx.name, n) for n in ctx.ints()]
                for loop, hv in E.loop_stack:
                    ints += [(loop, n) for n, x in hv.items() if z3.is_expr(x) and z3.is_int(x)]
                for loop, n in ints:
                    for d in (0, 1):
                        out.append(('%s rows<%s own %s %s+%d' % (sn, ln, loop, n, d), keyp,
                                    lambda v, i, row=row, guard=guard, loop=loop, n=n, d=d: Implies(guard(v, i), E.own(loop, n)(row(v, i).obj) + d == i), idx))
                out.append(('%s rows<%s off 0' % (sn, ln), keyp, lambda v, i, row=row, guard=guard: Implies(guard(v, i), row(v, i).off == 0), idx))
                out.append(('%s rows<%s fresh' % (sn, ln), keyp, lambda v, i, row=row, guard=guard: Implies(guard(v, i), row(v, i).obj >= v.entry.st.nxt), idx))
                for k, (wn, w) in enumerate(live_ints(ctx) + (lens or [])):
                    out.append(('%s rows<%s len %s' % (sn, ln, wn), keyp, lambda v, i, row=row, guard=guard, w=w: Implies(guard(v, i), row(v, i).len == w(v)), idx))
        return out
    return univ


def cell_done(ctx, a, b, done, name, unchanged=None):
    """candidates for the cell with ghost coordinates a, b of a table filled by nested loops in either
    order: passed cells satisfy done"""
    out = []
    out.append((name + ' done stays', lambda v: Implies(done(v.entry), done(v))))
    for n in ctx.ints():
        for d in (0, 1):
            for p, q, pn in ((a, b, 'ab'), (b, a, 'ba')):
                out.append(('%s %s: %s+%d outer' % (name, pn, n, d), lambda v, n=n, d=d, p=p: Implies(p < v.vals[n] + d, done(v))))
                for rn, r in live_ints(ctx):
                    if rn == n:
                        continue
                    out.append(('%s %s: row %s, %s+%d' % (name, pn, rn, n, d),
                                lambda v, n=n, d=d, p=p, q=q, r=r: Implies(Or(done(v.entry), And(p == r(v), q < v.vals[n] + d)), done(v))))
    return out


def elem(E, st, s, i, tid):
    """element i of slice s"""
    return E.load(st, P(s.obj, z3.simplify(s.off + i), s.root, (), None, True), tid)


def unit_point(E, st, s, i, pt):
    v = elem(E, st, s, i, pt)
    return And(*[And(Not(c.nan), c.v >= 0, c.v <= 1) for c in v.vals])
