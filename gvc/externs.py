"""Assumed contracts of functions outside the repository (and of interfaces).  Every one that a
run uses is listed in its evidence as part of the trusted base."""
import z3
from .core import *

R = z3.RealVal


def unit(E, st, lo_open=False):
    r = E.fresh('rand', RealS)
    st.assume(r >= 0)
    st.assume(r < 1)
    return F(r, FALSE, 1)


def rand_float64(E, st, a, ins):
    return unit(E, st)


def intn(E, st, a, ins):
    n = a[0]
    E.safe(st, 'Intn argument positive', n > 0, ins)
    r = E.fresh('randint')
    st.assume(r >= 0)
    st.assume(r < n)
    return r


def m_abs(E, st, a, ins):
    x = a[0]
    return F(If(x.v >= 0, x.v, -x.v), x.nan, x.mag, x.isint)


def m_min(E, st, a, ins):
    x, y = a
    # -Inf beats NaN
    v = If(x.v <= y.v, x.v, y.v)
    nan = Or(x.nan, y.nan)
    if not (x.fin() and y.fin()):
        ninf = Or(And(Not(x.nan), x.v == -INF), And(Not(y.nan), y.v == -INF))
        nan = And(nan, Not(ninf))
        v = If(ninf, -INF, v)
    return F(v, nan, max(x.mag, y.mag) if x.fin() and y.fin() else None, x.isint and y.isint)


def m_max(E, st, a, ins):
    x, y = a
    v = If(x.v >= y.v, x.v, y.v)
    nan = Or(x.nan, y.nan)
    if not (x.fin() and y.fin()):
        pinf = Or(And(Not(x.nan), x.v == INF), And(Not(y.nan), y.v == INF))
        nan = And(nan, Not(pinf))
        v = If(pinf, INF, v)
    return F(v, nan, max(x.mag, y.mag) if x.fin() and y.fin() else None, x.isint and y.isint)


def m_floor(E, st, a, ins):
    x = a[0]
    if x.isint:
        return x
    i = z3.ToInt(x.v)
    if x.fin() and is_false(x.nan):
        return F(z3.ToReal(i), FALSE, x.mag + 1, True, i)
    inf = E.isinf(x)
    return F(If(inf, x.v, z3.ToReal(i)), x.nan)


def m_ceil(E, st, a, ins):
    x = a[0]
    if x.isint:
        return x
    i = -z3.ToInt(-x.v)
    if x.fin() and is_false(x.nan):
        return F(z3.ToReal(i), FALSE, x.mag + 1, True, i)
    inf = E.isinf(x)
    return F(If(inf, x.v, z3.ToReal(i)), x.nan)


def m_round(E, st, a, ins):
    x = a[0]
    if x.isint:
        return x
    h = z3.RealVal('1/2')
    i = If(x.v >= 0, z3.ToInt(x.v + h), -z3.ToInt(-x.v + h))
    if x.fin() and is_false(x.nan):
        return F(z3.ToReal(i), FALSE, x.mag + 1, True, i)
    inf = E.isinf(x)
    return F(If(inf, x.v, z3.ToReal(i)), x.nan)


def m_sqrt(E, st, a, ins):
    x = a[0]
    r = z3.Function('sqrt', RealS, RealS)(x.v)
    st.assume(Implies(x.v >= 0, r >= 0))
    st.assume(Implies(x.v == 0, r == 0))
    st.assume(Implies(x.v > 0, r > 0))
    if x.fin():
        return F(r, Or(x.nan, x.v < 0), x.mag + 1)
    st.assume(And(r <= INF, r >= -INF))
    st.assume(Implies(x.v == INF, r == INF))
    return F(r, Or(x.nan, x.v < 0))


def m_pow(E, st, a, ins):
    """Pow(x, y) for x in (0,1): in [0,1] for y >= 0 (0 at +Inf), never NaN for non-NaN y"""
    x, y = a
    r = z3.Function('pow', RealS, RealS, RealS)(x.v, y.v)
    st.assume(And(r <= INF, r >= -INF))
    n = E.fresh('pownan', BoolS)
    st.assume(Implies(And(x.v >= 0, Not(x.nan), Not(y.nan)), Not(n)))
    st.assume(Implies(And(x.v >= 0), r >= 0))
    st.assume(Implies(And(x.v >= 0, x.v <= 1, y.v >= 0), r <= 1))
    return F(r, n)


def m_log(E, st, a, ins):
    x = a[0]
    r = z3.Function('log', RealS, RealS)(x.v)
    st.assume(And(r <= INF, r >= -INF))
    st.assume(Implies(And(x.v >= 0, x.v <= 1), r <= 0))
    st.assume(Implies(x.v == 0, r == -INF))
    st.assume(Implies(And(x.v > 0, x.v < INF), And(r > -INF, r < INF)))
    return F(r, Or(x.nan, x.v < 0))


def m_exp(E, st, a, ins):
    x = a[0]
    r = z3.Function('exp', RealS, RealS)(x.v)
    st.assume(r >= 0)
    st.assume(r <= INF)
    st.assume(Implies(x.v <= 0, r <= 1))
    return F(r, x.nan)


def opaque_time(E, st, a, ins):
    return E.sym(st, ins['t'], 'time')


EXTERNS = {
    'math/rand.Float64': rand_float64,
    'math/rand.Intn': intn,
    'math.Abs': m_abs, 'math.Min': m_min, 'math.Max': m_max, 'math.Floor': m_floor, 'math.Ceil': m_ceil,
    'math.Round': m_round, 'math.Sqrt': m_sqrt, 'math.Pow': m_pow, 'math.Log': m_log, 'math.Exp': m_exp,
    'time.Now': opaque_time, 'time.Since': opaque_time,
}
