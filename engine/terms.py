"""Symbolic values.

 * exact real values  : Fraction (finite constant), float inf/nan, or RF (rational
   function over atoms, see poly.py)
 * integers           : python int, ZI (integer-valued RF with interval), BI (0/1 of a boolean)
 * booleans           : python int 0/1 or B (interned formula)
"""
from fractions import Fraction
import math
from poly import (RF, rf_add, rf_mul, rf_div, rf_inv, p_var, p_const, p_lead, p_prim, p_mul,
                  p_add, m_key, m_div, FACT, ONE_M, TooBig, p_scale, _cancel, _den_poly)

F0 = Fraction(0)
F1 = Fraction(1)
INF = float('inf')
NINF = float('-inf')
NAN = float('nan')


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('i', 'kind', 'name', 'args', 'is_int', 'lo', 'hi', 'cons')

    def __init__(self, i, kind, name, args=(), is_int=False, lo=None, hi=None):
        self.i = i
        self.kind = kind
        self.name = name
        self.args = args
        self.is_int = is_int
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        return self.name


ATOMS = []
_atab = {}
SQRT_ATOMS = {}   # atom -> (n, r): the n-th power of the atom is r


def mk_atom(kind, name, args=(), is_int=False, lo=None, hi=None, key=None):
    k = key if key is not None else (kind, name)
    a = _atab.get(k)
    if a is not None:
        return a
    a = Atom(len(ATOMS), kind, name, args, is_int, lo, hi)
    ATOMS.append(a)
    _atab[k] = a
    if kind == 'sqrt':
        SQRT_ATOMS[a.i] = (2, args[0])
    return a


def reset():
    ATOMS.clear()
    _atab.clear()
    SQRT_ATOMS.clear()
    _btab.clear()
    _blist.clear()


def atom_rf(a):
    return RF(p_var(a.i))


def real_sym(name):
    return atom_rf(mk_atom('sym', name))


def is_const(rf):
    return not rf.num or (len(rf.num) == 1 and ONE_M in rf.num and not rf.den)


def norm(rf):
    """RF -> Fraction if constant"""
    if not rf.num:
        return F0
    if not rf.den and len(rf.num) == 1 and ONE_M in rf.num:
        return Fraction(rf.num[ONE_M])
    return rf


def to_rf(v):
    if isinstance(v, RF):
        return v
    return RF(p_const(v.numerator if v.denominator == 1 else v))


def _reduce_sqrt(rf):
    if not SQRT_ATOMS:
        return rf
    for _ in range(50):
        hit = None
        for m in rf.num:
            for v, e in m:
                if e >= 2 and v in SQRT_ATOMS and e >= SQRT_ATOMS[v][0]:
                    hit = v
                    break
            if hit is not None:
                break
        if hit is None:
            return rf
        n, arg = SQRT_ATOMS[hit]
        arg = to_rf(arg)
        out = RF({}, ())
        groups = {}
        for m, c in rf.num.items():
            d = dict(m)
            e = d.pop(hit, 0)
            q, r = divmod(e, n)
            if r:
                d[hit] = r
            groups.setdefault(q, {})[tuple(sorted(d.items()))] = c
        for q, p in groups.items():
            t = RF(p, ())
            for _ in range(q):
                t = rf_mul(t, arg)
            out = rf_add(out, t)
        rf = rf_mul(out, RF({ONE_M: 1}, rf.den)) if rf.den else out
    return rf


DEF_LIMIT = 1500


def fin(rf):
    rf = _reduce_sqrt(rf)
    r = norm(rf)
    if isinstance(r, RF) and len(r.num) > DEF_LIMIT:
        return mk_def(r)
    return r


def mk_def(r):
    a = mk_atom('def', 'd%d' % len(ATOMS), (r,), key=('def', r.key()))
    return atom_rf(a)


def fneg(a):
    if isinstance(a, RF):
        return RF(p_scale(a.num, -1), a.den)
    return -a


def fadd(a, b):
    ta, tb = type(a), type(b)
    if ta is Fraction and tb is Fraction:
        return a + b
    if ta is float or tb is float:
        if ta is float and tb is float:
            return a + b
        return a if ta is float else b
    if ta is Fraction:
        if not a:
            return b
        a = to_rf(a)
    elif tb is Fraction:
        if not b:
            return a
        b = to_rf(b)
    try:
        return fin(rf_add(a, b))
    except TooBig:
        return fin(rf_add(shrink(a), shrink(b)))


def fsub(a, b):
    return fadd(a, fneg(b))


def shrink(a):
    if isinstance(a, RF) and len(a.num) > 3:
        return mk_def(a)
    return a


def fmul_fin(a, b):
    """both finite"""
    if type(a) is Fraction:
        if type(b) is Fraction:
            return a * b
        if not a:
            return F0
        if a == 1:
            return b
        return RF(p_scale(b.num, a.numerator if a.denominator == 1 else a), b.den)
    if type(b) is Fraction:
        return fmul_fin(b, a)
    try:
        return fin(rf_mul(a, b))
    except TooBig:
        return fin(rf_mul(shrink(a), shrink(b)))


def fdiv_fin(a, b):
    """finite / nonzero finite"""
    if type(b) is Fraction:
        return fmul_fin(a, 1 / b)
    try:
        return fin(rf_div(to_rf(a), b))
    except TooBig:
        return fin(rf_div(to_rf(a), shrink(b)))


# ---------------------------------------------------------------- functions
def rf_key(v):
    return v.key() if isinstance(v, RF) else v


def uf(name, *args):
    k = ('uf', name) + tuple(rf_key(a) for a in args)
    a = mk_atom('uf', '%s#%d' % (name, len(ATOMS)), args, key=k)
    return atom_rf(a)


def fsqrt(a):
    """a finite, known >= 0"""
    if type(a) is Fraction:
        n, d = a.numerator, a.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return Fraction(rn, rd)
    at = mk_atom('sqrt', 'sqrt#%d' % len(ATOMS), (a,), key=('sqrt', rf_key(a)))
    return atom_rf(at)


def fexp(a):
    if type(a) is Fraction:
        if not a:
            return F1
        a = to_rf(a)
    if not a.den:
        out = F1
        for m, c in sorted(a.num.items(), key=lambda t: m_key(t[0])):
            c = Fraction(c)
            n, d = c.numerator, c.denominator
            # exp((n/d) m) = exp(m/d)^n
            roots = 0
            if len(m) == 1 and m[0][1] == 1 and d == 1 and ATOMS[m[0][0]].kind == 'uf' and \
                    ATOMS[m[0][0]].name.startswith('log#'):
                base = ATOMS[m[0][0]].args[0]
            else:
                if abs(n) > 8:
                    d = Fraction(d) / abs(n)
                    n = 1 if n > 0 else -1
                roots = 0
                while m and roots < 3 and Fraction(d).denominator == 1 and d > 1 and d & (d - 1) == 0 and d <= 8:
                    d //= 2  # exp(m/2) = sqrt(exp(m))
                    roots += 1
                arg = RF({m: Fraction(1) / d})
                arg = RF({m: (arg.num[m].numerator if Fraction(arg.num[m]).denominator == 1 else arg.num[m])})
                base = uf('exp', arg) if m else uf('exp', Fraction(1) / d)
                for _ in range(roots):
                    base = fsqrt(base)
            t = F1
            for _ in range(abs(n)):
                t = fmul_fin(t, base)
            out = fmul_fin(out, t) if n > 0 else fdiv_fin(out, t)
        return out
    if a.num[p_lead(a.num)] < 0:
        return fdiv_fin(F1, uf('exp', fneg(a)))
    return uf('exp', a)


def flog(a):
    """a known > 0"""
    if type(a) is Fraction:
        if a == 1:
            return F0
        return uf('log', a)
    if not a.den and len(a.num) == 1:
        (m, c), = a.num.items()
        if c == 1 and len(m) == 1:
            v, e = m[0]
            at = ATOMS[v]
            if at.kind == 'uf' and at.name.startswith('exp#'):
                return fmul_fin(Fraction(e), at.args[0])
            if at.kind == 'sqrt':
                return fmul_fin(Fraction(e, 2), flog(at.args[0]))
    return uf('log', a)


def fcos(a):
    """cos^2 = 1 - sin^2 is part of the normal form"""
    s = odd_uf('sin', a)
    c = even_uf('cos', a, F1)
    if isinstance(c, RF):
        (m, _), = c.num.items()
        if m[0][0] not in SQRT_ATOMS:
            SQRT_ATOMS[m[0][0]] = (2, fsub(F1, fmul_fin(s, s)))
    return c


def fcbrt(a):
    c = odd_uf('cbrt', a)
    if isinstance(c, RF):
        (m, k), = c.num.items()
        if m[0][0] not in SQRT_ATOMS:
            SQRT_ATOMS[m[0][0]] = (3, ATOMS[m[0][0]].args[0])
    return c


def odd_uf(name, a):
    """f(-x) = -f(x)"""
    if type(a) is Fraction:
        if not a:
            return F0
        return fneg(uf(name, -a)) if a < 0 else uf(name, a)
    if a.num[p_lead(a.num)] < 0:
        return fneg(uf(name, fneg(a)))
    return uf(name, a)


def even_uf(name, a, at0):
    if type(a) is Fraction:
        if not a:
            return at0
        return uf(name, abs(a))
    if a.num[p_lead(a.num)] < 0:
        return uf(name, fneg(a))
    return uf(name, a)


# ---------------------------------------------------------------- booleans
class B:
    __slots__ = ('op', 'a', 'id', 'z')

    def __repr__(self):
        return show(self)


_btab = {}
_blist = []


def mkB(op, *a):
    k = (op,) + tuple(x.id if isinstance(x, B) else (x.key() if isinstance(x, RF) else x) for x in a)
    b = _btab.get(k)
    if b is None:
        b = B()
        b.op = op
        b.a = a
        b.id = ('B', len(_blist))
        b.z = None
        _btab[k] = b
        _blist.append(b)
    return b


def b_not(x):
    if type(x) is int:
        return 1 - x
    if x.op == 'not':
        return x.a[0]
    return mkB('not', x)


def b_and(x, y):
    if type(x) is int:
        return y if x else 0
    if type(y) is int:
        return x if y else 0
    if x is y:
        return x
    if b_not(x) is y:
        return 0
    return mkB('and', x, y)


def b_or(x, y):
    if type(x) is int:
        return 1 if x else y
    if type(y) is int:
        return 1 if y else x
    if x is y:
        return x
    if b_not(x) is y:
        return 1
    return mkB('or', x, y)


def b_xor(x, y):
    if type(x) is int:
        return b_not(y) if x else y
    if type(y) is int:
        return b_not(x) if y else x
    if x is y:
        return 0
    if b_not(x) is y:
        return 1
    return mkB('xor', x, y)


def b_ite(c, x, y):
    if type(c) is int:
        return x if c else y
    if x is y or (type(x) is int and type(y) is int and x == y):
        return x
    return b_or(b_and(c, x), b_and(b_not(c), y))


def bvar(name):
    return mkB('bvar', name)


def sign_atom(rf, op):
    """op in lt0, gt0, eq0 on canonical representative"""
    p, c = p_prim(rf.num)  # num = c * p with lead(p) > 0
    r = RF(p, rf.den)
    if c < 0 and op != 'eq0':
        op = 'gt0' if op == 'lt0' else 'lt0'
    if op == 'eq0':
        r = RF(p, ())
    return mkB(op, r)


def cmp0(v, op):
    """v finite; op in lt le gt ge eq ne -> compare with zero"""
    if type(v) is Fraction:
        return int({'lt': v < 0, 'le': v <= 0, 'gt': v > 0, 'ge': v >= 0, 'eq': v == 0, 'ne': v != 0}[op])
    if op == 'lt':
        return sign_atom(v, 'lt0')
    if op == 'gt':
        return sign_atom(v, 'gt0')
    if op == 'eq':
        return sign_atom(v, 'eq0')
    if op == 'le':
        return b_not(sign_atom(v, 'gt0'))
    if op == 'ge':
        return b_not(sign_atom(v, 'lt0'))
    return b_not(sign_atom(v, 'eq0'))


def fcmp(a, b, op):
    """real comparison of extended reals (ordered semantics except ne)"""
    ta, tb = type(a), type(b)
    if ta is Fraction and tb is Fraction:
        return int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[op])
    if ta is float or tb is float:
        if (ta is float and a != a) or (tb is float and b != b):
            return 1 if op == 'ne' else 0
        x = a if ta is float else 0.0
        y = b if tb is float else 0.0
        return int({'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': x == y, 'ne': x != y}[op])
    # magnitudes: non-zero values are assumed within [1e-290, 1e290] (stated bound), so comparisons with
    # DBL_MIN / DBL_MAX like constants are comparisons with 0 / infinity
    if tb is Fraction and b and not (TINY < abs(b) < HUGE):
        return cmp_ext(a, b, op)
    if ta is Fraction and a and not (TINY < abs(a) < HUGE):
        return cmp_ext(b, a, {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}[op])
    return cmp0(fsub(a, b), op)


TINY = Fraction(1, 10 ** 290)
HUGE = Fraction(10 ** 290)


def cmp_ext(x, c, op):
    if op in ('eq', 'ne'):
        return int(op == 'ne')
    if abs(c) >= HUGE:
        y = 1 if c > 0 else -1
        return int(op in ('lt', 'le')) if y > 0 else int(op in ('gt', 'ge'))
    if c > 0:
        return cmp0(x, 'gt' if op in ('gt', 'ge') else 'le')
    return cmp0(x, 'ge' if op in ('gt', 'ge') else 'lt')


# ---------------------------------------------------------------- integers
class ZI:
    """integer valued term; value = rf (over integer atoms), lo <= value <= hi (mathematical)"""
    __slots__ = ('rf', 'lo', 'hi')

    def __init__(self, rf, lo, hi):
        self.rf = rf
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        return 'ZI(%s)[%d,%d]' % (show_rf(self.rf), self.lo, self.hi)


class BI:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b


def zi_sym(name, lo, hi):
    a = mk_atom('zsym', name, is_int=True, lo=lo, hi=hi)
    return ZI(atom_rf(a), lo, hi)


class Undef:
    __slots__ = ()

    def __repr__(self):
        return 'undef'


UNDEF = Undef()


# ---------------------------------------------------------------- printing
def show_poly(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items(), key=lambda t: m_key(t[0]), reverse=True)[:40]:
        s = '*'.join(ATOMS[v].name + ('^%d' % e if e > 1 else '') for v, e in m)
        out.append((str(c) + ('*' + s if s else '')) if c != 1 or not s else s)
    return ' + '.join(out) + (' ...' if len(p) > 40 else '')


def show_rf(r):
    if not isinstance(r, RF):
        return str(r)
    s = show_poly(r.num)
    if r.den:
        s = '(%s)/(%s)' % (s, ')('.join(show_poly(FACT.polys[f]) + ('^%d' % e if e > 1 else '') for f, e in r.den))
    return s


def show(b):
    if type(b) is int:
        return str(b)
    if b.op == 'bvar':
        return b.a[0]
    if b.op in ('lt0', 'gt0', 'eq0'):
        return '(%s %s 0)' % (show_rf(b.a[0]), {'lt0': '<', 'gt0': '>', 'eq0': '='}[b.op])
    return '(%s %s)' % (b.op, ' '.join(show(x) if isinstance(x, B) else str(x) for x in b.a))


# ---------------------------------------------------------------- atoms occurring in terms
def poly_atoms(p, out):
    for m in p:
        for v, _ in m:
            out.add(v)


def rf_atoms(r, out):
    poly_atoms(r.num, out)
    for f, _ in r.den:
        poly_atoms(FACT.polys[f], out)


def b_atoms(b, out, seen=None):
    if type(b) is int:
        return
    if seen is None:
        seen = set()
    st = [b]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ('lt0', 'gt0', 'eq0'):
            rf_atoms(x.a[0], out)
        else:
            for y in x.a:
                if isinstance(y, B):
                    st.append(y)


def close_atoms(s):
    """add atoms occurring in definitions"""
    todo = list(s)
    while todo:
        i = todo.pop()
        a = ATOMS[i]
        new = set()
        for r in a.args:
            if isinstance(r, RF):
                rf_atoms(r, new)
        for j in new:
            if j not in s:
                s.add(j)
                todo.append(j)
    return s
