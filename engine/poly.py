"""Exact multivariate polynomials / rational functions over Q.

Used to bring real-valued symbolic terms into a canonical form before they are
handed to the SMT solver.  A polynomial is a dict {monomial: coeff}; a monomial
is a sorted tuple of (atom_index, exponent).  Denominators are kept factored.
"""
from fractions import Fraction

ONE_M = ()


class TooBig(Exception):
    pass


LIMIT = 60000


def p_const(c):
    return {ONE_M: c} if c else {}


def p_var(i):
    return {((i, 1),): 1}


def p_add(a, b, s=1):
    if not a:
        return {m: c * s for m, c in b.items()} if s != 1 else b
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c * s
        else:
            v = v + c * s
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def m_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for v, e in n:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        (m, c), = a.items()
        if m == ONE_M:
            if c == 1:
                return b
            return {n: d * c for n, d in b.items()}
    if len(a) * len(b) > LIMIT * 20:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k)
            if v is None:
                r[k] = c * d
            else:
                v = v + c * d
                if v:
                    r[k] = v
                else:
                    del r[k]
    if len(r) > LIMIT:
        raise TooBig()
    return r


def p_scale(a, c):
    if c == 1:
        return a
    if not c:
        return {}
    return {m: v * c for m, v in a.items()}


def p_pow(a, n):
    r = {ONE_M: 1}
    for _ in range(n):
        r = p_mul(r, a)
    return r


def m_key(m, _cache={}):
    # graded order: total degree, then lexicographic on (-var, exp)
    k = _cache.get(m)
    if k is None:
        k = (sum(e for _, e in m), tuple((-v, e) for v, e in m))
        _cache[m] = k
    return k


def p_lead(a):
    return max(a, key=m_key)


def m_div(m, n):
    """m / n or None"""
    if not n:
        return m
    d = dict(m)
    for v, e in n:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x:
            d[v] = x
        else:
            del d[v]
    return tuple(sorted(d.items()))


def lex_key(m):
    # lexicographic order with smaller var index first
    return m


def _lexlead(a, order):
    best = None
    bk = None
    for m in a:
        k = [0] * len(order)
        for v, e in m:
            k[order[v]] = e
        if bk is None or k > bk:
            bk = k
            best = m
    return best


def p_divexact(a, b):
    """a / b if exact else None (multivariate, lexicographic order)."""
    if not b:
        return None
    if not a:
        return {}
    if len(b) == 1:
        (n, d), = b.items()
        r = {}
        for m, c in a.items():
            q = m_div(m, n)
            if q is None:
                return None
            r[q] = Fraction(c) / d if not (isinstance(c, int) and isinstance(d, int) and c % d == 0) else c // d
        return r
    vb = set(v for m in b for v, _ in m)
    va = set(v for m in a for v, _ in m)
    if not vb <= va:
        return None
    if len(a) * len(b) > LIMIT * 20:
        return None
    order = {v: i for i, v in enumerate(sorted(va))}

    def key(m):
        k = [0] * len(order)
        for v, e in m:
            k[order[v]] = e
        return tuple(k)
    # quick degree test per variable
    for v in vb:
        da = max((e for m in a for (w, e) in m if w == v), default=0)
        db = max((e for m in b for (w, e) in m if w == v), default=0)
        if db > da:
            return None
    lb = max(b, key=key)
    cb = b[lb]
    import heapq
    r = dict(a)
    q = {}
    heap = [tuple(-x for x in key(m)) + (i, m) for i, m in enumerate(r)]
    heapq.heapify(heap)
    n = len(heap)
    steps = 0
    while r:
        while True:
            m = heapq.heappop(heap)[-1]
            if m in r:
                break
        c = r[m]
        t = m_div(m, lb)
        if t is None:
            return None
        co = Fraction(c) / cb
        if co.denominator == 1:
            co = co.numerator
        q[t] = co
        steps += 1
        if steps > LIMIT:
            return None
        for mb, c2 in b.items():
            k = m_mul(t, mb)
            v = r.get(k)
            if v is None:
                r[k] = -co * c2
                n += 1
                heapq.heappush(heap, tuple(-x for x in key(k)) + (n, k))
            else:
                v = v - co * c2
                if v:
                    r[k] = v
                else:
                    del r[k]
    return q


def p_content(a):
    """rational content with sign of lead coefficient, so that a/content is primitive integer poly"""
    from math import gcd
    num = 0
    den = 1
    for c in a.values():
        f = Fraction(c)
        num = gcd(num, f.numerator)
        den = den * f.denominator // gcd(den, f.denominator)
    if num == 0:
        return Fraction(1)
    s = Fraction(num, den)
    if a[p_lead(a)] < 0:
        s = -s
    return s


def p_prim(a):
    c = p_content(a)
    r = {}
    for m, v in a.items():
        f = Fraction(v) / c
        r[m] = f.numerator
    return r, c


class Factors:
    """interning table for denominator factors (primitive polynomials)"""

    def __init__(self):
        self.tab = {}
        self.polys = []

    def intern(self, prim):
        k = frozenset(prim.items())
        i = self.tab.get(k)
        if i is None:
            i = len(self.polys)
            self.tab[k] = i
            self.polys.append(prim)
        return i


FACT = Factors()


class RF:
    """num / prod(factor^e); num has rational coefficients"""
    __slots__ = ('num', 'den')

    def __init__(self, num, den=()):
        self.num = num
        self.den = den

    def is_zero(self):
        return not self.num

    def key(self):
        return (frozenset(self.num.items()), self.den)


def _den_poly(d):
    r = {ONE_M: 1}
    for f, e in d:
        for _ in range(e):
            r = p_mul(r, FACT.polys[f])
    return r


def _cancel(num, den):
    if not num:
        return RF({}, ())
    if not den:
        return RF(num, ())
    out = []
    for f, e in den:
        p = FACT.polys[f]
        while e:
            q = p_divexact(num, p)
            if q is None:
                break
            num = q
            e -= 1
        if e:
            out.append((f, e))
    return RF(num, tuple(out))


def rf_const(c):
    return RF(p_const(c))


def rf_add(x, y, s=1):
    if not y.num:
        return x
    if not x.num:
        return RF(p_scale(y.num, s), y.den)
    if x.den == y.den:
        n = p_add(x.num, y.num, s)
        return _cancel(n, x.den) if x.den else RF(n)
    dx, dy = dict(x.den), dict(y.den)
    l = dict(dx)
    for f, e in dy.items():
        if l.get(f, 0) < e:
            l[f] = e
    mx = {f: e - dx.get(f, 0) for f, e in l.items() if e > dx.get(f, 0)}
    my = {f: e - dy.get(f, 0) for f, e in l.items() if e > dy.get(f, 0)}
    n = p_add(p_mul(x.num, _den_poly(mx.items())), p_mul(y.num, _den_poly(my.items())), s)
    return _cancel(n, tuple(sorted(l.items())))


def rf_mul(x, y):
    if not x.num or not y.num:
        return RF({})
    a, b = x.num, y.num
    dx, dy = x.den, y.den
    if dy:
        t = _cancel(a, dy)
        a, dy = t.num, t.den
    if dx:
        t = _cancel(b, dx)
        b, dx = t.num, t.den
    d = dict(dx)
    for f, e in dy:
        d[f] = d.get(f, 0) + e
    return RF(p_mul(a, b), tuple(sorted(d.items())))


def rf_inv(x):
    """1/x (x must not be identically zero)"""
    num = _den_poly(x.den)
    p, c = p_prim(x.num)
    num = p_scale(num, 1 / Fraction(c))
    if len(p) == 1:
        (m, v), = p.items()
        den = {}
        for var, e in m:
            den[FACT.intern({((var, 1),): 1})] = e
        return RF(p_scale(num, 1 / Fraction(v)), tuple(sorted(den.items())))
    # pull out monomial content
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {v: min(e, d[v]) for v, e in common.items() if v in d}
        if not common:
            break
    den = {}
    if common:
        cm = tuple(sorted(common.items()))
        p = {m_div(m, cm): c for m, c in p.items()}
        for v, e in cm:
            den[FACT.intern({((v, 1),): 1})] = e
    # pull out known factors
    for i, f in enumerate(list(FACT.polys)):
        if len(f) < 2 or len(p) < len(f):
            continue
        while True:
            q = p_divexact(p, f) if len(p) > 1 else None
            if q is None:
                break
            den[i] = den.get(i, 0) + 1
            p = q
    if p != {ONE_M: 1}:
        p, c = p_prim(p)
        if c != 1:
            num = p_scale(num, 1 / Fraction(c))
        if p != {ONE_M: 1}:
            i = FACT.intern(p)
            den[i] = den.get(i, 0) + 1
    return RF(num, tuple(sorted(den.items())))


def rf_div(x, y):
    return rf_mul(x, rf_inv(y))
