"""Translation of symbolic terms to SMT and solver management (z3, with cvc5 as second opinion)."""
import os
import pickle
import select
import signal
import time
from fractions import Fraction
import z3
import terms as T
from poly import RF, FACT, ONE_M, p_mul

_zv = {}
_pz = {}


def reset():
    _zv.clear()
    _pz.clear()


def zvar(i):
    v = _zv.get(i)
    if v is None:
        a = T.ATOMS[i]
        if a.is_int:
            v = z3.ToReal(z3.Int('a%d' % i))
        else:
            v = z3.Real('a%d' % i)
        _zv[i] = v
    return v


def zq(c):
    c = Fraction(c)
    return z3.RealVal(c.numerator) if c.denominator == 1 else z3.Q(c.numerator, c.denominator)


def zpoly(p):
    k = frozenset(p.items())
    r = _pz.get(k)
    if r is not None:
        return r
    terms = []
    for m, c in p.items():
        fs = []
        for v, e in m:
            zv = zvar(v)
            fs += [zv] * e
        if c != 1 or not fs:
            fs = [zq(c)] + fs
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        terms.append(t)
    if not terms:
        r = z3.RealVal(0)
    elif len(terms) == 1:
        r = terms[0]
    else:
        r = z3.Sum(terms)
    _pz[k] = r
    return r


def zden(den, odd=False):
    r = None
    for f, e in den:
        n = (e & 1) if odd else e
        p = zpoly(FACT.polys[f])
        for _ in range(n):
            r = p if r is None else r * p
    return r


def zB(b):
    if type(b) is int:
        return z3.BoolVal(bool(b))
    if b.z is not None:
        return b.z
    op = b.op
    if op == 'bvar':
        r = z3.Bool('b_' + b.a[0])
    elif op == 'not':
        r = z3.Not(zB(b.a[0]))
    elif op == 'and':
        r = z3.And(zB(b.a[0]), zB(b.a[1]))
    elif op == 'or':
        r = z3.Or(zB(b.a[0]), zB(b.a[1]))
    elif op == 'xor':
        r = z3.Xor(zB(b.a[0]), zB(b.a[1]))
    elif op in ('lt0', 'gt0', 'eq0'):
        rf = b.a[0]
        n = zpoly(rf.num)
        if op == 'eq0':
            r = n == 0
        else:
            # sign(num/den) = sign(num * odd part of den); long factors handled by case split
            factors = [n] + [zpoly(FACT.polys[f]) for f, e in rf.den if e & 1]
            if len(factors) == 1:
                r = n < 0 if op == 'lt0' else n > 0
            else:
                neg = None
                for f in factors[1:]:
                    neg = (f < 0) if neg is None else z3.Xor(neg, f < 0)
                if op == 'lt0':
                    r = z3.If(neg, n > 0, n < 0)
                else:
                    r = z3.If(neg, n < 0, n > 0)
    elif op == 'raw':
        r = b.a[1]
    else:
        raise T.Unsupported('zB ' + op)
    b.z = r
    return r


_PI = Fraction(314159265358979, 10 ** 14)


def atom_cons(i):
    """SMT constraints that tie an atom to its meaning (axioms for library functions)"""
    a = T.ATOMS[i]
    v = zvar(i)
    out = []
    if a.kind == 'zsym':
        if a.lo is not None:
            out.append(v >= a.lo)
        if a.hi is not None:
            out.append(v <= a.hi)
    elif a.kind == 'sqrt':
        r = a.args[0]
        out.append(v >= 0)
        if isinstance(r, RF):
            d = zden(r.den)
            n = zpoly(r.num)
            out.append(v * v == n if d is None else v * v * d == n)
        else:
            out.append(v * v == zq(r))
    elif a.kind == 'def':
        r = a.args[0]
        d = zden(r.den)
        n = zpoly(r.num)
        out.append(v == n if d is None else v * d == n)
    elif a.kind == 'zdiv':
        n = zpoly(a.args[0].num)
        d = a.lo if False else a.args[1]
        out += [n - d * v >= 0, n - d * v < d]
    elif a.kind == 'zfloor':
        r = a.args[0]
        d = zden(r.den)
        n = zpoly(r.num)
        q = n if d is None else n / d
        out += [v <= q, q < v + 1]
    elif a.kind == 'uf':
        nm = a.name.split('#')[0]
        arg = a.args[0]
        def z(r):
            if isinstance(r, RF):
                d = zden(r.den)
                n = zpoly(r.num)
                return n if d is None else n / d
            return zq(r)
        def sgn(r):
            # (is_pos, is_neg) formulas
            if isinstance(r, RF):
                return zB(T.cmp0(r, 'gt')), zB(T.cmp0(r, 'lt'))
            return z3.BoolVal(r > 0), z3.BoolVal(r < 0)
        pos, neg = sgn(arg)
        if nm == 'exp':
            out += [v > 0, pos == (v > 1), neg == (v < 1)]
            if not isinstance(arg, RF):
                import math
                x = math.exp(float(arg))
                out += [v > zq(Fraction(x * (1 - 1e-12))), v < zq(Fraction(x * (1 + 1e-12)))]
            elif not arg.den:
                out.append(v >= 1 + z(arg))
        elif nm == 'log':
            if isinstance(arg, RF):
                g = T.fsub(arg, T.F1)
                p1, n1 = sgn(g)
                out += [p1 == (v > 0), n1 == (v < 0)]
            else:
                import math
                x = math.log(float(arg))
                e = abs(x) * 1e-12
                out += [v > zq(Fraction(x - e)), v < zq(Fraction(x + e))]
        elif nm in ('sin', 'cos'):
            # floating point numbers other than 0 are not multiples of pi/2
            out += [v > -1, v < 1 if nm == 'sin' else v <= 1]
            if nm == 'cos':
                out.append(v != 0)
                sq = T.SQRT_ATOMS.get(i)
                if sq:
                    out.append(v * v == z(sq[1]))
        elif nm == 'tanh':
            out += [v > -1, v < 1, pos == (v > 0), neg == (v < 0)]
        elif nm in ('atan', 'asinh', 'sinh', 'erf', 'cbrt'):
            out += [pos == (v > 0), neg == (v < 0)]
            if nm == 'cbrt':
                out.append(v * v * v == z(arg))
            if nm == 'atan':
                out += [v < zq(_PI / 2 + Fraction(1, 10 ** 10)), v > -zq(_PI / 2 + Fraction(1, 10 ** 10))]
        elif nm == 'cosh':
            out += [v >= 1]
        elif nm == 'asin':
            out += [pos == (v > 0), neg == (v < 0)]
        elif nm == 'acos':
            out += [v >= 0]
        elif nm == 'floor':
            out += [v <= z(arg), v > z(arg) - 1]
        elif nm == 'ceil':
            out += [v >= z(arg), v < z(arg) + 1]
    return out


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0
        self.cvc5 = 0
        self.nlsat = 0
        self.maxq = 0.0
        self.interval = 0


def is_nonlinear(bs):
    for b in bs:
        if type(b) is int:
            continue
        if b.op in ('lt0', 'gt0', 'eq0'):
            rf = b.a[0]
            if rf.den:
                return True
            for m in rf.num:
                if len(m) > 1 or (m and m[0][1] > 1):
                    return True
        elif b.op != 'bvar':
            if is_nonlinear([x for x in b.a if isinstance(x, T.B)]):
                return True
    return False


_batoms = {}


def B_vars(b):
    """closed set of atoms and boolean names occurring in b"""
    r = _batoms.get(b.id)
    if r is None:
        at = set()
        T.b_atoms(b, at)
        T.close_atoms(at)
        st = [b]
        seen = set()
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == 'bvar':
                at.add('b_' + x.a[0])
            elif x.op in ('not', 'and', 'or', 'xor'):
                st.extend(y for y in x.a if isinstance(y, T.B))
        r = frozenset(at)
        _batoms[b.id] = r
    return r


# ---- exact interval arithmetic over the simple bounds in a list of constraints (decides many queries at once)
def _bounds(cons, vs):
    bd = {}
    for i in vs:
        if isinstance(i, str):
            continue
        a = T.ATOMS[i]
        if a.kind == 'zsym':
            bd[i] = [a.lo, a.hi]
        elif a.kind == 'sqrt' or (a.kind == 'uf' and a.name.split('#')[0] == 'exp'):
            bd[i] = [0, None]
    for b in cons:
        neg = False
        while b.op == 'not':
            b = b.a[0]
            neg = not neg
        if b.op not in ('lt0', 'gt0', 'eq0') or b.a[0].den or len(b.a[0].num) > 2 or (neg and b.op == 'eq0'):
            continue
        v = c = None
        k = 0
        for m, q in b.a[0].num.items():
            if not m:
                k = q
            elif len(m) == 1 and m[0][1] == 1 and v is None:
                v, c = m[0][0], q
            else:
                v = None
                break
        if v is None:
            continue
        t = Fraction(-k) / c
        e = bd.setdefault(v, [None, None])
        op = b.op
        up = (op == 'lt0') != (c < 0) if op != 'eq0' else None
        if neg and up is not None:
            up = not up
        if up is not False and (e[1] is None or t < e[1]):
            e[1] = t
        if up is not True and (e[0] is None or t > e[0]):
            e[0] = t
    return bd


def _imul(a, b):
    if a == (0, 0) or b == (0, 0):
        return (0, 0)
    ps = []
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            if x is None or y is None:
                # an infinite end: sign of the product
                sx = (-1, 1)[i] if x is None else (x > 0) - (x < 0)
                sy = (-1, 1)[j] if y is None else (y > 0) - (y < 0)
                ps.append((sx * sy, None) if sx * sy else (0, 0))
            else:
                ps.append((0, x * y))
    lo = None if any(k < 0 for k, v in ps) else min(v for k, v in ps if v is not None) if any(v is not None for k, v in ps) else None
    hi = None if any(k > 0 for k, v in ps) else max(v for k, v in ps if v is not None) if any(v is not None for k, v in ps) else None
    return (lo, hi)


def _ipow(e, n):
    lo, hi = e
    if n & 1:
        return (None if lo is None else lo ** n, None if hi is None else hi ** n)
    a = None if lo is None or hi is None else max(abs(lo), abs(hi)) ** n
    z = 0
    if lo is not None and lo > 0:
        z = lo ** n
    elif hi is not None and hi < 0:
        z = hi ** n
    return (z, a)


def _irange(p, bd):
    lo, hi = 0, 0
    for m, c in p.items():
        t = (c, c)
        for v, e in m:
            t = _imul(t, _ipow(bd.get(v, (None, None)), e))
        lo = None if lo is None or t[0] is None else lo + t[0]
        hi = None if hi is None or t[1] is None else hi + t[1]
        if lo is None and hi is None:
            break
    return lo, hi


def die_with_parent(cpu=0):
    """for children: killed with their parent, no output, at most `cpu` seconds"""
    import ctypes
    import resource
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    if cpu:
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu))
        n = os.open('/dev/null', os.O_RDWR)
        os.dup2(n, 1)
        os.dup2(n, 2)


_sqs = {}


def _squares(p):
    """k such that p >= k everywhere, found by completing squares, or None"""
    if len(p) > 400:
        return None
    key = frozenset(p.items())
    if key in _sqs:
        return _sqs[key]
    if len(_sqs) > 20000:
        _sqs.clear()
    r = _sqs[key] = _squares_of(p)
    return r


def _squares_of(p):
    for _ in range(40):
        deg = {}
        for m in p:
            for v, e in m:
                deg[v] = max(deg.get(v, 0), e)
        if not deg:
            return p.get((), 0)
        pick = None
        for v in deg:
            c = p.get(((v, 2),), 0)
            if deg[v] == 2 and c > 0 and sum(1 for m in p if (v, 2) in m) == 1:
                pick = v
                break
        if pick is None:
            break
        lin, rest = {}, {}
        for m, c in p.items():
            if (pick, 1) in m:
                lin[tuple(x for x in m if x[0] != pick)] = c
            elif (pick, 2) not in m:
                rest[m] = c
        if lin:
            a = Fraction(1, 4) / p[((pick, 2),)]
            for m, c in p_mul(lin, lin).items():
                t = rest.get(m, 0) - c * a
                if t:
                    rest[m] = t
                else:
                    rest.pop(m, None)
        if len(rest) > 1000:
            return None
        p = rest
    if all(not m or (c > 0 and all(e % 2 == 0 for v, e in m)) for m, c in p.items()):
        return p.get((), 0)
    return None


def _itruth(b, bd, memo):
    """True, False or None (not decided by the bounds)"""
    if type(b) is int:
        return bool(b)
    if b.id in memo:
        return memo[b.id]
    r = None
    op = b.op
    if op == 'not':
        x = _itruth(b.a[0], bd, memo)
        r = None if x is None else not x
    elif op in ('and', 'or'):
        x, y = _itruth(b.a[0], bd, memo), _itruth(b.a[1], bd, memo)
        d = op == 'or'
        r = d if x is d or y is d else (not d if x is not None and y is not None else None)
    elif op in ('lt0', 'gt0', 'eq0'):
        rf = b.a[0]
        lo, hi = _irange(rf.num, bd)
        if op == 'eq0':
            r = False if (lo is not None and lo > 0) or (hi is not None and hi < 0) else True if lo == 0 and hi == 0 else None
        else:
            s = 1 if op == 'gt0' else -1
            for f, e in rf.den:
                if e & 1:
                    dl, dh = _irange(FACT.polys[f], bd)
                    if dl is not None and dl >= 0:
                        pass
                    elif dh is not None and dh < 0:
                        s = -s
                    else:
                        s = 0
                        break
            if s and not rf.den and len(rf.num) > 2 and (lo is None or lo < 0) and (hi is None or hi > 0):
                k = _squares(rf.num)
                if k is not None:
                    lo = k if lo is None else max(lo, k)
                else:
                    k = _squares({m: -c for m, c in rf.num.items()})
                    if k is not None:
                        hi = -k if hi is None else min(hi, -k)
            if s > 0:
                r = True if lo is not None and lo > 0 else False if hi is not None and hi <= 0 else None
            elif s < 0:
                r = True if hi is not None and hi < 0 else False if lo is not None and lo >= 0 else None
    memo[b.id] = r
    return r


def refuted(cons, vs):
    bd = _bounds(cons, vs)
    for i in sorted(v for v in vs if not isinstance(v, str)):
        a = T.ATOMS[i]
        if a.kind in ('sqrt', 'def') and isinstance(a.args[0], RF) and not a.args[0].den:
            lo, hi = _irange(a.args[0].num, bd)
            if a.kind == 'sqrt':
                lo, hi = 0, None if hi is None else max(1, hi)
            e = bd.setdefault(i, [None, None])
            if lo is not None and (e[0] is None or lo > e[0]):
                e[0] = lo
            if hi is not None and (e[1] is None or hi < e[1]):
                e[1] = hi
    for lo, hi in bd.values():
        if lo is not None and hi is not None and lo > hi:
            return True
    memo = {}
    return any(_itruth(b, bd, memo) is False for b in cons)


class Solver:
    def __init__(self, full_ms=8000, use_cvc5=True):
        self.stats = Stats()
        self.full_ms = full_ms
        self.use_cvc5 = use_cvc5
        self.cache = {}

    def slice(self, pc, extra):
        """constraints of pc connected (through shared atoms) to extra"""
        vs = set()
        for e in extra:
            vs |= B_vars(e)
        rest = list(pc)
        out = []
        while True:
            nr = []
            hit = False
            for b in rest:
                bv = B_vars(b)
                if not bv.isdisjoint(vs):
                    out.append(b)
                    vs |= bv
                    hit = True
                else:
                    nr.append(b)
            rest = nr
            if not hit or not rest:
                break
        return out, vs

    def check(self, pc, extra=(), full_ms=None, base=None):
        """base: model of pc (then only the part of pc connected to extra is solved).
        returns ('sat', model) | ('unsat', None) | ('unknown', None)"""
        extra = [e for e in extra if type(e) is not int or not e]
        if any(type(e) is int for e in extra):
            return 'unsat', None
        pc = list(pc)
        if base is not None and extra:
            cons, vs = self.slice(pc, extra)
        else:
            cons = pc
            vs = set()
            for b in pc + extra:
                vs |= B_vars(b)
        cons = list(dict.fromkeys(cons + extra))
        key = frozenset(b.id for b in cons)
        hit = self.cache.get(key)
        if hit is not None and (hit[0] != 'unknown' or hit[2] >= (full_ms or self.full_ms)):
            r, model = hit[0], hit[1]
        else:
            t0 = time.time()
            self.stats.queries += 1
            r, model = self._solve(cons, vs, full_ms or self.full_ms)
            dt = time.time() - t0
            if os.environ.get('VFSLOW') and dt > float(os.environ['VFSLOW']):
                print('SLOW %.1f %s' % (dt, r), [str(z3.simplify(zB(b)))[:700] for b in cons], flush=True)
            self.stats.time += dt
            self.stats.maxq = max(self.stats.maxq, dt)
            if r == 'sat':
                self.stats.sat += 1
            elif r == 'unsat':
                self.stats.unsat += 1
            else:
                self.stats.unknown += 1
            self.cache[key] = (r, model, full_ms or self.full_ms)
        if r == 'sat' and base:
            m = dict(base)
            irr = set(base.get('irr', ())) - set(vs)
            for v in vs:
                m.pop(v, None)
            m.update(model)
            irr |= set(model.get('irr', ()))
            m.pop('irr', None)
            if irr:
                m['irr'] = irr
            model = m
        return r, model

    def _solve(self, cons, vs, ms):
        asr = []
        nl = False
        self.have = [v for v in vs if not isinstance(v, str)]
        for i in self.have:
            if T.ATOMS[i].kind not in ('sym', 'zsym'):
                nl = True
            asr += atom_cons(i)
        for b in cons:
            asr.append(zB(b))
        if not nl:
            nl = is_nonlinear(cons)
        if nl and refuted(cons, vs):
            self.stats.interval += 1
            return 'unsat', None
        if not nl:
            s = z3.Solver()
            s.set('timeout', 10000)
            s.add(asr)
            r = str(s.check())
            if r == 'sat':
                return 'sat', self._model(s.model())
            if r == 'unsat':
                return 'unsat', None
        return self._full(asr, ms)

    def _full(self, asr, ms):
        ints = any(T.ATOMS[i].is_int for i in self.have)
        # 1. quick default attempt
        s = z3.Solver()
        s.set('timeout', min(ms, 400))
        s.add(asr)
        r = str(s.check())
        if r == 'sat':
            return 'sat', self._model(s.model())
        if r == 'unsat':
            return 'unsat', None
        # 2. nlsat
        if not ints:
            self.stats.nlsat += 1
            try:
                tac = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'elim-term-ite', 'qfnra-nlsat')
                s = tac.solver()
                s.set('timeout', int(ms))
                s.add(asr)
                r = str(s.check())
                if r == 'sat':
                    return 'sat', self._model(s.model())
                if r == 'unsat':
                    return 'unsat', None
            except z3.Z3Exception:
                pass
        else:
            s = z3.Solver()
            s.set('timeout', int(ms))
            s.add(asr)
            r = str(s.check())
            if r == 'sat':
                return 'sat', self._model(s.model())
            if r == 'unsat':
                return 'unsat', None
        # 3. cvc5
        if self.use_cvc5:
            return self._cvc5(asr, ms)
        return 'unknown', None

    def _cvc5(self, asr, ms):
        self.stats.cvc5 += 1
        try:
            import cvc5
        except ImportError:
            return 'unknown', None
        s = z3.Solver()
        s.add(asr)
        txt = s.sexpr()
        # in a process of its own: its time limit is not always kept
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(rd)
                die_with_parent(int(ms / 1000) + 5)
                with os.fdopen(wr, 'wb') as f:
                    pickle.dump(self._cvc5_run(cvc5, txt, ms), f)
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        data = b''
        end = time.time() + ms / 1000.0 + 1
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([rd], [], [], left)[0]:
                break
            c = os.read(rd, 65536)
            if not c:
                break
            data += c
        os.close(rd)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
        try:
            return pickle.loads(data)
        except Exception:
            return 'unknown', None

    @staticmethod
    def _cvc5_run(cvc5, txt, ms):
        tm = cvc5.TermManager()
        sol = cvc5.Solver(tm)
        sol.setOption('tlimit-per', str(int(ms)))
        sol.setOption('produce-models', 'true')
        try:
            sol.setLogic('QF_NIRA' if 'Int' in txt else 'QF_NRA')
            p = cvc5.InputParser(sol)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
            sm = p.getSymbolManager()
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                c.invoke(sol, sm)
            r = sol.checkSat()
            if r.isUnsat():
                return 'unsat', None
            if r.isSat():
                m = {}
                for t in sm.getDeclaredTerms():
                    try:
                        v = sol.getValue(t)
                        n = str(t)
                        if n.startswith('a') and n[1:].isdigit():
                            if v.isRealValue() or v.isIntegerValue():
                                m[int(n[1:])] = Fraction(str(v.getRealValue() if v.isRealValue() else v.getIntegerValue()))
                        elif n.startswith('b_'):
                            m[n] = v.getBooleanValue()
                    except Exception:
                        pass
                return 'sat', m
        except Exception:
            return 'unknown', None
        return 'unknown', None

    @staticmethod
    def _model(m):
        out = {}
        for d in m.decls():
            n = d.name()
            v = m[d]
            if n.startswith('b_'):
                out[n] = z3.is_true(v)
            elif n.startswith('a') and n[1:].isdigit():
                if z3.is_int_value(v):
                    out[int(n[1:])] = Fraction(v.as_long())
                elif z3.is_rational_value(v):
                    out[int(n[1:])] = Fraction(v.numerator_as_long(), v.denominator_as_long())
                elif z3.is_algebraic_value(v):
                    w = v.approx(30)
                    out[int(n[1:])] = Fraction(w.numerator_as_long(), w.denominator_as_long())
                    out.setdefault('irr', set()).add(int(n[1:]))
        return out


def eval_poly(p, m):
    s = Fraction(0)
    for mon, c in p.items():
        t = Fraction(c)
        for v, e in mon:
            x = m.get(v)
            if x is None:
                return None
            t *= x ** e
        s += t
    return s


def eval_B(b, m):
    """evaluate under a rational model; None if unknown"""
    if type(b) is int:
        return bool(b)
    op = b.op
    if op == 'bvar':
        return m.get('b_' + b.a[0])
    if op == 'not':
        r = eval_B(b.a[0], m)
        return None if r is None else not r
    if op in ('and', 'or', 'xor'):
        x, y = eval_B(b.a[0], m), eval_B(b.a[1], m)
        if x is None or y is None:
            return None
        return (x and y) if op == 'and' else (x or y) if op == 'or' else (x != y)
    if op in ('lt0', 'gt0', 'eq0'):
        irr = m.get('irr')
        if irr:
            at = set()
            T.rf_atoms(b.a[0], at)
            if at & irr:
                return None
        n = eval_poly(b.a[0].num, m)
        if n is None:
            return None
        if op == 'eq0':
            return n == 0
        for f, e in b.a[0].den:
            if e & 1:
                d = eval_poly(FACT.polys[f], m)
                if d is None or d == 0:
                    return None
                if d < 0:
                    n = -n
        return n < 0 if op == 'lt0' else n > 0
    return None
