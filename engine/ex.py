"""Symbolic executor for LLVM IR."""
import struct
import math
import time
from fractions import Fraction
import ir
from ir import P, I1, I8, I32, I64, PTR, DBL, FLT, VOID, ATTR, ATTR_PAREN, FMF, CCONV, ParseError
import terms as T
from terms import (RF, ZI, BI, B, UNDEF, Undef, Unsupported, b_not, b_and, b_or, b_xor, b_ite, mkB, bvar,
                   F0, F1, INF, NINF, NAN)
import smt


class Fork(Exception):
    def __init__(self, b, mt, mf):
        self.b = b
        self.mt = mt
        self.mf = mf


class PathEnd(Exception):
    """path finished / killed"""

    def __init__(self, why):
        self.why = why


class Bad(Exception):
    """a bad event on this path (assert failure, memory error, uncaught exception...)"""

    def __init__(self, label, msg):
        self.label = label
        self.msg = msg


class Budget(Exception):
    pass


SH = 32
OFFMASK = (1 << SH) - 1


class Obj:
    __slots__ = ('size', 'cells', 'owner', 'kind', 'ro')

    def __init__(self, size, cells, owner, kind, ro=False):
        self.size = size
        self.cells = cells
        self.owner = owner
        self.kind = kind
        self.ro = ro


class Frame:
    __slots__ = ('fn', 'r', 'code', 'ip', 'blk', 'allocas', 'ret', 'normal', 'unwind', 'exc')

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.r = list(self.r)
        f.code = self.code
        f.ip = self.ip
        f.blk = self.blk
        f.allocas = list(self.allocas)
        f.ret = self.ret
        f.normal = self.normal
        f.unwind = self.unwind
        f.exc = self.exc
        return f


def partial(op, a, b, w):
    """bit operations on words of which only some bits are initialised: ('pb', value, known bits)"""
    M = (1 << w) - 1

    def parts(x):
        if type(x) is int:
            return x & M, M
        if type(x) is tuple and x[0] == 'pb':
            return x[1], x[2]
        return 0, 0
    va, ka = parts(a)
    vb, kb = parts(b)
    if op == 'and':
        k, v = ka & kb | ka & ~va | kb & ~vb, va & vb
    elif op == 'or':
        k, v = ka & kb | va | vb, va | vb
    elif op == 'xor':
        k, v = ka & kb, va ^ vb
    elif op == 'shl' and kb == M and vb < w:
        k, v = (ka << vb) | ((1 << vb) - 1), va << vb
    elif op == 'lshr' and kb == M and vb < w:
        k, v = (ka >> vb) | (M ^ (M >> vb)), va >> vb
    else:
        return UNDEF
    k &= M
    v &= k
    return v if k == M else ('pb', v, k) if k else UNDEF


class State:
    _tok = 0

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.known = {}
        self.model = {}
        self.next_id = 1
        self.counters = {}
        self.inputs = []     # (kind, name)
        self.exc_stack = []  # caught exceptions
        self.freed = set()
        self.steps = 0
        self.last_time = None
        self.trace = []
        self.depth = 0
        self.unsure = False
        State._tok += 1
        self.tok = State._tok

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.known = dict(self.known)
        s.model = self.model
        s.next_id = self.next_id
        s.counters = dict(self.counters)
        s.inputs = list(self.inputs)
        s.exc_stack = list(self.exc_stack)
        s.freed = set(self.freed)
        s.steps = self.steps
        s.last_time = self.last_time
        s.trace = list(self.trace)
        s.depth = self.depth
        s.unsure = self.unsure
        State._tok += 1
        s.tok = State._tok
        State._tok += 1
        self.tok = State._tok
        return s


class Fn:
    __slots__ = ('name', 'nargs', 'args', 'template', 'blocks', 'labels', 'ret', 'vararg', 'phis', 'lp')


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


# ================================================================= arithmetic back-ends
class RealArith:
    """IEEE double/float interpreted as extended reals: finite values are exact rationals or
    rational functions, +-inf and nan are tracked as concrete specials; no rounding, no overflow."""
    exact = True

    def const(self, x):
        if x != x or x in (INF, NINF):
            return x
        return Fraction(x)

    def bits(self, v, size):
        """concrete value -> bit pattern"""
        if type(v) is Fraction:
            v = float(v)
        if size == 8:
            return struct.unpack('<Q', struct.pack('<d', v))[0]
        try:
            return struct.unpack('<I', struct.pack('<f', v))[0]
        except OverflowError:
            return 0x7f800000 if v > 0 else 0xff800000

    def from_bits(self, b, size):
        x = struct.unpack('<d', struct.pack('<Q', b))[0] if size == 8 else struct.unpack('<f', struct.pack('<I', b))[0]
        return self.const(x)

    def add(self, ex, st, a, b, w):
        return T.fadd(a, b)

    def sub(self, ex, st, a, b, w):
        return T.fadd(a, T.fneg(b))

    def mul(self, ex, st, a, b, w):
        if type(a) is float or type(b) is float:
            if (type(a) is float and a != a) or (type(b) is float and b != b):
                return NAN
            sa, sb = self.sign(ex, st, a), self.sign(ex, st, b)
            if sa == 0 or sb == 0:
                return NAN
            return INF if sa * sb > 0 else NINF
        return T.fmul_fin(a, b)

    def sign(self, ex, st, a):
        if type(a) is float:
            return 1 if a > 0 else -1
        if type(a) is Fraction:
            return (a > 0) - (a < 0)
        if ex.decide(st, T.cmp0(a, 'eq')):
            return 0
        return 1 if ex.decide(st, T.cmp0(a, 'gt')) else -1

    def div(self, ex, st, a, b, w):
        if type(b) is float:
            if b != b or type(a) is float:
                return NAN
            return F0
        if type(a) is float:
            if a != a:
                return NAN
            s = self.sign(ex, st, b)
            return a if s >= 0 else -a
        if type(b) is Fraction:
            z = not b
        else:
            z = ex.decide(st, T.cmp0(b, 'eq'))
        if z:
            s = self.sign(ex, st, a)
            return NAN if s == 0 else INF if s > 0 else NINF
        return T.fdiv_fin(a, b)

    def neg(self, ex, st, a, w):
        return T.fneg(a)

    def cmp(self, a, b, op):
        return T.fcmp(a, b, op)

    def isnan(self, a):
        return type(a) is float and a != a

    def trunc(self, a):
        return a

    def ext(self, a):
        return a

    def fabs(self, ex, st, a, w):
        if type(a) is RF:
            return a if not ex.decide(st, T.cmp0(a, 'lt')) else T.fneg(a)
        return abs(a)

    def from_int(self, v):
        return Fraction(v)

    def call(self, ex, st, name, args, w):
        f = getattr(self, 'f_' + name, None)
        if f is None:
            raise Unsupported('math function ' + name)
        return f(ex, st, *args)

    def f_sqrt(self, ex, st, a):
        if type(a) is float:
            return a if a == INF else NAN
        if type(a) is Fraction:
            return NAN if a < 0 else T.fsqrt(a)
        if ex.decide(st, T.cmp0(a, 'lt')):
            return NAN
        if ex.decide(st, T.cmp0(a, 'eq')):
            return F0
        return T.fsqrt(a)

    def f_fma(self, ex, st, a, b, c):
        return self.add(ex, st, self.mul(ex, st, a, b, 64), c, 64)

    def f_exp(self, ex, st, a):
        if type(a) is float:
            return F0 if a == NINF else a
        return T.fexp(a)

    def f_expm1(self, ex, st, a):
        return self.add(ex, st, self.f_exp(ex, st, a), -F1, 64)

    def f_exp2(self, ex, st, a):
        if type(a) is float:
            return F0 if a == NINF else a
        return T.fexp(T.fmul_fin(a, T.flog(Fraction(2))))

    def f_log(self, ex, st, a):
        if type(a) is float:
            return a if a == INF else NAN
        s = self.sign(ex, st, a)
        if s < 0:
            return NAN
        if s == 0:
            return NINF
        return T.flog(a)

    def f_log1p(self, ex, st, a):
        return self.f_log(ex, st, T.fadd(a, F1))

    def f_log2(self, ex, st, a):
        v = self.f_log(ex, st, a)
        return v if type(v) is float else T.fdiv_fin(v, T.flog(Fraction(2)))

    def f_log10(self, ex, st, a):
        v = self.f_log(ex, st, a)
        return v if type(v) is float else T.fdiv_fin(v, T.flog(Fraction(10)))

    def _sp(self, a):
        return type(a) is float

    def f_sin(self, ex, st, a):
        return NAN if self._sp(a) else T.odd_uf('sin', a)

    def f_cos(self, ex, st, a):
        return NAN if self._sp(a) else T.fcos(a)

    def f_tan(self, ex, st, a):
        # the cosine of a floating point number is never zero
        return NAN if self._sp(a) else T.fdiv_fin(T.odd_uf('sin', a), T.fcos(a))

    def f_asin(self, ex, st, a):
        if self._sp(a) or ex.decide(st, b_or(T.fcmp(a, F1, 'gt'), T.fcmp(a, -F1, 'lt'))):
            return NAN
        return T.odd_uf('asin', a)

    def f_acos(self, ex, st, a):
        if self._sp(a) or ex.decide(st, b_or(T.fcmp(a, F1, 'gt'), T.fcmp(a, -F1, 'lt'))):
            return NAN
        return T.uf('acos', a)

    def f_atan(self, ex, st, a):
        if self._sp(a):
            raise Unsupported('atan special')
        return T.odd_uf('atan', a)

    def f_atan2(self, ex, st, y, x):
        if self._sp(y) or self._sp(x):
            raise Unsupported('atan2 special')
        s = self.sign(ex, st, x)
        if s > 0:
            return self.f_atan(ex, st, T.fdiv_fin(y, x))
        return T.uf('atan2', y, x)

    def f_sinh(self, ex, st, a):
        if self._sp(a):
            return a
        e = T.fexp(a)
        return T.fmul_fin(Fraction(1, 2), T.fsub(e, T.fdiv_fin(F1, e)))

    def f_cosh(self, ex, st, a):
        if self._sp(a):
            return a if a != a else INF
        e = T.fexp(a)
        return T.fmul_fin(Fraction(1, 2), T.fadd(e, T.fdiv_fin(F1, e)))

    def f_tanh(self, ex, st, a):
        if self._sp(a):
            return a if a != a else Fraction(1 if a > 0 else -1)
        e = T.fexp(a)
        i = T.fdiv_fin(F1, e)
        return T.fdiv_fin(T.fsub(e, i), T.fadd(e, i))

    def f_asinh(self, ex, st, a):
        return T.odd_uf('asinh', a)

    def f_acosh(self, ex, st, a):
        return T.uf('acosh', a)

    def f_atanh(self, ex, st, a):
        return T.odd_uf('atanh', a)

    def f_erf(self, ex, st, a):
        return T.odd_uf('erf', a)

    def f_erfc(self, ex, st, a):
        return T.fsub(F1, T.odd_uf('erf', a))

    def f_cbrt(self, ex, st, a):
        return a if self._sp(a) else T.fcbrt(a)

    def f_hypot(self, ex, st, a, b):
        if self._sp(a) or self._sp(b):
            return INF if (a in (INF, NINF) or b in (INF, NINF)) else NAN
        return self.f_sqrt(ex, st, T.fadd(T.fmul_fin(a, a), T.fmul_fin(b, b)))

    def f_pow(self, ex, st, a, b):
        if self._sp(a) or self._sp(b):
            if type(b) is Fraction and b == 0:
                return F1
            raise Unsupported('pow special')
        if type(b) is Fraction:
            if b.denominator == 1 and abs(b) <= 64:
                n = int(b)
                if n < 0 and ex.decide(st, T.fcmp(a, F0, 'eq')):
                    return INF
                r = F1
                for _ in range(abs(n)):
                    r = T.fmul_fin(r, a)
                return r if n >= 0 else T.fdiv_fin(F1, r)
            if b == Fraction(1, 2):
                return self.f_sqrt(ex, st, a)
        s = self.sign(ex, st, a)
        if s > 0:
            return T.fexp(T.fmul_fin(b, T.flog(a)))
        if s == 0:
            sb = self.sign(ex, st, b)
            return F1 if sb == 0 else F0 if sb > 0 else INF
        return T.uf('pow', a, b)

    def f_fmod(self, ex, st, a, b):
        raise Unsupported('fmod')

    def f_floor(self, ex, st, a):
        if type(a) is Fraction:
            return Fraction(math.floor(a))
        if type(a) is float:
            return a
        return ex.ztrunc(a)

    def f_ceil(self, ex, st, a):
        return T.fneg(self.f_floor(ex, st, T.fneg(a)))

    def f_trunc(self, ex, st, a):
        if type(a) is float:
            return a
        return self.f_floor(ex, st, a) if ex.decide(st, T.fcmp(a, F0, 'ge')) else self.f_ceil(ex, st, a)

    def f_round(self, ex, st, a):
        if type(a) is float:
            return a
        h = Fraction(1, 2)
        if ex.decide(st, T.fcmp(a, F0, 'ge')):
            return self.f_floor(ex, st, T.fadd(a, h))
        return self.f_ceil(ex, st, T.fsub(a, h))

    def f_rint(self, ex, st, a):
        if type(a) is float:
            return a
        if type(a) is Fraction:
            return Fraction(round(a))
        h = Fraction(1, 2)
        r = self.f_floor(ex, st, T.fadd(a, h))
        if ex.decide(st, T.fcmp(T.fsub(r, a), h, 'eq')):
            raise Unsupported('rounding to even')
        return r


def f32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return INF if x > 0 else NINF


class FloatArith:
    """concrete IEEE arithmetic (used to validate the translator against native runs)"""
    exact = False

    def const(self, x):
        return x

    def bits(self, v, size):
        if size == 8:
            return struct.unpack('<Q', struct.pack('<d', v))[0]
        return struct.unpack('<I', struct.pack('<f', f32(v)))[0]

    def from_bits(self, b, size):
        return struct.unpack('<d', struct.pack('<Q', b))[0] if size == 8 else struct.unpack('<f', struct.pack('<I', b))[0]

    def _r(self, v, w):
        return f32(v) if w == 32 else v

    def add(self, ex, st, a, b, w):
        return self._r(a + b, w)

    def sub(self, ex, st, a, b, w):
        return self._r(a - b, w)

    def mul(self, ex, st, a, b, w):
        return self._r(a * b, w)

    def div(self, ex, st, a, b, w):
        if b == 0:
            if a != a or a == 0:
                return NAN
            return math.copysign(INF, a) * math.copysign(1.0, b)
        return self._r(a / b, w)

    def neg(self, ex, st, a, w):
        return -a

    def cmp(self, a, b, op):
        if a != a or b != b:
            return 1 if op == 'ne' else 0
        return int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[op])

    def isnan(self, a):
        return a != a

    def trunc(self, a):
        return f32(a)

    def ext(self, a):
        return a

    def fabs(self, ex, st, a, w):
        return abs(a)

    def from_int(self, v):
        return float(v)

    def sign(self, ex, st, a):
        return (a > 0) - (a < 0)

    def call(self, ex, st, name, args, w):
        try:
            if name == 'cbrt':
                v = math.copysign(abs(args[0]) ** (1 / 3), args[0])
            elif name == 'exp2':
                v = 2.0 ** args[0]
            elif name in ('floor', 'ceil', 'trunc', 'round', 'rint') and args[0] in (INF, NINF):
                v = args[0]
            elif name == 'round':
                v = math.copysign(float(math.floor(abs(Fraction(args[0])) + Fraction(1, 2))), args[0])
            elif name == 'rint':
                v = float(round(args[0]))
            elif name == 'fma':
                v = float(Fraction(args[0]) * Fraction(args[1]) + Fraction(args[2]))
            else:
                v = float(getattr(math, name)(*args))
        except ValueError:
            if name in ('log', 'log2', 'log10') and args[0] == 0:
                v = NINF
            else:
                v = NAN
        except OverflowError:
            v = INF
        return self._r(v, w)


# ================================================================= compiler: IR -> closures
class Compiler:
    def __init__(self, ex, src):
        self.ex = ex
        self.m = ex.mod
        self.src = src
        self.slots = {}
        self.template = []
        self.consts = {}

    def slot(self, name):
        i = self.slots.get(name)
        if i is None:
            i = len(self.template)
            self.template.append(None)
            self.slots[name] = i
        return i

    def const(self, v):
        try:
            k = (type(v).__name__, v)
            i = self.consts.get(k)
            if i is not None and not (type(v) is float and v != v):
                return i
        except TypeError:
            k = None
        i = len(self.template)
        self.template.append(v)
        if k is not None:
            self.consts[k] = i
        return i

    def operand(self, p, ty):
        x = p.peek()
        if x[0] == '%' and len(x) > 1:
            p.next()
            return self.slot(x)
        return self.const(self.ex.parse_const(p, ty))

    def compile(self):
        fn = Fn()
        fn.name = self.src.name
        head = self.src.head
        # args
        k = head.index(self.src.name + '(') + len(self.src.name)
        toks = ir.tokenize(head[k:])
        p = P(self.m, toks)
        p.expect('(')
        args = []
        fn.vararg = False
        n = 0
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    fn.vararg = True
                    p.expect(')')
                    break
                p.type()
                p.skip_attrs()
                if p.peek() and p.peek()[0] == '%':
                    nm = p.next()
                else:
                    nm = '%' + str(n)
                n += 1
                args.append(self.slot(nm))
                if p.eat(')'):
                    break
                p.expect(',')
        fn.args = args
        lls = ir.logical_lines(self.src.lines)
        blocks = []
        labels = {}
        cur = None
        # implicit entry label
        if not lls or lls[0][0] != 'label':
            cur = ['%entry!', []]
            blocks.append(cur)
            labels[cur[0]] = 0
        for kind, s in lls:
            if kind == 'label':
                cur = [s, []]
                labels[s] = len(blocks)
                blocks.append(cur)
            else:
                cur[1].append(s)
        if blocks[0][0] == '%entry!':
            # numbered entry block: label is number of args
            labels['%' + str(len(args))] = 0
        self.labels = labels
        fn.labels = labels
        fn.blocks = []
        fn.phis = []
        fn.lp = []
        for name, lines in blocks:
            phis = []
            code = []
            lp = None
            for s in lines:
                toks = ir.tokenize(s)
                res = None
                if len(toks) > 1 and toks[1] == '=' and toks[0][0] == '%':
                    res = toks[0]
                    toks = toks[2:]
                p = P(self.m, toks)
                op = p.next()
                try:
                    if op == 'phi':
                        while p.peek() in FMF:
                            p.next()
                        ty = p.type()
                        inc = {}
                        while True:
                            p.expect('[')
                            v = self.operand(p, ty)
                            p.expect(',')
                            l = p.next()
                            p.expect(']')
                            inc[labels[l]] = v
                            if not p.eat(','):
                                break
                        phis.append((self.slot(res), inc))
                        continue
                    if op == 'landingpad':
                        ty = p.type()
                        clauses = []
                        cleanup = False
                        while p.peek() is not None:
                            w = p.next()
                            if w == 'cleanup':
                                cleanup = True
                            elif w == 'catch':
                                t = p.type()
                                clauses.append(('catch', self.ex.parse_const(p, t)))
                            elif w == 'filter':
                                t = p.type()
                                clauses.append(('filter', self.ex.parse_const(p, t)))
                            else:
                                break
                        lp = (self.slot(res), clauses, cleanup)
                        continue
                    h = getattr(self, 'c_' + op, None)
                    if h is None:
                        raise Unsupported('instruction ' + op)
                    code.append(h(p, op, self.slot(res) if res else None))
                except (ParseError, Unsupported, IndexError, KeyError) as e:
                    msg = 'cannot encode: %s  [%s: %s] in %s' % (s[:200], type(e).__name__, e, self.src.name)

                    def bad(st, fr, r, msg=msg):
                        raise Unsupported(msg)
                    code.append(bad)
            fn.blocks.append(code)
            fn.phis.append(phis)
            fn.lp.append(lp)
        fn.template = self.template
        fn.nargs = len(args)
        return fn

    # ---------------------------------------------------------- integer binary
    def _ibin(self, p, op, res):
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
            p.next()
        ty = p.type()
        a = self.operand(p, ty)
        p.expect(',')
        b = self.operand(p, ty)
        ex = self.ex
        rty = self.m.resolve(ty)
        if rty[0] == 'vec':
            w = rty[2][1]
            f = ex.ibin

            def run(st, fr, r):
                r[res] = tuple(f(st, op, x, y, w) for x, y in zip(r[a], r[b]))
            return run
        w = rty[1]
        mask = (1 << w) - 1
        f = ex.ibin
        if op == 'add':
            def run(st, fr, r):
                x = r[a]
                y = r[b]
                if type(x) is int and type(y) is int:
                    r[res] = (x + y) & mask
                else:
                    r[res] = f(st, op, x, y, w)
            return run
        if op == 'sub':
            def run(st, fr, r):
                x = r[a]
                y = r[b]
                if type(x) is int and type(y) is int:
                    r[res] = (x - y) & mask
                else:
                    r[res] = f(st, op, x, y, w)
            return run
        if op == 'mul':
            def run(st, fr, r):
                x = r[a]
                y = r[b]
                if type(x) is int and type(y) is int:
                    r[res] = (x * y) & mask
                else:
                    r[res] = f(st, op, x, y, w)
            return run
        if op == 'and':
            def run(st, fr, r):
                x = r[a]
                y = r[b]
                if type(x) is int and type(y) is int:
                    r[res] = x & y
                else:
                    r[res] = f(st, op, x, y, w)
            return run

        def run(st, fr, r):
            r[res] = f(st, op, r[a], r[b], w)
        return run

    c_add = c_sub = c_mul = c_udiv = c_sdiv = c_urem = c_srem = c_shl = c_lshr = c_ashr = c_and = c_or = c_xor = _ibin

    # ---------------------------------------------------------- fp
    def _fbin(self, p, op, res):
        while p.peek() in FMF:
            p.next()
        ty = p.type()
        a = self.operand(p, ty)
        p.expect(',')
        b = self.operand(p, ty)
        ex = self.ex
        rty = self.m.resolve(ty)
        vec = rty[0] == 'vec'
        w = 32 if (rty[2] if vec else rty) == FLT else 64
        if op == 'frem':
            raise Unsupported('frem')
        f = getattr(ex.A, op[1:])
        if vec:
            def run(st, fr, r):
                r[res] = tuple(f(ex, st, ex.fpv(st, x), ex.fpv(st, y), w) for x, y in zip(r[a], r[b]))
            return run

        def run(st, fr, r):
            x = r[a]
            y = r[b]
            if x is UNDEF:
                x = ex.fresh_undef(st)
            if y is UNDEF:
                y = ex.fresh_undef(st)
            r[res] = f(ex, st, x, y, w)
        return run

    c_fadd = c_fsub = c_fmul = c_fdiv = c_frem = _fbin

    def c_fneg(self, p, op, res):
        while p.peek() in FMF:
            p.next()
        ty = p.type()
        a = self.operand(p, ty)
        ex = self.ex
        vec = self.m.resolve(ty)[0] == 'vec'

        def run(st, fr, r):
            if vec:
                r[res] = tuple(ex.A.neg(ex, st, ex.fpv(st, x), 64) for x in r[a])
            else:
                r[res] = ex.A.neg(ex, st, ex.fpv(st, r[a]), 64)
        return run

    def c_icmp(self, p, op, res):
        if p.peek() == 'samesign':
            p.next()
        pred = p.next()
        ty = p.type()
        a = self.operand(p, ty)
        p.expect(',')
        b = self.operand(p, ty)
        rty = self.m.resolve(ty)
        ex = self.ex
        if rty[0] == 'vec':
            w = 64 if rty[2][0] == 'ptr' else rty[2][1]

            def run(st, fr, r):
                r[res] = tuple(ex.icmp(st, pred, x, y, w) for x, y in zip(r[a], r[b]))
            return run
        w = 64 if rty[0] == 'ptr' else rty[1]
        f = ex.icmp
        if pred == 'eq':
            def run(st, fr, r):
                x = r[a]
                y = r[b]
                if type(x) is int and type(y) is int:
                    r[res] = 1 if x == y else 0
                else:
                    r[res] = f(st, pred, x, y, w)
            return run
        if pred == 'ne':
            def run(st, fr, r):
                x = r[a]
                y = r[b]
                if type(x) is int and type(y) is int:
                    r[res] = 1 if x != y else 0
                else:
                    r[res] = f(st, pred, x, y, w)
            return run

        def run(st, fr, r):
            r[res] = f(st, pred, r[a], r[b], w)
        return run

    def c_fcmp(self, p, op, res):
        while p.peek() in FMF:
            p.next()
        pred = p.next()
        ty = p.type()
        a = self.operand(p, ty)
        p.expect(',')
        b = self.operand(p, ty)
        ex = self.ex
        vec = self.m.resolve(ty)[0] == 'vec'

        def one(st, x, y):
            x = ex.fpv(st, x)
            y = ex.fpv(st, y)
            A = ex.A
            if pred == 'true':
                return 1
            if pred == 'false':
                return 0
            un = A.isnan(x) or A.isnan(y)
            if pred == 'uno':
                return int(un)
            if pred == 'ord':
                return int(not un)
            if un:
                return 1 if pred[0] == 'u' else 0
            return A.cmp(x, y, pred[1:])

        def run(st, fr, r):
            if vec:
                r[res] = tuple(one(st, x, y) for x, y in zip(r[a], r[b]))
            else:
                r[res] = one(st, r[a], r[b])
        return run

    def c_select(self, p, op, res):
        while p.peek() in FMF:
            p.next()
        cty = p.type()
        c = self.operand(p, cty)
        p.expect(',')
        ty = p.type()
        a = self.operand(p, ty)
        p.expect(',')
        ty2 = p.type()
        b = self.operand(p, ty2)
        ex = self.ex
        rty = self.m.resolve(ty)
        i1 = rty == I1
        veccond = self.m.resolve(cty)[0] == 'vec'
        isint = rty[0] == 'i'

        def sel(st, cv, x, y):
            if type(cv) is int:
                return x if cv else y
            if cv is UNDEF:
                cv = ex.undef_bool(st)
            if x is y:
                return x
            if i1:
                if x is UNDEF:
                    x = ex.undef_bool(st)
                if y is UNDEF:
                    y = ex.undef_bool(st)
                return b_ite(cv, x, y)
            if isint and type(x) is int and type(y) is int:
                if x == y:
                    return x
                if x == 1 and y == 0:
                    return BI(cv)
                if x == 0 and y == 1:
                    return BI(b_not(cv))
            return x if ex.decide(st, cv) else y

        def run(st, fr, r):
            cv = r[c]
            if veccond:
                r[res] = tuple(sel(st, u, x, y) for u, x, y in zip(cv, r[a], r[b]))
            else:
                r[res] = sel(st, cv, r[a], r[b])
        return run

    # ---------------------------------------------------------- casts
    def _cast(self, p, op, res):
        while p.peek() in ('nneg', 'nuw', 'nsw') or p.peek() in FMF:
            p.next()
        ty = p.type()
        a = self.operand(p, ty)
        p.expect('to')
        ty2 = p.type()
        f = self.ex.cast
        t1, t2 = self.m.resolve(ty), self.m.resolve(ty2)
        if t1[0] == 'vec' and t2[0] == 'vec' and t1[1] == t2[1]:
            def run(st, fr, r):
                r[res] = tuple(f(st, op, x, t1[2], t2[2]) for x in r[a])
            return run
        if op in ('zext', 'trunc'):
            w1 = t1[1]
            mask = (1 << t2[1]) - 1

            def run(st, fr, r):
                x = r[a]
                r[res] = (x & mask) if type(x) is int else f(st, op, x, t1, t2)
            return run
        if op in ('ptrtoint', 'inttoptr') and (t1 == I64 or t2 == I64):
            def run(st, fr, r):
                r[res] = r[a]
            return run

        def run(st, fr, r):
            r[res] = f(st, op, r[a], t1, t2)
        return run

    c_trunc = c_zext = c_sext = c_fptrunc = c_fpext = c_fptosi = c_fptoui = c_sitofp = c_uitofp = _cast
    c_ptrtoint = c_inttoptr = c_bitcast = _cast

    def c_freeze(self, p, op, res):
        ty = p.type()
        a = self.operand(p, ty)

        def run(st, fr, r):
            v = r[a]
            r[res] = v
        return run

    # ---------------------------------------------------------- memory
    def c_alloca(self, p, op, res):
        p.eat('inalloca')
        ty = p.type()
        n = self.const(1)
        nty = I32
        if p.eat(','):
            if p.peek() not in ('align', 'addrspace'):
                nty = p.type()
                n = self.operand(p, nty)
        ex = self.ex
        sz = self.m.stride(ty)

        def run(st, fr, r):
            k = r[n]
            if type(k) is not int:
                k = ex.concretize(st, k, 64)
            addr = ex.alloc(st, sz * k, 'stack')
            fr.allocas.append(addr >> SH)
            r[res] = addr
        return run

    def c_load(self, p, op, res):
        p.eat('volatile')
        if p.eat('atomic'):
            pass
        ty = p.type()
        p.expect(',')
        pt = p.type()
        a = self.operand(p, pt)
        rty = self.m.resolve(ty)
        ex = self.ex
        if rty[0] in ('i', 'f', 'ptr'):
            size = self.m.sizeof(rty)
            isf = rty[0] == 'f'
            i1 = rty == I1
            load = ex.load

            def run(st, fr, r):
                ad = r[a]
                if type(ad) is int:
                    o = st.mem.get(ad >> SH)
                    if o is not None:
                        c = o.cells.get(ad & OFFMASK)
                        if c is not None and c[0] == size and c[2] == isf and not i1:
                            r[res] = c[1]
                            return
                r[res] = load(st, ad, rty)
            return run

        def run(st, fr, r):
            r[res] = ex.load_any(st, r[a], rty)
        return run

    def c_store(self, p, op, res):
        p.eat('volatile')
        p.eat('atomic')
        ty = p.type()
        v = self.operand(p, ty)
        p.expect(',')
        pt = p.type()
        a = self.operand(p, pt)
        ex = self.ex
        rty = self.m.resolve(ty)
        if rty[0] in ('i', 'f', 'ptr'):
            size = self.m.sizeof(rty)
            isf = rty[0] == 'f'
            store = ex.store

            def run(st, fr, r):
                store(st, r[a], r[v], size, isf)
            return run

        def run(st, fr, r):
            ex.store_any(st, r[a], r[v], rty)
        return run

    def c_getelementptr(self, p, op, res):
        while p.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
            p.next()
        ty = p.type()
        p.expect(',')
        pt = p.type()
        base = self.operand(p, pt)
        off = 0
        var = []
        cur = None
        first = True
        while p.eat(','):
            ity = p.type()
            x = p.peek()
            if first:
                scale = self.m.stride(ty)
                cur = self.m.resolve(ty)
                first = False
            else:
                if cur[0] == 'struct':
                    idx = self.ex.parse_const(p, ity)
                    off += self.m.struct_layout(cur)[2][idx]
                    cur = self.m.resolve(cur[1][idx])
                    continue
                elem = cur[2]
                scale = self.m.stride(elem)
                cur = self.m.resolve(elem)
            w = ity[1]
            if x[0] == '%':
                p.next()
                var.append((self.slot(x), scale, w))
            else:
                c = self.ex.parse_const(p, ity)
                off += sgn(c, w) * scale
        M = (1 << 64) - 1
        ex = self.ex
        if not var:
            def run(st, fr, r):
                x = r[base]
                if type(x) is not int:
                    x = ex.cptr(st, x)
                r[res] = (x + off) & M
            return run
        if len(var) == 1 and var[0][2] == 64:
            s0, sc0, _ = var[0]

            def run(st, fr, r):
                x = r[base]
                i = r[s0]
                if type(x) is not int:
                    x = ex.cptr(st, x)
                if type(i) is not int:
                    i = ex.concretize(st, i, 64)
                r[res] = (x + off + i * sc0) & M
            return run

        def run(st, fr, r):
            x = r[base]
            if type(x) is not int:
                x = ex.cptr(st, x)
            x += off
            for s, sc, w in var:
                i = r[s]
                if type(i) is not int:
                    i = ex.concretize(st, i, w)
                x += sgn(i, w) * sc
            r[res] = x & M
        return run

    # ---------------------------------------------------------- aggregates
    def c_extractvalue(self, p, op, res):
        ty = p.type()
        a = self.operand(p, ty)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))

        def run(st, fr, r):
            v = r[a]
            for i in idx:
                v = UNDEF if v is UNDEF else v[i]
            r[res] = v
        return run

    def c_insertvalue(self, p, op, res):
        ty = p.type()
        a = self.operand(p, ty)
        p.expect(',')
        ty2 = p.type()
        b = self.operand(p, ty2)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        m = self.m

        def ins(t, v, idx, x):
            t = m.resolve(t)
            n = len(t[1]) if t[0] == 'struct' else t[1]
            if v is UNDEF:
                v = (UNDEF,) * n
            i = idx[0]
            et = t[1][i] if t[0] == 'struct' else t[2]
            y = x if len(idx) == 1 else ins(et, v[i], idx[1:], x)
            return v[:i] + (y,) + v[i + 1:]

        def run(st, fr, r):
            r[res] = ins(ty, r[a], idx, r[b])
        return run

    def c_extractelement(self, p, op, res):
        ty = p.type()
        a = self.operand(p, ty)
        p.expect(',')
        ity = p.type()
        i = self.operand(p, ity)
        ex = self.ex

        def run(st, fr, r):
            v = r[a]
            k = r[i]
            if type(k) is not int:
                k = ex.concretize(st, k, ity[1])
            r[res] = UNDEF if v is UNDEF else v[k]
        return run

    def c_insertelement(self, p, op, res):
        ty = p.type()
        a = self.operand(p, ty)
        p.expect(',')
        ety = p.type()
        b = self.operand(p, ety)
        p.expect(',')
        ity = p.type()
        i = self.operand(p, ity)
        n = self.m.resolve(ty)[1]

        def run(st, fr, r):
            v = r[a]
            if v is UNDEF:
                v = (UNDEF,) * n
            k = r[i]
            r[res] = v[:k] + (r[b],) + v[k + 1:]
        return run

    def c_shufflevector(self, p, op, res):
        ty = p.type()
        a = self.operand(p, ty)
        p.expect(',')
        ty2 = p.type()
        b = self.operand(p, ty2)
        p.expect(',')
        mty = p.type()
        mk = self.operand(p, mty)
        n = self.m.resolve(ty)[1]

        def run(st, fr, r):
            x, y = r[a], r[b]
            if x is UNDEF:
                x = (UNDEF,) * n
            if y is UNDEF:
                y = (UNDEF,) * n
            z = x + y
            mm = r[mk]
            if mm is UNDEF:
                mm = (0,) * n
            r[res] = tuple(UNDEF if k is UNDEF else z[k] for k in mm)
        return run

    # ---------------------------------------------------------- control flow
    def c_br(self, p, op, res):
        ex = self.ex
        if p.eat('label'):
            l = self.labels[p.next()]

            def run(st, fr, r):
                ex.goto(st, fr, l)
                return True
            return run
        ty = p.type()
        c = self.operand(p, ty)
        p.expect(',')
        p.expect('label')
        l1 = self.labels[p.next()]
        p.expect(',')
        p.expect('label')
        l2 = self.labels[p.next()]

        def run(st, fr, r):
            v = r[c]
            if type(v) is not int:
                v = ex.decide(st, v)
            ex.goto(st, fr, l1 if v else l2)
            return True
        return run

    def c_switch(self, p, op, res):
        ex = self.ex
        ty = p.type()
        a = self.operand(p, ty)
        p.expect(',')
        p.expect('label')
        d = self.labels[p.next()]
        p.expect('[')
        tab = {}
        while not p.eat(']'):
            t = p.type()
            v = ex.parse_const(p, t)
            p.expect(',')
            p.expect('label')
            tab[v] = self.labels[p.next()]
        w = ty[1]

        def run(st, fr, r):
            v = r[a]
            if type(v) is int:
                ex.goto(st, fr, tab.get(v, d))
                return True
            for k, l in tab.items():
                if ex.decide(st, ex.icmp(st, 'eq', v, k, w)):
                    ex.goto(st, fr, l)
                    return True
            ex.goto(st, fr, d)
            return True
        return run

    def c_ret(self, p, op, res):
        ex = self.ex
        ty = p.type()
        if ty == VOID:
            def run(st, fr, r):
                ex.do_ret(st, None)
                return True
            return run
        a = self.operand(p, ty)

        def run(st, fr, r):
            ex.do_ret(st, r[a])
            return True
        return run

    def c_unreachable(self, p, op, res):
        def run(st, fr, r):
            raise Bad('unreachable', 'reached unreachable code in ' + fr.fn.name)
        return run

    def c_resume(self, p, op, res):
        ty = p.type()
        a = self.operand(p, ty)
        ex = self.ex

        def run(st, fr, r):
            v = r[a]
            exc = fr.exc
            if exc is None:
                # value carries exception pointer
                exc = ex.exc_of(st, v[0])
            ex.unwind(st, exc, pop=True)
            return True
        return run

    def _call(self, p, op, res):
        ex = self.ex
        while p.peek() in CCONV or p.peek() in FMF:
            x = p.next()
            if x == 'cc':
                p.next()
        p.skip_attrs()
        while p.peek() in CCONV or p.peek() in FMF:
            p.next()
        p.skip_attrs()
        rt = p.type()
        callee = p.peek()
        fslot = None
        if callee[0] == '@':
            p.next()
        elif callee == 'asm':
            p.next()
            while p.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'):
                p.next()
            text = p.next()
            if rt == ('void',) and op == 'call' and text[:2] in ('"#', '""'):
                return lambda st, fr, r: None   # a comment or an optimisation barrier
            raise Unsupported('inline asm')
        else:
            fslot = self.operand(p, PTR)
            callee = None
        p.expect('(')
        args = []
        if not p.eat(')'):
            while True:
                t = p.type()
                if t == ('metadata',):
                    while p.peek() not in (',', ')'):
                        x = p.next()
                        if x == '(' or x == '{':
                            d = 1
                            while d:
                                y = p.next()
                                d += (y in '({') - (y in ')}')
                    args.append(self.const(0))
                else:
                    p.skip_attrs()
                    args.append(self.operand(p, t))
                if p.eat(')'):
                    break
                p.expect(',')
        normal = unw = None
        if op == 'invoke':
            while p.peek() != 'to':
                if p.next() == '[':
                    raise Unsupported('operand bundle')
            p.expect('to')
            p.expect('label')
            normal = self.labels[p.next()]
            p.expect('unwind')
            p.expect('label')
            unw = self.labels[p.next()]
        args = tuple(args)
        callee = ex.mod.aliases.get(callee, callee)
        if callee is not None:
            if callee in ex.mod.funcs and callee not in ex.overrides:
                src = ex.mod.funcs[callee]

                def run(st, fr, r):
                    fr.normal = normal
                    fr.unwind = unw
                    ex.push(st, src, [r[i] for i in args], res)
                    return True
                return run
            h = ex.intrinsic(callee)
            if h is None:
                raise Unsupported('external function ' + callee)
            if h == 'nop':
                def run(st, fr, r):
                    if normal is not None:
                        ex.goto(st, fr, normal)
                        return True
                return run

            def run(st, fr, r):
                fr.normal = normal
                fr.unwind = unw
                v = h(st, [r[i] for i in args])
                if v is ex.UNWOUND:
                    return True
                if res is not None:
                    r[res] = v
                if normal is not None:
                    ex.goto(st, fr, normal)
                    return True
            return run

        def run(st, fr, r):
            ad = r[fslot]
            if type(ad) is not int:
                ad = ex.cptr(st, ad)
            nm = ex.fn_by_addr.get(ad)
            if nm is None:
                raise Bad('memory', 'call through invalid function pointer 0x%x' % ad)
            nm = ex.mod.aliases.get(nm, nm)
            fr.normal = normal
            fr.unwind = unw
            if nm in ex.mod.funcs and nm not in ex.overrides:
                ex.push(st, ex.mod.funcs[nm], [r[i] for i in args], res)
                return True
            h = ex.intrinsic(nm)
            if h is None:
                raise Unsupported('external function ' + nm)
            if h == 'nop':
                v = None
            else:
                v = h(st, [r[i] for i in args])
            if v is ex.UNWOUND:
                return True
            if res is not None:
                r[res] = v
            if normal is not None:
                ex.goto(st, fr, normal)
                return True
        return run

    def c_call(self, p, op, res):
        return self._call(p, 'call', res)

    def c_tail(self, p, op, res):
        p.expect('call')
        return self._call(p, 'call', res)

    def c_musttail(self, p, op, res):
        p.expect('call')
        return self._call(p, 'call', res)

    def c_notail(self, p, op, res):
        p.expect('call')
        return self._call(p, 'call', res)

    def c_invoke(self, p, op, res):
        return self._call(p, 'invoke', res)

    def c_fence(self, p, op, res):
        return lambda st, fr, r: None

    def c_atomicrmw(self, p, op, res):
        p.eat('volatile')
        o = p.next()
        pt = p.type()
        a = self.operand(p, pt)
        p.expect(',')
        ty = p.type()
        b = self.operand(p, ty)
        ex = self.ex
        w = ty[1]

        def run(st, fr, r):
            old = ex.load(st, r[a], ty)
            v = r[b]
            if o == 'xchg':
                new = v
            elif o in ('add', 'sub', 'and', 'or', 'xor'):
                new = ex.ibin(st, o, old, v, w)
            else:
                raise Unsupported('atomicrmw ' + o)
            ex.store(st, r[a], new, w // 8, False)
            r[res] = old
        return run


TI_BASE = {
    '@_ZTISt9bad_alloc': '@_ZTISt9exception',
    '@_ZTISt16invalid_argument': '@_ZTISt11logic_error',
    '@_ZTISt12length_error': '@_ZTISt11logic_error',
    '@_ZTISt12out_of_range': '@_ZTISt11logic_error',
    '@_ZTISt12domain_error': '@_ZTISt11logic_error',
    '@_ZTISt11logic_error': '@_ZTISt9exception',
    '@_ZTISt13runtime_error': '@_ZTISt9exception',
    '@_ZTISt11range_error': '@_ZTISt13runtime_error',
    '@_ZTISt14overflow_error': '@_ZTISt13runtime_error',
    '@_ZTISt19bad_optional_access': '@_ZTISt9exception',
    '@_ZTISt18bad_variant_access': '@_ZTISt9exception',
    '@_ZTISt17bad_function_call': '@_ZTISt9exception',
    '@_ZTISt20bad_array_new_length': '@_ZTISt9bad_alloc',
}


class Exc:
    __slots__ = ('ptr', 'ti', 'handlers')

    def __init__(self, ptr, ti):
        self.ptr = ptr
        self.ti = ti


class Executor:
    UNWOUND = object()

    def __init__(self, mod, arith, solver, hooks=None):
        self.mod = mod
        self.A = arith
        self.solver = solver
        self.overrides = {}
        self.fn_addr = {}
        self.fn_by_addr = {}
        self.g_addr = {}
        self.g_by_id = {}
        self.ginit = {}
        self.next_gid = 1 << 20
        self.next_fn = 1 << 12
        self.intr = {}
        self.functions_used = set()
        self.instrs = 0
        self.max_steps = 4_000_000
        self.branches = 0
        self.hooks = hooks
        self.deadline = None

    # ---------------------------------------------------------- constants / globals
    def addr_of(self, name):
        name = self.mod.aliases.get(name, name)
        if name in self.mod.funcs or name in self.mod.decls:
            a = self.fn_addr.get(name)
            if a is None:
                a = (1 << 60) + self.next_fn * 16
                self.next_fn += 1
                self.fn_addr[name] = a
                self.fn_by_addr[a] = name
            return a
        a = self.g_addr.get(name)
        if a is None:
            gid = self.next_gid
            self.next_gid += 1
            a = gid << SH
            self.g_addr[name] = a
            self.g_by_id[gid] = name
        return a

    def get_obj(self, st, oid):
        o = st.mem.get(oid)
        if o is not None:
            return o
        nm = self.g_by_id.get(oid)
        if nm is None:
            return None
        g = self.mod.globals.get(nm)
        if g is None:
            return None
        t, p, const = g
        init = self.ginit.get(nm)
        if init is None:
            init = {}
            if p is not None:
                p.i = p.i if not isinstance(p, tuple) else p
                v = self.parse_const(P(self.mod, p.t[p.i:]), t)
                self.flatten(t, v, 0, init)
            else:
                # external object (e.g. typeinfo vtables): opaque zero words
                for k in range(0, 64, 8):
                    init[k] = (8, 0, False)
            self.ginit[nm] = init
        size = max(self.mod.sizeof(t), 8 if p is None else 0, 64 if p is None else 0)
        o = Obj(size, dict(init), st.tok, 'global', const)
        st.mem[oid] = o
        return o

    def flatten(self, t, v, off, out):
        t = self.mod.resolve(t)
        k = t[0]
        if k in ('i', 'f', 'ptr'):
            if v is not UNDEF:
                out[off] = (self.mod.sizeof(t), v, k == 'f')
        elif k == 'arr':
            if v is UNDEF:
                return
            s = self.mod.stride(t[2])
            for i in range(t[1]):
                self.flatten(t[2], v[i], off + i * s, out)
        elif k == 'vec':
            if v is UNDEF:
                return
            s = self.mod.sizeof(t[2])
            for i in range(t[1]):
                self.flatten(t[2], v[i], off + i * s, out)
        elif k == 'struct':
            if v is UNDEF:
                return
            offs = self.mod.struct_layout(t)[2]
            for i, e in enumerate(t[1]):
                self.flatten(e, v[i], off + offs[i], out)

    def zero(self, t):
        t = self.mod.resolve(t)
        k = t[0]
        if k == 'i' or k == 'ptr':
            return 0
        if k == 'f':
            return self.A.const(0.0)
        if k in ('arr', 'vec'):
            return (self.zero(t[2]),) * t[1]
        if k == 'struct':
            return tuple(self.zero(e) for e in t[1])
        raise Unsupported('zero of %r' % (t,))

    def parse_const(self, p, ty):
        ty = self.mod.resolve(ty)
        x = p.next()
        k = ty[0]
        if x in ('undef', 'poison'):
            return UNDEF
        if x in ('zeroinitializer', 'null', 'none'):
            return self.zero(ty)
        if x == 'true':
            return 1
        if x == 'false':
            return 0
        if k == 'i' and (x.lstrip('-').isdigit()):
            return int(x) & ((1 << ty[1]) - 1)
        if k == 'f':
            return self.A.const(ir.fp_const(x, ty))
        if x[0] == '@':
            return self.addr_of(x)
        if x[0] == 'c' and x[1:2] == '"':
            s = x[2:-1]
            out = []
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i + 1] == '\\':
                        out.append(92)
                        i += 2
                    else:
                        out.append(int(s[i + 1:i + 3], 16))
                        i += 3
                else:
                    out.extend(s[i].encode('utf-8'))
                    i += 1
            return tuple(out)
        if x == '[' or x == '{' or x == '<':
            end = {'[': ']', '{': '}', '<': '>'}[x]
            if x == '<' and p.peek() == '{':
                p.next()
                end = '}'
            vals = []
            if not p.eat(end):
                while True:
                    t = p.type()
                    vals.append(self.parse_const(p, t))
                    if p.eat(end):
                        break
                    p.expect(',')
            if x == '<' and end == '}':
                p.expect('>')
            return tuple(vals)
        if x == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                if p.next() == 'inrange' and p.peek() == '(':
                    p.skip_paren()
            p.expect('(')
            t = p.type()
            p.expect(',')
            pt = p.type()
            base = self.parse_const(p, pt)
            cur = None
            off = 0
            while p.eat(','):
                p.eat('inrange')
                it = p.type()
                i = sgn(self.parse_const(p, it), it[1])
                if cur is None:
                    off += i * self.mod.stride(t)
                    cur = self.mod.resolve(t)
                elif cur[0] == 'struct':
                    off += self.mod.struct_layout(cur)[2][i]
                    cur = self.mod.resolve(cur[1][i])
                else:
                    off += i * self.mod.stride(cur[2])
                    cur = self.mod.resolve(cur[2])
            p.expect(')')
            return (base + off) & ((1 << 64) - 1)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'trunc', 'zext'):
            p.expect('(')
            t = p.type()
            v = self.parse_const(p, t)
            p.expect('to')
            t2 = p.type()
            p.expect(')')
            if t2[0] == 'i':
                v &= (1 << t2[1]) - 1
            return v
        if x in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
            while p.peek() in ('nuw', 'nsw'):
                p.next()
            p.expect('(')
            t = p.type()
            a = self.parse_const(p, t)
            p.expect(',')
            t = p.type()
            b = self.parse_const(p, t)
            p.expect(')')
            M = (1 << t[1]) - 1
            return {'add': a + b, 'sub': a - b, 'mul': a * b, 'and': a & b, 'or': a | b, 'xor': a ^ b}[x] & M
        raise Unsupported('constant %r of type %r' % (x, ty))

    # ---------------------------------------------------------- undef
    def fresh_undef(self, st):
        if not self.A.exact:
            return 0.0
        n = st.counters.get('!undef', 0)
        st.counters['!undef'] = n + 1
        if self.hooks:
            self.hooks.uninit(st)
        return T.real_sym('!undef%d' % n)

    def undef_bool(self, st):
        if not self.A.exact:
            return 0
        n = st.counters.get('!undefb', 0)
        st.counters['!undefb'] = n + 1
        if self.hooks:
            self.hooks.uninit(st)
        return bvar('!undef%d' % n)

    def fpv(self, st, x):
        return self.fresh_undef(st) if x is UNDEF else x

    # ---------------------------------------------------------- memory
    def alloc(self, st, size, kind):
        oid = st.next_id
        st.next_id += 1
        st.mem[oid] = Obj(size, {}, st.tok, kind)
        return oid << SH

    def cptr(self, st, v):
        if type(v) is int:
            return v
        if v is UNDEF:
            raise Bad('memory', 'use of uninitialised pointer')
        return self.concretize(st, v, 64)

    def obj_at(self, st, addr, size, what):
        if type(addr) is not int:
            addr = self.cptr(st, addr)
        oid = addr >> SH
        off = addr & OFFMASK
        o = st.mem.get(oid)
        if o is None:
            o = self.get_obj(st, oid)
            if o is None:
                if addr < 4096:
                    raise Bad('memory', '%s through null pointer' % what)
                if oid in st.freed:
                    raise Bad('memory', '%s of freed memory' % what)
                raise Bad('memory', '%s at invalid address 0x%x' % (what, addr))
        if off + size > o.size:
            raise Bad('memory', '%s out of bounds (%s object of %d bytes, offset %d, size %d)' % (what, o.kind, o.size, off if off < 1 << 31 else off - (1 << 32), size))
        return o, off

    def writable(self, st, addr, size):
        o, off = self.obj_at(st, addr, size, 'write')
        if o.owner != st.tok:
            o = Obj(o.size, dict(o.cells), st.tok, o.kind, o.ro)
            st.mem[addr >> SH] = o
        return o, off

    def cell_byte(self, c, k):
        """byte k of cell c=(size,val,isf) -> int or (cell,k)"""
        v = c[1]
        if type(v) is int:
            return (v >> (8 * k)) & 255
        if c[2] and type(v) in (Fraction, float):
            return (self.A.bits(v, c[0]) >> (8 * k)) & 255
        if v is UNDEF:
            return UNDEF
        if type(v) is tuple and v[0] == 'bytes':
            return v[1][k]
        if type(v) is BI or (type(v) is ZI and v.lo >= 0 and v.hi < 256):
            return v if k == 0 else 0
        return (c, k)

    def carve(self, st, o, off, size):
        """remove everything in [off, off+size); keep outside parts of overlapping cells"""
        cells = o.cells
        if not cells:
            return
        for q in range(off - 15, off + size):
            c = cells.get(q)
            if c is None or q + c[0] <= off:
                continue
            del cells[q]
            if q >= off and q + c[0] <= off + size:
                continue
            for k in range(c[0]):
                if not off <= q + k < off + size:
                    b = self.cell_byte(c, k)
                    if type(b) is tuple:
                        b = UNDEF if False else ('part', c, k)
                        cells[q + k] = (1, b, False)
                    elif b is not UNDEF:
                        cells[q + k] = (1, b, False)

    def store(self, st, addr, v, size, isf):
        if type(addr) is not int:
            addr = self.cptr(st, addr)
        o, off = self.writable(st, addr, size)
        if o.ro:
            raise Bad('memory', 'write to constant')
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != size:
            self.carve(st, o, off, size)
        if type(v) is B:
            v = BI(v)
        cells[off] = (size, v, isf)

    def load(self, st, addr, ty):
        size = self.mod.sizeof(ty)
        o, off = self.obj_at(st, addr, size, 'read')
        isf = ty[0] == 'f'
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            if c[2] == isf:
                if ty == I1:
                    return self.to_i1(st, v)
                return v
            if v is UNDEF:
                return v
            if isf:
                # int cell read as float
                if type(v) is int:
                    return self.A.from_bits(v, size)
                if type(v) is tuple and v[0] == 'fbits':
                    return v[1]
                raise Unsupported('float view of symbolic integer')
            if type(v) in (Fraction, float):
                return self.A.bits(v, size)
            return ('fbits', v)
        # general: bytes
        bs = []
        for k in range(size):
            q = off + k
            hit = UNDEF
            for j in range(q, q - 16, -1):
                c = o.cells.get(j)
                if c is not None:
                    if j + c[0] > q:
                        hit = self.cell_byte(c, q - j)
                        if type(hit) is tuple and type(hit[0]) is tuple and c[0] == 1 and type(c[1]) is tuple and c[1][0] == 'part':
                            hit = (c[1][1], c[1][2])
                    break
            bs.append(hit)
        if any(b is UNDEF for b in bs):
            return UNDEF
        if all(type(b) is int for b in bs):
            v = 0
            for k, b in enumerate(bs):
                v |= b << (8 * k)
            if isf:
                return self.A.from_bits(v, size)
            if ty == I1:
                return v & 1
            return v
        # all bytes of the same cell, in order
        if all(type(b) is tuple for b in bs) and all(b[0] is bs[0][0] and b[1] == k for k, b in enumerate(bs)) and bs[0][0][0] == size:
            c = bs[0][0]
            if c[2] == isf:
                return c[1]
            if isf and type(c[1]) is tuple and c[1][0] == 'fbits':
                return c[1][1]
            if not isf:
                return ('fbits', c[1])
        # low byte symbolic, rest zero
        if not isf and type(bs[0]) in (BI, ZI) and all(b == 0 for b in bs[1:] if type(b) is int) and all(type(b) is int for b in bs[1:]):
            return bs[0]
        # several symbolic bytes (e.g. neighbouring bool fields copied together): a byte bundle
        if not isf and all(type(b) in (int, BI, ZI) for b in bs):
            return ('bytes', tuple(bs))
        if not isf and all(type(b) in (int, BI, ZI, tuple) for b in bs):
            return ('bytes', tuple(bs))
        raise Unsupported('mixed symbolic load')

    def to_i1(self, st, v):
        if type(v) is int:
            return v & 1
        if type(v) is BI:
            return v.b
        if type(v) is ZI:
            return self.icmp(st, 'ne', v, 0, 8)
        return v

    def load_any(self, st, addr, ty):
        ty = self.mod.resolve(ty)
        k = ty[0]
        if k in ('i', 'f', 'ptr'):
            return self.load(st, addr, ty)
        if type(addr) is not int:
            addr = self.cptr(st, addr)
        if k in ('arr', 'vec'):
            s = self.mod.stride(ty[2]) if k == 'arr' else self.mod.sizeof(ty[2])
            return tuple(self.load_any(st, addr + i * s, ty[2]) for i in range(ty[1]))
        offs = self.mod.struct_layout(ty)[2]
        return tuple(self.load_any(st, addr + offs[i], e) for i, e in enumerate(ty[1]))

    def store_any(self, st, addr, v, ty):
        ty = self.mod.resolve(ty)
        k = ty[0]
        if k in ('i', 'f', 'ptr'):
            return self.store(st, addr, v, self.mod.sizeof(ty), k == 'f')
        if type(addr) is not int:
            addr = self.cptr(st, addr)
        if k in ('arr', 'vec'):
            s = self.mod.stride(ty[2]) if k == 'arr' else self.mod.sizeof(ty[2])
            for i in range(ty[1]):
                self.store_any(st, addr + i * s, UNDEF if v is UNDEF else v[i], ty[2])
            return
        offs = self.mod.struct_layout(ty)[2]
        for i, e in enumerate(ty[1]):
            self.store_any(st, addr + offs[i], UNDEF if v is UNDEF else v[i], e)

    def memcpy(self, st, dst, src, n):
        n = self.cint(st, n, 64)
        if n == 0:
            return
        dst = self.cptr(st, dst)
        src = self.cptr(st, src)
        so, soff = self.obj_at(st, src, n, 'read')
        items = []
        cells = so.cells
        if len(cells) < n + 16:
            it = [(q, c) for q, c in cells.items() if q + c[0] > soff and q < soff + n]
        else:
            it = []
            for q in range(soff - 15, soff + n):
                c = cells.get(q)
                if c is not None and q + c[0] > soff:
                    it.append((q, c))
        for q, c in it:
            if q >= soff and q + c[0] <= soff + n:
                items.append((q - soff, c))
            else:
                for k in range(c[0]):
                    if soff <= q + k < soff + n:
                        b = self.cell_byte(c, k)
                        if b is UNDEF:
                            continue
                        if type(b) is tuple:
                            items.append((q + k - soff, (1, ('part', c, k), False)))
                        else:
                            items.append((q + k - soff, (1, b, False)))
        do, doff = self.writable(st, dst, n)
        if do.ro:
            raise Bad('memory', 'write to constant')
        self.carve(st, do, doff, n)
        dc = do.cells
        for q, c in items:
            dc[doff + q] = c

    def memset(self, st, dst, v, n):
        n = self.cint(st, n, 64)
        if n == 0:
            return
        v = self.cint(st, v, 8)
        dst = self.cptr(st, dst)
        o, off = self.writable(st, dst, n)
        self.carve(st, o, off, n)
        q = off
        e = off + n
        w8 = int.from_bytes(bytes([v]) * 8, 'little')
        while q < e:
            if q % 8 == 0 and q + 8 <= e:
                o.cells[q] = (8, w8, False)
                q += 8
            else:
                o.cells[q] = (1, v, False)
                q += 1

    def read_cstr(self, st, addr, limit=400):
        out = []
        addr = self.cptr(st, addr)
        for i in range(limit):
            b = self.load(st, addr + i, I8)
            if type(b) is not int or b == 0:
                break
            out.append(b)
        return bytes(out).decode('utf-8', 'replace')

    # ---------------------------------------------------------- decisions
    def assume_known(self, st, b, val):
        if type(b) is int:
            return
        if b.op == 'not':
            self.assume_known(st, b.a[0], not val)
            return
        st.known[b.id] = val
        if b.op == 'and' and val:
            self.assume_known(st, b.a[0], True)
            self.assume_known(st, b.a[1], True)
        elif b.op == 'or' and not val:
            self.assume_known(st, b.a[0], False)
            self.assume_known(st, b.a[1], False)

    def lookup(self, st, b):
        if b.op == 'not':
            r = self.lookup(st, b.a[0])
            return None if r is None else not r
        k = st.known.get(b.id)
        if k is not None:
            return k
        op = b.op
        if op in ('lt0', 'gt0', 'eq0'):
            rf = b.a[0]
            if op == 'eq0':
                pass
            others = [o for o in ('lt0', 'gt0', 'eq0') if o != op]
            vals = []
            for o in others:
                ob = T._btab.get((o, rf.key() if o != 'eq0' else RF(rf.num, ()).key()))
                vals.append(st.known.get(ob.id) if ob is not None else None)
            if True in vals:
                return False
            if vals[0] is False and vals[1] is False:
                if op != 'eq0' or not rf.den:
                    return True
        elif op == 'and':
            x, y = self.lookup(st, b.a[0]), self.lookup(st, b.a[1])
            if x is False or y is False:
                return False
            if x and y:
                return True
        elif op == 'or':
            x, y = self.lookup(st, b.a[0]), self.lookup(st, b.a[1])
            if x or y:
                return True
            if x is False and y is False:
                return False
        return None

    def decide(self, st, b):
        if type(b) is int:
            return bool(b)
        if b is UNDEF:
            b = self.undef_bool(st)
            if type(b) is int:
                return bool(b)
        if type(b) is BI:
            b = b.b
        if b.op == 'not':
            return not self.decide(st, b.a[0])
        k = self.lookup(st, b)
        if k is not None:
            return k
        self.branches += 1
        nb = b_not(b)
        mv = smt.eval_B(b, st.model) if st.model else None
        mt = mf = None
        if mv is True:
            ft, mt = True, st.model
        elif mv is False:
            ff, mf = True, st.model
        if mv is not True:
            r, m = self.solver.check(st.pc, [b], base=st.model)
            ft = r != 'unsat'
            mt = m
            if r == 'unknown':
                st.unsure = True
        if mv is not False:
            if not ft:
                ff, mf = True, st.model or None
            else:
                r, m = self.solver.check(st.pc, [nb], base=st.model)
                ff = r != 'unsat'
                mf = m
                if r == 'unknown':
                    st.unsure = True
        if ft and ff:
            raise Fork(b, mt, mf)
        if not ft and not ff:
            raise PathEnd('infeasible')
        self.assume_known(st, b, ft)
        return ft

    def assume(self, st, b):
        """constrain the path; raises PathEnd if infeasible"""
        if type(b) is BI:
            b = b.b
        if type(b) is int:
            if not b:
                raise PathEnd('assume')
            return
        k = self.lookup(st, b)
        if k is True:
            return
        if k is False:
            raise PathEnd('assume')
        mv = smt.eval_B(b, st.model) if st.model else None
        if mv is not True:
            r, m = self.solver.check(st.pc, [b], base=st.model)
            if r == 'unsat':
                raise PathEnd('assume')
            if r == 'unknown':
                st.unsure = True
                m = {}
            st.model = m or {}
        st.pc.append(b)
        self.assume_known(st, b, True)

    def cint(self, st, v, w):
        return v if type(v) is int else self.concretize(st, v, w)

    def concretize(self, st, v, w):
        if type(v) is int:
            return v
        if type(v) is BI:
            return 1 if self.decide(st, v.b) else 0
        if type(v) is B:
            return 1 if self.decide(st, v) else 0
        if v is UNDEF:
            raise Bad('uninit', 'uninitialised integer used')
        if type(v) is ZI:
            if not isinstance(v.rf, RF):
                return int(v.rf) & ((1 << w) - 1)
            if v.hi - v.lo <= 64:
                for x in range(v.lo, v.hi):
                    if self.decide(st, T.cmp0(T.fsub(v.rf, Fraction(x)), 'eq')):
                        return x & ((1 << w) - 1)
                return v.hi & ((1 << w) - 1)
            raise Unsupported('concretise wide symbolic integer')
        if type(v) is tuple and v[0] == 'bytes':
            r = 0
            for k, b in enumerate(v[1]):
                r |= self.concretize(st, b, 8) << (8 * k)
            return r
        raise Unsupported('concretise %r' % (v,))

    # ---------------------------------------------------------- integer semantics
    def zi(self, v, w):
        """-> (rf/Fraction, lo, hi) signed reading of constants"""
        if type(v) is int:
            s = sgn(v, w)
            return Fraction(s), s, s
        if type(v) is BI:
            raise Unsupported('bi')
        return v.rf, v.lo, v.hi

    def mkzi(self, st, rf, lo, hi, w):
        if not isinstance(rf, RF):
            return int(rf) & ((1 << w) - 1)
        if lo < -(1 << (w - 1)) or hi >= (1 << w):
            # possible wrap-around: ask whether it can happen on this path
            M = 1 << w
            if hi >= M:
                if self.decide(st, T.cmp0(T.fsub(rf, Fraction(M)), 'ge')):
                    return self.mkzi(st, T.fsub(rf, Fraction(M)), max(0, lo - M), hi - M, w)
                hi = M - 1
            if lo < -(1 << (w - 1)):
                if self.decide(st, T.cmp0(T.fadd(rf, Fraction(M >> 1)), 'lt')):
                    return self.mkzi(st, T.fadd(rf, Fraction(M)), lo + M, (M >> 1) - 1, w)
                lo = -(M >> 1)
        return ZI(rf, lo, hi)

    def ibin(self, st, op, a, b, w):
        if type(a) is int and type(b) is int:
            M = (1 << w) - 1
            if op == 'add':
                return (a + b) & M
            if op == 'sub':
                return (a - b) & M
            if op == 'mul':
                return (a * b) & M
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & M if b < w else UNDEF
            if op == 'lshr':
                return a >> b if b < w else UNDEF
            if op == 'ashr':
                return (sgn(a, w) >> b) & M if b < w else UNDEF
            if b == 0:
                raise Bad('divzero', 'integer division by zero')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            if op == 'sdiv':
                return q & M
            if op == 'srem':
                return (x - q * y) & M
        if w == 1:
            a = self.as_bool(st, a)
            b = self.as_bool(st, b)
            if op == 'and' or op == 'mul':
                return b_and(a, b)
            if op == 'or':
                return b_or(a, b)
            if op in ('xor', 'add', 'sub'):
                return b_xor(a, b)
            raise Unsupported('i1 ' + op)
        if a is UNDEF or b is UNDEF or (type(a) is tuple and a[0] == 'pb') or (type(b) is tuple and b[0] == 'pb'):
            return partial(op, a, b, w)
        if type(a) is BI or type(b) is BI:
            if op in ('and', 'or', 'xor') and all(type(x) is BI or x in (0, 1) for x in (a, b) if not isinstance(x, ZI)) and type(a) is not ZI and type(b) is not ZI:
                x = a.b if type(a) is BI else a
                y = b.b if type(b) is BI else b
                r = {'and': b_and, 'or': b_or, 'xor': b_xor}[op](x, y)
                return r if type(r) is int else BI(r)
            if op == 'and' and type(b) is int and b & 1:
                return a
            if type(a) is BI:
                a = self.concretize(st, a, w)
            if type(b) is BI:
                b = self.concretize(st, b, w)
            return self.ibin(st, op, a, b, w)
        if type(a) is tuple or type(b) is tuple:
            return self.bits_op(st, op, a, b, w)
        ra, la, ha = self.zi(a, w)
        rb, lb, hb = self.zi(b, w)
        if op == 'add':
            return self.mkzi(st, T.fadd(ra, rb), la + lb, ha + hb, w)
        if op == 'sub':
            return self.mkzi(st, T.fsub(ra, rb), la - hb, ha - lb, w)
        if op == 'mul':
            c = [la * lb, la * hb, ha * lb, ha * hb]
            return self.mkzi(st, T.fmul_fin(ra, rb), min(c), max(c), w)
        if op == 'shl' and type(b) is int:
            k = 1 << b
            return self.mkzi(st, T.fmul_fin(ra, Fraction(k)), la * k, ha * k, w)
        if op in ('udiv', 'sdiv', 'lshr', 'ashr', 'urem', 'srem') and type(b) is int:
            if op in ('lshr', 'ashr'):
                d = 1 << b
            else:
                d = b if op in ('udiv', 'urem') else sgn(b, w)
            if d == 0:
                raise Bad('divzero', 'integer division by zero')
            if d > 0:
                if la < 0:
                    if op in ('udiv', 'urem', 'lshr'):
                        neg = self.decide(st, T.cmp0(ra, 'lt'))
                        if neg:
                            raise Unsupported('unsigned division of negative')
                    elif self.decide(st, T.cmp0(ra, 'lt')):
                        if op == 'ashr':
                            raise Unsupported('ashr of negative')
                        n = ZI(T.fneg(ra), 0, -la)
                        q = self.zdiv(n.rf, d, 0, -la)
                        if op == 'sdiv':
                            return ZI(T.fneg(q.rf), -q.hi, 0)
                        return ZI(T.fadd(ra, T.fmul_fin(q.rf, Fraction(d))), -(d - 1), 0)
                    la = 0
                q = self.zdiv(ra, d, la, ha)
                if op in ('urem', 'srem'):
                    return ZI(T.fsub(ra, T.fmul_fin(q.rf, Fraction(d))), 0, d - 1)
                return q
        if op == 'and':
            if type(a) is int:
                a, b = b, a
                la, ha = lb, hb
            if type(b) is int:
                if (b & (b + 1)) == 0 and 0 <= la and ha <= b:
                    return a
                if b == (1 << w) - 1:
                    return a
                if (b & (b + 1)) == 0 and la >= 0:  # low mask
                    return self.ibin(st, 'urem', a, b + 1, w)
        if op == 'xor' and type(b) is int and b == (1 << w) - 1:
            return ZI(T.fsub(Fraction(-1), ra), -1 - ha, -1 - la)
        if op == 'or' and type(b) is int and b == 0:
            return a
        a = self.concretize(st, a, w)
        b = self.concretize(st, b, w)
        return self.ibin(st, op, a, b, w)

    def bits_op(self, st, op, a, b, w):
        """operations on bit patterns of symbolic floats / byte bundles"""
        if type(a) is tuple and a[0] == 'fbits' and type(b) is int:
            if op == 'and' and b == (1 << (w - 1)) - 1:
                return ('fbits', self.A.fabs(self, st, a[1], w))
            if op == 'xor' and b == 1 << (w - 1):
                return ('fbits', self.A.neg(self, st, a[1], w))
        if type(a) is tuple and a[0] == 'fbits' and type(b) is int and op in ('shl', 'lshr', 'and') and w % 8 == 0:
            a = ('bytes', tuple(self.tobytes(a, w // 8)))
        if type(a) is tuple and a[0] == 'bytes' and type(b) is int:
            n = w // 8
            bs = list(a[1]) + [0] * (n - len(a[1]))
            if op == 'lshr' and b % 8 == 0:
                bs = bs[b // 8:] + [0] * (b // 8)
                return self.mkbytes(bs)
            if op == 'shl' and b % 8 == 0:
                bs = [0] * (b // 8) + bs[:n - b // 8]
                return self.mkbytes(bs)
            if op == 'and':
                out = []
                for k in range(n):
                    mk = (b >> (8 * k)) & 255
                    x = bs[k]
                    out.append(0 if mk == 0 else x if mk == 255 else self.ibin(st, 'and', x, mk, 8))
                return self.mkbytes(out)
        if op in ('or', 'add', 'xor'):
            n = w // 8
            x, y = self.tobytes(a, n), self.tobytes(b, n)
            if x is not None and y is not None:
                out = []
                for u, v in zip(x, y):
                    if type(u) is int and u == 0:
                        out.append(v)
                    elif type(v) is int and v == 0:
                        out.append(u)
                    elif op != 'add':
                        out.append(self.ibin(st, op, u, v, 8))
                    else:
                        raise Unsupported('byte add')
                return self.mkbytes(out)
        if type(a) is tuple and a[0] == 'bytes':
            return self.ibin(st, op, self.concretize(st, a, w), b, w)
        if type(b) is tuple and b[0] == 'bytes':
            return self.ibin(st, op, a, self.concretize(st, b, w), w)
        raise Unsupported('bit operation %s on symbolic float bits' % op)

    def tobytes(self, v, n):
        if type(v) is int:
            return [(v >> (8 * k)) & 255 for k in range(n)]
        if type(v) is BI or (type(v) is ZI and v.lo >= 0 and v.hi < 256):
            return [v] + [0] * (n - 1)
        if type(v) is tuple and v[0] == 'bytes':
            return list(v[1]) + [0] * (n - len(v[1]))
        if type(v) is tuple and v[0] == 'fbits':
            c = (n, v[1], True)
            return [(c, k) for k in range(n)]
        return None

    def vbytes(self, v, ty):
        """bytes of a sequence of values of scalar type ty"""
        n = self.mod.sizeof(ty)
        out = []
        for x in v:
            if x is UNDEF:
                out += [UNDEF] * n
                continue
            if ty[0] == 'f':
                x = self.A.bits(x, n) if type(x) in (Fraction, float) else ('fbits', x)
            bs = self.tobytes(x, n)
            if bs is None:
                raise Unsupported('bytes of %r' % (x,))
            out += bs
        return out

    def frombytes(self, bs, ty):
        if any(b is UNDEF for b in bs):
            return UNDEF
        v = self.mkbytes(bs)
        if ty[0] == 'f':
            if type(v) is int:
                return self.A.from_bits(v, len(bs))
            if type(v) is tuple and v[0] == 'fbits':
                return v[1]
            raise Unsupported('float view of symbolic integer')
        return v

    def mkbytes(self, bs):
        if all(type(b) is int for b in bs):
            return int.from_bytes(bytes(bs), 'little')
        if type(bs[0]) is tuple:
            c = bs[0][0]
            if c[2] and c[0] == len(bs) and all(type(b) is tuple and b[0] is c and b[1] == k for k, b in enumerate(bs)):
                return ('fbits', c[1])
        elif all(type(b) is int and b == 0 for b in bs[1:]):
            return bs[0]
        return ('bytes', tuple(bs))

    def zdiv(self, n, d, lo, hi):
        if not isinstance(n, RF):
            q = int(n) // d
            return ZI(Fraction(q), q, q)
        if not n.den and all(c.denominator == 1 and c.numerator % d == 0 for c in map(Fraction, n.num.values())) \
                and all(T.ATOMS[v[0]].is_int for m in n.num for v in m):
            return ZI(T.fmul_fin(n, Fraction(1, d)), lo // d, hi // d)  # exact division
        a = T.mk_atom('zdiv', 'zdiv#%d' % len(T.ATOMS), (n, d), is_int=True, key=('zdiv', n.key(), d))
        return ZI(T.atom_rf(a), lo // d, hi // d)

    def as_bool(self, st, v):
        if type(v) is int:
            return v & 1
        if v is UNDEF:
            return self.undef_bool(st)
        if type(v) is BI:
            return v.b
        if type(v) is ZI:
            return self.icmp(st, 'ne', v, 0, 8)
        return v

    def icmp(self, st, pred, a, b, w):
        if type(a) is int and type(b) is int:
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            if pred == 'ult':
                return int(a < b)
            if pred == 'ule':
                return int(a <= b)
            if pred == 'ugt':
                return int(a > b)
            if pred == 'uge':
                return int(a >= b)
            x, y = sgn(a, w), sgn(b, w)
            return int({'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred])
        if (type(a) is tuple and a[0] == 'pb') or (type(b) is tuple and b[0] == 'pb'):
            a = UNDEF
        if a is UNDEF or b is UNDEF:
            return self.undef_bool(st)
        if w == 1 and pred in ('eq', 'ne'):
            r = b_xor(self.as_bool(st, a), self.as_bool(st, b))
            return r if pred == 'ne' else b_not(r)
        if type(a) is tuple or type(b) is tuple:
            return self.bits_cmp(st, pred, a, b, w)
        if type(a) is BI or type(b) is BI:
            if type(a) is BI and type(b) is BI:
                x = b_xor(a.b, b.b)
                if pred == 'ne':
                    return x
                if pred == 'eq':
                    return b_not(x)
                v1 = self.concretize(st, a, w)
                return self.icmp(st, pred, v1, self.concretize(st, b, w), w)
            if type(b) is int and type(a) is BI:
                t = self.icmp(st, pred, 1, b, w)
                f = self.icmp(st, pred, 0, b, w)
                return b_ite(a.b, t, f)
            if type(a) is int and type(b) is BI:
                t = self.icmp(st, pred, a, 1, w)
                f = self.icmp(st, pred, a, 0, w)
                return b_ite(b.b, t, f)
            return self.icmp(st, pred, self.concretize(st, a, w), self.concretize(st, b, w), w)
        ra, la, ha = self.zi(a, w)
        rb, lb, hb = self.zi(b, w)
        d = T.fsub(ra, rb)
        if pred in ('eq', 'ne'):
            if (la >= 0) != (lb >= 0) and (ha >= 1 << (w - 1) or hb >= 1 << (w - 1)):
                raise Unsupported('mixed sign equality')
            if ha < lb or hb < la:
                return int(pred == 'ne')
            return T.cmp0(d, pred)
        base = pred[1:]
        if pred[0] == 's':
            if ha >= 1 << (w - 1) or hb >= 1 << (w - 1):
                raise Unsupported('signed compare of large unsigned')
            return T.cmp0(d, base)
        # unsigned
        if la >= 0 and lb >= 0:
            return T.cmp0(d, base)
        na = T.cmp0(ra, 'lt') if la < 0 else 0
        nb = T.cmp0(rb, 'lt') if lb < 0 else 0
        lt = T.cmp0(d, base)
        # same sign -> direct; a neg, b nonneg -> a > b ; a nonneg, b neg -> a < b
        same = b_not(b_xor(na, nb))
        diff = na if base in ('gt', 'ge') else nb
        return b_ite(same, lt, diff)

    def bits_cmp(self, st, pred, a, b, w):
        if type(a) is tuple and a[0] == 'bytes' or type(b) is tuple and b[0] == 'bytes':
            if pred in ('eq', 'ne'):
                n = w // 8
                x, y = self.tobytes(a, n), self.tobytes(b, n)
                if x is not None and y is not None and not any(type(q) is tuple for q in x + y):
                    r = 1
                    for u, v in zip(x, y):
                        r = b_and(r, self.icmp(st, 'eq', u, v, 8))
                    return r if pred == 'eq' else b_not(r)
            return self.icmp(st, pred, self.concretize(st, a, w), self.concretize(st, b, w), w)
        # sign tests on float bits
        if type(a) is tuple and a[0] == 'fbits' and type(b) is int:
            v = a[1]
            if pred == 'slt' and b == 0:
                return self.A.cmp(v, self.A.const(0.0), 'lt')
            if pred == 'sgt' and b == (1 << w) - 1:
                return self.A.cmp(v, self.A.const(0.0), 'ge')
            if pred in ('eq', 'ne'):
                c = self.A.from_bits(b, w // 8)
                if type(c) is float and c != c:
                    return int(pred == 'ne')
                return self.A.cmp(v, c, pred)
        raise Unsupported('comparison of symbolic float bits ' + pred)

    def cast(self, st, op, v, t1, t2):
        if v is UNDEF:
            if op in ('zext', 'sext') and False:
                return 0
            return UNDEF
        if op == 'trunc':
            w = t2[1]
            if type(v) is int:
                return v & ((1 << w) - 1)
            if type(v) is BI:
                return v.b if w == 1 else v
            if type(v) is ZI:
                if w == 1:
                    if v.lo >= 0 and v.hi <= 1:
                        return self.icmp(st, 'ne', v, 0, t1[1])
                    return self.concretize(st, v, t1[1]) & 1
                if -(1 << (w - 1)) <= v.lo and v.hi < (1 << w):
                    return v
                h = 1 << (w - 1)
                if v.lo < -h and self.decide(st, T.cmp0(T.fadd(v.rf, Fraction(h)), 'ge')):
                    v = ZI(v.rf, -h, v.hi)
                    if v.hi < (1 << w):
                        return v
                    if self.decide(st, T.cmp0(T.fsub(v.rf, Fraction(h)), 'lt')):
                        return ZI(v.rf, -h, h - 1)
                if -(1 << (w - 1)) <= v.lo:
                    M = 1 << w
                    if v.hi < 4 * M:
                        return self.mkzi(st, v.rf, v.lo, v.hi, w)
                    q = self.zdiv(v.rf, M, max(v.lo, 0), v.hi)
                    if v.lo >= 0:
                        return ZI(T.fsub(v.rf, T.fmul_fin(q.rf, Fraction(M))), 0, M - 1)
                return self.concretize(st, v, t1[1]) & ((1 << w) - 1)
            if type(v) is tuple and v[0] == 'bytes':
                if w == 1:
                    return self.as_bool(st, self.ibin(st, 'and', v[1][0], 1, 8))
                return self.mkbytes(list(v[1][:w // 8]))
            raise Unsupported('trunc of %r' % (v,))
        if op == 'zext':
            if type(v) is int:
                return v
            if type(v) is B:
                return BI(v)
            if type(v) is ZI and v.lo < 0:
                w = t1[1]
                if self.decide(st, T.cmp0(v.rf, 'lt')):
                    return ZI(T.fadd(v.rf, Fraction(1 << w)), (1 << w) + v.lo, (1 << w) - 1)
                return ZI(v.rf, 0, v.hi)
            if type(v) is tuple and v[0] in ('fbits', 'bytes'):
                n = t1[1] // 8
                return ('bytes', tuple(self.tobytes(v, n) + [0] * (t2[1] // 8 - n)))
            return v
        if op == 'sext':
            w1, w2 = t1[1], t2[1]
            if type(v) is int:
                return sgn(v, w1) & ((1 << w2) - 1)
            if type(v) is B:
                return (1 << w2) - 1 if self.decide(st, v) else 0
            if type(v) is ZI and v.hi >= 1 << (w1 - 1):
                if self.decide(st, T.cmp0(T.fsub(v.rf, Fraction(1 << (w1 - 1))), 'ge')):
                    return ZI(T.fsub(v.rf, Fraction(1 << w1)), -(1 << (w1 - 1)), -1)
                return ZI(v.rf, v.lo, (1 << (w1 - 1)) - 1)
            return v
        if op in ('sitofp', 'uitofp'):
            if type(v) is B:
                v = BI(v)
            if type(v) is BI:
                v = self.concretize(st, v, t1[1])
            if type(v) is int:
                x = sgn(v, t1[1]) if op == 'sitofp' else v
                x = self.A.from_int(x)
                return self.A.trunc(x) if t2 == FLT else x
            if type(v) is ZI:
                if op == 'uitofp' and v.lo < 0:
                    if self.decide(st, T.cmp0(v.rf, 'lt')):
                        return T.fadd(v.rf, Fraction(1 << t1[1]))
                if op == 'sitofp' and v.hi >= 1 << (t1[1] - 1):
                    W = 1 << t1[1]
                    if self.decide(st, T.cmp0(T.fsub(v.rf, Fraction(W >> 1)), 'ge')):
                        return T.fsub(v.rf, Fraction(W))
                return v.rf
            raise Unsupported('sitofp of %r' % (v,))
        if op in ('fptosi', 'fptoui'):
            w = t2[1]
            M = (1 << w) - 1
            if type(v) is float or type(v) is Fraction:
                if v != v or v in (INF, NINF):
                    return UNDEF
                x = int(v)
                if (op == 'fptosi' and not -(1 << (w - 1)) <= x < (1 << (w - 1))) or (op == 'fptoui' and not 0 <= x <= M):
                    return UNDEF
                return x & M
            if self.decide(st, T.cmp0(v, 'lt')):
                n = self.ztrunc(T.fneg(v))
                return ZI(T.fneg(n), -(1 << (w - 1)), 0)
            return ZI(self.ztrunc(v), 0, (1 << (w - 1)) - 1)
        if op == 'fptrunc':
            return self.A.trunc(v)
        if op == 'fpext':
            return self.A.ext(v)
        if op in ('ptrtoint', 'inttoptr'):
            if type(v) is int and t2[0] == 'i':
                return v & ((1 << t2[1]) - 1)
            return v
        if op == 'bitcast':
            if t1[0] == 'f' and t2[0] == 'i':
                if type(v) in (Fraction, float):
                    return self.A.bits(v, t2[1] // 8)
                return ('fbits', v)
            if t1[0] == 'i' and t2[0] == 'f':
                if type(v) is int:
                    return self.A.from_bits(v, t1[1] // 8)
                if type(v) is tuple and v[0] == 'fbits':
                    return v[1]
                raise Unsupported('bitcast')
            if t1[0] == 'vec' and t2[0] == 'i':
                if all(type(x) is int for x in v):
                    ew = t1[2][1]
                    r = 0
                    for k, x in enumerate(v):
                        r |= x << (k * ew)
                    return r
                return self.mkbytes(self.vbytes(v, t1[2]))
            if t2[0] == 'vec' and t1[0] in ('i', 'f', 'vec'):
                bs = self.vbytes(v, t1[2]) if t1[0] == 'vec' else self.vbytes((v,), t1)
                n = self.mod.sizeof(t2[2])
                return tuple(self.frombytes(bs[i:i + n], t2[2]) for i in range(0, len(bs), n))
            if t1 == t2 or t1[0] == 'ptr':
                return v
            raise Unsupported('bitcast %r %r' % (t1, t2))
        raise Unsupported(op)

    def ztrunc(self, v):
        a = T.mk_atom('zfloor', 'floor#%d' % len(T.ATOMS), (v,), is_int=True, key=('zfloor', v.key()))
        return T.atom_rf(a)

    # ---------------------------------------------------------- control
    def compiled(self, src):
        f = src.compiled
        if f is None:
            f = Compiler(self, src).compile()
            src.compiled = f
            self.functions_used.add(src.name)
        return f

    def push(self, st, src, args, ret):
        fn = src.compiled
        if fn is None:
            fn = self.compiled(src)
        f = Frame()
        f.fn = fn
        r = list(fn.template)
        n = fn.nargs
        for i, s in enumerate(fn.args):
            r[s] = args[i]
        f.r = r
        f.blk = 0
        f.code = fn.blocks[0]
        f.ip = 0
        f.allocas = []
        f.ret = ret
        f.normal = None
        f.unwind = None
        f.exc = None
        st.frames.append(f)
        if len(st.frames) > 400:
            raise Bad('recursion', 'call depth exceeds 400')

    def goto(self, st, fr, l):
        fn = fr.fn
        phis = fn.phis[l]
        if phis:
            prev = fr.blk
            r = fr.r
            vals = [r[inc[prev]] for s, inc in phis]
            for (s, inc), v in zip(phis, vals):
                r[s] = v
        fr.blk = l
        fr.code = fn.blocks[l]
        fr.ip = 0

    def pop_frame(self, st):
        f = st.frames.pop()
        for oid in f.allocas:
            st.mem.pop(oid, None)
            st.freed.add(oid)
        return f

    def do_ret(self, st, v):
        f = self.pop_frame(st)
        if not st.frames:
            raise PathEnd('done')
        c = st.frames[-1]
        if f.ret is not None:
            c.r[f.ret] = v
        if c.normal is not None:
            l = c.normal
            c.normal = None
            c.unwind = None
            self.goto(st, c, l)
        else:
            c.ip += 1

    # exceptions
    def ti_name(self, addr):
        if addr == 0:
            return None
        return self.g_by_id.get(addr >> SH)

    def ti_bases(self, st, name):
        out = {name}
        todo = [name]
        while todo:
            n = todo.pop()
            b = TI_BASE.get(n)
            bs = [b] if b else []
            g = self.mod.globals.get(n)
            if g is not None and g[1] is not None:
                try:
                    v = self.parse_const(P(self.mod, g[1].t[g[1].i:]), g[0])
                    for x in v[2:]:
                        if type(x) is int:
                            bn = self.ti_name(x)
                            if bn and bn.startswith('@_ZTI'):
                                bs.append(bn)
                except (ParseError, Unsupported):
                    pass
            for b in bs:
                if b not in out:
                    out.add(b)
                    todo.append(b)
        return out

    def throw(self, st, ti_addr, ptr):
        exc = Exc(ptr, ti_addr)
        st.counters['!exc'] = st.counters.get('!exc', 0) + 1
        self.unwind(st, exc, pop=False)

    def throw_named(self, st, ti):
        p = self.alloc(st, 16, 'exception')
        self.throw(st, self.addr_of(ti) if (ti in self.mod.globals or ti in self.g_addr) else self.ext_ti(ti), p)

    def ext_ti(self, ti):
        if ti not in self.mod.globals:
            self.mod.globals[ti] = [PTR, None, True]
        return self.addr_of(ti)

    def exc_of(self, st, ptr):
        for e in reversed(st.exc_stack):
            if e.ptr == ptr:
                return e
        raise Unsupported('resume of unknown exception')

    def unwind(self, st, exc, pop):
        """find a landing pad; pop=True when the current frame itself resumes"""
        if pop:
            self.pop_frame(st)
        names = self.ti_bases(st, self.ti_name(exc.ti)) if exc.ti else set()
        while st.frames:
            fr = st.frames[-1]
            if fr.unwind is not None:
                l = fr.unwind
                lp = fr.fn.lp[l]
                slot, clauses, cleanup = lp
                sel = None
                for kind, v in clauses:
                    if kind == 'catch':
                        if v == 0 or self.ti_name(v) in names:
                            sel = self.typeid(v)
                            break
                    else:
                        sel = (1 << 32) - 1
                        break
                if sel is not None or cleanup:
                    fr.normal = None
                    fr.unwind = None
                    fr.exc = exc
                    if exc not in st.exc_stack:
                        st.exc_stack.append(exc)
                    self.goto(st, fr, l)
                    fr.r[slot] = (exc.ptr, sel if sel is not None else 0)
                    return
            self.pop_frame(st)
        raise Bad('exception', 'uncaught exception %s' % self.ti_name(exc.ti))

    def typeid(self, addr):
        if addr == 0:
            return 0x7ffffff0
        return (addr >> SH) & 0x7fffffff

    # ---------------------------------------------------------- main loop
    def run(self, st):
        """run until a Fork / PathEnd / Bad is raised"""
        frames = st.frames
        max_steps = self.max_steps
        while True:
            fr = frames[-1]
            code = fr.code
            r = fr.r
            ip = fr.ip
            n0 = ip
            while True:
                fr.ip = ip
                if code[ip](st, fr, r):
                    break
                ip += 1
            k = ip - n0 + 1
            self.instrs += k
            st.steps += k
            if st.steps > max_steps:
                raise Budget('steps')
            if self.deadline and (self.instrs & 1023) < k and time.time() > self.deadline:
                raise Budget('time')

    def intrinsic(self, name):
        h = self.intr.get(name)
        if h is None:
            import intr
            h = intr.lookup(self, name)
            self.intr[name] = h
        return h
