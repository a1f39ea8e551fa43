"""Models of everything outside the translated IR: LLVM intrinsics, libm, allocation, C++ ABI,
and the harness interface vf_*.  This file is the complete list of stubs."""
import re
from fractions import Fraction
import terms as T
from terms import RF, ZI, BI, B, UNDEF, Unsupported, b_not, b_and, b_or, b_ite, bvar, F0, F1, INF, NINF, NAN
from ex import Bad, PathEnd, SH, sgn
import ir

LIBM = {}
for n in '''sqrt exp exp2 expm1 log log2 log10 log1p sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh erf erfc
cbrt floor ceil trunc round rint nearbyint'''.split():
    k = 'rint' if n == 'nearbyint' else n
    LIBM['@' + n] = (k, 64)
    LIBM['@' + n + 'f'] = (k, 32)
for n in 'pow atan2 hypot fmod'.split():
    LIBM['@' + n] = (n, 64)
    LIBM['@' + n + 'f'] = (n, 32)

NOP = [
    r'@llvm\.lifetime\.', r'@llvm\.assume', r'@llvm\.experimental\.noalias', r'@llvm\.dbg\.', r'@llvm\.prefetch',
    r'@llvm\.invariant', r'@llvm\.donothing', r'@_ZNSt\w+(error|argument|exception|out_of_range|alloc)\w*[CD]\dE', r'@_ZNSt9exceptionD',
    r'@_ZNSt13runtime_errorC', r'@_ZNSt11logic_errorC', r'@_ZNSt8ios_base4InitC1Ev', r'@_ZNSt8ios_base4InitD1Ev',
    r'@__cxa_atexit', r'@llvm\.var\.annotation', r'@__cxa_free_exception', r'@__cxa_guard_abort', r'@_ZNSt6localeD', r'@_ZNSt6localeC',
]
NOPRE = re.compile('|'.join(NOP))

THROW = {
    '@_ZSt20__throw_length_errorPKc': '@_ZTISt12length_error',
    '@_ZSt17__throw_bad_allocv': '@_ZTISt9bad_alloc',
    '@_ZSt28__throw_bad_array_new_lengthv': '@_ZTISt20bad_array_new_length',
    '@_ZSt25__throw_bad_function_callv': '@_ZTISt17bad_function_call',
    '@_ZSt20__throw_out_of_rangePKc': '@_ZTISt12out_of_range',
    '@_ZSt24__throw_out_of_range_fmtPKcz': '@_ZTISt12out_of_range',
    '@_ZSt24__throw_invalid_argumentPKc': '@_ZTISt16invalid_argument',
    '@_ZSt19__throw_logic_errorPKc': '@_ZTISt11logic_error',
    '@_ZSt21__throw_runtime_errorPKc': '@_ZTISt13runtime_error',
    '@_ZSt27__throw_bad_optional_accessv': '@_ZTISt19bad_optional_access',
}


def lookup(ex, name):
    A = ex.A
    n = name

    if n in LIBM:
        f, w = LIBM[n]

        def h(st, a):
            return A.call(ex, st, f, [ex.fpv(st, x) for x in a], w)
        return h
    if NOPRE.match(n):
        return 'nop'
    if n in THROW:
        ti = THROW[n]

        def h(st, a):
            ex.throw_named(st, ti)
            return ex.UNWOUND
        return h
    m = re.match(r'@llvm\.([a-z.\d]*?[a-z])((?:\.(?:v\d+)?[fpi]\d+)*)$', n)
    if n.startswith('@llvm.'):
        return llvm(ex, n)
    if n in ('@malloc', '@_Znwm', '@_Znam'):
        return lambda st, a: ex.alloc(st, alloc_size(ex, st, a[0], n), 'heap')
    if n in ('@_ZnwmRKSt9nothrow_t', '@_ZnamRKSt9nothrow_t', '@_ZnwmSt11align_val_t', '@_ZnamSt11align_val_t'):
        return lambda st, a: ex.alloc(st, alloc_size(ex, st, a[0], n), 'heap')
    if n == '@calloc':
        def h(st, a):
            k = ex.cint(st, a[0], 64) * ex.cint(st, a[1], 64)
            p = ex.alloc(st, k, 'heap')
            ex.memset(st, p, 0, k)
            return p
        return h
    if n in ('@aligned_alloc', '@memalign'):
        return lambda st, a: ex.alloc(st, ex.cint(st, a[1], 64), 'heap')
    if n == '@realloc':
        def h(st, a):
            p = ex.cptr(st, a[0])
            k = alloc_size(ex, st, a[1], n)
            q = ex.alloc(st, k, 'heap')
            if p:
                o = ex.get_obj(st, p >> SH)
                if o is None or p & 0xffffffff:
                    raise Bad('memory', 'realloc of invalid pointer')
                ex.memcpy(st, q, p, min(o.size, k))
                do_free(ex, st, p)
            return q
        return h
    if n in ('@free', '@_ZdlPv', '@_ZdlPvm', '@_ZdaPv', '@_ZdaPvm', '@_ZdlPvSt11align_val_t', '@_ZdlPvmSt11align_val_t', '@_ZdaPvSt11align_val_t'):
        return lambda st, a: do_free(ex, st, a[0])
    if n in ('@memcpy', '@memmove'):
        def h(st, a):
            ex.memcpy(st, a[0], a[1], a[2])
            return a[0]
        return h
    if n == '@memset':
        def h(st, a):
            ex.memset(st, a[0], ex.ibin(st, 'and', a[1], 255, 32), a[2])
            return a[0]
        return h
    if n in ('@memcmp', '@bcmp'):
        def h(st, a):
            k = ex.cint(st, a[2], 64)
            p, q = ex.cptr(st, a[0]), ex.cptr(st, a[1])
            for i in range(k):
                x = ex.cint(st, ex.load(st, p + i, ir.I8), 8)
                y = ex.cint(st, ex.load(st, q + i, ir.I8), 8)
                if x != y:
                    return 1 if x > y else (1 << 32) - 1
            return 0
        return h
    if n == '@strlen':
        def h(st, a):
            p = ex.cptr(st, a[0])
            i = 0
            while ex.cint(st, ex.load(st, p + i, ir.I8), 8):
                i += 1
            return i
        return h
    if n == '@__assert_fail':
        def h(st, a):
            raise Bad('assert', 'assertion failed: ' + ex.read_cstr(st, a[0]))
        return h
    if n in ('@abort', '@_ZSt9terminatev', '@__clang_call_terminate', '@exit', '@__cxa_pure_virtual', '@__stack_chk_fail', '@_ZSt21__glibcxx_assert_failPKciS0_S0_', '@__cxa_throw_bad_array_new_length'):
        def h(st, a):
            raise Bad('abort', 'program terminates via ' + n[1:])
        return h
    if n == '@__cxa_allocate_exception':
        return lambda st, a: ex.alloc(st, max(16, ex.cint(st, a[0], 64)), 'exception')
    if n == '@__cxa_throw':
        def h(st, a):
            ex.throw(st, ex.cptr(st, a[1]), ex.cptr(st, a[0]))
            return ex.UNWOUND
        return h
    if n == '@__cxa_begin_catch':
        def h(st, a):
            return a[0]
        return h
    if n == '@__cxa_end_catch':
        def h(st, a):
            if st.exc_stack:
                st.exc_stack.pop()
        return h
    if n == '@__cxa_rethrow':
        def h(st, a):
            ex.unwind(st, st.exc_stack[-1], pop=False)
            return ex.UNWOUND
        return h
    if n == '@__cxa_guard_acquire':
        def h(st, a):
            p = ex.cptr(st, a[0])
            v = ex.load(st, p, ir.I8)
            return 0 if v == 1 else 1
        return h
    if n == '@__cxa_guard_release':
        return lambda st, a: ex.store(st, ex.cptr(st, a[0]), 1, 1, False)
    if n in ('@_ZNSt6chrono3_V212system_clock3nowEv', '@_ZNSt6chrono3_V212steady_clock3nowEv'):
        return lambda st, a: ex.hooks.clock(ex, st)
    if n.startswith('@_ZNKSt') and n.endswith('4whatEv'):
        def h(st, a):
            p = ex.alloc(st, 8, 'heap')
            ex.store(st, p, 0, 1, False)
            return p
        return h
    if n in ('@_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base', '@_ZSt28_Rb_tree_rebalance_for_erase'):
        return None
    if n.startswith('@vf_'):
        f = getattr(ex.hooks, n[1:], None)
        if f is None:
            return None
        return lambda st, a: getattr(ex.hooks, n[1:])(ex, st, *a)
    return None


def alloc_size(ex, st, v, n):
    k = ex.cint(st, v, 64)
    if k > 1 << 31:
        raise Bad('memory', 'huge allocation of %d bytes' % k)
    return k


def do_free(ex, st, p):
    p = ex.cptr(st, p)
    if p == 0:
        return
    oid = p >> SH
    o = st.mem.get(oid)
    if o is None:
        raise Bad('memory', 'double free' if oid in st.freed else 'free of invalid pointer')
    if o.kind != 'heap' or p & 0xffffffff:
        raise Bad('memory', 'free of %s memory' % o.kind)
    del st.mem[oid]
    st.freed.add(oid)


def each(f):
    """lift over vectors"""
    def g(st, a):
        if any(type(x) is tuple and (not x or x[0] not in ('fbits', 'bytes')) for x in a):
            k = max(len(x) for x in a if type(x) is tuple)
            return tuple(f(st, [x[i] if type(x) is tuple else x for x in a]) for i in range(k))
        return f(st, a)
    return g


def llvm(ex, n):
    A = ex.A
    parts = n[6:].split('.')
    suf = []
    while parts and re.match(r'^(v\d+)?[fpi]\d+$', parts[-1]):
        suf.append(parts.pop())
    base = '.'.join(parts)
    s0 = suf[-1] if suf else ''
    m = re.match(r'(v\d+)?([fip])(\d+)', s0)
    w = int(m.group(3)) if m else 64

    if base in ('memcpy', 'memmove', 'memcpy.inline'):
        return lambda st, a: ex.memcpy(st, a[0], a[1], a[2])
    if base in ('memset', 'memset.inline'):
        return lambda st, a: ex.memset(st, a[0], a[1], a[2])
    if base in ('sqrt', 'exp', 'exp2', 'log', 'log2', 'log10', 'sin', 'cos', 'pow', 'floor', 'ceil', 'fma', 'tan', 'trunc', 'round', 'rint'):
        return each(lambda st, a: A.call(ex, st, base, [ex.fpv(st, x) for x in a], w))
    if base in ('nearbyint', 'roundeven'):
        return each(lambda st, a: A.call(ex, st, 'rint', [ex.fpv(st, a[0])], w))
    if base in ('lround', 'llround', 'lrint', 'llrint'):
        iw = int(suf[-1][1:])
        fw = int(suf[0][1:])

        def h(st, a):
            v = A.call(ex, st, 'round' if 'round' in base else 'rint', [ex.fpv(st, a[0])], fw)
            if type(v) is RF:
                return ZI(v, -(1 << (iw - 1)), (1 << (iw - 1)) - 1)
            return ex.cast(st, 'fptosi', v, ('f', fw), ('i', iw))
        return h
    if base == 'fmuladd':
        return each(lambda st, a: A.add(ex, st, A.mul(ex, st, ex.fpv(st, a[0]), ex.fpv(st, a[1]), w), ex.fpv(st, a[2]), w))
    if base == 'fabs':
        return each(lambda st, a: A.fabs(ex, st, ex.fpv(st, a[0]), w))
    if base == 'copysign':
        def h(st, a):
            x, y = ex.fpv(st, a[0]), ex.fpv(st, a[1])
            v = A.fabs(ex, st, x, w)
            if not A.exact:
                import math
                return math.copysign(v, y)
            if A.isnan(y):
                return v
            return A.neg(ex, st, v, w) if ex.decide(st, A.cmp(y, A.const(0.0), 'lt')) else v
        return each(h)
    if base in ('minnum', 'maxnum', 'minimum', 'maximum'):
        def h(st, a):
            x, y = ex.fpv(st, a[0]), ex.fpv(st, a[1])
            if A.isnan(x):
                return y
            if A.isnan(y):
                return x
            c = ex.decide(st, A.cmp(x, y, 'lt' if 'min' in base else 'gt'))
            return x if c else y
        return each(h)
    if base == 'powi':
        def h(st, a):
            return A.call(ex, st, 'pow', [ex.fpv(st, a[0]), A.from_int(sgn(ex.cint(st, a[1], 32), 32))], w)
        return h
    if base in ('umin', 'umax', 'smin', 'smax'):
        pred = base[0] + ('lt' if 'min' in base else 'gt')

        def h(st, a):
            if a[0] is UNDEF or a[1] is UNDEF:
                return UNDEF
            c = ex.icmp(st, pred, a[0], a[1], w)
            if type(c) is int:
                return a[0] if c else a[1]
            return a[0] if ex.decide(st, c) else a[1]
        return each(h)
    if base == 'abs':
        def h(st, a):
            c = ex.icmp(st, 'slt', a[0], 0, w)
            return ex.ibin(st, 'sub', 0, a[0], w) if ex.decide(st, c) else a[0]
        return each(h)
    if base == 'is.fpclass':
        def h(st, a):
            x = ex.fpv(st, a[0])
            k = a[1]
            if A.isnan(x):
                return 1 if k & 3 else 0
            if type(x) is float and x in (INF, NINF):
                return 1 if (k & (0x200 if x > 0 else 0x4)) else 0
            z = A.const(0.0)
            if type(x) is float or type(x) is Fraction:
                if x == 0:
                    return 1 if k & 0x60 else 0
                return 1 if (k & (0x180 if x > 0 else 0x18)) else 0
            pos = (k & 0x180) == 0x180
            neg = (k & 0x18) == 0x18
            zer = (k & 0x60) == 0x60
            r = 0
            for f, op in ((pos, 'gt'), (neg, 'lt'), (zer, 'eq')):
                if f:
                    r = b_or(r, A.cmp(x, z, op))
            if pos and neg and zer:
                return 1
            return r
        return h
    if base in ('uadd.with.overflow', 'sadd.with.overflow', 'usub.with.overflow', 'ssub.with.overflow', 'umul.with.overflow', 'smul.with.overflow'):
        op = base[1:4]
        signed = base[0] == 's'

        def h(st, a):
            x, y = ex.cint(st, a[0], w), ex.cint(st, a[1], w)
            if signed:
                x, y = sgn(x, w), sgn(y, w)
            v = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
            M = 1 << w
            ov = not (-(M >> 1) <= v < (M >> 1)) if signed else not 0 <= v < M
            return (v % M, int(ov))
        return h
    if base in ('uadd.sat', 'usub.sat'):
        def h(st, a):
            x, y = ex.cint(st, a[0], w), ex.cint(st, a[1], w)
            return min(x + y, (1 << w) - 1) if base[1] == 'a' else max(x - y, 0)
        return h
    if base in ('ctlz', 'cttz', 'ctpop', 'bswap'):
        def h(st, a):
            x = ex.cint(st, a[0], w)
            if base == 'ctpop':
                return bin(x).count('1')
            if base == 'ctlz':
                return w - x.bit_length()
            if base == 'cttz':
                return w if x == 0 else (x & -x).bit_length() - 1
            return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
        return h
    if base in ('fshl', 'fshr'):
        def h(st, a):
            x, y, k = (ex.cint(st, v, w) for v in a)
            k %= w
            M = (1 << w) - 1
            v = (x << w) | y
            return ((v << k) >> w) & M if base == 'fshl' else (v >> k) & M
        return h
    if base == 'eh.typeid.for':
        return lambda st, a: ex.typeid(a[0])
    if base in ('stacksave',):
        return lambda st, a: 0
    if base in ('stackrestore',):
        return lambda st, a: None
    if base in ('expect', 'expect.with.probability', 'launder.invariant.group', 'strip.invariant.group', 'ssa.copy'):
        return lambda st, a: a[0]
    if base == 'objectsize':
        return lambda st, a: (1 << w) - 1
    if base == 'is.constant':
        return lambda st, a: 0
    if base == 'trap':
        def h(st, a):
            raise Bad('abort', 'trap')
        return h
    if base == 'threadlocal.address':
        return lambda st, a: a[0]
    if base == 'load.relative':
        def h(st, a):
            p = ex.cptr(st, a[0])
            off = ex.cint(st, a[1], 64)
            d = ex.cint(st, ex.load(st, p + off, ir.I32), 32)
            return p + sgn(d, 32)
        return h
    if base.startswith('vector.reduce.'):
        op = base.split('.')[2]

        def h(st, a):
            if op in ('fadd', 'fmul'):
                v = a[0]
                for x in a[1]:
                    v = getattr(A, op[1:])(ex, st, v, ex.fpv(st, x), w)
                return v
            v = a[0][0]
            for x in a[0][1:]:
                v = ex.ibin(st, op, v, x, w)
            return v
        return h
    return None
