"""Exploration of one harness function: path enumeration by the symbolic executor, obligations decided by the
SMT solver, counterexamples replayed on the natively compiled library."""
import os
import re
import random
import subprocess
import time
import math
from fractions import Fraction
import terms as T
from terms import RF, ZI, BI, B, UNDEF, Unsupported, b_not, b_and, b_or, bvar, F0, F1, INF, NINF
from poly import TooBig
import smt
from known import match
from ex import Executor, State, RealArith, FloatArith, Fork, PathEnd, Bad, Budget

TOL = Fraction(2, 10 ** 6)


class Hooks:
    def __init__(self, job):
        self.job = job

    def uninit(self, st):
        st.counters['!uninit'] = 1

    def key(self, ex, st, nptr):
        n = ex.read_cstr(st, nptr)
        return n, self.nkey(st, n)

    def nkey(self, st, n):
        k = st.counters.get(n, 0)
        return n if k == 0 else '%s#%d' % (n, k)

    def bump(self, st, n):
        st.counters[n] = st.counters.get(n, 0) + 1

    def vf_case(self, ex, st):
        return self.job.case

    def vf_tier(self, ex, st):
        return self.job.tier


class SymHooks(Hooks):
    def vf_real(self, ex, st, p):
        n, k = self.key(ex, st, p)
        v = T.real_sym(k)
        self.bump(st, n)
        st.inputs.append((k, 'r', T.mk_atom('sym', k).i))
        return v

    def vf_any(self, ex, st, p):
        n, k = self.key(ex, st, p)
        if ex.decide(st, bvar(k + '!special')):
            if ex.decide(st, bvar(k + '!nan')):
                v, s = float('nan'), 'nan'
            elif ex.decide(st, bvar(k + '!neg')):
                v, s = NINF, '-inf'
            else:
                v, s = INF, 'inf'
            st.inputs.append((k, 'c', s))
        else:
            v = T.real_sym(k)
            st.inputs.append((k, 'r', T.mk_atom('sym', k).i))
        self.bump(st, n)
        return v

    def vf_int(self, ex, st, p, lo, hi):
        n, k = self.key(ex, st, p)
        lo = lo - (1 << 32) if lo >> 31 else lo
        hi = hi - (1 << 32) if hi >> 31 else hi
        self.bump(st, n)
        if lo == hi:
            st.inputs.append((k, 'c', str(lo)))
            return lo & 0xffffffff
        v = T.zi_sym(k, lo, hi)
        st.inputs.append((k, 'z', T.mk_atom('zsym', k).i))
        return v

    def vf_pick(self, ex, st, p, lo, hi):
        n, k = self.key(ex, st, p)
        lo = lo - (1 << 32) if lo >> 31 else lo
        hi = hi - (1 << 32) if hi >> 31 else hi
        v = T.zi_sym(k, lo, hi)
        r = ex.concretize(st, v, 32) if hi > lo else lo & 0xffffffff
        self.bump(st, n)
        s = r - (1 << 32) if r >> 31 else r
        st.inputs.append((k, 'c', str(s)))
        return r

    def vf_bool(self, ex, st, p):
        n, k = self.key(ex, st, p)
        self.bump(st, n)
        st.inputs.append((k, 'b', k))
        return bvar(k)

    def clock(self, ex, st):
        """non-decreasing nanosecond clock"""
        if '!manual' in st.counters:
            lo, m = st.last_time, st.counters['!manual']
            return ZI(T.fadd(lo, Fraction(10 ** 9)), 10 ** 9, 10 ** 9 + m) if isinstance(lo, RF) else 10 ** 9 + int(lo)
        k = self.nkey(st, '!clock')
        lo = st.last_time
        v = T.zi_sym(k, 0, 10 ** 15)
        b = T.cmp0(T.fsub(v.rf, lo if lo is not None else F0), 'ge')
        ex.assume(st, b)
        self.bump(st, '!clock')
        st.inputs.append((k, 'z', T.mk_atom('zsym', k).i))
        st.last_time = v.rf
        return ZI(T.fadd(v.rf, Fraction(10 ** 9)), 10 ** 9, 10 ** 9 + 10 ** 15)

    def vf_sleep_us(self, ex, st, p, hi):
        """from now on only this function moves the clock"""
        n, k = self.key(ex, st, p)
        self.bump(st, n)
        hi = ex.concretize(st, hi, 32)
        v = T.zi_sym(k, 0, hi).rf if hi else F0
        if hi:
            st.inputs.append((k, 'z', T.mk_atom('zsym', k).i))
        st.last_time = T.fadd(st.last_time if st.last_time is not None else F0, T.fmul_fin(v, Fraction(1000)))
        st.counters['!manual'] = st.counters.get('!manual', 10 ** 15) + 1000 * hi
        return T.fmul_fin(v, Fraction(1e-3))

    def vf_time_ms(self, ex, st):
        return T.fmul_fin(st.last_time, Fraction(1, 10 ** 6)) if st.last_time is not None else F0

    def vf_assume(self, ex, st, c):
        if c is UNDEF:
            c = ex.undef_bool(st)
        ex.assume(st, c)

    def vf_assert(self, ex, st, c, lp):
        if c is UNDEF:
            c = ex.undef_bool(st)
        if type(c) is BI:
            c = c.b
        self.job.obligation(st, ex.read_cstr(st, lp), c, None)

    def vf_eq(self, ex, st, a, b, lp):
        a, b = ex.fpv(st, a), ex.fpv(st, b)
        l = ex.read_cstr(st, lp)
        if type(a) is float or type(b) is float:
            ok = type(a) is float and type(b) is float and (a == b or (a != a and b != b))
            self.job.obligation(st, l, int(ok), None)
            return
        d = T.fsub(a, b)
        if type(d) is Fraction:
            if d == 0:
                ok = 1
            elif type(a) is Fraction:
                ok = int(abs(d) <= Fraction(1, 10 ** 7) * (1 + abs(a) + abs(b)))
            else:
                ok = int(abs(d) <= Fraction(1, 10 ** 10))
            self.job.obligation(st, l, ok, None)
            return
        self.job.obligation(st, l, T.cmp0(d, 'eq'), lambda: margin_eq(a, b, d))

    def vf_le(self, ex, st, a, b, lp):
        a, b = ex.fpv(st, a), ex.fpv(st, b)
        l = ex.read_cstr(st, lp)
        if type(a) is float or type(b) is float:
            ok = not (type(a) is float and a != a) and not (type(b) is float and b != b) and T.fcmp(a, b, 'le')
            self.job.obligation(st, l, int(bool(ok)), None)
            return
        self.job.obligation(st, l, T.fcmp(a, b, 'le'), lambda: T.fcmp(a, T.fadd(b, Fraction(1, 1000)), 'gt'))

    def vf_reach(self, ex, st, lp):
        self.job.reached.add(ex.read_cstr(st, lp))


def margin_eq(a, b, d):
    """|a-b| > TOL*(1+|a|+|b|)"""
    r = 1
    for sa in (1, -1):
        for sb in (1, -1):
            e = T.fmul_fin(TOL, T.fadd(F1, T.fadd(T.fmul_fin(Fraction(sa), a), T.fmul_fin(Fraction(sb), b))))
            r = b_and(r, b_or(T.fcmp(d, e, 'gt'), T.fcmp(d, T.fneg(e), 'lt')))
    return r


class ConcHooks(Hooks):
    def __init__(self, job, inputs):
        self.job = job
        self.inp = inputs
        self.trace = []
        self.now = 0
        self.manual = False

    def get(self, ex, st, p):
        n, k = self.key(ex, st, p)
        self.bump(st, n)
        return self.inp.get(k)

    def vf_real(self, ex, st, p):
        v = self.get(ex, st, p)
        return float(v) if v is not None else 0.0

    vf_any = vf_real

    def vf_int(self, ex, st, p, lo, hi):
        v = self.get(ex, st, p)
        return (int(v) & 0xffffffff) if v is not None else lo

    vf_pick = vf_int

    def vf_bool(self, ex, st, p):
        return 1 if self.get(ex, st, p) == '1' else 0

    def clock(self, ex, st):
        if self.manual:
            return 10 ** 9 + self.now
        k = self.nkey(st, '!clock')
        self.bump(st, '!clock')
        if k in self.inp:
            self.now = int(self.inp[k])
        return 10 ** 9 + self.now

    def vf_sleep_us(self, ex, st, p, hi):
        self.manual = True
        us = int(self.get(ex, st, p) or 0)
        self.now += us * 1000
        return us * 1e-3

    def vf_time_ms(self, ex, st):
        return self.now * 1e-6

    def vf_assume(self, ex, st, c):
        if not ex.concretize(st, c, 1):
            raise PathEnd('assume')

    def vf_assert(self, ex, st, c, lp):
        self.trace.append(('A', ex.read_cstr(st, lp), ex.concretize(st, c, 1)))

    def vf_eq(self, ex, st, a, b, lp):
        self.trace.append(('E', ex.read_cstr(st, lp), ex.fpv(st, a), ex.fpv(st, b)))

    def vf_le(self, ex, st, a, b, lp):
        self.trace.append(('L', ex.read_cstr(st, lp), ex.fpv(st, a), ex.fpv(st, b)))

    def vf_reach(self, ex, st, lp):
        self.trace.append(('R', ex.read_cstr(st, lp)))


# ---------------------------------------------------------------- numeric evaluation with the true library functions
def num_atom(i, m):
    v = m.get(i)
    if v is not None:
        return v
    a = T.ATOMS[i]
    if a.kind in ('sym', 'zsym'):
        v = 0.0
    else:
        args = [num_rf(x, m) if isinstance(x, RF) else (float(x) if isinstance(x, Fraction) else x) for x in a.args]
        if a.kind == 'sqrt':
            v = math.sqrt(args[0])
        elif a.kind == 'def':
            v = args[0]
        elif a.kind == 'zdiv':
            v = float(math.floor(args[0] / args[1]))
        elif a.kind == 'zfloor':
            v = float(math.floor(args[0]))
        else:
            nm = a.name.split('#')[0]
            if nm == 'cbrt':
                v = math.copysign(abs(args[0]) ** (1 / 3), args[0])
            else:
                v = getattr(math, nm)(*args)
    m[i] = v
    return v


def num_poly(p, m):
    s = 0.0
    for mon, c in p.items():
        t = float(c)
        for v, e in mon:
            t *= num_atom(v, m) ** e
        s += t
    return s


def num_rf(r, m):
    from poly import FACT
    n = num_poly(r.num, m)
    for f, e in r.den:
        n /= num_poly(FACT.polys[f], m) ** e
    return n


def num_B(b, m, bm):
    if type(b) is int:
        return bool(b)
    if b.op == 'bvar':
        return bm.get('b_' + b.a[0], False)
    if b.op == 'not':
        return not num_B(b.a[0], m, bm)
    if b.op == 'and':
        return num_B(b.a[0], m, bm) and num_B(b.a[1], m, bm)
    if b.op == 'or':
        return num_B(b.a[0], m, bm) or num_B(b.a[1], m, bm)
    if b.op == 'xor':
        return num_B(b.a[0], m, bm) != num_B(b.a[1], m, bm)
    v = num_rf(b.a[0], m)
    if b.op == 'eq0':
        return abs(v) < 1e-12
    return v < -1e-12 if b.op == 'lt0' else v > 1e-12


def exact_atom(i, m):
    import mpmath
    v = m.get(i)
    if v is not None:
        return v
    a = T.ATOMS[i]
    if a.kind in ('sym', 'zsym'):
        v = mpmath.mpf(0)
    else:
        args = [exact_rf(x, m) if isinstance(x, RF) else (mpmath.mpf(x.numerator) / x.denominator if isinstance(x, Fraction) else x) for x in a.args]
        if a.kind == 'sqrt':
            v = mpmath.sqrt(args[0])
        elif a.kind == 'def':
            v = args[0]
        elif a.kind == 'zdiv':
            v = mpmath.floor(args[0] / args[1])
        elif a.kind == 'zfloor':
            v = mpmath.floor(args[0])
        else:
            nm = a.name.split('#')[0]
            if nm == 'cbrt':
                v = mpmath.sign(args[0]) * mpmath.cbrt(abs(args[0]))
            else:
                v = getattr(mpmath, nm)(*args)
        if not isinstance(v, mpmath.mpf):
            raise ValueError
    m[i] = v
    return v


def exact_poly(p, m):
    """value and the sum of the absolute values of the terms"""
    import mpmath
    s = t = mpmath.mpf(0)
    for mon, c in p.items():
        c = Fraction(c)
        x = mpmath.mpf(c.numerator) / c.denominator
        for v, e in mon:
            x *= exact_atom(v, m) ** e
        s += x
        t += abs(x)
    return s, t


def exact_rf(r, m):
    from poly import FACT
    n = exact_poly(r.num, m)[0]
    for f, e in r.den:
        n /= exact_poly(FACT.polys[f], m)[0] ** e
    return n


def exact_B(b, m, bm):
    from poly import FACT
    if type(b) is int:
        return bool(b)
    if b.op == 'bvar':
        return bool(bm.get('b_' + b.a[0], False))
    if b.op == 'not':
        return not exact_B(b.a[0], m, bm)
    if b.op in ('and', 'or', 'xor'):
        x, y = exact_B(b.a[0], m, bm), exact_B(b.a[1], m, bm)
        return x and y if b.op == 'and' else x or y if b.op == 'or' else x != y
    r = b.a[0]
    n, t = exact_poly(r.num, m)
    zero = abs(n) <= t * 1e-40
    if b.op == 'eq0':
        return zero
    s = 1
    for f, e in r.den:
        if e % 2 and exact_poly(FACT.polys[f], m)[0] < 0:
            s = -s
    return not zero and (n * s < 0 if b.op == 'lt0' else n * s > 0)


def fstr(x):
    """Fraction -> decimal of the nearest double"""
    return repr(float(x))


class Job:
    def __init__(self, mod, spec, native, tier, workdir, seed=1):
        self.mod = mod
        self.fn = spec['fn']
        self.case = spec['case']
        self.opts = spec['opts']
        self.native = native
        self.tier = tier
        self.workdir = workdir
        self.reached = set()
        self.violations = []
        self.found = None
        self.known = spec.get('known', ())
        self.undecided = []
        self.und_count = 0
        self.unsupported = {}
        self.discharged = 0
        self.trivial = 0
        self.labels = {}
        self.cand_tries = {}
        self.paths = 0
        self.ended = {}
        self.validated = 0
        self.mismatch = []
        self.samples = []
        self.seed = seed
        self.replays = 0
        self.within_tol = 0
        self.failed_labels = set()

    # ------------------------------------------------------------ obligations
    def obligation(self, st, label, cond, margin):
        self.labels[label] = self.labels.get(label, 0) + 1
        if type(cond) is int and cond:
            self.discharged += 1
            self.trivial += 1
            return
        k = None
        if type(cond) is not int:
            k = self.ex.lookup(st, cond)
            if k is True:
                self.discharged += 1
                return
        ms = int(self.opts.get('qms', 20000))
        if k is None and type(cond) is not int:
            r, m = self.solver.check(st.pc, [b_not(cond)], full_ms=ms, base=st.model)
        else:
            r, m = 'sat', None
        if r == 'unsat':
            self.discharged += 1
            self.ex.assume_known(st, cond, True)
            return
        if r == 'unknown' and margin is not None:
            r2, m2 = self.solver.check(st.pc, [b_not(cond), margin()], full_ms=ms, base=st.model)
            if r2 == 'unsat':
                self.discharged += 1
                self.within_tol += 1
                return
            if r2 == 'sat':
                r, m = r2, m2
        if r == 'unknown':
            self.undecide(st, label, 'solver gave no answer')
            ok = self.candidate(st, label, cond, margin, None)
        else:
            ok = self.candidate(st, label, cond, margin, m)
        if type(cond) is int:
            raise PathEnd('failed obligation')
        self.ex.assume(st, cond)

    def undecide(self, st, label, why):
        self.und_count += 1
        if len(self.undecided) < 40:
            self.undecided.append({'label': label, 'why': why, 'fn': self.fn, 'case': self.case})

    def inputs_from(self, st, m):
        out = {}
        for k, kind, x in st.inputs:
            if kind == 'c':
                out[k] = x
            elif kind == 'r':
                out[k] = fstr(m.get(x, Fraction(0)))
            elif kind == 'z':
                a = T.ATOMS[x]
                out[k] = str(int(m.get(x, Fraction(a.lo or 0))))
            else:
                out[k] = '1' if m.get('b_' + x) else '0'
        return out

    def stopped(self):
        """a violation that is not a known finding was confirmed a while ago"""
        return self.found and time.time() - self.found > 15

    def candidate(self, st, label, cond, margin, model, hang=False):
        """look for a concrete witness and replay it; True if a violation was confirmed"""
        if label in self.failed_labels:
            return True
        if self.stopped():
            self.undecide(st, label, 'not replayed after an earlier violation')
            return False
        n = self.cand_tries.get(label, 0)
        if n >= int(self.opts.get('cands', 4)):
            self.undecide(st, label, 'further candidate not replayed')
            return False
        self.cand_tries[label] = n + 1
        pc = list(st.pc)
        neg = [] if type(cond) is int else [b_not(cond)]
        syms = [x for k, kind, x in st.inputs if kind == 'r']
        tried = set()

        def attempt(m):
            inp = self.inputs_from(st, m)
            key = tuple(sorted(inp.items()))
            if key in tried:
                return False
            tried.add(key)
            if not self.truly(neg, m):
                return False
            ok, out = self.replay(inp, label, hang)
            if ok:
                self.failed_labels.add(label)
                v = {'label': label, 'fn': self.fn, 'case': self.case, 'inputs': inp, 'output': out[:2000]}
                self.violations.append(v)
                if not self.found and not match(self.known, v):
                    self.found = time.time()
            return ok
        bounds = []
        for lim in (10, 1000):
            bs = []
            for i in syms:
                r = T.atom_rf(T.ATOMS[i])
                bs.append(T.cmp0(T.fsub(r, Fraction(lim)), 'le'))
                bs.append(T.cmp0(T.fadd(r, Fraction(lim)), 'ge'))
            bounds.append(bs)
        marg = []
        if margin is not None:
            try:
                marg = [margin()]
            except TooBig:
                marg = []
        pcm = []
        for b in pc:
            x = b
            if x.op in ('lt0', 'gt0') and not x.a[0].den:
                s = Fraction(1, 100)
                x = T.cmp0(T.fadd(x.a[0], s), 'lt') if x.op == 'lt0' else T.cmp0(T.fsub(x.a[0], s), 'gt')
            elif x.op == 'not' and x.a[0].op in ('lt0', 'gt0') and not x.a[0].a[0].den:
                y = x.a[0]
                s = Fraction(1, 100)
                x = T.cmp0(T.fadd(y.a[0], s), 'lt') if y.op == 'gt0' else T.cmp0(T.fsub(y.a[0], s), 'gt')
            if type(x) is not int:
                pcm.append(x)
        plans = []
        plans.append((pcm, neg + marg, bounds[0]))
        plans.append((pc, neg + marg, bounds[0]))
        plans.append((pc, neg + marg, bounds[1]))
        plans.append((pc, neg + marg, []))
        best = None
        for p, ng, bd in plans:
            r, m = self.solver.check(p + ng, bd, full_ms=4000)
            if r == 'sat' and m is not None:
                best = m
                if attempt(m):
                    return True
        if model is not None and attempt(model):
            return True
        # concrete search around the models with the true library functions (only if solver models abstract them)
        if self.numeric_search(st, pc, neg, marg, best or model or {}, attempt):
            return True
        if margin is not None and neg:
            r, m = self.solver.check(pc, neg + marg, full_ms=4000)
            if r == 'unsat':
                self.within_tol += 1
                self.discharged += 1
                return False
        self.undecide(st, label, 'candidate not reproduced on the compiled code')
        return False

    def numeric_search(self, st, pc, neg, marg, model, attempt):
        rng = random.Random(self.seed)
        sy = [(x, kind) for k, kind, x in st.inputs if kind in ('r', 'z')]
        bm = {k: v for k, v in model.items() if isinstance(k, str) and k != 'irr'}
        hits = 0
        t0 = time.time()
        for it in range(3000):
            if time.time() - t0 > 3:
                break
            m = {}
            for x, kind in sy:
                base = float(model.get(x, 0))
                if kind == 'z':
                    m[x] = base
                    continue
                u = rng.random()
                if u < 0.3:
                    m[x] = base
                elif u < 0.6:
                    m[x] = round(base + rng.gauss(0, 0.5), 3)
                elif u < 0.9:
                    m[x] = round(rng.gauss(0, 2), 2)
                else:
                    m[x] = float(rng.choice([0, 1, -1, 2, 0.5]))
            try:
                m2 = dict(m)
                if not all(num_B(b, m2, bm) for b in pc):
                    continue
                if not all(num_B(b, m2, bm) for b in neg + marg):
                    continue
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            hits += 1
            mm = {x: Fraction(v) for x, v in m.items()}
            mm.update(bm)
            if attempt(mm):
                return True
            if hits > 8:
                break
        return False

    def write_inputs(self, inp):
        p = os.path.join(self.workdir, 'in_%s_%d_%d.txt' % (self.fn, self.case, os.getpid()))
        with open(p, 'w') as f:
            for k, v in inp.items():
                f.write('%s %s\n' % (k, v))
        return p

    def run_native(self, binp, inp, trace=False, timeout=20):
        p = self.write_inputs(inp)
        cmd = [binp, self.fn, str(self.case), str(self.tier), p] + (['trace'] if trace else [])
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77', UBSAN_OPTIONS='halt_on_error=1')
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, preexec_fn=smt.die_with_parent)
            return r.returncode, r.stdout.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired as e:
            return 'timeout', (e.stdout or b'').decode('utf-8', 'replace')

    def truly(self, neg, m):
        """False if the obligation holds at the inputs of the model when exp, log, ... have their true values"""
        if not neg or not any(not isinstance(i, str) and T.ATOMS[i].kind == 'uf' for b in neg for i in smt.B_vars(b)):
            return True
        import mpmath
        with mpmath.workdps(60):
            v = {x: mpmath.mpf(float(y)) for x, y in m.items() if not isinstance(x, str) and T.ATOMS[x].kind in ('sym', 'zsym')}
            try:
                return all(exact_B(b, v, m) for b in neg)
            except (ValueError, ZeroDivisionError, OverflowError, AttributeError, TypeError, NotImplementedError):
                return True

    def replay(self, inp, label, hang=False):
        self.replays += 1
        t = int(self.opts.get('replay_s', 15))
        rc, out = self.run_native(self.native['rel'], inp, timeout=t)
        if rc == 'timeout':
            return True, 'native run does not terminate within %d s\n' % t + out
        if rc == 1 and re.search(r'^FAIL (%s|!.*)$' % re.escape(label), out, re.M):
            return True, out
        if self.native.get('asan') and rc == 0:
            rc, out2 = self.run_native(self.native['asan'], inp, timeout=2 * t)
            if rc == 77 or (rc not in (0, 3, 'timeout') and 'ERROR: AddressSanitizer' in out2):
                return True, 'sanitizer: ' + out2
        return False, out

    # ------------------------------------------------------------ exploration
    def explore(self):
        t0 = time.time()
        self.solver = smt.Solver(full_ms=int(self.opts.get('fms', 8000)))
        self.ex = ex = Executor(self.mod, RealArith(), self.solver, SymHooks(self))
        ex.max_steps = int(self.opts.get('steps', 3000000))
        ex.deadline = t0 + float(self.opts.get('time', 200))
        max_paths = int(self.opts.get('paths', 20000))
        src = self.mod.funcs['@' + self.fn]
        st = State()
        ex.push(st, src, [], None)
        stack = [st]
        incomplete = None
        finished = []
        while stack:
            if time.time() > ex.deadline:
                incomplete = 'time'
                break
            if self.stopped():
                incomplete = 'violation'
                break
            if self.paths >= max_paths:
                incomplete = 'paths'
                break
            st = stack.pop()
            try:
                ex.run(st)
            except Fork as f:
                s2 = st.clone()
                for s, b, v, m in ((st, f.b, True, f.mt), (s2, b_not(f.b), False, f.mf)):
                    s.pc.append(b)
                    s.model = m or {}
                    ex.assume_known(s, f.b, v)
                stack.append(s2)
                stack.append(st)
                continue
            except PathEnd as e:
                self.ended[e.why] = self.ended.get(e.why, 0) + 1
                self.paths += 1
                if e.why == 'done':
                    self.finish_path(st, finished)
            except Bad as e:
                self.paths += 1
                self.ended['bad'] = self.ended.get('bad', 0) + 1
                lab = '!%s: %s' % (e.label, e.msg)
                self.labels[lab] = self.labels.get(lab, 0) + 1
                r, m = self.solver.check(st.pc, [])
                if r != 'unsat':
                    self.candidate(st, lab, 0, None, m)
            except (Unsupported, TooBig, NotImplementedError) as e:
                self.paths += 1
                k = '%s' % e or type(e).__name__
                self.unsupported[k] = self.unsupported.get(k, 0) + 1
                self.undecide(st, '!unsupported', k)
            except Budget as e:
                if str(e) == 'time':
                    incomplete = 'time'
                    break
                self.paths += 1
                r, m = self.solver.check(st.pc, [])
                if r != 'unsat':
                    lab = '!nontermination: more than %d instructions' % ex.max_steps
                    self.labels[lab] = self.labels.get(lab, 0) + 1
                    self.candidate(st, lab, 0, None, m, hang=True)
        self.incomplete = incomplete
        if incomplete:
            self.und_count += 1
            self.undecided.append({'label': '!incomplete', 'why': 'exploration stopped by budget: ' + incomplete + ', %d states left' % len(stack), 'fn': self.fn, 'case': self.case})
        self.validate(finished)
        s = self.solver.stats
        return {
            'fn': self.fn, 'case': self.case, 'paths': self.paths, 'ended': self.ended, 'instrs': ex.instrs, 'branches': ex.branches,
            'queries': s.queries, 'sat': s.sat, 'unsat': s.unsat, 'unknown': s.unknown, 'solver_s': s.time, 'max_query_s': s.maxq,
            'cvc5': s.cvc5, 'nlsat': s.nlsat, 'interval': s.interval, 'discharged': self.discharged, 'trivial': self.trivial, 'labels': self.labels,
            'within_tol': self.within_tol, 'violations': self.violations, 'undecided': self.undecided, 'und_count': self.und_count,
            'unsupported': self.unsupported, 'reached': sorted(self.reached), 'functions': sorted(ex.functions_used),
            'validated': self.validated, 'mismatch': self.mismatch, 'samples': self.samples, 'replays': self.replays,
            'incomplete': incomplete, 'wall': time.time() - t0,
        }

    def finish_path(self, st, finished):
        # reservoir of paths for translator validation
        n = self.ended['done']
        want = int(self.opts.get('validate', 3))
        if len(finished) < want:
            finished.append(st)
        elif (n & (n - 1)) == 0:
            finished[n.bit_length() % want] = st

    def validate(self, finished):
        """push concrete inputs through the encoding (IEEE mode) and through the compiled code; compare traces"""
        if not self.native.get('rel'):
            return
        for st in finished:
            m = st.model
            if not m and st.pc:
                r, m = self.solver.check(st.pc, [])
                if r != 'sat':
                    continue
            inp = self.inputs_from(st, m or {})
            # generic values for unconstrained inputs make the comparison meaningful
            rng = random.Random(self.seed)
            for k, kind, x in st.inputs:
                if kind == 'r' and x not in (m or {}):
                    inp[k] = repr(round(rng.uniform(-2, 2), 3))
            h = ConcHooks(self, inp)
            ex = self.conc_ex()
            ex.hooks = h
            ex.instrs = 0
            ex.max_steps = 20000000
            ex.deadline = time.time() + 30
            s = State()
            try:
                ex.push(s, ex.mod.funcs['@' + self.fn], [], None)
                ex.run(s)
            except PathEnd as e:
                if e.why != 'done':
                    continue
            except (Bad, Budget, Unsupported, Fork) as e:
                continue
            rc, out = self.run_native(self.native['rel'], inp, trace=True)
            if rc not in (0, 1):
                continue
            tn = []
            for l in out.split('\n'):
                if l.startswith('T '):
                    tn.append(l[2:].split(' '))
            self.validated += 1
            bad = None
            if len(tn) != len(h.trace):
                bad = 'length %d vs %d' % (len(h.trace), len(tn))
            else:
                for a, b in zip(h.trace, tn):
                    if a[0] != b[0]:
                        bad = '%r vs %r' % (a, b)
                        break
                    if a[0] == 'A':
                        if int(b[-1]) != int(a[2]):
                            bad = '%r vs %r' % (a, b)
                            break
                    elif a[0] in 'EL':
                        for x, y in zip(a[2:], b[-2:]):
                            y = float(y)
                            if not (x == y or (x != x and y != y) or abs(x - y) <= 2e-6 * (1 + abs(x) + abs(y))):
                                bad = '%r vs %r' % (a, b)
                if len(self.samples) < 2:
                    self.samples.append({'fn': self.fn, 'case': self.case, 'inputs': dict(list(inp.items())[:12]), 'trace': [' '.join(map(str, t)) for t in tn[:6]]})
            if bad:
                self.mismatch.append({'fn': self.fn, 'case': self.case, 'inputs': inp, 'diff': bad})

    def conc_ex(self):
        """same IR, compiled for the concrete arithmetic (register templates hold floats)"""
        e = getattr(self, '_ce', None)
        if e is None:
            import copy
            m = copy.copy(self.mod)
            from ir import FuncSrc
            m.funcs = {k: FuncSrc(f.name, f.head, f.lines) for k, f in self.mod.funcs.items()}
            e = self._ce = Executor(m, FloatArith(), self.solver, None)
        return e
