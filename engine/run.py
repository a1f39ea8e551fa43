#!/usr/bin/env python3
"""Check one property:  run.py <property-id> [--tier quick|thorough] [--fn name] [--case k] [-v]

Compiles the property's harnesses together with /repo's current headers to LLVM IR and to a native
binary, explores every harness function symbolically, lets the SMT solver decide the obligations,
replays counterexamples natively and writes /verif/evidence/<id>.json."""
import argparse
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('TINYOPT_REPO', '/repo')
sys.path.insert(0, HERE)
from known import match
CLANG = '/usr/bin/clang++-18'
INC = ['-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(REPO, 'include'), '-I/usr/include/eigen3']
IRFLAGS = ['-std=c++20', '-O1', '-S', '-emit-llvm', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_NO_CPUID', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off',
           '-fno-math-errno', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DVF_IR', '-w']
NATFLAGS = ['-std=c++20', '-O1', '-g0', '-w', '-rdynamic', '-ffp-contract=off', '-ftrivial-auto-var-init=pattern', '-Wl,--wrap=_ZNSt6chrono3_V212system_clock3nowEv',
            '-Wl,--wrap=_ZNSt6chrono3_V212steady_clock3nowEv', '-Wl,--wrap=malloc']


def parse_jobs(src, tier):
    """// VF: h_name cases=4 time=100 thorough.cases=8 ..."""
    jobs = []
    for m in re.finditer(r'^// VF: (\w+)(.*)$', src, re.M):
        fn = m.group(1)
        o = {}
        t = {}
        for kv in m.group(2).split():
            k, _, v = kv.partition('=')
            if k.startswith('thorough.'):
                t[k[9:]] = v
            else:
                o[k] = v
        if tier:
            o.update(t)
        if o.get('only') == 'thorough' and not tier:
            continue
        for c in range(int(o.get('cases', 1))):
            jobs.append({'fn': fn, 'case': c, 'opts': o})
    return jobs


def worker(conn, mod, spec, native, tier, wd, seed):
    sys.setrecursionlimit(100000)
    try:
        import resource
        from smt import die_with_parent
        die_with_parent()
        lim = 4 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        from job import Job
        r = Job(mod, spec, native, tier, wd, seed).explore()
    except MemoryError:
        r = {'error': 'out of memory', 'fn': spec['fn'], 'case': spec['case']}
    except Exception as e:
        import traceback
        r = {'error': traceback.format_exc(), 'fn': spec['fn'], 'case': spec['case']}
    try:
        conn.send(r)
    except Exception:
        pass
    conn.close()


GRACE = 40  # seconds for the remaining jobs once a violation is confirmed


def run_jobs(specs, tier, wd, seed, limit, verbose, known, ncpu=8):
    ctx = mp.get_context('fork')
    todo = list(specs)
    running = []
    out = []
    t0 = time.time()
    found = None
    while todo or running:
        if found and time.time() - found > GRACE:
            for p, a, s, ts in running:
                p.terminate()
                p.join(5)
                if p.is_alive():
                    p.kill()
                a.close()
            return out, len(todo) + len(running)
        while todo and len(running) < ncpu:
            s = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(b, s['mod'], s, s['native'], tier, wd, seed))
            p.start()
            b.close()
            running.append((p, a, s, time.time()))
        import multiprocessing.connection as mc
        mc.wait([a for _, a, _, _ in running], timeout=1)
        nr = []
        for p, a, s, ts in running:
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = {'error': 'worker died (memory?)', 'fn': s['fn'], 'case': s['case']}
                p.join()
                a.close()
                out.append(r)
                if not found and any(not match(known, v) for v in r.get('violations', ())):
                    found = time.time()
                if verbose:
                    print('  job %s/%d: %s' % (s['fn'], s['case'], brief(r)), flush=True)
            elif time.time() - ts > float(s['opts'].get('time', 200)) + 60 or time.time() - t0 > limit:
                p.terminate()
                p.join(5)
                if p.is_alive():
                    p.kill()
                a.close()
                out.append({'error': 'job time limit', 'fn': s['fn'], 'case': s['case']})
            else:
                nr.append((p, a, s, ts))
        running = nr
    return out, 0



def brief(r):
    if 'error' in r:
        return 'ERROR ' + r['error'].strip()[-1500:]
    s = 'paths %d, %d instr, obligations %d (%d trivial, %d tol), queries %d (%.1fs, unk %d), undecided %d, viol %d, valid %d/%d mism, %.1fs' % (
        r['paths'], r['instrs'], sum(r['labels'].values()), r['trivial'], r['within_tol'], r['queries'], r['solver_s'], r['unknown'], r['und_count'],
        len(r['violations']), r['validated'], len(r['mismatch']), r['wall'])
    if r['undecided']:
        s += '\n     und: ' + json.dumps(r['undecided'][:3])[:900]
    if r['violations']:
        s += '\n     VIOL: ' + json.dumps(r['violations'][:2])[:1500]
    if r['mismatch']:
        s += '\n     MISM: ' + json.dumps(r['mismatch'][:1])
    return s


def load_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        for f in json.load(open(p)):
            if f.get('property') == pid and f.get('status') == 'known':
                out.append(f)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--fn')
    ap.add_argument('--case', type=int)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--keep')
    a = ap.parse_args()
    t0 = time.time()
    tier = 1 if a.tier == 'thorough' else 0
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pid = a.prop
    wd = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    try:
        rc = check(a, pid, tier, seed, wd, t0)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def check(a, pid, tier, seed, wd, t0):
    hdir = os.path.join(VERIF, 'harness')
    files = sorted(f for f in os.listdir(hdir) if f == pid + '.cpp' or re.match(re.escape(pid) + r'\.\w+\.cpp$', f))
    if not files:
        print('no harness for', pid)
        return 2
    procs = []
    mods = []
    rt = os.path.join(wd, 'rt.o')
    rtp = subprocess.Popen(['g++', '-std=c++20', '-O1', '-c', os.path.join(hdir, 'vf_native.cpp'), '-o', rt])
    for f in files:
        src = open(os.path.join(hdir, f)).read()
        jobs = parse_jobs(src, tier)
        if a.fn:
            jobs = [j for j in jobs if j['fn'] == a.fn]
        if a.case is not None:
            jobs = [j for j in jobs if j['case'] == a.case]
        if not jobs:
            continue
        base = os.path.join(wd, f[:-4])
        m = re.search(r'^// VF-FLAGS: (.*)$', src, re.M)
        extra = m.group(1).split() if m else []
        ll = subprocess.Popen([CLANG] + IRFLAGS + extra + INC + [os.path.join(hdir, f), '-o', base + '.ll'], stderr=subprocess.PIPE)
        nat = subprocess.Popen(['g++'] + [x for x in NATFLAGS if not x.startswith('-Wl') and x != '-rdynamic'] + extra + INC + ['-c', os.path.join(hdir, f), '-o', base + '.o'], stderr=subprocess.PIPE)
        asan = None
        if 'VF-ASAN' in src:
            asan = subprocess.Popen(['g++', '-std=c++20', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-c'] + extra + INC + [os.path.join(hdir, f), '-o', base + '.asan.o'], stderr=subprocess.PIPE)
        procs.append((f, src, jobs, base, ll, nat, asan))
    import ir
    specs = []
    cfail = []
    rtp.wait()
    for f, src, jobs, base, ll, nat, asan in procs:
        for p, w in ((ll, 'IR'), (nat, 'native'), (asan, 'asan')):
            if p is None:
                continue
            _, err = p.communicate()
            if p.returncode:
                print('%s compilation of %s against %s failed:\n%s' % (w, f, REPO, err.decode()[-3000:]))
                cfail.append(f)
        if f in cfail:
            continue
        r = subprocess.run(['g++', '-rdynamic'] + [x for x in NATFLAGS if x.startswith('-Wl')] + [base + '.o', rt, '-o', base + '.bin', '-ldl'], capture_output=True)
        if r.returncode:
            print('link failed', r.stderr.decode()[-2000:])
            return 2
        native = {'rel': base + '.bin'}
        if asan:
            r = subprocess.run(['g++', '-rdynamic', '-fsanitize=address,undefined'] + [x for x in NATFLAGS if 'clock' in x] + ['-Wl,--wrap=malloc', base + '.asan.o', rt, '-o', base + '.asan', '-ldl'], capture_output=True)
            if r.returncode:
                print('link failed', r.stderr.decode()[-2000:])
                return 2
            native['asan'] = base + '.asan'
        mod = ir.Module(open(base + '.ll').read())
        if a.keep:
            shutil.copy(base + '.ll', a.keep)
            shutil.copy(base + '.bin', a.keep)
        for j in jobs:
            if '@' + j['fn'] not in mod.funcs:
                print('harness function %s missing' % j['fn'])
                return 2
            j['mod'] = mod
            j['native'] = native
            j['file'] = f
            specs.append(j)
        mods.append(mod)
    if not specs:
        return 2
    # longest first
    specs.sort(key=lambda j: -float(j['opts'].get('w', 1)))
    tb = time.time() - t0
    if a.v:
        print('build %.1fs, %d jobs' % (tb, len(specs)), flush=True)
    limit = 830 - (time.time() - t0)
    known = load_findings(pid)
    for j in specs:
        j['known'] = known
    res, skipped = run_jobs(specs, tier, wd, seed, limit, a.v, known)
    errs = [r for r in res if 'error' in r]
    ok = [r for r in res if 'error' not in r]
    # vacuity
    want = {}
    for f, src, jobs, *_ in procs:
        if f in cfail:
            continue
        fns = set(j['fn'] for j in jobs)
        for fn in fns:
            m = re.search(r'void %s\(\)\s*\{(.*?)^\}' % fn, src, re.S | re.M)
            if m:
                want[fn] = set(re.findall(r'vf_reach\("([^"]*)"\)', m.group(1)))
    got = {}
    for r in ok:
        got.setdefault(r['fn'], set()).update(r['reached'])
    vac = ['%s:%s' % (fn, l) for fn, ls in want.items() for l in sorted(ls - got.get(fn, set()))]
    viols = [v for r in ok for v in r['violations']]
    newv = []
    seen_known = {}
    for v in viols:
        k = match(known, v)
        if k:
            seen_known.setdefault(k[0]['id'], (k[0], v))
        else:
            newv.append(v)
    for fid, (f, v) in seen_known.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    und = sum(r['und_count'] for r in ok)
    nob = sum(sum(r['labels'].values()) for r in ok)
    dis = sum(r['discharged'] for r in ok)
    ev = {
        'property': pid, 'tier': 'thorough' if tier else 'quick', 'seed': seed, 'level': 'model_checking',
        'wall_s': round(time.time() - t0, 2),
        'coverage': {
            'states': sum(r['paths'] for r in ok), 'transitions': sum(r['instrs'] for r in ok),
            'traces_validated_against_impl': sum(r['validated'] for r in ok),
            'samples': [s for r in ok for s in r['samples']][:5],
            'meaning': 'states = feasible symbolic paths explored to their end; transitions = IR instructions executed symbolically',
            'obligations': nob, 'obligations_discharged': dis, 'discharged_by_normal_form': sum(r['trivial'] for r in ok),
            'discharged_within_tolerance': sum(r['within_tol'] for r in ok), 'undecided': und,
            'undecided_list': [u for r in ok for u in r['undecided']][:20],
            'solver_queries': sum(r['queries'] for r in ok), 'sat': sum(r['sat'] for r in ok), 'unsat': sum(r['unsat'] for r in ok),
            'unknown': sum(r['unknown'] for r in ok), 'solver_time_s': round(sum(r['solver_s'] for r in ok), 2),
            'max_query_s': round(max([r['max_query_s'] for r in ok] or [0]), 2),
            'nlsat_queries': sum(r['nlsat'] for r in ok), 'cvc5_queries': sum(r['cvc5'] for r in ok), 'decided_by_intervals': sum(r['interval'] for r in ok),
            'symbolic_branch_decisions': sum(r['branches'] for r in ok),
            'native_replays': sum(r['replays'] for r in ok),
            'translator_mismatches': [m for r in ok for m in r['mismatch']][:5],
            'jobs': len(res), 'jobs_not_finished_after_a_violation': skipped, 'job_errors': [{'fn': r['fn'], 'case': r['case'], 'error': r['error'][-800:]} for r in errs],
            'vacuous': vac, 'reached': {k: sorted(v) for k, v in got.items()},
            'labels': merge([r['labels'] for r in ok]),
            'functions_encoded': demangle(sorted(set(f for r in ok for f in r['functions']))),
            'bounds': bounds_of(procs), 'build_s': round(tb, 2),
            'known_findings_seen': sorted(seen_known),
        },
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rc = 0
    ev['violations'] = len(newv)
    if newv:
        rd = os.path.join(VERIF, 'evidence', 'replay', pid)
        os.makedirs(rd, exist_ok=True)
        names = set()
        for i, v in enumerate(newv):
            key = (v['fn'], v['label'])
            if key in names:
                continue
            names.add(key)
            p = os.path.join(rd, '%s_%d_%d.json' % (v['fn'], v['case'], i))
            json.dump({'property': pid, 'obligation': v['label'], 'function': v['fn'], 'case': v['case'], 'inputs': v['inputs'],
                       'native_output': v['output'], 'how': 'python3-vt %s/replay.py %s' % (HERE, p)}, open(p, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, p))
            print('  %s case %d: %s' % (v['fn'], v['case'], v['label']))
            print('  inputs: ' + ', '.join('%s=%s' % kv for kv in list(v['inputs'].items())[:24]))
        rc = 1
        ev['violation_details'] = newv[:10]
    if not a.fn:
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d paths, %d obligations, %d discharged, %d undecided, %d queries, %.1fs solver, %d traces validated (%d mismatches), %d job errors, %.1fs' % (
        pid, ev['coverage']['states'], nob, dis, und, ev['coverage']['solver_queries'], ev['coverage']['solver_time_s'],
        ev['coverage']['traces_validated_against_impl'], sum(len(r['mismatch']) for r in ok), len(errs), time.time() - t0))
    if vac and not skipped:
        print('VACUOUS (never reached): ' + ', '.join(vac))
    for u in ev['coverage']['undecided_list'][:5]:
        print('UNDECIDED ' + json.dumps(u)[:500])
    for e in errs[:3]:
        print('JOB-ERROR %s/%d %s' % (e['fn'], e['case'], e['error'].strip()[-600:]))
    if rc == 0:
        if cfail:
            print('no answer: %s did not compile' % ', '.join(cfail))
            return 2
        if not ok or dis == 0 or len(errs) * 2 > len(res) or und > dis:
            print('no answer: too little was decided')
            return 2
    return rc


def merge(ds):
    o = {}
    for d in ds:
        for k, v in d.items():
            o[k] = o.get(k, 0) + v
    return o


def bounds_of(procs):
    out = []
    for f, src, *_ in procs:
        for m in re.finditer(r'^// BOUND: (.*)$', src, re.M):
            out.append(m.group(1))
    return out


def demangle(names):
    if not names:
        return []
    try:
        r = subprocess.run(['/usr/bin/llvm-cxxfilt-18'], input='\n'.join(n[1:].strip('"') for n in names), capture_output=True, text=True)
        return [re.sub(r'\s+', ' ', x)[:160] for x in r.stdout.split('\n') if 'tinyopt' in x or x.startswith('h_')][:200]
    except OSError:
        return []


if __name__ == '__main__':
    main()
