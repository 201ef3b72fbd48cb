#!/usr/bin/env python3
"""check.py PROPERTY            decide one property on /repo's current tree
   check.py --replay PROPERTY CASE   rerun one failing input on the real code
   check.py --all               every claimed property (development aid)"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, 'lib'))
sys.dont_write_bytecode = True
import vx, annot

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
NAT = os.path.join(H, 'native')
TRUSTED = ['CBMC 6.11.0: C front end, goto-instrument dynamic frame condition checking, MiniSat back end',
           'clang 18 AST used to place loop contracts; lib/annot.py inserts contracts and drops bodies of replaced callees only',
           'models of libc and of replaced callees stated in the units (listed under assumptions)']

def units_of(pid, tier):
    out = sorted(glob.glob(os.path.join(H, 'units', pid, '*.c')))
    use = os.path.join(H, 'units', pid, 'USE')
    if os.path.exists(use):
        for l in open(use):
            l = l.split('#')[0].strip()
            if l:
                out.append(os.path.join(H, 'units', l))
    us = [vx.parse_unit(p) for p in out]
    return [u for u in us if tier == 'thorough' or getattr(u, 'tier', 'quick') == 'quick']

# ---- native driver -------------------------------------------------------
CF = ['-std=gnu11', '-g', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
      '-fno-omit-frame-pointer', '-DARGUS_REGEX', '-I' + vx.REPO + '/includes', '-I' + NAT]

def build_native(pid, work):
    """returns (exe, '') or (None, reason)"""
    drv = os.path.join(NAT, pid + '.c')
    if not os.path.exists(drv):
        return None, ''
    d = os.path.join(work, 'native')
    os.makedirs(d, exist_ok=True)
    extra = os.path.join(NAT, pid + '.h')
    ex = ['-DNX_EXTRA="%s"' % extra] if os.path.exists(extra) else []
    jobs = []
    srcs = []
    for root, _, fs in os.walk(vx.REPO + '/source'):
        srcs += [os.path.join(root, f) for f in fs if f.endswith('.c')]
    for i, s in enumerate(sorted(srcs)):
        jobs.append((['clang'] + CF + ex + ['-include', NAT + '/nx_alloc.h', '-c', s, '-o', '%s/l%d.o' % (d, i)], '%s/l%d.o' % (d, i)))
    drvflags = []
    for l in open(drv):
        m = re.match(r'//@ cflags (.*)', l)
        if m: drvflags += m.group(1).split()
    jobs.append((['clang'] + CF + drvflags + ['-c', drv, '-o', d + '/drv.o'], d + '/drv.o'))
    jobs.append((['clang'] + CF + ['-c', NAT + '/nx.c', '-o', d + '/nx.o'], d + '/nx.o'))
    def go(j):
        p = subprocess.run(j[0], capture_output=True, text=True)
        return p.returncode, p.stderr
    with ThreadPoolExecutor(8) as ex_:
        for (rc, err), j in zip(ex_.map(go, jobs), jobs):
            if rc != 0:
                return None, 'native driver does not build: %s' % err[-500:]
    exe = d + '/drv'
    p = subprocess.run(['clang', '-fsanitize=address,undefined', '-o', exe] + [j[1] for j in jobs] + ['-lpcre2-8', '-lm'],
                       capture_output=True, text=True)
    if p.returncode != 0:
        return None, 'native driver does not link: %s' % p.stderr[-500:]
    return exe, ''

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=4:detect_stack_use_after_return=0:allocator_may_return_null=1',
           UBSAN_OPTIONS='print_stacktrace=1', LC_ALL='C')
ENV.pop('MALLOC_PERTURB_', None)

def run_native(exe, args, timeout, cwd):
    try:
        p = subprocess.run([exe] + args, capture_output=True, timeout=timeout, env=ENV, cwd=cwd)
        return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode(errors='replace'), (e.stderr or b'').decode(errors='replace')

def parse_native(res):
    r = {'cases': 0, 'distinct': 0, 'samples': [], 'rule': '', 'fail': None, 'reason': ''}
    for rc, out, err in res:
        m = re.search(r'NXDONE cases=(\d+) distinct=(\d+)', out)
        if m:
            r['cases'] += int(m.group(1)); r['distinct'] += int(m.group(2))
        r['samples'] += re.findall(r'^NXSAMPLE (.*)$', out, re.M)
        m2 = re.search(r'^NXRULE (.*)$', out, re.M)
        if m2: r['rule'] = m2.group(1)
        f = re.search(r'NXFAIL case=(\d+) what=(.*)\nNXINPUT ([\s\S]*?)\nNXEND', out)
        if f and not r['fail']:
            r['fail'] = {'case': f.group(1), 'what': f.group(2), 'input': f.group(3), 'stderr': err[-4000:]}
        elif not m and not r['fail']:
            r['reason'] = 'native driver ended without an answer (%s) %s' % (rc, (out + err)[-300:])
    return r

def explore(exe, pid, budget, procs, seed, cwd):
    with ThreadPoolExecutor(procs) as ex:
        fs = [ex.submit(run_native, exe, ['--seed', str(seed * 64 + k), '--time', str(budget), '--thorough', '1' if TIER == 'thorough' else '0'],
                        budget + 60, cwd) for k in range(procs)]
        return parse_native([f.result() for f in fs])

def known(pid):
    """lines 'known: property=Pxx match=<regex> | text' of the known-findings file"""
    out = []
    p = os.path.join(H, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out

def check(pid):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vx.%s.' % pid)
    try:
        return check_in(pid, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def check_in(pid, work, t0):
    us = units_of(pid, TIER)
    timeout_scale = 4 if TIER == 'thorough' else 1
    for u in us:
        u.timeout *= timeout_scale
    budget = 6 if TIER == 'quick' else 300
    pool = ThreadPoolExecutor(6)
    nb = pool.submit(build_native, pid, work)
    futs = [pool.submit(vx.run_unit, u, work) for u in sorted(us, key=lambda u: -u.timeout)]
    exe, nreason = nb.result()
    nat = None
    if exe:
        nat = explore(exe, pid, budget, 3 if TIER == 'quick' else 6, SEED, work)
    res = [f.result() for f in futs]
    pool.shutdown()
    for r in res:
        # the contract was written for a loop of another form: what fails may be the contract
        if r['status'] == 'FAILED' and r.get('misfit'):
            r['status'] = 'MISFIT'
            r['reason'] = 'loop contract does not fit: ' + r['misfit']
    failed = [r for r in res if r['status'] == 'FAILED' and r['kind'] == 'proof']
    bfailed = [r for r in res if r['status'] == 'FAILED' and r['kind'] != 'proof']
    undec = [r for r in res if r['status'] in ('UNDECIDED', 'MISFIT')]
    proofs = [r for r in res if r['kind'] == 'proof']
    # a failed or undecided proof: look longer for an input that shows it
    if exe and not (nat and nat['fail']) and (failed or undec or bfailed):
        more = explore(exe, pid, 40 if TIER == 'quick' else 300, 8, SEED + 7919, work)
        more['cases'] += nat['cases']; more['distinct'] += nat['distinct']
        nat = more
    fail = nat['fail'] if nat else None
    if fail:   # confirm on the real code
        conf = parse_native([run_native(exe, ['--case', fail['case']], 120, work)])
        if not conf['fail']:
            fail = None
            nat['reason'] = 'a failing case did not fail again when replayed'
    kf = known(pid)
    viol = None
    rdir = os.path.join(H, 'replays')
    rfile = os.path.join(rdir, pid + '.txt')
    if fail or failed or bfailed:
        os.makedirs(rdir, exist_ok=True)
        with open(rfile, 'w') as f:
            f.write('property %s\n' % pid)
            if fail:
                f.write('\nfailing input on the real code (case %s)\n  what:  %s\n  input: %s\nreplay: cd /verif && python3 check.py --replay %s %s\n\n%s\n'
                        % (fail['case'], fail['what'], fail['input'], pid, fail['case'], fail['stderr']))
            for r in failed + bfailed + [r for r in res if r['status'] == 'MISFIT']:
                f.write('\n%s unit %s: obligations that fail\n' % ('deductive' if r['kind'] == 'proof' else 'bounded', r['unit']))
                f.write('  %s\n' % r['desc'])
                for x in r['failed']:
                    f.write('  %s\n' % x)
                f.write('\nverifier output:\n%s\n' % r.get('output', ''))
                f.write('\ncounterexample of the verifier:\n%s\n' % r.get('trace', ''))
        viol = 'VIOLATION property=%s replay=%s' % (pid, rfile)
        if not fail:
            viol += ' no-failing-input-found'
    n_ob = sum(r['obligations'] for r in proofs)
    n_ok = sum(r['discharged'] for r in proofs)
    cov = {
        'obligations': n_ob, 'discharged': n_ok,
        'checker_cmd': next((r['checker_cmd'] for r in proofs if r.get('checker_cmd')), 'cbmc'),
        'trusted_base': TRUSTED,
        'back_end': 'CBMC 6.11.0 code contracts (goto-instrument --dfcc), MiniSat',
        'functions_under_contract': sorted({f for r in proofs for f in r['functions']}),
        'units': [{k: r.get(k) for k in ('unit', 'desc', 'kind', 'status', 'obligations', 'discharged', 'reach', 'solver_s', 'time', 'functions', 'bound', 'reason')} for r in res],
        'solver_seconds': round(sum(r['solver_s'] for r in res), 1),
        'undecided_units': [r['unit'] + ': ' + r['reason'][:300] for r in undec],
        'bounded_units': [r['unit'] + ': ' + r['bound'] for r in res if r['kind'] != 'proof'],
    }
    if nat:
        cov['replay_search'] = {'evaluations': nat['cases'], 'distinct_nontrivial': nat['distinct'], 'rule': nat['rule'],
                                'samples': nat['samples'][:3], 'note': 'random executions of the real code against a reference; validates the trusted models and finds replay inputs; never counted as proof'}
        if nat['reason']: cov['replay_search']['reason'] = nat['reason']
    elif nreason:
        cov['replay_search'] = {'reason': nreason}
    level = 'proof'
    if undec and not viol:
        level = 'other'
        cov['explanation'] = ('The obligations of %s could not be generated or decided for this source (%s); on this run those parts are covered only by '
                              'the bounded and native exploration, which found no violation.' % (', '.join(r['unit'] for r in undec), '; '.join(r['reason'][:120] for r in undec)))
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov,
          'assumptions': sorted({t for r in res for t in r['trust']}) + ['dropped bodies (replaced by the contract stated in the unit): ' + ', '.join(sorted({d for r in res for d in r['drop']}) or ['none'])],
          'wall_s': round(time.time() - t0, 1), 'violations': 1 if viol else 0}
    os.makedirs(os.path.join(H, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(H, 'evidence', pid + '.json'), 'w'), indent=1)
    for r in sorted(res, key=lambda r: r['unit']):
        print('%-10s %-22s %-8s %4d/%-4d obligations %6.1fs %s' % (r['status'], r['unit'], r['kind'], r['discharged'], r['obligations'], r['time'], r['reason'][:200].replace('\n', ' ')))
        for x in r['failed'][:6]: print('      ' + x)
    if nat:
        print('native     %d cases, %d distinct non-trivial %s' % (nat['cases'], nat['distinct'], nat['reason']))
    elif nreason:
        print('native     ' + nreason)
    for k, text in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    print('%s %.1fs' % (pid, time.time() - t0))
    if viol:
        if fail: print('failing input: %s: %s' % (fail['what'], fail['input'][:600]))
        print(viol)
        return 1
    return 0

def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        work = tempfile.mkdtemp(prefix='vx.replay.')
        try:
            exe, why = build_native(a[1], work)
            if not exe:
                print(why); return 2
            rc, o, e = run_native(exe, ['--case', a[2]], 120, work)
            print(o + e)
            return 1 if rc != 0 else 0
        finally:
            shutil.rmtree(work, ignore_errors=True)
    if a and a[0] == '--all':
        bad = 0
        for c in json.load(open(os.path.join(H, 'MANIFEST.json')))['checks']:
            bad |= check(c['property'])
        return bad
    return check(a[0])

if __name__ == '__main__':
    sys.exit(main())
