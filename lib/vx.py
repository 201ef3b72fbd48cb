"""Runs verification units (CBMC code contracts over the real sources)."""
import copy, os, re, subprocess, sys, time, json, shutil, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor
import annot

REPO = os.environ.get('VX_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INCS = [REPO + '/includes']
DEFS = ['-D_GNU_SOURCE', '-D__NO_CTYPE', '-D_FORTIFY_SOURCE=0', '-DARGUS_REGEX']

class Unit:
    pass

def parse_unit(path):
    u = Unit()
    u.path = path
    u.name = os.path.splitext(os.path.basename(path))[0]
    u.srcs, u.enforce, u.replace, u.drop, u.selfcall, u.const, u.preunwind = [], [], [], [], [], [], []
    u.loops = {}
    u.cbmc, u.kind, u.timeout, u.dfcc = [], 'proof', 120, True
    u.more, u.trust, u.rec = [], [], []
    u.bound = ''
    u.desc = ''
    u.defs, u.alts = [], []
    u.solver = 'minisat2 (CBMC SAT back end)'
    cur = None
    fn = None
    for ln in open(path):
        m = re.match(r'\s*//@\s*(\S+)\s*(.*)$', ln)
        if not m:
            continue
        k, v = m.group(1), m.group(2).strip()
        if k == 'src': u.srcs.append(v)
        elif k == 'more': u.more += v.split()
        elif k == 'enforce': u.enforce += v.split()
        elif k == 'enforce-rec': u.rec += v.split()
        elif k == 'replace': u.replace += v.split()
        elif k == 'drop': u.drop += v.split()
        elif k == 'preunwind': u.preunwind += v.split()
        elif k == 'const': u.const.append(v.split())
        elif k == 'selfcall': u.selfcall += v.split()
        elif k == 'fn':
            a = v.split()
            fn = a[0]
            u.loops[fn] = {'__count__': int(a[1])}
        elif k == 'loop':
            a = v.split()
            cur = u.loops[fn].setdefault(int(a[0]), {'assigns': [], 'inv': []})
            if 'ptr' in a[1:]: cur['ptr'] = True
            if 'skip' in a[1:]: cur['skip'] = True
        elif k == 'assigns': cur['assigns'] += [x.strip() for x in v.split(';') if x.strip()]
        elif k == 'noassign': cur.setdefault('noassign', []).extend(v.split())
        elif k == 'hyp': cur['hyp'] = v
        elif k == 'body': cur['body'] = v
        elif k == 'inv': cur['inv'].append(v)
        elif k == 'dec': cur['dec'] = v
        elif k == 'cbmc': u.cbmc += v.split()
        elif k == 'kind': u.kind = v
        elif k == 'bound': u.bound = v
        elif k == 'timeout': u.timeout = int(v)
        elif k == 'nodfcc': u.dfcc = False
        elif k == 'trust': u.trust.append(v)
        elif k == 'desc': u.desc = v
        elif k == 'def': u.defs += v.split()
        elif k == 'alt': u.alts.append(v)
        elif k == 'tier': u.tier = v
        elif k == 'contract-of': u.enforce_note = v
        else:
            raise SystemExit('%s: unknown directive %s' % (path, k))
    return u

RES_RE = re.compile(r'^\[(.+?)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$')

def sh(cmd, timeout, cwd=None):
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=cwd, errors='replace')
        return p.returncode, p.stdout, p.stderr, time.time() - t
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), '', time.time() - t

_shapes = None
def shapes():
    """the loop shapes the contracts were written for (lib/gen_shapes.py)"""
    global _shapes
    if _shapes is None:
        try:
            _shapes = json.load(open(VERIF + '/units/shapes.json'))
        except OSError:
            _shapes = {}
    return _shapes

def src_path(s):
    return REPO + '/source/' + s if not s.startswith('includes/') else REPO + '/' + s

def run_unit(u, work, keep=False):
    """a unit may state its loop invariants in alternative forms (alt DEFINE): it passes when the verifier accepts every
    obligation under one of them (an invariant is a witness: any one that is inductive proves the same contract)"""
    r = run_unit1(u, work, keep)
    for a in u.alts if r['status'] == 'FAILED' else []:
        v = copy.copy(u)
        v.defs, v.name, v._seen = u.defs + ['-D' + a], u.name + '-' + a, set()
        r2 = run_unit1(v, work, keep)
        if r2['status'] == 'PASS':
            r2['unit'] = u.name
            return r2
    return r

def run_unit1(u, work, keep=False):
    """returns dict: status PASS|FAILED|UNDECIDED, obligations, discharged, failed[], time"""
    r = {'unit': u.name, 'kind': u.kind, 'status': 'UNDECIDED', 'obligations': 0, 'discharged': 0,
         'failed': [], 'reason': '', 'functions': u.enforce + u.rec, 'drop': u.drop, 'solver_s': 0.0,
         'bound': u.bound, 'trust': u.trust, 'desc': u.desc}
    t0 = time.time()
    d = os.path.join(work, u.name)
    os.makedirs(d, exist_ok=True)
    log = []
    try:
        defs = DEFS + u.defs
        # annotated copies
        for i, s in enumerate(u.srcs):
            p = src_path(s)
            if not os.path.exists(p):
                raise annot.AnnotError('source file %s is missing' % p)
            text = open(p, encoding='utf-8').read()
            specs, drops = {}, []
            for f in u.loops:
                try:
                    annot.ast_function(p, f, INCS, DEFS)
                    specs[f] = u.loops[f]
                except annot.AnnotError:
                    pass
            for f in u.drop:
                try:
                    annot.ast_function(p, f, INCS, DEFS)
                    drops.append(f)
                except annot.AnnotError:
                    pass
            u.__dict__.setdefault('_seen', set()).update(specs.keys(), drops)
            mis = []
            out = annot.annotate(p, text, specs, drops, INCS, DEFS, [f for f in u.selfcall if f in specs], shapes().get(u.name.split("-")[0]), mis)
            if mis:
                r['misfit'] = '; '.join(filter(None, [r.get('misfit', '')] + mis))
            for nm, val in u.const: # a size macro made smaller in the copy (the unit says so)
                out = re.sub(r'(?m)^(#define[ \t]+%s[ \t]+)\d+' % nm, r'\g<1>' + val, out)
            if s.startswith('includes/'):
                o = os.path.join(d, s[len('includes/'):])
            else:
                o = os.path.join(d, 'src%d.c' % i)
            os.makedirs(os.path.dirname(o), exist_ok=True)
            open(o, 'w').write(out)
        for f in list(u.loops) + u.drop:
            if f not in u._seen:
                raise annot.AnnotError('function %s not found in %s' % (f, u.srcs))
        files = [u.path]
        cc = ['goto-cc', '--function', 'harness', '-std=gnu11', '-I' + d, '-I' + VERIF + '/lib',
              '-I' + os.path.dirname(u.path)] + ['-I' + i for i in INCS] + defs + files + [src_path(m) for m in u.more] + ['-o', d + '/a.gb']
        rc, o, e, _ = sh(cc, 60)
        log.append(' '.join(cc) + '\n' + o + e)
        if rc != 0:
            r['reason'] = 'extraction does not compile: ' + (e or o)[-600:]
            return r
        if u.preunwind: # a loop shown to end within a constant number of rounds (unwinding assertions kept)
            pu = ['goto-instrument', '--unwindset', ','.join(u.preunwind), '--unwinding-assertions', d + '/a.gb', d + '/a.gb']
            rc, o, e, _ = sh(pu, 60)
            log.append(' '.join(pu) + '\n' + o[-2000:] + e[-2000:])
            if rc != 0:
                r['reason'] = 'unwinding failed: ' + (e or o)[-600:]
                return r
        gi = ['goto-instrument']
        if u.dfcc:
            gi += ['--dfcc', 'harness']
            for f in u.enforce: gi += ['--enforce-contract', f]
            for f in u.rec: gi += ['--enforce-contract-rec', f]
            for f in u.replace: gi += ['--replace-call-with-contract', f]
        haveloops = any(k != '__count__' and not v.get('skip') for L in u.loops.values() for k, v in L.items())
        if haveloops or u.dfcc:
            if haveloops:
                gi += ['--apply-loop-contracts']
            gi += [d + '/a.gb', d + '/b.gb']
            rc, o, e, _ = sh(gi, 120)
            log.append(' '.join(gi) + '\n' + o[-3000:] + e[-3000:])
            if rc != 0:
                r['reason'] = 'contract instrumentation failed: ' + (e or o)[-600:]
                return r
        else:
            shutil.copy(d + '/a.gb', d + '/b.gb')
        cb = ['cbmc', d + '/b.gb', '--verbosity', '8'] + u.cbmc
        r['checker_cmd'] = ' '.join(gi) + ' && ' + ' '.join(cb)
        rc, o, e, dt = sh(cb, u.timeout)
        log.append(' '.join(cb) + '\n' + o + e)
        r['solver_s'] = round(dt, 2)
        if rc == 'timeout':
            r['reason'] = 'verifier gave no answer in %d s' % u.timeout
            return r
        nobody = set(re.findall(r'no body for (?:function|callee) (\S+)', o + e))
        nobody -= {'nondet_bool'}
        nobody = {x for x in nobody if not x.startswith('nondet_')}
        if rc not in (0, 10):
            r['reason'] = 'verifier error: ' + (o + e)[-600:]
            return r
        reach_ok, reach_bad, unwind_bad, fails, unknown, model_bad = 0, [], [], [], [], []
        n = ok = 0
        for ln in o.splitlines():
            m = RES_RE.match(ln.strip())
            if not m:
                continue
            pid, line, desc, st = m.groups()
            if desc.startswith('REACH '):
                if st == 'FAILURE': reach_ok += 1
                else: reach_bad.append(desc)
                continue
            n += 1
            if st == 'SUCCESS': ok += 1
            elif desc.startswith('MODEL ') and st == 'FAILURE': model_bad.append(desc[6:])
            elif 'unwinding assertion' in desc: unwind_bad.append(pid)
            elif st == 'FAILURE': fails.append('[%s] %s' % (pid, desc))
            else: unknown.append('%s: %s' % (pid, st))
        if unknown and not fails:
            r['reason'] = 'obligation ' + unknown[0]
            return r
        r['obligations'], r['discharged'] = n, ok
        r['reach'] = reach_ok
        if n == 0:
            r['reason'] = 'no obligation generated'
            return r
        if nobody:
            r['reason'] = 'calls without contract or body: ' + ', '.join(sorted(nobody))
            return r
        if unwind_bad and not fails:
            r['reason'] = 'loop outside the stated bound: ' + ', '.join(unwind_bad)
            r['failed'] = fails
            return r
        if fails:
            r['status'] = 'FAILED'
            r['failed'] = fails
            r['output'] = '\n'.join(l for l in o.splitlines() if 'FAILURE' in l and 'REACH' not in l)
            # the verifier's counterexample, for the replay file
            ids = [re.match(r'\[(.+?)\]', f).group(1) for f in fails][:2]
            cb2 = ['cbmc', d + '/b.gb', '--trace', '--compact-trace'] + u.cbmc
            for i in ids: cb2 += ['--property', i]
            rc, o2, e2, _ = sh(cb2, u.timeout)
            r['trace'] = o2[-6000:] if rc != 'timeout' else ''
            return r
        if model_bad:
            r['reason'] = 'a library call outside the trusted model: ' + '; '.join(model_bad)
            return r
        if reach_bad:
            r['status'] = 'FAILED'
            r['failed'] = ['unreachable: ' + x for x in reach_bad]
            r['output'] = '\n'.join(reach_bad)
            return r
        if reach_ok == 0:
            r['reason'] = 'no reachability guard'
            return r
        r['status'] = 'PASS'
        return r
    except annot.AnnotError as ex:
        r['reason'] = 'annotation does not match the code: %s' % ex
        return r
    finally:
        r['time'] = round(time.time() - t0, 2)
        open(os.path.join(d, 'log.txt'), 'w').write('\n'.join(log))
