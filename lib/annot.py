"""Mechanical annotation of the real C source.

Works on a scratch copy of one file of /repo: locates a function and its loops
with clang's AST, inserts loop contracts and ghost hooks, and can drop the body
of a named function (its callers then see the contract stub given by the unit).
Nothing else of the text is touched.
"""
import json, os, subprocess, re

class AnnotError(Exception):
    pass

def _docs(text):
    dec = json.JSONDecoder()
    i = 0
    n = len(text)
    while i < n:
        while i < n and text[i].isspace():
            i += 1
        if i >= n:
            break
        d, j = dec.raw_decode(text, i)
        yield d
        i = j

_cache = {}

def ast_function(path, func, incs, defs=()):
    key = (path, func)
    if key in _cache:
        return _cache[key]
    cmd = ['clang', '-fsyntax-only', '-w', '-x', 'c', '-std=gnu11', '-Xclang', '-ast-dump=json',
           '-Xclang', '-ast-dump-filter=' + func] + ['-I' + i for i in incs] + list(defs) + [path]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnnotError('clang failed on %s: %s' % (path, r.stderr[-500:]))
    found = None
    # drop textual noise: json documents are separated by "Dumping x:" lines
    txt = re.sub(r'^Dumping .*:$', '', r.stdout, flags=re.M)
    for d in _docs(txt):
        if d.get('kind') == 'FunctionDecl' and d.get('name') == func:
            if any(c.get('kind') == 'CompoundStmt' for c in d.get('inner', [])):
                found = d
    if found is None:
        raise AnnotError('function %s has no body in %s' % (func, path))
    _cache[key] = found
    return found

def _off(loc):
    if 'expansionLoc' in loc:
        loc = loc['expansionLoc']
    if 'offset' not in loc:
        raise AnnotError('no offset')
    return loc['offset'], loc.get('tokLen', 1)

def begin(node):
    return _off(node['range']['begin'])[0]

def end(node):
    o, t = _off(node['range']['end'])
    return o + t

LOOPS = ('ForStmt', 'WhileStmt', 'DoStmt')

def _in_macro(node):
    return 'expansionLoc' in node.get('range', {}).get('begin', {})

def _is_do_while_0(n):
    if n['kind'] != 'DoStmt':
        return False
    cond = n['inner'][-1]
    while cond.get('kind') in ('ImplicitCastExpr', 'ParenExpr') and cond.get('inner'):
        cond = cond['inner'][0]
    return cond.get('kind') == 'IntegerLiteral' and cond.get('value') == '0'

def loops(fn):
    out = []
    def walk(n):
        if not isinstance(n, dict):
            return
        if n.get('kind') in LOOPS and not _is_do_while_0(n):
            out.append(n)
        for c in n.get('inner', []) or []:
            walk(c)
    walk(fn)
    return out

def _strip(e):
    while e.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr') and e.get('inner'):
        e = e['inner'][0]
    return e

def _refvar(e):
    e = _strip(e)
    if e.get('kind') == 'DeclRefExpr' and e['referencedDecl'].get('kind') in ('VarDecl', 'ParmVarDecl'):
        return e['referencedDecl']
    return None

def assigned_vars(n):
    """declRefs of plain variables assigned (or whose address is taken) below n"""
    out = {}
    def base(e):
        e = _strip(e)
        # x.f = / x[i] = on a local aggregate counts as assigning x
        while e.get('kind') in ('MemberExpr', 'ArraySubscriptExpr'):
            if e['kind'] == 'MemberExpr' and e.get('isArrow'):
                return None
            sub = e['inner'][0]
            if e['kind'] == 'ArraySubscriptExpr':
                # only arrays (not pointers) are the object itself
                s = sub
                if s.get('kind') == 'ImplicitCastExpr' and s.get('castKind') == 'ArrayToPointerDecay':
                    e = _strip(s)
                    continue
                return None
            e = _strip(sub)
        return _refvar(e)
    def walk(n):
        if not isinstance(n, dict):
            return
        k = n.get('kind')
        v = None
        if k == 'BinaryOperator' and n.get('opcode') == '=':
            v = base(n['inner'][0])
        elif k == 'CompoundAssignOperator':
            v = base(n['inner'][0])
        elif k == 'UnaryOperator' and n.get('opcode') in ('++', '--', '&'):
            v = base(n['inner'][0])
        if v:
            out[v['id']] = v
        for c in n.get('inner', []) or []:
            walk(c)
    walk(n)
    return out

def declared_vars(n):
    out = set()
    def walk(n):
        if not isinstance(n, dict):
            return
        if n.get('kind') == 'VarDecl':
            out.add(n['id'])
        for c in n.get('inner', []) or []:
            walk(c)
    walk(n)
    return out

def used_vars(n):
    out = {}
    def walk(n):
        if not isinstance(n, dict):
            return
        if n.get('kind') == 'DeclRefExpr' and n['referencedDecl'].get('kind') in ('VarDecl', 'ParmVarDecl'):
            out[n['referencedDecl']['id']] = n['referencedDecl']
        for c in n.get('inner', []) or []:
            walk(c)
    walk(n)
    return out

def locals_of(fn, static=False):
    out = []
    def walk(n):
        if not isinstance(n, dict):
            return
        if n.get('kind') == 'VarDecl' and (n.get('storageClass') == 'static') == static:
            out.append((n['name'], (n.get('type', {}).get('qualType') or '').replace('_Bool', 'bool')))
        for c in n.get('inner', []) or []:
            walk(c)
    walk(fn)
    return out

def loop_info(lp, fn):
    k = lp['kind']
    inner = lp['inner']
    info = {'kind': k, 'node': lp}
    if k == 'ForStmt':
        # init, condvar, cond, inc, body
        init, _cv, cond, inc, body = (inner + [{}] * 5)[:5]
        info.update(init=init, cond=cond if cond else None, inc=inc if inc else None, body=body)
    elif k == 'WhileStmt':
        info.update(init=None, cond=inner[0], inc=None, body=inner[-1])
    else:
        info.update(init=None, cond=inner[-1], inc=None, body=inner[0])
    mod = {}
    for part in ('cond', 'inc', 'body'):
        if info.get(part):
            mod.update(assigned_vars(info[part]))
    decl_in = set()
    for part in ('body',):
        if info.get(part):
            decl_in |= declared_vars(info[part])
    info['assigned'] = [v['name'] for i, v in mod.items() if i not in decl_in]
    cand = None
    if info['inc']:
        a = assigned_vars(info['inc'])
        if len(a) == 1:
            cand = list(a.values())[0]
    if cand is None and info['cond']:
        u = used_vars(info['cond'])
        c = [v for i, v in u.items() if i in mod and i not in decl_in]
        if len(c) == 1:
            cand = c[0]
        elif len(c) > 1:
            c2 = [v for v in c if v.get('type', {}).get('qualType') in ('int', 'size_t', 'unsigned int', 'long', 'unsigned long')]
            if len(c2) == 1:
                cand = c2[0]
    if cand:
        info['ivar'] = cand['name']
        info['itype'] = cand.get('type', {}).get('qualType')
    return info

def _width(t):
    t = re.sub(r'\b(const|volatile|register)\b', '', t or '').strip()
    if '*' in t:
        return 'pointer'
    if t in ('int', 'int32_t', 'short', 'char', 'signed char'):
        return 's32'
    if t in ('unsigned int', 'uint32_t', 'unsigned char', 'unsigned short'):
        return 'u32'
    if t in ('long', 'long long', 'int64_t', 'ssize_t', 'ptrdiff_t', 'intptr_t'):
        return 's64'
    if t in ('unsigned long', 'unsigned long long', 'size_t', 'uint64_t', 'uintptr_t'):
        return 'u64'
    return t

def loop_shape(info, fn, sp):
    """what a contract takes for granted about the form of its loop: the kind and
    type of the variable it runs over, the direction, whether the condition
    itself moves it, and which other variables the loop carries.  Start value, comparison
    and step are not part of it: those are what the obligations judge."""
    iv = info.get('ivar')
    dirs, incond = set(), False
    def walk(n, cond):
        nonlocal incond
        if not isinstance(n, dict):
            return
        k, tgt, op = n.get('kind'), None, None
        if k == 'UnaryOperator' and n.get('opcode') in ('++', '--', '&'):
            tgt, op = n['inner'][0], {'++': 'up', '--': 'down', '&': 'address'}[n['opcode']]
        elif k == 'CompoundAssignOperator':
            tgt, op = n['inner'][0], {'+=': 'up', '-=': 'down'}.get(n['opcode'], 'set')
        elif k == 'BinaryOperator' and n.get('opcode') == '=':
            tgt, op = n['inner'][0], 'set'
        if tgt is not None:
            v = _refvar(tgt)
            if v and v.get('name') == iv:
                dirs.add(op)
                incond = incond or cond
        for c in n.get('inner', []) or []:
            walk(c, cond)
    for part in ('cond', 'inc', 'body'):
        if info.get(part):
            walk(info[part], part == 'cond')
    txt = ' '.join(sp.get('inv', []) + [sp.get('hyp', ''), sp.get('dec', ''), sp.get('body', '')])
    sh = {'test': 'after' if info['kind'] == 'DoStmt' else 'before',
          'runs over': _width(info.get('itype')) if iv else 'nothing',
          'moves': '+'.join(sorted(dirs)), 'moved by its condition': incond}
    types = {}
    def tw(n):
        if isinstance(n, dict):
            if n.get('kind') in ('VarDecl', 'ParmVarDecl') and n.get('name'):
                types[n['name']] = n.get('type', {}).get('qualType')
            for c in n.get('inner', []) or []:
                tw(c)
    tw(fn)
    sh['carries'] = sorted(_width(types.get(v)) for v in info['assigned'] if v != iv)
    if re.search(r'\{p\d', txt):
        sh['parameters'] = [re.sub(r'\bconst\b|\s', '', p.get('type', {}).get('qualType', '')) for p in fn['inner'] if p.get('kind') == 'ParmVarDecl']
    for m in sorted(set(re.findall(r'\{[ls]:([^}#]*)', txt))):
        sh['locals ' + m] = len([v for v in locals_of(fn) + locals_of(fn, True) if v[1] == m])
    return sh

def shape_diff(want, got):
    if want is None:
        return ''
    d = []
    for k in sorted(set(want) | set(got)):
        a, b = want.get(k), got.get(k)
        if a == b:
            continue
        # a narrower index is not a matter of form
        if k == 'runs over' and (a, b) in (('u64', 'u32'), ('s64', 's32'), ('u64', 's32'), ('s64', 'u32')):
            continue
        d.append('%s: %s, contract written for %s' % (k, b, a))
    return ', '.join(d)

def annotate(path, text, specs, drops, incs, defs=(), selfcall=(), shapes=None, misfits=None, record=None):
    """specs: {func: {loop_index: dict(assigns=[], hyp='', inv=[], dec='', n=total)}}"""
    edits = []   # (pos, insert)  or (start, end, repl)
    for fn in drops:
        d = ast_function(path, fn, incs, defs)
        body = [c for c in d['inner'] if c.get('kind') == 'CompoundStmt'][0]
        edits.append((begin(body), end(body), ';'))
        # static functions without body: keep linkage by dropping 'static'/'inline' before the name
        b = begin(d)
        head = text[b:begin(body)]
        newhead = re.sub(r'\b(static|inline)\b', '', head)
        if newhead != head:
            edits.append((b, begin(body), newhead))
    for fn in selfcall:
        # a recursive call is seen through the contract stub vx_self_<fn>
        d = ast_function(path, fn, incs, defs)
        body = [c for c in d['inner'] if c.get('kind') == 'CompoundStmt'][0]
        edits.append((begin(body) + 1, begin(body) + 1, '\n#define %s vx_self_%s\n' % (fn, fn)))
        edits.append((end(body) - 1, end(body) - 1, '\n#undef %s\n' % fn))
    for fn, lspec in specs.items():
        d = ast_function(path, fn, incs, defs)
        params = [p.get('name') for p in d['inner'] if p.get('kind') == 'ParmVarDecl']
        ls = loops(d)
        want = lspec['__count__']
        if len(ls) != want:
            raise AnnotError('%s has %d loops, contract written for %d' % (fn, len(ls), want))
        for idx, sp in lspec.items():
            if idx == '__count__':
                continue
            info = loop_info(ls[idx], d)
            if not sp.get('skip'):
                sh = loop_shape(info, d, sp)
                if record is not None:
                    record['%s.%d' % (fn, idx)] = sh
                diff = shape_diff((shapes or {}).get('%s.%d' % (fn, idx)), sh)
                if diff and misfits is not None:
                    misfits.append('%s loop %d %s' % (fn, idx, diff))
            def sub(s):
                if '{i}' in s:
                    if 'ivar' not in info:
                        raise AnnotError('%s loop %d: no induction variable' % (fn, idx))
                    if '*' in (info.get('itype') or '') and not sp.get('ptr'):
                        raise AnnotError('%s loop %d: induction variable is a pointer' % (fn, idx))
                    s = s.replace('{i}', info['ivar'])
                for k, p in enumerate(params):
                    s = s.replace('{p%d}' % k, p or '')
                for m in re.findall(r'\{s:([^}]*)\}', s):
                    c = [v for v in locals_of(d, True) if m == v[1]]
                    if len(c) != 1:
                        raise AnnotError('%s: no unique static local of type %s' % (fn, m))
                    s = s.replace('{s:%s}' % m, c[0][0])
                others = [v for v in info['assigned'] if v != info.get('ivar')]
                for m in re.findall(r'\{v(\d)\}', s):
                    if int(m) >= len(others):
                        raise AnnotError('%s loop %d: no loop variable %s' % (fn, idx, m))
                    s = s.replace('{v%s}' % m, others[int(m)])
                loc = locals_of(d)
                for m in re.findall(r'\{l:([^}]*)\}', s):
                    c = [v for v in loc if m.split('#')[0] == v[1]]
                    n = int(m.split('#')[1]) if '#' in m else None
                    if n is None and len(c) != 1 or n is not None and n >= len(c):
                        raise AnnotError('%s: no unique local of type %s' % (fn, m))
                    s = s.replace('{l:%s}' % m, c[n or 0][0])
                return s
            if sp.get('skip'):
                continue
            node = info['node']
            if _in_macro(node):
                raise AnnotError('loop in macro')
            assigns = []
            for v in info['assigned'] + [sub(a) for a in sp.get('assigns', [])]:
                if v not in assigns and v not in sp.get('noassign', []):
                    assigns.append(v)
            clause = '\n'
            if assigns:
                clause += '__CPROVER_assigns(%s)\n' % ', '.join(assigns)
            for iv in sp.get('inv', []):
                clause += '__CPROVER_loop_invariant(%s)\n' % sub(iv)
            if sp.get('dec'):
                clause += '__CPROVER_decreases(%s)\n' % sub(sp['dec'])
            if info['kind'] == 'DoStmt':
                # contract goes after "do { } while (cond)"
                c = info['cond']
                e = end(node)
                # node end is the closing paren of while (...)
                edits.append((e, e, clause))
            else:
                b = begin(info['body'])
                edits.append((b, b, clause))
            if sp.get('hyp'):
                h = sub(sp['hyp'])
                if info['cond']:
                    cb, ce = begin(info['cond']), end(info['cond'])
                    if _in_macro(info['cond']):
                        raise AnnotError('condition in macro')
                    edits.append((cb, cb, '(%s), (' % h))
                    edits.append((ce, ce, ')'))
                else:
                    # for (init;;inc): find second ';' after init
                    b = begin(node)
                    seg = text[b:begin(info['body'])]
                    m = re.search(r';(\s*);', seg)
                    if not m:
                        raise AnnotError('no condition slot')
                    pos = b + m.start() + 1
                    edits.append((pos, pos, '(%s), 1' % h))
            if sp.get('body'):
                if info['body'].get('kind') != 'CompoundStmt':
                    b0, e0 = begin(info['body']), end(info['body'])
                    # statement end does not include ';'
                    while text[e0 - 1] != ';' and e0 < len(text):
                        e0 += 1
                    edits.append((b0, b0, '{ %s ' % sub(sp['body'])))
                    edits.append((e0, e0, ' }'))
                else:
                    b0 = begin(info['body']) + 1
                    edits.append((b0, b0, ' %s ' % sub(sp['body'])))
    # apply from the end; for equal positions keep list order
    order = sorted(range(len(edits)), key=lambda k: (edits[k][0], k))
    out = []
    pos = 0
    data = text.encode()
    for k in order:
        s, e, r = edits[k]
        if s < pos:
            raise AnnotError('overlapping edits')
        out.append(data[pos:s].decode())
        out.append(r)
        pos = e
    out.append(data[pos:].decode())
    return ''.join(out)
