"""Unbounded loops: invariants found, checked and assumed loop by loop.

The real source is copied to a scratch file with text inserted (none removed, none changed): in front of every loop
condition a hook is evaluated.  On its first arrival the hook checks the invariant (base case), gives every variable
assigned in the loop an arbitrary value, and assumes the invariant; on its second arrival (after exactly one arbitrary
iteration) it checks the invariant again (step) and ends the path.  This is the usual loop rule: what holds after the loop is
proved for any number of iterations.  Loop number n has a ghost counter vp_k<n> of iterations done.

The invariant is a conjunction of candidates, generated from the text of the loop (for every assigned variable: unchanged,
entry value plus/minus the iterations done) and from the job (ghost relations).  Candidates that fail their base case or
step are dropped until all that remain are proved (Houdini); nothing is ever assumed that is not checked in the same run.
"""
import hashlib, os, re, threading, time
from . import core, cast

LOOPS = ('ForStmt', 'WhileStmt', 'DoStmt')
ASSIGN = ('=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=')
INTS = re.compile(r'^(unsigned |signed )?(char|short|int|long|long long|_Bool)$|^unsigned$')


def base_var(e):
    """the variable whose own storage an lvalue denotes (None when it goes through a pointer)"""
    while True:
        k = e.get('kind')
        if k == 'DeclRefExpr': return e.get('referencedDecl')
        if k == 'ParenExpr': e = e['inner'][0]
        elif k == 'MemberExpr' and not e.get('isArrow'): e = e['inner'][0]
        else: return None


def kind_of(qual):
    t = re.sub(r'\b(const|volatile|register)\b', '', qual).strip()
    t = re.sub(r'\s+', ' ', t)
    if t.endswith('*') and '(' not in t: return 'ptr'
    if INTS.match(t) or t.startswith('enum '): return 'int'
    return 'other'


def scan(path, incs, defs=()):
    """[(function, loop node, condition span or None, loop span, [(name, type, kind)])] in source order"""
    ast = cast.load_ast(path, incs, defs)
    out = []
    for fn, par in cast.walk(ast):
        if fn.get('kind') != 'FunctionDecl' or not any(c.get('kind') == 'CompoundStmt' for c in fn.get('inner', []) or []): continue
        addr = {}
        for n, p in cast.walk(fn):
            if n.get('kind') == 'UnaryOperator' and n.get('opcode') == '&':
                v = base_var(n['inner'][0])
                if v and v.get('kind') in ('VarDecl', 'ParmVarDecl'): addr[v['id']] = v
        decls = {n['id']: n for n, p in cast.walk(fn) if n.get('kind') in ('VarDecl', 'ParmVarDecl')}
        for n, p in cast.walk(fn):
            if n.get('kind') not in LOOPS: continue
            sp = cast.span(n, path)
            if not sp: continue
            kids = n['inner']
            if n['kind'] == 'ForStmt': init, cond, body, rest = kids[0], kids[2], kids[4], kids[2:]
            elif n['kind'] == 'WhileStmt': init, cond, body, rest = {}, kids[-2], kids[-1], kids
            else: init, cond, body, rest = {}, kids[1], kids[0], kids
            inner = {x['id'] for k in ([body, cond] + ([kids[3]] if n['kind'] == 'ForStmt' else [])) for x, _ in cast.walk(k) if x.get('kind') == 'VarDecl'}
            mod = dict((i, v) for i, v in addr.items())
            for k in rest:
                for x, _ in cast.walk(k):
                    if x.get('kind') in ('BinaryOperator', 'CompoundAssignOperator') and x.get('opcode') in ASSIGN or x.get('kind') == 'UnaryOperator' and x.get('opcode') in ('++', '--'):
                        v = base_var(x['inner'][0])
                        if v: mod[v['id']] = v
            vs = []
            for i, v in mod.items():
                if i in inner: continue
                if i in decls and decls[i].get('storageClass') == 'static': pass
                # an address-taken local declared after or outside this loop's scope is not visible here
                if i in addr and i in decls and not visible(decls[i], n, fn): continue
                t = v.get('type', {})
                qt = t.get('desugaredQualType') or t.get('qualType', '')
                vs.append((v['name'], t.get('qualType', ''), kind_of(qt)))
            ptrs = []
            for i, v in decls.items():
                t = v.get('type', {})
                if kind_of(t.get('desugaredQualType') or t.get('qualType', '')) == 'ptr' and i not in inner and visible(v, n, fn): ptrs.append((v['name'], t.get('qualType', '')))
            out.append((fn['name'], n, cast.span(cond, path) if cond else None, sp, sorted(set(vs)), cond, sorted(set(ptrs))))
    return out


def visible(decl, loop, fn):
    path = None
    def find(node, target, trail):
        if node.get('id') == target: return trail
        for c in node.get('inner', []) or []:
            if isinstance(c, dict):
                r = find(c, target, trail + [node])
                if r: return r
        return None
    td, tl = find(fn, decl['id'], []), find(fn, loop['id'], [])
    if td is None or tl is None: return False
    scopes = [x['id'] for x in td if x.get('kind') in ('CompoundStmt', 'FunctionDecl') + LOOPS]
    mine = [x['id'] for x in tl] + [loop['id']]
    if not all(s in mine for s in scopes): return False
    b = lambda x: x['range']['begin'].get('offset', x['range']['begin'].get('expansionLoc', {}).get('offset', 0))
    return decl.get('kind') == 'ParmVarDecl' or b(decl) <= b(loop) or loop['id'] in scopes


def candidates(n, vs, spec):
    """[(key, expression)] of loop n"""
    k = 'vp_k%d' % n
    out = []
    for v, t, kind in vs:
        e = 'vp_e%d_%s' % (n, v)
        if kind == 'int':
            out += [c for c in [('%s == entry' % v, '%s == %s' % (v, e)), ('%s == entry + k' % v, '%s == (__typeof__(%s))(%s + %s)' % (v, v, e, k)),
                    ('%s == entry - k' % v, '%s == (__typeof__(%s))(%s - %s)' % (v, v, e, k))] if c[0].split('entry')[1] in spec.get('generic', ('', ' + k', ' - k'))]
            for s in spec.get('int', ()): out.append(('@v ' + s.replace('@v', v), s.replace('@v', v).replace('@e', e).replace('@k', k)))
        elif kind == 'ptr':
            out += [('%s == entry' % v, 'vp_d%d_%s == 0' % (n, v)), ('%s == entry + k' % v, 'vp_d%d_%s == (long)%s' % (n, v, k)), ('%s == entry - k' % v, 'vp_d%d_%s == -(long)%s' % (n, v, k))]
            for s in spec.get('ptr', ()): out.append(('@v ' + s, s.replace('@d', 'vp_d%d_%s' % (n, v)).replace('@k', k)))
        for s in spec.get('type', {}).get(re.sub(r'\bconst\b', '', t).strip(), ()):
            out.append(('@v ' + s.replace('@v', v), s.replace('@v', v).replace('@e', e).replace('@k', k)))
    for s in spec.get('inv', ()): out.append((s, s.replace('@k', k)))
    return out


def tag(rel, c):
    return hashlib.sha1((rel + ' ' + c).encode()).hexdigest()[:12]


DEFAULTS = """#ifndef VP_LOOP_MUST
#define VP_LOOP_MUST(k, w)
#endif
#ifndef VP_LOOP_HAVOC
#define VP_LOOP_HAVOC(k)
#endif
#ifndef VP_LOOP_AFTER
#define VP_LOOP_AFTER(k)
#endif
#ifndef VP_LOOP_ASSUME
#define VP_LOOP_ASSUME(k)
#endif
"""


def instrument(rel, spec, work, incs, defs, dropped, name, top=None, hint=(), path=None):
    path = path or os.path.join(core.REPO, rel)
    ins = cast.Insert(path)
    src = ins.src
    info = []
    for n, (fn, node, csp, sp, vs, cond, ptrs) in enumerate(scan(path, incs, defs)):
        if spec.get('fns') and fn not in spec['fns']: continue
        cs = [(c, x) for c, x in candidates(n, vs, spec) if (n, tag(rel, c)) not in dropped and c not in hint]
        k = 'vp_k%d' % n
        pre, first, hav, sync = [], [], [], []
        for v, t, kind in vs:
            e, d = 'vp_e%d_%s' % (n, v), 'vp_d%d_%s' % (n, v)
            ty = re.sub(r'\b(const|volatile)\b\s*(?=\w)', lambda m: m[0], t)
            if kind == 'ptr':
                pre.append('%s %s; long %s;' % (ty, e, d))
                first.append('%s = %s; %s = 0;' % (e, v, d))
                hav.append('{ long vp_nd; %s = vp_nd; } %s = %s + %s;' % (d, v, e, d))
                # by iterations: same object, so that the difference is a difference of positions in it
                sync.append('if (%s == %s) %s = 0; else { __CPROVER_assert(__CPROVER_same_object(%s, %s), "vpptr %s stays in its object"); %s = %s - %s; }' % (v, e, d, v, e, v, d, v, e))
            elif '[' in t or '(' in t:
                return None, 'loop %d of %s assigns %s of type %s' % (n, fn, v, t)
            else:
                # entry copies without qualifiers
                t2 = re.sub(r'\b(const|volatile)\b', '', t)
                pre.append('%s %s;' % (t2, e))
                first.append('%s = %s;' % (e, v))
                hav.append('{ %s vp_nd; %s = vp_nd; }' % (t2, v))
        check = lambda w: ' '.join('__CPROVER_assert(%s, "vpinv %d %s %s");' % (x, n, tag(rel, c), w) for c, x in cs)
        win = after = ''
        if spec.get('window'):
            # one element of the array is enough for one iteration: the object that stands for the array becomes a view of element k;
            # every pointer into it moves along (an access to another element is out of bounds, hence a failed obligation)
            ob, ty = spec['window']
            if fn != top: win = '__CPROVER_assert(0, "vpwin loop of %s outside the function under contract");' % fn
            names = [v for v, t in ptrs]
            if len(set(names)) != len(names): return None, 'variables of the same name around loop %d of %s' % (n, fn)
            mod = {v for v, t, kd in vs if kd == 'ptr'}
            move = lambda x, to: ' if (__CPROVER_same_object(%s, %s)) %s = (__typeof__(%s))((char *)%s - (%s - VPBASE) * (long)sizeof(%s));' % (x, ob, x, x, x, to, ty)
            for v, t in ptrs:
                if v not in mod and re.search(r'\*\s*(const|volatile)\s*$', t): return None, 'constant pointer %s' % v
                win += move('vp_e%d_%s' % (n, v) if v in mod else v, '(long)vp_k%d' % n)
            win += ' VPBASE = (long)vp_k%d;' % n
            # after the loop the view may move on to the element the code that follows uses (VP_LOOP_AFTER sets VPVIEW and loads it)
            after = ' if (vp_ph%d) { long VPVIEW = VPBASE; VP_LOOP_AFTER(vp_k%d) %s VPBASE = VPVIEW; }' % (n, n, ''.join(move(v, 'VPVIEW') for v, t in ptrs))
        hook = '({ if (vp_ph%d == 0) { vp_ph%d = 1; vp_k%d = 0; %s %s VP_LOOP_MUST(vp_k%d, "base") { unsigned long vp_nd; vp_k%d = vp_nd; } %s VP_LOOP_HAVOC(vp_k%d) %s VP_LOOP_ASSUME(vp_k%d) } ' % (
            n, n, n, ' '.join(first), check('base'), n, n, win + ' ' + ' '.join(hav), n, ' '.join('__CPROVER_assume(%s);' % x for c, x in cs), n)
        hook += 'else { vp_k%d++; %s %s VP_LOOP_MUST(vp_k%d, "step") __CPROVER_assume(0); } })' % (n, ' '.join(sync), check('step'), n)
        decl = '{ int vp_ph%d = 0; unsigned long vp_k%d; %s ' % (n, n, ' '.join(pre))
        end = sp[1]
        if src[end - 1:end] not in (b'}', b';'):
            while src[end:end + 1] != b';': end += 1
            end += 1
        ins.wrap((sp[0], end), decl, after + ' }')
        if cond and not csp: return None, 'condition of loop %d of %s is a macro' % (n, fn)
        if csp: ins.wrap(csp, '(%s, (' % hook, '))')
        else:
            # for (a; ; b): after the first semicolon outside parentheses
            i, d, seen = src.index(b'(', sp[0]) + 1, 0, 0
            while True:
                c = src[i:i + 1]
                if c == b'(': d += 1
                if c == b')': d -= 1
                if c == b';' and d == 0: break
                i += 1
            ins.at(i + 1, ' (%s, 1)' % hook)
        info.append(dict(file=rel, function=fn, loop=n, invariant=[c for c, x in cs], havocked=[v for v, _, _ in vs]))
    out = os.path.join(work, 'loops_%s_%s' % (re.sub(r'\W', '_', name), os.path.basename(rel)))
    cast.put(out, DEFAULTS.encode() + ins.text())
    return (out, info), None


def solve_loops(job, work):
    """with the job's hints (candidates known to fail on the code as it was: only to save rounds) first, then without"""
    end = time.time() + job.loops.get('budget', 420 if job.tier == 'quick' else 3000)
    if job.loops.get('hint'):
        R = houdini(job, work, job.loops['hint'], end)
        if R.status == 'proved': return R
    return houdini(job, work, (), end)


def houdini(job, work, hint, end):
    spec = job.loops
    dropped = set()
    t0 = time.time()
    incs = core.incflags(job)
    defs = list(job.unit.defs) + list(job.defs) + spec.get('defs', [])
    rounds = 0
    R = None
    while rounds < 40:
        if R and time.time() > end - 10:
            R.status, R.reason = 'undecided', 'time for the search of invariants used up'
            break
        rounds += 1
        srcmap, infos = {}, []
        base = job.transform(work, incs) if job.transform else {}
        for rel in spec.get('src') or job.unit.src:
            r, why = instrument(rel, spec, os.path.join(work), incs, defs, dropped, job.name, job.fn, hint, base.get(rel))
            if r is None:
                R = core.Result(job, 'dfcc'); R.status, R.reason = 'undecided', why
                return R
            srcmap[rel] = r[0]; infos += r[1]
        R = core.solve(job, 'plain' if job.plain else 'dfcc', work, srcmap=srcmap, tag='_loops', timeout=max(5, min(job.timeout, end - time.time())))
        R.loops = infos
        bad = [f for f in R.failed if f[1].startswith('vpinv ')]
        if os.environ.get('VP_DEBUG'): print(rounds, '%.0f' % (time.time() - t0), R.status, [(f[0], f[1], [c for i in infos for c in i['invariant'] if f[1].startswith('vpinv') and tag(i['file'], c) in f[1]]) for f in R.failed])
        if not bad: break
        for f in bad:
            _, n, t, w = f[1].split(' ')
            dropped.add((int(n), t))
    R.wall = time.time() - t0
    R.rounds = rounds
    if R.status == 'failed':
        R.status, R.reason = 'undecided', 'no inductive invariant found that gives: ' + '; '.join(f[0] for f in R.failed[:3])
    return R
