"""Source-level view of the C code through clang's AST: used to insert text (never to change or remove any) in a scratch copy."""
import json, os, subprocess, threading
from . import core


def load_ast(path, incs, defs=()):
    cmd = ['clang', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json'] + ['-D' + d for d in defs] + incs + [path]
    out = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120).stdout
    ast = json.loads(out)
    cur = [None]
    def fix(x):
        if isinstance(x, dict):
            if 'file' in x and 'offset' in x: cur[0] = x['file']
            if 'offset' in x: x['_file'] = cur[0]
            for v in x.values(): fix(v)
        elif isinstance(x, list):
            for v in x: fix(v)
    fix(ast)
    return ast


def span(node, path):
    """(begin, end) offsets in path, or None (macro expansion or another file)"""
    r = node.get('range') or {}
    b, e = r.get('begin', {}), r.get('end', {})
    if 'offset' not in b or 'offset' not in e: return None
    if not b.get('_file') or not e.get('_file') or os.path.realpath(b['_file']) != os.path.realpath(path) or os.path.realpath(e['_file']) != os.path.realpath(path): return None
    return b['offset'], e['offset'] + e.get('tokLen', 1)


def walk(node, parents=()):
    yield node, parents
    for c in node.get('inner', []) or []:
        if isinstance(c, dict):
            yield from walk(c, parents + (node,))


class Insert:
    def __init__(self, path):
        self.path, self.src, self.ops = path, open(path, 'rb').read(), []

    def wrap(self, sp, before, after):
        # inner spans are nested: openings ordered by start then larger first, closings the reverse
        self.ops.append((sp[0], 1, -sp[1], before))
        self.ops.append((sp[1], 0, -sp[0], after))

    def at(self, off, text):
        self.ops.append((off, 2, 0, text))

    def text(self):
        out, last = [], 0
        for off, kind, key, t in sorted(self.ops, key=lambda o: (o[0], o[1], o[2])):
            out.append(self.src[last:off]); out.append(t.encode()); last = off
        out.append(self.src[last:])
        return b''.join(out)


def put(path, data):
    t = '%s.%d.%d' % (path, os.getpid(), threading.get_ident())
    open(t, 'wb').write(data)
    os.replace(t, path)


def rely_guarantee(rel, other, own, work, incs, defs=()):
    """scratch copy of a source file in which every read of the field the other thread owns is preceded by vp_env() and
    every write of the field this thread owns is followed by vp_env(); returns (path, number of points)"""
    path = os.path.join(core.REPO, rel)
    ast = load_ast(path, incs, defs)
    ins = Insert(path)
    n = 0
    for node, par in walk(ast):
        k = node.get('kind')
        if k == 'MemberExpr' and node.get('name') == other:
            sp = span(node, path)
            p = next((x for x in reversed(par) if x.get('kind') not in ('ParenExpr',)), {})
            if sp and p.get('kind') == 'ImplicitCastExpr' and p.get('castKind') == 'LValueToRValue':
                ins.wrap(sp, '(vp_env(), ', ')'); n += 1
        if k in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator') and (node.get('opcode') or '').replace('==', '') in ('=', '+=', '-=', '%=', '++', '--', '&=', '|=', '^=', '*=', '/='):
            lhs = node['inner'][0]
            while lhs.get('kind') == 'ParenExpr': lhs = lhs['inner'][0]
            if lhs.get('kind') == 'MemberExpr' and lhs.get('name') == own:
                sp = span(node, path)
                if sp: ins.wrap(sp, 'vp_after(', ')'); n += 1
    arith(ast, ins, path, '%', 'vp_mod')
    out = os.path.join(work, 'rg_%s_%s' % (own, os.path.basename(rel)))
    put(out, ins.text())
    return out, n


def arith(ast, ins, path, op, fn, types=('unsigned long', 'size_t')):
    """a op b of unsigned longs (or other types) as fn(a, b), which is the same function (vp.h; a job may ask for an over-approximation of it)"""
    for node, par in walk(ast):
        if node.get('kind') == 'BinaryOperator' and node.get('opcode') == op and (node['type'].get('desugaredQualType') or node['type'].get('qualType')) in types:
            l, r, sp = span(node['inner'][0], path), span(node['inner'][1], path), span(node, path)
            if l and r and sp and ins.src[l[1]:r[0]].strip() == op.encode():
                ins.wrap(sp, fn + '(', ')'); o = ins.src.index(op.encode(), l[1]); ins.at(o, '/*'); ins.at(o + 1, '*/,')


def products(rel):
    """job transform: products of unsigned longs as vp_mul(a, b)"""
    def f(work, incs):
        path = os.path.join(core.REPO, rel)
        ins = Insert(path)
        arith(load_ast(path, incs), ins, path, '*', 'vp_mul')
        out = os.path.join(work, 'mul_' + os.path.basename(rel))
        put(out, ins.text())
        return {rel: out}
    return f


def expand(rel, work, incs):
    """the source with the macros expanded (gcc -E); of the text only what comes from files of /repo is kept, the system headers are included as such"""
    r = subprocess.run(['gcc', '-E'] + incs + [os.path.join(core.REPO, rel)], capture_output=True, text=True)
    if r.returncode: raise RuntimeError(r.stderr)
    keep, out = False, ['#include <%s.h>' % h for h in ('stdint', 'stddef', 'stdlib', 'string', 'stdbool', 'limits', 'assert', 'math', 'stdio')]
    for l in r.stdout.split('\n'):
        if l.startswith('# '):
            f = l.split('"')[1] if '"' in l else ''
            keep = os.path.realpath(f).startswith(os.path.realpath(core.REPO) + '/')
        elif keep: out.append(l)
    path = os.path.join(work, 'exp_' + os.path.basename(rel))
    put(path, '\n'.join(out).encode())
    return path


def float_products(rel):
    """job transform: macros expanded, products of floats and doubles as vp_mulf(a, b), vp_muld(a, b)"""
    def f(work, incs):
        path = expand(rel, work, incs)
        ins, ast = Insert(path), load_ast(path, incs)
        arith(ast, ins, path, '*', 'vp_mulf', ('float',))
        arith(ast, ins, path, '*', 'vp_muld', ('double',))
        out = os.path.join(work, 'fmul_' + os.path.basename(rel))
        put(out, ins.text())
        return {rel: out}
    return f
