"""Syntax-tree queries: storage, aliasing and lifetime rules over all functions of the library."""
from .cast import *
from .harness import REPO

STD_ACCESS = {'c_str', 'data', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'front', 'back', 'at', 'get', 'value', 'find', 'lower_bound', 'upper_bound', 'operator[]', 'operator*', 'operator->', 'str'}
IMPURE = {'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'mrand48', 'srand48', 'rand_r', 'setlocale', 'strtok', 'putenv', 'setenv', 'localtime', 'gmtime', 'asctime', 'ctime', 'tmpnam', 'clock', 'time', 'getenv', 'system', 'fesetround', 'fesetenv', 'signal', 'atexit', 'set_terminate', 'set_new_handler'}


def where(n):
    l = n.get('_spell') or n.get('_loc')
    return '%s:%s' % tuple(l) if l else '?'


def in_repo(n):
    l = n.get('_spell') or n.get('_loc')
    return bool(l and str(l[0]).startswith(REPO))


def walk(n, lambdas=True):
    if not isinstance(n, dict):
        return
    yield n
    for c in n.get('inner', []) or []:
        if not isinstance(c, dict) or (not lambdas and c.get('kind') == 'LambdaExpr'):
            continue
        yield from walk(c, lambdas)


def functions(ast):
    """definitions written in the repository (template patterns and instantiations alike)"""
    seen = set()
    for n in list(ast.decl.values()):
        if n.get('kind') in FUNS and ast.body(n) is not None and in_repo(n) and id(n) not in seen:
            seen.add(id(n))
            yield n


def is_ref(t):
    return norm_type(t).endswith('&')


def ptr_like(t):
    t = bare(t)
    return t.endswith('*') or 'string_view' in t or 'span<' in t or 'iterator' in t or 'reference_wrapper' in t


class Lifetime:
    def __init__(self, ast, fn):
        self.ast, self.fn = ast, fn
        self.vars = {}
        for n in walk(ast.body(fn)):
            if n.get('kind') == 'VarDecl':
                self.vars[n['id']] = n
        self.params = {p['id']: p for p in ast.params(fn)}

    def init(self, v):
        xs = [c for c in v.get('inner', []) or [] if c.get('kind', '').endswith(('Expr', 'Operator', 'Literal', 'Cleanups'))]
        return xs[-1] if xs else None

    def lv(self, e, depth=0):
        """the storage an lvalue (or class prvalue) denotes"""
        if e is None or depth > 40:
            return {'?'}
        k = e.get('kind', '')
        sub = [c for c in e.get('inner', []) or [] if isinstance(c, dict)]
        if k == 'MaterializeTemporaryExpr':
            return {'temporary'} if not ptr_like(qt(e)) else self.val(sub[0], depth + 1)
        if k in ('CXXBindTemporaryExpr', 'CXXTemporaryObjectExpr', 'CXXConstructExpr', 'CXXFunctionalCastExpr', 'InitListExpr'):
            if ptr_like(qt(e)) and sub:
                return self.val(sub[0], depth + 1)
            return {'temporary'}
        if k in ('ParenExpr', 'ExprWithCleanups', 'ConstantExpr') or k.endswith('CastExpr'):
            if e.get('castKind') in ('LValueToRValue', 'ArrayToPointerDecay'):
                return self.val(e, depth + 1)
            return self.lv(sub[-1], depth + 1) if sub else {'?'}
        if k == 'DeclRefExpr':
            i = (e.get('referencedDecl') or {}).get('id')
            t = qt(e.get('referencedDecl') or {})
            v = self.vars.get(i)
            if v is not None:
                if v.get('storageClass') == 'static' or v.get('tls'):
                    return {'static'}
                if is_ref(t):
                    return self.lv(self.init(v), depth + 1)
                return {'local variable ' + v.get('name', '?')}
            if i in self.params:
                return {'param'} if is_ref(t) else {'by-value parameter ' + self.params[i].get('name', '?')}
            return {'?'}
        if k == 'CXXThisExpr':
            return {'this'}
        if k == 'MemberExpr':
            if is_ref(qt(e.get('referencedMemberDecl') if isinstance(e.get('referencedMemberDecl'), dict) else {})):
                return {'?'}
            if not sub:
                return {'this'}
            return self.val(sub[0], depth + 1) if e.get('isArrow') else self.lv(sub[0], depth + 1)
        if k == 'UnaryOperator' and e.get('opcode') == '*':
            return self.val(sub[0], depth + 1)
        if k == 'UnaryOperator' and e.get('opcode') in ('++', '--'):
            return self.lv(sub[0], depth + 1)
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            return self.lv(sub[1] if e.get('opcode') == ',' else sub[0], depth + 1)
        if k == 'ArraySubscriptExpr':
            return self.val(sub[0], depth + 1)
        if k == 'ConditionalOperator':
            return self.lv(sub[1], depth + 1) | self.lv(sub[2], depth + 1)
        if k == 'CXXMemberCallExpr' and sub and sub[0].get('kind') == 'MemberExpr':
            return self.access(sub[0].get('name', ''), (sub[0].get('inner') or [None])[0], sub[0].get('isArrow'), e, depth)
        if k == 'CXXOperatorCallExpr' and len(sub) > 1:
            nm = None
            for x in walk(sub[0]):
                if x.get('kind') == 'DeclRefExpr':
                    nm = (x.get('referencedDecl') or {}).get('name')
            return self.access(nm or '', sub[1], False, e, depth)
        if k == 'CallExpr' and len(sub) > 1:
            for x in walk(sub[0]):
                if x.get('kind') == 'DeclRefExpr' and (x.get('referencedDecl') or {}).get('name') in ('move', 'forward', 'as_const', 'ref', 'cref', 'addressof', 'begin', 'end', 'data'):
                    return self.lv(sub[1], depth + 1)
        return {'?'}

    def access(self, name, obj, arrow, e, depth):
        if obj is None:
            return {'?'}
        t = bare(qt(obj))
        if not (t.startswith('std::') or 'basic_string' in t or ptr_like(t) or 'auto' in t or 'string' == t):
            return {'?'}
        if name.startswith('operator ') and ptr_like(qt(e)) or name in STD_ACCESS:
            if name == 'str':
                return {'temporary'}
            if name in ('value', 'get') and not is_ref(qt(e)) and e.get('valueCategory') != 'lvalue' and not ptr_like(qt(e)):
                return {'temporary'}
            return self.val(obj, depth + 1) if arrow or ptr_like(t) else self.lv(obj, depth + 1)
        return {'?'}

    def val(self, e, depth=0):
        """the storage a pointer-like value points into"""
        if e is None or depth > 40:
            return {'?'}
        k = e.get('kind', '')
        sub = [c for c in e.get('inner', []) or [] if isinstance(c, dict)]
        if k == 'StringLiteral':
            return {'static'}
        if k.endswith('CastExpr') and e.get('castKind') == 'ArrayToPointerDecay':
            return self.lv(sub[0], depth + 1)
        if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'ConstantExpr', 'CXXBindTemporaryExpr') or k.endswith('CastExpr'):
            return self.val(sub[-1], depth + 1) if sub else {'?'}
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr'):
            if len(sub) >= 1:
                return self.lv(sub[0], depth + 1) if not ptr_like(qt(sub[0])) else self.val(sub[0], depth + 1)
            return {'?'}
        if k == 'UnaryOperator' and e.get('opcode') == '&':
            return self.lv(sub[0], depth + 1)
        if k == 'CXXThisExpr':
            return {'this'}
        if k == 'DeclRefExpr':
            i = (e.get('referencedDecl') or {}).get('id')
            v = self.vars.get(i)
            t = qt(e.get('referencedDecl') or {})
            if v is not None and (ptr_like(t) or 'auto' in t):
                return self.val(self.init(v), depth + 1)
            if v is not None and '[' in t:
                return self.lv(e, depth + 1)
            return {'?'}
        if k == 'BinaryOperator':
            return self.val(sub[0], depth + 1)
        if k == 'ConditionalOperator':
            return self.val(sub[1], depth + 1) | self.val(sub[2], depth + 1)
        if k in ('CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CallExpr'):
            return self.lv(e, depth + 1)
        return {'?'}


def ret_type(fn):
    t = (fn.get('type') or {}).get('qualType', '')
    m = re.search(r'->\s*(.+)$', t)
    if m:
        return m.group(1)
    i = t.find('(')
    return t[:i].strip() if i >= 0 else t


def dangling(ast, fn):
    rt = ret_type(fn)
    ref = is_ref(rt)
    if rt.startswith('decltype(auto)'):
        ref = True
    if not ref and not (ptr_like(rt)):
        return
    L = Lifetime(ast, fn)
    for n in walk(ast.body(fn), lambdas=False):
        if n.get('kind') == 'ReturnStmt' and n.get('inner'):
            e = n['inner'][0]
            for o in sorted(L.lv(e) if ref else L.val(e)):
                if o.startswith(('local', 'temporary', 'by-value')):
                    yield n, 'returns a %s into the %s, which is gone when the caller uses it' % ('reference' if ref else 'pointer', o)
