"""Purity and independence: no hidden state, no shared storage, no dangling results."""
import os
from .. import harness, lint
from ..lint import walk, where, in_repo, functions
from ..cast import *

RULE = ('value-graph obligations for copies and queries, and syntax-tree rules over every function and class of the library: no mutable or shared-storage member, '
        'no static/thread-local/global variable, no removal of const, no call of a stateful C library function, no reference or pointer into a dead object returned')
SHARED = ('shared_ptr<', 'weak_ptr<', 'reference_wrapper<', 'string_view', 'span<', 'iterator', 'shared_future<', 'any')
SYNC = ('std::mutex', 'std::shared_mutex', 'std::recursive_mutex', 'std::atomic', 'std::once_flag')


def is_const_object(t):
    """whether a variable of this type can never be written through"""
    t = t.strip()
    if t.endswith('*const'):
        t = t[:-6].strip()
        return re.search(r'\bconst\b', t) is not None
    if t.endswith('* const'):
        return re.search(r'\bconst\b', t[:-7]) is not None
    if t.endswith('*') or t.endswith('&'):
        return False
    return re.match(r'^(const|constexpr)\b', t) is not None or re.search(r'\bconst(\s*\[.*\])*$', t) is not None


def members(ast):
    for n in ast.decl.values():
        if n.get('kind') == 'FieldDecl' and in_repo(n):
            yield n


def owner(n):
    p = n.get('_par') or {}
    return p.get('_q') or p.get('name') or '?'


def res(name, bad, count, funs):
    out = {'name': name, 'verdict': 'REFUTED' if bad else 'PROVED', 'why': '; '.join('%s at %s' % (w, where(n)) for n, w in bad[:5]), 'obligations': count, 'functions': funs, 'loops': 0}
    if bad:
        out['construct'] = '%s at %s' % (bad[0][0].get('_q') or bad[0][0].get('name') or bad[0][0].get('kind'), where(bad[0][0]))
        out['detail'] = [{'where': where(n), 'what': w} for n, w in bad]
    return out


def run(tier, seed, only):
    ast = harness.load_ast('C38')
    fs = list(functions(ast))
    funs = sorted({(f.get('_q') or f.get('name'), tuple(f.get('_spell') or f.get('_loc'))) for f in fs}, key=str)
    out = []

    bad, cnt = [], 0
    for n in members(ast):
        cnt += 1
        if n.get('mutable') and not any(s in qt(n) for s in SYNC):
            bad.append((n, 'mutable member %s::%s: const queries can change the object' % (owner(n), n.get('name'))))
    out.append(res('C38_mutable_members', bad, cnt, funs))

    bad = []
    for n in members(ast):
        t = bare(qt(n))
        full = norm_type(qt(n))
        if full.endswith('&') or full.endswith('*') or any(s in t for s in SHARED):
            tt = qt(n)
            if full.endswith('*') and re.search(r'\bconst\b[^*]*\*|char', tt) and 'char' in tt:
                continue
            bad.append((n, 'member %s::%s of type %s shares storage between copies' % (owner(n), n.get('name'), qt(n))))
    out.append(res('C38_shared_members', bad, cnt, []))

    bad, cnt = [], 0
    for n in ast.decl.values():
        if n.get('kind') != 'VarDecl' or not in_repo(n):
            continue
        p = n.get('_par') or {}
        local = p.get('kind') not in (None, 'NamespaceDecl', 'TranslationUnitDecl', 'CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'LinkageSpecDecl', 'VarTemplateDecl', 'ClassTemplateDecl')
        static = n.get('storageClass') == 'static' or n.get('tls') is not None or n.get('storageClass') == 'extern'
        if local and not static:
            continue
        cnt += 1
        if n.get('constexpr') or is_const_object((n.get('type') or {}).get('qualType', '')):
            continue
        if any(s in qt(n) for s in SYNC) and not 'atomic' in qt(n):
            continue
        bad.append((n, 'variable %s with %s storage can change: hidden state shared by all objects' % (n.get('name'), 'thread-local' if n.get('tls') else 'static')))
    out.append(res('C38_hidden_state', bad, cnt, []))

    bad, cnt = [], 0
    for f in fs:
        const = bool(re.search(r'\)\s*const\b', (f.get('type') or {}).get('qualType', '')))
        free = f.get('kind') == 'FunctionDecl' or f.get('storageClass') == 'static'
        cp = {p['id'] for p in ast.params(f) if lint.is_ref(qt(p)) and re.search(r'\bconst\b', qt(p))}
        for n in walk(ast.body(f)):
            k = n.get('kind')
            if k in ('CXXConstCastExpr', 'CStyleCastExpr', 'CXXReinterpretCastExpr', 'CXXFunctionalCastExpr') and n.get('inner'):
                cnt += 1
                to, fr = qt(n), qt(n['inner'][-1])
                if k == 'CXXConstCastExpr' or lint.norm_type(to).endswith(('*', '&')):
                    src = n['inner'][-1]
                    while src.get('kind') in ('ImplicitCastExpr', 'ParenExpr') and src.get('inner'):
                        src = src['inner'][0]
                    fr = qt(src)
                    dst = (n.get('type') or {}).get('qualType', '')
                    if re.search(r'\bconst\b', fr) and not re.search(r'\bconst\b', dst) and (lint.norm_type(fr) != bare(fr) or n.get('valueCategory') == 'lvalue'):
                        uses = {(x.get('referencedDecl') or {}).get('id') for x in walk(n) if x.get('kind') == 'DeclRefExpr'}
                        this = any(x.get('kind') == 'CXXThisExpr' for x in walk(n))
                        if const and this or uses & cp:
                            bad.append((dict(f, _loc=n.get('_loc') or f.get('_loc')), 'const is cast away from %s in a query' % ('*this' if this else 'a const argument')))
    out.append(res('C38_const_removed', bad, cnt, []))

    bad, cnt = [], 0
    for f in fs:
        for n in walk(ast.body(f)):
            if n.get('kind') == 'DeclRefExpr':
                d = n.get('referencedDecl') or {}
                if d.get('kind') == 'FunctionDecl':
                    cnt += 1
                    if d.get('name') in lint.IMPURE:
                        bad.append((dict(f, _loc=n.get('_loc') or f.get('_loc')), 'calls %s, which uses state outside the object' % d.get('name')))
            elif n.get('kind') in ('CXXConstructExpr', 'VarDecl') and 'random_device' in qt(n):
                bad.append((dict(f, _loc=n.get('_loc') or f.get('_loc')), 'uses std::random_device'))
    out.append(res('C38_stateful_calls', bad, cnt, []))

    bad, cnt = [], 0
    seen = set()
    for f in fs:
        cnt += 1
        for n, w in lint.dangling(ast, f):
            key = (where(n), w)
            if key not in seen:
                seen.add(key)
                bad.append((dict(f, _loc=n.get('_loc') or f.get('_loc'), _spell=f.get('_spell')), '%s %s' % (f.get('_q') or f.get('name'), w)))
    out.append(res('C38_dangling_results', bad, cnt, []))

    # const member functions that are not allowed to be: none may write through a pointer or reference member (there are none, see shared_members)
    if only:
        out = [r for r in out if only in r['name']]
    return out
