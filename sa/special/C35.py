"""Every header can be included anywhere and everything it declares has a definition that compiles."""
import concurrent.futures as cf
import os
import re
import shutil
import subprocess
import tempfile
from .. import harness, lint
from ..cast import *
from ..harness import HERE, REPO
from ..lint import in_repo, where
from .C38 import res

RULE = ('compile witnesses over every header (alone, twice, all of them in both orders, as two translation units) and over a unit naming and instantiating every entity the headers declare, '
        'whose object files may define no external strong symbol twice and leave no library symbol undefined; and, over the AST, declared implies defined for every function, member and friend')
GXX = ['g++', '-std=gnu++17', '-w', '-O0', '-fno-inline', '-DFMT_HEADER_ONLY', '-I' + REPO + '/include']


def headers():
    out = []
    base = os.path.join(REPO, 'include')
    for d, _, fs in os.walk(os.path.join(base, 'bwsl')):
        out += [os.path.relpath(os.path.join(d, f), base) for f in fs if f.endswith(('.hpp', '.h'))]
    return sorted(out)


def compile_(src, obj, flags=()):
    p = subprocess.run(GXX + list(flags) + (['-c', src, '-o', obj] if obj else ['-fsyntax-only', src]), capture_output=True, text=True)
    errs = [l for l in p.stderr.split('\n') if 'error:' in l]
    return None if p.returncode == 0 else (errs or p.stderr.strip().split('\n')[-1:])[:3]


def symbols(obj):
    out = []
    for l in subprocess.run(['nm', '-C', obj], capture_output=True, text=True).stdout.split('\n'):
        m = re.match(r'^[0-9a-f ]{16} (\w) (.*)$', l)
        if m:
            out.append((m.group(1), m.group(2)))
    return out


def verdict(name, bad, count, what=''):
    """bad: list of (construct, description)"""
    r = {'name': name, 'verdict': 'REFUTED' if bad else 'PROVED', 'why': '; '.join('%s: %s' % b for b in bad[:4]), 'obligations': count, 'functions': [], 'loops': 0}
    if bad:
        r['construct'] = bad[0][0]
        r['detail'] = [{'where': a, 'what': b} for a, b in bad]
    return r


def has_main(text):
    return re.search(r'\bmain\s*\(', text) is not None


def inclusion(tmp):
    hs = headers()
    jobs = []
    for i, h in enumerate(hs):
        for kind, lines in (('alone', [h]), ('twice', [h, h])):
            p = os.path.join(tmp, 'h%d_%s.cpp' % (i, kind))
            open(p, 'w').write(''.join('#include <%s>\n' % x for x in lines) + 'int main() {}\n')
            jobs.append((h, 'included ' + kind, p, None, ()))
    for k, order in (('fwd', hs), ('rev', hs[::-1])):
        for c, fl in (('', ()), ('chk', ('-DBWSL_ACCUMULATORS_CHECKS',))):
            p = os.path.join(tmp, 'all_%s%s.cpp' % (k, c))
            open(p, 'w').write(''.join('#include <%s>\n' % x for x in order))
            jobs.append(('all headers', 'included together' + (' with BWSL_ACCUMULATORS_CHECKS' if c else '') + (' in reverse order' if k == 'rev' else ''), p, p[:-4] + '.o', fl))
    with cf.ThreadPoolExecutor(8) as ex:
        errs = list(ex.map(lambda j: compile_(j[2], j[3], j[4]), jobs))
    bad = []
    for j, e in zip(jobs, errs):
        if e:
            bad.append((j[0], 'does not compile %s: %s' % (j[1], e[0].strip())))
    out = [verdict('C35_headers_compile', bad, len(jobs))]
    strong = []
    n = 0
    for j, e in zip(jobs, errs):
        if j[3] and not e:
            for t, s in symbols(j[3]):
                n += 1
                if t in 'TDBRGSC':
                    strong.append((s, 'defined with external linkage by every translation unit that includes the headers (symbol type %s): multiple definition' % t))
    out.append(verdict('C35_no_multiple_definition', sorted(set(strong)), n))
    return out


def witness(tmp):
    src = os.path.join(HERE, 'driver', 'c35_witness.cpp')
    jobs = [(os.path.join(tmp, 'w.o'), ()), (os.path.join(tmp, 'wc.o'), ('-DBWSL_ACCUMULATORS_CHECKS',))]
    with cf.ThreadPoolExecutor(2) as ex:
        errs = list(ex.map(lambda j: compile_(src, j[0], j[1]), jobs))
    bad, und, n = [], [], 0
    for (o, fl), e in zip(jobs, errs):
        if e:
            for l in e:
                m = re.match(r'^(.*?:\d+)(?::\d+)?: error: (.*)$', l)
                bad.append((m.group(1) if m else 'witness', (m.group(2) if m else l) + ' (%s)' % (fl[0] if fl else 'plain')))
            continue
        for t, s in symbols(o):
            n += 1
            if t == 'U' and ('bwsl::' in s or 'boost::serialization::load' in s or 'boost::serialization::save' in s):
                und.append((s, 'is declared and used but defined nowhere'))
    return [verdict('C35_declared_entities_compile', bad, 2), verdict('C35_no_undefined_symbol', sorted(set(und)), n)]


def load():
    src = os.path.join(HERE, 'driver', 'c35_witness.cpp')
    p = subprocess.run(['clang++'] + harness.FLAGS + ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=bwsl', src], capture_output=True, text=True)
    if p.returncode:
        return None
    return AST(parse_stream(p.stdout))


def friend(n):
    p = n.get('_par') or {}
    while p.get('kind') == 'FunctionTemplateDecl':
        p = p.get('_par') or {}
    return p.get('kind') == 'FriendDecl'


def sig(n):
    """name and type, the function's own template parameters numbered"""
    t = (n.get('type') or {}).get('qualType', '')
    p = n.get('_par') or {}
    if p.get('kind') == 'FunctionTemplateDecl':
        for i, c in enumerate([c for c in p.get('inner', []) if c.get('kind', '').startswith(('TemplateTypeParm', 'NonTypeTemplateParm', 'TemplateTemplateParm'))]):
            if c.get('name'):
                t = re.sub(r'\b%s\b' % re.escape(c['name']), '#%d' % i, t)
    m = re.match(r'^auto (\(.*\).*?)\s*->\s*(.*)$', t)
    if m:
        t = m.group(2) + ' ' + m.group(1)
    return n.get('name'), norm_type(t)


def key(ast, n):
    q = n.get('_q') or ''
    for x in (n, n.get('_par') or {}):
        c = ast.decl.get(x.get('parentDeclContextId') or '')
        if c is not None and x.get('kind') in FUNS + ('FunctionTemplateDecl',):
            q = (c.get('_q') or c.get('name') or '') + '::' + (n.get('name') or '')
    while re.search(r'<[^<>]*>(?=::)', q):
        q = re.sub(r'<[^<>]*>(?=::)', '', q)
    return (None if friend(n) else q,) + sig(n)


def declared_defined(ast):
    defs = set()
    for n in ast.decl.values():
        if n.get('kind') in FUNS and (ast.body(n) is not None or n.get('explicitlyDefaulted') or n.get('explicitlyDeleted')):
            defs.add(key(ast, n))
            defs.add((None,) + sig(n))
    bad, cnt, funs = [], 0, set()
    for n in ast.decl.values():
        if n.get('kind') not in FUNS or not in_repo(n) or n.get('isImplicit') or n.get('pure') or n.get('explicitlyDeleted') or n.get('explicitlyDefaulted'):
            continue
        par = n.get('_par') or {}
        g = par
        while g and g.get('kind') == 'FunctionTemplateDecl':
            g = g.get('_par') or {}
        if g.get('kind') == 'ClassTemplateSpecializationDecl':
            continue        # the members of an instantiation are those of its template
        cnt += 1
        funs.add((n.get('_q') or n.get('name'), tuple(n.get('_spell') or n.get('_loc') or ())))
        if ast.body(n) is not None or ast.find_def(n['id']) is not None or key(ast, n) in defs:
            continue
        if any(c.get('kind') == 'TemplateArgument' for c in n.get('inner', [])):
            continue        # an instantiation nobody asked for
        if n.get('name') in (None, ''):
            continue
        bad.append((n, '%s is declared as %s and defined nowhere' % (n.get('_q') or n.get('name'), sig(n)[1])))
    return res('C35_declared_is_defined', bad, cnt, sorted(funs, key=str))


def run(tier, seed, only):
    tmp = tempfile.mkdtemp(prefix='c35')
    try:
        out = inclusion(tmp) + witness(tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ast = load()
    if ast is not None:
        out.append(declared_defined(ast))
    return [r for r in out if not only or only in r['name']]
