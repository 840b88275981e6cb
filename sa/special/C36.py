"""Binary comparison: no formatted extraction of the bytes (it skips white space)."""
from .. import harness, lint
from ..lint import walk
from ..cast import *
from .C38 import res

RULE = 'value-graph equality of compare_files with the definition over readable/size/byte, and: no formatted extraction (>>, istream_iterator) of file content without noskipws'


def run(tier, seed, only):
    ast = harness.load_ast('C36')
    fs = [f for f in lint.functions(ast) if str((f.get('_spell') or f.get('_loc'))[0]).endswith('FileUtils.hpp')]
    if not fs:
        return []
    bad = []
    noskip = any(n.get('kind') == 'DeclRefExpr' and (n.get('referencedDecl') or {}).get('name') in ('noskipws', 'unsetf') for f in fs for n in walk(ast.body(f))) or \
        any(n.get('kind') == 'MemberExpr' and n.get('name') == 'unsetf' for f in fs for n in walk(ast.body(f)))
    for f in fs:
        for n in walk(ast.body(f)):
            if noskip:
                continue
            if n.get('kind') in ('CXXTemporaryObjectExpr', 'CXXConstructExpr') and 'istream_iterator<char' in qt(n):
                bad.append((dict(f, _loc=n.get('_loc') or f.get('_loc')), '%s reads the bytes through a formatted iterator: white space is skipped' % f.get('_q')))
                break
    r = res('C36_unformatted', bad, len(fs), sorted({(f.get('_q'), tuple(f.get('_spell') or f.get('_loc'))) for f in fs}, key=str))
    return [r] if not only or only in r['name'] else []
