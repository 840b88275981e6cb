"""Lifetime of the exception's message: what() must not point into a dead object."""
from .. import harness, lint
from .C38 import res

RULE = 'value-graph equality of the generated conversions with their definition, and a lifetime rule: no function generated by the macro returns a pointer or reference into a local or temporary'


def run(tier, seed, only):
    ast = harness.load_ast('C28')
    fs = [f for f in lint.functions(ast) if str((f.get('_spell') or f.get('_loc'))[0]).endswith('EnumString.hpp')]
    bad = []
    for f in fs:
        for n, w in lint.dangling(ast, f):
            bad.append((dict(f, _loc=n.get('_loc') or f.get('_loc')), '%s %s' % (f.get('_q') or f.get('name'), w)))
    if not fs:
        return []
    r = res('C28_message_lifetime', bad, len(fs), sorted({(f.get('_q'), tuple(f.get('_spell') or f.get('_loc'))) for f in fs}, key=str))
    return [r] if not only or only in r['name'] else []
