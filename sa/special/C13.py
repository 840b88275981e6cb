"""The floating-point semantics the recurrences are decided under is the one the code is compiled with."""
import os
import re
from ..harness import REPO

RULE = ('value-graph equality in a floating-point domain without reassociation (every operation rounds), plus a scan of the library and its build files for '
        'pragmas, attributes and options that let the compiler reassociate or contract floating-point operations')
CODE = [(r'#\s*pragma\s+GCC\s+(optimize|optimize_for)\b[^\n]*(fast|unsafe|assoc|reciprocal|O(fast))', 'optimize pragma'),
        (r'_Pragma\s*\(\s*"[^\n]*(optimize|fp\s+reassociate|fp\s+contract|FP_CONTRACT)[^\n]*', 'pragma operator'),
        (r'optimize\s*\(\s*"[^"\n]*(fast|unsafe|assoc|reciprocal)[^"\n]*"', 'optimize attribute'),
        (r'#\s*pragma\s+STDC\s+FP_CONTRACT\s+ON', 'contraction pragma'),
        (r'#\s*pragma\s+clang\s+fp\s[^\n]*(reassociate\s*\(\s*on|contract\s*\(\s*(on|fast)|reciprocal\s*\(\s*on)', 'clang fp pragma'),
        (r'#\s*pragma\s+(float_control|fp_contract)\b[^\n]*', 'floating-point control pragma')]
OPTS = re.compile(r'-ffast-math|-Ofast|-funsafe-math-optimizations|-fassociative-math|-freciprocal-math|-ffp-contract=fast|/fp:fast|-fno-signed-zeros\b')


def strip_code(s):
    # comments go, strings and line structure stay
    def rep(m):
        t = m.group(0)
        return '\n' * t.count('\n') if t.startswith('/') else t
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"', rep, s, flags=re.S)


def run(tier, seed, only):
    bad, n = [], 0
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if not x.startswith(('.', '_', 'build')) and x not in ('libs', 'test')]
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith(('.hpp', '.h', '.cpp')):
                s = strip_code(open(p, errors='replace').read())
                n += 1
                for rx, what in CODE:
                    for m in re.finditer(rx, s):
                        bad.append(('%s:%d' % (p, s[:m.start()].count('\n') + 1), '%s: %s' % (what, m.group(0).strip())))
            elif f == 'CMakeLists.txt' or f.endswith('.cmake'):
                s = re.sub(r'#[^\n]*', '', open(p, errors='replace').read())
                n += 1
                for m in OPTS.finditer(s):
                    bad.append(('%s:%d' % (p, s[:m.start()].count('\n') + 1), 'option ' + m.group(0)))
    r = {'name': 'C13_compiled_strictly', 'verdict': 'REFUTED' if bad else 'PROVED', 'why': '; '.join('%s at %s' % (w, a) for a, w in bad[:4]), 'obligations': n, 'functions': [], 'loops': 0}
    if bad:
        r['construct'] = bad[0][0]
        r['detail'] = [{'where': a, 'what': b} for a, b in bad]
    return [r] if not only or only in r['name'] else []
