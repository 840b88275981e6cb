"""Term domain of the value-graph analysis.

Numbers (machine integers read as mathematical integers, doubles read as reals)
are canonical (Laurent) polynomials with rational coefficients over interned
atoms.  Booleans are interned literals combined with and/or.  Equality of two
values is equality of their normal forms after case distinctions on the gate
conditions that occur in them; nothing here enumerates program paths.
"""
from fractions import Fraction as Fr
from math import gcd as igcd
import itertools
import math
import sys

_atom_tab = {}
_poly_tab = {}
_bool_tab = {}
_ids = itertools.count(1)


class Atom:
    __slots__ = ('kind', 'args', 'sort', 'nn', 'id', 'h', 'syms')

    def __repr__(self):
        return show_atom(self)


def _free_of(args):
    s = frozenset()
    h = 0
    for a in args:
        if isinstance(a, (Poly, Atom, B)):
            s |= a.syms
            h = max(h, a.h)
        elif isinstance(a, tuple):
            s2, h2 = _free_of(a)
            s |= s2
            h = max(h, h2)
    return s, h


BINDERS = {'sum', 'prod', 'loop', 'bloop', 'any', 'first', 'recur'}


def mk_atom(kind, args, sort, nn=False):
    key = (kind, args, sort, nn)
    a = _atom_tab.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.sort, a.nn = kind, args, sort, nn
        a.id = next(_ids)
        a.syms, a.h = _free_of(args)
        if kind == 'sym':
            a.syms = frozenset([a])
        if kind == 'bound':
            a.h = args[0]
        _atom_tab[key] = a
    return a


# ------------------------------------------------------------------ texts
TEXT_CODES, TEXTS = {}, {}


def text_code(t):
    """the integer that stands for a text; distinct texts have distinct codes"""
    c = TEXT_CODES.get(t)
    if c is None:
        c = TEXT_CODES[t] = 1000 + len(TEXT_CODES)
        TEXTS[c] = t
    return c


def text_of(c):
    t = TEXTS.get(int(c))
    return '\x01#%d' % int(c) if t is None else t


NPOS = (1 << 64) - 1


def text_apply(t, op, xs):
    """pure operations on texts (byte strings)"""
    if op == 'size':
        return len(t)
    if op == 'compare':
        pos, n, u = (xs + [None])[:3] if len(xs) == 3 else (0, NPOS, xs[0])
        if pos > len(t):
            raise IndexError
        s = t[pos:pos + n]
        return 0 if s == u else -1 if s < u else 1
    if op in ('find', 'rfind', 'find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of'):
        u = xs[0] if isinstance(xs[0], str) else chr(xs[0])
        p = xs[1] if len(xs) > 1 else None
        if op == 'find':
            r = t.find(u, p or 0)
        elif op == 'rfind':
            r = t.rfind(u) if p is None else t.rfind(u, 0, p + len(u))
        else:
            ok = [i for i, ch in enumerate(t) if (ch in u) == op.endswith('t_of') and ('not' in op) == (ch not in u)]
            ok = [i for i in ok if (i >= (p or 0) if 'first' in op else p is None or i <= p)]
            r = (ok[0] if 'first' in op else ok[-1]) if ok else -1
        return r if r >= 0 else NPOS
    if op == 'substr':
        pos, n = (xs + [0, NPOS][len(xs):])[:2]
        if pos > len(t):
            raise IndexError
        return text_code(t[pos:pos + n])
    if op in ('lower', 'upper'):
        return text_code(t.lower() if op == 'lower' else t.upper())
    if op == 'char':
        if xs[0] > len(t):
            raise IndexError
        return ord((t + '\0')[xs[0]])
    if op == 'first':
        return ord(t[0]) - 1
    if op == 'last':
        return ord(t[-1])
    raise ValueError(op)


def textop(op, xs, code, sort='i', nn=False):
    """operation on the text with that code; xs: constants"""
    c = code.const()
    if c is not None and int(c) in TEXTS:
        return P(text_apply(TEXTS[int(c)], op, list(xs)))
    return P(mk_atom('sel', ('textop', (op,) + tuple(xs), code), sort, nn))


class Poly:
    __slots__ = ('t', 'id', 'syms', 'h', 'sort', '_hash', '_atoms')

    def __repr__(self):
        return show(self)

    # arithmetic
    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t:
            n = d.get(m, 0) + c
            if n:
                d[m] = n
            else:
                d.pop(m, None)
        return mk_poly(d)

    __radd__ = __add__

    def __neg__(self):
        return mk_poly({m: -c for m, c in self.t})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO
        if len(o.t) == 1 and o.t[0][0] == ():
            k = o.t[0][1]
            if k == 1:
                return self
            return mk_poly({m: c * k for m, c in self.t})
        if len(self.t) == 1 and self.t[0][0] == ():
            return o * self
        acc = ZERO
        d = {}
        extra = ZERO
        for m1, c1 in self.t:
            for m2, c2 in o.t:
                m, k, rest = mono_mul(m1, m2)
                c = c1 * c2 * k
                if rest is None:
                    n = d.get(m, 0) + c
                    if n:
                        d[m] = n
                    else:
                        d.pop(m, None)
                else:
                    extra = extra + mk_poly({m: c}) * rest
        return mk_poly(d) + extra

    __rmul__ = __mul__

    def is_const(self):
        return not self.t or (len(self.t) == 1 and self.t[0][0] == ())

    def const(self):
        if not self.t:
            return Fr(0)
        if len(self.t) == 1 and self.t[0][0] == ():
            return self.t[0][1]
        return None

    def single_atom(self):
        """the atom if the polynomial is exactly one atom"""
        if len(self.t) == 1:
            m, c = self.t[0]
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def atoms(self):
        if self._atoms is None:
            s = set()
            for m, _ in self.t:
                for a, _e in m:
                    s.add(a)
            self._atoms = frozenset(s)
        return self._atoms


_mkey = {}


def _mono_key(x):
    m = x[0]
    k = _mkey.get(m)
    if k is None:
        k = _mkey[m] = tuple([(a.id, e) for a, e in m])
    return k


def mk_poly(d):
    if len(d) == 1:
        (m, c), = d.items()
        t = ((m, c if type(c) is Fr else Fr(c)),) if c else ()
    else:
        t = [(m, c if type(c) is Fr else Fr(c)) for m, c in d.items() if c]
        t.sort(key=_mono_key)
        t = tuple(t)
    p = _poly_tab.get(t)
    if p is None:
        p = Poly()
        p.t = t
        p.id = next(_ids)
        s = frozenset()
        h = 0
        sort = 'i'
        for m, c in t:
            if c.denominator != 1:
                sort = 'r'
            for a, e in m:
                s |= a.syms
                if a.h > h:
                    h = a.h
                if a.sort == 'r' or (e < 0 and a.kind != 'gcd'):
                    sort = 'r'
        p.syms, p.h, p.sort = s, h, sort
        p._atoms = None
        _poly_tab[t] = p
    return p


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return mk_poly({((x, 1),): 1})
    if isinstance(x, (int, Fr)):
        if x == 0:
            return ZERO
        return mk_poly({(): Fr(x)})
    if isinstance(x, B):
        return b2i(x)
    raise TypeError(type(x))




def mono_mul(m1, m2):
    """-> (mono, coefficient, extra polynomial factor or None)"""
    if not m1:
        return m2, 1, None
    if not m2:
        return m1, 1, None
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    clash = False
    for a, e in m2:
        if a in d:
            clash = True
        d[a] = d.get(a, 0) + e
    rest = None
    exps = None
    if any(a.kind == 'fn' and a.args[0] == 'exp' for a in d):
        exps = [a for a in d if a.kind == 'fn' and a.args[0] == 'exp']
        if len(exps) > 1 or d[exps[0]] != 1:
            tot = ZERO
            for a in exps:
                tot = tot + a.args[1] * d.pop(a)
            rest = exp_(tot)
    if clash:
        for a in list(d):
            e = d[a]
            if e == 0:
                del d[a]
                continue
            if a.kind == 'fn' and a.args[0] == 'sqrt' and (e >= 2 or e < 0):
                q, r = divmod(e, 2)
                arg = a.args[1]
                f = pow_int(arg, q)
                if r:
                    d[a] = 1
                else:
                    del d[a]
                rest = f if rest is None else rest * f
            elif a.kind == 'inv' and e < 0:
                del d[a]
                f = pow_int(a.args[0], -e)
                rest = f if rest is None else rest * f
    m = tuple(sorted(d.items(), key=lambda x: x[0].id))
    return m, 1, rest


def pow_int(p, n):
    if n < 0:
        return pow_int(inv(p), -n)
    r = ONE
    for _ in range(n):
        r = r * p
    return r


def sym(name, sort='i', nn=False):
    return mk_atom('sym', (name,), sort, nn)


_fresh = itertools.count(1)


def fresh(prefix, sort='i', nn=False):
    return mk_atom('sym', ('%s!%d' % (prefix, next(_fresh)),), sort, nn)




def inv(p):
    p = P(p)
    if len(p.t) == 0:
        return P(NAN)
    if len(p.t) == 1:
        m, c = p.t[0]
        r = mk_poly({(): 1 / c})
        for a, e in m:
            if a.kind == 'inv':
                r = r * pow_int(a.args[0], e)
            elif a.kind == 'fn' and a.args[0] == 'sqrt':
                # 1/sqrt(Q) = sqrt(Q)/Q
                r = r * pow_int(P(a) * inv(a.args[1]), e)
            elif a.kind == 'fn' and a.args[0] == 'exp':
                r = r * exp_(a.args[1] * (-e))
            else:
                r = r * mk_poly({((a, -e),): 1})
        return r
    # factor the monomial content out, make leading coefficient one
    content, q = mono_content(p)
    lead = q.t[0][1]
    q = q * (1 / lead)
    r = mk_poly({((mk_atom('inv', (q,), 'r'), 1),): 1 / lead})
    if content != ():
        r = r * inv(mk_poly({content: 1}))
    return r


def mono_content(p):
    """common monomial factor (min exponents) of all terms"""
    if not p.t:
        return (), p
    common = None
    for m, _ in p.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            for a in list(common):
                e = min(common[a], d.get(a, 0))
                if e == 0 and a not in d:
                    # negative exponents: min(common,0)
                    e = min(common[a], 0)
                if e == 0:
                    del common[a]
                else:
                    common[a] = e
            for a in d:
                if a not in common and d[a] < 0:
                    common[a] = d[a]
    # exp/inv/sqrt atoms are left alone
    common = {a: e for a, e in common.items() if not (a.kind == 'fn' and a.args[0] in ('exp',)) and a.kind != 'inv'}
    if not common:
        return (), p
    m = tuple(sorted(common.items(), key=lambda x: x[0].id))
    im = tuple((a, -e) for a, e in m)
    d = {}
    for mm, c in p.t:
        dd = dict(mm)
        for a, e in im:
            n = dd.get(a, 0) + e
            if n:
                dd[a] = n
            else:
                dd.pop(a, None)
        d[tuple(sorted(dd.items(), key=lambda x: x[0].id))] = c
    return m, mk_poly(d)


# ---------------------------------------------------------------- functions
def fn(name, *args, sort='r', nn=False):
    return P(mk_atom('fn', (name,) + args, sort, nn))


def sqrt_(p):
    p = P(p)
    c = p.const()
    if c is not None and c >= 0:
        from math import isqrt
        n, d = c.numerator, c.denominator
        rn, rd = isqrt(n), isqrt(d)
        if rn * rn == n and rd * rd == d:
            return P(Fr(rn, rd))
        # sqrt(n/d) = sqrt(n*d)/d, extract square factors
        k = n * d
        out = 1
        f = 2
        while f * f <= k and f < 1000:
            while k % (f * f) == 0:
                k //= f * f
                out *= f
            f += 1
        # one root per prime factor
        r = P(Fr(out, d))
        f = 2
        while f < 1000 and f * f <= k:
            if k % f == 0:
                k //= f
                r = r * P(mk_atom('fn', ('sqrt', P(f)), 'r', True))
            f += 1
        return r * P(mk_atom('fn', ('sqrt', P(k)), 'r', True)) if k > 1 else r
    if p is P(NAN):
        return p
    if p.syms:
        p = join_argsel(p)
    # the rational factor apart
    c = abs(p.t[0][1]) if p.const() is None else 1
    for _, x in p.t[1:]:
        c = Fr(math.gcd(c.numerator, x.numerator), math.lcm(c.denominator, x.denominator))
    if c != 1:
        return sqrt_(P(c)) * fn('sqrt', p * (1 / c), nn=True)
    return fn('sqrt', p, nn=True)


def exp_(p):
    """exp of a polynomial; integer multiples of logarithms are resolved"""
    p = P(p)
    out = ONE
    rest = {}
    for m, c in p.t:
        if c.denominator == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'fn' and m[0][0].args[0] == 'log':
            out = out * pow_int(m[0][0].args[1], int(c))
        else:
            rest[m] = c
    r = mk_poly(rest)
    if not r.t:
        return out
    e = mk_poly({((mk_atom('fn', ('exp', r), 'r', True), 1),): 1})
    if out is ONE:
        return e
    return out * e


def log_(p):
    p = P(p)
    if len(p.t) == 1:
        m, c = p.t[0]
        if m == () and c == 1:
            return ZERO
        r = ZERO
        ok = True
        for a, e in m:
            if a.kind == 'fn' and a.args[0] == 'exp':
                r = r + a.args[1] * e
            elif a.kind == 'inv':
                r = r - log_(a.args[0]) * e
            else:
                r = r + fn('log', P(a)) * e
        if c != 1:
            r = r + fn('log', P(c))
        return r
    return fn('log', p)


def pow_(b, e):
    b, e = P(b), P(e)
    c = e.const()
    if c is not None and c.denominator == 1 and abs(c) < 64:
        return pow_int(b, int(c))
    if c == Fr(1, 2):
        return sqrt_(b)
    return exp_(e * log_(b))


# ---------------------------------------------------------------- booleans
class B:
    __slots__ = ('kind', 'args', 'id', 'syms', 'h')

    def __repr__(self):
        return show_b(self)


def mk_b(kind, args):
    key = (kind, args)
    b = _bool_tab.get(key)
    if b is None:
        b = B()
        b.kind, b.args = kind, args
        b.id = next(_ids)
        b.syms, b.h = _free_of(args)
        if kind == 'bsym':
            b.syms = frozenset([b])
        _bool_tab[key] = b
    return b


PI = mk_atom('fn', ('pi',), 'r', True)
DBLMAX = Fr(sys.float_info.max)
NAN = mk_atom('fn', ('nan',), 'r')
ZERO = mk_poly({})
ONE = mk_poly({(): 1})
TRUE = mk_b('T', ())
FALSE = mk_b('F', ())


def Bc(x):
    return TRUE if x else FALSE


def bsym(name):
    return mk_b('bsym', (name,))


def bfresh(prefix):
    return mk_b('bsym', ('%s!%d' % (prefix, next(_fresh)),))


def ge0(p):
    """integer or real p >= 0"""
    p = P(p)
    c = p.const()
    if c is not None:
        return Bc(c >= 0)
    if p.sort == 'r':
        return not_(gt0(-p))
    # exact quotients by a gcd have the sign of the dividend
    gs = {a for a in p.atoms() if a.kind == 'gcd'}
    if gs:
        k = dict(p.t).get((), Fr(0))
        if k in (0, -1):
            q = p - k
            for a in gs:
                e = {dict(m).get(a, 0) for m, _ in q.t}
                if len(e) == 1 and e < {-1, -2}:
                    q = q * pow_int(P(a), -e.pop())
            if q is not p - k:
                return ge0(q + k)
    # content
    g = 0
    k = Fr(0)
    for m, co in p.t:
        if m == ():
            k = co
        else:
            g = igcd(g, int(co))
    if g > 1:
        d = {m: co / g for m, co in p.t if m != ()}
        fl = (k.numerator // g) if k.denominator == 1 else None
        d[()] = Fr(fl)
        p = mk_poly(d)
        if p.const() is not None:
            return Bc(p.const() >= 0)
    if len(p.t) <= 2:
        k = dict(p.t).get((), Fr(0))
        if k == -1:
            h = counted(p + 1)
            if h is not None:
                return h
        elif k == 0:
            h = counted(-p)
            if h is not None:
                return not_(h)
    fe = first_end(p, 1)
    if fe is not None and fe[1]:
        return fe[0]
    fe = first_end(p, 0)
    if fe is not None and not fe[1]:
        return not_(fe[0])
    return mk_b('ge0', (p,))


def counted(p):
    """p is the number of hits of a condition: the literal that there is one"""
    a = p.single_atom()
    if a is None or a.kind != 'sum':
        return None
    y = a.args[2].single_atom() if isinstance(a.args[2], Poly) else None
    if y is None or y.kind != 'ite' or {y.args[1], y.args[2]} != {ZERO, ONE}:
        return None
    r = mk_b('any', (a.args[0], a.args[1], y.args[0] if y.args[1] is ONE else not_(y.args[0])))
    r.h = max(r.h, a.h)
    return r


def first_end(p, off):
    """p = n - first(k, n, body) - off: the search literal any(k, n, body)"""
    for m, c in p.t:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'first' and abs(c) == 1:
            a = m[0][0]
            if (p if c < 0 else -p) is a.args[1] - P(a) - off:
                r = mk_b('any', (a.args[0], a.args[1], a.args[2]))
                r.h = max(r.h, a.h)
                return r, c < 0
    return None


def gt0(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return Bc(c > 0)
    if p.sort == 'i':
        return ge0(p - 1)
    if NAN in p.atoms():
        return FALSE
    # scale so the leading coefficient has absolute value 1
    lead = abs(p.t[0][1])
    if p.t[0][0] == () and len(p.t) > 1:
        lead = abs(p.t[1][1])
    p = p * (1 / lead)
    if len(p.t) == 2 and p.t[0][1] == -p.t[1][1]:
        # sqrt is monotone
        q = [sqrt_of(m) for m, _ in p.t]
        if q[0] is not None and q[1] is not None:
            return gt0(q[0] - q[1] if p.t[0][1] > 0 else q[1] - q[0])
    return mk_b('gt0', (p,))


def sqrt_of(m):
    if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'fn' and m[0][0].args[0] == 'sqrt':
        return m[0][0].args[1]
    return None


def const_leaves(a):
    for x in a.args[1:]:
        if x.const() is None:
            y = x.single_atom()
            if y is None or y.kind != 'ite' or not const_leaves(y):
                return False
    return True


def eq0(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return Bc(c == 0)
    h = counted(p) or counted(-p)
    if h is not None:
        return not_(h)
    a = p.single_atom()
    if a is not None and a.kind == 'ite' and const_leaves(a):
        return or_(and_(a.args[0], eq0(a.args[1])), and_(not_(a.args[0]), eq0(a.args[2])))
    fe = first_end(p, 0)
    if fe is not None:
        return not_(fe[0])
    content, q = mono_content(p)
    if content and (len(q.t) > 1 or True):
        r = eq0(q) if q.const() is None else FALSE
        for a, e in content:
            if e > 0:
                r = or_(r, eq0_atom(a))
        if q.const() is None or len(content) > 1 or content[0][1] != 1 or abs(q.const()) != 1:
            return r
    if p.sort == 'i':
        g = 0
        for m, co in p.t:
            if m != ():
                g = igcd(g, int(co))
        k = dict(p.t).get((), Fr(0))
        if g > 1:
            if k % g != 0:
                return FALSE
            p = p * Fr(1, g)
    lead = p.t[0][1]
    if p.t[0][0] == () and len(p.t) > 1:
        lead = p.t[1][1]
    if p.sort == 'r':
        p = p * (1 / lead)
    elif lead < 0:
        p = -p
    return mk_b('eq0', (p,))


def eq0_atom(a):
    if a.kind == 'fn' and a.args[0] in ('exp', 'pi'):
        return FALSE
    if a.kind == 'inv':
        return FALSE
    if a.kind == 'fn' and a.args[0] == 'sqrt':
        return eq0(a.args[1])
    return mk_b('eq0', (P(a),))


def not_(b):
    k = b.kind
    if k == 'T':
        return FALSE
    if k == 'F':
        return TRUE
    if k == 'not':
        return b.args[0]
    if k == 'ge0':
        return ge0(-b.args[0] - 1)
    if k == 'and':
        return or_(*[not_(x) for x in b.args])
    if k == 'or':
        return and_(*[not_(x) for x in b.args])
    return mk_b('not', (b,))


def and_(*bs):
    out = set()
    for b in bs:
        if b.kind == 'F':
            return FALSE
        if b.kind == 'T':
            continue
        if b.kind == 'and':
            out.update(b.args)
        else:
            out.add(b)
    for b in list(out):
        if not_(b) in out:
            return FALSE
    # absorption and unit resolution: a & (a|b) = a ; a & (!a|b) = a & b
    changed = True
    while changed:
        changed = False
        for b in list(out):
            if b.kind == 'or':
                parts = set(b.args)
                others = out - {b}
                if parts & others:
                    out.discard(b)
                    changed = True
                    break
                red = [x for x in b.args if not_(x) not in others]
                if len(red) != len(b.args):
                    out.discard(b)
                    return and_(*(list(out) + [or_(*red)]))
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    return mk_b('and', tuple(sorted(out, key=lambda x: x.id)))


def or_(*bs):
    out = set()
    for b in bs:
        if b.kind == 'T':
            return TRUE
        if b.kind == 'F':
            continue
        if b.kind == 'or':
            out.update(b.args)
        else:
            out.add(b)
    for b in list(out):
        if not_(b) in out:
            return TRUE
    changed = True
    while changed:
        changed = False
        for b in list(out):
            if b.kind == 'and':
                parts = set(b.args)
                others = out - {b}
                if parts & others:
                    out.discard(b)
                    changed = True
                    break
                red = [x for x in b.args if not_(x) not in others]
                if len(red) != len(b.args):
                    out.discard(b)
                    return or_(*(list(out) + [and_(*red)]))
    # distributive merge: (a&x)|(a&!x) = a
    ands = [b for b in out if b.kind == 'and']
    for i in range(len(ands)):
        for j in range(i + 1, len(ands)):
            s1, s2 = set(ands[i].args), set(ands[j].args)
            d1, d2 = s1 - s2, s2 - s1
            if len(d1) == 1 and len(d2) == 1 and not_(next(iter(d1))) is next(iter(d2)):
                out -= {ands[i], ands[j]}
                return or_(*(list(out) + [and_(*(s1 & s2))]))
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out))
    return mk_b('or', tuple(sorted(out, key=lambda x: x.id)))


def bite(c, a, b):
    if c.kind == 'T':
        return a
    if c.kind == 'F':
        return b
    if a is b:
        return a
    if a.kind == 'T':
        return or_(c, b)
    if a.kind == 'F':
        return and_(not_(c), b)
    if b.kind == 'T':
        return or_(not_(c), a)
    if b.kind == 'F':
        return and_(c, a)
    if a is c:
        return or_(c, b)
    return or_(and_(c, a), and_(not_(c), b))


def iff(a, b):
    if a is b:
        return TRUE
    return bite(a, b, not_(b))


def ite(c, a, b):
    if c.kind == 'T':
        return P(a)
    if c.kind == 'F':
        return P(b)
    a, b = P(a), P(b)
    if a is b:
        return a
    if c.kind == 'not':
        return ite(c.args[0], b, a)
    if c.kind == 'ge0':
        # canonical polarity: the variable part has a positive leading coefficient
        p = c.args[0]
        lead = next(co for m, co in p.t if m != ())
        if lead < 0:
            c, a, b = not_(c), b, a
    if c.kind == 'eq0':
        # a case distinction on zero that the general case covers
        z = c.args[0].single_atom()
        if z is not None and any(e > 0 for m, co in b.t for y, e in m if y is z):
            if all(e > 0 for p in (a, b) for m, co in p.t for y, e in m if y is z):
                keep = [mk_poly({m: co for m, co in p.t if all(y is not z for y, e in m)}) for p in (a, b)]
                if keep[0] is keep[1] and (b.sort == 'r' or a.sort == 'i'):
                    return b
    # nested gates on the same condition
    x = a.single_atom()
    if x is not None and x.kind == 'ite' and x.args[0] is c:
        a = x.args[1]
    y = b.single_atom()
    if y is not None and y.kind == 'ite' and y.args[0] is c:
        b = y.args[2]
    if a is b:
        return a
    sort = 'r' if a.sort == 'r' or b.sort == 'r' else 'i'
    return P(mk_atom('ite', (c, a, b), sort, nonneg_quick(a) and nonneg_quick(b)))


def b2i(b):
    if b.kind == 'T':
        return ONE
    if b.kind == 'F':
        return ZERO
    return ite(b, ONE, ZERO)


def nonneg_quick(p):
    for m, c in p.t:
        if c < 0:
            return False
        for a, e in m:
            if not a.nn and e % 2 != 0:
                return False
    return True


# ---------------------------------------------------------------- integer division
def fdiv(p, q, facts=None):
    """floor division, q > 0 assumed"""
    p, q = P(p), P(q)
    cq = q.const()
    if cq == 1:
        return p
    if not p.t:
        return ZERO
    cp = p.const()
    if cp is not None and cq is not None:
        return P(cp // cq)
    out = ZERO
    rest = {}
    if len(q.t) == 1:
        qm, qc = q.t[0]
        qd = dict(qm)
        for m, c in p.t:
            d = dict(m)
            if all(d.get(a, 0) >= e for a, e in qd.items()) and (c / qc).denominator == 1:
                for a, e in qd.items():
                    d[a] -= e
                    if d[a] == 0:
                        del d[a]
                out = out + mk_poly({tuple(sorted(d.items(), key=lambda x: x[0].id)): c / qc})
            else:
                if cq is not None and m != () and c.denominator == 1:
                    k, r = divmod(c, cq)
                    if k and m != ():
                        out = out + mk_poly({m: k})
                        c = r
                if cq is not None and m == ():
                    k, r = divmod(c, cq)
                    out = out + P(k)
                    c = r
                if c:
                    rest[m] = rest.get(m, 0) + c
    else:
        # try exact polynomial multiple by leading term
        k = poly_div_exact(p, q)
        if k is not None:
            return k
        rest = dict(p.t)
        # remove the multiple of q if the leading terms match
        lm, lc = q.t[-1]
        k, r = poly_divmod(p, q)
        if k.t:
            out = k
            rest = dict(r.t)
    r = mk_poly(rest)
    if not r.t:
        return out
    cr = r.const()
    if cr is not None and cq is not None:
        return out + P(cr // cq)
    # nested division
    a = r.single_atom()
    if a is not None and a.kind == 'fdiv':
        return out + fdiv(a.args[0], a.args[1] * q)
    # common factor
    g, r2 = mono_content(r)
    if g and len(q.t) == 1:
        qd = dict(q.t[0][0])
        com = tuple((x, min(e, qd[x])) for x, e in g if x in qd and x.nn and e > 0)
        if com:
            im = mk_poly({tuple((x, -e) for x, e in com): 1})
            return out + fdiv(r * im, q * im)
    if flip_sign(r):
        # floor(r/q) = -floor((-r-1)/q) - 1 over the integers
        return out - fdiv(-r - 1, q) - 1
    return out + P(mk_atom('fdiv', (r, q), 'i', nonneg_quick(r) and nonneg_quick(q)))


def flip_sign(r):
    for m, c in r.t:
        if m != ():
            return c < 0 and r.sort == 'i'
    return False


def poly_divmod(p, q):
    """multivariate division by one polynomial (graded order)"""
    def key(mc):
        return (sum(e for _, e in mc[0]), tuple((-a.id, e) for a, e in mc[0]))
    lm, lc = max(q.t, key=key)
    ld = dict(lm)
    quo = ZERO
    rem = ZERO
    cur = p
    n = 0
    while cur.t and n < 200:
        n += 1
        m, c = max(cur.t, key=key)
        d = dict(m)
        if all(d.get(a, 0) >= e for a, e in ld.items()) and (c / lc).denominator == 1:
            for a, e in ld.items():
                d[a] -= e
                if d[a] == 0:
                    del d[a]
            f = mk_poly({tuple(sorted(d.items(), key=lambda x: x[0].id)): c / lc})
            quo = quo + f
            cur = cur - f * q
        else:
            f = mk_poly({m: c})
            rem = rem + f
            cur = cur - f
    return quo, rem + cur


def poly_div_exact(p, q):
    k, r = poly_divmod(p, q)
    if not r.t:
        return k
    return None


# ---------------------------------------------------------------- substitution
def subst(x, mp):
    """mp: dict Atom/B -> Poly/B (free symbols)"""
    if not mp:
        return x
    return Subst(mp)(x)


class Subst:
    def __init__(self, mp, facts=None):
        self.mp = mp
        ks = set()
        self.always = False
        for k in mp:
            if k.kind in ('sym', 'bsym', 'bound'):
                ks.add(k)
            elif k.syms:
                ks |= k.syms
            else:
                self.always = True
        self.keys = frozenset(ks)
        self.memo = {}
        self.hmax = 10**9

    def __call__(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, B):
            return self.b(x)
        if isinstance(x, Atom):
            return self.atom(x)
        if isinstance(x, tuple):
            return tuple(self(y) for y in x)
        return x

    def touches(self, x):
        return self.always or not self.keys.isdisjoint(x.syms) or (x.h > 0 and self.binds)

    binds = False

    def poly(self, p):
        if not self.touches(p):
            return p
        r = self.memo.get(p)
        if r is not None:
            return r
        d = {}
        acc = ZERO
        for m, c in p.t:
            keep = []
            f = None
            for a, e in m:
                if self.touches(a):
                    v = self.atom(a)
                    v = pow_int(v, e)
                    f = v if f is None else f * v
                else:
                    keep.append((a, e))
            if f is None:
                ts = ((m, c),)
            else:
                ts = (mk_poly({tuple(keep): c}) * f).t
            for m2, c2 in ts:
                n = d.get(m2)
                n = c2 if n is None else n + c2
                if n:
                    d[m2] = n
                else:
                    del d[m2]
        acc = mk_poly(d)
        self.memo[p] = acc
        return acc

    def atom(self, a):
        r = self.mp.get(a)
        if r is not None:
            return P(r)
        if not self.touches(a):
            return P(a)
        r = self.memo.get(a)
        if r is not None:
            return r
        r = rebuild_atom(a, self)
        self.memo[a] = r
        return r

    def b(self, b):
        r = self.mp.get(b)
        if r is not None:
            return r
        if not self.touches(b):
            return b
        r = self.memo.get(b)
        if r is not None:
            return r
        r = rebuild_b(b, self)
        self.memo[b] = r
        return r


def rebuild_atom(a, f):
    """apply f to the children of a and rebuild through the smart constructors"""
    k = a.kind
    if k in BINDERS:
        return rebuild_binder(a, f)
    if k == 'sel' and a.args[0] == 'textop':
        return textop(a.args[1][0], a.args[1][1:], f(a.args[2]), a.sort, a.nn)
    if k == 'ite':
        c = f(a.args[0])
        if c.kind == 'T':
            return f(a.args[1])
        if c.kind == 'F':
            return f(a.args[2])
        return ite(c, f(a.args[1]), f(a.args[2]))
    if k == 'fdiv':
        q = f(a.args[1])
        return fdiv(f(a.args[0]), q)
    if k == 'inv':
        return inv(f(a.args[0]))
    if k == 'tdiv':
        return tdiv(f(a.args[0]), f(a.args[1]))
    if k == 'fn':
        n = a.args[0]
        args = [f(x) for x in a.args[1:]]
        if n == 'sqrt':
            return sqrt_(args[0])
        if n == 'exp':
            return exp_(args[0])
        if n == 'log':
            return log_(args[0])
        if n == 'sin':
            return sin_(args[0])
        if n == 'cos':
            return cos_(args[0])
        return P(mk_atom('fn', (n,) + tuple(args), a.sort, a.nn))
    if k == 'gcd':
        return agcd(f(a.args[0]), f(a.args[1]))
    if k == 'fp':
        return fp_op(a.args[0], *[f(x) for x in a.args[1:]])
    if k == 'narrow':
        return narrow(a.args[0], a.args[1], f(a.args[2]))
    if k == 'f32':
        return f32_(f(a.args[0]))
    if k == 'min':
        return min_of([f(x) for x in a.args[0]])
    if k == 'argsel':
        return argsel([(f(x), f(y)) for x, y in a.args[0]])
    args = f(a.args)
    return P(mk_atom(k, args, a.sort, a.nn))


def rebuild_b(b, f):
    k = b.kind
    if k == 'ge0':
        return ge0(f(b.args[0]))
    if k == 'gt0':
        return gt0(f(b.args[0]))
    if k == 'eq0':
        return eq0(f(b.args[0]))
    if k == 'not':
        return not_(f(b.args[0]))
    if k == 'and':
        return and_(*[f(x) for x in b.args])
    if k == 'or':
        return or_(*[f(x) for x in b.args])
    if k in BINDERS:
        return rebuild_binder(b, f)
    if k == 'fpcmp':
        return fp_cmp(b.args[0], f(b.args[1]), f(b.args[2]))
    if k == 'gcdneg':
        return gcdneg(f(b.args[0]), f(b.args[1]))
    return mk_b(k, f(b.args))


# ---------------------------------------------------------------- binders
def close(syms, parts):
    """replace free symbols by bound ones; returns (bounds, parts')"""
    h = 0
    for p in parts:
        if isinstance(p, (Poly, B)):
            h = max(h, p.h)
    bounds = []
    mp = {}
    for i, s in enumerate(syms):
        if isinstance(s, B):
            bd = mk_b('bbound', (h + 1 + i,))
            mp[s] = bd
        else:
            bd = mk_atom('bound', (h + 1 + i,), s.sort, s.nn)
            mp[s] = P(bd)
        bounds.append(bd)
    sb = Subst(mp)
    return tuple(bounds), tuple(sb(p) for p in parts), h + len(syms)


class Opener(Subst):
    binds = True


def open_binder(bounds, parts, repl):
    mp = {}
    for b, r in zip(bounds, repl):
        mp[b] = r
    s = Opener(mp)
    return tuple(s(p) for p in parts)


def _fresh_like(bd):
    if isinstance(bd, B):
        return bfresh('b')
    return P(fresh('q', bd.sort, bd.nn))


def rebuild_binder(a, f):
    """open with fresh symbols, apply f to the body, close again"""
    k = a.kind
    if k in ('sum', 'prod'):
        bd, cnt, body = a.args
        n = f(cnt)
        s = fresh('q', 'i', True)
        (body2,) = open_binder((bd,), (body,), (P(s),))
        if isinstance(f, Opener) and bd in f.mp:
            f = Opener({x: y for x, y in f.mp.items() if x is not bd})
        body3 = f(body2)
        return sum_(s, n, body3) if k == 'sum' else prod_(s, n, body3)
    if k in ('any', 'first'):
        bd, cnt, body = a.args
        n = f(cnt)
        s = fresh('q', 'i', True)
        (body2,) = open_binder((bd,), (body,), (P(s),))
        if isinstance(f, Opener) and bd in f.mp:
            f = Opener({x: y for x, y in f.mp.items() if x is not bd})
        body3 = f(body2)
        return any_(s, n, body3) if k == 'any' else first_(s, n, body3)
    if k in ('loop', 'bloop'):
        bounds, inits, cnt, cond, upds, out = a.args
        inits2 = tuple(f(x) for x in inits)
        cnt2 = f(cnt) if cnt is not None else None
        fs = [_fresh_like(b) for b in bounds]
        parts = open_binder(bounds, (cond,) + tuple(upds), fs)
        if isinstance(f, Opener):
            f = Opener({x: y for x, y in f.mp.items() if x not in bounds})
        parts = [f(x) for x in parts]
        ss = [x if isinstance(x, B) else x.single_atom() for x in fs]
        return loop_(ss, inits2, cnt2, parts[0], parts[1:], out)
    raise NotImplementedError(k)


def sum_(s, n, body):
    n, body = P(n), P(body)
    if not body.t:
        return ZERO
    c = n.const()
    if c is not None and 0 <= c <= 16:
        r = ZERO
        for i in range(int(c)):
            r = r + subst(body, {s: P(i)})
        return r
    if s not in body.syms:
        return n * body
    # linearity: pull out factors that do not depend on s
    out = ZERO
    groups = {}
    for m, co in body.t:
        dep = tuple((a, e) for a, e in m if s in a.syms)
        ind = tuple((a, e) for a, e in m if s not in a.syms)
        out_f = mk_poly({ind: co})
        if not dep:
            out = out + n * out_f
            continue
        groups.setdefault(dep, ZERO)
        groups[dep] = groups[dep] + out_f
    for dep, f in groups.items():
        b = mk_poly({dep: 1})
        if len(dep) == 1 and dep[0][0] is s and dep[0][1] == 1:
            out = out + f * n * (n - 1) * Fr(1, 2)
            continue
        bds, (b2,), h = close([s], [b])
        a = mk_atom('sum', (bds[0], n, b2), b.sort, nonneg_quick(b))
        a.h = max(a.h, h)
        out = out + f * P(a)
    return out


def prod_(s, n, body):
    n, body = P(n), P(body)
    if body is ONE:
        return ONE
    c = n.const()
    if c is not None and 0 <= c <= 16:
        r = ONE
        for i in range(int(c)):
            r = r * subst(body, {s: P(i)})
        return r
    if s not in body.syms:
        if body.sort == 'r':
            return exp_(n * log_(body))
        return fn('ipow', body, n, sort='i')
    bds, (b2,), h = close([s], [body])
    a = mk_atom('prod', (bds[0], n, b2), body.sort, nonneg_quick(body))
    a.h = max(a.h, h)
    return P(a)


def any_(s, n, cond):
    """exists 0<=s<n: cond"""
    n = P(n)
    if cond.kind == 'F':
        return FALSE
    c = n.const()
    if c is not None and c <= 16:
        return or_(*[subst(cond, {s: P(i)}) for i in range(int(c))])
    if s not in cond.syms:
        return and_(ge0(n - 1), cond)
    bds, (b2,), h = close([s], [cond])
    r = mk_b('any', (bds[0], n, b2))
    r.h = max(r.h, h)
    return r


def first_(s, n, cond):
    """least 0<=s<n with cond, n if there is none"""
    n = P(n)
    if cond.kind == 'F':
        return n
    c = n.const()
    if c is not None and c <= 16:
        r = n
        for i in reversed(range(int(c))):
            r = ite(subst(cond, {s: P(i)}), P(i), r)
        return r
    if s not in cond.syms:
        return ite(cond, ite(ge0(n - 1), ZERO, n), n)
    bds, (b2,), h = close([s], [cond])
    a = mk_atom('first', (bds[0], n, b2), 'i', True)
    a.h = max(a.h, h)
    return P(a)


def loop_(syms, inits, cnt, cond, upds, out):
    """generic loop summary: iterate simultaneous updates while cond (and at most
    cnt times if cnt is given); value of variable number `out` at exit.  The
    iteration number is available as the last symbol if len(syms)==len(inits)+1."""
    bds, parts, h = close(list(syms), [cond] + list(upds))
    target = syms[out]
    if isinstance(target, B):
        r = mk_b('bloop', (bds, tuple(inits), cnt, parts[0], tuple(parts[1:]), out))
        r.h = max(r.h, h)
        return r
    a = mk_atom('loop', (bds, tuple(inits), cnt, parts[0], tuple(parts[1:]), out), target.sort, False)
    a.h = max(a.h, h)
    return P(a)


# ---------------------------------------------------------------- min / argmin
def above_range(c, x):
    """no value of x, a symbol or its negative, is above c"""
    if x.is_const():
        return False
    if x.sort == 'r':
        return c >= DBLMAX
    if len(x.t) != 1 or len(x.t[0][0]) != 1 or x.t[0][0][0][1] != 1 or x.t[0][0][0][0].kind != 'sym' or abs(x.t[0][1]) != 1:
        return False
    a = x.t[0][0][0][0]
    if x.t[0][1] > 0:
        return c >= (1 << 64 if a.nn else 1 << 63) - 1
    return c >= (0 if a.nn else 1 << 63)


def min_of(keys):
    ks = {}
    for k in keys:
        k = P(k)
        a = k.single_atom()
        if a is not None and a.kind == 'min':
            for x in a.args[0]:
                ks[x] = 1
        else:
            ks[k] = 1
    if len(ks) == 1:
        return next(iter(ks))
    big = [c for c in ks if c.is_const() and any(above_range(c.const(), x) for x in ks)]
    if big:
        return min_of([x for x in ks if x not in big])
    if ZERO in ks and all(nonneg_quick(x) for x in ks):
        return ZERO
    sq = [sqrt_of(x.t[0][0]) if len(x.t) == 1 and x.t[0][1] == 1 else None for x in ks]
    if all(x is not None for x in sq):
        return sqrt_(min_of(sq))
    lst = tuple(sorted(ks, key=lambda x: x.id))
    sort = 'r' if any(x.sort == 'r' for x in lst) else 'i'
    return P(mk_atom('min', (lst,), sort, all(nonneg_quick(x) for x in lst)))


def join_argsel(p):
    """payloads selected by the same keys: f(argsel(k,x), argsel(k,y)) = argsel(k, f(x,y))"""
    at = [a for a in p.atoms() if a.kind == 'argsel']
    if not at:
        return p
    d = [dict(a.args[0]) for a in at]
    if any(len(x) != len(a.args[0]) or x.keys() != d[0].keys() for x, a in zip(d, at)):
        return p
    out = []
    for k in d[0]:
        out.append((k, subst(p, {a: x[k] for a, x in zip(at, d)})))
    if all(k is v for k, v in out):
        return min_of([k for k, _ in out])
    return argsel(out)


def argsel(pairs):
    d = {}
    for k, v in pairs:
        d[(P(k), P(v))] = 1
    vs = {v for _, v in d}
    if len(vs) == 1:
        return next(iter(vs))
    lst = tuple(sorted(d, key=lambda x: (x[0].id, x[1].id)))
    sort = 'r' if any(v.sort == 'r' for _, v in lst) else 'i'
    return P(mk_atom('argsel', (lst,), sort, False))


# ---------------------------------------------------------------- misc
def lead_neg(p):
    """sign normalisation for even/odd functions: is the first non-constant
    coefficient negative?"""
    for m, c in p.t:
        return c < 0
    return False


def sin_(p):
    p = P(p)
    if not p.t:
        return ZERO
    if lead_neg(p):
        return -fn('sin', -p)
    return fn('sin', p)


def cos_(p):
    p = P(p)
    if not p.t:
        return ONE
    if lead_neg(p):
        p = -p
    return fn('cos', p)


def divides_hint(a, g):
    """g is a gcd atom and a is one of (a multiple of) its arguments"""
    for x in g.args:
        if x.t and poly_is_multiple(a, x):
            return True
    return False


def poly_is_multiple(a, x):
    if a is x or a is -x:
        return True
    if len(x.t) == 1:
        xm, xc = x.t[0]
        xd = dict(xm)
        for m, c in a.t:
            d = dict(m)
            if not all(d.get(at, 0) >= e for at, e in xd.items()) or (c / xc).denominator != 1 or any(e < 0 for e in d.values()):
                return False
        return True
    return poly_div_exact(a, x) is not None


def tdiv(p, q):
    """C++ integer division (truncation)"""
    p, q = P(p), P(q)
    cq, cp = q.const(), p.const()
    if cq == 1:
        return p
    if cq == -1:
        return -p
    if not p.t:
        return ZERO
    if cp is not None and cq is not None and cq != 0:
        r = abs(cp) // abs(cq)
        return P(r if (cp >= 0) == (cq > 0) else -r)
    if cq is not None and cq < 0:
        return -tdiv(p, -q)
    if p is q:
        return ONE
    if p is -q:
        return P(-1)
    # division by a gcd that divides the dividend is exact
    if len(q.t) == 1:
        m, c = q.t[0]
        if abs(c) == 1 and len(m) == 1 and m[0][1] == 1:
            g = m[0][0]
            if g.kind == 'gcd' and divides_hint(p, g):
                return p * inv(q)
            if g.kind == 'ite' and g.args[1] is -g.args[2]:
                r = tdiv(p, g.args[1])
                return ite(g.args[0], r, -r) * c
        # exact division by a monomial
        k = poly_div_exact(p, q)
        if k is not None:
            return k
    if nonneg_quick(p) and nonneg_quick(q):
        return fdiv(p, q)
    if nonneg_quick(q):
        return ite(ge0(p), fdiv(p, q), -fdiv(-p, q))
    return P(mk_atom('tdiv', (p, q), 'i'))


def absform(p):
    """p up to a factor of absolute value one"""
    while True:
        if len(p.t) == 1:
            m, c = p.t[0]
            p = mk_poly({m: abs(c)})
            a = p.single_atom()
            if a is not None and a.kind == 'ite' and a.args[1] is -a.args[2]:
                p = a.args[1]
                continue
            return p
        return -p if lead_neg(p) else p


def abs_(p):
    if nonneg_quick(p):
        return p
    return ite(ge0(p), p, -p)


def agcd(a, b):
    """the non-negative greatest common divisor"""
    a, b = absform(P(a)), absform(P(b))
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return P(igcd(int(ca), int(cb)))
    if ca == 1 or cb == 1:
        return ONE
    if not a.t:
        return abs_(b)
    if not b.t or a is b:
        return abs_(a)
    for x, y in ((a, b), (b, a)):
        if y.sort == 'i' and poly_is_multiple(x, y):
            return abs_(y)
    # gcd(x/g, y/g) = 1 when g = gcd(x, y)
    ga = {at for m, _ in a.t for at, e in m if at.kind == 'gcd' and e < 0}
    gb = {at for m, _ in b.t for at, e in m if at.kind == 'gcd' and e < 0}
    for g in ga & gb:
        if agcd(a * P(g), b * P(g)) is P(g):
            return ONE
    if b.id < a.id:
        a, b = b, a
    return P(mk_atom('gcd', (a, b), 'i', True))


def gcd_(a, b):
    """the result of Euclid's algorithm with the truncating remainder: the greatest
    common divisor with the sign the algorithm leaves"""
    a, b = P(a), P(b)
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        x, y = int(ca), int(cb)
        while y:
            r = abs(x) % abs(y)
            x, y = y, (r if x >= 0 else -r)
        return P(x)
    if not b.t:
        return a
    if not a.t:
        return b
    g = agcd(a, b)
    return ite(gcdneg(a, b), -g, g)


def gcdneg(a, b):
    """whether Euclid's algorithm with the truncating remainder ends in a negative number"""
    a, b = P(a), P(b)
    if a.const() is not None and b.const() is not None:
        return Bc(gcd_(a, b).const() < 0)
    if nonneg_quick(a) and nonneg_quick(b):
        return FALSE
    if not b.t or not a.t:
        return not_(ge0(a + b))
    return mk_b('gcdneg', (a, b))


RANGES = {}


def f32_(v):
    c = v.const()
    if c is not None:
        import struct
        try:
            return P(Fr(struct.unpack('f', struct.pack('f', float(c)))[0]))
        except (OverflowError, ValueError):
            pass
    return P(mk_atom('f32', (v,), 'r'))


def narrow(bits, signed, p):
    p = P(p)
    c = p.const()
    if c is not None and c.denominator == 1:
        v = int(c) & ((1 << bits) - 1)
        if signed and v >> (bits - 1):
            v -= 1 << bits
        return P(v)
    return P(mk_atom('narrow', (bits, signed, p), 'i', not signed))


# strict floating point
def fp_op(op, *args):
    args = [P(a) for a in args]
    if op == 'sub':
        return fp_op('add', args[0], -args[1])
    if op == 'add':
        a, b = args
        if not a.t:
            return b
        if not b.t:
            return a
        a, b = sorted((a, b), key=lambda x: x.id)
        return P(mk_atom('fp', ('add', a, b), 'r'))
    if op == 'mul':
        a, b = args
        neg = False

        def strip(x):
            if len(x.t) == 1 and x.t[0][1] < 0:
                return -x, True
            return x, False
        a, n1 = strip(a)
        b, n2 = strip(b)
        if a is ONE:
            r = b
        elif b is ONE:
            r = a
        else:
            a, b = sorted((a, b), key=lambda x: x.id)
            r = P(mk_atom('fp', ('mul', a, b), 'r'))
        return -r if n1 != n2 else r
    if op == 'div':
        return P(mk_atom('fp', ('div',) + tuple(args), 'r'))
    return P(mk_atom('fp', (op,) + tuple(args), 'r'))


def fp_cmp(op, a, b):
    """op in lt, le, eq"""
    a, b = P(a), P(b)
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return Bc({'lt': ca < cb, 'le': ca <= cb, 'eq': ca == cb}[op])
    if op == 'eq':
        a, b = sorted((a, b), key=lambda x: x.id)
    if op == 'le' and a is b:
        return TRUE
    return mk_b('fpcmp', (op, a, b))


# ---------------------------------------------------------------- printing
def show(p):
    if not p.t:
        return '0'
    s = []
    for m, c in p.t:
        f = []
        if c != 1 or not m:
            f.append(str(c))
        for a, e in m:
            f.append(show_atom(a) + ('' if e == 1 else '^%d' % e))
        s.append('*'.join(f))
    return ' + '.join(s)


def show_x(x):
    if isinstance(x, tuple):
        return '(' + ', '.join(show_x(y) for y in x) + ')'
    return repr(x) if not isinstance(x, str) else x


def show_atom(a):
    if a.kind == 'sym':
        return a.args[0]
    if a.kind == 'bound':
        return '#%d' % a.args[0]
    if a.kind == 'fn':
        if len(a.args) == 1:
            return a.args[0]
        return '%s(%s)' % (a.args[0], ', '.join(show_x(x) for x in a.args[1:]))
    if a.kind == 'sel':
        return '%s[%s]' % (a.args[0], ', '.join(show_x(x) for x in a.args[1:]))
    if a.kind == 'fp':
        return 'fp%s(%s)' % (a.args[0], ', '.join(show_x(x) for x in a.args[1:]))
    return '%s(%s)' % (a.kind, ', '.join(show_x(x) for x in a.args))


def show_b(b):
    k = b.kind
    if k in 'TF':
        return {'T': 'true', 'F': 'false'}[k]
    if k == 'ge0':
        return '(%s >= 0)' % show(b.args[0])
    if k == 'gt0':
        return '(%s > 0)' % show(b.args[0])
    if k == 'eq0':
        return '(%s == 0)' % show(b.args[0])
    if k == 'not':
        return '!' + show_b(b.args[0])
    if k == 'bsym':
        return b.args[0]
    if k in ('and', 'or'):
        return '(' + {'and': ' && ', 'or': ' || '}[k].join(show_b(x) for x in b.args) + ')'
    return '%s(%s)' % (k, ', '.join(show_x(x) for x in b.args))
