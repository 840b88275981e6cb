"""Abstract values of the analysis: numbers and booleans are terms, everything
else is an immutable structure over them."""
from .terms import *


class Unsupported(Exception):
    """the analysis has no transfer function for this construct"""


class Obj:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def set(self, k, v):
        d = dict(self.f)
        d[k] = v
        return Obj(self.cls, d)

    def __repr__(self):
        return '%s{%s}' % (self.cls, ', '.join('%s=%r' % x for x in self.f.items()))


class Seq:
    """segments: ('e', v) | ('r', count, sym, v) | ('c', cond, segs) | ('n', count, sym, segs)"""
    __slots__ = ('segs', 'et')

    def __init__(self, segs, et=''):
        self.segs, self.et = tuple(segs), et

    def __repr__(self):
        return 'Seq%r' % (self.segs,)

    def concrete(self):
        return all(s[0] == 'e' for s in self.segs)

    def elems(self):
        return [s[1] for s in self.segs]


class Map:
    """items: tuple of (key, value) with constant keys in key order"""
    __slots__ = ('items', 'kt', 'vt')

    def __init__(self, items, kt='', vt=''):
        self.items, self.kt, self.vt = tuple(items), kt, vt

    def __repr__(self):
        return 'Map%r' % (self.items,)


class Str:
    """parts: ('lit', text) | ('val', value, fmt) | ('sym', poly)"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if p[0] == 'lit':
                if not p[1]:
                    continue
                if out and out[-1][0] == 'lit':
                    out[-1] = ('lit', out[-1][1] + p[1])
                    continue
            out.append(p)
        self.parts = tuple(out)

    def lit(self):
        if not self.parts:
            return ''
        if len(self.parts) == 1 and self.parts[0][0] == 'lit':
            return self.parts[0][1]
        return None

    def __repr__(self):
        return 'Str%r' % (self.parts,)

    def __add__(self, o):
        return Str(self.parts + o.parts)


class Choice:
    """value selected by a gate when no finer merge exists"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'Choice(%r, %r, %r)' % (self.c, self.a, self.b)


class Ref:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path

    def sub(self, *p):
        return Ref(self.cell, self.path + p)

    def key(self):
        return (self.cell, self.path)

    def __eq__(self, o):
        return isinstance(o, Ref) and self.cell == o.cell and self.path == o.path

    def __hash__(self):
        return hash((self.cell, self.path))

    def __repr__(self):
        return 'Ref(%s,%r)' % (self.cell, self.path)


class CondRef:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Iter:
    """iterator (or pointer) at position pos of the container at ref"""
    __slots__ = ('ref', 'pos', 'rev')

    def __init__(self, ref, pos, rev=False):
        self.ref, self.pos, self.rev = ref, P(pos), rev

    def __repr__(self):
        return 'Iter(%r,%r)' % (self.ref, self.pos)


class Closure:
    __slots__ = ('op', 'env', 'this')

    def __init__(self, op, env, this):
        self.op, self.env, self.this = op, env, this

    def __repr__(self):
        return 'Closure'


class Fn:
    """function designator / functor by name or definition"""
    __slots__ = ('name', 'node', 'ty')

    def __init__(self, name, node=None, ty=''):
        self.name, self.node, self.ty = name, node, ty

    def __repr__(self):
        return 'Fn(%s)' % self.name


class Opaque:
    """a value about which nothing is known and which nothing may depend on"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Opaque(%s)' % self.why


VOID = Opaque('void')
TERM = (Poly, B)


def vmap(v, f):
    """apply f to every term of v"""
    if isinstance(v, TERM):
        return f(v)
    if isinstance(v, Obj):
        ch = False
        d = {}
        for k, x in v.f.items():
            y = vmap(x, f)
            ch |= y is not x
            d[k] = y
        return Obj(v.cls, d) if ch else v
    if isinstance(v, Seq):
        segs = segs_map(v.segs, f)
        return v if segs is v.segs else Seq(segs, v.et)
    if isinstance(v, Str):
        ch = False
        out = []
        for p in v.parts:
            if p[0] == 'lit':
                out.append(p)
            else:
                y = vmap(p[1], f)
                ch |= y is not p[1]
                out.append((p[0], y) + p[2:])
        return Str(out) if ch else v
    if isinstance(v, Map):
        return Map([(k, vmap(x, f)) for k, x in v.items], v.kt, v.vt)
    if isinstance(v, Choice):
        c = f(v.c)
        if c.kind == 'T':
            return vmap(v.a, f)
        if c.kind == 'F':
            return vmap(v.b, f)
        return Choice(c, vmap(v.a, f), vmap(v.b, f))
    if isinstance(v, Iter):
        return Iter(pmap(v.ref, f), f(v.pos), v.rev)
    if isinstance(v, Ref):
        return pmap(v, f)
    return v


def pmap(r, f):
    if not isinstance(r, Ref):
        return r
    return Ref(r.cell, tuple((k, f(x)) if k == 'i' else (k, x) for k, x in r.path))


def segs_map(segs, f):
    ch = False
    out = []
    for s in segs:
        if s[0] == 'h':
            n = s
        elif s[0] == 'e':
            y = vmap(s[1], f)
            n = s if y is s[1] else ('e', y)
        elif s[0] == 'r':
            c, y = f(s[1]), vmap(s[3], f)
            n = s if (c is s[1] and y is s[3]) else ('r', c, s[2], y)
            k = n[1].const()
            if n is not s and k is not None and 0 <= k <= 64:
                ch = True
                out.extend(('e', vsubst(n[3], {n[2]: P(i)})) for i in range(int(k)))
                continue
        elif s[0] == 'c':
            c, y = f(s[1]), segs_map(s[2], f)
            if c.kind == 'T':
                ch = True
                out.extend(y)
                continue
            if c.kind == 'F':
                ch = True
                continue
            n = s if (c is s[1] and y is s[2]) else ('c', c, y)
        else:
            c, y = f(s[1]), segs_map(s[3], f)
            n = s if (c is s[1] and y is s[3]) else ('n', c, s[2], y)
            k = n[1].const()
            if n is not s and k is not None and 0 <= k <= 64:
                ch = True
                for i in range(int(k)):
                    out.extend(segs_map(n[3], Subst({n[2]: P(i)})))
                continue
        ch |= n is not s
        out.append(n)
    return tuple(out) if ch else segs


def vsubst(v, mp):
    if not mp:
        return v
    return vmap(v, Subst(mp))


def vsyms(v):
    s = set()

    def f(x):
        s.update(x.syms)
        return x
    vmap(v, f)
    return s


def veq(a, b):
    """syntactic identity of normal forms"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, TERM):
        return a is b
    if isinstance(a, Obj):
        return a.f.keys() == b.f.keys() and all(veq(x, b.f[k]) for k, x in a.f.items())
    if isinstance(a, Seq):
        return segs_eq(a.segs, b.segs)
    if isinstance(a, Str):
        return len(a.parts) == len(b.parts) and all(p[0] == q[0] and (p[1] == q[1] if p[0] == 'lit' else veq(p[1], q[1]) and p[2:] == q[2:]) for p, q in zip(a.parts, b.parts))
    if isinstance(a, Map):
        return len(a.items) == len(b.items) and all(veq(k, k2) and veq(x, y) for (k, x), (k2, y) in zip(a.items, b.items))
    if isinstance(a, Choice):
        return a.c is b.c and veq(a.a, b.a) and veq(a.b, b.b)
    if isinstance(a, Iter):
        return a.ref == b.ref and a.pos is b.pos and a.rev == b.rev
    if isinstance(a, Ref):
        return a == b
    if isinstance(a, Fn):
        return a.name == b.name and a.node is b.node
    if isinstance(a, Closure):
        return a.op is b.op and a.env == b.env
    if isinstance(a, Opaque):
        return a.why == b.why
    if isinstance(a, CondRef):
        return a.c is b.c and veq(a.a, b.a) and veq(a.b, b.b)
    return a == b


def segs_eq(a, b):
    if len(a) != len(b):
        return False
    for s, t in zip(a, b):
        if s is t:
            continue
        if s[0] != t[0] or s[0] == 'h':
            return False
        if s[0] == 'e':
            if not veq(s[1], t[1]):
                return False
        elif s[0] == 'c':
            if s[1] is not t[1] or not segs_eq(s[2], t[2]):
                return False
        else:
            if s[1] is not t[1]:
                return False
            if s[0] == 'r':
                y = t[3] if s[2] is t[2] else vsubst(t[3], {t[2]: P(s[2])})
                if not veq(s[3], y):
                    return False
            else:
                y = t[3] if s[2] is t[2] else segs_map(t[3], Subst({t[2]: P(s[2])}))
                if not segs_eq(s[3], y):
                    return False
    return True


def slen(segs):
    n = ZERO
    for s in segs:
        if s[0] == 'e':
            n = n + 1
        elif s[0] in 'rh':
            n = n + s[1]
        elif s[0] == 'c':
            n = n + ite(s[1], slen(s[2]), ZERO)
        else:
            n = n + sum_(s[2], s[1], slen(s[3]))
    return n


def merge_val(c, a, b):
    """value a if c else b"""
    if a is b:
        return a
    if isinstance(a, Poly) and isinstance(b, Poly):
        return mite(c, a, b)
    if isinstance(a, B) and isinstance(b, B):
        return bite(c, a, b)
    if isinstance(a, TERM) and isinstance(b, TERM):
        return mite(c, P(a), P(b))
    if veq(a, b):
        return a
    if isinstance(a, Obj) and isinstance(b, Obj) and a.f.keys() == b.f.keys():
        return Obj(a.cls, {k: merge_val(c, x, b.f[k]) for k, x in a.f.items()})
    if isinstance(a, Seq) and isinstance(b, Seq):
        sa, sb = a.segs, b.segs
        # common prefix
        out = []
        i = 0
        while i < len(sa) and i < len(sb):
            x, y = sa[i], sb[i]
            if segs_eq((x,), (y,)):
                out.append(x)
            elif x[0] == 'e' and y[0] == 'e':
                out.append(('e', merge_val(c, x[1], y[1])))
            elif x[0] == 'r' and y[0] == 'r' and x[1] is y[1]:
                y3 = y[3] if x[2] is y[2] else vsubst(y[3], {y[2]: P(x[2])})
                out.append(('r', x[1], x[2], merge_val(c, x[3], y3)))
            else:
                break
            i += 1
        ra, rb = sa[i:], sb[i:]
        if ra:
            out.append(('c', c, ra))
        if rb:
            out.append(('c', not_(c), rb))
        return Seq(out, a.et or b.et)
    if isinstance(a, Map) and isinstance(b, Map) and len(a.items) == len(b.items) and all(veq(x[0], y[0]) for x, y in zip(a.items, b.items)):
        return Map([(k, merge_val(c, x, y[1])) for (k, x), y in zip(a.items, b.items)], a.kt, a.vt)
    if isinstance(a, Iter) and isinstance(b, Iter) and a.ref == b.ref and a.rev == b.rev:
        return Iter(a.ref, mite(c, a.pos, b.pos), a.rev)
    if isinstance(a, (Ref, CondRef)) and isinstance(b, (Ref, CondRef)):
        return CondRef(c, a, b)
    if isinstance(a, Opaque):
        return b
    if isinstance(b, Opaque):
        return a
    return Choice(c, a, b)


def sqrt_arg(p):
    a = p.single_atom()
    if a is not None and a.kind == 'fn' and a.args[0] == 'sqrt':
        return a.args[1]
    return None


def mite(c, a, b):
    """gate with recognition of minima"""
    if a is b:
        return a
    neg = False
    k = c
    if k.kind == 'not':
        k, neg = k.args[0], True
    if k.kind in ('gt0', 'ge0'):
        d = k.args[0]
        x, y = (b, a) if neg else (a, b)
        # k: d>0 selects x.  d ~ y - x  => x is the smaller one
        if _same_dir(d, y - x, k.kind):
            return min_of([x, y])
        if _same_dir(d, x - y, k.kind):
            return max_of(x, y)
    return ite(c, a, b)


def max_of(x, y):
    return -min_of([-x, -y])


def _same_dir(d, e, kind):
    if d is e:
        return True
    if kind == 'gt0':
        g = gt0(e)
        return g.kind == 'gt0' and g.args[0] is d
    if kind == 'ge0' and d is e - 1:
        return True
    if kind == 'gt0' and e.t and d.sort == 'r':
        l = abs(e.t[0][1])
        if e.t[0][0] == () and len(e.t) > 1:
            l = abs(e.t[1][1])
        return d is e * (1 / l)
    return False
