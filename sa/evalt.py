"""Valuation of normal forms at a point.  Used only to certify that two normal
forms that could not be identified really denote different functions (the
certificate is the valuation); never to conclude that something holds."""
import math
import random
import re
from fractions import Fraction as Fr
from .terms import *


class Undefined(Exception):
    pass


FPMATH = {'sqrt': math.sqrt, 'exp': math.exp, 'log': math.log, 'log2': math.log2, 'log10': math.log10, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'floor': math.floor, 'ceil': math.ceil,
          'trunc': math.trunc, 'round': lambda x: math.copysign(math.floor(abs(Fr(x)) + Fr(1, 2)), x), 'rint': round, 'pow': math.pow, 'cbrt': lambda x: math.copysign(round(abs(x) ** (1 / 3), 12), x), 'log1p': math.log1p,
          'expm1': math.expm1, 'exp2': lambda x: 2.0 ** x, 'hypot': math.hypot, 'fmod': math.fmod}
PYMATH = {'tan': math.tan, 'atan': math.atan, 'asin': math.asin, 'acos': math.acos, 'atan2': math.atan2, 'sinh': math.sinh, 'cosh': math.cosh,
          'tanh': math.tanh, 'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x), 'lgamma': math.lgamma, 'tgamma': math.gamma,
          'erf': math.erf, 'erfc': math.erfc, 'remainder': math.remainder}


NUMBER_SPEC = r'f(?:\.(\d+)([efg]?))?|fixed6'


def known_spec(spec):
    return re.fullmatch(NUMBER_SPEC, spec) is not None


def number_text(v, spec):
    """the text of a double under a format"""
    m = re.fullmatch(NUMBER_SPEC, spec)
    if spec == 'fixed6':
        return '%f' % v
    if m.group(1) is None:
        return repr(v)
    return '%%.%s%s' % (m.group(1), m.group(2) or 'g') % v


class Env:
    def __init__(self, seed, assign, big=False, consts=(), wide=False, texts=()):
        self.texts = texts
        self.wide = wide
        self.scale = 0
        if wide:
            self.scale = random.Random('%s scale' % seed).choice((0, 0, 0, 27, 29, 31, 31, 40, 54, 61))
            self.neighbours = random.Random('%s neighbours' % seed).random() < 0.5
        self.assign = dict(assign)
        self.seed = seed
        self.memo = {}
        self.steps = 0
        self.sel = {}
        self.big = big
        self.consts = list(consts)

    def rnd(self, key):
        return random.Random('%s|%s' % (self.seed, key))

    def value(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, B):
            return self.b(x)
        if isinstance(x, tuple):
            return tuple(self.value(y) for y in x)
        return x

    def poly(self, p):
        r = self.memo.get(p)
        if r is not None:
            return r
        tot = Fr(0)
        for m, c in p.t:
            v = c
            for a, e in m:
                x = self.atom(a)
                if e < 0:
                    if x == 0:
                        v = float('nan') if (v == 0 or v != v) else float('inf')
                        v = float('nan')
                        continue
                    x = (1 / Fr(x)) if isinstance(x, (int, Fr)) else 1.0 / x
                    e = -e
                try:
                    v = mulv(v, x ** e if e != 1 else x)
                except OverflowError:
                    v = float('inf')
            tot = addv(tot, v)
        if self.scale and p.sort == 'i' and abs(tot) >= 1 << 64:
            raise Undefined('an integer beyond 64 bits')
        self.memo[p] = tot
        return tot

    def symval(self, a):
        if a in self.assign:
            return self.assign[a]
        v = self.sample(a.args, a.sort, a.nn)
        self.assign[a] = v
        return v

    def sample(self, key, sort, nn):
        r = self.rnd(repr(key))
        if self.texts and str(key[0]).startswith('str_') and r.random() < 0.8:
            return Fr(r.choice(self.texts))
        if self.consts and r.random() < 0.25 and sort == 'i':
            c = r.choice(self.consts) + r.choice((-1, 0, 1))
            if not nn or c >= 0:
                return Fr(c)
        if sort == 'i' and self.wide and self.scale:
            v = r.choice((r.randrange(1 << (self.scale - 1), 1 << self.scale), r.randrange(1 << (self.scale - 1), 1 << self.scale), (1 << self.scale) - r.choice((0, 1, 1, 2, 3)), r.choice((0, 1, 2, 3, 5))))
            return Fr(v if nn or r.random() < 0.5 else -v)
        if sort == 'i':
            if nn:
                return Fr(r.choice((0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 9)))
            return Fr(r.choice((-9, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 8)))
        if self.wide == 'ints' and r.random() < 0.5:      # values single precision does not hold
            v = Fr(float(r.choice((16777217, 123456.7890625, 0.1, 1 / 3, 3.3, 2.7, 1e-3)))) * r.choice((-1, 1))
            return abs(v) if nn else v
        if self.wide and self.wide != 'ints':      # values of very different magnitude, which cancel often
            if self.wide == 'inf' and r.random() < 0.2 and not nn:
                return r.choice((float('inf'), float('-inf')))
            if self.neighbours:     # values next to a power of two, whose sums round and cancel
                v = Fr(r.choice((-1, 1))) * r.choice((Fr(0), Fr(1), Fr(1), Fr(2), Fr(3), Fr(1, 2), Fr(2 ** 52 + 1), Fr(2 ** 53), Fr(2 ** 53 - 1), Fr(2 ** 53 + 2), Fr(2 ** 54), Fr(2 ** 54 + 4)))
                return abs(v) if nn else v
            v = Fr(r.choice((-1, 1))) * r.choice((Fr(1), Fr(3), Fr(1), Fr(1, 2 ** 30), Fr(3 * 2 ** 30), Fr(2 ** 60), Fr(2 ** 60), Fr(2 ** 61), Fr(16777217)))
            return abs(v) if nn else v
        v = Fr(r.choice((-13, -10, -7, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 7, 8, 11, 14, 23)), 4)
        if self.consts and r.random() < 0.1:
            v = Fr(r.choice(self.consts))
        return abs(v) if nn else v

    def atom(self, a):
        if a.kind == 'sym':
            return self.symval(a)
        if a.kind == 'bound':
            raise Undefined('bound')
        r = self.memo.get(a)
        if r is None:
            r = self.atomv(a)
            self.memo[a] = r
        return r

    def atomv(self, a):
        k = a.kind
        if k == 'ite':
            return self.poly(a.args[1]) if self.b(a.args[0]) else self.poly(a.args[2])
        if k == 'fdiv' or k == 'rem':
            p, q = self.poly(a.args[0]), self.poly(a.args[1])
            if q == 0:
                raise Undefined('division by zero')
            f = Fr(math.floor(Fr(p) / Fr(q)))
            return f if k == 'fdiv' else p - q * f
        if k == 'tdiv':
            p, q = self.poly(a.args[0]), self.poly(a.args[1])
            if q == 0:
                raise Undefined('division by zero')
            f = abs(Fr(p)) // abs(Fr(q))
            return Fr(f if (p >= 0) == (q > 0) else -f)
        if k == 'inv':
            p = self.poly(a.args[0])
            if p == 0 or p != p:
                return float('nan')
            return 1 / Fr(p) if isinstance(p, (int, Fr)) else 1.0 / p
        if k == 'sel' and a.args[0] == 'textop':
            try:
                return Fr(text_apply(text_of(self.poly(a.args[2])), a.args[1][0], list(a.args[1][1:])))
            except IndexError:
                raise Undefined('position in a text')
        if k == 'sel':
            key = (a.args[0],) + tuple(self.value(x) for x in a.args[1:])
            if key not in self.sel:
                if key[0] == 'strlen':
                    self.sel[key] = Fr(len(text_of(key[1])))
                elif key[0] == 'u01':
                    self.sel[key] = Fr(self.rnd(repr(key)).randrange(16), 16)
                elif key[0] == 'filebyte':
                    self.sel[key] = Fr(65 if self.rnd(repr(key)).random() < self.rnd('bytes').choice((0, .6, .9)) else self.rnd(repr(key) + 'b').choice((0, 10, 255, 66)))
                else:
                    self.sel[key] = self.sample(('sel',) + key, a.sort, a.nn)
            return self.sel[key]
        if k == 'fn':
            return self.fn(a)
        if k in ('sum', 'prod', 'first'):
            n = self.poly(a.args[1])
            if n > 2000:
                raise Undefined('range too large')
            acc = Fr(0) if k == 'sum' else Fr(1)
            for i in range(int(n)):
                (body,) = open_binder((a.args[0],), (a.args[2],), (P(i),))
                v = self.value(body)
                if k == 'sum':
                    acc = addv(acc, v)
                elif k == 'prod':
                    acc = mulv(acc, v)
                elif v:
                    return Fr(i)
            return acc if k != 'first' else Fr(n)
        if k == 'loop':
            return self.loop(a)
        if k == 'min':
            return min(self.poly(x) for x in a.args[0])
        if k == 'argsel':
            best = None
            for kk, v in a.args[0]:
                kv = self.poly(kk)
                if best is None or kv < best[0]:
                    best = (kv, v)
            # ties: the payload is not determined by the domain
            ties = {repr(self.poly(v)) for kk, v in a.args[0] if self.poly(kk) == best[0]}
            if len(ties) > 1:
                raise Undefined('tie')
            return self.poly(best[1])
        if k == 'gcd':
            return Fr(math.gcd(int(self.poly(a.args[0])), int(self.poly(a.args[1]))))
        if k == 'narrow':
            bits, sg, p = a.args
            v = int(self.poly(p)) & ((1 << bits) - 1)
            if sg and v >> (bits - 1):
                v -= 1 << bits
            return Fr(v)
        if k == 'wrapu':
            v = self.poly(a.args[0])
            return Fr(int(v) % (1 << 64))
        if k == 'trunc':
            v = self.poly(a.args[0])
            if v != v:
                raise Undefined('nan')
            return Fr(int(v))
        if k == 'round':
            v = self.poly(a.args[0])
            return Fr(math.floor(abs(v) + Fr(1, 2))) * (1 if v >= 0 else -1)
        if k == 'f32':
            import struct
            return Fr(struct.unpack('f', struct.pack('f', float(self.poly(a.args[0]))))[0])
        if k == 'fp':
            op = a.args[0]
            xs = [float(self.poly(x)) for x in a.args[1:]]
            if op == 'add':
                return xs[0] + xs[1]
            if op == 'mul':
                return xs[0] * xs[1]
            if op == 'div':
                if xs[1] == 0:
                    return float('nan')
                return xs[0] / xs[1]
            if op == 'abs':
                return abs(xs[0])
            if op == 'i2d':
                return xs[0]
            if op == 'fma':
                return float(Fr(xs[0]) * Fr(xs[1]) + Fr(xs[2]))
            if op in FPMATH:
                try:
                    return float(FPMATH[op](*xs))
                except (ValueError, OverflowError):
                    return float('nan')
            raise Undefined(op)
        raise Undefined(k)

    def fn(self, a):
        n = a.args[0]
        if n == 'pi':
            return math.pi
        if n == 'nan':
            return float('nan')
        xs = [self.poly(x) if isinstance(x, Poly) else self.value(x) for x in a.args[1:]]
        try:
            if n == 'sqrt':
                v = xs[0]
                if v < 0:
                    return float('nan')
                return math.sqrt(v)
            if n == 'exp':
                return math.exp(xs[0])
            if n == 'log':
                return math.log(xs[0]) if xs[0] > 0 else float('nan')
            if n == 'sin':
                return math.sin(xs[0])
            if n == 'cos':
                return math.cos(xs[0])
            if n == 'ipow':
                return Fr(xs[0]) ** int(xs[1])
            if n == 'floor':
                return Fr(math.floor(xs[0]))
            if n == 'ceil':
                return Fr(math.ceil(xs[0]))
            if n in ('rint', 'nearbyint'):
                return Fr(round(Fr(xs[0])))
            if n == 'inf':
                return float('inf')
            if n in PYMATH:
                return PYMATH[n](*[float(x) for x in xs])
            if not a.args[1:]:
                raise Undefined(n)
        except (OverflowError, ValueError):
            return float('nan')
        if n not in ('nan',):
            raise Undefined(n)
        # uninterpreted
        key = (n,) + tuple(xs)
        if key not in self.sel:
            self.sel[key] = self.sample(('fn',) + key, a.sort, a.nn)
        return self.sel[key]

    def loop(self, a):
        bounds, inits, cnt, cond, upds, out = a.args
        vals = [self.value(x) for x in inits]
        n = self.poly(cnt) if cnt is not None else None
        it = 0
        while n is None or it < n:
            rep = [wrapv(v) for v in vals]
            if len(bounds) > len(inits):
                rep.append(P(it))
            self.steps += 1
            if self.steps > 20000:
                raise Undefined('loop budget')
            parts = open_binder(bounds, (cond,) + tuple(upds), rep)
            sub = Env(self.seed, self.assign)
            sub.sel = self.sel
            sub.steps = self.steps
            sub.floats = getattr(self, 'floats', None)
            if not sub.value(parts[0]):
                break
            vals = [sub.value(x) for x in parts[1:]]
            self.steps = sub.steps
            it += 1
            if it > 5000:
                raise Undefined('loop')
        if out >= len(vals):
            return Fr(it)
        return vals[out]

    def b(self, b):
        r = self.memo.get(b)
        if r is None:
            r = self.bv(b)
            self.memo[b] = r
        return r

    def bv(self, b):
        k = b.kind
        if k == 'T':
            return True
        if k == 'F':
            return False
        if k == 'bsym':
            if b not in self.assign:
                self.assign[b] = self.rnd(b.args[0]).random() < 0.5
            return self.assign[b]
        if k == 'ge0':
            return self.poly(b.args[0]) >= 0
        if k == 'gt0':
            v = self.poly(b.args[0])
            if isinstance(v, float) and abs(v) < 1e-12:
                raise Undefined('tie')
            return v > 0
        if k == 'eq0':
            v = self.poly(b.args[0])
            if isinstance(v, float) and 0 < abs(v) < 1e-9:
                raise Undefined('tie')
            return v == 0
        if k == 'not':
            return not self.b(b.args[0])
        if k == 'and':
            return all(self.b(x) for x in b.args)
        if k == 'or':
            return any(self.b(x) for x in b.args)
        if k == 'any':
            n = self.poly(b.args[1])
            if n > 2000:
                raise Undefined('range')
            for i in range(int(n)):
                (body,) = open_binder((b.args[0],), (b.args[2],), (P(i),))
                if self.value(body):
                    return True
            return False
        if k == 'bloop':
            return bool(self.loop(b))
        if k == 'fpcmp':
            op, x, y = b.args
            x, y = self.poly(x), self.poly(y)
            return {'lt': x < y, 'le': x <= y, 'eq': x == y}[op]
        if k == 'bsel':
            key = (b.args[0],) + tuple(self.value(x) for x in b.args[1:])
            if key not in self.sel:
                self.sel[key] = self.rnd(repr(key)).random() < 0.5
            return self.sel[key]
        if k == 'gcdneg':
            return eu(int(self.poly(b.args[0])), int(self.poly(b.args[1]))) < 0
        if k == 'isnan':
            v = self.poly(b.args[0])
            return v != v
        if k == 'isinf':
            v = self.poly(b.args[0])
            return v in (float('inf'), float('-inf'))
        if k == 'fmtne':
            v = float(self.poly(b.args[0]))
            x, y = number_text(v, b.args[1]), number_text(v, b.args[2])
            # where the shortest text is involved only the number it denotes is compared
            return float(x) != float(y) if 'f' in b.args[1:] else x != y
        raise Undefined(k)


def tq(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b > 0) else -q


def eu(x, y):
    while y:
        q = abs(x) % abs(y)
        x, y = y, (q if x >= 0 else -q)
    return x


def wrapv(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return P(NAN)
        return P(Fr(v))
    return P(v)


def mulv(a, b):
    if isinstance(a, float) or isinstance(b, float):
        try:
            return float(a) * float(b)
        except OverflowError:
            return float('nan')
    return a * b


def addv(a, b):
    if isinstance(a, float) or isinstance(b, float):
        try:
            return float(a) + float(b)
        except OverflowError:
            return float('nan')
    return a + b


def same_num(a, b, tol=1e-9):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    an, bn = a != a, b != b
    if an or bn:
        return an and bn
    if isinstance(a, Fr) and isinstance(b, Fr):
        return a == b
    if a == b:
        return True
    if tol == 0:
        return float(a) == float(b)
    return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(a)), abs(float(b)))
