"""The interpolation search over a range of any length.

Abstraction of a sorted range x[0..n) and a search value v: two positions, B <= A, with
    v < x[k]  <=>  k >= A        and        x[k] < v  <=>  k < B .
The code is interpreted once over symbolic n, A, B.  Every loop is replaced by an arbitrary
iteration: the locations it changes become fresh symbols, constrained by an inductive
invariant that is found by elimination (all linear candidates over the symbols that hold at
the entry, minus those an iteration does not preserve).  A linear form that decreases in
every iteration and is bounded below shows termination.  Floating-point positions are
bounded by the interval of the rounded operations (0 <= r <= 1 gives 0 <= round(r*c) <= c).

An alarm needs a certificate: a concrete sorted range (a piecewise description, any length)
for which constant propagation through the same code gives another position, leaves the range,
overflows an element difference or repeats a state."""
import bisect
import math
import multiprocessing
import os
import struct
import sys
import time
from fractions import Fraction as Fr
from .. import harness, models
from ..cast import *
from ..harness import Args
from ..interp import Interp, State, Frame, merge_all, Bc, Unsupported
from ..prove import Facts
from ..terms import *
from ..values import *

RULE = ('value-graph equality for short ranges; for ranges of any length an inductive invariant (Houdini elimination over linear candidates) over the abstraction '
        'v < x[k] <=> k >= A: returned position == A, every read inside the range, a decreasing variant, no overflow of element differences; '
        'an alarm is certified by constant propagation over a concrete sorted range')
FILTERS = ()


class Fail(Exception):
    pass


def leaf_lit(c):
    while c.kind in ('and', 'or', 'not'):
        c = c.args[0]
    return c


def find_gate(p):
    for a in p.atoms():
        if a.kind == 'ite':
            return a.args[0]
        for x in a.args:
            if isinstance(x, Poly):
                g = find_gate(x)
                if g is not None:
                    return g
    return None


def gated(l):
    return any(isinstance(x, Poly) and find_gate(x) is not None for x in l.args) or l.kind in ('or', 'and', 'not') and any(isinstance(x, B) and gated(x) for x in l.args)


def split(f, l):
    """f with l: facts that depend on a gate are normalised again"""
    late = [x for x in f.order if gated(x) or x.kind == 'or']
    if not late:
        return f.add(l)
    g = f.__class__()
    for a, v in f.sub.items():
        g = g.add(eq0(P(a) - v)) if isinstance(v, Poly) else g
    for x in [x for x in f.order if x not in late] + [l] + late:
        g = g.add(x)
    return g


class Linear(Facts):
    """linear entailment only; a disequality at the end of an interval becomes an inequality"""

    def add(self, b, force=False):
        f = Facts.add(self, b, force)
        for x in (b.args if b.kind == 'and' else (b,)):
            if not f.bad and x.kind == 'not' and x.args[0].kind == 'eq0':
                p = f.simp(x.args[0].args[0])
                if p.sort == 'i':
                    for q in (p, -p):
                        if f.nonneg(q):
                            f = Facts.add(f, ge0(q - 1))
        return f

    def nonneg(self, p):
        c = p.const()
        if c is not None:
            return c >= 0
        if nonneg_quick(p):
            return True
        if any(a.kind == 'ite' for a in p.atoms()):
            return False
        return self.fm(p, False)


class Search(Interp):
    def __init__(self, ast, seq, n, val, A, B, dbl):
        Interp.__init__(self, ast, {'fp': True})
        self.seqname, self.n, self.val, self.A, self.B = seq, n, val, A, B
        self.scoped = []         # (guard, fact): constraints of fresh symbols
        self.problems = []
        self.quiet = 0
        self.proofs = 0
        self.invs = []
        self.nvar = 0
        self.lower = False

    # ---- entailment with gates and scoped facts
    def enrich(self, f, used=frozenset()):
        more = True
        used = set(used)
        while more and not f.bad:
            more = False
            for i, (g, l) in enumerate(self.scoped):
                if i in used:
                    continue
                if f.decide(f.simp(g)) is True:
                    used.add(i)
                    more = True
                    f = f.add(l)
                    if f.bad:
                        break
        return f, used

    def prove(self, f, p, depth=0, used=frozenset()):
        """p >= 0 under f"""
        self.proofs += 1
        if f.bad:
            return True
        f, used = self.enrich(f, used)
        if f.bad:
            return True
        p = f.simp(p)
        c = p.const()
        if c is not None:
            return c >= 0
        if f.nonneg(p):
            return True
        g = find_gate(p)
        if g is None:
            for l in f.order:
                if l.kind == 'or':
                    g = l
                    break
        if g is None:
            # scopes not yet decided
            for i, (s, l) in enumerate(self.scoped):
                if i not in used and set(a for a in l.syms) & set(p.syms):
                    g = s
                    break
        if g is None or depth > 14:
            if os.environ.get('SA_DEBUG') == '2':
                print('FAIL', depth, show_x(p), [show_x(x) for x in f.order], [(show_x(a), show_x(b)) for i, (a, b) in enumerate(self.scoped) if i not in used], flush=True)
            return False
        l = leaf_lit(f.simp(g)) if f.simp(g).kind not in ('T', 'F') else None
        if l is None or l.kind in ('T', 'F'):
            return False
        self.last = None
        return all(self.prove(split(f, x), p, depth + 1, used) for x in (l, not_(l)))

    def is0(self, f, p):
        return self.prove(f, p) and self.prove(f, -p)

    def need(self, ok, what):
        if not ok and not self.quiet:
            self.problems.append((what, self.where(self.cur)))

    # ---- the abstraction of comparisons
    def what(self, x):
        """('v',) for the search value, ('x', k) for an element"""
        a = P(x).single_atom() if isinstance(x, (Poly, Atom)) else None
        if a is None:
            return None
        if a.kind == 'fp' and a.args[0] in ('i2d',):
            return None
        if a is self.val:
            return ('v',)
        if a.kind == 'sel' and a.args[0] == self.seqname:
            return ('x', a.args[1])
        return None

    def compare(self, op, x, y, t, st):
        if isinstance(x, Poly) and isinstance(y, Poly):
            p, q = self.what(x), self.what(y)
            if p and q and p[0] != q[0]:
                if p[0] == 'x':
                    p, q = q, p
                    op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
                k = q[1]
                gt, lt = ge0(k - P(self.A)), ge0(P(self.B) - k - 1)    # v < x[k], x[k] < v
                r = {'<': gt, '>': lt, '<=': not_(lt), '>=': not_(gt), '==': and_(not_(gt), not_(lt)), '!=': or_(gt, lt)}[op]
                return r
        return Interp.compare(self, op, x, y, t, st)

    def index(self, st, v, i):
        if isinstance(v, Seq) and len(v.segs) == 1 and v.segs[0][0] == 'r':
            self.need(self.quiet or self.prove(st.facts, i) and self.prove(st.facts, P(self.n) - 1 - i), 'an element is read at a position not shown to lie inside the range')
            (r,) = open_binder((v.segs[0][2],), (v.segs[0][3],), (i,)) if False else (P(mk_atom('sel', (self.seqname, st.facts.simp(i)), self.esort)),)
            return r
        return Interp.index(self, st, v, i)

    def arith(self, op, x, y, t, st, ta=None):
        k = self.kind(t)
        if k[0] == 'int' and k[1] >= 32:
            if self.touches(x) or self.touches(y):
                if k[2]:
                    self.need(False, 'signed arithmetic on elements may overflow')
                return P(fresh('e', 'i'))
        return Interp.arith(self, op, x, y, t, st, ta)

    def touches(self, p):
        if not isinstance(p, Poly):
            return False
        return any(self.what(P(a)) for a in p.atoms())

    # ---- floating point: intervals
    def frange(self, st, p, d=0):
        """integers lo, hi (terms) with lo <= p <= hi for the rounded value p"""
        c = p.const()
        if c is not None:
            return P(math.floor(c)), P(math.ceil(c))
        a = p.single_atom()
        if a is None or d > 8:
            return None
        if a.sort == 'i' and not self.touches(p):
            return p, p
        if a.kind != 'fp':
            return None
        op, xs = a.args[0], a.args[1:]
        if op in ('i2d', 'i2f'):
            x = xs[0]
            m = 1 << (53 if op == 'i2d' else 24)
            if not self.touches(x) and self.prove(st.facts, x + m) and self.prove(st.facts, P(m) - x):
                return x, x
            return None
        if op in ('round', 'floor', 'ceil', 'trunc'):
            return self.frange(st, xs[0], d + 1)
        if op == 'mul':
            for u, v in (xs, xs[::-1]):
                if self.unit(st, u):
                    r = self.frange(st, v, d + 1)
                    if r is not None and self.prove(st.facts, r[0]):
                        return ZERO, r[1]
            return None
        if op == 'add':
            r, s = self.frange(st, xs[0], d + 1), self.frange(st, xs[1], d + 1)
            if r and s:
                return r[0] + s[0], r[1] + s[1]
            return None
        if self.unit(st, p):
            return ZERO, ONE
        return None

    def holds(self, f, b):
        return f.decide(f.simp(b)) is True

    def unit(self, st, u):
        """0 <= u <= 1, in particular a number"""
        c = u.const()
        if c is not None:
            return 0 <= c <= 1
        f = st.facts
        a = u.single_atom()
        if a is not None and a.kind == 'ite' and u is P(a):
            s1, s2 = st.clone(), st.clone()
            s1.facts, s2.facts = f.add(a.args[0]), f.add(not_(a.args[0]))
            return self.unit(s1, a.args[1]) and self.unit(s2, a.args[2])
        lo = any(self.holds(f, b) for b in (fp_cmp('le', ZERO, u), fp_cmp('lt', ZERO, u)))
        hi = any(self.holds(f, b) for b in (fp_cmp('le', u, ONE), fp_cmp('lt', u, ONE)))
        if lo and hi:
            return True
        # one true comparison shows that u is a number; rounding and conversion are monotone
        number = lo or hi or any(l.kind == 'fpcmp' and (l.args[1] is u or l.args[2] is u) for l in f.order)
        if not number:
            return False
        a = u.single_atom()
        if not a or a.kind != 'fp' or a.args[0] != 'div':
            return False
        p, q = self.minus(a.args[1]), self.minus(a.args[2])
        if p is None or q is None or not self.le(st, p[1], p[0]) or not self.le(st, q[1], q[0]):
            return False
        return hi or p[1] == q[1] and self.le(st, p[0], q[0]) or p[0] == q[0] and self.le(st, q[1], p[1])

    def minus(self, p):
        """(a, b) if p is the rounded difference of two converted elements or the value"""
        a = p.single_atom()
        if not a or a.kind != 'fp' or a.args[0] != 'add':
            return None
        for x, y in (a.args[1:], a.args[:0:-1]):
            u, v = self.source(x), self.source(-y)
            if u and v and u[1] == v[1]:
                return u[0], v[0]
        return None

    def source(self, x):
        conv = ()
        while True:
            w = self.what(x)
            if w:
                return w, conv
            a = x.single_atom()
            if a is None or x is not P(a) or a.kind != 'fp' or a.args[0] not in ('i2d', 'i2f', 'd2f'):
                return None
            conv += (a.args[0],)
            x = a.args[1]

    def le(self, st, x, y):
        """x <= y in the order of the range"""
        if x == y:
            return True
        if x[0] == 'v' and y[0] == 'x':
            return self.prove(st.facts, y[1] - P(self.B))
        if x[0] == 'x' and y[0] == 'v':
            return self.prove(st.facts, P(self.A) - x[1] - 1)
        return self.prove(st.facts, y[1] - x[1])

    def f2i(self, st, v, kd):
        c = v.const()
        if c is not None:
            return Interp.f2i(self, st, v, kd)
        a = v.single_atom()
        if a is not None and a.kind == 'ite':
            s1, s2 = st.clone(), st.clone()
            s1.facts, s2.facts = st.facts.add(a.args[0]), st.facts.add(not_(a.args[0]))
            s1.guard, s2.guard = and_(st.guard, a.args[0]), and_(st.guard, not_(a.args[0]))
            return ite(a.args[0], self.f2i(s1, a.args[1], kd), self.f2i(s2, a.args[2], kd))
        r = self.frange(st, v)
        s = P(fresh('p', 'i'))
        if r is None:
            self.need(False, 'a floating-point position is converted to an integer without a known interval')
            return s
        for l in (ge0(s - r[0]), ge0(r[1] - s)):
            self.scoped.append((st.guard, l))
            st.facts = st.facts.add(l)
        return s

    def fmath(self, name, x, st):
        if name in ('round', 'floor', 'ceil', 'trunc', 'lround', 'llround', 'rint', 'nearbyint'):
            if x.sort == 'i':
                return x
            n = 'round' if 'round' in name or 'rint' in name or 'near' in name else name
            r = P(mk_atom('fp', (n, x), 'r'))
            return self.f2i(st, r, ('int', 64, True)) if name in ('lround', 'llround') else r
        return None

    def convert(self, v, src, dst, st):
        if isinstance(v, Poly) and self.what(v) and self.kind(src)[0] == 'int' and self.kind(dst)[0] == 'int':
            ks, kd = self.kind(src), self.kind(dst)
            if kd[1] > ks[1] or kd == ks:
                if kd == ks or ks[2] == kd[2] or kd[2]:
                    return v
            return P(fresh('e', 'i'))
        if isinstance(v, Poly) and self.what(v) and self.kind(src)[0] == 'int' and self.kind(dst)[0] == 'flt':
            return P(mk_atom('fp', ('i2f', v), 'r')) if self.kind(dst)[1] == 'float' else fp_op('i2d', v)
        if isinstance(v, Poly) and self.kind(dst)[0] == 'flt' and self.kind(dst)[1] == 'float' and v.const() is None:
            if self.kind(src)[0] == 'int':
                return P(mk_atom('fp', ('i2f', v), 'r'))
            if self.kind(src)[1] != 'float':
                return P(mk_atom('fp', ('d2f', v), 'r'))
        return Interp.convert(self, v, src, dst, st)

    # ---- library searches on a part of the range
    def sorted_search(self, name, st, a, b, v):
        if not self.what(v) or self.what(v)[0] != 'v' or a.rev:
            raise Unsupported('search for another value')
        pos = P(self.A if name == 'upper_bound' else self.B)
        self.need(self.quiet or self.prove(st.facts, b.pos - a.pos) and self.prove(st.facts, a.pos) and self.prove(st.facts, P(self.n) - b.pos), 'a library search is given positions not shown to be a range')
        return Iter(a.ref, ite(ge0(a.pos - pos), a.pos, ite(ge0(pos - b.pos), b.pos, pos)), a.rev)

    # ---- loops
    def scalars(self, st):
        out = {}
        for k, v in st.cells.items():
            if isinstance(v, Poly):
                out[k] = v
            elif isinstance(v, Iter) and isinstance(v.pos, Poly):
                out[k] = v.pos
        return out

    def once(self, st, condf, bodyf, incf, fr):
        """one iteration from st: (exit states, end states)"""
        fr.brk, fr.cont = [], []
        s = st.clone()
        c = condf(s)
        exits = []
        if not s.alive:
            return [], []
        if c.kind == 'T':
            a = s
        elif c.kind == 'F':
            return [s], []
        else:
            a, b = self.fork(s, c)
            if b.alive:
                exits.append(b)
        ends = []
        if a.alive:
            bodyf(a)
            e = fr.cont + ([a] if a.alive else [])
            for x in e:
                if incf is not None:
                    incf(x)
                if x.alive:
                    ends.append(x)
        exits += fr.brk
        fr.brk, fr.cont = [], []
        return exits, ends

    def loop(self, n, st, fr, condf, bodyf, incf, first=False):
        ob, oc = fr.brk, fr.cont
        self.nloops += 1
        if first:
            fr.brk, fr.cont = [], []
            bodyf(st)
            r = merge_all(fr.cont + ([st] if st.alive else []), st.facts)
            if fr.brk:
                raise Unsupported('break in the first iteration')
            if r is None:
                fr.brk, fr.cont = ob, oc
                st.alive = False
                return
            st.take(r)
            if incf is not None:
                incf(st)
        self.quiet += 1
        keep = (len(fr.rets), len(self.throws))
        nsc = len(self.scoped)

        def reset():
            del fr.rets[keep[0]:]
            del self.throws[keep[1]:]
        init = dict(st.cells)
        mod = set()
        while True:
            h, syms = self.havoc(st, init, mod)
            ex, en = self.once(h, condf, bodyf, incf, fr)
            reset()
            new = set()
            for e in en + ex:
                for k, v in e.cells.items():
                    if k in init and k not in mod and not veq(v, h.cells[k]):
                        new.add(k)
            if not new:
                break
            mod |= new
        h, syms = self.havoc(st, init, mod)
        ints = [(k, s) for k, s in syms.items() if s.sort == 'i']
        entry = {s: self.scalar(init[k]) for k, s in syms.items()}
        m = len(ints)

        def iterate(cand, test, weaker=None):
            while True:
                h, _ = self.havoc(st, init, mod, syms)
                for l in eqs + [c[0] for c in cand]:
                    h.facts = h.facts.add(l)
                if h.facts.bad:
                    raise Unsupported('contradictory invariant candidates')
                del self.scoped[nsc:]
                ex, en = self.once(h, condf, bodyf, incf, fr)
                reset()
                nxt = []
                for c in cand:
                    if all(test(e.facts, subst(c[1], {s: self.scalar(e.cells[k]) for k, s in syms.items()})) for e in en):
                        nxt.append(c)
                    elif weaker is not None:
                        w = weaker(c)
                        if w is not None:
                            nxt.append(w)
                if os.environ.get('SA_DEBUG'): print([show_x(c[0]) for c in nxt], self.proofs, flush=True)
                if nxt == cand:
                    return cand
                cand = nxt
        # equalities between the changed integers first: they remove symbols
        eqs = []
        vs = [P(s) for k, s in ints]
        cand = []
        for i in range(m):
            for x in [vs[j] - vs[l] for j in range(m) for l in range(m) if len({i, j, l}) == 3] + [vs[j] for j in range(i)] + [ZERO]:
                for d in (0, 1, -1):
                    p = vs[i] - x - d
                    if self.is0(st.facts, subst(p, entry)):
                        cand.append((eq0(p), p))
                        break
        eqs = [c[0] for c in iterate(cand, self.is0)]
        f = Linear()
        for l in eqs:
            f = f.add(l)
        left = [v for v in vs if f.simp(v) is v]
        rest = [ZERO, P(self.n), P(self.A)] + ([P(self.B)] if self.lower else [])
        forms = []
        for i, u in enumerate(left):
            for v in left[:i] + rest:
                forms += [u - v, v - u]
            for w in left[:i]:
                for v in rest[1:]:
                    forms += [u + w - v, v - u - w]

        def ineq(f, d):
            return (ge0(f + d), f + d, f, d)

        def least(f, d0):
            for d in (-1, 0, 1):
                if d >= d0 and self.prove(st.facts, subst(f + d, entry)):
                    return ineq(f, d)
            return None
        cand = [c for c in (least(f, -1) for f in forms) if c is not None]

        if os.environ.get('SA_DEBUG'): print(eqs, left, [show_x(c[0]) for c in cand], flush=True)
        cand = iterate(cand, self.prove, lambda c: least(c[2], c[3] + 1))
        cand = [(l,) for l in eqs] + cand
        del self.scoped[nsc:]
        self.quiet -= 1
        # the final pass, with its obligations
        h, _ = self.havoc(st, init, mod, syms)
        for c in cand:
            self.scoped.append((st.guard, c[0]))
            h.facts = h.facts.add(c[0])
        self.invs.append((self.where(n), [show_x(c[0]) for c in cand]))
        ex, en = self.once(h, condf, bodyf, incf, fr)
        if en:
            done = False
            ts = vs + [ZERO]
            for f in [u - v for u in ts for v in ts if u is not v] + [P(self.n) - v for v in vs]:
                if not self.prove(h.facts.add(self.loop_cond(h, condf)), f + 2):
                    continue
                if all(self.prove(e.facts, f - 1 - subst(f, {s: self.scalar(e.cells[k]) for k, s in syms.items()})) for e in en):
                    done = True
                    self.nvar += 1
                    break
            if not done:
                self.cur = n
                self.need(False, 'no variant shows that the loop ends')
        fr.brk, fr.cont = ob, oc
        r = merge_all(ex, st.facts)
        if r is None:
            st.alive = False
        else:
            st.take(r)

    def loop_cond(self, h, condf):
        self.quiet += 1
        try:
            s = h.clone()
            return condf(s)
        finally:
            self.quiet -= 1

    def scalar(self, v):
        return v.pos if isinstance(v, Iter) else v

    def havoc(self, st, init, mod, syms=None):
        h = st.clone()
        out = {}
        for k in mod:
            v = init[k]
            if isinstance(v, Iter):
                s = syms[k] if syms else fresh('i', 'i')
                h.cells[k] = Iter(v.ref, P(s), v.rev)
            elif isinstance(v, Poly):
                s = syms[k] if syms else fresh('c', 'i' if v.sort == 'i' and not self.touches(v) else 'r')
                h.cells[k] = P(s)
            else:
                raise Unsupported('the loop changes a %s' % type(v).__name__)
            out[k] = s
        return h, out


# ------------------------------------------------------------------ certificates
class Wrong(Exception):
    pass


INFP, INFM = mk_atom('special', ('inf',), 'r'), mk_atom('special', ('-inf',), 'r')


class Constant(Interp):
    """constant propagation over one described range"""
    UNROLL = 10 ** 9

    def __init__(self, ast, fun, n, et):
        Interp.__init__(self, ast, {'fp': False, 'maxsteps': 3000000})
        self.fun, self.len, self.et = fun, n, et

    def num(self, p):
        if p is P(INFP):
            return math.inf
        if p is P(INFM):
            return -math.inf
        if p is P(NAN):
            return math.nan
        c = p.const()
        if c is None:
            raise Unsupported('not a constant')
        return c

    def mk(self, x):
        if isinstance(x, float):
            if x != x:
                return P(NAN)
            if math.isinf(x):
                return P(INFP) if x > 0 else P(INFM)
            return P(Fr(x))
        return P(x)

    def index(self, st, v, i):
        if isinstance(v, Seq) and len(v.segs) == 1 and v.segs[0][0] == 'r':
            c = i.const()
            if c is None:
                raise Unsupported('index')
            if not 0 <= c < self.len:
                raise Wrong('reads element %d of a range of %d elements' % (c, self.len))
            return self.mk(self.fun(int(c)))
        return Interp.index(self, st, v, i)

    def rnd(self, x, t):
        if t == 'float' and isinstance(x, float) and math.isfinite(x):
            try:
                return struct.unpack('f', struct.pack('f', x))[0]
            except OverflowError:
                return math.copysign(math.inf, x)
        return x

    def arith(self, op, x, y, t, st, ta=None):
        k = self.kind(t)
        if k[0] == 'flt':
            if k[1] not in ('float', 'double'):
                raise Unsupported('long double')
            a, b = float(self.num(x)), float(self.num(y))
            try:
                r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[op]()
            except ZeroDivisionError:
                r = math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
            return self.mk(self.rnd(r, k[1]))
        if k[0] == 'int' and op in ('/', '%') and y.const() == 0:
            raise Wrong('divides an integer by zero')
        if k[0] == 'int' and not k[2]:
            x, y = self.normi(st, x, k), self.normi(st, y, k)
        r = Interp.arith(self, op, x, y, t, st, ta)
        c = r.const()
        if k[0] == 'int' and c is not None:
            if k[2]:
                if not -(1 << (k[1] - 1)) <= c < 1 << (k[1] - 1):
                    raise Wrong('overflows %s: %s %s %s' % (t, self.num(x), op, self.num(y)))
            else:
                r = P(int(c) % (1 << k[1]))
        return r

    def farith(self, op, x, y):
        return self.arith(op, x, y, 'double', State())

    def fcompare(self, op, p, q, st):
        a, b = self.num(p), self.num(q)
        return Bc({'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[op])

    def convert(self, v, src, dst, st):
        ks, kd = self.kind(src), self.kind(dst)
        if isinstance(v, B):
            return Interp.convert(self, v, src, dst, st)
        if isinstance(v, Poly) and kd[0] == 'flt':
            x = self.num(self.normi(st, v, ks) if ks[0] == 'int' else v)
            return self.mk(self.rnd(float(x), kd[1]))
        if isinstance(v, Poly) and kd[0] == 'int' and ks[0] == 'int' and v.const() is not None:
            c = int(v.const()) % (1 << kd[1])
            return P(c - (1 << kd[1]) if kd[2] and c >> (kd[1] - 1) else c)
        return Interp.convert(self, v, src, dst, st)

    def f2i(self, st, v, kd):
        x = self.num(v)
        lo, hi = (-(1 << (kd[1] - 1)), 1 << (kd[1] - 1)) if kd[2] else (0, 1 << kd[1])
        if x != x or x in (math.inf, -math.inf) or not lo <= math.trunc(x) < hi:
            raise Wrong('converts %s to an integer position' % x)
        return P(math.trunc(x))

    def fmath(self, name, x, st):
        a = self.num(x)
        if not math.isfinite(a) and name in ('isnan', 'isinf', 'isfinite'):
            return Bc({'isnan': a != a, 'isinf': a == a, 'isfinite': False}[name])
        if not math.isfinite(a):
            return x if name not in ('abs', 'fabs') else self.mk(abs(a))
        return None

    def sorted_search(self, name, st, a, b, v):
        lo, hi = int(a.pos.const()), int(b.pos.const())
        if lo > hi or lo < 0 or hi > self.len:
            raise Wrong('searches the library range [%d, %d) of a range of %d elements' % (lo, hi, self.len))
        x = self.num(v)
        while lo < hi:
            m = (lo + hi) // 2
            e = self.fun(m)
            if (x < e) if name == 'upper_bound' else not (e < x):
                hi = m
            else:
                lo = m + 1
        return Iter(a.ref, P(lo), a.rev)

    def loop(self, n, st, fr, condf, bodyf, incf, first=False):
        ob, oc = fr.brk, fr.cont
        seen = set()
        known = set(st.cells)
        it = 0
        while st.alive:
            if it or not first:
                c = condf(st)
                if c.kind == 'F' or not st.alive:
                    break
                if c.kind != 'T':
                    raise Unsupported('condition')
            key = tuple(sorted((k, (v.pos.id if isinstance(v, Iter) else v.id)) for k, v in st.cells.items() if k in known and isinstance(v, (Iter, Poly))))
            if key in seen:
                raise Wrong('repeats the state of an earlier iteration: the loop at %s does not end' % self.where(n))
            seen.add(key)
            fr.brk, fr.cont = [], []
            bodyf(st)
            if fr.cont and not st.alive:
                st.take(fr.cont[0])
            if fr.brk:
                st.take(fr.brk[0])
                break
            if st.alive and incf is not None:
                incf(st)
            it += 1
            if it > 300:
                raise Unsupported('too long')
        fr.brk, fr.cont = ob, oc


def ranges(et, tier):
    """sorted ranges (description, length, function, values)"""
    flt = et in ('float', 'double')
    one = 1.0 if flt else 1
    if et == 'float':
        big, low = struct.unpack('f', struct.pack('f', 3.0e38))[0], -struct.unpack('f', struct.pack('f', 3.0e38))[0]
    elif et == 'double':
        big, low = 1.7e308, -1.7e308
    else:
        bits, sg = {'int': (32, True), 'long': (64, True), 'unsigned long': (64, False)}[et]
        big, low = ((1 << (bits - 1)) - 1, -(1 << (bits - 1))) if sg else ((1 << bits) - 1, 0)
    for n in (1, 2, 10000, 10001, 10002, 10003, 20011, 50000):
        yield 'x[k] = k', n, (lambda k: k * one), [-one if low < 0 else 0 * one, 0 * one, one, (n // 2) * one, (n - 2) * one, (n - 1) * one, n * one] + ([0.5, n - 1.5, n / 2 + 0.5] if flt else [])
        yield 'x[k] = 5', n, (lambda k: 5 * one), [4 * one, 5 * one, 6 * one]
        yield 'x[k] = k/7', n, (lambda k: (k // 7) * one), [0 * one, one, (n // 14) * one, ((n - 1) // 7) * one]
        for b in sorted({1, 2, n // 2, n - 2, n - 1}):
            if not 0 < b < n:
                continue
            for lo, hi in ((0 * one, 9 * one), (low, big), (low, 0 * one), (0 * one, big)):
                vs = [lo, hi, lo + one if not flt else (lo / 2 + hi / 2), hi - one if not flt else hi * 0.999999, 3 * one]
                yield 'x[k] = %s for k < %d, %s from there' % (lo, b, hi), n, (lambda k, b=b, lo=lo, hi=hi: lo if k < b else hi), [v for v in vs if low <= v <= big]
            if flt:
                yield 'x[k] = -inf for k < %d, 1 from there' % b, n, (lambda k, b=b: -math.inf if k < b else 1.0), [0.0, 1.0, -math.inf, 2.0]
                yield 'x[k] = 1 for k < %d, inf from there' % b, n, (lambda k, b=b: 1.0 if k < b else math.inf), [0.0, 1.0, math.inf, 2.0]
        if n > 4:
            # a steep end: the interpolated position is the last one
            m = 1 << 20
            yield 'x[k] = 2^20*k/(n-1)', n, (lambda k, m=m, n=n: (m * k // (n - 1)) * one), [one, (m // 2) * one, (m - 1) * one, m * one]
            yield 'x = 0, %d.., last %d' % (m, m + 1), n, (lambda k, m=m, n=n: 0 * one if k == 0 else (m + 1) * one if k == n - 1 else m * one), [0 * one, one, (m - 1) * one, m * one, (m + 1) * one]
            yield 'x = 0, 1.., last 2^20', n, (lambda k, m=m, n=n: 0 * one if k == 0 else m * one if k == n - 1 else one), [0 * one, one, 2 * one, (m - 1) * one]
    for n in ((1 << 24) + 4, (1 << 33) + 5):
        t = 1 << 24 if et == 'float' else 1 << 30
        yield 'x[k] = 0, last %d' % t, n, (lambda k, n=n, t=t: t * one if k == n - 1 else 0 * one), [(t - 1) * one, 0 * one, t // 2 * one]
        yield 'x[k] = k/2^8', n, (lambda k: (k >> 8) * one), [0 * one, 1000 * one, 60000 * one]
    if et == 'float':
        n = (1 << 24) + 4
        yield 'x[k] = 0, last 1', n, (lambda k, n=n: 1.0 if k == n - 1 else 0.0), [0.0, 0.9999999403953552, 0.5]
    if not flt and big > 1 << 60:
        n = 10500
        yield 'x[k] = 2^62 + k', n, (lambda k: (1 << 62) + k), [1 << 62, (1 << 62) + 9, (1 << 62) + n - 2]


def certificate(ast, fn, et, tier):
    count = 0
    t0 = time.time()
    for text, n, fun, vals in ranges(et, tier):
        for v in vals:
            if time.time() - t0 > (90 if tier == 'quick' else 400):
                return None, count
            a, b = 0, n
            while a < b:
                m = (a + b) // 2
                if v < fun(m):
                    b = m
                else:
                    a = m + 1
            I = Constant(ast, fun, n, et)
            st = State()
            k = fresh('k', 'i', True)
            seq = Seq([('r', P(n), k, P(mk_atom('sel', ('x', P(k)), 'i' if et not in ('float', 'double') else 'r')))], et)
            count += 1
            why = None
            try:
                r = I.load(st, I.call(fn, None, [I.new_cell(st, seq), I.new_cell(st, I.mk(v))], st, Frame(fn)))
                if not st.alive:
                    why = 'throws'
                elif r.const() is None:
                    continue
                elif r.const() != a:
                    why = 'returns position %s, the upper bound is %d' % (r.const(), a)
            except Wrong as e:
                why = str(e)
            except Unsupported:
                continue
            if why:
                return '%s elements of type %s, %s, value %s: %s' % (n, et, text, v, why), I
    return None, count


def run(tier, seed, only):
    ast = harness.load_ast('C33')
    fns = {}
    for n in list(ast.decl.values()):
        if n.get('name') == 'at' and 'C33search' in (n.get('_q') or '') and ast.body(n):
            et = tmpl_args(bare(qt(ast.params(n)[0])))
            if bare(qt(ast.params(n)[1])) in ('int', 'long', 'unsigned long', 'float', 'double'):
                fns[bare(qt(ast.params(n)[1]))] = n
    todo = [(et, fn) for et, fn in sorted(fns.items()) if not only or only in 'C33_anylength<%s>' % et]
    global _G
    _G = (ast, todo, tier)
    with multiprocessing.get_context('fork').Pool(min(5, max(1, len(todo)))) as p:
        return p.map(_go, range(len(todo)))


def _go(i):
    sys.setrecursionlimit(20000)
    ast, todo, tier = _G
    et, fn = todo[i]
    return one(ast, et, fn, 'C33_anylength<%s>' % et, tier)


def one(ast, et, fn, name, tier):
    flt = et in ('float', 'double')
    n, A, B, val = sym('n', 'i'), sym('A', 'i'), sym('B', 'i'), sym('v', 'r' if flt else 'i')
    I = Search(ast, 'x', n, val, A, B, flt)
    I.esort = 'r' if flt else 'i'
    st = State(None, Linear())
    for l in (ge0(P(n)), ge0(P(B)), ge0(P(A) - P(B)), ge0(P(n) - P(A)), ge0(P(1 << 52) - P(n))):
        st.facts = st.facts.add(l)
    k = fresh('k', 'i', True)
    seq = Seq([('r', P(n), k, P(mk_atom('sel', ('x', P(k)), I.esort)))], et)
    why = []
    base = st.facts
    try:
        r = I.load(st, I.call(fn, None, [I.new_cell(st, seq), I.new_cell(st, P(val))], st, Frame(fn)))
        if I.throws:
            why.append('may throw')
        if not I.is0(base, r - P(A)):
            why.append('the returned position is not shown to be the upper bound')
        why += ['%s at %s' % p for p in I.problems]
    except Unsupported as e:
        why.append('no transfer function: %s at %s' % (e, I.where(I.cur)))
    res = {'name': name, 'verdict': 'PROVED' if not why else 'UNDECIDED', 'why': '; '.join(sorted(set(why))[:4]), 'obligations': max(1, I.proofs),
           'functions': [(q, l) for q, l in I.trace if not (q or '').startswith('bwslv')], 'loops': I.nloops, 'detail': I.invs}
    if why:
        w, J = certificate(ast, fn, et, tier)
        if w:
            res['verdict'], res['witness'] = 'REFUTED', w
            res['construct'] = '%s at %s' % (res['functions'][0][0] if res['functions'] else 'upper_bound', J.where(J.cur))
    return res
