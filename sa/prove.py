"""Facts (a conjunction of literals) and the decision rules of the domain:
interval substitution, linear (Fourier-Motzkin) entailment over monomials, and
normalisation of values under facts with gate splitting."""
from .terms import *
from .terms import _fresh


class Facts:
    def __init__(self):
        self.lits = frozenset()
        self.order = ()
        self.sub = {}
        self.bad = False
        self._dec = {}
        self._simp = {}
        self._cons = None
        self._bs = {}
        self._bounds = None
        self.inst = frozenset()

    def add(self, b, force=False):
        if self.bad:
            return self
        b0 = b
        b = self.simp(b)
        if b.kind == 'T':
            if not force or b0 in self.lits:
                return self
            b = b0
        f = self.__class__()
        f.lits, f.order, f.sub = self.lits, self.order, dict(self.sub)
        if b.kind == 'F':
            f.bad = True
            return f
        todo = [b]
        cur = self
        parts = b.args if b.kind == 'and' else (b,)
        if any(p.kind == 'any' and not p.args[1].is_const() for p in parts):
            # a witness exists, so the range is not empty
            parts = tuple(ge0(p.args[1] - 1) for p in parts if p.kind == 'any') + tuple(parts)
        for i, p in enumerate(parts):
            p = cur.simp(p) if not force else p
            if p.kind == 'T':
                continue
            if p.kind == 'F':
                f.bad = True
                return f
            if p.kind == 'and':
                cur = cur.add(p)
                if cur.bad:
                    return cur
                continue
            d = cur.decide(p)
            if d is False:
                f.bad = True
                return f
            if p.kind == 'ge0' and ge0(-p.args[0]) in cur.lits:
                p = eq0(p.args[0])
                if p.kind != 'eq0':
                    p = cur.simp(p)
                elif cur.decide(p) is False:
                    p = FALSE
                if p.kind == 'F':
                    f.bad = True
                    return f
                if p.kind == 'T':
                    continue
            g = self.__class__()
            g.lits = cur.lits | {p}
            g.order = cur.order + (p,)
            g.sub = dict(cur.sub)
            if p.kind == 'eq0':
                s = solve_eq(p.args[0])
                if s is not None:
                    a, val = s
                    g.sub = {k: subst(v, {a: val}) for k, v in g.sub.items()}
                    g.sub[a] = val
                    # rewrite remaining literals
                    lits = []
                    for l in cur.order:
                        l2 = subst(l, {a: val})
                        if l2.kind == 'F':
                            g.bad = True
                            return g
                        if l2.kind != 'T':
                            lits.append(l2)
                    g.order = tuple(dict.fromkeys(lits))
                    g.lits = frozenset(g.order)
            elif p.kind == 'bsym':
                g.sub[p] = TRUE
            elif p.kind == 'not' and p.args[0].kind == 'bsym':
                g.sub[p.args[0]] = FALSE
            cur = g
            # an integer at its bound that it must differ from
            t = None
            if p.kind == 'not' and p.args[0].kind == 'eq0' and p.args[0].args[0].sort == 'i':
                q = p.args[0].args[0]
                if ge0(q) in g.lits:
                    t = ge0(q - 1)
                elif ge0(-q) in g.lits:
                    t = ge0(-q - 1)
            elif p.kind == 'ge0' and p.args[0].sort == 'i' and not_(eq0(p.args[0])) in g.lits:
                t = ge0(p.args[0] - 1)
            if t is not None:
                cur = cur.add(t, True)
                if cur.bad:
                    return cur
        # unit propagation
        for l in cur.order:
            if l.kind == 'or' and len(l.args) <= 8:
                left = [x for x in l.args if not_(x) not in cur.lits and cur.decide(x) is not False]
                if not left:
                    f.bad = True
                    return f
                if len(left) == 1 and left[0] not in cur.lits and cur.decide(left[0]) is None:
                    cur = cur.add(left[0])
                    if cur.bad:
                        return cur
        # signs of Euclid's algorithm
        for l in cur.order:
            g, pos = (l.args[0], False) if l.kind == 'not' else (l, True)
            if g.kind != 'gcdneg':
                continue
            r = cur.gcd_sign(g)
            if r is not None:
                if r is not pos:
                    f.bad = True
                    return f
                continue
            for x, y in (g.args, g.args[::-1]):
                # one sign known: the other one decides the sign of the result
                if cur.decide(ge0(y)) is pos:
                    t = ge0(-x - 1) if pos else ge0(x - 1)
                    if cur.decide(t) is None:
                        cur = cur.add(t)
                        if cur.bad:
                            return cur
                    elif cur.decide(t) is False:
                        f.bad = True
                        return f
                    break
        return cur

    def gcd_sign(self, g):
        a, b = g.args
        if self.decide(ge0(a)) is True and self.decide(ge0(b)) is True:
            return False
        if self.nonneg(-a) and self.nonneg(-b) and (self.decide(eq0(a)) is False or self.decide(eq0(b)) is False):
            return True
        return None

    # ------------------------------------------------------------ decide
    def decide(self, b):
        if b.kind == 'T':
            return True
        if b.kind == 'F':
            return False
        r = self._dec.get(b, 0)
        if r != 0:
            return r
        self._dec[b] = None
        r = self._decide(b)
        self._dec[b] = r
        return r

    def _decide(self, b):
        if self.bad:
            return True
        if b in self.lits:
            return True
        nb = not_(b)
        if nb in self.lits:
            return False
        k = b.kind
        if k == 'and':
            rs = [self.decide(x) for x in b.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        if k == 'or':
            rs = [self.decide(x) for x in b.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if k == 'not':
            r = self.decide(b.args[0])
            return None if r is None else not r
        if k == 'ge0':
            p = b.args[0]
            if self.nonneg(p):
                return True
            if self.nonneg(-p - 1):
                return False
            if p.sort == 'i' and ge0(p + 1) in self.lits and self.decide(eq0(p + 1)) is False:
                return True
            if p.sort == 'i' and ge0(-p) in self.lits and self.decide(eq0(p)) is False:
                return False
            m, q = mono_content(p)
            if m:
                s = self.mono_sign(m)
                if s == 1 and q.t:
                    return self.decide(ge0(q))
                if s == -1 and q.t:
                    return self.decide(ge0(-q))
            return None
        if k == 'gt0':
            p = b.args[0]
            if self.pos(p):
                return True
            if self.nonneg(-p):
                return False
            m, q = mono_content(p)
            if m:
                s = self.mono_sign(m)
                if s == 1 and q.t:
                    return self.decide(gt0(q))
                if s == -1 and q.t:
                    return self.decide(gt0(-q))
            return None
        if k == 'eq0':
            p = b.args[0]
            if self.pos(p) or self.pos(-p):
                return False
            if self.nonneg(p) and self.nonneg(-p):
                return True
            if len(p.t) == 1 and p.t[0][0] and len(p.t[0][0]) > 1:
                pass
            a = p.single_atom()
            if a is not None and a.kind in ('gcd',):
                # gcd(x,y) = 0 iff both are 0
                if self.decide(eq0(a.args[0])) is False or self.decide(eq0(a.args[1])) is False:
                    return False
            return None
        if k == 'gcdneg':
            return self.gcd_sign(b)
        if k == 'fpcmp':
            op, x, y = b.args
            for l in self.order:
                kk, neg = (l.args[0], True) if l.kind == 'not' else (l, False)
                if kk.kind == 'fpcmp':
                    o2, x2, y2 = kk.args
                    if not neg and o2 == 'lt' and op == 'lt' and x2 is y and y2 is x:
                        return False
                    if not neg and o2 == 'lt' and op == 'le' and x2 is x and y2 is y:
                        return True
                    if not neg and o2 == 'lt' and op == 'le' and x2 is y and y2 is x:
                        return False
                    if neg and o2 == 'lt' and op == 'le' and x2 is y and y2 is x:
                        return True
                    if neg and o2 == 'le' and op == 'lt' and x2 is y and y2 is x:
                        return True
                    if not neg and o2 == 'le' and op == 'lt' and x2 is y and y2 is x:
                        return False
            return None
        return None

    def mono_sign(self, m):
        s = 1
        for a, e in m:
            if e % 2 == 0:
                if not self.nonzero(P(a)):
                    return None
                continue
            x = P(a)
            if self.pos(x):
                continue
            if self.pos(-x):
                s = -s
                continue
            return None
        return s

    def nonzero(self, p):
        return self.decide(eq0(p)) is False

    # ------------------------------------------------------------ inequalities
    def nonneg(self, p):
        """prove p >= 0"""
        c = p.const()
        if c is not None:
            return c >= 0
        if nonneg_quick(p):
            return True
        if any(a.kind == 'ite' for a in p.atoms()):
            return False
        if self.bs(p, 0):
            return True
        return self.fm(p, False)

    def pos(self, p):
        c = p.const()
        if c is not None:
            return c > 0
        if p.sort == 'i':
            return self.nonneg(p - 1)
        if nonneg_quick(p):
            # a strictly positive monomial is enough
            for m, c in p.t:
                if all(e % 2 == 0 and self.nonzero(P(a)) or strictly_pos(a) or (self.pos(P(a)) if P(a) is not p else False) for a, e in m):
                    return True
        if len(p.t) == 1 and p.t[0][1] > 0 and len(p.t[0][0]) >= 1 and not (len(p.t[0][0]) == 1 and p.t[0][0][0][1] == 1):
            if self.mono_sign(p.t[0][0]) == 1:
                return True
        if any(a.kind == 'ite' for a in p.atoms()):
            return False
        return self.fm(p, True)

    def bounds(self):
        """atom -> (lower bounds, upper bounds) as polynomials"""
        if self._bounds is None:
            lo, up = {}, {}
            for l in self.order:
                for p in lit_nonneg(l):
                    for m, c in p.t:
                        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                            a = m[0][0]
                            rest = p - mk_poly({m: c})
                            if a in rest.atoms() or any(a in x.syms for x in rest.atoms()):
                                continue
                            if c == 1:
                                lo.setdefault(a, []).append(-rest)
                            else:
                                up.setdefault(a, []).append(rest)
            self._bounds = (lo, up)
        return self._bounds

    def const_range(self, p, depth=0):
        """an interval of constants that contains p, from constant bounds of its atoms"""
        lo, up = self.bounds()
        tl = th = 0
        for m, c in p.t:
            l = h = 1
            for a, e in m:
                if e < 0:
                    return None
                r = None
                if a.kind == 'ite' and depth < 3:
                    x, y = self.const_range(a.args[1], depth + 1), self.const_range(a.args[2], depth + 1)
                    if x is not None and y is not None:
                        r = min(x[0], y[0]), max(x[1], y[1])
                if r is None:
                    ls = [x.const() for x in lo.get(a, []) if x.const() is not None] + ([0] if a.nn else [])
                    us = [x.const() for x in up.get(a, []) if x.const() is not None]
                    if not ls or not us:
                        return None
                    r = max(ls), min(us)
                if e % 2 == 0:
                    q = max(abs(r[0]), abs(r[1])) ** e
                    r = 0 if r[0] <= 0 <= r[1] else min(abs(r[0]), abs(r[1])) ** e, q
                else:
                    r = r[0] ** e, r[1] ** e
                v = [l * r[0], l * r[1], h * r[0], h * r[1]]
                l, h = min(v), max(v)
            tl += min(c * l, c * h)
            th += max(c * l, c * h)
        return tl, th

    def bs(self, p, depth):
        key = p
        r = self._bs.get(key)
        if r is not None:
            return r
        self._bs[key] = False
        r = self._bsv(p, depth)
        self._bs[key] = r
        return r

    def _bsv(self, p, depth):
        c = p.const()
        if c is not None:
            return c >= 0
        if nonneg_quick(p):
            return True
        lo, up = self.bounds()
        # eliminate multiples q*fdiv(x,q) = x - rem
        for a in p.atoms():
            if a.kind == 'fdiv' and len(a.args[1].t) == 1:
                q = a.args[1]
                ok = True
                acc = ZERO
                for m, co in p.t:
                    d = dict(m)
                    if a in d:
                        mm = mk_poly({m: co})
                        k = poly_div_exact_mono(mm, q * P(a))
                        if k is None:
                            ok = False
                            break
                        acc = acc + k * (a.args[0] - P(mk_atom('rem', a.args, 'i', True)))
                    else:
                        acc = acc + mk_poly({m: co})
                if ok:
                    return self.bs(acc, depth + 1)
        # shift by constant lower bounds
        sh = {}
        for a in p.atoms():
            ls = [x.const() for x in lo.get(a, []) if x.const() is not None]
            if ls and max(ls) > 0:
                sh[a] = P(mk_atom('shift', (a, P(max(ls))), a.sort, True)) + max(ls)
            elif ls and max(ls) == 0 and not a.nn:
                sh[a] = P(mk_atom('shift', (a, ZERO), a.sort, True))
        if sh:
            q = ZERO
            for m, co in p.t:
                f = P(co)
                for a, e in m:
                    f = f * pow_int(sh.get(a, P(a)), e)
                q = q + f
            if nonneg_quick(q):
                return True
        if depth > 7:
            return False
        for a in sorted(p.atoms(), key=lambda x: -x.id):
            us = list(up.get(a, []))
            if a.kind == 'rem':
                us.append(a.args[1] - 1)
                us.append(a.args[0]) if nonneg_quick(a.args[0]) else None
            ls = list(lo.get(a, []))
            if a.nn:
                ls.append(ZERO)
            if a.kind == 'min':
                us += list(a.args[0])
            if a.kind == 'first':
                us.append(a.args[1])
            if not us and not ls:
                continue
            co, rest, ok = ZERO, ZERO, True
            for m, c in p.t:
                d = dict(m)
                if a in d:
                    if d[a] != 1:
                        ok = False
                        break
                    del d[a]
                    co = co + mk_poly({tuple(sorted(d.items(), key=lambda x: x[0].id)): c})
                else:
                    rest = rest + mk_poly({m: c})
            if not ok:
                continue
            if us and self.bs(-co, depth + 2):
                for u in us:
                    if self.bs(rest + co * u, depth + 1):
                        return True
            if ls and self.bs(co, depth + 2):
                for l in ls:
                    if l.t and self.bs(rest + co * l, depth + 1):
                        return True
                if a.nn and self.bs(rest, depth + 1):
                    return True
        return False

    def constraints(self):
        if self._cons is None:
            cs = []
            for l in self.order:
                cs += lit_cons(l)
            self._cons = cs
        return self._cons

    def fm(self, goal, strict):
        """prove goal >= 0 (or > 0 if strict) by refuting its negation"""
        if goal.sort == 'i':
            neg = (-goal - 1, False) if not strict else (-goal, False)
        else:
            neg = (-goal, not strict)
        base = self.constraints()
        if fm_refute([neg], base):
            return True
        return False

    # ------------------------------------------------------------ simplify
    def simp(self, x):
        if isinstance(x, tuple):
            return tuple(self.simp(y) for y in x)
        if not isinstance(x, (Poly, B)):
            return x
        r = self._simp.get(x)
        if r is not None:
            return r
        self._simp[x] = x
        cur = x
        for _ in range(6):
            n = Simp(self)(cur)
            if n is cur:
                break
            cur = n
        self._simp[x] = cur
        self._simp[cur] = cur
        return cur


def strictly_pos(a):
    return a.kind == 'fn' and a.args[0] in ('exp', 'pi') or (a.kind == 'fn' and a.args[0] == 'sqrt' and (a.args[1].const() or 0) > 0)


def poly_div_exact_mono(p, q):
    if len(q.t) != 1 or len(p.t) != 1:
        return None
    qm, qc = q.t[0]
    m, c = p.t[0]
    d = dict(m)
    for a, e in qm:
        if d.get(a, 0) < e:
            return None
        d[a] -= e
        if d[a] == 0:
            del d[a]
    if (c / qc).denominator != 1 and p.sort == 'i':
        return None
    return mk_poly({tuple(sorted(d.items(), key=lambda x: x[0].id)): c / qc})


def lit_nonneg(l):
    """polynomials known to be >= 0 by the literal (unit-coefficient use)"""
    if l.kind == 'ge0':
        return [l.args[0]]
    if l.kind == 'gt0':
        return [l.args[0]]
    if l.kind == 'not' and l.args[0].kind == 'gt0':
        return [-l.args[0].args[0]]
    if l.kind == 'eq0':
        return [l.args[0], -l.args[0]]
    return []


def lit_cons(l):
    if l.kind == 'ge0':
        return [(l.args[0], False)]
    if l.kind == 'gt0':
        return [(l.args[0], True)]
    if l.kind == 'not' and l.args[0].kind == 'gt0':
        return [(-l.args[0].args[0], False)]
    if l.kind == 'eq0':
        return [(l.args[0], False), (-l.args[0], False)]
    return []


def solve_eq(p):
    """p = 0 -> (atom, value) for a symbol with coefficient +-1 (or any rational
    coefficient for reals) that does not occur elsewhere in p"""
    best = None
    for m, c in p.t:
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.kind not in ('sym', 'sel', 'gcd', 'fdiv', 'tdiv', 'fn', 'bound'):
                continue
            if a.kind == 'fn' and a.args[0] in ('pi', 'nan'):
                continue
            if abs(c) != 1 and (p.sort == 'i' or a.sort == 'i'):
                continue
            rest = p - mk_poly({m: c})
            if occurs(a, rest):
                continue
            # an unsigned symbol may only be replaced by a nonnegative value of its sort
            if a.sort == 'i' and rest.sort == 'r':
                continue
            rank = (a.kind != 'sym', -a.id)
            if best is None or rank < best[0]:
                best = (rank, a, rest * (-1 / c))
    if best:
        return best[1], best[2]
    return None


def occurs(a, p):
    if a.kind == 'sym':
        return a in p.syms
    seen = set()

    def rec(x):
        if isinstance(x, tuple):
            return any(rec(y) for y in x)
        if isinstance(x, Poly):
            if x in seen:
                return False
            seen.add(x)
            return any(rec(y) for y in x.atoms())
        if isinstance(x, B):
            return rec(x.args)
        if isinstance(x, Atom):
            return x is a or rec(x.args)
        return False
    return rec(p)


# ---------------------------------------------------------------- Fourier-Motzkin
def intrinsic(mono_atoms):
    """constraints that hold for the atoms themselves"""
    out = []
    for a in mono_atoms:
        if a.kind == 'fdiv':
            p, q = a.args
            out.append((p - q * P(a), False))
            out.append((q * P(a) + q - 1 - p, False))
        elif a.kind == 'min':
            for x in a.args[0]:
                out.append((x - P(a), False))
        elif a.kind == 'first':
            out.append((a.args[1] - P(a), False))
        elif a.kind == 'sel' and a.args[0] == 'u01':
            out.append((ONE - P(a), True))
    return out


def nested_div(a, b):
    """floor(p/(s1*s2)) = floor(floor(p/s2)/s1) for positive divisors"""
    s1 = poly_div_exact(a.args[1], b.args[1])
    if s1 is None or s1.const() == 1 or not all(x.nn for m, c in s1.t for x, e in m) or not all(c > 0 for m, c in s1.t):
        return []
    d = P(b) - s1 * P(a)
    return [(d, False), (s1 - 1 - d, False)]


def fm_refute(neg, base):
    cons = list(neg)
    used = set()
    monos = set()
    atoms = set()

    def absorb(p):
        for m, _ in p.t:
            if m != ():
                monos.add(m)
                for a, _e in m:
                    atoms.add(a)
    for p, s in cons:
        absorb(p)
    done_atoms = set()
    changed = True
    rounds = 0
    while changed and rounds < 4:
        changed = False
        rounds += 1
        for i, (p, s) in enumerate(base):
            if i in used:
                continue
            if any(m in monos for m, _ in p.t if m != ()):
                used.add(i)
                cons.append((p, s))
                absorb(p)
                changed = True
        for a in list(atoms):
            if a in done_atoms:
                continue
            done_atoms.add(a)
            rel = intrinsic([a])
            if a.kind == 'fdiv':
                for b in done_atoms:
                    if b.kind == 'fdiv' and b is not a and b.args[0] is a.args[0]:
                        rel += nested_div(a, b) + nested_div(b, a)
            for p, s in rel:
                cons.append((p, s))
                absorb(p)
                changed = True
        if len(cons) > 40:
            break
    for m in monos:
        if all(a.nn or e % 2 == 0 for a, e in m):
            cons.append((mk_poly({m: 1}), False))
    if fm_core(cons):
        return True
    # products of pairs of (linear) hypotheses reach nonlinear monomials
    nl = [m for m in monos if len(m) > 1 or (m and m[0][1] != 1)]
    if nl and len(cons) <= 14:
        extra = []
        nlset = set(nl)
        for i in range(len(cons)):
            for j in range(i, len(cons)):
                p1, s1 = cons[i]
                p2, s2 = cons[j]
                if len(p1.t) * len(p2.t) > 9:
                    continue
                pr = p1 * p2
                if any(m in nlset for m, _ in pr.t) and all((m in monos or m == ()) for m, _ in pr.t):
                    extra.append((pr, s1 and s2))
        if extra:
            return fm_core(cons + extra[:20])
    return False


def fm_core(cons):
    rows = []
    for p, s in cons:
        d = {m: c for m, c in p.t if m != ()}
        k = dict(p.t).get((), Fr(0))
        rows.append((d, k, s))
    rows = _dedup(rows)
    if rows is None:
        return True
    while True:
        vars_ = {}
        for d, k, s in rows:
            for m, c in d.items():
                pc = vars_.setdefault(m, [0, 0])
                pc[0 if c > 0 else 1] += 1
        if not vars_:
            return False
        # drop one-sided variables
        m, (np_, nn_) = min(vars_.items(), key=lambda x: x[1][0] * x[1][1] - x[1][0] - x[1][1])
        pos = [r for r in rows if r[0].get(m, 0) > 0]
        neg = [r for r in rows if r[0].get(m, 0) < 0]
        rest = [r for r in rows if m not in r[0]]
        if len(pos) * len(neg) > 300:
            return False
        for d1, k1, s1 in pos:
            for d2, k2, s2 in neg:
                a, b = -d2[m], d1[m]
                d = {}
                for mm, c in d1.items():
                    d[mm] = c * a
                for mm, c in d2.items():
                    n = d.get(mm, 0) + c * b
                    if n:
                        d[mm] = n
                    else:
                        d.pop(mm, None)
                d.pop(m, None)
                rest.append((d, k1 * a + k2 * b, s1 or s2))
        rows = _dedup(rest)
        if rows is None:
            return True
        if len(rows) > 250:
            return False


def _dedup(rows):
    best = {}
    for d, k, s in rows:
        if not d:
            if k < 0 or (k == 0 and s):
                return None
            continue
        it = sorted(d.items(), key=lambda x: [(a.id, e) for a, e in x[0]])
        sc = abs(it[0][1])
        key = tuple((m, c / sc) for m, c in it)
        k = k / sc
        o = best.get(key)
        if o is None or k < o[0] or (k == o[0] and s):
            best[key] = (k, s)
    return [(dict(key), k, s) for key, (k, s) in best.items()]


# ---------------------------------------------------------------- simplification
class Simp(Subst):
    def __init__(self, facts):
        super().__init__(facts.sub)
        self.facts = facts
        # atoms that are not plain symbols need a structural traversal
        self.all = True

    binds = False

    def touches(self, x):
        return True

    def poly(self, p):
        if p.is_const():
            return p
        return super().poly(p)

    def atom(self, a):
        r = self.mp.get(a)
        if r is not None:
            return P(r)
        r = self.memo.get(a)
        if r is not None:
            return r
        if a.kind in ('sym', 'bound'):
            return P(a)
        f = self.facts
        k = a.kind
        if k in BINDERS:
            r = P(a) if (self.keys.isdisjoint(a.syms)) else rebuild_atom(a, Subst(self.mp))
            r = P(r)
            x = r.single_atom()
            if x is not None and x.kind in ('sum', 'prod', 'first') and not x.args[1].is_const():
                r = self.count(x, r)
        elif k == 'ite':
            c = self.b(a.args[0])
            d = f.decide(c)
            if d is True:
                r = self.poly(a.args[1])
            elif d is False:
                r = self.poly(a.args[2])
            else:
                r = ite(c, self.poly(a.args[1]), self.poly(a.args[2]))
        elif k == 'fdiv':
            r = self.fdiv(self.poly(a.args[0]), self.poly(a.args[1]))
        elif k == 'tdiv':
            p, q = self.poly(a.args[0]), self.poly(a.args[1])
            r = tdiv(p, q)
            x = r.single_atom()
            if x is not None and x.kind == 'tdiv':
                p, q = x.args
                sg = None
                if f.pos(q):
                    sg = 1
                elif f.pos(-q):
                    sg = -1
                if sg is not None:
                    qq = q * sg
                    if f.nonneg(p):
                        r = self.fdiv(p, qq) * sg
                    elif f.nonneg(-p):
                        r = self.fdiv(-p, qq) * (-sg)
                    else:
                        # C truncation
                        r = ite(ge0(p), fdiv(p, qq), -fdiv(-p, qq)) * sg
        elif k == 'narrow':
            bits, sg, p = a.args
            p = self.poly(p)
            r = narrow_facts(f, bits, sg, p)
        elif k == 'wrapu':
            p = self.poly(a.args[0])
            if f.nonneg(p):
                r = p
            elif f.nonneg(-p - 1):
                r = p + (1 << 64)
            else:
                r = P(mk_atom('wrapu', (p,), 'i', True))
        elif k == 'min' and len(a.args[0]) <= 3:
            ks = []
            for x in sorted((self.poly(x) for x in a.args[0]), key=lambda x: x.id):
                if any(f.decide(ge0(x - y)) is True for y in ks):
                    continue
                ks = [y for y in ks if f.decide(ge0(y - x)) is not True] + [x]
            r = min_of(ks)
        elif k == 'min' and any(x.is_const() for x in a.args[0]):
            ks = [self.poly(x) for x in a.args[0]]
            cs = [x for x in ks if x.is_const()]
            ks = [x for x in ks if not x.is_const()]
            r = min_of(ks + [c for c in cs if not any(f.decide(ge0(c - x)) is True for x in ks)])
        else:
            r = rebuild_atom(a, self)
        self.memo[a] = r
        return r

    def count(self, x, r):
        """the number of iterations of a binder, under the facts"""
        n = self.poly(x.args[1])
        if n is x.args[1]:
            return r
        from .terms import rebuild_binder

        def f(y):
            return n if y is x.args[1] else y
        return rebuild_binder(x, f)

    def fdiv(self, p, q):
        f = self.facts
        r = fdiv(p, q)
        x = r.single_atom()
        for _ in range(4):
            # find an fdiv atom with coefficient one to resolve
            changed = False
            for m, c in r.t:
                if len(m) == 1 and m[0][0].kind == 'fdiv' and m[0][1] == 1:
                    a = m[0][0]
                    pp, qq = a.args
                    if qq.const() is None or True:
                        if f.nonneg(pp) and f.nonneg(qq - 1 - pp):
                            r = r - mk_poly({m: c})
                            changed = True
                            break
                        if f.nonneg(-pp - 1) and f.nonneg(qq + pp):
                            r = r - mk_poly({m: c}) - P(c)
                            changed = True
                            break
                        # strip a small non-negative remainder: (q'*g + s)/g
                        t = self.strip(pp, qq)
                        if t is not None:
                            r = r - mk_poly({m: c}) + t * c
                            changed = True
                            break
            if not changed:
                break
        return r

    def strip(self, p, q):
        """(A + s)/q where A, q share a positive factor g, q = g*q' and 0<=s<g"""
        if len(q.t) != 1 or len(p.t) < 2:
            return None
        qm, qc = q.t[0]
        for a, e in qm:
            A = ZERO
            s = ZERO
            for m, c in p.t:
                if dict(m).get(a, 0) >= 1:
                    A = A + mk_poly({m: c})
                else:
                    s = s + mk_poly({m: c})
            if not A.t or not s.t:
                continue
            # s must stay inside one step of the gcd of A and q: use g = a (times common monomial)
            f = self.facts
            for s2 in self.remainders(p, s, a):
                A = p - s2
                if not A.t or not s2.t:
                    continue
                cm, _ = mono_content(A)
                g = mk_poly({tuple((x, min(ee, dict(cm).get(x, 0))) for x, ee in qm if dict(cm).get(x, 0) > 0): 1})
                if not g.t or g.is_const():
                    continue
                if f.nonneg(s2) and f.nonneg(g - 1 - s2) and f.pos(g):
                    ig = inv_int(g)
                    return fdiv(A * ig, q * ig)
        return None

    def remainders(self, p, s, a):
        yield s
        t = ZERO
        for m, c in p.t:
            if abs(c) == 1 and len(m) == 2 and dict(m).get(a) == 1:
                for x, e in m:
                    if x.kind == 'fdiv' and e == 1 and x.args[1] is P(a):
                        t = t + mk_poly({m: c})
                        yield s + mk_poly({m: c})
                        yield s + mk_poly({m: c}) + P(a)
        if len(t.t) > 1:
            yield s + t
            yield s + t + P(a)

    def b(self, b):
        r = self.mp.get(b)
        if r is not None:
            return r
        r = self.memo.get(b)
        if r is not None:
            return r
        k = b.kind
        if k in ('T', 'F', 'bsym', 'bbound'):
            r = b
        elif k in BINDERS:
            r = b if self.keys.isdisjoint(b.syms) else rebuild_b(b, Subst(self.mp))
            if r.kind == 'any' and not r.args[1].is_const():
                r = self.count(r, r)
        else:
            r = rebuild_b(b, self)
        if r.kind not in ('T', 'F'):
            d = self.facts.decide(r)
            if d is True:
                r = TRUE
            elif d is False:
                r = FALSE
            elif r.kind == 'ge0' or r.kind == 'gt0':
                m, q = mono_content(r.args[0])
                if m and not q.is_const():
                    s = self.facts.mono_sign(m)
                    mk = ge0 if r.kind == 'ge0' and q.sort == 'i' else gt0
                    if s is not None and (mk is gt0 or r.kind == 'ge0'):
                        r = mk(q if s == 1 else -q)
        self.memo[b] = r
        return r


def inv_int(g):
    m, c = g.t[0]
    return mk_poly({tuple((a, -e) for a, e in m): 1 / c})


def narrow_facts(f, bits, sg, p):
    r = narrow(bits, sg, p)
    x = r.single_atom()
    if x is None or x.kind != 'narrow':
        return r
    lo = -(1 << (bits - 1)) if sg else 0
    hi = (1 << (bits - 1)) - 1 if sg else (1 << bits) - 1
    g = f.const_range(p)
    if g is not None and lo <= g[0] and g[1] <= hi:
        return p
    if f.nonneg(p - lo) and f.nonneg(P(hi) - p):
        return p
    return r


# ---------------------------------------------------------------- equality with gate splitting
class Budget(Exception):
    pass


def find_split(x, seen=None):
    """a literal to split on: the condition of a gate (innermost first)"""
    seen = set() if seen is None else seen
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
            continue
        if isinstance(y, (Poly, B, Atom)):
            if y in seen:
                continue
            seen.add(y)
        if isinstance(y, Poly):
            stack.extend(y.atoms())
        elif isinstance(y, Atom):
            if y.kind == 'ite':
                c = y.args[0]
                if c.kind not in BINDERS:
                    inner = find_split(c.args, seen)
                    if inner is not None:
                        return inner
                return pick_lit(c)
            if y.kind == 'tdiv':
                inner = find_split(y.args, seen)
                if inner is not None:
                    return inner
                q = y.args[1]
                return ge0(q - 1)
            if y.kind == 'wrapu':
                inner = find_split(y.args, seen)
                if inner is not None:
                    return inner
                return ge0(y.args[0])
            if y.kind in BINDERS:
                # never below a binder
                stack.append(y.args[1])
                if y.kind in ('loop', 'bloop') and y.args[2] is not None:
                    stack.append(y.args[2])
                continue
            stack.extend(y.args)
        elif isinstance(y, B):
            if y.kind in BINDERS:
                stack.append(y.args[1])
                continue
            stack.extend(y.args)
    return None


def min_order(x, facts):
    """two candidates of a small minimum whose order is open"""
    todo, seen = list(x.args[0].atoms()), set()
    while todo:
        a = todo.pop()
        if a in seen or a.kind in BINDERS:
            continue
        seen.add(a)
        if a.kind == 'min' and len(a.args[0]) <= 3 and a.sort == 'r':
            for y in a.args[0]:
                for b in y.atoms():
                    todo.append(b)
            inner = any(b.kind == 'min' for y in a.args[0] for b in y.atoms())
            if not inner:
                d = a.args[0][0] - a.args[0][1]
                for c in (gt0(d), gt0(-d)):
                    if c.kind == 'gt0' and facts.decide(c) is None:
                        m, q = mono_content(c.args[0])
                        for at, e in m:
                            if not q.is_const() and facts.mono_sign(((at, e),)) is None:
                                return gt0(P(at))
                        return c
    return None


def pick_lit(c):
    while c.kind in ('and', 'or', 'not'):
        c = c.args[0]
    return c


def degate(v, facts, depth=0):
    """gates whose branches agree where they meet: ite(c, t, f) is f when t = f
    follows from c (and t when it follows from not c)"""
    if not isinstance(v, Poly) or v.sort != 'i' or depth > 3:
        return v
    at = v.atoms()
    if not any(a.kind == 'ite' for a in at):
        return v
    if depth == 0:
        n = [0]

        def cnt(p):
            for a in p.atoms():
                if a.kind == 'ite':
                    n[0] += 1
                    cnt(a.args[1])
                    cnt(a.args[2])
        cnt(v)
        if n[0] > 4 or not has_kind(v, 'fdiv'):
            return v
    c = find_split(v)
    if c is None or c.kind in BINDERS:
        return v
    f1, f2 = facts.add(c), facts.add(not_(c))
    if f1.bad or f2.bad or (f1.lits == facts.lits and f1.sub == facts.sub):
        return v
    t = degate(f1.simp(v), f1, depth + 1)
    f = degate(f2.simp(v), f2, depth + 1)
    if t is f:
        return t
    if not f1.simp(f - t).t:
        return f
    if not f2.simp(t - f).t:
        return t
    return ite(c, t, f)


def has_kind(p, k):
    stack, seen = [p], set()
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
            continue
        if not isinstance(y, (Poly, B, Atom)) or y in seen:
            continue
        seen.add(y)
        if isinstance(y, Poly):
            stack.extend(y.atoms())
            continue
        if y.kind == k:
            return True
        stack.extend(y.args)
    return False


def clear_inverses(p):
    """multiply by the non-monomial denominators until none is left; returns a
    polynomial that is zero iff p is (denominators assumed non-zero)"""
    for _ in range(8):
        invs = {}
        for m, _c in p.t:
            for a, e in m:
                if a.kind == 'inv':
                    invs[a] = max(invs.get(a, 0), e)
        if not invs:
            return p
        for a, e in invs.items():
            q = a.args[0]
            acc = ZERO
            for m, c in p.t:
                d = dict(m)
                k = d.pop(a, 0)
                base = mk_poly({tuple(sorted(d.items(), key=lambda x: x[0].id)): c})
                acc = acc + base * pow_int(q, e - k)
            p = acc
        # normalise sqrt powers introduced by multiplication: done by mono_mul
    return p


def congruent(p, facts):
    """replaces f(x) by f(y) when x = y is an identity of rational functions"""
    by = {}
    for a in p.atoms():
        if a.kind == 'fn' and len(a.args) > 1 and all(isinstance(x, Poly) for x in a.args[1:]):
            by.setdefault((a.args[0], len(a.args)), []).append(a)
    for k, l in by.items():
        l.sort(key=lambda a: a.id)
        for i, a in enumerate(l):
            for b in l[i + 1:]:
                if all(not facts.simp(clear_inverses(x - y)).t for x, y in zip(a.args[1:], b.args[1:])):
                    return subst(p, {b: P(a)})
    return None


class ExactDiv(Subst):
    """floor(p/c) = p/c when the integer polynomial p is divisible by c for every
    residue of its symbols"""
    def __init__(self):
        super().__init__({})

    def touches(self, x):
        return True

    def atom(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        r = P(a)
        if a.kind in ('fdiv', 'tdiv') and a.args[1].const() is not None and a.args[1].const() > 1:
            p = self.poly(a.args[0])
            if divisible(p, int(a.args[1].const())):
                r = p * Fr(1, int(a.args[1].const()))
        elif a.kind == 'ite':
            x, y = self.poly(a.args[1]), self.poly(a.args[2])
            r = x if x is y else P(a)
        self.memo[a] = r
        return r

    def b(self, b):
        return b


def divisible(p, c):
    syms = sorted(p.atoms(), key=lambda a: a.id)
    if len(syms) > 2 or any(a.kind != 'sym' or a.sort != 'i' for a in syms):
        return False
    den = 1
    for m, k in p.t:
        den = den * k.denominator // igcd(den, k.denominator)
    n = c * den
    if n ** len(syms) > 5000:
        return False
    import itertools
    for vs in itertools.product(range(n), repeat=len(syms)):
        e = dict(zip(syms, vs))
        v = Fr(0)
        for m, k in p.t:
            t = k
            for a, x in m:
                if x < 0:
                    return False
                t *= Fr(e[a]) ** x
            v += t
        if (v / c).denominator != 1:
            return False
    return True


def exact_divs(d):
    if not any(a.kind in ('fdiv', 'tdiv', 'ite') for a in d.atoms()):
        return d
    return ExactDiv()(d)


def peel(x):
    """searches over [0,n) and over [1,n) side by side: the longer one is
    unrolled once"""
    found = {}
    stack, seen = [x], set()
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
            continue
        if not isinstance(y, (Poly, B, Atom)) or y in seen:
            continue
        seen.add(y)
        if isinstance(y, Poly):
            stack.extend(y.atoms())
            continue
        if y.kind in ('first', 'any'):
            found[(y.args[1], y.args[2])] = y
        if y.kind in BINDERS:
            continue
        stack.extend(y.args)
    if len(found) < 2:
        return x
    mp = {}
    for (n, body), y in found.items():
        s = fresh('p', 'i', True)
        c, = open_binder((y.args[0],), (body,), (P(s),))
        sh = subst(c, {s: P(s) + 1})
        f2 = first_(s, n - 1, sh)
        a2 = f2.single_atom()
        if a2 is None or a2.kind != 'first' or (a2.args[1], a2.args[2]) not in found:
            continue
        c0 = subst(c, {s: ZERO})
        rest = any_(s, n - 1, sh)
        if y.kind == 'first':
            mp[y] = ite(ge0(n - 1), ite(c0, ZERO, ite(rest, f2 + 1, n)), n)
            y2 = any_(s, n, c)
        else:
            y2 = first_(s, n, c).single_atom()
            mp[y2] = ite(ge0(n - 1), ite(c0, ZERO, ite(rest, f2 + 1, n)), n)
            y2 = y
        mp[y2] = and_(ge0(n - 1), or_(c0, rest))
    return subst(x, mp) if mp else x


def roots(d, facts):
    """x - y with roots in them, neither negative: the squares"""
    if len(d.t) != 2 or d.t[0][1] * d.t[1][1] > 0 or not any(a.kind == 'fn' and a.args[0] == 'sqrt' for a in d.atoms()):
        return None
    sq = []
    for m, c in d.t:
        for a, e in m:
            if not (a.nn or a.kind == 'fn' and a.args[0] == 'sqrt' or facts.mono_sign(((a, e),)) in (1, '+', '>=0')
                    or facts.nonneg(P(a)) or a.kind == 'inv' and facts.nonneg(a.args[0])):
                return None
        x = mk_poly({m: abs(c)})
        sq.append(x * x)
    return sq[0] - sq[1]


def rearranged(d):
    """sums over the same terms in the other order, or with the first or last
    term written apart"""
    found = [a for a in d.atoms() if a.kind == 'sum']
    if len(found) < 2 and not (found and len(d.t) > 2):
        return d
    have = set(found)

    def known(p):
        return all(a in have for a in p.atoms() if a.kind == 'sum')
    for a in sorted(found, key=lambda a: a.id):
        n = a.args[1]
        s = fresh('p', 'i', True)
        c, = open_binder((a.args[0],), (a.args[2],), (P(s),))
        back = subst(c, {s: n - 1 - P(s)})
        r = sum_(s, n, back)
        if r is not P(a) and known(r):
            e = subst(d, {a: r})
            if len(e.t) < len(d.t):
                return e
        some = ge0(n - 1)
        # the rest of the terms, forwards and backwards
        for one, rest in ((subst(c, {s: ZERO}), subst(c, {s: P(s) + 1})),
                          (subst(c, {s: n - 1}), c)):
            for r in (sum_(s, n - 1, rest), sum_(s, n - 1, subst(rest, {s: n - 2 - P(s)}))):
                if any(x.kind == 'sum' for x in r.atoms()) and known(r):
                    e = subst(d, {a: ite(some, one + r, ZERO)})
                    return e
    return d


class Result:
    __slots__ = ('ok', 'leaf', 'diff')

    def __init__(self, ok, leaf=None, diff=None):
        self.ok, self.leaf, self.diff = ok, leaf, diff


class Prover:
    def __init__(self, limit=1500):
        self.limit = limit
        self.n = 0
        self.leaves = 0

    def eq(self, p, q, facts):
        d = P(p) - P(q)
        return self.zero(d, facts)

    def zero(self, d, facts):
        self.n += 1
        if self.n > self.limit:
            raise Budget()
        if facts.bad:
            return Result(True)
        d = facts.simp(d)
        if not d.t:
            return Result(True)
        d2 = peel(exact_divs(d))
        if d2 is not d:
            d = facts.simp(d2)
            if not d.t:
                return Result(True)
        r = roots(d, facts)
        if r is not None and not facts.simp(clear_inverses(facts.simp(r))).t:
            return Result(True)
        d2 = rearranged(d)
        if d2 is not d:
            return self.zero(d2, facts)
        c = find_split(d)
        if c is None:
            e = clear_inverses(d)
            if e is not d:
                e = facts.simp(e)
            if not e.t:
                return Result(True)
            if facts.decide(eq0(e)) is True:
                return Result(True)
            c = find_split(e) or self.extra_split(e, facts)
            if c is None:
                g = congruent(e, facts)
                if g is not None:
                    return self.zero(g, facts)
                if self.leaf('equal_or_dead', facts, e):
                    return Result(True)
                return Result(False, facts, d)
            d = e
        return self.split(c, facts, lambda f: self.zero(d, f), d)

    def split(self, c, facts, k, what):
        if c.kind in ('ge0', 'gt0', 'eq0'):
            c = min_order(c, facts) or c
        f1 = facts.add(c)
        f2 = facts.add(not_(c))
        if len(f1.lits) == len(facts.lits) and f1.lits == facts.lits and not f1.bad and f1.sub == facts.sub \
           and f2.lits == facts.lits and not f2.bad and f2.sub == facts.sub:
            if isinstance(what, Poly) and self.leaf('equal_or_dead', facts, what) or self.leaf('equal_or_dead', facts, None):
                return Result(True)
            return Result(False, facts, what)
        r = k(f1) if not f1.bad else Result(True)
        if not r.ok:
            return r
        return k(f2) if not f2.bad else Result(True)

    def extra_split(self, e, facts):
        """sign of an atom that occurs under a parity-sensitive operation"""
        for a in e.atoms():
            if a.kind == 'fdiv':
                p = a.args[0]
                if facts.decide(ge0(p)) is None:
                    return ge0(p)
                if facts.decide(ge0(a.args[1] - 1 - p)) is None and facts.decide(ge0(p)) is True:
                    return ge0(a.args[1] - 1 - p)
                if facts.decide(ge0(p)) is False and facts.decide(ge0(a.args[1] + p)) is None:
                    return ge0(a.args[1] + p)
        return None

    def iff(self, a, b, facts):
        self.n += 1
        if self.n > self.limit:
            raise Budget()
        if facts.bad:
            return Result(True)
        a, b = facts.simp(a), facts.simp(b)
        if a is b:
            return Result(True)
        a2, b2 = peel((a, b))
        if a2 is not a or b2 is not b:
            a, b = facts.simp(a2), facts.simp(b2)
            if a is b:
                return Result(True)
        c = find_split((a, b))
        if c is None:
            c = self.lit_of(a, b, facts)
        if c is None:
            if self.leaf('iff_or_dead', facts, a, b):
                return Result(True)
            return Result(False, facts, not_(iff(a, b)))
        return self.split(c, facts, lambda f: self.iff(a, b, f), not_(iff(a, b)))

    def leaf(self, what, facts, *a):
        if self.leaves > 60:
            return False
        self.leaves += 1
        from . import leaf
        return getattr(leaf, what)(facts, *a)

    def lit_of(self, a, b, facts):
        for x in (a, b):
            if x.kind in ('T', 'F'):
                continue
            if x.kind in ('and', 'or', 'not'):
                return pick_lit(x)
        for x in (a, b):
            if x.kind not in ('T', 'F'):
                # sign-unknown monomial factors
                if x.kind in ('ge0', 'gt0'):
                    m, q = mono_content(x.args[0])
                    for at, e in m:
                        if not q.is_const() and facts.mono_sign(((at, e),)) is None:
                            return gt0(P(at))
                return x
        return None
