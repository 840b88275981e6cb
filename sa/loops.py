"""Loop summaries.  The set of modified locations is computed as a fixpoint of
havocked body transformers; induction variables get closed forms, accumulators
become sums / products / quantifiers, arrays become comprehensions, and what is
left is a generic `loop` term (a recurrence the comparison can still align)."""
from .values import *
from .interp import *
from .prove import *
from .terms import _fresh


class Poison:
    """a loop-carried value that is only ever overwritten"""
    __slots__ = ('id',)
    n = 0

    def __init__(self):
        Poison.n += 1
        self.id = Poison.n

    def __repr__(self):
        return 'Poison'


def has_poison(v):
    if isinstance(v, Poison):
        return True
    if isinstance(v, Obj):
        return any(has_poison(x) for x in v.f.values())
    if isinstance(v, Seq):
        return segs_poison(v.segs)
    if isinstance(v, Map):
        return any(has_poison(x) for _, x in v.items)
    if isinstance(v, Choice):
        return has_poison(v.a) or has_poison(v.b)
    return False


def segs_poison(segs):
    for s in segs:
        if s[0] == 'e' and has_poison(s[1]):
            return True
        if s[0] == 'r' and has_poison(s[3]):
            return True
        if s[0] == 'c' and segs_poison(s[2]):
            return True
        if s[0] == 'n' and segs_poison(s[3]):
            return True
    return False


class Leaf:
    __slots__ = ('cell', 'path', 'mode', 'v0', 'sym', 'guess', 'aux', 'nxt', 'sort', 'low')

    def __init__(self, cell, path, mode, v0):
        self.cell, self.path, self.mode, self.v0 = cell, path, mode, v0
        self.sym = None
        self.guess = None
        self.aux = None
        self.nxt = None
        self.low = False


def getv(v, path):
    for k, x in path:
        if k == 'f':
            v = v.f[x]
        elif k == 'i':
            v = v.segs[x][1]
        elif k == 'm':
            v = v.items[x][1]
        elif k == 'pos':
            v = v.pos
    return v


def setv(v, path, x):
    if not path:
        return x
    k, p = path[0]
    if k == 'f':
        return v.set(p, setv(v.f[p], path[1:], x))
    if k == 'i':
        s = list(v.segs)
        s[p] = ('e', setv(s[p][1], path[1:], x))
        return Seq(s, v.et)
    if k == 'm':
        it = list(v.items)
        it[p] = (it[p][0], setv(it[p][1], path[1:], x))
        return Map(it, v.kt, v.vt)
    if k == 'pos':
        return Iter(v.ref, x, v.rev)
    raise Unsupported('path')


def diff(a, b, path, out):
    """modified leaves between two values of one object"""
    if a is b or veq_(a, b):
        return
    if isinstance(a, Poly) and isinstance(b, Poly) or isinstance(a, B) and isinstance(b, B):
        out[path] = 't'
        return
    if isinstance(a, Obj) and isinstance(b, Obj) and a.f.keys() == b.f.keys():
        for k in a.f:
            diff(a.f[k], b.f[k], path + (('f', k),), out)
        return
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.concrete() and b.concrete() and len(a.segs) == len(b.segs):
            for j in range(len(a.segs)):
                diff(a.segs[j][1], b.segs[j][1], path + (('i', j),), out)
            return
        if len(b.segs) > len(a.segs) and segs_eq(a.segs, b.segs[:len(a.segs)]):
            out[path] = 'app'
            return
        if len(a.segs) == 1 and len(b.segs) == 1 and a.segs[0][0] == 'r' and b.segs[0][0] == 'r' and a.segs[0][1] is b.segs[0][1]:
            out[path] = 'map'
            return
        out[path] = 'last'
        return
    if isinstance(a, Map) and isinstance(b, Map) and len(a.items) == len(b.items) and all(veq(x[0], y[0]) for x, y in zip(a.items, b.items)):
        for j in range(len(a.items)):
            diff(a.items[j][1], b.items[j][1], path + (('m', j),), out)
        return
    if isinstance(a, Iter) and isinstance(b, Iter) and a.ref == b.ref and a.rev == b.rev:
        out[path + (('pos', 0),)] = 't'
        return
    out[path] = 'last'


def same_value(a, b):
    if a is None or b is None:
        return a is b
    try:
        out = {}
        diff(b, a, (), out)
    except Unsupported:
        return False
    return not out


def veq_(a, b):
    if isinstance(a, Poison) or isinstance(b, Poison):
        return a is b
    return veq(a, b)


def leaves_of(v, out, path=()):
    """scalar leaves of a fixed-shape value"""
    if isinstance(v, TERM):
        out.append((path, v))
    elif isinstance(v, Obj):
        for k, x in v.f.items():
            leaves_of(x, out, path + (('f', k),))
    elif isinstance(v, Seq) and v.concrete():
        for j, s in enumerate(v.segs):
            leaves_of(s[1], out, path + (('i', j),))
    else:
        raise Unsupported('array of variable-size elements modified in a loop')


class Summary:
    def __init__(self, I, n, st, fr, condf, bodyf, incf, breaks):
        self.I, self.n, self.st, self.fr = I, n, st, fr
        self.condf, self.bodyf, self.incf = condf, bodyf, incf
        self.breaks = breaks
        self.t = fresh('t', 'i', True)
        self.leaves = {}
        self.trunc = set()

    # ---------------------------------------------------------------- iteration
    def state(self):
        s = self.st.clone()
        s.guard = TRUE
        for (cell, path), lf in self.leaves.items():
            s.cells[cell] = setv(s.cells[cell], path, self.havoc(lf))
            if lf.guess is not None and lf.low:
                # a countdown that has not passed zero (checked to be inductive)
                s.facts = s.facts.add(ge0(lf.guess))
        return s

    def havoc(self, lf):
        if lf.mode == 't':
            if lf.guess is not None:
                return lf.guess
            if lf.sym is None:
                v = lf.v0
                if isinstance(v, B):
                    lf.sym = bfresh('x')
                else:
                    lf.sym = P(fresh('x', v.sort, lf.aux == 'nn'))
            return lf.sym
        if lf.mode == 'app':
            if lf.sym is None:
                lf.sym = ('h', P(fresh('len', 'i', True)), lf.v0)
            return Seq((lf.sym,), lf.v0.et)
        if lf.mode == 'map':
            seg = lf.v0.segs[0]
            if lf.sym is None:
                ls = []
                leaves_of(seg[3], ls)
                lf.sym = ['arr%d' % next(_fresh) for _ in ls]
                lf.aux = fresh('k', 'i', True)
            body = self.mapbody(lf, P(lf.aux))
            return Seq([('r', seg[1], lf.aux, body)], lf.v0.et)
        if lf.mode == 'fix':
            # one fixed position of the array is updated
            seg = lf.v0.segs[0]
            p, k = lf.aux
            if lf.sym is None:
                ls = []
                leaves_of(seg[3], ls)
                lf.sym = [bfresh('x') if isinstance(v, B) else P(fresh('x', v.sort)) for _, v in ls]
            return Seq([('r', seg[1], k, merge_val(eq0(P(k) - p), self.fill(seg[3], lf.sym), vsubst(seg[3], {seg[2]: P(k)})))], lf.v0.et)
        if lf.mode == 'last':
            if lf.sym is None:
                lf.sym = Poison()
            return lf.sym
        raise Unsupported(lf.mode)

    def fill(self, shape, vals):
        ls = []
        leaves_of(shape, ls)
        for (p, _), v in zip(ls, vals):
            shape = setv(shape, p, v)
        return shape

    def mapbody(self, lf, k):
        seg = lf.v0.segs[0]
        ls = []
        leaves_of(seg[3], ls)
        vals = []
        for nm, (p, v) in zip(lf.sym, ls):
            if isinstance(v, B):
                raise Unsupported('boolean array modified in a loop')
            vals.append(P(mk_atom('sel', (nm, k), v.sort, False)))
        return self.fill(seg[3], vals)

    def run(self, s):
        """one iteration from s: (cond, next state or None, exits)"""
        I, fr = self.I, self.fr
        ot, I.throws = I.throws, []
        orets, fr.rets = fr.rets, []
        ob, oc = fr.brk, fr.cont
        fr.brk, fr.cont = [], []
        try:
            pre = dict(s.cells)
            c = self.condf(s)
            # does deciding the condition do anything besides?
            self.acts = bool(I.throws) or any(s.cells.get(k) is not v and not same_value(s.cells.get(k), v) for k, v in pre.items())
            exits = []
            nxt = None
            if s.alive and c.kind != 'F':
                if c.kind != 'T':
                    s.facts = s.facts.add(c)
                    if s.facts.bad:
                        s.alive = False
                base = s.facts
                if s.alive:
                    if self.acts:
                        # what the condition did, where it held
                        for k, v in pre.items():
                            w = s.cells.get(k)
                            if isinstance(w, Poly) and w is not v:
                                s.cells[k] = base.simp(w)
                    self.bodyf(s)
                    r = merge_all(fr.cont + ([s] if s.alive else []), base)
                    if r is not None:
                        nxt = r if r is not s else s
                        self.incf(nxt)
                        if not nxt.alive:
                            nxt = None
            for b in fr.brk:
                exits.append(('brk', b, None, None))
            for (rs, v) in fr.rets:
                exits.append(('ret', rs, v, None))
            for (ts, ty, v) in I.throws:
                exits.append(('thr', ts, ty, v))
            return c, nxt, exits
        finally:
            I.throws = ot
            fr.rets = orets
            fr.brk, fr.cont = ob, oc

    def fixpoint(self):
        I = self.I
        for rnd in range(14):
            s = self.state()
            h = s.clone()
            c, nxt, exits = self.run(s)
            if nxt is None:
                if rnd == 0:
                    raise Unsupported('loop body never repeats')
                raise Unsupported('loop body ends the loop')
            found = {}
            for cell, v0 in h.cells.items():
                v1 = nxt.cells.get(cell, v0)
                if v1 is v0 or cell not in self.st.cells:
                    continue
                out = {}
                diff(v0, v1, (), out)
                for p, m in out.items():
                    found[(cell, p)] = m
            changed = False
            new = set()
            for (cell, p), m in found.items():
                # an enclosing leaf may already cover this path
                lf = self.leaves.get((cell, p))
                if lf is None:
                    cov = [q for (c2, q) in self.leaves if c2 == cell and len(q) < len(p) and p[:len(q)] == q]
                    if cov:
                        q = cov[0]
                        lf2 = self.leaves[(cell, q)]
                        if lf2.mode == 'app':
                            # elements below the prefix changed
                            lf2.mode, lf2.sym = 'last', None
                            changed = True
                        elif lf2.mode == 'fix':
                            continue
                        continue
                    below = [q for (c2, q) in self.leaves if c2 == cell and len(q) > len(p) and q[:len(p)] == p]
                    for q in below:
                        del self.leaves[(cell, q)]
                    v0 = getv(self.st.cells[cell], p)
                    if m == 't' and not isinstance(v0, TERM):
                        m = 'last'
                    lf = Leaf(cell, p, m, v0)
                    if m == 't' and isinstance(v0, Poly):
                        # guess an induction variable
                        v1 = getv(nxt.cells[cell], p)
                        d = nxt.facts.simp(v1 - v0)
                        if d.t and not d.syms & self.freshsyms() and not self.unstable(d) and not any(a.kind == 'ite' for a in d.atoms()):
                            lf.guess = v0 + d * P(self.t)
                            lf.low = self.st.facts.nonneg(-d) and self.st.facts.nonneg(v0)
                    self.leaves[(cell, p)] = lf
                    new.add((cell, p))
                    changed = True
                elif lf.mode == 'app' and m != 'app':
                    lf.mode, lf.sym = 'last', None
                    changed = True
                elif lf.mode == 'map' and m != 'map':
                    lf.mode, lf.sym = 'last', None
                    changed = True
            for (cell, p), lf in list(self.leaves.items()):
                if (cell, p) in new:
                    continue
                v1 = getv(nxt.cells[cell], p)
                if lf.mode == 't' and lf.guess is not None:
                    want = subst(lf.guess, {self.t: P(self.t) + 1})
                    if not isinstance(v1, Poly) or I.simp(nxt, v1 - want).t:
                        lf.guess = None
                        changed = True
                    elif lf.low and not nxt.facts.nonneg(want):
                        lf.low = False
                        changed = True
                elif lf.mode == 'map':
                    if self.classify_map(lf, v1, nxt):
                        changed = True
                elif lf.mode == 'fix':
                    # still a single position?
                    ok = isinstance(v1, Seq) and len(v1.segs) == 1 and v1.segs[0][0] == 'r'
                    if not ok or positions(v1.segs[0][3], v1.segs[0][2]) - {lf.aux[0]} - positions(lf.v0.segs[0][3], lf.v0.segs[0][2]):
                        lf.mode, lf.sym, lf.aux = ('map' if ok else 'last'), None, None
                        changed = True
            self.c, self.nxt, self.exits = c, nxt, exits
            if not changed:
                return
        raise Unsupported('loop summary does not stabilise')

    def freshsyms(self):
        return {self.t}

    def unstable(self, d):
        # a difference that mentions a loop-carried symbol cannot be a step
        for lf in self.leaves.values():
            if lf.mode == 't' and lf.sym is not None:
                a = lf.sym if isinstance(lf.sym, B) else lf.sym.single_atom()
                if a in d.syms:
                    return True
        return False

    def classify_map(self, lf, v1, nxt):
        """fixed-position update? returns True if the mode changed"""
        if not (isinstance(v1, Seq) and len(v1.segs) == 1 and v1.segs[0][0] == 'r'):
            lf.mode, lf.sym = 'last', None
            return True
        seg = v1.segs[0]
        k = seg[2]
        ps = positions(seg[3], k)
        if len(ps) == 1:
            p = next(iter(ps))
            if not self.depends(p):
                lf.mode, lf.sym, lf.aux = 'fix', None, (p, fresh('k', 'i', True))
                return True
        return False

    def depends(self, x):
        syms = {self.t}
        for l in self.leaves.values():
            if l.mode == 't' and l.sym is not None:
                syms.add(l.sym if isinstance(l.sym, B) else l.sym.single_atom())
        return bool(x.syms & syms)

    # ---------------------------------------------------------------- closed forms
    def solve(self):
        t = P(self.t)
        I = self.I
        nxt = self.nxt
        self.closed = {}
        unknown = {}
        for lf in self.leaves.values():
            v1 = getv(nxt.cells[lf.cell], lf.path)
            if lf.mode == 't':
                if lf.guess is None:
                    unknown[self.atom(lf.sym)] = (lf.v0, nxt.facts.simp(v1))
            elif lf.mode == 'fix':
                seg = v1.segs[0]
                p, k = lf.aux
                hit = vmap(vsubst(seg[3], {seg[2]: p}), nxt.facts.simp)
                old = vmap(vsubst(lf.v0.segs[0][3], {lf.v0.segs[0][2]: p}), self.st.facts.simp)
                l1, l0 = [], []
                leaves_of(hit, l1)
                leaves_of(old, l0)
                if len(l1) != len(l0):
                    raise Unsupported('array element changes shape')
                for s, (_, x1), (_, x0) in zip(lf.sym, l1, l0):
                    unknown[self.atom(s)] = (x0, x1)
            elif lf.mode == 'app':
                a = self.atom(lf.sym[1])
                extra = v1.segs[1:]
                unknown[a] = (slen(lf.v0.segs), P(a) + slen(extra))
        self.c0 = self.c
        progress = True
        U = dict(unknown)
        while progress and U:
            progress = False
            for s in list(U):
                v0, f = U[s]
                f = self.sub(f)
                if (f.syms & set(U)) - {s}:
                    continue
                e = self.closed_form(s, v0, f)
                if e is not None:
                    self.closed[s] = e
                    del U[s]
                    progress = True
        self.U = U

    def sub(self, x):
        if not self.closed:
            return x
        x = subst(x, self.closed)
        return self.nxt.facts.simp(x)

    def subb(self, x):
        """closed forms into a condition of the iteration: only what holds before the loop is known"""
        return self.st.facts.simp(subst(x, self.closed) if self.closed else x)

    @staticmethod
    def atom(s):
        return s if isinstance(s, B) else s.single_atom()

    def closed_form(self, s, v0, f):
        t = P(self.t)
        if s not in f.syms:
            if not f.syms & {self.t}:
                if f is v0:
                    return v0
                return bite(eq0(t), v0, f) if isinstance(f, B) else ite(eq0(t), v0, f)
            prev = subst(f, {self.t: t - 1})
            z = subst(f, {self.t: P(-1)})
            if z is v0:
                return prev
            return bite(eq0(t), v0, prev) if isinstance(f, B) else ite(eq0(t), v0, prev)
        if isinstance(s, B):
            if f is s:
                return v0
            if f.kind == 'or' and s in f.args:
                g = or_(*[x for x in f.args if x is not s])
                if s not in g.syms:
                    return or_(v0, self.anyq(g))
            if f.kind == 'and' and s in f.args:
                g = and_(*[x for x in f.args if x is not s])
                if s not in g.syms:
                    return and_(v0, not_(self.anyq(not_(g))))
            # gates: b' = c ? const : b
            ft, ff = subst(f, {s: TRUE}), subst(f, {s: FALSE})
            if ft.kind == 'T' and s not in ff.syms:
                return or_(v0, self.anyq(ff))
            if ff.kind == 'F' and s not in ft.syms:
                return and_(v0, not_(self.anyq(not_(ft))))
            return None
        S = P(s)
        d = self.split_diff(f, S, 0)
        if d is not None and s not in d.syms:
            q = fresh('q', 'i', True)
            return v0 + sum_(q, t, subst(d, {self.t: P(q)}))
        r = self.split_ratio(f, s, 0)
        if r is not None and s not in r.syms:
            q = fresh('q', 'i', True)
            return v0 * prod_(q, t, subst(r, {self.t: P(q)}))
        # running minimum
        a = f.single_atom()
        if a is not None and a.kind == 'min' and S in a.args[0]:
            rest = [x for x in a.args[0] if x is not S]
            if not any(s in x.syms for x in rest):
                g = min_of(rest)
                if not (g.syms & {self.t}):
                    return ite(eq0(t), v0, min_of([v0, g]))
        return None

    def anyq(self, g):
        q = fresh('q', 'i', True)
        return any_(q, P(self.t), subst(g, {self.t: P(q)}))

    def split_diff(self, f, S, depth):
        d = f - S
        s = S.single_atom()
        if s not in d.syms:
            return d
        if depth > 6:
            return None
        c = None
        for a in d.atoms():
            if a.kind == 'ite' and s in a.syms:
                c = a.args[0]
                break
        if c is None or s in c.syms:
            return None
        facts = self.nxt.facts
        x = self.split_diff(facts.add(c).simp(f), S, depth + 1)
        y = self.split_diff(facts.add(not_(c)).simp(f), S, depth + 1)
        if x is None or y is None:
            return None
        return ite(c, x, y)

    def split_ratio(self, f, s, depth):
        out = ZERO
        ok = True
        for m, co in f.t:
            d = dict(m)
            if d.get(s, 0) != 1:
                ok = False
                break
            del d[s]
            out = out + mk_poly({tuple(sorted(d.items(), key=lambda x: x[0].id)): co})
        if ok and f.t:
            return out
        if depth > 6:
            return None
        c = None
        for a in f.atoms():
            if a.kind == 'ite' and s in a.syms:
                c = a.args[0]
                break
        if c is None or s in c.syms:
            return None
        facts = self.nxt.facts
        x = self.split_ratio(facts.add(c).simp(f), s, depth + 1)
        y = self.split_ratio(facts.add(not_(c)).simp(f), s, depth + 1)
        if x is None or y is None:
            return None
        return ite(c, x, y)

    # ---------------------------------------------------------------- trip count
    def trip(self, c, facts):
        """iterations until c fails first, None if not determined.  Returns
        (count, rest) where rest is a conjunct that still has to hold"""
        t = self.t
        parts = list(c.args) if c.kind == 'and' else [c]
        for i, p in enumerate(parts):
            n = self.linear_trip(p, facts)
            if n is not None:
                rest = and_(*(parts[:i] + parts[i + 1:]))
                return n, rest
        return None

    def linear_trip(self, p, facts):
        t = self.t
        neg = p.kind == 'not'
        q = p.args[0] if neg else p
        if q.kind not in ('ge0', 'gt0', 'eq0'):
            return None
        e = q.args[0]
        if e.sort != 'i':
            # a real-valued condition over integers only
            if q.kind == 'eq0' or True:
                return None
        A, b = ZERO, ZERO
        for m, co in e.t:
            d = dict(m)
            k = d.get(t, 0)
            if k == 0:
                A = A + mk_poly({m: co})
            elif k == 1:
                del d[t]
                b = b + mk_poly({tuple(sorted(d.items(), key=lambda x: x[0].id)): co})
            else:
                return None
        if t in A.syms or t in b.syms or not b.t:
            return None
        if q.kind == 'eq0':
            if not neg:
                # while (A + b t == 0): at most one iteration
                return ite(eq0(A), ONE, ZERO)
            # while (A + b t != 0)
            n = None
            if b.const() == -1:
                n = A
            elif b.const() == 1:
                n = -A
            if n is None:
                return None
            if facts.nonneg(n):
                return n
            raise Unsupported('loop that may not terminate')
        if neg or q.kind == 'gt0':
            return None
        # A + b t >= 0
        if facts.pos(-b):
            s = -b
            g = facts.decide(ge0(A))
            n = fdiv(A, s) + 1
            if g is True:
                return facts.simp(n)
            if g is False:
                return ZERO
            # n >= 0 anyway when A >= -s
            if facts.nonneg(A + s):
                return facts.simp(n)
            return ite(ge0(A), n, ZERO)
        return None

    # ---------------------------------------------------------------- finish
    def finish(self):
        I, st = self.I, self.st
        t = P(self.t)
        base = st.facts
        self.solve()
        c = self.subb(self.c)
        U = self.U
        usyms = set(U)
        gen = False
        tr = None
        if not (c.syms & usyms):
            tr = self.trip(c, base) if c.kind != 'T' else (None, TRUE)
            if tr is None:
                # search for the first failing iteration without a bound
                tr = (None, c)
        exits = []
        for k, s, x, y in self.exits:
            g = self.subb(s.guard)
            exits.append((k, s, x, y, g))
        if U:
            if tr is not None and tr[0] is None and not any(e[4].syms & usyms for e in exits) and tr[1].kind == 'T':
                raise Unsupported('endless loop')
            self.generic(U, c, tr)
            c = self.subb(c)
            if tr is not None and (tr[0] is None):
                raise Unsupported('loop without a bound')
            if tr is None:
                if self.exits:
                    raise Unsupported('early exit of a data-dependent loop')
                tr = (self.gen_count, TRUE)
            exits = [(k, s, x, y, self.subb(s.guard)) for k, s, x, y in self.exits]
        N, rest = tr
        if N is None:
            raise Unsupported('loop without a bound %s' % (c,))
        N = base.simp(N)
        if self.early and N.const() is not None and N.const() <= 16:
            raise Unsupported('constant number of iterations')
        q = fresh('q', 'i', True)
        tq = {self.t: P(q)}
        # rest: exit before the body
        early = []
        if rest.kind != 'T':
            early.append(not_(rest))
        early += [g for *_, g in exits]
        E = or_(*early) if early else FALSE
        bound = N
        facts = base
        if early:
            F = first_(q, bound, subst(E, tq))
            A = any_(q, bound, subst(E, tq))
            # the same disjunction, seen by the comparison as one fact
        else:
            F, A = bound, FALSE
        # ---- early exits
        outs = []
        mpF = {self.t: F}
        full = dict(self.closed)
        for (k, s, x, y, g) in exits:
            gx = and_(A, subst(g, mpF)) if len(early) > 1 else A
            gx = base.simp(gx)
            if gx.kind == 'F':
                continue
            e = s.clone()
            e.guard = and_(st.guard, gx)
            e.facts = base.add(gx)
            # what the first exit implies
            e.facts = e.facts.add(ge0(bound - 1 - F)).add(subst(g, mpF))
            if e.facts.bad:
                continue
            e.cells = {cell: self.after(v, F, e.facts) for cell, v in s.cells.items()}
            for lf in self.leaves.values():
                self.fix_arrays(lf, s, e, F, inside=True)
            if k == 'brk':
                self.breaks.append(e)
            elif k == 'ret':
                self.fr.rets.append((e, self.after(x, F, e.facts)))
            else:
                I.throws.append((e, x, self.after(y, F, e.facts)))
        # ---- normal exit
        T = bound
        r = st.clone()
        facts2 = base
        if early:
            if rest.kind != 'T':
                # left through the condition: at F (which is N if no early exit)
                T = F
                cond = and_(*[not_(and_(A, subst(g, mpF))) for *_, g in exits])
            else:
                cond = not_(A)
            cond = base.simp(cond)
            if cond.kind == 'F':
                st.alive = False
                return
            facts2 = base.add(cond)
            if facts2.bad:
                st.alive = False
                return
            r.guard = and_(st.guard, cond)
        T = facts2.simp(T)
        for lf in self.leaves.values():
            r.cells[lf.cell] = setv(r.cells[lf.cell], lf.path, self.final(lf, T, facts2))
        # the condition is false now
        if not early or rest.kind != 'T':
            cT = subst(c, {self.t: T})
            if cT.kind not in ('T', 'F') and c.h == 0:
                f3 = facts2.add(not_(cT))
                if not f3.bad:
                    facts2 = f3
        r.facts = facts2
        st.take(r)
        if self.acts:
            # the evaluation that ended the loop
            self.condf(st)

    def after(self, v, F, facts):
        """value inside iteration F"""
        if isinstance(v, (Poison,)):
            return v
        mp = {self.t: F}

        def f(x):
            y = subst(x, self.closed) if self.closed else x
            y = subst(y, mp)
            return y if y is x else facts.simp(y)
        return vmap(v, f)

    def fix_arrays(self, lf, s, e, F, inside):
        """aggregate leaves of an early-exit state"""
        if lf.mode == 't':
            return
        v = getv(s.cells[lf.cell], lf.path)
        if lf.mode == 'app':
            head = self.appended(lf, F, e.facts)
            tail = v.segs[1:] if v.segs and v.segs[0][0] == 'h' else None
            if tail is None:
                raise Unsupported('container rebuilt before an early exit')
            tail = self.after(Seq(tail), F, e.facts).segs
            e.cells[lf.cell] = setv(e.cells[lf.cell], lf.path, Seq(head + tail, lf.v0.et))
        elif lf.mode == 'fix':
            e.cells[lf.cell] = setv(e.cells[lf.cell], lf.path, self.after(v, F, e.facts))
        elif lf.mode == 'map':
            if v is self.havoc(lf) or veq(v, self.havoc(lf)):
                e.cells[lf.cell] = setv(e.cells[lf.cell], lf.path, self.final(lf, F, e.facts))
            else:
                raise Unsupported('array modified before an early exit')
        elif lf.mode == 'last':
            if has_poison(v):
                e.cells[lf.cell] = setv(e.cells[lf.cell], lf.path, self.final(lf, F, e.facts))

    def appended(self, lf, T, facts):
        v1 = getv(self.nxt.cells[lf.cell], lf.path)
        if not v1.segs or v1.segs[0] is not lf.sym:
            raise Unsupported('container rebuilt in a loop')
        extra = v1.segs[1:]
        q = fresh('q', 'i', True)

        def f(x):
            y = subst(x, self.closed) if self.closed else x
            return subst(y, {self.t: P(q)})
        extra = segs_map(extra, f)
        c = T.const()
        if len(extra) == 1 and extra[0][0] == 'e':
            new = (('r', T, q, extra[0][1]),)
        elif len(extra) == 1 and extra[0][0] == 'r' and False:
            new = extra
        else:
            new = (('n', T, q, extra),)
        if c is not None and 0 <= c <= 64:
            new = ()
            for i in range(int(c)):
                new += segs_map(extra, Subst({q: P(i)}))
        return tuple(lf.v0.segs) + new

    def final(self, lf, T, facts):
        t = self.t
        nxt = self.nxt
        mpT = {t: T}
        if lf.mode == 't':
            e = lf.guess if lf.guess is not None else self.closed[self.atom(lf.sym)]
            return degate(facts.simp(subst(e, mpT)), facts)
        if lf.mode == 'fix':
            seg = lf.v0.segs[0]
            p, k = lf.aux
            vals = [degate(facts.simp(subst(self.closed[self.atom(s)], mpT)), facts) for s in lf.sym]
            return Seq([('r', seg[1], k, merge_val(eq0(P(k) - p), self.fill(seg[3], vals), vsubst(seg[3], {seg[2]: P(k)})))], lf.v0.et)
        if lf.mode == 'app':
            return Seq(self.appended(lf, T, facts), lf.v0.et)
        if lf.mode == 'last':
            v1 = getv(nxt.cells[lf.cell], lf.path)
            if has_poison(v1):
                raise Unsupported('loop-carried value of variable shape')
            v = self.after(v1, T - 1, facts)
            if isinstance(v, Iter) or isinstance(lf.v0, Iter):
                raise Unsupported('iterator reseated in a loop')
            return merge_val(facts.simp(ge0(T - 1)), v, lf.v0) if not facts.nonneg(T - 1) else v
        if lf.mode == 'map':
            v1 = getv(nxt.cells[lf.cell], lf.path)
            seg = v1.segs[0]
            k = seg[2]
            ps = positions(seg[3], k)
            if len(ps) != 1:
                raise Unsupported('array with %d update positions per iteration' % len(ps))
            p = next(iter(ps))
            pc = self.sub(p)
            c0 = pc - P(t)
            if t in c0.syms or (pc.syms & set(self.U)):
                raise Unsupported('array update at a non-consecutive position')
            pf = nxt.facts
            hit = vsubst(seg[3], {k: p})
            miss = vmap(seg[3], lambda x: Subst({eq0(P(k) - p): FALSE})(x))
            if not veq(miss, self.mapbody(lf, P(k))):
                raise Unsupported('array updated away from the position: %s' % (miss,))
            old0 = lf.v0.segs[0]
            kk = fresh('k', 'i', True)
            K = P(kk)
            # the updated element reads its own old value only
            ls = []
            leaves_of(vsubst(old0[3], {old0[2]: K}), ls)
            mp = {}
            for nm, (_, x) in zip(lf.sym, ls):
                mp[mk_atom('sel', (nm, p), x.sort, False)] = x
                mp[mk_atom('sel', (nm, pc), x.sort, False)] = x
            hit = vmap(hit, pf.simp)
            hit = vmap(hit, Subst(mp))
            if self.closed:
                hit = vsubst(hit, self.closed)
                hit = vmap(hit, Subst(mp))
            names = set(lf.sym)
            bad = []

            def chk(x):
                if mentions(x, names):
                    bad.append(x)
                return x
            vmap(hit, chk)
            if bad:
                raise Unsupported('array update depends on other elements')
            hit = vsubst(hit, {t: K - c0})
            old = vsubst(old0[3], {old0[2]: K})
            inside = and_(ge0(K - c0), ge0(c0 + T - 1 - K))
            f2 = facts.add(ge0(old0[1] - 1 - K))
            inside = f2.simp(inside)
            return Seq([('r', old0[1], kk, vmap(merge_val(inside, hit, old), f2.simp))], lf.v0.et)
        raise Unsupported(lf.mode)

    def generic(self, U, c, tr):
        """recurrences without a closed form"""
        t = self.t
        syms = list(U)
        e = self.euclid(U, c, tr)
        if e:
            return
        upds = [self.sub(U[s][1]) for s in syms]
        inits = [U[s][0] for s in syms]
        bt = fresh('t', 'i', True)
        # only what each variable depends on
        if tr is not None and not (c.syms & set(U)):
            for i, s in enumerate(syms):
                keep = reach(i, syms, upds)
                ss = [self.copy(syms[j]) for j in keep]
                mp = {syms[j]: (x if isinstance(x, B) else P(x)) for j, x in zip(keep, ss)}
                mp[t] = P(bt)
                us = [subst(upds[j], mp) for j in keep]
                self.closed[s] = loop_(ss + [bt], [inits[j] for j in keep], P(t), TRUE, us, keep.index(i))
        else:
            # the condition is data dependent: the exit value itself
            cnt = fresh('n', 'i', True)
            syms2 = syms + [cnt]
            upds2 = upds + [P(cnt) + 1]
            inits2 = inits + [ZERO]
            ss = [self.copy(x) for x in syms] + [fresh('n', 'i', True)]
            mp = {a: (b if isinstance(b, B) else P(b)) for a, b in zip(syms, ss)}
            mp[t] = P(ss[-1])
            us = [subst(x, mp) for x in upds] + [P(ss[-1]) + 1]
            cc = subst(c, mp)
            self.gen_count = loop_(ss, inits2, None, cc, us, len(ss) - 1)
            for i, s in enumerate(syms):
                self.closed[s] = loop_(ss, inits2, None, cc, us, i)
            for lf in self.leaves.values():
                if lf.mode in ('app', 'map', 'last'):
                    raise Unsupported('container built by a data-dependent loop')

    @staticmethod
    def copy(a):
        if isinstance(a, B):
            return bfresh('b')
        return fresh('x', a.sort, a.nn)

    def euclid(self, U, c, tr):
        """(a, b) -> (b, a mod b) while b != 0"""
        if len(U) != 2 or self.exits:
            return False
        s1, s2 = list(U)
        for a, b in ((s1, s2), (s2, s1)):
            A, Bq = P(a), P(b)
            pos = self.nxt.facts
            c1 = c
            if all(isinstance(U[x][0], Poly) and self.nxt.facts.nonneg(U[x][0]) for x in (a, b)):
                # the remainder of non-negative numbers is non-negative
                pos = pos.add(ge0(A)).add(ge0(Bq))
                c1 = Facts().add(ge0(A)).add(ge0(Bq)).simp(c)
            if c1 is not not_(eq0(Bq)):
                continue
            fa, fb = self.sub(U[a][1]), self.sub(U[b][1])
            if pos.simp(fa - Bq).t:
                continue
            want = A - Bq * tdiv(A, Bq)
            w2 = A - Bq * fdiv(A, Bq)
            if pos.simp(fb - want).t and pos.simp(fb - w2).t:
                continue
            g = gcd_(U[a][0], U[b][0])
            self.closed[a] = g
            self.closed[b] = ZERO
            self.gen_count = P(fresh('n', 'i', True))
            return True
        return False


def reach(i, syms, upds):
    idx = {s: j for j, s in enumerate(syms)}
    keep = [i]
    stack = [i]
    while stack:
        j = stack.pop()
        for s in upds[j].syms:
            k = idx.get(s)
            if k is not None and k not in keep:
                keep.append(k)
                stack.append(k)
    return sorted(keep)


def mentions(x, names):
    seen = set()
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
            continue
        if not isinstance(y, (Poly, B, Atom)) or y in seen:
            continue
        seen.add(y)
        if isinstance(y, Poly):
            stack.extend(y.atoms())
        elif isinstance(y, Atom):
            if y.kind == 'sel' and y.args[0] in names:
                return True
            stack.extend(y.args)
        else:
            stack.extend(y.args)
    return False


def positions(v, k):
    """p for every gate (k == p) in v"""
    out = set()
    seen = set()

    def scan(x):
        stack = [x]
        while stack:
            y = stack.pop()
            if isinstance(y, tuple):
                stack.extend(y)
                continue
            if not isinstance(y, (Poly, B, Atom)) or y in seen:
                continue
            seen.add(y)
            if isinstance(y, Poly):
                stack.extend(y.atoms())
            elif isinstance(y, Atom):
                stack.extend(a for a in y.args if not isinstance(a, str))
            else:
                if y.kind == 'eq0' and k in y.args[0].syms:
                    e = y.args[0]
                    for m, c in e.t:
                        if m == ((k, 1),):
                            p = (mk_poly({m: c}) - e) * (1 / c)
                            if k not in p.syms:
                                out.add(p)
                    continue
                stack.extend(y.args)
        return x
    vmap(v, scan)
    return out


def summarise(I, n, st, fr, condf, bodyf, incf, breaks, early=False):
    if I.cfg.get('nosum'):
        raise Unsupported('summaries are switched off')
    s = Summary(I, n, st, fr, condf, bodyf, incf, breaks)
    s.early = early
    s.fixpoint()
    s.finish()


def euclid_recursion(I, d, vals, st):
    """a tail-recursive Euclid: f(a, b) = b == 0 ? a : f(b, a % b)"""
    if d.get('name') in (None,):
        return None
    e = d.get('_euclid')
    if e is None:
        e = d['_euclid'] = is_euclid(I, d)
    if not e:
        return None
    a, b = (P(I.load(st, v)) for v in vals)
    a, b = st.facts.simp(a), st.facts.simp(b)
    I.note(d)
    return gcd_(a, b)


def is_euclid(I, d):
    """structural proof obligation: the body returns a when b == 0 and otherwise
    calls itself with (b, a % b)"""
    ps = I.ast.params(d)
    if len(ps) != 2:
        return False
    body = I.ast.body(d)
    if body is None:
        return False
    calls = []

    def scan(n):
        if n.get('kind') == 'CallExpr':
            x = n['inner'][0]
            while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
                x = x['inner'][0]
            if (x.get('referencedDecl') or {}).get('id') in I.ast.same_fn(d):
                calls.append(n)
        for c in n.get('inner') or []:
            if isinstance(c, dict):
                scan(c)
    scan(body)
    if len(calls) != 1:
        return False
    from .interp import Frame, State
    a, b = fresh('a', 'i', True), fresh('b', 'i', True)
    s = State()
    f2 = Frame(d)
    f2.retref = False
    rec = []
    mark = P(fresh('rec', 'i'))
    old = I.dispatch

    def hook(cal, args, n, st, fr):
        if n is calls[0]:
            vs = [P(I.rv(x, st, fr)) for x in args]
            rec.append((st.guard, vs))
            return mark
        return old(cal, args, n, st, fr)
    I.dispatch = hook
    t0, I.throws = I.throws, []
    try:
        I.bind_params(d, [P(a), P(b)], s, f2)
        I.stmt(body, s, f2)
    except Unsupported:
        return False
    finally:
        del I.dispatch
        thr, I.throws = I.throws, t0
    if thr or s.alive or len(rec) != 1:
        return False
    want = P(a) - P(b) * fdiv(P(a), P(b))
    zero = eq0(P(b))
    seen_rec = False
    cover = FALSE
    for rs, v in f2.rets:
        f = rs.facts
        cover = or_(cover, rs.guard)
        x = f.simp(v)
        if x is mark:
            if f.decide(f.simp(zero)) is not False:
                return False
            seen_rec = True
        else:
            # only when b == 0, and then a
            fz = f.add(zero)
            if f.decide(f.simp(zero)) is not True or fz.simp(x - P(a)).t:
                return False
    if not seen_rec or cover.kind != 'T':
        return False
    g, (x, y) = rec[0]
    f = Facts().add(g)
    if x is not P(b) or f.simp(y - want).t:
        return False
    return True
