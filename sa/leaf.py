"""Infeasibility of a leaf: the conjunction of the facts of one path (and the
negation of the compared equality) is contradictory over the integers / reals.
Everything here only ever strengthens "no such execution"; it never produces an
alarm."""
from .terms import *
from . import prove
from .prove import Facts, lit_cons, intrinsic, nested_div, mono_content


def refresh(f):
    """every literal simplified under the others, to a fixpoint (bounded)"""
    for _ in range(4):
        changed = False
        g = Facts()
        lits = list(f.order)
        for i, l in enumerate(lits):
            rest = Facts()
            rest.order = tuple(lits[:i] + lits[i + 1:])
            rest.lits = frozenset(rest.order)
            rest.inst = f.inst
            s = rest.simp(l)
            if s.kind == 'F':
                f = Facts()
                f.bad = True
                return f
            if s is not l and s.kind != 'T':
                lits[i] = s
                changed = True
        if not changed:
            return f
        g.inst = f.inst
        for k in f.order:
            pass
        g.sub = dict(f.sub)
        for l in lits:
            g = g.add(l)
            if g.bad:
                return g
        f = g
    return f


def cases(lits):
    """disequalities and negated strict comparisons still open on both sides"""
    out = []
    for l in lits:
        if l.kind == 'not' and l.args[0].kind == 'eq0':
            out.append(l.args[0].args[0])
    return out


def cons_of(order):
    cs = []
    for l in order:
        cs += lit_cons(l)
        if l.kind == 'not' and l.args[0].kind == 'ge0':  # never built by not_
            cs.append((-l.args[0].args[0] - 1, False))
    return cs


def closure(cons, cap=90):
    """intrinsic constraints of the atoms, signs of monomials, and products that
    stay within the monomials already present"""
    cons = list(cons)
    atoms, monos = set(), set()

    def absorb(p):
        for m, _ in p.t:
            if m != ():
                monos.add(m)
                for a, _e in m:
                    atoms.add(a)
    for p, s in cons:
        absorb(p)
    done = set()
    for _ in range(3):
        new = [a for a in atoms if a not in done]
        if not new:
            break
        for a in new:
            done.add(a)
            rel = list(intrinsic([a]))
            if a.kind == 'fdiv':
                for b in list(done):
                    if b.kind == 'fdiv' and b is not a:
                        if b.args[0] is a.args[0]:
                            rel += nested_div(a, b) + nested_div(b, a)
                        if b.args[1] is a.args[1]:
                            # monotone: x-y const
                            d = (a.args[0] - b.args[0]).const()
                            if d is not None:
                                lo, hi = (b, a) if d >= 0 else (a, b)
                                rel.append((P(hi) - P(lo), False))
            for p, s in rel:
                cons.append((p, s))
                absorb(p)
    for m in monos:
        if all(a.nn or e % 2 == 0 for a, e in m):
            cons.append((mk_poly({m: 1}), False))
    for a in atoms:
        if a.nn:
            cons.append((P(a), False))
    # unique
    seen, u = set(), []
    for p, s in cons:
        if (p, s) not in seen:
            seen.add((p, s))
            u.append((p, s))
    cons = u
    nl = {m for m in monos if len(m) > 1 or m[0][1] != 1}
    extra = []
    if nl:
        for i in range(len(cons)):
            for j in range(i, len(cons)):
                p1, s1 = cons[i]
                p2, s2 = cons[j]
                if len(p1.t) * len(p2.t) > 16:
                    continue
                pr = p1 * p2
                if any(m in nl for m, _ in pr.t) and all((m in monos or m == ()) for m, _ in pr.t) and (pr, s1 and s2) not in seen:
                    seen.add((pr, s1 and s2))
                    extra.append((pr, s1 and s2))
    extra.sort(key=lambda x: len(x[0].t))
    return cons + extra[:cap]


def infeasible(cons):
    """exact: is the system of linear (in)equalities over monomials contradictory?"""
    rows = []
    for p, s in cons:
        k = dict(p.t).get((), Fr(0))
        d = {m: c for m, c in p.t if m != ()}
        rows.append((d, k, s))
    rows = prove._dedup(rows)
    if rows is None:
        return True
    if not rows:
        return False
    return simplex(rows)


def simplex(rows):
    """Motzkin/Farkas: find multipliers y >= 0 with sum y*row = const < 0 (or = 0
    with a strict row used).  Solved as the LP  max t  s.t. rows(x) >= t*[strict],
    t <= 1; contradictory iff infeasible or t <= 0.  Dense exact tableau, Bland."""
    vs = sorted({m for d, _, _ in rows for m in d}, key=lambda m: [(a.id, e) for a, e in m])
    ix = {m: i for i, m in enumerate(vs)}
    n = len(vs)
    m = len(rows)
    if m * n > 20000:
        return False
    # dual form: find y>=0 : sum y_r * a_r = 0, sum y_r*k_r <= -? ; normalise sum y = 1
    # phase one on equalities: A^T y = 0 (n rows), sum y = 1, minimise  K = sum y k.
    # contradiction iff min K < 0, or min K = 0 with strict weight: perturb k by -eps for strict rows
    A = [[Fr(0)] * m for _ in range(n + 1)]
    for j, (d, k, s) in enumerate(rows):
        for q, c in d.items():
            A[ix[q]][j] = Fr(c)
        A[n][j] = Fr(1)
    b = [Fr(0)] * n + [Fr(1)]
    cost = [(Fr(k), Fr(-1 if s else 0)) for d, k, s in rows]
    return _dual(A, b, cost, m)


def _dual(A, b, cost, m):
    nr = len(A)
    # tableau with artificials
    T = [dict((j, v) for j, v in enumerate(row) if v) for row in A]
    rhs = list(b)
    basis = [('a', i) for i in range(nr)]
    # phase 1 objective: minimise sum of artificials = sum rhs - sum T
    z = {}
    for row in T:
        for j, v in row.items():
            z[j] = z.get(j, 0) - v
    zr = -sum(rhs)

    def pivot(r, j, objs):
        pv = T[r][j]
        T[r] = {k: v / pv for k, v in T[r].items()}
        rhs[r] /= pv
        for i in range(nr):
            if i != r:
                f = T[i].get(j)
                if f:
                    row = T[i]
                    for k, v in T[r].items():
                        x = row.get(k, 0) - f * v
                        if x:
                            row[k] = x
                        else:
                            row.pop(k, None)
                    rhs[i] -= f * rhs[r]
        for o in objs:
            f = o[0].get(j)
            if f:
                for k, v in T[r].items():
                    x = o[0].get(k, 0) - f * v
                    if x:
                        o[0][k] = x
                    else:
                        o[0].pop(k, None)
                o[1] -= f * rhs[r]
        basis[r] = ('v', j)
    o1 = [z, zr]
    it = 0
    while True:
        it += 1
        if it > 600:
            return False
        if it < 200:
            cand = [(v, j) for j, v in o1[0].items() if v < 0]
            if not cand:
                break
            j = min(cand)[1]
        else:
            c2 = [j for j, v in o1[0].items() if v < 0]
            if not c2:
                break
            j = min(c2)
        best = None
        for i in range(nr):
            v = T[i].get(j, 0)
            if v > 0:
                r = rhs[i] / v
                key = (r, basis[i][0] != 'a', basis[i][1])
                if best is None or key < best[0]:
                    best = (key, i)
        if best is None:
            return False
        pivot(best[1], j, [o1])
    if o1[1] < 0:
        return False          # only y = 0: consistent
    # drive artificials out
    for i in range(nr):
        if basis[i][0] == 'a':
            js = [j for j in T[i]]
            if js:
                pivot(i, js[0], [o1])
    # phase 2: lexicographic (value, strict part)
    za = [{j: cost[j][0] for j in range(m) if cost[j][0]}, Fr(0)]
    zb = [{j: cost[j][1] for j in range(m) if cost[j][1]}, Fr(0)]
    for i in range(nr):
        if basis[i][0] == 'v':
            j = basis[i][1]
            for o in (za, zb):
                f = o[0].get(j)
                if f:
                    for k, v in T[i].items():
                        x = o[0].get(k, 0) - f * v
                        if x:
                            o[0][k] = x
                        else:
                            o[0].pop(k, None)
                    o[1] -= f * rhs[i]
    it = 0
    while True:
        it += 1
        if it > 800:
            return False
        if -za[1] < 0 or (za[1] == 0 and -zb[1] < 0):
            return True
        cand = []
        for j in set(za[0]) | set(zb[0]):
            a, bb = za[0].get(j, 0), zb[0].get(j, 0)
            if a < 0 or (a == 0 and bb < 0):
                cand.append(j)
        if not cand:
            return False
        j = min(cand, key=lambda j: (za[0].get(j, 0), zb[0].get(j, 0))) if it < 200 else min(cand)
        best = None
        for i in range(nr):
            v = T[i].get(j, 0)
            if v > 0:
                r = rhs[i] / v
                key = (r, basis[i][1])
                if best is None or key < best[0]:
                    best = (key, i)
        if best is None:
            return False
        pivot(best[1], j, [za, zb])


def unsat(f, budget=None, depth=0):
    """is the conjunction of the facts contradictory?"""
    if f.bad:
        return True
    if depth == 0:
        f = refresh(f)
        if f.bad:
            return True
    lits = list(f.order)
    cons = closure(cons_of(lits))
    if infeasible(cons):
        return True
    if depth >= 3:
        return False
    budget = budget or [24]
    for l in lits:
        if l.kind == 'not' and l.args[0].kind == 'eq0':
            p = l.args[0].args[0]
            budget[0] -= 1
            if budget[0] < 0:
                return False
            one = (p - 1, False) if p.sort == 'i' else (p, True)
            two = (-p - 1, False) if p.sort == 'i' else (-p, True)
            r1, r2 = infeasible(cons + [one]), infeasible(cons + [two])
            if r1 and r2:
                return True
            if r1 or r2:
                g = f.add(ge0(two[0]) if r1 and p.sort == 'i' else ge0(one[0]) if p.sort == 'i' else gt0(two[0]) if r1 else gt0(one[0]))
                if g.bad:
                    return True
                if g.lits != f.lits:
                    return unsat(refresh(g), budget, depth + 1)
    for l in lits:
        if l.kind == 'or':
            budget[0] -= 1
            if budget[0] < 0:
                return False
            if all(unsat(f.add(x), budget, depth + 1) for x in l.args):
                return True
    for a in sorted({a for l in lits for p in lit_polys(l) for a in p.atoms() if a.kind == 'min'}, key=lambda a: a.id):
        budget[0] -= 1
        if budget[0] < 0:
            return False
        if all(unsat(min_case(f, a, x), budget, depth + 1) for x in a.args[0]):
            return True
        break
    return False


def lit_polys(l):
    if l.kind in ('not', 'and', 'or'):
        return [p for x in l.args for p in lit_polys(x)]
    return [p for p in l.args if isinstance(p, Poly)]


def min_case(f, a, x):
    """the minimum is attained at x"""
    g = Facts()
    g.inst = f.inst
    for l in f.order:
        g = g.add(subst(l, {a: x}))
        if g.bad:
            return g
    for y in a.args[0]:
        g = g.add(ge0(y - x))
        if g.bad:
            return g
    return g


def equal_or_dead(f, d):
    """the leaf is impossible, or d = 0 in it"""
    if unsat(f):
        return True
    if d is not None and isinstance(d, Poly):
        f = refresh(f)
        d = f.simp(d)
        if not d.t:
            return True
        d = merge_divs(f, d)
        if not d.t:
            return True
        m, q = mono_content(d)
        if m and q.t and not any(e < 0 for a, e in m) and f.mono_sign(m) is not None:
            d = q
        if d.sort == 'i':
            return unsat(f.add(ge0(d - 1))) and unsat(f.add(ge0(-d - 1)))
        return unsat(f.add(gt0(d))) and unsat(f.add(gt0(-d)))
    return False


def iff_or_dead(f, a, b):
    if unsat(f):
        return True
    return unsat(f.add(a).add(not_(b))) and unsat(f.add(not_(a)).add(b))


def merge_divs(f, d):
    """floor(x/q) = floor((x-k)/q) where the facts exclude the step between them"""
    for _ in range(6):
        fd = sorted([a for a in d.atoms() if a.kind == 'fdiv'], key=lambda a: a.id)
        done = False
        for i, a in enumerate(fd):
            for b in fd[i + 1:]:
                if a.args[1] is not b.args[1]:
                    continue
                k = (a.args[0] - b.args[0]).const()
                if k is None or abs(k) > 2:
                    continue
                lo, hi = (b, a) if k > 0 else (a, b)
                if unsat(f.add(ge0(P(hi) - P(lo) - 1))):
                    d = f.simp(subst(d, {hi: P(lo)}))
                    done = True
                elif abs(k) == 1 and unsat(f.add(ge0(P(lo) - P(hi)))):
                    d = f.simp(subst(d, {hi: P(lo) + 1}))
                    done = True
                if done:
                    break
            if done:
                break
        if not done:
            return d
    return d
