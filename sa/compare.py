"""Equality of two abstract values under facts, and the certificate (a valuation)
that two normal forms differ."""
from .values import *
from .values import _same_dir
from .prove import *
from .evalt import Env, Undefined, same_num, known_spec
from fractions import Fraction
import random
import re


class Diff(Exception):
    def __init__(self, path, facts, what, a=None, b=None):
        self.path, self.facts, self.what, self.a, self.b = path, facts, what, a, b


class Unknown(Exception):
    pass


class Cmp:
    """raises Diff for the first inequality that cannot be discharged"""

    def __init__(self, I, limit=3000):
        self.I = I
        self.pr = Prover(limit)
        self.n = 0

    def go(self, a, b, facts, path):
        if facts.bad:
            return
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if type(a) is type(b):
                return
            raise Unknown('unmodelled value at %s' % path)
        if isinstance(a, TERM) and isinstance(b, TERM):
            self.n += 1
            if isinstance(a, B) != isinstance(b, B):
                a, b = P(b2i(a) if isinstance(a, B) else a), P(b2i(b) if isinstance(b, B) else b)
            if isinstance(a, B):
                r = self.pr.iff(a, b, facts)
            else:
                r = self.pr.eq(a, b, facts)
            if not r.ok:
                raise Diff(path, r.leaf, r.diff, a, b)
            return
        if veq(a, b):
            self.n += 1
            return
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, Choice):
                f1, f2 = facts.add(x.c), facts.add(not_(x.c))
                for f, z in ((f1, x.a), (f2, x.b)):
                    if not f.bad:
                        self.go(*((z, y) if not sw else (y, z)), f, path)
                return
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.f.keys() != b.f.keys():
                raise Diff(path, facts, TRUE)
            for k in a.f:
                self.go(a.f[k], b.f[k], facts, path + '.' + k)
            return
        if isinstance(a, Str) and isinstance(b, Str):
            return self.text(a, b, facts, path)
        if isinstance(a, Seq) and isinstance(b, Seq):
            return self.seq(a, b, facts, path)
        if isinstance(a, Map) and isinstance(b, Map):
            if len(a.items) != len(b.items):
                raise Diff(path + '.size()', facts, TRUE)
            for (k, x), (k2, y) in zip(a.items, b.items):
                self.go(k, k2, facts, path + '.key')
                self.go(x, y, facts, path + '[%s]' % (k.lit() if isinstance(k, Str) else k,))
            return
        raise Unknown('cannot compare %s with %s at %s' % (type(a).__name__, type(b).__name__, path))

    # ------------------------------------------------------------ sequences
    def flat(self, segs, facts):
        """resolve conditional segments decided by the facts; returns (segs, undecided condition)"""
        out = []
        for s in segs:
            if s[0] == 'c':
                c = facts.simp(s[1])
                if c.kind == 'T':
                    r, u = self.flat(s[2], facts)
                    if u is not None:
                        return None, u
                    out += r
                elif c.kind == 'F':
                    continue
                else:
                    return None, pick_lit(c) if c.kind in ('and', 'or', 'not') else c
            elif s[0] in 'rn':
                n = facts.simp(s[1])
                k = n.const()
                if k is not None:
                    if k <= 0:
                        continue
                    if k <= 40:
                        for i in range(int(k)):
                            if s[0] == 'r':
                                out.append(('e', vsubst(s[3], {s[2]: P(i)})))
                            else:
                                r, u = self.flat(segs_map(s[3], Subst({s[2]: P(i)})), facts)
                                if u is not None:
                                    return None, u
                                out += r
                        continue
                out.append((s[0], n) + s[2:])
            else:
                out.append(s)
        return out, None

    def seq(self, a, b, facts, path):
        for x in (a, b):
            r, u = self.flat(x.segs, facts)
            if u is not None:
                for f in (facts.add(u), facts.add(not_(u))):
                    if not f.bad:
                        self.seq(a, b, f, path)
                return
        sa, _ = self.flat(a.segs, facts)
        sb, _ = self.flat(b.segs, facts)
        sa, sb = list(sa), list(sb)
        self.go(slen(sa), slen(sb), facts, path + '.size()')
        self.segs(sa, sb, facts, path)

    def segs(self, sa, sb, facts, path):
        off = 0
        while sa and sb:
            x, y = sa[0], sb[0]
            if x[0] == 'e' and y[0] == 'e':
                self.go(x[1], y[1], facts, '%s[%s]' % (path, off))
                sa, sb = sa[1:], sb[1:]
                off += 1
                continue
            if segs_eq((x,), (y,)):
                sa, sb = sa[1:], sb[1:]
                off = '?'
                continue
            if x[0] == 'r' and y[0] == 'r':
                c = self.same(x[1], y[1], facts)
                if c:
                    k = fresh('idx', 'i', True)
                    f = facts.add(ge0(x[1] - 1 - P(k)))
                    self.go(vsubst(x[3], {x[2]: P(k)}), vsubst(y[3], {y[2]: P(k)}), f, path + '[%s]' % k.args[0] if hasattr(k, 'args') else path + '[k]')
                    sa, sb = sa[1:], sb[1:]
                    off = '?'
                    continue
            if x[0] == 'n' and y[0] == 'n' and self.same(x[1], y[1], facts):
                k = fresh('idx', 'i', True)
                f = facts.add(ge0(x[1] - 1 - P(k)))
                u = Seq(segs_map(x[3], Subst({x[2]: P(k)})))
                v = Seq(segs_map(y[3], Subst({y[2]: P(k)})))
                self.seq(u, v, f, path + '[block k]')
                sa, sb = sa[1:], sb[1:]
                off = '?'
                continue
            # element against a block: split off the first / last element of the block
            if x[0] == 'e' and y[0] == 'r':
                d = facts.decide(ge0(y[1] - 1))
                if d is True:
                    k2 = fresh('k', 'i', True)
                    sb = [('e', vsubst(y[3], {y[2]: ZERO})), ('r', y[1] - 1, k2, vsubst(y[3], {y[2]: P(k2) + 1}))] + sb[1:]
                    continue
                if d is False:
                    sb = sb[1:]
                    continue
                for f in (facts.add(ge0(y[1] - 1)), facts.add(not_(ge0(y[1] - 1)))):
                    if not f.bad:
                        self.segs(sa, sb, f, path)
                return
            if y[0] == 'e' and x[0] == 'r':
                return self.segs2(sb, sa, facts, path)
            return self.pointwise(sa, sb, facts, path)
        for s in sa + sb:
            if s[0] == 'e' or not self.same(slen([s]), ZERO, facts):
                raise Diff(path + '.size()', facts, ZERO + slen(sa) - slen(sb))

    def segs2(self, sa, sb, facts, path):
        y = sb[0]
        d = facts.decide(ge0(y[1] - 1))
        if d is True:
            k2 = fresh('k', 'i', True)
            sb = [('e', vsubst(y[3], {y[2]: ZERO})), ('r', y[1] - 1, k2, vsubst(y[3], {y[2]: P(k2) + 1}))] + sb[1:]
            return self.segs(sb, sa, facts, path)
        if d is False:
            return self.segs(sb[1:], sa, facts, path)
        for f in (facts.add(ge0(y[1] - 1)), facts.add(not_(ge0(y[1] - 1)))):
            if not f.bad:
                self.segs(sb, sa, f, path)

    def pointwise(self, sa, sb, facts, path):
        """blocks of different shape: compare at one symbolic position"""
        if any(s[0] not in 'er' for s in sa + sb):
            raise Unknown('sequences of irregular shape at %s' % path)
        k = fresh('idx', 'i', True)
        f = facts.add(ge0(slen(sa) - 1 - P(k)))
        st = type('S', (), {'facts': f})()
        self.go(self.I.index_segs(st, tuple(sa), P(k)), self.I.index_segs(st, tuple(sb), P(k)), f, path + '[k]')

    def same(self, x, y, facts):
        if x is y:
            return True
        try:
            return self.pr.eq(x, y, facts).ok
        except Budget:
            return False

    # ------------------------------------------------------------ text
    def text(self, a, b, facts, path):
        pa, pb = list(a.parts), list(b.parts)
        while pa and pb:
            x, y = pa[0], pb[0]
            if x[0] == 'lit' and y[0] == 'lit':
                s, t = x[1], y[1]
                n = min(len(s), len(t))
                if s[:n] != t[:n]:
                    raise Diff(path, facts, TRUE, s, t)
                pa[0], pb[0] = ('lit', s[n:]), ('lit', t[n:])
                if not pa[0][1]:
                    pa.pop(0)
                if not pb[0][1]:
                    pb.pop(0)
                continue
            if x[0] == 'val' and y[0] == 'val' and self.fmt_same(x, y, facts):
                self.go(x[1], y[1], facts, path + '<%s>' % (x[2] or 'text'))
                pa.pop(0), pb.pop(0)
                continue
            if x[0] == y[0] and x[0] in ('sym', 'tail'):
                self.go(x[1], y[1], facts, path)
                pa.pop(0), pb.pop(0)
                continue
            if x[0] == 'seq' or y[0] == 'seq':
                raise Unknown('repeated text at %s' % path)
            if self.sym_lit(pa, pb, facts, path):
                return
            # a number against literal text
            v, l = (x, y) if x[0] == 'val' else (y, x)
            if v[0] == 'val' and l[0] == 'lit':
                if isinstance(v[1], Poly) and facts.simp(v[1]).const() is not None:
                    c = facts.simp(v[1]).const()
                    t = render(c, v[2])
                    if t is not None:
                        nl = ('lit', t)
                        if v is x:
                            pa[0] = nl
                        else:
                            pb[0] = nl
                        continue
                ch = l[1][0]
                if not (ch.isdigit() or ch in '+-.ni'):
                    raise Diff(path, facts, TRUE, 'a number', l[1])
            raise Unknown('text of different shape at %s: %r / %r' % (path, x, y))
        rest = pa or pb
        if rest:
            if self.sym_lit(pa, pb, facts, path):
                return
            if all(p[0] in ('lit', 'val') for p in rest):
                raise Diff(path, facts, TRUE, a.parts, b.parts)
            raise Unknown('text of different shape at %s' % path)

    def sym_lit(self, pa, pb, facts, path):
        """an unknown text against a literal one: equal under the facts, or told apart by some text"""
        for u, v in ((pa, pb), (pb, pa)):
            if len(u) == 1 and u[0][0] == 'sym' and all(p[0] == 'lit' for p in v):
                ne = not_(eq0(P(u[0][1]) - text_code(''.join(p[1] for p in v))))
                if facts.add(ne).bad:
                    return True
                raise Diff(path, facts, ne, pa, pb)
        return False

    def fmt_same(self, x, y, facts):
        if x[2] == y[2]:
            return True
        xs = [(render(c, x[2]), render(c, y[2])) for c in (Fraction(0), Fraction(1), Fraction(1, 2), Fraction(12345678901, 1000), Fraction(-1, 3))]
        if all(u is not None and v is not None and u != v for u, v in xs):
            raise Diff('number format', facts, TRUE, x[2], y[2])
        if isinstance(x[1], Poly) and x[1] is y[1] and known_spec(x[2]) and known_spec(y[2]):
            # the same number written in two ways: some value has to tell them apart
            raise Diff('number format', facts, mk_b('fmtne', (x[1], x[2], y[2])), x[2], y[2])
        raise Unknown('number format %r / %r' % (x[2], y[2]))


def render(c, spec):
    """the text of an exact number, where every implementation agrees on it"""
    if spec == '':
        return str(c) if c.denominator == 1 else None
    m = re.fullmatch(r'f\.(\d+)([ef])', spec)
    if m:
        return ('%%.%s%s' % m.groups()) % float(c)
    if spec == 'f':
        return repr(float(c)) if c.denominator != 1 and abs(c) < 1000 else None
    return None


# ------------------------------------------------------------------ text events
def norm_events(v):
    """file log: consecutive writes to the same file are one text"""
    return v


def normalise_log(I, v):
    """Seq of events -> list of segments with adjacent writes to one file concatenated"""
    def walk(segs):
        out = []
        for s in segs:
            if s[0] == 'e' and isinstance(s[1], Obj) and s[1].cls == 'ev':
                e = s[1]
                if e.f['op'].lit() == 'write':
                    if isinstance(e.f['text'], Str) and not e.f['text'].parts:
                        continue
                    if out and out[-1][0] == 'e' and isinstance(out[-1][1], Obj) and out[-1][1].f['op'].lit() == 'write' and veq(out[-1][1].f['file'], e.f['file']):
                        p = out[-1][1]
                        out[-1] = ('e', p.set('text', p.f['text'] + e.f['text']))
                        continue
                out.append(s)
            elif s[0] == 'c':
                out.append(('c', s[1], tuple(walk(s[2]))))
            elif s[0] == 'n':
                out.append(('n', s[1], s[2], tuple(walk(s[3]))))
            elif s[0] == 'r' and isinstance(s[3], Obj) and s[3].cls == 'ev':
                out.append(('n', s[1], s[2], (('e', s[3]),)))
            else:
                out.append(s)
        return out
    segs = per_file(v.segs)
    return Seq(rotate(walk(v.segs if segs is None else segs)), v.et)


def written(s, f=None):
    return s[0] == 'e' and isinstance(s[1], Obj) and s[1].cls == 'ev' and s[1].f['op'].lit() == 'write' \
        and isinstance(s[1].f['text'], Str) and (f is None or veq(s[1].f['file'], f))


def cut_end(parts, tail):
    """parts without the text `tail` at their end, or None"""
    ps = list(parts)
    for q in reversed(tail):
        if q[0] == 'val' and isinstance(q[1], Poly) and q[1].const() is not None and render(q[1].const(), q[2]) is not None:
            q = ('lit', render(q[1].const(), q[2]))
        if not ps:
            return None
        x = ps.pop()
        if q[0] == 'lit' and x[0] == 'lit' and x[1].endswith(q[1]):
            if len(x[1]) > len(q[1]):
                ps.append(('lit', x[1][:len(x[1]) - len(q[1])]))
        elif q[0] == 'lit' and x[0] == 'val' and isinstance(x[1], Poly) and x[1].const() is not None and render(x[1].const(), x[2]) == q[1]:
            pass
        elif q[0] != 'val' or x[0] != 'val' or q[2] != x[2] or not veq(q[1], x[1]):
            return None
    return ps


def rotate(segs):
    """one form for repeated text: a first row written on its own joins the rows, and an
    end the text before has in common with every row moves to the front of the rows"""
    out = list(segs)
    i = 0
    while i + 1 < len(out):
        a, b = out[i], out[i + 1]
        if not (written(a) and b[0] == 'n' and len(b[3]) == 1 and written(b[3][0], a[1].f['file'])):
            i += 1
            continue
        A, n, k, B = list(a[1].f['text'].parts), b[1], b[2], list(b[3][0][1].f['text'].parts)
        for _ in range(4):
            r = cut_end(A, [vsubst_part(p, {k: P(-1)}) for p in B]) if B else None
            if r is None:
                break
            A, n, B = r, n + 1, [vsubst_part(p, {k: P(k) - 1}) for p in B]
        end = ''
        while A and B and A[-1][0] == 'lit' and B[-1][0] == 'lit' and A[-1][1][-1:] == B[-1][1][-1:] and len(end) < 200:
            c = A[-1][1][-1:]
            end = c + end
            A = A[:-1] + ([('lit', A[-1][1][:-1])] if len(A[-1][1]) > 1 else [])
            B = B[:-1] + ([('lit', B[-1][1][:-1])] if len(B[-1][1]) > 1 else [])
            B = list((Str([('lit', c)]) + Str(B)).parts)
        out[i] = ('e', a[1].set('text', Str(A)))
        out[i + 1] = ('n', n, k, (('e', b[3][0][1].set('text', Str(B))),))
        if end:
            if i + 2 < len(out) and written(out[i + 2], a[1].f['file']):
                w = out[i + 2][1]
                out[i + 2] = ('e', w.set('text', Str([('lit', end)]) + w.f['text']))
            else:
                out.insert(i + 2, ('e', a[1].set('text', Str([('lit', end)]))))
        i += 2
    return [s for s in out if not (written(s) and not s[1].f['text'].parts)]


def vsubst_part(p, d):
    return ('val', vsubst(p[1], d)) + tuple(p[2:]) if p[0] == 'val' else p


def per_file(segs):
    """the net effect on every file, when it is clear which file each event concerns"""
    files = []          # [name, opening event, segments]

    def names(segs):
        out = []
        for s in segs:
            if s[0] == 'e' and isinstance(s[1], Obj) and s[1].cls == 'ev':
                if s[1].f['op'].lit() != 'write':
                    return None
                out.append(s[1].f['file'])
            elif s[0] == 'c':
                n = names(s[2])
                if n is None:
                    return None
                out += n
            elif s[0] == 'n':
                n = names(s[3])
                if n is None:
                    return None
                out += n
            elif s[0] == 'r' and isinstance(s[3], Obj) and s[3].cls == 'ev':
                if s[3].f['op'].lit() != 'write':
                    return None
                out.append(s[3].f['file'])
            else:
                return None
        return out

    def entry(f):
        for x in files:
            if veq(x[0], f):
                return x
        x = [f, None, []]
        files.append(x)
        return x
    for s in segs:
        if s[0] == 'e' and isinstance(s[1], Obj) and s[1].cls == 'ev' and s[1].f['op'].lit() in ('app', 'trunc'):
            x = entry(s[1].f['file'])
            if s[1].f['op'].lit() == 'trunc':
                x[1], x[2] = s, []
            elif x[1] is None:
                x[1] = s
            continue
        n = names((s,))
        if n is None or any(not veq(f, n[0]) for f in n):
            return None
        if n:
            entry(n[0])[2].append(s)
    if len(files) > 1 and sum(not isinstance(x[0], Str) or x[0].lit() is None for x in files) > 1:
        return None         # two names that may denote one file
    files.sort(key=lambda x: str(x[0]))
    out = []
    for f, o, ss in files:
        if o is not None:
            out.append(o)
        out += ss
    return out


# ------------------------------------------------------------------ certificate
class SelName:
    def __init__(self, n):
        self.args = (n,)

    def __eq__(self, o):
        return isinstance(o, SelName) and o.args == self.args

    def __hash__(self):
        return hash(self.args)


def free_syms(x, out=None):
    out = set() if out is None else out
    seen = set()

    def w(x):
        if isinstance(x, (Poly, B, Atom)):
            if x in seen:
                return
            seen.add(x)
        if isinstance(x, Poly):
            for m, c in x.t:
                for a, e in m:
                    w(a)
        elif isinstance(x, Atom):
            if x.kind == 'sym':
                out.add(x)
            else:
                if x.kind == 'sel':
                    out.add(SelName(x.args[0]))
                for y in x.args:
                    w(y)
        elif isinstance(x, B):
            if x.kind == 'bsym':
                out.add(x)
            else:
                if x.kind == 'bsel':
                    out.add(SelName(x.args[0]))
                for y in x.args:
                    w(y)
        elif isinstance(x, tuple):
            for y in x:
                w(y)
    w(x)
    return out


def poly_value(env, p):
    """(value, magnitude)"""
    tot, mag = 0, 0.0
    for m, c in p.t:
        v = env.poly(mk_poly({m: c}))
        if v != v:
            return v, 1.0
        tot = v + tot
        mag += abs(float(v))
    return tot, mag


def certify(d, inputs, tries=None, seed=1, okfree=('uninit',), consts=(), budget=6.0, exact=False):
    """valuation of the inputs satisfying the leaf facts under which d (a polynomial, or a
    formula) is non-zero / true"""
    facts, what = d.facts, d.what
    import time
    t0 = time.time()
    fs = set()
    for l in facts.order:
        free_syms(l, fs)
    for a, v in facts.sub.items():
        free_syms(v, fs)
    free_syms(what, fs)
    names = {x for x in inputs} | {SelName(n) for n in SELS}
    unk = [x for x in fs if x not in names and not any(str(x.args[0]).startswith(o) for o in okfree) and not is_index(x)]
    if unk:
        return None, 'depends on values the analysis abstracts (%s)' % ', '.join(sorted(str(u.args[0]) for u in unk))[:200]
    order = list(facts.order) + solved(facts)
    cs = set(consts)
    for l in order + [what]:
        collect_consts(l, cs)
    cs = [c for c in cs if abs(c) < 10 ** 20]
    und = 0
    pieces = break_pieces(order + [what])
    wide_pieces = [] if pieces and len(pieces) < 8 and not any(a.kind == 'pow' or a.kind in ('fdiv', 'tdiv', 'rem', 'sqrt') for p in pieces for a in p.atoms()) else break_pieces(order + [what], 400)
    wsyms = sorted({a for p in wide_pieces for a in free_syms(p) if isinstance(a, Atom) and a.kind == 'sym' and a not in facts.sub}, key=lambda a: a.id)
    bsyms = sorted({a for p in pieces for a in free_syms(p) if isinstance(a, Atom) and a.kind == 'sym' and a not in facts.sub}, key=lambda a: a.id)
    strict = has_fp(order + [what]) and ('inf' if has_fp(order + [what], lambda x: x.kind in ('isinf', 'isnan')) else True) or (has_fp(order + [what], lambda x: x.kind in ('f32', 'narrow')) and 'ints')
    texts = text_consts() if has_textop(order + [what]) else ()
    if tries is None:
        tries = 40000 if strict else 4000
    # single precision keeps seven digits
    tol = 1e-8 if has_fp([what], lambda x: x.kind == 'f32') else 1e-6
    for t in range(tries):
        if time.time() - t0 > budget:
            break
        env = Env('%s/%d' % (seed, t), {}, consts=cs if t % 3 else (), wide=strict if t % 2 else False, texts=texts)
        if pieces and t % 2:
            env.assign.update(near_breakpoints('%s/%d' % (seed, t), pieces, bsyms, cs))
        if wide_pieces and t % 4 == 2:
            env.assign.update(at_boundary('%s/%d' % (seed, t), wide_pieces, wsyms, cs, order))
        try:
            if not satisfies(env, facts, order):
                continue
            if isinstance(what, B):
                if env.b(what):
                    return env, None
                continue
            v, mag = poly_value(env, what)
            if v != v:
                # one side undefined: compare the two sides
                if d.a is None or not isinstance(d.a, Poly):
                    continue
                x, y = env.poly(d.a), env.poly(d.b)
                if (x != x) != (y != y):
                    return env, None
                continue
            if isinstance(v, float):
                if abs(v) > (0 if exact else tol) * max(mag, 1e-30) and abs(v) > 1e-9:
                    return env, None
            elif v != 0:
                return env, None
        except (Undefined, OverflowError, ZeroDivisionError, ValueError, RecursionError):
            und += 1
            continue
        except TypeError:
            und += 1
            continue
    return None, 'no certifying valuation found (%d undefined)' % und


def has_textop(xs):
    return has_fp(xs, lambda x: x.kind == 'sel' and x.args[0] in ('textop', 'strlen'))


def text_consts():
    """codes of texts near the literals"""
    out = set()
    for t in list(TEXT_CODES)[:60]:
        for u in (t, t + 'x', 'x' + t, t[:-1], t[1:], t.lower(), t.upper(), t[::-1], ' ' + t, t + ' ', t[:1]):
            out.add(text_code(u))
    return sorted(out)


def has_fp(xs, test=lambda x: x.kind in ('fp', 'fpcmp')):
    """do the terms contain strict floating point operations?"""
    seen, todo = set(), list(xs)
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if not isinstance(x, (Poly, B, Atom)) or x in seen:
            continue
        seen.add(x)
        if isinstance(x, Poly):
            todo.extend(x.atoms())
        else:
            if test(x):
                return True
            todo.extend(x.args)
    return False


def break_pieces(xs, most=24):
    """the polynomials whose sign the conditions depend on"""
    out, seen, todo = {}, set(), list(xs)
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if not isinstance(x, (Poly, B, Atom)) or x in seen:
            continue
        seen.add(x)
        if isinstance(x, B):
            if x.kind in BINDERS:
                continue
            if x.kind in ('ge0', 'gt0', 'eq0'):
                out[x.args[0]] = 1
            todo.extend(x.args)
        elif isinstance(x, Atom):
            if x.kind in BINDERS:
                continue
            if x.kind == 'min' and len(x.args[0]) <= 4:
                for i in range(len(x.args[0])):
                    for j in range(i):
                        out[x.args[0][i] - x.args[0][j]] = 1
            todo.extend(x.args)
        else:
            todo.extend(x.atoms())
    ps = [p for p in out if not p.is_const() and len(p.t) < 30]
    return ps if len(ps) <= most else []


def at_boundary(seed, pieces, syms, cs, order=()):
    """valuation close to a point where one of the pieces changes sign, found by bisection"""
    r = random.Random(seed)
    best, cur, failing = -1, None, ()
    for k in range(30):
        env0 = Env('%s/%d' % (seed, k), {}, consts=cs if k % 4 == 3 else ())
        c, n, bad = {a: env0.symval(a) for a in syms}, 0, []
        for l in order:
            try:
                if env0.b(l):
                    n += 1
                else:
                    bad.append(l)
            except Exception:
                pass
        if n > best:
            best, cur, failing = n, c, bad
        if n == len(order):
            break
    ps = break_pieces(failing) if failing and r.random() < 0.8 else ()
    p = r.choice(ps or pieces)
    own = [a for a in free_syms(p) if isinstance(a, Atom) and a in cur]
    if not own:
        return cur
    own.sort(key=lambda x: x.id)
    a = r.choice(own)

    def f(x):
        e = Env(seed, dict(cur), consts=cs)
        e.assign[a] = x
        try:
            return e.poly(p)
        except Exception:
            return None
    step = (lambda: Fraction(2) ** r.randrange(0, 40)) if a.sort == 'i' else (lambda: Fraction(2) ** r.randrange(-16, 16))
    lo, ylo = cur[a], f(cur[a])
    if ylo is None or ylo != ylo:
        return cur
    for k in range(8):
        hi = r.choice((lo + step(), lo - step(), step() if r.random() < 0.5 else -step()))
        if a.nn:
            hi = abs(hi)
        yhi = f(hi)
        if yhi is not None and yhi == yhi and (ylo > 0) != (yhi > 0):
            break
    else:
        return cur
    # the sign at lo is that of ylo, the sign at hi the other one
    for k in range(60):
        w = abs(hi - lo)
        if w <= (1 if a.sort == 'i' else Fraction(1, 1 << 44) * max(1, abs(lo))):
            break
        m = (lo + hi) / 2
        if a.sort == 'i':
            m = Fraction(m.numerator // m.denominator)
        y = f(m)
        if y is None or y != y:
            break
        if (y > 0) == (ylo > 0):
            lo = m
        else:
            hi = m
    x = r.choice((lo, hi))
    if a.sort == 'i':
        x += r.choice((0, 0, 0, 1, -1, 2, -2))
    else:
        x += r.choice((-1, 1)) * max(abs(x), Fraction(1, 1000)) * Fraction(1, 10 ** r.randrange(1, 10))
    if not a.nn or x >= 0:
        cur[a] = x
    return cur


def near_breakpoints(seed, pieces, syms, cs):
    """valuation at or between the points where one of the pieces changes sign"""
    import random
    from math import floor
    r = random.Random(seed)
    env0 = Env(seed, {}, consts=cs)
    env0.steps = 0
    cur = {a: env0.symval(a) for a in syms}
    for a in r.sample(syms, min(len(syms), 1 + r.randrange(3))):
        roots = []
        for p in pieces:
            try:
                x0 = cur[a]
                x1 = x0 + 1
                y = []
                for x in (x0, x1):
                    e = Env(seed, dict(cur), consts=cs)
                    e.assign[a] = x
                    y.append(e.poly(p))
                if y[0] == y[1] or isinstance(y[0], float) or isinstance(y[1], float):
                    continue
                roots.append(x0 - y[0] / (y[1] - y[0]))
            except Exception:
                continue
        if not roots:
            continue
        roots = sorted(set(roots))
        c = []
        for i, x in enumerate(roots):
            c.append(x)
            if i:
                c.append((x + roots[i - 1]) / 2)
        c += [roots[0] - 1, roots[-1] + 1]
        v = r.choice(c)
        if a.sort == 'i':
            v = Fraction(floor(v) + r.choice((0, 0, 1, -1)))
        if a.nn and v < 0:
            continue
        cur[a] = v
    return cur


def satisfies(env, facts, order):
    """extend the valuation along the solved equations; does it satisfy the facts?"""
    for a, v in sub_order(facts.sub):
        x = env.value(v) if isinstance(v, TERM) else v
        if isinstance(a, B):
            env.assign[a] = bool(x)
        else:
            if a.sort == 'i' and not isinstance(x, float) and x.denominator != 1:
                raise Undefined('int')
            if a.nn and x < 0:
                raise Undefined('range')
            env.assign[a] = x
            if a.kind == 'sel' and a.args[0] in ('textop', 'strlen'):
                env.memo.pop(a, None)
                if env.atomv(a) != x:
                    return False
            elif a.kind == 'sel':
                env.sel[(a.args[0],) + tuple(env.value(y) for y in a.args[1:])] = x
            elif a.kind in ('gcd', 'fdiv', 'tdiv', 'fn'):
                # a function with known values is not free to take another one
                try:
                    y = env.atomv(a)
                except Undefined:
                    env.memo[a] = x
                    continue
                if y != x and (a.sort == 'i' or abs(float(y) - float(x)) > 1e-9 * (abs(float(x)) + abs(float(y)))):
                    return False
            elif a.kind != 'sym':
                env.memo[a] = x
    if not all(env.b(l) for l in order):
        return False
    # inputs are machine integers
    for a, v in env.assign.items():
        if isinstance(a, Atom) and a.sort == 'i' and not str(a.args[0]).startswith('str_'):
            if v >= 1 << 64 or not a.nn and not -(1 << 63) <= v < 1 << 63:
                return False
        elif isinstance(a, Atom) and a.kind == 'sym' and isinstance(v, (int, Fraction)) and abs(v) > DBLMAX:
            return False
    return True


SKIP = ('skip',)


class Concrete:
    """the value of an abstract value at a valuation; parts without one are skipped"""

    def __init__(self, env, names, okfree):
        self.env, self.names, self.okfree = env, names, okfree
        self.n = 0

    def term(self, x):
        for s in free_syms(x):
            if s not in self.names and not any(str(s.args[0]).startswith(o) for o in self.okfree):
                return SKIP
        v = self.env.value(x)
        if isinstance(v, bool):
            return v
        return SKIP if v != v or v in (float('inf'), float('-inf')) else v

    def go(self, x):
        self.n += 1
        if self.n > 3000:
            raise Undefined('size')
        if isinstance(x, TERM):
            return self.term(x)
        if isinstance(x, Choice):
            c = self.term(x.c)
            return SKIP if c is SKIP else self.go(x.a if c else x.b)
        if isinstance(x, Obj):
            return ('obj', x.cls, {k: self.go(v) for k, v in x.f.items()})
        if isinstance(x, Seq):
            out = self.segs(x.segs)
            return SKIP if out is None else ('seq', out)
        return SKIP

    def segs(self, segs):
        out = []
        for s in segs:
            if s[0] == 'e':
                out.append(self.go(s[1]))
            elif s[0] == 'c':
                c = self.term(s[1])
                if c is SKIP:
                    return None
                if c:
                    r = self.segs(s[2])
                    if r is None:
                        return None
                    out += r
            elif s[0] in 'rn':
                n = self.term(s[1])
                if n is SKIP:
                    return None
                if n > 64:
                    raise Undefined('length')
                for i in range(int(n)):
                    if s[0] == 'r':
                        out.append(self.go(vsubst(s[3], {s[2]: P(i)})))
                    else:
                        r = self.segs(segs_map(s[3], Subst({s[2]: P(i)})))
                        if r is None:
                            return None
                        out += r
            else:
                return None
        return out


def concrete_diff(a, b, path, exact=False):
    """path of a difference of two concrete values, or None"""
    if a is SKIP or b is SKIP:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[0] == 'obj' and b[0] == 'obj':
            if a[2].keys() != b[2].keys():
                return None
            for k in a[2]:
                r = concrete_diff(a[2][k], b[2][k], path + '.' + k, exact)
                if r:
                    return r
            return None
        if a[0] == 'seq' and b[0] == 'seq':
            if len(a[1]) != len(b[1]):
                return path + '.size()', len(a[1]), len(b[1])
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                r = concrete_diff(x, y, '%s[%d]' % (path, i), exact)
                if r:
                    return r
        return None
    if isinstance(a, tuple) or isinstance(b, tuple):
        return None
    if isinstance(a, bool) and isinstance(b, bool):
        return None if a == b else (path, a, b)
    if abs(a) >= 1 << 64 and abs(b) >= 1 << 64 and not isinstance(a, float) and not isinstance(b, float):
        return None
    if isinstance(a, float) or isinstance(b, float):
        if exact:
            return None if float(a) == float(b) or a != a and b != b else (path, float(a), float(b))
        d = abs(float(a) - float(b))
        return (path, float(a), float(b)) if d > 1e-6 * max(abs(float(a)), abs(float(b))) and d > 1e-9 else None
    return None if a == b else (path, a, b)


def certify_runs(r1, r2, facts, inputs, seed=1, okfree=('uninit',), budget=6.0, tries=None, strict=False, text=False, exact=False):
    """a valuation of the inputs satisfying the precondition at which the two outcomes differ"""
    import time
    t0 = time.time()
    names = {x for x in inputs} | {SelName(n) for n in SELS}
    order = list(facts.order) + solved(facts)
    g1, g2 = r1.throw_guard(), r2.throw_guard()
    cs = set()
    for l in order + list(g1.values()) + list(g2.values()):
        collect_consts(l, cs)
    collect_value_consts(r1.ret, cs)
    collect_value_consts(r2.ret, cs)
    cs = [c for c in cs if abs(c) < 10 ** 20]
    fs = set()
    for l in order:
        free_syms(l, fs)
    for a, v in facts.sub.items():
        free_syms(v, fs)
    if [x for x in fs if x not in names and not any(str(x.args[0]).startswith(o) for o in okfree)]:
        return None
    texts = text_consts() if text else ()
    terms_ = order + list(g1.values()) + list(g2.values())
    for r in (r1, r2):
        for v in [r.ret] + list(r.refs.values()):
            value_terms(v, terms_)
    pieces = break_pieces(terms_, 400)
    pre = set(break_pieces(order, 400))
    inner = [p for p in pieces if p not in pre]
    syms = sorted({a for p in pieces for a in free_syms(p) if isinstance(a, Atom) and a.kind == 'sym' and a not in facts.sub}, key=lambda a: a.id)
    if tries is None:
        tries = 40000 if strict else 3000
    if strict and has_fp(terms_, lambda x: x.kind in ('isinf', 'isnan')):
        strict = 'inf'
    for t in range(tries):
        if time.time() - t0 > budget:
            break
        env = Env('%s/w%d' % (seed, t), {}, consts=cs if t % 3 else (), wide=strict and t % 2, texts=texts)
        C = Concrete(env, names, okfree)
        try:
            if pieces and t % 4 == 2:
                env.assign.update(at_boundary('%s/w%d' % (seed, t), inner or pieces, syms, cs, order))
            if not satisfies(env, facts, order):
                continue
            th = []
            for g in (g1, g2):
                x = {k: C.term(v) for k, v in g.items()}
                if SKIP in x.values():
                    th = None
                    break
                th.append(sorted(k for k, v in x.items() if v))
            if th is None:
                continue
            if th[0] != th[1]:
                return env, ('throws', th[0], th[1])
            if th[0] or not r1.alive or not r2.alive:
                continue
            r = concrete_diff(C.go(r1.ret), C.go(r2.ret), 'result', exact)
            for n in r1.refs:
                r = r or concrete_diff(C.go(r1.refs[n]), C.go(r2.refs[n]), 'argument ' + n, exact)
            if r:
                return env, r
        except (Undefined, OverflowError, ZeroDivisionError, ValueError, RecursionError, TypeError):
            continue
    return None


def value_terms(v, out):
    """the terms in an abstract value"""
    if isinstance(v, TERM):
        out.append(v)
    elif isinstance(v, Obj):
        for x in v.f.values():
            value_terms(x, out)
    elif isinstance(v, Choice):
        out.append(v.c)
        value_terms(v.a, out)
        value_terms(v.b, out)
    elif isinstance(v, (tuple, list)):
        for x in v:
            value_terms(x, out)
    elif isinstance(v, Seq):
        value_terms(v.segs, out)


def collect_value_consts(v, out):
    if isinstance(v, TERM):
        collect_consts(v, out)
    elif isinstance(v, Obj):
        for x in v.f.values():
            collect_value_consts(x, out)
    elif isinstance(v, Choice):
        collect_consts(v.c, out)
        collect_value_consts(v.a, out)
        collect_value_consts(v.b, out)
    elif isinstance(v, Seq):
        for s in v.segs:
            for y in s[1:]:
                if isinstance(y, (TERM[0] if isinstance(TERM, tuple) else TERM, Obj, Choice, Seq)):
                    collect_value_consts(y, out)


def is_index(x):
    n = str(x.args[0])
    return n.startswith('idx!')


SELS = {'mtseed', 'mtseed32', 'mtseedseq', 'mtseedseq32', 'strtoull16', 'strtoull8', 'strtoull2', 'mtstate', 'filesize', 'filebyte', 'strtoull', 'strtoull0', 'strtod', 'mtparse', 'mtdraw', 'u01', 'strlen', 'readable', 'badstate', 'textop'}


def solved(facts):
    """the equations solved for a function of the symbols are conditions on them"""
    return [eq0(P(a) - v) for a, v in facts.sub.items() if isinstance(a, Atom) and a.kind in ('gcd', 'fdiv', 'tdiv') and isinstance(v, Poly)]


def sub_order(sub):
    """substitutions whose right hand sides only use unsubstituted symbols come in any order"""
    return sub.items()


def collect_consts(x, out, seen=None):
    seen = set() if seen is None else seen
    if isinstance(x, (Poly, B, Atom)):
        if x in seen:
            return
        seen.add(x)
    if isinstance(x, Poly):
        for m, c in x.t:
            if m == () and c.denominator == 1:
                out.add(int(c))
                out.add(-int(c))
            for a, e in m:
                collect_consts(a, out, seen)
    elif isinstance(x, (Atom, B)):
        if x.kind == 'narrow':
            out.add(1 << x.args[0])
            out.add(1 << (x.args[0] - 1))
        for y in x.args:
            collect_consts(y, out, seen)
    elif isinstance(x, tuple):
        for y in x:
            collect_consts(y, out, seen)


def show_env(env, inputs):
    out = []
    for a in sorted(env.assign, key=lambda a: str(a.args[0] if a.args else a)):
        if a in inputs:
            v = env.assign[a]
            if str(a.args[0]).startswith('str_') and v in TEXTS:
                v = repr(TEXTS[int(v)])
            out.append('%s=%s' % (a.args[0], v))
    for k, v in env.sel.items():
        out.append('%s(%s)=%s' % (k[0], ','.join(map(str, k[1:])), v))
    return '; '.join(out)
