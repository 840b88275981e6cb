"""Abstract interpreter over clang's typed AST.  Builds gated value graphs:
branches are joined with gates at their merge point, callees are inlined, loops
with a decided condition are unrolled and all others are summarised (loops.py).
No path is enumerated and nothing is executed or handed to a solver."""
import sys
from .values import *
from .prove import *
from .cast import *

sys.setrecursionlimit(40000)



def closed_root(p):
    # an irrational constant made of square roots: the only values of type float that are rounded (formulas over reals are compared as such)
    at = p.atoms()
    return bool(at) and all(a.kind == 'f32' and closed_root(a.args[0]) or a.kind == 'fn' and a.args[0] == 'sqrt' and (
        a.args[1].const() is not None or closed_root(a.args[1])) for a in at)


class State:
    __slots__ = ('cells', 'facts', 'guard', 'alive')

    def __init__(self, cells=None, facts=None, guard=TRUE):
        self.cells = cells if cells is not None else {}
        self.facts = facts or Facts()
        self.guard = guard
        self.alive = True

    def clone(self):
        s = State(dict(self.cells), self.facts, self.guard)
        s.alive = self.alive
        return s

    def take(self, o):
        self.cells, self.facts, self.guard, self.alive = o.cells, o.facts, o.guard, o.alive


def strip_common(g1, g2):
    """(C, A): g1 = C and A where C is shared with g2"""
    s1 = set(g1.args) if g1.kind == 'and' else ({g1} if g1.kind != 'T' else set())
    s2 = set(g2.args) if g2.kind == 'and' else ({g2} if g2.kind != 'T' else set())
    c = s1 & s2
    return and_(*c), and_(*(s1 - c)), and_(*(s2 - c))


def same_cells(a, b):
    return all(k not in a or a[k] is v or veq(a[k], v) for k, v in b.items())


def merge_states(a, b, base=None):
    if not a.alive:
        return b
    if not b.alive:
        return a
    C, ga, gb = strip_common(a.guard, b.guard)
    cond = ga
    r = State()
    if a.cells is b.cells:
        r.cells = a.cells
    else:
        d = dict(b.cells)
        for k, v in a.cells.items():
            w = d.get(k)
            if w is None:
                d[k] = v
            elif w is not v:
                d[k] = merge_val(cond, v, w)
        r.cells = d
    r.guard = and_(C, or_(ga, gb))
    if a.facts is b.facts:
        r.facts = a.facts
    else:
        f = base if base is not None else Facts()
        for l in a.facts.order:
            if l in b.facts.lits and l not in f.lits:
                f = f.add(l)
        r.facts = f
    return r


def merge_all(states, base=None):
    states = [s for s in states if s.alive]
    if not states:
        return None
    r = states[-1]
    for s in reversed(states[:-1]):
        r = merge_states(s, r, base)
    return r


class Frame:
    def __init__(self, fn, this=None, parent=None):
        self.fn = fn
        self.env = {} if parent is None else dict(parent)
        self.this = this
        self.rets = []
        self.brk = []
        self.cont = []


INTS = {
    'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
    'short': (16, True), 'unsigned short': (16, False),
    'int': (32, True), 'unsigned int': (32, False), 'unsigned': (32, False),
    'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
    'size_t': (64, False), 'std::size_t': (64, False), 'std::ptrdiff_t': (64, True), 'ptrdiff_t': (64, True),
    'int64_t': (64, True), 'uint64_t': (64, False), 'std::streamoff': (64, True), 'std::streamsize': (64, True),
    'std::int64_t': (64, True), 'std::uint64_t': (64, False), '__size_t': (64, False),
    'int32_t': (32, True), 'uint32_t': (32, False), 'std::uint_fast64_t': (64, False), 'uint_fast64_t': (64, False),
}
FLTS = ('double', 'float', 'long double')


class Interp:
    UNROLL = 600

    def __init__(self, ast, cfg=None):
        self.ast = ast
        self.cfg = cfg or {}
        self.fp = self.cfg.get('fp', False)
        # signed results are reduced to the range of their type
        self.wrap = self.cfg.get('wrap', False)
        self.argmin = self.cfg.get('argmin', False)
        self.ncell = 0
        self.throws = []
        self.depth = 0
        self.enums = {}
        self.trace = []          # analysed functions: name, file, line
        self.seen_fn = {}
        self.steps = 0
        self.maxsteps = self.cfg.get('maxsteps', 400000)
        self.globals = {}
        self.cur = None
        self.nloops = 0
        self.sums = 0
        self.unknowns = 0

    # ------------------------------------------------------------ types
    def kind(self, t):
        t = bare(t)
        if t in INTS:
            return ('int',) + INTS[t]
        if t == 'bool':
            return ('bool', 1, False)
        if t in FLTS:
            return ('flt', t, True)
        if t.endswith('*'):
            return ('ptr', 0, 0)
        if t in ('std::nullptr_t', 'nullptr_t'):
            return ('ptr', 0, 0)
        e = self.enum_of(t)
        if e is not None:
            return ('int',) + e
        return ('obj', t, None)

    def enum_of(self, t):
        if not self.enums:
            for i, n in self.ast.decl.items():
                if n.get('kind') == 'EnumDecl':
                    u = (n.get('fixedUnderlyingType') or {})
                    ut = bare(u.get('desugaredQualType') or u.get('qualType') or 'int')
                    self.enums[norm_type(n.get('_q', '?'))] = (INTS.get(ut, (32, True)), n)
            self.enums[''] = ((32, True), None)
        e = self.enums.get(t)
        if e is None:
            if t in ('std::_Ios_Openmode', 'std::_Ios_Seekdir', 'std::_Ios_Iostate', 'std::ios_base::openmode', 'std::ios_base::iostate', 'std::ios_base::seekdir'):
                return (32, True)
            return None
        return e[0]

    # ------------------------------------------------------------ cells
    def new_cell(self, st, v):
        self.ncell += 1
        st.cells[self.ncell] = v
        return Ref(self.ncell)

    def read(self, st, r):
        if isinstance(r, CondRef):
            return merge_val(r.c, self.read(st, r.a), self.read(st, r.b))
        if isinstance(r, Iter):
            return self.read(st, self.deref(st, r))
        if not isinstance(r, Ref):
            return r
        v = st.cells.get(r.cell)
        if v is None:
            raise Unsupported('read of a dead object')
        for p in r.path:
            v = self.getp(st, v, p)
        return v

    def getp(self, st, v, p):
        if isinstance(v, Choice):
            return merge_val(v.c, self.getp(st, v.a, p), self.getp(st, v.b, p))
        k, x = p
        if k == 'f':
            if isinstance(v, Obj):
                if x not in v.f:
                    raise Unsupported('field %s of %s' % (x, v.cls))
                return v.f[x]
            raise Unsupported('field %s of %s' % (x, type(v).__name__))
        if k == 'i':
            return self.index(st, v, x)
        if k == 'm':
            return v.items[x][1]
        if k == 'k':
            return v.items[x][0]
        if k == 'mapitem':
            return Obj('std::pair', {'first': v.items[x][0], 'second': v.items[x][1]})
        raise Unsupported('path')

    def index(self, st, v, i):
        if isinstance(v, Choice):
            return merge_val(v.c, self.index(st, v.a, i), self.index(st, v.b, i))
        if isinstance(v, Seq):
            i = st.facts.simp(i) if i.const() is None else i
            c = i.const()
            n = 0
            segs = v.segs
            if c is not None and c.denominator == 1:
                for s in segs:
                    if s[0] == 'e':
                        if n == c:
                            return s[1]
                        n += 1
                    else:
                        break
                else:
                    self.oob(st, i)
                    raise Unsupported('index %s outside a container of %d elements' % (c, n))
                if n > c >= 0:
                    pass
                if c < n:
                    raise Unsupported('negative index')
            return self.index_segs(st, segs, i)
        if isinstance(v, Str):
            t = v.lit()
            c = i.const()
            if t is not None and c is not None and 0 <= c < len(t):
                return P(ord(t[int(c)]))
        raise Unsupported('index into %s' % type(v).__name__)

    def oob(self, st, i):
        pass

    def instantiate(self, st, i):
        """facts quantified over the positions of a container, at position i"""
        if i.const() is None and any(a.kind == 'bound' for a in i.atoms()):
            return
        for l in st.facts.order:
            if l.kind == 'not' and l.args[0].kind == 'any':
                q = l.args[0]
                if (q, i) in st.facts.inst:
                    continue
                if st.facts.decide(ge0(q.args[1] - 1 - i)) is True and st.facts.decide(ge0(i)) is True:
                    (body,) = open_binder((q.args[0],), (q.args[2],), (i,))
                    inst = st.facts.inst
                    st.facts = st.facts.add(not_(body))
                    st.facts.inst = inst | {(q, i)}

    def index_segs(self, st, segs, i):
        if not segs:
            raise Unsupported('symbolic index into an empty container')
        if all(s[0] == 'e' for s in segs):
            n = len(segs)
            cand = []
            for j, s in enumerate(segs):
                d = st.facts.decide(eq0(i - j))
                if d is True:
                    return s[1]
                if d is None:
                    cand.append((j, s[1]))
            if not cand:
                raise Unsupported('index out of range')
            r = cand[-1][1]
            for j, x in reversed(cand[:-1]):
                r = merge_val(eq0(i - j), x, r)
            return r
        if len(segs) == 1 and segs[0][0] == 'r':
            s = segs[0]
            self.instantiate(st, i)
            r = vsubst(s[3], {s[2]: i})
            return vmap(r, st.facts.simp)
        # general: walk over the segments
        parts = []

        def walk(segs, off, g):
            for s in segs:
                if s[0] == 'e':
                    parts.append((and_(g, eq0(i - off)), s[1]))
                    off = off + 1
                elif s[0] == 'r':
                    # position within this block
                    inside = and_(g, ge0(i - off), ge0(off + s[1] - 1 - i))
                    parts.append((inside, vsubst(s[3], {s[2]: i - off})))
                    off = off + s[1]
                elif s[0] == 'c':
                    end = walk(s[2], off, and_(g, s[1]))
                    off = off + ite(s[1], end - off, ZERO)
                else:
                    raise Unsupported('index into a container of irregular shape')
            return off
        walk(segs, ZERO, TRUE)
        live = []
        for c, v in parts:
            c = st.facts.simp(c)
            if c.kind == 'T':
                return vmap(v, st.facts.simp)
            if c.kind != 'F':
                live.append((c, v))
        if not live:
            raise Unsupported('index out of range')
        r = live[-1][1]
        for c, v in reversed(live[:-1]):
            r = merge_val(c, v, r)
        return r

    def write(self, st, r, v):
        if isinstance(r, CondRef):
            old = self.read(st, r.a)
            self.write(st, r.a, merge_val(r.c, v, old))
            old = self.read(st, r.b)
            self.write(st, r.b, merge_val(r.c, old, v))
            return
        if isinstance(r, Iter):
            r = self.deref(st, r)
        if not isinstance(r, Ref):
            raise Unsupported('write to a non-object')
        if r.cell not in st.cells:
            raise Unsupported('write to a dead object')
        st.cells[r.cell] = self.setp(st, st.cells[r.cell], r.path, v)

    def setp(self, st, v, path, x):
        if not path:
            return x
        k, p = path[0]
        rest = path[1:]
        if isinstance(v, Choice):
            return Choice(v.c, self.setp(st, v.a, path, x), self.setp(st, v.b, path, x))
        if k == 'f':
            if not isinstance(v, Obj):
                raise Unsupported('field write')
            return v.set(p, self.setp(st, v.f.get(p), rest, x) if rest else x)
        if k == 'm':
            it = list(v.items)
            it[p] = (it[p][0], self.setp(st, it[p][1], rest, x) if rest else x)
            return Map(it, v.kt, v.vt)
        if k == 'i':
            if not isinstance(v, Seq):
                raise Unsupported('index write into %s' % type(v).__name__)
            p = st.facts.simp(p) if p.const() is None else p
            c = p.const()
            segs = list(v.segs)
            if c is not None:
                for j, s in enumerate(segs):
                    if s[0] != 'e':
                        break
                    if j == c:
                        segs[j] = ('e', self.setp(st, s[1], rest, x) if rest else x)
                        return Seq(segs, v.et)
                else:
                    raise Unsupported('write at index %s outside a container of %d elements' % (c, len(segs)))
            if all(s[0] == 'e' for s in segs):
                for j, s in enumerate(segs):
                    d = st.facts.decide(eq0(p - j))
                    if d is False:
                        continue
                    nv = self.setp(st, s[1], rest, x) if rest else x
                    if d is True:
                        segs[j] = ('e', nv)
                        break
                    segs[j] = ('e', merge_val(eq0(p - j), nv, s[1]))
                return Seq(segs, v.et)
            if len(segs) == 1 and segs[0][0] == 'r':
                s = segs[0]
                k2 = fresh('k', 'i', True)
                body = vsubst(s[3], {s[2]: P(k2)})
                nv = self.setp(st, body, rest, x) if rest else x
                return Seq([('r', s[1], k2, merge_val(eq0(P(k2) - p), nv, body))], v.et)

            def walk(segs, off):
                out = []
                for s in segs:
                    if s[0] == 'e':
                        nv = self.setp(st, s[1], rest, x) if rest else x
                        out.append(('e', merge_val(st.facts.simp(eq0(p - off)), nv, s[1])))
                        off = off + 1
                    elif s[0] == 'r':
                        k2 = fresh('k', 'i', True)
                        body = vsubst(s[3], {s[2]: P(k2)})
                        nv = self.setp(st, body, rest, x) if rest else x
                        out.append(('r', s[1], k2, merge_val(eq0(off + P(k2) - p), nv, body)))
                        off = off + s[1]
                    elif s[0] == 'c':
                        o2, end = walk(s[2], off)
                        out.append(('c', s[1], tuple(o2)))
                        off = off + ite(s[1], end - off, ZERO)
                    else:
                        raise Unsupported('write into a container of irregular shape')
                return out, off
            return Seq(walk(segs, ZERO)[0], v.et)
        raise Unsupported('path write')

    def deref(self, st, it):
        if isinstance(it, CondRef):
            return CondRef(it.c, self.deref(st, it.a), self.deref(st, it.b))
        if isinstance(it, Iter):
            c = self.read(st, it.ref)
            if isinstance(c, Map):
                k = it.pos.const()
                if k is None:
                    out = None
                    for j in reversed(range(len(c.items))):
                        cond = st.facts.simp(eq0(it.pos - j))
                        r = Ref(it.ref.cell, it.ref.path + (('mapitem', j),))
                        if cond.kind == 'T':
                            return r
                        if cond.kind != 'F':
                            out = r if out is None else CondRef(cond, r, out)
                    if out is None:
                        raise Unsupported('map iterator')
                    return out
                if not 0 <= k < len(c.items):
                    raise Unsupported('dereference of an end iterator')
                return Ref(it.ref.cell, it.ref.path + (('mapitem', int(k)),))
            pos = it.pos
            if it.rev:
                pos = slen(c.segs) - 1 - pos
            return Ref(it.ref.cell, it.ref.path + (('i', pos),))
        if isinstance(it, Ref):
            return it
        raise Unsupported('dereference of %s' % type(it).__name__)

    # ------------------------------------------------------------ control
    def fork(self, st, c):
        a, b = st.clone(), st.clone()
        a.guard = and_(st.guard, c)
        b.guard = and_(st.guard, not_(c))
        a.facts = st.facts.add(c)
        b.facts = st.facts.add(not_(c))
        a.alive = not a.facts.bad
        b.alive = not b.facts.bad
        return a, b

    def simp(self, st, x):
        return st.facts.simp(x) if isinstance(x, TERM) else x

    def where(self, n):
        return '%s:%s' % n.get('_loc', ('?', 0)) if n else '?'

    def tick(self, n):
        self.steps += 1
        self.cur = n
        if self.steps > self.maxsteps:
            raise Unsupported('analysis budget')

    # ------------------------------------------------------------ statements
    def stmts(self, nodes, st, fr):
        for n in nodes:
            if not st.alive:
                return
            self.stmt(n, st, fr)

    def stmt(self, n, st, fr):
        k = n.get('kind')
        self.tick(n)
        if k is None or k == 'NullStmt':
            return
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n, st, fr)
        self.ev(n, st, fr)

    def inner(self, n):
        return n.get('inner') or []

    def s_CompoundStmt(self, n, st, fr):
        self.stmts(self.inner(n), st, fr)

    def s_AttributedStmt(self, n, st, fr):
        self.stmt(self.inner(n)[-1], st, fr)

    def s_DeclStmt(self, n, st, fr):
        for d in self.inner(n):
            if d.get('kind') == 'VarDecl':
                self.var(d, st, fr)
            elif d.get('kind') == 'DecompositionDecl':
                self.decomp(d, st, fr)
            elif d.get('kind') in ('TypedefDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'UsingDecl', 'UsingDirectiveDecl', 'CXXRecordDecl', 'EmptyDecl'):
                pass
            else:
                raise Unsupported(d.get('kind'))
            if not st.alive:
                return

    def var(self, d, st, fr):
        t = qt(d)
        init = [c for c in self.inner(d) if c.get('kind') and not c['kind'].endswith('Attr') and not c['kind'].endswith('Comment')]
        isref = norm_type(t).endswith('&')
        if d.get('storageClass') == 'static' and not d.get('constexpr') and not t.startswith('const'):
            raise Unsupported('static local variable')
        if not init:
            v = self.default(t, st, fr, uninit=True)
            fr.env[d['id']] = self.new_cell(st, v)
            return
        v = self.ev(init[0], st, fr)
        if not st.alive:
            return
        if isref:
            if not isinstance(v, (Ref, CondRef)):
                v = self.new_cell(st, v)
            fr.env[d['id']] = v
        else:
            fr.env[d['id']] = self.new_cell(st, self.load(st, v))

    def load(self, st, v):
        if isinstance(v, (Ref, CondRef)):
            return self.read2(st, v)
        return v

    def read2(self, st, r):
        """read, also through map items"""
        if isinstance(r, CondRef):
            return merge_val(r.c, self.read2(st, r.a), self.read2(st, r.b))
        if r.path and r.path[-1][0] == 'mapitem':
            m = self.read(st, Ref(r.cell, r.path[:-1]))
            k, v = m.items[r.path[-1][1]]
            return Obj('std::pair', {'first': k, 'second': v})
        return self.read(st, r)

    def load_keep(self, st, v):
        return v

    def decomp(self, d, st, fr):
        inner = self.inner(d)
        binds = [c for c in inner if c.get('kind') == 'BindingDecl']
        init = [c for c in inner if c.get('kind') and c['kind'] != 'BindingDecl' and not c['kind'].endswith('Attr')]
        v = self.ev(init[0], st, fr)
        if not st.alive:
            return
        if norm_type(qt(d)).endswith('&') and isinstance(v, (Ref, CondRef)):
            r = v
        else:
            r = self.new_cell(st, self.load(st, v))
        val = self.read2(st, r)
        if isinstance(val, Obj):
            keys = list(val.f)
            for b, k in zip(binds, keys):
                fr.env[b['id']] = self.fieldref(r, k)
        elif isinstance(val, Seq):
            for i, b in enumerate(binds):
                fr.env[b['id']] = self.subref(r, ('i', P(i)))
        else:
            raise Unsupported('structured binding')

    def fieldref(self, r, name):
        if isinstance(r, CondRef):
            return CondRef(r.c, self.fieldref(r.a, name), self.fieldref(r.b, name))
        if r.path and r.path[-1][0] == 'mapitem':
            j = r.path[-1][1]
            return Ref(r.cell, r.path[:-1] + (('m' if name == 'second' else 'k', j),))
        return r.sub(('f', name))

    def subref(self, r, p):
        if isinstance(r, CondRef):
            return CondRef(r.c, self.subref(r.a, p), self.subref(r.b, p))
        return r.sub(p)

    def s_ReturnStmt(self, n, st, fr):
        inner = self.inner(n)
        v = VOID
        if inner and inner[0].get('kind'):
            v = self.ev(inner[0], st, fr)
            if not st.alive:
                return
            if not fr.retref:
                v = self.load(st, v)
            elif not isinstance(v, (Ref, CondRef)):
                v = self.new_cell(st, v)
        s = st.clone()
        fr.rets.append((s, v))
        st.alive = False

    def s_IfStmt(self, n, st, fr):
        inner = [c for c in self.inner(n)]
        i = 0
        if n.get('hasInit'):
            self.stmt(inner[i], st, fr)
            i += 1
        if n.get('hasVar'):
            self.stmt(inner[i], st, fr)
            i += 1
        if n.get('isConstexpr'):
            pass
        c = self.cond(inner[i], st, fr)
        then = inner[i + 1]
        els = inner[i + 2] if n.get('hasElse') else None
        if not st.alive:
            return
        self.branch(c, st, lambda s: self.stmt(then, s, fr), (lambda s: self.stmt(els, s, fr)) if els else None)

    def branch(self, c, st, tf, ef):
        if c.kind == 'T':
            tf(st)
            return
        if c.kind == 'F':
            if ef:
                ef(st)
            return
        base = st.facts
        a, b = self.fork(st, c)
        if not a.alive:
            st.facts = b.facts
            if ef:
                ef(st)
            return
        if not b.alive:
            st.facts = a.facts
            tf(st)
            return
        tf(a)
        if ef:
            ef(b)
        if not a.alive and not b.alive:
            st.alive = False
            return
        if self.argmin and a.alive and b.alive:
            m = self.argmin_merge(c, a, b, base)
            if m is not None:
                st.take(m)
                return
        st.take(merge_states(a, b, base))

    def argmin_merge(self, c, a, b, base):
        """joins of `if (key < best) { best = key; payload = ... }`: the payload
        is selected by the minimum (ties left open)"""
        mins = None

        def leaves(v, w):
            if v is w:
                return
            if isinstance(v, Poly) and isinstance(w, Poly):
                yield v, w
            elif isinstance(v, Obj) and isinstance(w, Obj) and v.f.keys() == w.f.keys():
                for k, x in v.f.items():
                    yield from leaves(x, w.f[k])
        for k, v in a.cells.items():
            for v, w in leaves(v, b.cells.get(k)):
                if v.sort != 'r' or w.sort != 'r':
                    continue
                m = mite(c, v, w)
                at = m.single_atom()
                s = sqrt_arg(m)
                if s is not None:
                    at = s.single_atom()
                if m is ZERO or at is not None and at.kind == 'min':
                    mins = (v, w)
                    break
            if mins:
                break
        if mins is None:
            return None
        ka, kb = mins

        def keys(k):
            s = sqrt_arg(k)
            if s is not None:
                k = s
            at = k.single_atom()
            ks = list(at.args[0]) if at is not None and at.kind == 'min' else [k]
            if s is None:
                q = [sqrt_arg(x) if x.const() != 0 else x for x in ks]
                if all(x is not None for x in q):
                    return q, True
            return ks, s is not None

        def pay(v, k):
            ks, _ = keys(k)
            at = v.single_atom()
            if at is not None and at.kind == 'argsel' and {x for x, _ in at.args[0]} == set(ks):
                return list(at.args[0])
            if len(ks) == 1:
                return [(ks[0], v)]
            if at is None or at.kind != 'argsel':
                # the same payload for every key
                return [(x, v) for x in ks]
            return None

        def mv(v, w):
            if v is w:
                return v
            if isinstance(v, Poly) and isinstance(w, Poly):
                if (v, w) == (ka, kb):
                    return mite(c, v, w)
                if v.sort == 'r' or w.sort == 'r':
                    p, q = pay(v, ka), pay(w, kb)
                    if p is not None and q is not None:
                        return argsel(p + q)
                return mite(c, v, w)
            if isinstance(v, Obj) and isinstance(w, Obj) and v.f.keys() == w.f.keys():
                return Obj(v.cls, {k: mv(x, w.f[k]) for k, x in v.f.items()})
            if isinstance(v, Seq) and isinstance(w, Seq) and v.concrete() and w.concrete() and len(v.segs) == len(w.segs):
                return Seq([('e', mv(x[1], y[1])) for x, y in zip(v.segs, w.segs)], v.et)
            return merge_val(c, v, w)
        r = merge_states(a, b, base)
        d = dict(b.cells)
        for k, v in a.cells.items():
            w = d.get(k)
            d[k] = v if w is None else mv(v, w)
        r.cells = d
        return r

    def cond(self, n, st, fr):
        if n.get('kind') == 'DeclStmt':
            self.stmt(n, st, fr)
            d = self.inner(n)[0]
            v = self.read(st, fr.env[d['id']])
            return self.tobool(st, v)
        v = self.rv(n, st, fr)
        if not st.alive:
            return FALSE
        b = self.tobool(st, v)
        x = n
        while x.get('kind') in ('ParenExpr', 'ExprWithCleanups', 'ImplicitCastExpr') and self.inner(x):
            x = self.inner(x)[0]
        if b.kind != 'T' or x.get('opcode') not in ('&&', '||') or self.raw is None:
            self.raw = b
        return st.facts.simp(b)

    def tobool(self, st, v):
        if isinstance(v, B):
            return v
        if isinstance(v, Poly):
            return not_(eq0(self.normu(st, v)))
        if isinstance(v, Obj) and 'fail' in v.f:
            return not_(v.f['fail'])
        raise Unsupported('condition of type %s' % type(v).__name__)

    def s_SwitchStmt(self, n, st, fr):
        inner = self.inner(n)
        i = 0
        if n.get('hasInit'):
            self.stmt(inner[i], st, fr)
            i += 1
        v = P(self.rv(inner[i], st, fr))
        body = inner[-1]
        if not st.alive:
            return
        # flatten labels
        items = []

        def flat(x):
            if x.get('kind') in ('CaseStmt', 'DefaultStmt'):
                xs = self.inner(x)
                if x['kind'] == 'CaseStmt':
                    if len(xs) > 2:
                        raise Unsupported('case range')
                    items.append(('case', xs[0]))
                else:
                    items.append(('default', None))
                flat(xs[-1])
            else:
                items.append(('stmt', x))
        for x in self.inner(body):
            flat(x)
        # entry conditions
        conds = []
        neg = TRUE
        for it in items:
            if it[0] == 'case':
                c = eq0(v - P(self.rv(it[1], st.clone(), fr)))
                conds.append((it, c))
                neg = and_(neg, not_(c))
        cmap = {id(it): c for it, c in conds}
        base = st.facts
        ob, fr.brk = fr.brk, []
        cur = st.clone()
        cur.alive = False
        taken = FALSE
        for it in items:
            if it[0] in ('case', 'default'):
                c = cmap[id(it)] if it[0] == 'case' else neg
                c = st.facts.simp(c)
                if c.kind == 'F':
                    continue
                e, _ = self.fork(st, c)
                if not e.alive:
                    continue
                cur = merge_all([cur, e], base) if cur.alive else e
            elif cur.alive:
                self.stmt(it[1], cur, fr)
        outs = fr.brk + ([cur] if cur.alive else [])
        if not any(it[0] == 'default' for it in items):
            e, _ = self.fork(st, st.facts.simp(neg))
            if e.alive and st.facts.simp(neg).kind != 'F':
                outs.append(e)
        fr.brk = ob
        r = merge_all(outs, base)
        if r is None:
            st.alive = False
        else:
            st.take(r)

    def s_BreakStmt(self, n, st, fr):
        fr.brk.append(st.clone())
        st.alive = False

    def s_ContinueStmt(self, n, st, fr):
        fr.cont.append(st.clone())
        st.alive = False

    def s_ForStmt(self, n, st, fr):
        inner = self.inner(n)
        init, cvar, cnd, inc, body = (inner + [{}] * 5)[:5]
        if init.get('kind'):
            self.stmt(init, st, fr)
        self.loop(n, st, fr, (lambda s: self.cond(cnd, s, fr)) if cnd.get('kind') else (lambda s: TRUE),
                  lambda s: self.stmt(body, s, fr), (lambda s: self.ev(inc, s, fr)) if inc.get('kind') else (lambda s: None))

    def s_WhileStmt(self, n, st, fr):
        inner = self.inner(n)
        if n.get('hasVar'):
            raise Unsupported('declaration in a while condition')
        cnd, body = inner[-2], inner[-1]
        self.loop(n, st, fr, lambda s: self.cond(cnd, s, fr), lambda s: self.stmt(body, s, fr), lambda s: None)

    def s_DoStmt(self, n, st, fr):
        body, cnd = self.inner(n)[:2]
        self.loop(n, st, fr, lambda s: self.cond(cnd, s, fr), lambda s: self.stmt(body, s, fr), lambda s: None, True)

    def s_CXXForRangeStmt(self, n, st, fr):
        inner = self.inner(n)
        decls = [c for c in inner if c.get('kind') == 'DeclStmt']
        initst = None
        rng = None
        for c in decls:
            d = self.inner(c)[0]
            if d.get('name') == '__range1' or (d.get('name') or '').startswith('__range'):
                rng = d
            elif not (d.get('name') or '').startswith('__') and c is decls[0]:
                initst = c
        if initst is not None and rng is not None and initst is not decls[-1]:
            self.stmt(initst, st, fr)
        var = self.inner(decls[-1])[0]
        body = inner[-1]
        v = self.ev(self.inner(rng)[0], st, fr)
        if not st.alive:
            return
        if not isinstance(v, (Ref, CondRef)):
            v = self.new_cell(st, v)
        if isinstance(v, CondRef):
            raise Unsupported('range over a conditional object')
        cont = self.read(st, v)
        if isinstance(cont, Obj):
            # user-defined begin/end
            return self.range_user(n, v, var, body, st, fr)
        m = None
        if isinstance(cont, Str):
            from .models import char_map

            def chars(s, r):
                self.bind(var, r, s, fr)
                if s.alive:
                    self.stmt(body, s, fr)
            self.write(st, v, char_map(self, st, cont, chars))
            return
        if isinstance(cont, Map):
            cnt = P(len(cont.items))
        elif isinstance(cont, Seq):
            cnt = slen(cont.segs)
        else:
            raise Unsupported('range over %s' % type(cont).__name__)

        def step(s, i):
            r = self.deref(s, Iter(v, i))
            self.bind(var, r, s, fr)
            if s.alive:
                self.stmt(body, s, fr)
        self.count_loop(n, st, fr, cnt, step)

    def bind(self, var, r, st, fr):
        """loop variable of a range-for (value, reference or binding)"""
        t = norm_type(qt(var))
        if var.get('kind') == 'DecompositionDecl':
            binds = [c for c in self.inner(var) if c.get('kind') == 'BindingDecl']
            if not t.endswith('&'):
                r = self.new_cell(st, self.read2(st, r))
            val = self.read2(st, r)
            for b, k in zip(binds, list(val.f)):
                fr.env[b['id']] = self.fieldref(r, k)
            return
        if t.endswith('&'):
            # a reference to another type is a converted temporary
            fr.env[var['id']] = r
            return
        v = self.read2(st, r)
        # conversion from the element type
        init = [c for c in self.inner(var) if c.get('kind')]
        v = self.conv_chain(init[0] if init else None, v, st)
        fr.env[var['id']] = self.new_cell(st, v)

    def conv_chain(self, n, v, st):
        """apply the implicit conversions of a loop variable's initialiser"""
        if n is None or not isinstance(v, TERM):
            return v
        chain = []
        while n.get('kind') in ('ImplicitCastExpr', 'ExprWithCleanups', 'ParenExpr'):
            chain.append(n)
            n = self.inner(n)[0]
        for c in reversed(chain):
            if c['kind'] == 'ImplicitCastExpr' and c.get('castKind') not in ('LValueToRValue', 'NoOp'):
                v = self.cast(c.get('castKind'), v, qt(self.inner(c)[0]), qt(c), st)
        return v

    def range_user(self, n, v, var, body, st, fr):
        obj = self.read(st, v)
        b = self.call_method(v, 'begin', [], st, fr)
        e = self.call_method(v, 'end', [], st, fr)
        rb, re_ = self.new_cell(st, self.load(st, b)), self.new_cell(st, self.load(st, e))

        def cnd(s):
            x = self.call_operator('operator!=', [rb, re_], s, fr)
            return s.facts.simp(self.tobool(s, x))

        def bd(s):
            x = self.call_operator('operator*', [rb], s, fr)
            if norm_type(qt(var)).endswith('&'):
                if not isinstance(x, (Ref, CondRef)):
                    x = self.new_cell(s, x)
                fr.env[var['id']] = x
            else:
                fr.env[var['id']] = self.new_cell(s, self.load(s, x))
            self.stmt(body, s, fr)

        def inc(s):
            self.call_operator('operator++', [rb], s, fr)
        self.loop(n, st, fr, cnd, bd, inc)

    def count_loop(self, n, st, fr, cnt, step):
        """loop with iteration variable 0..cnt-1"""
        i = self.new_cell(st, ZERO)

        def cnd(s):
            self.raw = ge0(cnt - 1 - self.read(s, i))
            return s.facts.simp(self.raw)

        def bd(s):
            step(s, self.read(s, i))

        def inc(s):
            self.write(s, i, self.read(s, i) + 1)
        self.loop(n, st, fr, cnd, bd, inc)

    def loop(self, n, st, fr, condf, bodyf, incf, first=False):
        from .loops import summarise
        ob, oc = fr.brk, fr.cont
        fr.brk = []
        base = st.facts
        breaks = []
        it = 0
        self.nloops += 1
        tried = False
        forks = 0
        done = []
        early = False

        def again(b):
            # the summary evaluates the condition itself: undo what it did to the state
            if b[0].cells is not st.cells and not same_cells(b[0].cells, st.cells):
                st.take(b[0].clone())
                del self.throws[b[1]:]
        while st.alive:
            if not (first and it == 0):
                self.raw = None
                before = (st.clone(), len(self.throws))
                c = condf(st)
                if not st.alive:
                    break
                if c.kind == 'F':
                    break
                if c.kind == 'T' and self.raw is not None and self.raw.kind != 'T' and not early:
                    # true only by the facts: summarise from the first iteration on
                    early = True
                    snap = (st.clone(), list(self.throws), len(fr.rets), len(breaks))
                    try:
                        fr.brk, fr.cont = [], []
                        again(before)
                        summarise(self, n, st, fr, condf, bodyf, incf, breaks, True)
                        self.sums += 1
                        break
                    except Unsupported as ex:
                        why = ex
                        st.take(snap[0])
                        self.throws[:] = snap[1]
                        del fr.rets[snap[2]:]
                        del breaks[snap[3]:]
                    finally:
                        fr.brk = []
                if c.kind != 'T':
                    if not tried:
                        tried = True
                        snap = (st.clone(), list(self.throws), len(fr.rets))
                        try:
                            fr.brk, fr.cont = [], []
                            again(before)
                            summarise(self, n, st, fr, condf, bodyf, incf, breaks)
                            self.sums += 1
                            break
                        except Unsupported as ex:
                            why = ex
                            st.take(snap[0])
                            self.throws[:] = snap[1]
                            del fr.rets[snap[2]:]
                        finally:
                            fr.brk = []
                    forks += 1
                    if forks > self.cfg.get('forks', 40):
                        raise Unsupported('loop at %s: %s' % (self.where(n), why))
                    a, b = self.fork(st, c)
                    if b.alive:
                        done.append(b)
                    st.take(a)
                    if not st.alive:
                        break
            fr.cont = []
            bodyf(st)
            if fr.cont:
                r = merge_all(fr.cont + ([st] if st.alive else []), base)
                if r is not None:
                    st.take(r)
            breaks += fr.brk
            fr.brk = []
            if st.alive:
                incf(st)
            it += 1
            if it > self.UNROLL:
                raise Unsupported('loop at %s runs too long' % self.where(n))
        fr.brk, fr.cont = ob, oc
        outs = breaks + done + ([st.clone()] if st.alive else [])
        r = merge_all(outs, base)
        if r is None:
            st.alive = False
        elif len(outs) > 1 or not st.alive:
            st.take(r)

    def s_CXXTryStmt(self, n, st, fr):
        inner = self.inner(n)
        old = self.throws
        self.throws = []
        base = st.facts
        entry = st.clone()
        self.stmt(inner[0], st, fr)
        mine, self.throws = self.throws, old
        outs = [st.clone()] if st.alive else []
        for h in inner[1:]:
            hi = self.inner(h)
            decl = hi[0] if len(hi) > 1 and hi[0].get('kind') == 'VarDecl' else None
            body = hi[-1]
            rest = []
            for (ts, ty, val) in mine:
                if decl is None or self.catches(bare(qt(decl)), ty):
                    s = ts
                    if decl is not None:
                        fr.env[decl['id']] = self.new_cell(s, val)
                    self.stmt(body, s, fr)
                    if s.alive:
                        outs.append(s)
                else:
                    rest.append((ts, ty, val))
            mine = rest
        self.throws += mine
        r = merge_all(outs, base)
        if r is None:
            st.alive = False
        else:
            st.take(r)

    def catches(self, decl, ty):
        if decl == ty or decl == 'std::exception' or ('::' not in decl and ty.split('::')[-1] == decl):
            return True
        rec = self.ast.record(ty)
        while rec is not None:
            bs = rec.get('bases') or []
            nxt = None
            for b in bs:
                bt = bare(b['type'].get('desugaredQualType') or b['type']['qualType'])
                if bt == decl:
                    return True
                nxt = self.ast.record(bt)
            rec = nxt
        std = {'std::out_of_range': ('std::logic_error',), 'std::invalid_argument': ('std::logic_error',), 'std::runtime_error': (), 'std::overflow_error': ('std::runtime_error',)}
        return decl in std.get(ty, ())

    # ------------------------------------------------------------ expressions
    def rv(self, n, st, fr):
        return self.load(st, self.ev(n, st, fr))

    def ev(self, n, st, fr):
        k = n.get('kind')
        self.tick(n)
        m = getattr(self, 'e_' + (k or ''), None)
        if m is None:
            raise Unsupported('expression %s at %s' % (k, self.where(n)))
        return m(n, st, fr)

    def _first(self, n, st, fr):
        return self.ev(self.inner(n)[0], st, fr)

    e_ParenExpr = _first
    e_ExprWithCleanups = _first
    e_CXXBindTemporaryExpr = _first
    e_ConstantExpr = _first
    e_SubstNonTypeTemplateParmExpr = lambda self, n, st, fr: self.ev(self.inner(n)[-1], st, fr)
    e_CXXStdInitializerListExpr = _first

    def e_MaterializeTemporaryExpr(self, n, st, fr):
        v = self.ev(self.inner(n)[0], st, fr)
        if isinstance(v, (Ref, CondRef)):
            return v
        if not st.alive:
            return v
        return self.new_cell(st, v)

    def e_IntegerLiteral(self, n, st, fr):
        return P(int(n['value']))

    def e_CharacterLiteral(self, n, st, fr):
        v = int(n['value'])
        return P(v - 256 if v > 127 else v)

    def e_CXXBoolLiteralExpr(self, n, st, fr):
        return Bc(n['value'] in (True, 'true'))

    def e_FloatingLiteral(self, n, st, fr):
        s = n['value']
        return self.fconst(float(s), s)

    def fconst(self, x, s=None):
        import math
        if x == math.pi:
            return P(PI)
        if x == math.e:
            return exp_(ONE)
        if x == math.pi / 2:
            return P(PI) * Fr(1, 2)
        if x == 2 * math.pi:
            return P(PI) * 2
        if x != x:
            return P(NAN)
        if s is not None:
            try:
                f = Fr(s)
                if float(f) == x:
                    return P(f)
            except ValueError:
                pass
        return P(Fr(x))

    def e_StringLiteral(self, n, st, fr):
        import ast as pyast
        s = n['value']
        i = s.find('"')
        try:
            t = pyast.literal_eval(s[i:])
        except Exception:
            t = s[i + 1:-1]
        return Str([('lit', t)])

    def e_CXXNullPtrLiteralExpr(self, n, st, fr):
        return Opaque('nullptr')

    def e_CXXThisExpr(self, n, st, fr):
        if fr.this is None:
            raise Unsupported('this')
        return Iter(fr.this, ZERO) if False else PtrTo(fr.this)

    def e_ImplicitValueInitExpr(self, n, st, fr):
        return self.default(qt(n), st, fr)

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_UnaryExprOrTypeTraitExpr(self, n, st, fr):
        if n.get('name') != 'sizeof':
            raise Unsupported(str(n.get('name')))
        t = n.get('argType')
        if t is None:
            op = [c for c in n.get('inner') or [] if c.get('kind')]
            t = op[0].get('type') if op else None
        t = ((t or {}).get('desugaredQualType') or (t or {}).get('qualType', '')).strip()
        m = re.fullmatch(r'(.*?)\s*\[(\d+)\]', t)
        cnt = 1
        if m:
            t, cnt = m.group(1), int(m.group(2))
        t = t.rstrip('& ')
        if not t or t.endswith(']') or t.endswith('*'):
            raise Unsupported('sizeof %s' % t)
        k = self.kind(t)
        if k[0] == 'int':
            return P(cnt * (k[1] // 8))
        if k[0] == 'bool':
            return P(cnt)
        if k[0] == 'flt':
            return P(cnt * {'double': 8, 'float': 4}.get(k[1], 16))
        raise Unsupported('sizeof')

    def e_CXXDefaultArgExpr(self, n, st, fr):
        raise Unsupported('default argument out of call')

    def e_CXXDefaultInitExpr(self, n, st, fr):
        raise Unsupported('default initialiser out of constructor')

    def e_PredefinedExpr(self, n, st, fr):
        return Str([('lit', '?')])

    def e_TypeTraitExpr(self, n, st, fr):
        return Bc(n.get('value') in (True, 'true'))

    def e_CXXNoexceptExpr(self, n, st, fr):
        return Bc(n.get('value') in (True, 'true'))

    def e_DeclRefExpr(self, n, st, fr):
        d = n.get('referencedDecl') or {}
        i = d.get('id')
        k = d.get('kind')
        if i in fr.env:
            return fr.env[i]
        if k == 'EnumConstantDecl':
            return self.enumval(d)
        if k in FUNS:
            return Fn(d.get('name'), self.ast.find_def(i) or self.ast.decl.get(i), (d.get('type') or {}).get('qualType', ''))
        if k in ('VarDecl', 'NonTypeTemplateParmDecl', 'VarTemplateSpecializationDecl'):
            return self.globalvar(d, st, fr)
        raise Unsupported('reference to %s %s' % (k, d.get('name')))

    def enumval(self, d):
        n = self.ast.decl.get(d.get('id'))
        if n is None:
            known = {'badbit': 1, 'eofbit': 2, 'failbit': 4, 'goodbit': 0}
            if d.get('name') in known:
                return P(known[d['name']])
            raise Unsupported('enumerator %s' % d.get('name'))
        v = self.enumconst(n)
        return P(v)

    def enumconst(self, n):
        if '_ev' in n:
            return n['_ev']
        par = n.get('_par')
        cur = -1
        for c in self.inner(par):
            if c.get('kind') != 'EnumConstantDecl':
                continue
            init = [x for x in self.inner(c) if x.get('kind') and not x['kind'].endswith('Comment')]
            if init:
                x = init[0]
                if 'value' in x and x['kind'] == 'ConstantExpr':
                    cur = int(x['value'])
                else:
                    cur = int(P(self.rv(x, State(), Frame(None))).const())
            else:
                cur += 1
            c['_ev'] = cur
        return n['_ev']

    def globalvar(self, d, st, fr):
        n = self.ast.decl.get(d.get('id'))
        name = d.get('name')
        if n is None:
            if name in ('cout', 'cerr', 'clog'):
                return self.std_stream(st, name)
            flags = {'app': 1, 'ate': 2, 'binary': 4, 'in': 8, 'out': 16, 'trunc': 32, 'beg': 0, 'cur': 1, 'end': 2, 'badbit': 1, 'failbit': 4, 'eofbit': 2, 'goodbit': 0}
            if name in flags:
                return P(flags[name])
            if name == 'value' and bare((d.get('type') or {}).get('qualType', '')) == 'bool':
                raise Unsupported('type trait value')
            if name == 'default_seed':
                return P(5489)
            raise Unsupported('global %s' % name)
        # constants: namespace-scope or static constexpr data
        key = n['id']
        if key not in self.globals:
            t = qt(n)
            if 'const' not in t and not n.get('constexpr'):
                raise Unsupported('mutable global %s' % name)
            init = [c for c in self.inner(n) if c.get('kind') and not c['kind'].endswith('Attr') and not c['kind'].endswith('Comment')]
            if not init:
                raise Unsupported('global %s without value' % name)
            s = State()
            v = self.rv(init[0], s, Frame(None))
            self.ncell += 1
            self.globals[key] = (self.ncell, v)
        c, v = self.globals[key]
        if c not in st.cells:
            st.cells[c] = v
        return Ref(c)

    def std_stream(self, st, name):
        key = 'std:' + name
        if key not in self.globals:
            self.ncell += 1
            self.globals[key] = (self.ncell, Obj('std::ostream', {'file': Str([('lit', '<%s>' % name)]), 'fail': FALSE, 'bad': FALSE, 'prec': P(6)}))
        c, v = self.globals[key]
        if c not in st.cells:
            st.cells[c] = v
        return Ref(c)

    def e_MemberExpr(self, n, st, fr):
        b = self.inner(n)[0]
        name = n.get('name', '')
        md = n.get('referencedMemberDecl')
        dn = self.ast.decl.get(md)
        if dn is not None and dn.get('kind') == 'VarDecl':
            return self.globalvar(dn, st, fr)
        if dn is not None and dn.get('kind') == 'EnumConstantDecl':
            return P(self.enumconst(dn))
        v = self.ev(b, st, fr)
        if n.get('isArrow'):
            v = self.pointee(st, self.load(st, v) if not isinstance(v, (PtrTo, Iter)) else v)
        if n.get('valueCategory') == 'prvalue' and (n.get('type') or {}).get('qualType', '').startswith('<bound member'):
            return (v, md, name)
        if isinstance(v, Ref) or isinstance(v, CondRef):
            # reference member
            r = self.fieldref(v, name)
            if not (r.path and r.path[-1][0] == 'k') if isinstance(r, Ref) else False:
                x = None
                try:
                    x = self.read(st, r)
                except Unsupported:
                    x = None
                if isinstance(x, RefVal):
                    return x.ref
            return r
        if isinstance(v, Obj):
            x = v.f[name]
            return x.ref if isinstance(x, RefVal) else x
        raise Unsupported('member %s' % name)

    def pointee(self, st, v):
        if isinstance(v, PtrTo):
            return v.ref
        if isinstance(v, Iter):
            return self.deref(st, v)
        if isinstance(v, CondRef):
            return v
        if isinstance(v, Obj) and 'ptr' in v.f:
            return self.pointee(st, v.f['ptr'])
        if isinstance(v, Str):
            # the first character of a C string
            t = v.lit()
            if t is not None:
                return self.new_cell(st, P(ord(t[0]) if t else 0))
            c = str_code(v)
            if c is not None:
                n = P(mk_atom('sel', ('strlen', c), 'i', True))
                # no character of a C string is zero
                return self.new_cell(st, ite(ge0(n - 1), textop('first', (), c, nn=True) + 1, ZERO))
        raise Unsupported('dereference of %s' % type(v).__name__)

    # casts
    def e_ImplicitCastExpr(self, n, st, fr):
        ck = n.get('castKind')
        sub = self.inner(n)[0]
        if ck == 'LValueToRValue':
            v = self.ev(sub, st, fr)
            if not st.alive:
                return v
            return self.load(st, v)
        v = self.ev(sub, st, fr)
        if not st.alive:
            return v
        return self.cast(ck, v, qt(sub), qt(n), st)

    def e_CastLike(self, n, st, fr):
        ck = n.get('castKind')
        v = self.ev(self.inner(n)[0], st, fr)
        if not st.alive:
            return v
        return self.cast(ck, v, qt(self.inner(n)[0]), qt(n), st)

    e_CXXStaticCastExpr = e_CastLike
    e_CStyleCastExpr = e_CastLike
    e_CXXFunctionalCastExpr = e_CastLike
    e_CXXConstCastExpr = e_CastLike

    def cast(self, ck, v, src, dst, st):
        if ck == 'ArrayToPointerDecay' and isinstance(v, Ref) and isinstance(self.read(st, v), Seq):
            return Iter(v, ZERO, False)
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'ArrayToPointerDecay', 'FunctionToPointerDecay',
                  'DerivedToBase', 'UncheckedDerivedToBase', 'BuiltinFnToFnPtr', 'NullToPointer', 'LValueBitCast', 'BitCast', 'BaseToDerived'):
            return v
        if ck == 'LValueToRValue':
            return self.load(st, v)
        if ck == 'ToVoid':
            return VOID
        v = self.load(st, v)
        return self.convert(v, src, dst, st)

    def convert(self, v, src, dst, st):
        """value conversion between arithmetic types"""
        ks, kd = self.kind(src), self.kind(dst)
        if isinstance(v, Choice):
            return merge_val(v.c, self.convert(v.a, src, dst, st), self.convert(v.b, src, dst, st))
        if not isinstance(v, TERM):
            return v
        if kd[0] == 'bool':
            return self.tobool(st, v)
        if isinstance(v, B):
            v = b2i(v)
            if kd[0] in ('int', 'flt'):
                return v
        if kd[0] == 'int':
            if ks[0] == 'int':
                return self.icast(st, v, ks, kd)
            if ks[0] == 'flt':
                return self.f2i(st, v, kd)
            return v
        if kd[0] == 'flt':
            if ks[0] == 'int':
                v = self.normi(st, v, ks)
                if self.fp and v.const() is None:
                    return fp_op('i2d', v)
                if kd[1] == 'float':
                    return self.f32(v)
                return v
            if kd[1] == 'float' and ks[1] != 'float':
                return self.f32(v)
            return v
        return v

    def f32(self, v):
        c = v.const()
        if c is not None:
            import struct
            return P(Fr(struct.unpack('f', struct.pack('f', float(c)))[0]))
        return f32_(v)

    def f2i(self, st, v, kd):
        c = v.const()
        if c is not None:
            x = abs(c).numerator // abs(c).denominator
            return P(x if c >= 0 else -x)
        if v.sort == 'i':
            return v
        return P(mk_atom('trunc', (v,), 'i'))

    def icast(self, st, v, ks, kd):
        _, bs, ss = ks
        _, bd, sd = kd
        if bd == bs and sd == ss:
            return v
        if bd == bs or (bd == 64 and bs == 64):
            # reinterpretation: residues modulo 2^b are kept lazily
            if bd == 64:
                return v
            if bd == 32:
                return v if sd else v
            return self.narrowto(st, v, bd, sd)
        if bd > bs:
            v = self.normi(st, v, ks)
            return v
        return self.narrowto(st, self.normi(st, v, ks) if not ss else v, bd, sd)

    def narrowto(self, st, v, bits, sg):
        return narrow_facts(st.facts, bits, sg, st.facts.simp(v))

    def normi(self, st, v, k):
        """the mathematical value of a lazily reduced integer of type k"""
        if k[0] == 'int' and not k[2]:
            if k[1] == 64:
                return self.normu(st, v)
            return self.narrowto(st, v, k[1], False)
        return v

    def normu(self, st, v):
        c = v.const()
        if c is not None:
            if c.denominator != 1:
                return v
            return P(int(c) % (1 << 64)) if c < 0 or c >= (1 << 64) else v
        if nonneg_quick(v) or v.sort == 'r':
            return v
        v = st.facts.simp(v)
        if nonneg_quick(v) or st.facts.nonneg(v):
            return v
        if st.facts.nonneg(-v - 1):
            return v + (1 << 64)
        return self.wrapu(st, v)

    def wrapu(self, st, v):
        a = v.single_atom()
        if a is not None and a.kind == 'ite':
            f1, f2 = st.facts.add(a.args[0]), st.facts.add(not_(a.args[0]))
            s1, s2 = State(None, f1), State(None, f2)
            return ite(a.args[0], self.normu(s1, a.args[1]), self.normu(s2, a.args[2]))
        return P(mk_atom('wrapu', (v,), 'i', True))

    # operators
    def e_UnaryOperator(self, n, st, fr):
        op = n['opcode']
        sub = self.inner(n)[0]
        if op in ('++', '--'):
            r = self.ev(sub, st, fr)
            v = self.read(st, r)
            nv = self.advance(st, v, 1 if op == '++' else -1, qt(n))
            self.write(st, r, nv)
            return v if n.get('isPostfix') else r
        if op == '*':
            v = self.rv(sub, st, fr)
            if isinstance(v, Fn):
                return v
            return self.pointee(st, v)
        if op == '&':
            v = self.ev(sub, st, fr)
            if isinstance(v, Ref) and v.path and v.path[-1][0] == 'i':
                return Iter(Ref(v.cell, v.path[:-1]), v.path[-1][1])
            if isinstance(v, (Ref, CondRef)):
                return PtrTo(v)
            return v
        v = self.rv(sub, st, fr)
        if not st.alive:
            return v
        if op == '!':
            return not_(self.tobool(st, v))
        if op == '-':
            k = self.kind(qt(n))
            v = P(v)
            if k[0] == 'int' and not k[2]:
                return -v
            return -v
        if op == '+':
            return P(v) if isinstance(v, B) else v
        if op == '~':
            return -P(v) - 1
        raise Unsupported('operator %s' % op)

    def advance(self, st, v, d, t):
        if isinstance(v, Iter):
            return Iter(v.ref, v.pos + d, v.rev)
        if isinstance(v, TERM):
            return self.arith('+', P(v), P(d), t, st)
        raise Unsupported('increment of %s' % type(v).__name__)

    def e_BinaryOperator(self, n, st, fr):
        op = n['opcode']
        a, b = self.inner(n)[:2]
        if op == ',':
            self.ev(a, st, fr)
            return self.ev(b, st, fr) if st.alive else VOID
        if op == '=':
            # right operand first (C++17)
            v = self.rv(b, st, fr)
            if not st.alive:
                return v
            r = self.ev(a, st, fr)
            self.write(st, r, v)
            return r
        if op in ('&&', '||'):
            return self.shortcut(op, lambda s: self.cond(a, s, fr), lambda s: self.cond(b, s, fr), st)
        x = self.rv(a, st, fr)
        if not st.alive:
            return x
        y = self.rv(b, st, fr)
        if not st.alive:
            return y
        return self.binop(op, x, y, qt(a), qt(b), qt(n), st)

    def shortcut(self, op, fa, fb, st):
        self.raw = None
        ca = fa(st)
        if not st.alive:
            return FALSE
        if op == '&&' and ca.kind == 'F':
            return FALSE
        if op == '||' and ca.kind == 'T':
            return TRUE
        ra = ca if self.raw is None else self.raw
        self.raw = None
        if ca.kind in ('T', 'F'):
            # what the condition was before the facts decided it
            cb = fb(st)
            rb = cb if self.raw is None else self.raw
            self.raw = and_(ra, rb) if op == '&&' else or_(ra, rb)
            return cb
        base = st.facts
        t, e = self.fork(st, ca)
        s, o = (t, e) if op == '&&' else (e, t)
        if not s.alive:
            return Bc(op == '||')
        if not o.alive:
            st.facts = s.facts
            cb = fb(st)
            self.raw = None
            return cb
        cb = fb(s)
        self.raw = None
        if not s.alive:
            st.take(o)
            return Bc(op == '||')
        st.take(merge_states(s, o, base))
        return and_(ca, cb) if op == '&&' else or_(ca, cb)

    def binop(self, op, x, y, ta, tb, tr, st):
        if isinstance(x, Choice):
            return merge_val(x.c, self.binop(op, x.a, y, ta, tb, tr, st), self.binop(op, x.b, y, ta, tb, tr, st))
        if isinstance(y, Choice):
            return merge_val(y.c, self.binop(op, x, y.a, ta, tb, tr, st), self.binop(op, x, y.b, ta, tb, tr, st))
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return self.compare(op, x, y, ta, st)
        if isinstance(x, Iter) or isinstance(y, Iter):
            return self.iter_arith(op, x, y)
        if isinstance(x, PtrTo) and op == '+' and isinstance(y, Poly) and y.const() == 0:
            return x
        return self.arith(op, P(x), P(y), tr, st, ta)

    def iter_arith(self, op, x, y):
        if isinstance(x, Iter) and isinstance(y, Iter) and op == '-':
            if x.ref != y.ref:
                raise Unsupported('distance between iterators of different containers')
            return x.pos - y.pos
        if isinstance(x, Iter) and op in '+-':
            return Iter(x.ref, x.pos + (P(y) if op == '+' else -P(y)), x.rev)
        if isinstance(y, Iter) and op == '+':
            return Iter(y.ref, y.pos + P(x), y.rev)
        raise Unsupported('iterator arithmetic')

    def compare(self, op, x, y, t, st):
        if isinstance(x, Iter) and isinstance(y, Iter):
            if x.ref != y.ref:
                raise Unsupported('comparison of iterators of different containers')
            p, q = x.pos, y.pos
        elif isinstance(x, TERM) and isinstance(y, TERM):
            if isinstance(x, B) and isinstance(y, B) and op in ('==', '!='):
                r = iff(x, y)
                return r if op == '==' else not_(r)
            k = self.kind(t)
            if k[0] == 'flt':
                return self.fcompare(op, P(x), P(y), st)
            p, q = self.normi(st, P(x), k), self.normi(st, P(y), k)
        elif isinstance(x, Str) and isinstance(y, Str):
            r = self.str_eq(x, y)
            return r if op == '==' else not_(r)
        elif isinstance(x, (PtrTo, Opaque)) and isinstance(y, (PtrTo, Opaque)) and op in ('==', '!='):
            if isinstance(x, PtrTo) and isinstance(y, PtrTo):
                e = x.ref == y.ref
            elif isinstance(x, Opaque) and isinstance(y, Opaque):
                e = x.why == y.why
            else:
                e = False
            return Bc(e == (op == '=='))
        elif op in ('==', '!=') and {type(x), type(y)} <= {Iter, Str, Opaque, PtrTo} and type(x) is not type(y):
            # pointers to different objects
            return Bc(op == '!=')
        else:
            raise Unsupported('comparison of %s and %s' % (type(x).__name__, type(y).__name__))
        if op == '<':
            return gt0(q - p)
        if op == '>':
            return gt0(p - q)
        if op == '<=':
            return ge0(q - p)
        if op == '>=':
            return ge0(p - q)
        r = eq0(p - q)
        return r if op == '==' else not_(r)

    def fcompare(self, op, p, q, st):
        if self.fp:
            return {'<': lambda: fp_cmp('lt', p, q), '>': lambda: fp_cmp('lt', q, p), '<=': lambda: fp_cmp('le', p, q),
                    '>=': lambda: fp_cmp('le', q, p), '==': lambda: fp_cmp('eq', p, q), '!=': lambda: not_(fp_cmp('eq', p, q))}[op]()
        n = P(NAN)
        if p is n or q is n:
            return Bc(op == '!=')
        g = self.gates(p, q)
        if g is not None and (NAN in self.leafs(p) or NAN in self.leafs(q)):
            c = g
            f1, f2 = State(None, st.facts.add(c)), State(None, st.facts.add(not_(c)))
            return bite(c, self.fcompare(op, f1.facts.simp(p), f1.facts.simp(q), f1), self.fcompare(op, f2.facts.simp(p), f2.facts.simp(q), f2))
        if op == '<':
            return gt0(q - p)
        if op == '>':
            return gt0(p - q)
        if op == '<=':
            return not_(gt0(p - q))
        if op == '>=':
            return not_(gt0(q - p))
        r = eq0(p - q)
        return r if op == '==' else not_(r)

    def gates(self, *ps):
        for p in ps:
            for a in p.atoms():
                if a.kind == 'ite':
                    return a.args[0]
        return None

    def leafs(self, p):
        out = set()
        stack = [p]
        while stack:
            x = stack.pop()
            for a in x.atoms():
                if a.kind == 'ite':
                    stack += [a.args[1], a.args[2]]
                else:
                    out.add(a)
        return out

    def str_eq(self, x, y):
        for u, v in ((x, y), (y, x)):
            if isinstance(u, Choice):
                return bite(u.c, self.str_eq(u.a, v), self.str_eq(u.b, v))
        a, b = x.lit(), y.lit()
        if a is not None and b is not None:
            return Bc(a == b)
        if veq(x, y):
            return TRUE
        ca, cb = str_code(x), str_code(y)
        if ca is not None and cb is not None:
            return eq0(ca - cb)
        if len(x.parts) == 1 and len(y.parts) == 1 and x.parts[0][0] == 'file' and y.parts[0][0] == 'file':
            from . import models
            return models.bytes_equal(self, None, x.parts[0][1], y.parts[0][1], True)
        raise Unsupported('comparison of composed strings')

    def arith(self, op, x, y, t, st, ta=None):
        k = self.kind(t)
        if k[0] == 'flt':
            r = self.farith(op, x, y)
            return self.f32(r) if k[1] == 'float' and closed_root(r) else r
        if k[0] == 'bool':
            k = ('int', 32, True)
        if op in ('+', '-', '*'):
            r = x + y if op == '+' else x - y if op == '-' else x * y
            if self.wrap and k[2]:
                r = self.narrowto(st, r, k[1], True)
            return r
        if op in ('/', '%'):
            x, y = self.normi(st, x, k), self.normi(st, y, k)
            x, y = st.facts.simp(x), st.facts.simp(y)
            if y.const() == 0:
                raise Unsupported('division by zero')
            q = st.facts.simp(tdiv(x, y))
            if op == '/':
                return q
            return x - y * q
        if op == '<<':
            c = y.const()
            if c is not None:
                return x * (1 << int(c))
        if op == '>>':
            c = y.const()
            if c is not None:
                x = self.normi(st, x, k)
                return st.facts.simp(fdiv(x, P(1 << int(c))))
        cx, cy = x.const(), y.const()
        if op in ('&', '|', '^') and cx is not None and cy is not None:
            a, b = int(cx), int(cy)
            return P({'&': a & b, '|': a | b, '^': a ^ b}[op])
        if op == '&':
            for p, c in ((x, cy), (y, cx)):
                if c is not None and c >= 0 and (int(c) + 1) & int(c) == 0:
                    p = self.normi(st, p, k)
                    m = P(int(c) + 1)
                    return p - m * fdiv(p, m)
        if op in ('&', '|') and all(isinstance(self._boolish(v), B) for v in (x, y)):
            a, b = self._boolish(x), self._boolish(y)
            return b2i(and_(a, b) if op == '&' else or_(a, b))
        if op == '^' and all(isinstance(self._boolish(v), B) for v in (x, y)):
            return b2i(not_(iff(self._boolish(x), self._boolish(y))))
        raise Unsupported('integer operator %s' % op)

    def _boolish(self, p):
        if p is ONE:
            return TRUE
        if not p.t:
            return FALSE
        a = p.single_atom()
        if a is not None and a.kind == 'ite' and a.args[1] is ONE and a.args[2] is ZERO:
            return a.args[0]
        return None

    def farith(self, op, x, y):
        if self.fp:
            return fp_op({'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[op], x, y)
        if NAN in x.atoms() or NAN in y.atoms():
            return P(NAN)
        if op == '+':
            return x + y
        if op == '-':
            return x - y
        if op == '*':
            return x * y
        if op == '/':
            return x * inv(y)
        raise Unsupported('floating operator %s' % op)

    def e_CompoundAssignOperator(self, n, st, fr):
        a, b = self.inner(n)[:2]
        y = self.rv(b, st, fr)
        if not st.alive:
            return y
        r = self.ev(a, st, fr)
        x = self.read(st, r)
        op = n['opcode'][:-1]
        ct = n.get('computeResultType') or {}
        ct = ct.get('desugaredQualType') or ct.get('qualType') or qt(n)
        lt = n.get('computeLHSType') or {}
        lt = lt.get('desugaredQualType') or lt.get('qualType') or ct
        if isinstance(x, Iter):
            v = self.iter_arith(op, x, y)
        else:
            x2 = self.convert(x, qt(a), lt, st)
            v = self.binop(op, x2, y, lt, qt(b), ct, st)
            v = self.convert(v, ct, qt(a), st)
        self.write(st, r, v)
        return r

    def e_ConditionalOperator(self, n, st, fr):
        c, a, b = self.inner(n)[:3]
        cv = self.cond(c, st, fr)
        if not st.alive:
            return VOID
        if cv.kind == 'T':
            return self.ev(a, st, fr)
        if cv.kind == 'F':
            return self.ev(b, st, fr)
        base = st.facts
        s, t = self.fork(st, cv)
        if not s.alive:
            st.facts = t.facts
            return self.ev(b, st, fr)
        if not t.alive:
            st.facts = s.facts
            return self.ev(a, st, fr)
        x = self.ev(a, s, fr)
        y = self.ev(b, t, fr)
        if not s.alive or not t.alive:
            o = t if not s.alive else s
            v = y if not s.alive else x
            st.take(o)
            return v
        if isinstance(x, (Ref, CondRef)) and isinstance(y, (Ref, CondRef)):
            m = merge_states(s, t, base)
            st.take(m)
            return CondRef(cv, x, y) if x != y else x
        x, y = self.load(s, x), self.load(t, y)
        m = merge_states(s, t, base)
        st.take(m)
        return merge_val(cv, x, y)

    def e_ArraySubscriptExpr(self, n, st, fr):
        a, b = self.inner(n)[:2]
        v = self.ev(a, st, fr)
        i = P(self.rv(b, st, fr))
        if isinstance(v, Ref):
            x = self.read(st, v)
            if isinstance(x, Seq):
                return v.sub(('i', i))
            v = x
        if isinstance(v, Iter):
            return self.deref(st, Iter(v.ref, v.pos + i, v.rev))
        raise Unsupported('subscript')

    def e_CXXThrowExpr(self, n, st, fr):
        inner = self.inner(n)
        if not inner:
            raise Unsupported('rethrow')
        v = self.rv(inner[0], st, fr)
        if not st.alive:
            return VOID
        self.throw(st, bare(qt(inner[0])), v)
        return VOID

    def shown_loc(self, d):
        a, b = d.get('_spell'), d.get('_loc')
        if a and b and '/driver/' in str(a[0]) and '/driver/' not in str(b[0]):
            return b
        return a or b

    def throw(self, st, ty, v):
        self.throws.append((st.clone(), ty, v))
        st.alive = False

    def e_LambdaExpr(self, n, st, fr):
        rec = [c for c in self.inner(n) if c.get('kind') == 'CXXRecordDecl'][0]
        op = None
        for c in self.inner(rec):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                op = c
            if c.get('kind') == 'FunctionTemplateDecl' and c.get('name') == 'operator()':
                op = c
        # captures: references share the cell; copies get their own
        fields = [c for c in self.inner(rec) if c.get('kind') == 'FieldDecl']
        env = dict(fr.env)
        inits = [c for c in self.inner(n)[1:] if c.get('kind') and c.get('kind') != 'CompoundStmt']
        for f, i in zip(fields, inits):
            t = qt(f)
            ref = None
            x = i
            while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'CXXConstructExpr', 'MaterializeTemporaryExpr', 'ParenListExpr') and self.inner(x):
                x = self.inner(x)[0]
            if x.get('kind') == 'DeclRefExpr':
                d = x['referencedDecl']['id']
                if not norm_type(t).endswith('&') and d in fr.env:
                    env[d] = self.new_cell(st, self.load(st, fr.env[d]))
        # init-captures
        self._initcaps(n, fields, inits, env, st, fr)
        return Closure(op, env, fr.this)

    def _initcaps(self, n, fields, inits, env, st, fr):
        """variables introduced by init-captures: the body names declarations that appear nowhere else"""
        refs = {}

        def scan(x):
            if isinstance(x, dict):
                if x.get('kind') == 'DeclRefExpr':
                    d = x.get('referencedDecl') or {}
                    if d.get('kind') == 'VarDecl':
                        refs[d['id']] = d
                for c in x.get('inner') or []:
                    scan(c)
        scan(n)
        new = sorted((i for i in refs if i not in env and i not in self.ast.decl), key=lambda i: int(i, 16))
        if not new:
            return
        cand = []
        for f, i in zip(fields, inits):
            x = i
            while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'CXXConstructExpr', 'MaterializeTemporaryExpr', 'ParenListExpr') and self.inner(x):
                x = self.inner(x)[0]
            if x.get('kind') == 'CXXThisExpr' or x.get('kind') == 'DeclRefExpr' and self.counts_refs(n, x['referencedDecl']['id']) > 1:
                continue
            cand.append((f, i))
        if len(cand) != len(new):
            return
        for d, (f, i) in zip(new, cand):
            t = norm_type(qt(f))
            v = self.ev(i, st, fr)
            if t.endswith('&') and isinstance(v, (Ref, CondRef)):
                env[d] = v
            else:
                env[d] = self.new_cell(st, self.load(st, v))

    def counts_refs(self, n, i):
        k = 0
        if isinstance(n, dict):
            if n.get('kind') == 'DeclRefExpr' and (n.get('referencedDecl') or {}).get('id') == i:
                k = 1
            for c in n.get('inner') or []:
                k += self.counts_refs(c, i)
        return k

    def e_InitListExpr(self, n, st, fr):
        t = bare(qt(n))
        items = [c for c in self.inner(n) if c.get('kind')]
        if 'array_filler' in n:
            items = [c for c in n['array_filler'] if c.get('kind') and c['kind'] != 'ImplicitValueInitExpr'] if not items else items
        k = self.kind(t)
        if k[0] in ('int', 'flt', 'bool'):
            return self.rv(items[0], st, fr) if items else self.default(t, st, fr)
        if k[0] == 'ptr':
            return self.rv(items[0], st, fr) if items else Opaque('nullptr')
        tn = tmpl_name(t)
        if t.endswith(']'):
            et = t[:t.rindex('[')].strip()
            m = int(t[t.rindex('[') + 1:-1] or 0)
            vals = [self.rv(c, st, fr) for c in items]
            while len(vals) < m:
                vals.append(self.default(et, st, fr))
            return Seq([('e', v) for v in vals], et)
        if tn == 'std::array':
            et, m = tmpl_args(t)[0], int(tmpl_args(t)[1])
            if len(items) == 1 and items[0].get('kind') == 'InitListExpr':
                x = self.ev(items[0], st, fr)
                return Seq(x.segs, et)
            if len(items) == 1 and bare(qt(items[0])).endswith(']'):
                return Seq(self.rv(items[0], st, fr).segs, et)
            vals = [self.rv(c, st, fr) for c in items]
            while len(vals) < m:
                vals.append(self.default(et, st, fr))
            return Seq([('e', v) for v in vals], et)
        if tn == 'std::initializer_list':
            return Seq([('e', self.rv(c, st, fr)) for c in items], tmpl_args(t)[0])
        rec = self.ast.record(t)
        if rec is not None:
            flds = self.ast.fields(rec)
            f = {}
            j = 0
            vals = []
            for c in items:
                vals.append(c)
            for name, node in flds:
                if j < len(vals):
                    c = vals[j]
                    j += 1
                    if c['kind'] == 'CXXDefaultInitExpr':
                        f[name] = self.field_default(node, st, fr)
                    else:
                        x = self.ev(c, st, fr)
                        f[name] = RefVal(x) if norm_type(qt(node)).endswith('&') else self.load(st, x)
                else:
                    f[name] = self.field_default(node, st, fr)
            return Obj(t, f)
        if tn in ('std::pair',):
            vs = [self.rv(c, st, fr) for c in items]
            return Obj('std::pair', {'first': vs[0], 'second': vs[1]})
        if len(items) == 1:
            return self.rv(items[0], st, fr)
        if not items:
            return self.default(t, st, fr)
        raise Unsupported('initialiser list of %s' % t)

    # ------------------------------------------------------------ objects
    def field_default(self, node, st, fr):
        init = [c for c in self.inner(node) if c.get('kind') and not c['kind'].endswith('Attr') and not c['kind'].endswith('Comment')]
        if node.get('isBitfield'):
            raise Unsupported('bit-field')
        if init:
            f2 = Frame(None, fr.this if fr else None)
            v = self.ev(init[0], st, f2)
            return self.load(st, v)
        return self.default(qt(node), st, fr, uninit=True)

    def default(self, t, st, fr, uninit=False):
        t = bare(t)
        k = self.kind(t)
        if k[0] == 'bool':
            return bfresh('uninit') if uninit else FALSE
        if k[0] == 'int':
            return P(fresh('uninit', 'i', not k[2])) if uninit else ZERO
        if k[0] == 'flt':
            return P(fresh('uninit', 'r')) if uninit else ZERO
        if k[0] == 'ptr':
            return Opaque('nullptr')
        tn = tmpl_name(t)
        if tn in SEQS:
            return Seq([], tmpl_args(t)[0])
        if tn == 'std::array':
            a = tmpl_args(t)
            return Seq([('e', self.default(a[0], st, fr, uninit)) for _ in range(int(a[1]))], a[0])
        if t.endswith(']'):
            et = t[:t.rindex('[')].strip()
            m = int(t[t.rindex('[') + 1:-1])
            return Seq([('e', self.default(et, st, fr, uninit)) for _ in range(m)], et)
        if t in STRINGS or tn == 'std::basic_string':
            return Str([])
        if tn == 'std::map':
            a = tmpl_args(t)
            return Map([], a[0], a[1])
        if tn == 'std::pair':
            a = tmpl_args(t)
            return Obj('std::pair', {'first': self.default(a[0], st, fr), 'second': self.default(a[1], st, fr)})
        from . import models
        v = models.std_default(self, t, st)
        if v is not None:
            return v
        rec = self.ast.record(t)
        if rec is not None:
            return self.construct(t, [], [], None, st, fr)
        raise Unsupported('default value of %s' % t)

    def ctor_for(self, rec, ctype):
        want = norm_type(ctype)
        for c in self.ast.all_members(rec):
            if c.get('kind') == 'CXXConstructorDecl' and norm_type((c.get('type') or {}).get('qualType', '')) == want:
                return c
        # fall back to the number of parameters
        return None

    def e_CXXConstructExpr(self, n, st, fr):
        t = bare(qt(n))
        args = [c for c in self.inner(n) if c.get('kind')]
        ct = (n.get('ctorType') or {}).get('qualType', '')
        from . import models
        if self.ast.record(t) is None or t.startswith('std::'):
            vals = []
            for c in args:
                if c['kind'] == 'CXXDefaultArgExpr':
                    continue
                vals.append(self.ev(c, st, fr))
                if not st.alive:
                    return VOID
            return models.std_construct(self, t, ct, vals, args, st, fr, n)
        vals = []
        ctor = self.ctor_for(self.ast.record(t), ct)
        ps = self.ast.params(self.ast.find_def(ctor['id']) or ctor) if ctor else []
        for j, c in enumerate(args):
            if c['kind'] == 'CXXDefaultArgExpr':
                if j < len(ps):
                    vals.append(self.default_arg(ctor, j, st, fr))
                continue
            vals.append(self.ev(c, st, fr))
            if not st.alive:
                return VOID
        return self.construct(t, vals, args, ct, st, fr)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def default_arg(self, fn, j, st, fr):
        # the declaration carrying the default
        cands = [fn]
        i = fn.get('id')
        d = self.ast.find_def(i)
        if d is not None:
            cands.append(d)
        p = self.ast.prev.get(i)
        while p:
            cands.append(self.ast.decl[p])
            p = self.ast.prev.get(p)
        if d is not None:
            p = self.ast.prev.get(d['id'])
            while p:
                cands.append(self.ast.decl[p])
                p = self.ast.prev.get(p)
        for c in cands:
            ps = self.ast.params(c)
            if j < len(ps):
                init = [x for x in self.inner(ps[j]) if x.get('kind') and not x['kind'].endswith('Attr')]
                if init:
                    return self.ev(init[0], st, Frame(None))
        raise Unsupported('default argument')

    def construct(self, t, vals, args, ct, st, fr):
        rec = self.ast.record(t)
        if ct is not None:
            want = norm_type(ct)
            m = re.match(r'void\((.*)\)', want.replace(' noexcept', '').replace('void (', 'void('))
            ps = m.group(1) if m else ''
            # copy / move
            if len(vals) == 1 and ps.rstrip('&').split('::')[-1] == t.split('::')[-1] and ps.endswith('&'):
                ctor = self.ctor_for(rec, ct)
                d = self.ast.find_def(ctor['id']) if ctor else None
                if d is None or d.get('explicitlyDefaulted') or d.get('isImplicit') or (ctor and (ctor.get('explicitlyDefaulted') or ctor.get('isImplicit'))):
                    return self.load(st, vals[0])
            elif len(vals) == 1:
                x = self.load(st, vals[0])
                if isinstance(x, Obj) and x.cls == t and (t in ps) and ps.endswith('&'):
                    ctor = self.ctor_for(rec, ct)
                    if ctor is None or ctor.get('explicitlyDefaulted') or ctor.get('isImplicit'):
                        return x
            ctor = self.ctor_for(rec, ct)
        else:
            ctor = None
            for c in self.ast.all_members(rec):
                if c.get('kind') == 'CXXConstructorDecl' and not self.ast.params(c) and c.get('_par') is not None:
                    ctor = c
                    break
        d = self.ast.find_def(ctor['id']) if ctor else None
        if ctor is not None and d is None and not (ctor.get('explicitlyDefaulted') or ctor.get('isImplicit')):
            raise Unsupported('constructor of %s has no definition' % t)
        if d is not None and (d.get('explicitlyDefaulted') or d.get('isImplicit')) and not any(c.get('kind') == 'CXXCtorInitializer' for c in self.inner(d)):
            d = None
        this = self.new_cell(st, Obj(t, {}))
        if d is None:
            self.init_bases(rec, this, st, fr)
            for name, node in self.own_fields(rec):
                v = self.field_default(node, st, Frame(None, this))
                self.write(st, this.sub(('f', name)), v)
            return self.read(st, this)
        self.note(d)
        f2 = Frame(d, this)
        f2.retref = False
        self.bind_params(d, vals, st, f2, ctor)
        inits = [c for c in self.inner(d) if c.get('kind') == 'CXXCtorInitializer']
        done = set()
        based = False
        for c in inits:
            if not st.alive:
                return VOID
            if 'baseInit' in c:
                based = True
                v = self.ev(self.inner(c)[0], st, f2)
                if not st.alive:
                    return VOID
                v = self.load(st, v)
                o = self.read(st, this)
                fl = dict(o.f)
                fl.update(v.f)
                self.write(st, this, Obj(t, fl))
            elif 'anyInit' in c:
                name = c['anyInit'].get('name')
                node = self.ast.decl.get(c['anyInit'].get('id'))
                e = self.inner(c)[0]
                if e['kind'] == 'CXXDefaultInitExpr':
                    v = self.field_default(node, st, f2)
                else:
                    v = self.ev(e, st, f2)
                    if not st.alive:
                        return VOID
                    if node is not None and norm_type(qt(node)).endswith('&'):
                        v = RefVal(v)
                    else:
                        v = self.load(st, v)
                self.write(st, this.sub(('f', name)), v)
                done.add(name)
            elif self.inner(c):
                # delegating constructor
                v = self.load(st, self.ev(self.inner(c)[0], st, f2))
                self.write(st, this, Obj(t, v.f))
                done |= set(v.f)
                based = True
        if not based:
            self.init_bases(rec, this, st, f2)
        for name, node in self.own_fields(rec):
            if name not in done and name not in self.read(st, this).f:
                self.write(st, this.sub(('f', name)), self.field_default(node, st, f2))
        body = self.ast.body(d)
        self.depth += 1
        if body is not None:
            self.stmt(body, st, f2)
        self.depth -= 1
        r = merge_all([s for s, _ in f2.rets] + ([st.clone()] if st.alive else []), None if not f2.rets else st.facts)
        if r is None:
            st.alive = False
            return VOID
        st.take(r)
        return self.read(st, this)

    def own_fields(self, rec):
        return [(c.get('name', ''), c) for c in self.inner(rec) if c.get('kind') == 'FieldDecl']

    def init_bases(self, rec, this, st, fr):
        for b in rec.get('bases', []):
            bt = bare(b['type'].get('desugaredQualType') or b['type']['qualType'])
            if self.ast.record(bt) is not None:
                v = self.construct(bt, [], [], None, st, fr)
                o = self.read(st, this)
                fl = dict(o.f)
                fl.update(v.f)
                self.write(st, this, Obj(o.cls, fl))

    def note(self, d):
        i = d['id']
        if i not in self.seen_fn:
            self.seen_fn[i] = 0
            self.trace.append((d.get('_q', d.get('name')), self.shown_loc(d)))
        self.seen_fn[i] += 1

    # ------------------------------------------------------------ calls
    def bind_params(self, d, vals, st, f2, decl=None):
        ps = self.ast.params(d)
        for j, p in enumerate(ps):
            t = norm_type(qt(p))
            if j < len(vals):
                v = vals[j]
            else:
                v = self.default_arg(decl or d, j, st, f2)
            if t.endswith('&'):
                if not isinstance(v, (Ref, CondRef)):
                    v = self.new_cell(st, v)
                f2.env[p['id']] = v
            else:
                f2.env[p['id']] = self.new_cell(st, self.load(st, v))

    def call(self, d, this, vals, st, fr, env=None, decl=None):
        """inline the definition d"""
        if self.depth > self.cfg.get('depth', 60):
            raise Unsupported('call depth')
        rec = self.recursive(d, vals, st)
        if rec is not None:
            return rec
        self.note(d)
        f2 = Frame(d, this, env)
        rt = (d.get('type') or {}).get('qualType', '')
        f2.retref = self.returns_ref(d)
        self.bind_params(d, vals, st, f2, decl)
        if not st.alive:
            return VOID
        base = st.facts
        body = self.ast.body(d)
        self.depth += 1
        try:
            if self.inner(body) and self.inner(body)[0].get('kind') == 'CXXTryStmt':
                pass
            self.stmt(body, st, f2)
        finally:
            self.depth -= 1
        outs = list(f2.rets)
        if st.alive:
            outs.append((st.clone(), VOID))
        if not outs:
            st.alive = False
            return VOID
        s, v = outs[-1]
        for s2, v2 in reversed(outs[:-1]):
            _, ga, gb = strip_common(s2.guard, s.guard)
            v = v2 if v is v2 else self.merge_ret(ga, v2, v)
            s = merge_states(s2, s, base)
        st.take(s)
        return v

    def merge_ret(self, c, a, b):
        if isinstance(a, (Ref, CondRef)) and isinstance(b, (Ref, CondRef)):
            return a if a == b else CondRef(c, a, b)
        return merge_val(c, a, b)

    def returns_ref(self, d):
        t = (d.get('type') or {}).get('qualType', '')
        if '->' in t:
            rt = t.split('->')[-1]
            t2 = (d.get('type') or {}).get('desugaredQualType', '')
        else:
            # 'ret (params) quals'
            depth = 0
            i = None
            for j, ch in enumerate(t):
                if ch == '<':
                    depth += 1
                elif ch == '>':
                    depth -= 1
                elif ch == '(' and depth == 0:
                    i = j
                    break
            rt = t[:i] if i else t
        rt = norm_type(rt.replace('noexcept', ''))
        return rt.endswith('&')

    def recursive(self, d, vals, st):
        """Euclid-like tail recursion is recognised as the gcd"""
        from .loops import euclid_recursion
        return euclid_recursion(self, d, vals, st)

    def e_CallExpr(self, n, st, fr):
        inner = self.inner(n)
        cal = self.callee(inner[0], st, fr)
        args = inner[1:]
        return self.dispatch(cal, args, n, st, fr)

    def callee(self, n, st, fr):
        x = n
        while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            x = self.inner(x)[0]
        if x.get('kind') in ('DeclRefExpr', 'MemberExpr'):
            md = self.ast.decl.get(x.get('referencedMemberDecl')) if x['kind'] == 'MemberExpr' else None
            if md is not None and md.get('kind') in FUNS:
                # static member function through an object
                return Fn(md.get('name'), self.ast.find_def(md['id']) or md, (md.get('type') or {}).get('qualType', ''))
            return self.ev(x, st, fr)
        return self.rv(n, st, fr)

    def evargs(self, args, st, fr, decl=None):
        vals = []
        for j, a in enumerate(args):
            if a.get('kind') == 'CXXDefaultArgExpr':
                if decl is not None:
                    vals.append(self.default_arg(decl, j, st, fr))
                continue
            vals.append(self.ev(a, st, fr))
            if not st.alive:
                return vals
        return vals

    def dispatch(self, cal, args, n, st, fr):
        from . import models
        if isinstance(cal, tuple):
            return self.member_call(cal, args, n, st, fr)
        if isinstance(cal, (Ref, CondRef)):
            cal = self.load(st, cal)
        if isinstance(cal, Fn):
            d = cal.node
            if d is not None and self.ast.body(d) is not None and not d.get('_dep'):
                vals = self.evargs(args, st, fr, d)
                if not st.alive:
                    return VOID
                return self.call(d, None, vals, st, fr, decl=d)
            if d is not None and not d.get('_q', '').startswith('std'):
                r = models.special(self, cal, args, n, st, fr)
                if r is not NotImplemented:
                    return r
                raise Unsupported('call of undefined function %s' % d.get('_q', cal.name))
            return models.std_call(self, cal, args, n, st, fr)
        if isinstance(cal, Closure):
            vals = self.evargs(args, st, fr)
            return self.call_closure(cal, vals, st, fr)
        raise Unsupported('indirect call at %s' % self.where(n))

    def call_closure(self, c, vals, st, fr):
        op = c.op
        if op.get('kind') == 'FunctionTemplateDecl':
            insts = [x for x in self.inner(op) if x.get('kind') == 'CXXMethodDecl' and self.ast.body(x) is not None and not x.get('_dep')]
            cands = []
            for x in insts:
                ps = self.ast.params(x)
                if len(ps) == len(vals):
                    cands.append(x)
            if not cands:
                raise Unsupported('generic lambda')
            op = cands[0]
        return self.call(op, c.this, vals, st, fr, env=c.env)

    def e_CXXMemberCallExpr(self, n, st, fr):
        inner = self.inner(n)
        x = inner[0]
        while x.get('kind') == 'ParenExpr':
            x = self.inner(x)[0]
        m = self.ev(x, st, fr)
        if not st.alive:
            return VOID
        if not isinstance(m, tuple):
            raise Unsupported('member call')
        return self.member_call(m, inner[1:], n, st, fr, x)

    def member_call(self, m, args, n, st, fr, mx=None):
        from . import models
        obj, md, name = m
        decl = self.ast.decl.get(md)
        d = self.ast.find_def(md)
        if d is not None and not d.get('explicitlyDefaulted'):
            vals = self.evargs(args, st, fr, decl or d)
            if not st.alive:
                return VOID
            if not isinstance(obj, (Ref, CondRef)):
                obj = self.new_cell(st, obj)
            if isinstance(obj, CondRef):
                raise Unsupported('call on a conditional object')
            return self.call(d, obj, vals, st, fr, decl=decl or d)
        if decl is not None and decl.get('name') == 'operator=':
            v = self.rv(args[0], st, fr)
            self.write(st, obj, v)
            return obj
        if decl is not None and not decl.get('_q', '').startswith('std'):
            raise Unsupported('call of undefined member %s' % decl.get('_q', name))
        ot = qt(self.inner(mx)[0]) if mx is not None else ''
        return models.std_method(self, obj, name, args, n, st, fr, ot)

    def call_method(self, ref, name, vals, st, fr):
        obj = self.read(st, ref)
        if isinstance(obj, Obj):
            rec = self.ast.record(obj.cls)
            if rec is not None:
                cands = []
                for m in self.ast.methods(rec, name):
                    d = self.ast.find_def(m['id'])
                    if d is not None and len(self.ast.params(d)) == len(vals) and d not in cands:
                        cands.append(d)
                if len(cands) > 1:
                    # overloads and instantiations: by the class of the arguments
                    for d in cands:
                        ok = True
                        for p, v in zip(self.ast.params(d), vals):
                            x = self.load(st, v)
                            if isinstance(x, Obj) and self.ast.record(x.cls) is not None and bare(qt(p)).split('::')[-1] != x.cls.split('::')[-1]:
                                ok = False
                        if ok:
                            cands = [d]
                            break
                if cands:
                    return self.call(cands[0], ref, vals, st, fr)
        raise Unsupported('method %s' % name)

    def call_operator(self, name, refs, st, fr):
        """overloaded operator found by operand class (user types)"""
        obj = self.read(st, refs[0])
        if isinstance(obj, Obj):
            rec = self.ast.record(obj.cls)
            if rec is not None:
                for m in self.ast.methods(rec, name):
                    d = self.ast.find_def(m['id'])
                    if d is not None and len(self.ast.params(d)) == len(refs) - 1:
                        return self.call(d, refs[0], refs[1:], st, fr)
                for q, fns in self.ast.by_qname.items():
                    if q.split('::')[-1] == name:
                        for f in fns:
                            d = self.ast.find_def(f['id'])
                            if d is not None and d.get('kind') == 'FunctionDecl':
                                ps = self.ast.params(d)
                                if len(ps) == len(refs) and bare(qt(ps[0])).split('::')[-1] == obj.cls.split('::')[-1]:
                                    return self.call(d, None, refs, st, fr)
        raise Unsupported('operator %s' % name)

    def e_CXXOperatorCallExpr(self, n, st, fr):
        from . import models
        inner = self.inner(n)
        x = inner[0]
        while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            x = self.inner(x)[0]
        d = (x.get('referencedDecl') or {})
        dn = self.ast.find_def(d.get('id'))
        decl = self.ast.decl.get(d.get('id'))
        args = inner[1:]
        op = d.get('name', '')
        if dn is not None and not (dn.get('explicitlyDefaulted') or dn.get('isImplicit')):
            vals = self.evargs(args, st, fr, None)
            if not st.alive:
                return VOID
            if dn['kind'] == 'CXXMethodDecl' and dn.get('storageClass') != 'static':
                this = vals[0]
                if isinstance(this, Ref) and isinstance(self.read2(st, this), Closure):
                    return self.call_closure(self.read(st, this), vals[1:], st, fr)
                if isinstance(this, Closure):
                    return self.call_closure(this, vals[1:], st, fr)
                if not isinstance(this, (Ref, CondRef)):
                    this = self.new_cell(st, this)
                return self.call(dn, this, vals[1:], st, fr, decl=decl)
            return self.call(dn, None, vals, st, fr, decl=decl)
        if decl is not None and op != 'operator=':
            cl = self.ev(args[0], st, fr)
            c = self.load(st, cl)
            if isinstance(c, Closure):
                return self.call_closure(c, self.evargs(args[1:], st, fr), st, fr)
            raise Unsupported('call of undefined operator %s' % decl.get('_q'))
        if op == 'operator=' and (decl is not None or self.ast.record(qt(args[0])) is not None):
            r = self.ev(args[0], st, fr)
            v = self.rv(args[1], st, fr)
            if not st.alive:
                return VOID
            self.write(st, r, v)
            return r
        return models.std_operator(self, op, args, n, st, fr)


class PtrTo:
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = ref

    def __eq__(self, o):
        return isinstance(o, PtrTo) and self.ref == o.ref

    def __hash__(self):
        return hash(self.ref)


class RefVal:
    """reference member"""
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = ref

    def __eq__(self, o):
        return isinstance(o, RefVal) and self.ref == o.ref

    def __hash__(self):
        return hash(self.ref)


SEQS = ('std::vector', 'std::deque', 'std::list', 'std::initializer_list', 'std::valarray')
STRINGS = ('std::string', 'std::basic_string<char>', 'std::basic_string_view<char>', 'std::string_view', 'fmt::string_view',
           'std::basic_string<char,std::char_traits<char>,std::allocator<char>>', 'std::basic_string_view<char,std::char_traits<char>>')

_codes = TEXT_CODES


def str_code(s):
    """integer code of a string: literals have their own, distinct codes"""
    t = s.lit()
    if t is not None:
        return P(text_code(t))
    if len(s.parts) == 1 and s.parts[0][0] == 'sym':
        return s.parts[0][1]
    return None
