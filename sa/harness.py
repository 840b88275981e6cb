"""Runs the obligations of one property: for every obligation structure found in
the driver (driver/Cxx.cpp) the repository code reached from `impl` and the
specification `spec` are turned into value graphs over the same symbolic
arguments and compared."""
import json
import os
import signal
import subprocess
import sys
import time
import traceback
from .cast import *
from .interp import *
from . import models, terms
from .compare import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BWSL_REPO', '/repo')
FLAGS = ['-std=gnu++17', '-w', '-Wno-c++11-narrowing', '-DNDEBUG', '-I' + REPO + '/include', '-I' + REPO, '-I' + HERE + '/driver', '-DFMT_HEADER_ONLY']


class Timeout(Exception):
    pass


class CompileError(Exception):
    pass


def load_ast(pid, extra=()):
    src = os.path.join(HERE, 'driver', pid + '.cpp')
    flt = list(extra) or ['bwsl']
    r = subprocess.run(['clang++'] + FLAGS + ['-fsyntax-only', src], capture_output=True, text=True)
    if r.returncode:
        raise CompileError(r.stderr[-3000:])
    objs = []
    for f in flt:
        p = subprocess.run(['clang++'] + FLAGS + ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + f, src], capture_output=True, text=True)
        if p.returncode:
            raise CompileError(p.stderr[-3000:])
        objs += parse_stream(p.stdout)
    return AST(objs)


# ------------------------------------------------------------------ symbolic arguments
class Args:
    def __init__(self, I, st):
        self.refl = None
        self.I, self.st = I, st
        self.inputs = set()
        self.state = []          # repository classes given an arbitrary state

    def num(self, name, t):
        I = self.I
        k = I.kind(t)
        if k[0] == 'bool':
            b = bsym(name)
            self.inputs.add(b)
            return b
        if k[0] == 'int':
            a = sym(name, 'i', not k[2])
            self.inputs.add(a)
            self.range(P(a), k)
            return P(a)
        a = sym(name, 'r')
        self.inputs.add(a)
        return P(a)

    def range(self, p, k):
        bits = k[1]
        if bits < 64:
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if k[2] else (0, (1 << bits) - 1)
            self.st.facts = self.st.facts.add(ge0(p - lo)).add(ge0(P(hi) - p))

    def extents(self, f):
        """a grid has one size per dimension, and every table of a lattice one entry per site"""
        def table(v):
            return isinstance(v, Seq) and len(v.segs) == 1 and v.segs[0][0] == 'r'

        def resize(v, n):
            s = v.segs[0]
            return Seq([('r', n) + tuple(s[2:])], v.et)
        n, d, size, b = f.get('numsites_'), f.get('dim_'), f.get('size_'), f.get('boundaries_')
        if not isinstance(n, Poly) or not isinstance(d, Poly) or not table(size):
            return
        f['dim_'] = d = size.segs[0][1]
        if isinstance(f.get('numpairs_'), Poly):
            f['numpairs_'] = n * n
        closed = self.I.enums.get('bwsl::HyperCubicGrid::boundaries_t')
        for k in ('position_', 'vectors_', 'distance_', 'neighbors_', 'momenta_'):
            v = f.get(k)
            if not table(v):
                continue
            m = n
            if k == 'momenta_':
                c = [x for x in self.I.inner(closed[1]) if x.get('name') == 'Closed'] if closed and closed[1] else []
                if not c or not isinstance(b, Poly):
                    continue
                m = ite(eq0(b - int(self.I.enumconst(self.I.ast.decl.get(c[0].get('id'), c[0])))), n, ZERO)
            f[k] = resize(v, m)
            e = v.segs[0][3]
            if k in ('position_', 'vectors_', 'momenta_') and table(e):
                s = f[k].segs[0]
                f[k] = Seq([s[:3] + (resize(e, d),)], v.et)

    def enumerators(self, v, t):
        """a stored enumeration holds one of its enumerators"""
        I = self.I
        if not isinstance(v, TERM) or I.enum_of(bare(t)) is None:
            return
        n = I.enums[bare(t)][1] if bare(t) in I.enums else None
        cs = [c for c in I.inner(n) if c.get('kind') == 'EnumConstantDecl'] if n else []
        if not cs:
            return
        vs = sorted({int(I.enumconst(I.ast.decl.get(c.get('id'), c))) for c in cs})
        self.st.facts = self.st.facts.add(ge0(v - vs[0])).add(ge0(P(vs[-1]) - v))

    def make(self, name, t):
        I, st = self.I, self.st
        t = bare(t)
        k = I.kind(t)
        if k[0] in ('bool', 'int', 'flt'):
            return self.num(name, t)
        tn = tmpl_name(t)
        if tn == 'std::array':
            a = tmpl_args(t)
            return Seq([('e', self.make('%s%d' % (name, i), a[0])) for i in range(int(a[1]))], a[0])
        if t.endswith(']'):
            et = t[:t.rindex('[')].strip()
            m = int(t[t.rindex('[') + 1:-1])
            return Seq([('e', self.make('%s%d' % (name, i), et)) for i in range(m)], et)
        if tn in SEQS:
            et = tmpl_args(t)[0]
            n = sym('len_' + name, 'i', True)
            self.inputs.add(n)
            k = fresh('k', 'i', True)
            return Seq([('r', P(n), k, self.elem(name, et, (P(k),)))], et)
        if t in STRINGS or tn == 'std::basic_string':
            a = sym('str_' + name, 'i', True)
            self.inputs.add(a)
            return Str([('sym', P(a))])
        if tn == 'std::pair':
            a = tmpl_args(t)
            return Obj('std::pair', {'first': self.make(name + '.first', a[0]), 'second': self.make(name + '.second', a[1])})
        if models.is_rng(t):
            s, n = sym(name + '_s', 'i', True), sym(name + '_n', 'i', True)
            self.inputs |= {s, n}
            return Obj('rng', {'s': P(s), 'n': P(n)})
        if 'ostream' in t or 'ofstream' in t:
            return models.stream('std::ostringstream', buf=Str([]))
        d = models.std_default(I, t, st)
        if d is not None:
            return d
        rec = I.ast.record(t)
        if rec is not None:
            own = (rec.get('_q') or '').startswith('bwslv')
            if not own:
                b = self.build(name, t, rec)
                if b is not None:
                    return b
                self.state.append(rec)
            f = {}
            for b, fl in all_fields(I, rec):
                f[fl.get('name')] = self.make(name + '.' + fl.get('name'), qt(fl))
                self.enumerators(f[fl.get('name')], qt(fl))
            if not own:
                self.extents(f)
            return Obj(t, f)
        raise Unsupported('symbolic argument of type %s' % t)

    def build(self, name, t, rec):
        """a class whose representation changed: every value its constructor makes (Build<class> of the driver)"""
        I, st = self.I, self.st
        if self.refl is None or self.refl.get(rec.get('_q')) == layout(I, rec):
            return None
        d = I.ast.records.get(norm_type('bwslv::Build<%s>' % rec.get('_q')))
        if d is None:
            return None
        m = {c['name']: c for c in I.ast.all_members(d) if c.get('kind') == 'CXXMethodDecl' and I.ast.body(c) is not None}
        vals = [self.make('%s.%s' % (name, p.get('name')), qt(p)) for p in I.ast.params(m['make'])]
        s1 = st.clone()
        p = Run(I, m['ok'], vals, s1)
        st.facts = st.facts.add(p.ret)
        s1 = st.clone()
        r = Run(I, m['make'], vals, s1)
        if r.throws or not r.alive:
            raise Unsupported('the constructor of %s throws' % t)
        return r.ret

    def elem(self, name, t, ix):
        I = self.I
        t = bare(t)
        k = I.kind(t)
        self.inputs.add(SelName(name))
        if k[0] == 'bool':
            return mk_b('bsel', (name,) + ix)
        if k[0] == 'int':
            return P(mk_atom('sel', (name,) + ix, 'i', not k[2]))
        if k[0] == 'flt':
            return P(mk_atom('sel', (name,) + ix, 'r', False))
        tn = tmpl_name(t)
        if tn == 'std::array':
            a = tmpl_args(t)
            return Seq([('e', self.elem('%s%d' % (name, i), a[0], ix)) for i in range(int(a[1]))], a[0])
        if tn in SEQS:
            et = tmpl_args(t)[0]
            self.inputs.add(SelName('len_' + name))
            n = P(mk_atom('sel', ('len_' + name,) + ix, 'i', True))
            k = fresh('k', 'i', True)
            return Seq([('r', n, k, self.elem(name, et, ix + (P(k),)))], et)
        if t in STRINGS or tn == 'std::basic_string':
            return Str([('sym', P(mk_atom('sel', (name,) + ix, 'i', True)))])
        rec = I.ast.record(t)
        if rec is not None:
            if not (rec.get('_q') or '').startswith('bwslv'):
                self.state.append(rec)
            return Obj(t, {fl.get('name'): self.elem(name + '.' + fl.get('name'), qt(fl), ix) for b, fl in all_fields(I, rec)})
        raise Unsupported('symbolic element of type %s' % t)


def all_fields(I, rec):
    return [(rec, f) for _, f in I.ast.fields(rec)]


def layout(I, rec):
    """field names and types of a class, the shape a claim about arbitrary states relies on"""
    return [[f.get('name'), bare(qt(f))] for _, f in all_fields(I, rec)]


# ------------------------------------------------------------------ obligations
class Ob:
    def __init__(self, rec, name, ast):
        self.rec, self.name, self.ast = rec, name, ast
        self.m = {}
        for c in ast.all_members(rec):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') in ('pre', 'impl', 'spec') and ast.body(c) is not None:
                self.m[c['name']] = c
        self.opt = {}
        for c in ast.all_members(rec):
            if c.get('kind') == 'EnumDecl':
                for e in c.get('inner', []):
                    if e.get('kind') == 'EnumConstantDecl':
                        v = find_int(e)
                        self.opt[e['name']] = 1 if v is None else v


def find_int(n):
    if n.get('kind') in ('ConstantExpr', 'IntegerLiteral', 'CXXBoolLiteralExpr') and 'value' in n:
        v = n['value']
        if isinstance(v, bool):
            return int(v)
        return {'true': 1, 'false': 0}[v] if v in ('true', 'false') else int(v)
    for c in n.get('inner', []) or []:
        v = find_int(c)
        if v is not None:
            return v
    return None


def obligations(ast, pid):
    out = []
    seen = set()
    for q, r in ast.records.items():
        nm = r.get('name') or ''
        if not nm.startswith(pid + '_'):
            continue
        full = (r.get('_q') or nm).replace('bwslv::', '')
        o = Ob(r, full, ast)
        if 'impl' in o.m and 'spec' in o.m and full not in seen and not ast.dependent(o.m['impl']):
            seen.add(full)
            out.append(o)
    return out


class Run:
    """outcome of one symbolic evaluation"""

    def __init__(self, I, fn, vals, st):
        self.I = I
        self.st = st
        n0 = len(I.throws)
        refs = []
        args = []
        for p, v in zip(I.ast.params(fn), vals):
            t = norm_type(qt(p))
            r = I.new_cell(st, v)
            args.append(r)
            if t.endswith('&') and 'const' not in qt(p):
                refs.append((p.get('name'), r))
        rv = I.call(fn, None, args, st, Frame(fn))
        self.throws = I.throws[n0:]
        del I.throws[n0:]
        self.alive = st.alive
        self.ret = I.load(st, rv) if st.alive else None
        self.refs = {n: I.read(st, r) for n, r in refs} if st.alive else {}
        key = I.globals.get('fs')
        self.log = st.cells.get(key[0]) if key and st.alive else None

    def throw_guard(self):
        d = {}
        for s, t, v in self.throws:
            d.setdefault(t, []).append(s.guard)
        return {t: or_(*g) for t, g in d.items()}


# properties about integers: a detour through floating point numbers rounds
EXACT = ('C01', 'C02', 'C03', 'C04', 'C05', 'C08', 'C26')
# properties that fix every rounding
ROUNDING = EXACT + ('C13',)


def check_one(ast, ob, tier, seed, refl, limit):
    """returns a result dictionary"""
    t0 = time.time()
    res = {'name': ob.name, 'verdict': 'UNDECIDED', 'why': '', 'obligations': 0, 'functions': [], 'loops': 0}
    cfg = {'fp': bool(ob.opt.get('fp', ob.name[:3] in EXACT)), 'argmin': bool(ob.opt.get('argmin')), 'iofail': bool(ob.opt.get('iofail'))}
    if ob.opt.get('sorted'):
        cfg['sorted'] = True
    if ob.opt.get('wrap'):
        cfg['wrap'] = True
    if ob.opt.get('nosum'):
        cfg['nosum'] = True
    if ob.opt.get('forks'):
        cfg['forks'] = ob.opt['forks']
    if ob.opt.get('steps'):
        cfg['maxsteps'] = ob.opt['steps'] * 1000
    I = Interp(ast, cfg)
    base = State()
    A = Args(I, base)
    A.refl = refl
    r1 = r2 = None
    try:
        ps = ast.params(ob.m['impl'])
        for m in ob.m.values():
            if [bare(qt(x)) for x in ast.params(m)] != [bare(qt(x)) for x in ps]:
                raise Unsupported('driver: parameters of pre, impl and spec differ')
        vals = [A.make(p.get('name') or 'a%d' % i, qt(p)) for i, p in enumerate(ps)]
        res['state_classes'] = {}
        for r in A.state:
            res['state_classes'][r.get('_q')] = layout(I, r)
        models.fs(I, base)
        for s in ('cout', 'cerr'):
            I.std_stream(base, s)
        if 'pre' in ob.m:
            st = base.clone()
            p = Run(I, ob.m['pre'], vals, st)
            if p.throws:
                raise Unsupported('precondition throws')
            base.facts = base.facts.add(p.ret if isinstance(p.ret, B) else not_(eq0(p.ret)))
            if base.facts.bad:
                raise Unsupported('precondition is unsatisfiable')
        I.trace, I.seen_fn = [], {}
        s1 = base.clone()
        r1 = Run(I, ob.m['impl'], vals, s1)
        res['functions'] = [(q, l) for q, l in I.trace if not (q or '').startswith('bwslv') or (l and str(l[0]).startswith(REPO))]
        res['loops'] = I.nloops
        res['steps'] = I.steps
        s2 = base.clone()
        r2 = Run(I, ob.m['spec'], vals, s2)
        if I.unknowns:
            pass
        C = Cmp(I, limit)
        compare_runs(C, r1, r2, base.facts)
        res['obligations'] = max(C.n, 1)
        res['verdict'] = 'PROVED'
    except Diff as d:
        env, why = certify(d, A.inputs, seed=seed, exact=cfg['fp'] and ob.name[:3] in ROUNDING)
        where = 'observable %s' % d.path
        conds = [show_x(l) for l in d.facts.order][-8:]
        if env is not None:
            res['verdict'] = 'REFUTED'
            res['why'] = where
            res['witness'] = show_env(env, A.inputs)
            res['path'] = conds
            res['code'] = brief(d.a)
            res['expected'] = brief(d.b)
            res['diff'] = brief(d.what)
            gate(res, d.path, refl)
        else:
            res['why'] = '%s: %s' % (where, why)
            res['code'], res['expected'] = brief(d.a), brief(d.b)
            res['diff'] = brief(d.what)
            res['path'] = conds
    except Unknown as e:
        res['why'] = 'comparison: %s' % e
    except Unsupported as e:
        res['why'] = 'no transfer function: %s at %s' % (e, I.where(I.cur))
    except Budget:
        res['why'] = 'decision budget exhausted'
    except Timeout:
        res['why'] = 'time budget exhausted'
    except RecursionError:
        res['why'] = 'recursion depth'
    except Exception as e:
        res['why'] = 'analysis error %s: %s at %s' % (type(e).__name__, e, I.where(I.cur))
        res['tb'] = traceback.format_exc()[-1500:]
    if res['verdict'] == 'UNDECIDED' and r1 is not None and r2 is not None and not res['why'].startswith('difference at'):
        try:
            w = certify_runs(r1, r2, base.facts, A.inputs, seed=seed, strict=cfg['fp'], exact=cfg['fp'] and ob.name[:3] in ROUNDING, text=any(isinstance(a, Atom) and a.kind == 'sel' and a.args[0] == 'textop' for a in list(terms._atom_tab.values())))
        except Exception as e:
            w = None
            if os.environ.get('SA_DEBUG'):
                res['tb'] = traceback.format_exc()[-1500:]
        if w is not None:
            env, (path, x, y) = w
            res['verdict'], res['why'] = 'REFUTED', 'observable %s' % path
            res['witness'] = show_env(env, A.inputs)
            res['code'], res['expected'] = str(x), str(y)
            gate(res, path, refl)
    res['wall'] = round(time.time() - t0, 3)
    if os.environ.get('SA_DEBUG') and 'functions' not in res:
        res['functions'] = []
    return res


def gate(res, path, refl):
    for q, l in res.get('state_classes', {}).items():
        if refl.get(q) != l:
            res['verdict'] = 'UNDECIDED'
            res['why'] = 'difference at %s, but the representation of %s changed: the assumed state invariant may not apply' % (path, q)


def compare_runs(C, r1, r2, facts):
    g1, g2 = r1.throw_guard(), r2.throw_guard()
    for t in sorted(set(g1) | set(g2)):
        C.n += 1
        a, b = g1.get(t, FALSE), g2.get(t, FALSE)
        r = C.pr.iff(a, b, facts)
        if not r.ok:
            raise Diff('throws %s' % t, r.leaf, r.diff, a, b)
    f = facts
    for t, g in g1.items():
        f = f.add(not_(g))
    if f.bad:
        return
    if not r1.alive and not r2.alive:
        return
    if r1.alive != r2.alive:
        if C.pr.iff(TRUE, FALSE, f).ok:
            return
        raise Diff('termination', f, TRUE)
    C.go(r1.ret, r2.ret, f, 'result')
    for n in r1.refs:
        C.go(r1.refs[n], r2.refs[n], f, 'argument ' + n)
    if r1.log is not None and r2.log is not None:
        C.go(normalise_log(C.I, r1.log), normalise_log(C.I, r2.log), f, 'output')


def brief(x):
    if x is None:
        return None
    s = show_x(x) if isinstance(x, TERM) else str(x)
    return s if len(s) < 1500 else s[:1500] + '...'


# ------------------------------------------------------------------ driver
def _alarm(*a):
    raise Timeout()


_ctx = {}


def _work(i):
    ob = _ctx['obs'][i]
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(ob.opt.get('time', 0) or _ctx['time']))
    try:
        return check_one(_ctx['ast'], ob, _ctx['tier'], _ctx['seed'], _ctx['layouts'], _ctx['limit'])
    except Timeout:
        return {'name': ob.name, 'verdict': 'UNDECIDED', 'why': 'time budget exhausted', 'obligations': 0, 'functions': [], 'loops': 0}
    finally:
        signal.alarm(0)


def layouts():
    try:
        return json.load(open(os.path.join(HERE, 'sa', 'layouts.json')))
    except FileNotFoundError:
        return {}


def run_obligations(pid, tier='quick', seed=1, only=None, jobs=8, extra=()):
    import multiprocessing as mp
    ast = load_ast(pid, extra)
    obs = [o for o in obligations(ast, pid) if tier == 'thorough' or not o.opt.get('thorough')]
    if only:
        obs = [o for o in obs if only in o.name]
    _ctx.update(obs=obs, ast=ast, tier=tier, seed=seed, layouts=layouts(), time=60 if tier == 'quick' else 900, limit=4000)
    if not obs:
        return []
    if len(obs) == 1 or jobs == 1:
        return [_work(i) for i in range(len(obs))]
    with mp.get_context('fork').Pool(min(jobs, len(obs))) as p:
        return p.map(_work, range(len(obs)), chunksize=1)
