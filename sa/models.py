"""Transfer functions for the parts of the standard library, fmt and boost the
code base uses (and neighbours a change could reach for)."""
import math
import re
from .values import *
from .prove import *
from .cast import *
from .interp import closed_root, PtrTo, RefVal, SEQS, STRINGS, str_code, State, Frame, INTS

MAXE = 64
EXC = ('std::exception', 'std::logic_error', 'std::runtime_error', 'std::out_of_range', 'std::invalid_argument', 'std::overflow_error',
       'std::underflow_error', 'std::domain_error', 'std::length_error', 'std::range_error')
FUNCTORS = ('plus', 'minus', 'multiplies', 'divides', 'modulus', 'negate', 'less', 'greater', 'less_equal', 'greater_equal', 'equal_to',
            'not_equal_to', 'logical_and', 'logical_or', 'logical_not')
ENGINES = ('std::mersenne_twister_engine', 'std::mt19937_64', 'std::mt19937')


def is_rng(t):
    t = bare(t)
    return tmpl_name(t) in ENGINES


def functor_of(t):
    t = bare(t)
    n = tmpl_name(t)
    if n.startswith('std::') and n[5:] in FUNCTORS:
        a = tmpl_args(t)
        return Fn(n[5:], None, a[0] if a and a[0] != 'void' else '')
    return None


def stream(kind, **kw):
    f = {'fail': FALSE, 'bad': FALSE, 'eof': FALSE, 'prec': P(6)}
    f.update(kw)
    return Obj(kind, f)


def rng_new(seed, how='mtseed'):
    return Obj('rng', {'s': P(mk_atom('sel', (how, P(seed)), 'i', True)), 'n': ZERO})


def rng64(t):
    return bool(re.match(r'.*<unsigned long,64', t.replace(' ', '').replace('unsignedlong', 'unsigned long'))) or bare(t) == 'std::mt19937_64'


# ------------------------------------------------------------------ defaults
def std_default(I, t, st):
    f = functor_of(t)
    if f is not None:
        return f
    n = tmpl_name(t)
    if n in ('std::basic_ostringstream', 'std::ostringstream'):
        return stream('std::ostringstream', buf=Str([]))
    if n in ('std::basic_istringstream', 'std::istringstream'):
        return stream('std::istringstream', rest=Str([]))
    if n in ('std::basic_stringstream', 'std::stringstream'):
        return stream('std::stringstream', rest=Str([]), buf=Str([]))
    if n in ('std::basic_ofstream', 'std::ofstream'):
        return stream('std::ofstream', file=Str([('lit', '<closed>')]))
    if n in EXC:
        return Obj(n, {'what': Str([('lit', n)])})
    if is_rng(t):
        return rng_new(P(5489))
    if n == 'std::uniform_real_distribution':
        return Obj('std::uniform_real_distribution', {'a': ZERO, 'b': ONE})
    if n == 'std::tuple':
        return Obj('std::tuple', {str(i): I.default(a, st, None) for i, a in enumerate(tmpl_args(t))})
    if n == 'std::optional':
        return Obj('std::optional', {'has': FALSE, 'v': I.default(tmpl_args(t)[0], st, None)})
    if n in ('std::allocator', 'std::integral_constant', 'std::initializer_list', 'std::nullopt_t', 'std::true_type', 'std::false_type') or n.startswith('boost::mpl') or 'integral_constant' in t or n.startswith('mpl_'):
        m = re.search(r'(true|false)', t)
        return Obj('const', {'value': Bc(m is not None and m.group(1) == 'true')})
    return None


def params_of(ct):
    m = re.search(r'\((.*)\)', ct or '')
    return m.group(1) if m else ''


def std_construct(I, t, ct, vals, args, st, fr, node):
    n = tmpl_name(t)
    ps = params_of(ct)
    if n in SEQS or n == 'std::array':
        et = tmpl_args(t)[0]
        if not vals:
            return I.default(t, st, fr)
        x = I.load(st, vals[0])
        if isinstance(x, Choice) and len(vals) == 1:
            return x
        if isinstance(x, Seq) and len(vals) == 1 or isinstance(x, Seq) and len(vals) == 2 and not isinstance(vals[1], TERM):
            if ps.rstrip().endswith('&&') and isinstance(vals[0], Ref) and n in SEQS and n != 'std::initializer_list':
                I.write(st, vals[0], Seq([], x.et))
            return Seq(x.segs, et)
        if isinstance(x, Iter) and len(vals) >= 2:
            y = I.load(st, vals[1])
            return range_seq(I, x, y, et, st)
        if isinstance(x, Poly):
            k = I.normi(st, x, I.kind(qt(args[0])) if args else ('int', 64, False))
            if len(vals) >= 2:
                v = I.load(st, vals[1])
                if isinstance(v, TERM):
                    v = I.convert(v, qt(args[1]), et, st)
            else:
                v = I.default(et, st, fr)
            return rep(I, st, k, v, et)
        raise Unsupported('construction of %s' % t)
    if t in STRINGS or n == 'std::basic_string' or n == 'std::basic_string_view' or n.endswith('basic_string_view'):
        if not vals:
            return Str([])
        x = I.load(st, vals[0])
        if isinstance(x, (Str, Choice)) and len(vals) == 1:
            if ps.rstrip().endswith('&&') and isinstance(vals[0], Ref):
                I.write(st, vals[0], Str([]))
            return x
        if isinstance(x, PtrTo):
            return I.read(st, x.ref)
        if isinstance(x, Poly) and len(vals) == 2:
            c, k = P(I.load(st, vals[1])).const(), x.const()
            if c is not None and k is not None:
                return Str([('lit', chr(int(c)) * int(k))])
        if isinstance(x, Iter) and len(vals) == 2 or isinstance(x, Obj):
            if isinstance(x, Obj) and x.cls == 'std::istreambuf_iterator' and len(vals) == 2 and x.f['end'] is FALSE:
                o = I.read(st, x.f['f'].ref)
                if o.cls == 'std::ifstream' and I.load(st, vals[1]).f['end'] is TRUE:
                    I.write(st, x.f['f'].ref, o.set('pos', st.facts.simp(ite(ateof(I, st, o), o.f['pos'], fsize(o)))))
                    return Str([('file', o)])
            raise Unsupported('string from iterators')
        raise Unsupported('construction of a string')
    if n == 'std::map':
        if not vals:
            return I.default(t, st, fr)
        x = I.load(st, vals[0])
        if isinstance(x, Map):
            return x
        if isinstance(x, Seq) and x.concrete():
            m = I.default(t, st, fr)
            for e in x.elems():
                m = map_insert(m, e.f['first'], e.f['second'], False)
            return m
        raise Unsupported('construction of a map')
    if n in ('std::pair', 'std::tuple'):
        ta = tmpl_args(t)
        if not vals:
            return I.default(t, st, fr)
        if len(vals) == 1 and not (n == 'std::tuple' and len(ta) == 1):
            x = I.load(st, vals[0])
            if isinstance(x, (Obj, Choice)):
                return x
        keys = ('first', 'second') if n == 'std::pair' else [str(i) for i in range(len(ta))]
        d = {}
        for k, v, a, ty in zip(keys, vals, args, ta):
            if norm_type(ty).endswith('&'):
                d[k] = RefVal(v)
                continue
            x = moved(I, v, a, st)
            d[k] = I.convert(x, qt(a), ty, st) if isinstance(x, TERM) else x
        return Obj(n, d)
    f = functor_of(t)
    if f is not None:
        return f
    if n in ('std::basic_ofstream', 'std::ofstream', 'std::basic_fstream', 'std::fstream'):
        if not vals:
            return std_default(I, t, st)
        x = I.load(st, vals[0])
        if isinstance(x, Obj):
            return x
        name = x
        mode = 16
        if len(vals) > 1:
            mode = P(I.load(st, vals[1])).const()
            if mode is None:
                raise Unsupported('open mode')
        event(I, st, open_mode(mode), name, None)
        return stream('std::ofstream', file=name)
    if n in ('std::basic_ifstream', 'std::ifstream'):
        if not vals:
            raise Unsupported('unopened input file')
        name = I.load(st, vals[0])
        if isinstance(name, Obj):
            return name
        mode = 8
        if len(vals) > 1:
            mode = P(I.load(st, vals[1])).const()
            if mode is None:
                raise Unsupported('open mode')
        return ifile(I, name, int(mode), st)
    if n in ('std::basic_ostringstream', 'std::ostringstream'):
        return std_default(I, t, st)
    if n in ('std::basic_istringstream', 'std::istringstream', 'std::basic_stringstream', 'std::stringstream'):
        o = std_default(I, t, st)
        if vals:
            x = I.load(st, vals[0])
            if isinstance(x, Obj):
                return x
            if isinstance(x, Str):
                o = o.set('rest', x)
        return o
    if n in EXC:
        x = I.load(st, vals[0]) if vals else Str([('lit', n)])
        if isinstance(x, Obj):
            return x
        return Obj(n, {'what': x})
    if is_rng(t):
        if not vals:
            return rng_new(P(5489), 'mtseed' if rng64(t) else 'mtseed32')
        x = I.load(st, vals[0])
        if isinstance(x, Obj) and x.cls == 'std::seed_seq':
            return rng_new(x.f['v'], 'mtseedseq' if rng64(t) else 'mtseedseq32')
        if isinstance(x, Obj):
            return x
        k = I.kind(qt(args[0]))
        bits = 64 if rng64(t) else 32
        v = I.convert(x, qt(args[0]), 'unsigned long', st)
        v = I.normu(st, v)
        if bits == 32:
            v = I.narrowto(st, v, 32, False)
        return rng_new(v, 'mtseed' if bits == 64 else 'mtseed32')
    if n == 'std::complex':
        if I.fp:
            raise Unsupported('complex')
        if len(vals) == 1 and isinstance(I.load(st, vals[0]), Obj):
            return I.load(st, vals[0])
        return cplx(*[P(I.load(st, vals[i])) if i < len(vals) else ZERO for i in (0, 1)])
    if n == 'std::bernoulli_distribution':
        if vals and isinstance(I.load(st, vals[0]), Obj):
            return I.load(st, vals[0])
        return Obj(n, {'p': P(I.load(st, vals[0])) if vals else P(Fr(1, 2))})
    if n == 'std::seed_seq':
        vs = [I.load(st, v) for v in vals]
        if len(vs) == 1 and isinstance(vs[0], Obj) and vs[0].cls == n:
            return vs[0]
        if len(vs) == 1 and isinstance(vs[0], Seq) and vs[0].concrete() and len(vs[0].segs) == 1:
            vs = [vs[0].segs[0][1]]
        if len(vs) == 1 and isinstance(vs[0], Poly):
            return Obj(n, {'v': narrow(32, False, vs[0])})
        raise Unsupported('seed sequence')
    if n == 'std::uniform_real_distribution':
        if vals and isinstance(I.load(st, vals[0]), Obj):
            return I.load(st, vals[0])
        a = P(I.load(st, vals[0])) if vals else ZERO
        b = P(I.load(st, vals[1])) if len(vals) > 1 else ONE
        return Obj('std::uniform_real_distribution', {'a': a, 'b': b})
    if n == 'std::istreambuf_iterator':
        if not vals:
            return Obj('std::istreambuf_iterator', {'end': TRUE})
        x = I.load(st, vals[0])
        if isinstance(x, Obj) and x.cls == 'std::istreambuf_iterator':
            return x
        if isinstance(x, PtrTo):
            return Obj('std::istreambuf_iterator', {'end': FALSE, 'f': x})
        if isinstance(vals[0], Ref):
            return Obj('std::istreambuf_iterator', {'end': FALSE, 'f': PtrTo(vals[0])})
        raise Unsupported('istreambuf_iterator')
    if n == 'std::ostream_iterator':
        if isinstance(I.load(st, vals[0]), Obj) and I.load(st, vals[0]).cls == n:
            return I.load(st, vals[0])
        return Obj(n, {'s': PtrTo(vals[0]), 'sep': I.load(st, vals[1]) if len(vals) > 1 else Str([])})
    if len(vals) == 1:
        # iterator conversions, copies and moves of library values, format strings
        x = I.load(st, vals[0])
        if n == 'std::reverse_iterator' and isinstance(x, Iter) and not x.rev:
            raise Unsupported('reverse_iterator')
        return x
    if not vals:
        v = std_default(I, t, st)
        if v is not None:
            return v
    raise Unsupported('construction of %s at %s' % (t, I.where(node)))


def moved(I, v, a, st):
    """value of an argument; a moved-from container becomes empty"""
    x = I.load(st, v)
    if isinstance(v, Ref) and a is not None and a.get('valueCategory') == 'xvalue' and isinstance(x, (Seq, Str)):
        ty = bare(qt(a))
        if isinstance(x, Str) or tmpl_name(ty) in SEQS:
            I.write(st, v, Seq([], x.et) if isinstance(x, Seq) else Str([]))
    return x


def rep(I, st, k, v, et):
    k = st.facts.simp(k)
    c = k.const()
    if c is not None:
        if c < 0 or c > 5000:
            raise Unsupported('container of %s elements' % c)
        if c <= MAXE:
            return Seq([('e', v)] * int(c), et)
    return Seq([('r', k, fresh('k', 'i', True), v)], et)


def piecewise(I, st, parts, et):
    """the concatenation of stretches (sequence, first, count) of sequences"""
    out = []
    for x, a, n in parts:
        n, a = st.facts.simp(n), st.facts.simp(a)
        c = n.const()
        if c == 0:
            continue
        if a.const() == 0 and n is st.facts.simp(slen(x.segs)):
            out += list(x.segs)
        elif c is not None and c <= MAXE:
            out += [('e', I.index(st, x, st.facts.simp(a + i))) for i in range(int(c))]
        else:
            k = fresh('k', 'i', True)
            f = State(st.cells, st.facts.add(ge0(n - 1 - P(k))))
            out.append(('r', n, k, I.index(f, x, f.facts.simp(a + P(k)))))
    return Seq(out, et)


def range_seq(I, a, b, et, st):
    cont = I.read(st, a.ref)
    if a.ref != b.ref:
        raise Unsupported('range over two containers')
    if isinstance(cont, Map):
        raise Unsupported('range of a map')
    n = st.facts.simp(b.pos - a.pos)
    c = n.const()
    src = cont.et if isinstance(cont, Seq) else ''

    def conv(v):
        return I.convert(v, src, et, st) if isinstance(v, TERM) and src and et else v
    if c is not None:
        return Seq([('e', conv(I.read2(st, I.deref(st, Iter(a.ref, a.pos + i, a.rev))))) for i in range(int(c))], et)
    if not a.rev and a.pos.const() == 0 and n is st.facts.simp(slen(cont.segs)):
        return Seq(cont.segs, et)
    k = fresh('k', 'i', True)
    f = State(st.cells, st.facts.add(ge0(n - 1 - P(k))))
    return Seq([('r', n, k, conv(I.read2(f, I.deref(f, Iter(a.ref, a.pos + P(k), a.rev)))))], et)


# ------------------------------------------------------------------ files
def fs(I, st):
    k = 'fs'
    if k not in I.globals:
        I.ncell += 1
        I.globals[k] = (I.ncell, Seq([], 'event'))
    c, v = I.globals[k]
    if c not in st.cells:
        st.cells[c] = v
    return Ref(c)


def open_mode(mode):
    if mode is None:
        raise Unsupported('open mode')
    mode = int(mode)
    if mode & 1 and not mode & 32:
        return 'app'
    if mode & 8 and not mode & 32 or mode & 1:
        raise Unsupported('open mode')
    return 'trunc'


def event(I, st, op, name, text):
    r = fs(I, st)
    s = I.read(st, r)
    e = Obj('ev', {'op': Str([('lit', op)]), 'file': name, 'text': text if text is not None else Str([])})
    I.write(st, r, Seq(s.segs + (('e', e),), s.et))


def ifile(I, name, mode, st):
    c = str_code(name) if isinstance(name, Str) else None
    if c is None:
        raise Unsupported('file name')
    ok = mk_b('bsel', ('readable', c))
    size = P(mk_atom('sel', ('filesize', c), 'i', True))
    return Obj('std::ifstream', {'code': c, 'fail': not_(ok), 'bad': FALSE, 'closed': not_(ok), 'pos': ite(ok, size, ZERO) if mode & 2 else ZERO, 'prec': P(6)})


def fsize(o):
    return P(mk_atom('sel', ('filesize', o.f['code']), 'i', True))


def fbyte(o, k):
    return P(mk_atom('sel', ('filebyte', o.f['code'], k), 'i', True))


def put(I, st, ref, parts):
    """write text parts to a stream"""
    o = I.read(st, ref)
    t = Str(parts)
    if 'buf' in o.f:
        if 'rest' in o.f:
            if st.facts.simp(or_(o.f['fail'], o.f.get('eof', FALSE))).kind != 'F' or (o.f['rest'].parts and not o.f['buf'].parts):
                raise Unsupported('output to a string stream in use for input')
            I.write(st, ref.sub(('f', 'rest')), o.f['rest'] + t)
        I.write(st, ref.sub(('f', 'buf')), o.f['buf'] + t)
    elif 'file' in o.f:
        event(I, st, 'write', o.f['file'], t)
    else:
        raise Unsupported('output to %s' % o.cls)


def fmt_parts(I, fs_, vals, args, st):
    out = []
    i = 0
    j = 0
    auto = 0
    s = fs_
    while i < len(s):
        ch = s[i]
        if ch == '{':
            if s[i:i + 2] == '{{':
                out.append(('lit', '{'))
                i += 2
                continue
            e, depth = i + 1, 1
            while depth:
                if e >= len(s):
                    raise Unsupported('format string')
                depth += {'{': 1, '}': -1}.get(s[e], 0)
                e += 1
            e -= 1
            spec = s[i + 1:e]
            idx, _, sp = spec.partition(':')
            if idx == '':
                idx = auto
                auto += 1
            elif idx.isdigit():
                idx = int(idx)
            else:
                raise Unsupported('named format argument')
            if idx >= len(vals):
                raise Unsupported('format string with too few arguments')
            m = re.fullmatch(r'(.*\.)\{(\d*)\}(\w?)', sp)
            pv = None
            if m:
                j = int(m.group(2)) if m.group(2) else auto
                auto += not m.group(2)
                if j >= len(vals):
                    raise Unsupported('format string with too few arguments')
                pv = st.facts.simp(P(I.load(st, vals[j])))
                sp = m.group(1) + (str(int(pv.const())) if pv.const() is not None else '*') + m.group(3)
                if pv.const() is not None:
                    pv = None
            elif '{' in sp:
                raise Unsupported('nested format specification')
            if pv is not None:
                out.append(('val', pv, 'precision'))
            out += val_parts(I, vals[idx], qt(args[idx]) if args else '', sp, st)
            i = e + 1
        elif ch == '}':
            out.append(('lit', '}'))
            i += 2
        else:
            out.append(('lit', ch))
            i += 1
    return out


def val_parts(I, v, t, spec, st):
    if isinstance(v, (Ref, CondRef)):
        v = I.load(st, v)
    if isinstance(v, PtrTo):
        v = I.load(st, v.ref)
    if isinstance(v, Str):
        if spec and v.lit() is None:
            raise Unsupported('padded text')
        if spec:
            return [('lit', pad(v.lit(), spec))]
        return list(v.parts)
    if isinstance(v, B):
        return [('val', ite(v, ONE, ZERO), 'b' + spec)]
    if isinstance(v, Poly):
        k = I.kind(t) if t else None
        if bare(t) == 'char' and v.const() is not None:
            return [('lit', chr(int(v.const()) & 255))]
        if k and k[0] == 'int':
            v = st.facts.simp(I.normi(st, v, k))
            c = v.const()
            if c is not None and not spec:
                return [('lit', str(int(c)))]
            return [('val', v, spec)]
        v = st.facts.simp(v)
        return [('val', v, 'f' + spec)]
    if isinstance(v, Obj) and v.cls == 'rng':
        return [('val', P(mk_atom('sel', ('mtstate', v.f['s'], v.f['n']), 'i', True)), 'rng')]
    if isinstance(v, Choice):
        raise Unsupported('alternative text')
    raise Unsupported('formatting of %s' % type(v).__name__)


def pad(s, spec):
    try:
        return ('{:%s}' % spec).format(s)
    except Exception:
        raise Unsupported('format specification')


# ------------------------------------------------------------------ functors
def call_fn(I, f, vals, tys, node, st, fr):
    """apply a callable to values (or references)"""
    if isinstance(f, (Ref, CondRef)):
        fv = I.load(st, f)
        if isinstance(fv, Obj):
            return I.call_method(f, 'operator()', vals, st, fr)
        f = fv
    if isinstance(f, PtrTo):
        f = I.load(st, f.ref)
    if isinstance(f, Closure):
        # argument conversions of the parameters
        return I.load_keep(st, I.call_closure(f, conv_args(I, f.op, vals, tys, st), st, fr))
    if isinstance(f, Fn):
        if f.node is not None and I.ast.body(f.node) is not None:
            return I.call(f.node, None, conv_args(I, f.node, vals, tys, st), st, fr)
        return functor(I, f, vals, tys, node, st)
    if isinstance(f, Obj):
        return I.call_method(I.new_cell(st, f), 'operator()', vals, st, fr)
    raise Unsupported('callable')


def conv_args(I, d, vals, tys, st):
    if d.get('kind') == 'FunctionTemplateDecl':
        return vals
    ps = I.ast.params(d)
    out = []
    for j, v in enumerate(vals):
        t = tys[j] if j < len(tys) else ''
        pt = qt(ps[j]) if j < len(ps) else ''
        kd = I.kind(pt) if pt else ('obj',)
        if t and pt and kd[0] in ('int', 'flt', 'bool') and I.kind(t)[0] in ('int', 'flt', 'bool') and bare(t) != bare(pt):
            x = I.load(st, v)
            v = I.convert(x, t, pt, st)
        out.append(v)
    return out


OPS = {'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/', 'modulus': '%', 'less': '<', 'greater': '>', 'less_equal': '<=',
       'greater_equal': '>=', 'equal_to': '==', 'not_equal_to': '!='}


def functor(I, f, vals, tys, node, st):
    xs = [I.load(st, v) for v in vals]
    name = f.name
    T = f.ty
    if T and I.kind(T)[0] in ('int', 'flt', 'bool'):
        xs = [I.convert(x, t, T, st) if t else x for x, t in zip(xs, tys)]
    elif not T:
        T = common(I, tys)
        if T:
            xs = [I.convert(x, t, T, st) if t else x for x, t in zip(xs, tys)]
    if name in OPS:
        T2 = T or 'long'
        return I.binop(OPS[name], xs[0], xs[1], T2, T2, T2, st)
    if name == 'negate':
        return -P(xs[0])
    if name == 'logical_and':
        return and_(I.tobool(st, xs[0]), I.tobool(st, xs[1]))
    if name == 'logical_or':
        return or_(I.tobool(st, xs[0]), I.tobool(st, xs[1]))
    if name == 'logical_not':
        return not_(I.tobool(st, xs[0]))
    if name in MATH1 and len(xs) == 1:
        return math1(I, name, xs[0], tys[0] if tys else 'double', st)
    raise Unsupported('functor %s' % name)


def common(I, tys):
    """usual arithmetic conversions"""
    ts = [t for t in tys if t]
    if not ts:
        return ''
    ks = [I.kind(t) for t in ts]
    if any(k[0] == 'flt' for k in ks):
        fl = [k[1] for k in ks if k[0] == 'flt']
        return 'long double' if 'long double' in fl else 'double' if 'double' in fl else 'float'
    if not all(k[0] in ('int', 'bool') for k in ks):
        return ''
    bits = max([32] + [k[1] for k in ks])
    uns = any(not k[2] and k[1] == bits for k in ks)
    return {(32, True): 'int', (32, False): 'unsigned int', (64, True): 'long', (64, False): 'unsigned long'}[(bits, not uns)]


def et_of(I, st, it):
    if isinstance(it, Iter):
        c = I.read(st, it.ref)
        if isinstance(c, Seq):
            return c.et
    return ''


# ------------------------------------------------------------------ functions
MATH1 = {'sqrt', 'exp', 'log', 'sin', 'cos', 'fabs', 'abs', 'round', 'floor', 'ceil', 'trunc', 'tan', 'log10', 'log2', 'cbrt', 'lround', 'llround',
         'log1p', 'expm1', 'exp2', 'labs', 'llabs', 'sqrtf', 'sqrtl', 'fabsf', 'fabsl', 'isnan', 'isinf', 'isfinite', 'signbit', '__builtin_sqrt',
         '__builtin_fabs', '__builtin_isnan', 'asin', 'acos', 'sinh', 'cosh', 'tanh', 'erf', 'erfc', 'lgamma', 'tgamma', 'lrint', 'llrint', 'rint', 'nearbyint', 'norm', 'atan', '__builtin_floor', '__builtin_round', '__builtin_exp', '__builtin_log', '__builtin_sin', '__builtin_cos'}


def math1(I, name, x, t, st):
    r = math1d(I, name, x, t, st)
    # the overload for float rounds its result to a float
    if name == 'sqrtf' or name in ('sqrt', '__builtin_sqrt') and t and I.kind(t)[:2] == ('flt', 'float'):
        if isinstance(r, Poly) and closed_root(r):
            return I.f32(r)
    return r


def math1d(I, name, x, t, st):
    x = P(x)
    if name.startswith('__builtin_'):
        name = name[10:]
    if name in ('sqrtf', 'sqrtl', 'fabsf', 'fabsl'):
        name = name[:-1]
    k = I.kind(t) if t else ('flt', 'double')
    if hasattr(I, 'fmath'):
        r = I.fmath(name, x, st)
        if r is not None:
            return r
    if name in ('abs', 'fabs', 'labs', 'llabs'):
        if I.fp and k[0] == 'flt':
            return fp_abs(x)
        if k[0] == 'int':
            if not k[2]:
                return I.normi(st, x, k)
            return st.facts.simp(ite(ge0(x), x, -x))
        c = x.const()
        if c is not None:
            return P(abs(c))
        if NAN in x.atoms():
            return P(NAN)
        return ite(gt0(-x), -x, x)
    if k[0] == 'int':
        x = I.normi(st, x, k)
    if name in ('isnan', 'isinf', 'isfinite'):
        b = nanp(I, x, st)
        if name == 'isinf':
            return FALSE if b.kind == 'F' else mk_b('isinf', (x,))
        if name == 'isfinite' and b.kind != 'T' and I.fp:
            return and_(not_(b), not_(mk_b('isinf', (x,))))
        return b if name == 'isnan' else not_(b)
    if name == 'signbit':
        return gt0(-x)
    if I.fp:
        if name == 'sqrt':
            return fp_op('sqrt', x)
        from .evalt import FPMATH
        name = {'lround': 'round', 'llround': 'round', 'lrint': 'rint', 'llrint': 'rint', 'nearbyint': 'rint'}.get(name, name)
        if name in FPMATH:
            if k[0] == 'int' and x.const() is None:
                x = fp_op('i2d', x)
            return fp_op(name, x)
        raise Unsupported('floating function %s' % name)
    if NAN in x.atoms():
        return P(NAN)
    if name == 'norm':
        return x * x
    if name == 'sqrt':
        return sqrt_(st.facts.simp(x))
    if name == 'exp':
        return exp_(x)
    if name == 'exp2':
        return exp_(x * log_(P(2)))
    if name == 'log':
        return log_(x)
    if name == 'log1p':
        return log_(ONE + x)
    if name == 'expm1':
        return exp_(x) - 1
    if name == 'tan':
        return sin_(x) * inv(cos_(x))
    if name in ('atan', 'asin', 'acos') and x.const() in (0, 1, -1):
        c = int(x.const())
        return P(PI) * {'atan': Fr(c, 4), 'asin': Fr(c, 2), 'acos': Fr(1 - c, 2)}[name]
    if name == 'log2':
        return log_(x) * inv(log_(P(2)))
    if name == 'log10':
        return log_(x) * inv(log_(P(10)))
    if name == 'sin':
        return sin_(x)
    if name == 'cos':
        return cos_(x)
    if name in ('lrint', 'llrint', 'nearbyint'):
        name = 'rint'
    if name in ('floor', 'ceil', 'round', 'trunc', 'lround', 'llround', 'rint', 'nearbyint'):
        if x.sort == 'i':
            return x
        c = x.const()
        if c is not None:
            f = math.floor(c)
            if name == 'floor':
                return P(f)
            if name == 'ceil':
                return P(math.ceil(c))
            if name == 'trunc':
                return P(math.trunc(c))
            if 'round' in name:
                return P(int(math.floor(abs(c) + Fr(1, 2))) * (1 if c >= 0 else -1))
            return P(round(c))
        # an integer expression over a constant denominator
        r = frac_floor(name, x, st)
        if r is not None:
            return r
        if name == 'trunc':
            return P(mk_atom('trunc', (x,), 'i'))
        if name in ('round', 'lround', 'llround'):
            return P(mk_atom('round', (x,), 'i'))
        if name == 'ceil':
            return -fn('floor', -x, sort='i')
        return fn(name, x, sort='i')
    return fn(name, x)


def frac_floor(name, x, st):
    if name not in ('floor', 'ceil'):
        return None
    d = 1
    for m, c in x.t:
        if any(a.sort != 'i' and a.kind != 'inv' or e < 0 for a, e in m):
            return None
        d = d * c.denominator // math.gcd(d, c.denominator)
    if d == 1:
        return None
    p = P(x * d)
    if p.sort != 'i':
        return None
    return fdiv(p, P(d)) if name == 'floor' else -fdiv(-p, P(d))


def nanp(I, x, st):
    if I.fp:
        return mk_b('isnan', (x,))
    a = x.single_atom()
    if a is NAN:
        return TRUE
    if NAN not in I.leafs(x):
        return FALSE
    g = I.gates(x)
    if g is None:
        return mk_b('isnan', (x,))
    f1, f2 = State(None, st.facts.add(g)), State(None, st.facts.add(not_(g)))
    return bite(g, nanp(I, f1.facts.simp(x), f1), nanp(I, f2.facts.simp(x), f2))


def fp_abs(x):
    c = x.const()
    if c is not None:
        return P(abs(c))
    if x.t and len(x.t) == 1 and x.t[0][1] < 0:
        x = -x
    return P(mk_atom('fp', ('abs', x), 'r'))


def limits(I, name, t):
    k = I.kind(t)
    if k[0] == 'int':
        _, b, s = k
        hi = (1 << (b - 1)) - 1 if s else (1 << b) - 1
        lo = -(1 << (b - 1)) if s else 0
        if name == 'max':
            return P(hi)
        if name in ('min', 'lowest'):
            return P(lo)
    if k[0] == 'flt':
        if name == 'quiet_NaN' or name == 'signaling_NaN':
            return P(NAN)
        if name == 'infinity':
            return fn('inf', sort='r', nn=True)
        import sys
        v = {'max': sys.float_info.max, 'lowest': -sys.float_info.max, 'min': sys.float_info.min, 'epsilon': sys.float_info.epsilon}.get(name)
        if v is not None:
            if k[1] == 'float' and name == 'epsilon':
                v = 2.0 ** -23
            elif k[1] == 'float':
                v = {'max': 3.4028234663852886e38, 'lowest': -3.4028234663852886e38, 'min': 1.1754943508222875e-38}[name]
            return P(Fr(v))
    raise Unsupported('numeric_limits::%s' % name)


def special(I, f, args, n, st, fr):
    """analysis intrinsics declared (not defined) by the drivers"""
    q = f.node.get('_q', '')
    name = f.name
    if not q.startswith('bwslv'):
        return NotImplemented
    vals = [I.rv(a, st, fr) for a in args]
    if name == 'file_readable':
        return mk_b('bsel', ('readable', str_code(vals[0])))
    if name == 'file_size':
        return P(mk_atom('sel', ('filesize', str_code(vals[0])), 'i', True))
    if name == 'file_byte':
        return P(mk_atom('sel', ('filebyte', str_code(vals[0]), P(vals[1])), 'i', True))
    if name == 'io_fails':
        return bsym('iofail')
    if name == 'bad_state':
        return mk_b('bsel', ('badstate', str_code(vals[0])))
    if name == 'parse_u64':
        return P(mk_atom('sel', ('strtoull', str_code(vals[0])), 'i', True))
    if name == 'assume':
        st.facts = st.facts.add(I.tobool(st, vals[0]))
        if st.facts.bad:
            st.alive = False
        return Opaque('void')
    if name == 'floor_mod':
        return st.facts.simp(P(vals[0]) - P(vals[1]) * fdiv(P(vals[0]), P(vals[1])))
    if name == 'real_floor':
        return math1(I, 'floor', vals[0], 'double', st)
    return NotImplemented


def std_make(I, t, vals, args, tys, st, fr, n):
    k = I.kind(t)
    if k[0] in ('int', 'flt', 'bool'):
        return I.convert(I.load(st, vals[0]), tys[0], t, st) if vals else (FALSE if k[0] == 'bool' else ZERO)
    if I.ast.record(t) is not None:
        raise Unsupported('make of a class')
    return std_construct(I, bare(t), '', vals, args, st, fr, n)


def cplx(re, im):
    return Obj('std::complex', {'re': P(re), 'im': P(im)})


def as_cplx(v):
    if isinstance(v, Obj) and v.cls == 'std::complex':
        return v.f['re'], v.f['im']
    if isinstance(v, Poly):
        return v, ZERO
    raise Unsupported('complex value')


def complex_fn(I, name, xs, st):
    if I.fp:
        return None
    if name == 'polar':
        r, t = P(xs[0]), P(xs[1]) if len(xs) > 1 else ZERO
        return cplx(r * cos_(t), r * sin_(t))
    a, b = as_cplx(xs[0])
    if name == 'norm':
        return a * a + b * b
    if name == 'abs':
        return sqrt_(st.facts.simp(a * a + b * b))
    if name == 'conj':
        return cplx(a, -b)
    if name == 'real':
        return a
    if name == 'imag':
        return b
    if name == 'exp':
        return cplx(exp_(a) * cos_(b), exp_(a) * sin_(b))
    return None


def complex_op(I, op, x, y):
    (a, b), (c, d) = as_cplx(x), as_cplx(y)
    if op == '+':
        return cplx(a + c, b + d)
    if op == '-':
        return cplx(a - c, b - d)
    if op == '*':
        return cplx(a * c - b * d, a * d + b * c)
    if op == '/':
        if d.const() == 0:
            return cplx(a * inv(c), b * inv(c))
        m = inv(c * c + d * d)
        return cplx((a * c + b * d) * m, (b * c - a * d) * m)
    if op in ('==', '!='):
        r = and_(eq0(a - c), eq0(b - d))
        return r if op == '==' else not_(r)
    raise Unsupported('complex operator %s' % op)


def minmax(I, which, a, b, t, st, cmp=None, node=None, fr=None):
    x, y = I.load(st, a), I.load(st, b)
    if cmp is not None:
        c = I.tobool(st, call_fn(I, cmp, [b, a] if which == 'min' else [a, b], [t, t], node, st, fr))
    else:
        c = I.compare('<', y, x, t, st) if which == 'min' else I.compare('<', x, y, t, st)
    c = st.facts.simp(c)
    # c: the second one is chosen
    if c.kind == 'T':
        return b
    if c.kind == 'F':
        return a
    if isinstance(x, Poly):
        return merge_val(c, y, x)
    if isinstance(a, (Ref, CondRef)) and isinstance(b, (Ref, CondRef)):
        return CondRef(c, b, a)
    return merge_val(c, y, x)


def out_put(I, st, out, i, v, src=''):
    """write element i of an output range"""
    if isinstance(out, Obj) and out.cls == 'std::back_insert_iterator':
        push(I, st, out.f['c'].ref, v, src)
        return
    if isinstance(out, Obj) and out.cls == 'std::ostream_iterator':
        put(I, st, out.f['s'].ref, val_parts(I, v, src, '', st) + list(out.f['sep'].parts))
        return
    if isinstance(out, Iter):
        r = I.deref(st, Iter(out.ref, out.pos + i, out.rev))
        c = I.read(st, out.ref)
        if isinstance(v, TERM) and isinstance(c, Seq) and src and c.et:
            v = I.convert(v, src, c.et, st)
        I.write(st, r, v)
        return
    raise Unsupported('output iterator')


def out_end(out, cnt):
    if isinstance(out, Iter):
        return Iter(out.ref, out.pos + cnt, out.rev)
    return out


def push(I, st, ref, v, src=''):
    c = I.read(st, ref)
    if isinstance(c, Choice):
        raise Unsupported('append to an alternative container')
    if isinstance(c, Str):
        x = P(v).const()
        if x is None:
            raise Unsupported('append of an unknown character')
        I.write(st, ref, c + Str([('lit', chr(int(x) & 255))]))
        return
    if isinstance(v, TERM) and src and c.et:
        v = I.convert(v, src, c.et, st)
    I.write(st, ref, Seq(c.segs + (('e', v),), c.et))


def count_between(I, st, a, b):
    if isinstance(a, Iter) and isinstance(b, Iter):
        if a.ref != b.ref:
            raise Unsupported('range over two containers')
        return st.facts.simp(b.pos - a.pos)
    raise Unsupported('range of %s' % type(a).__name__)


def elem(I, st, it, i):
    return I.deref(st, Iter(it.ref, it.pos + i, it.rev))


def first_where(I, n, st, fr, a, b, pred):
    """position of the first element satisfying pred"""
    cnt = count_between(I, st, a, b)
    c = cnt.const()
    if c is not None and c <= 600:
        r = P(cnt)
        conds = []
        for i in range(int(c)):
            conds.append(st.facts.simp(I.tobool(st, pred(st, elem(I, st, a, P(i))))))
        for i in reversed(range(int(c))):
            if conds[i].kind == 'T':
                r = P(i)
            elif conds[i].kind != 'F':
                r = ite(conds[i], P(i), r)
        return r
    k = fresh('k', 'i', True)
    s = State(st.cells, st.facts.add(ge0(cnt - 1 - P(k))))
    p = I.tobool(s, pred(s, elem(I, s, a, P(k))))
    return first_(k, cnt, s.facts.simp(p))


def bisect(I, n, st, fr, a, b, pred):
    """the position the binary search of the library ends at, whether or not the range is partitioned"""
    cnt = count_between(I, st, a, b)
    c = cnt.const()
    if c is not None:
        if c > 64:
            raise Unsupported('binary search in a long range')
        conds = [st.facts.simp(I.tobool(st, pred(st, elem(I, st, a, P(i))))) for i in range(int(c))]

        def rec(lo, ln):
            if ln == 0:
                return P(lo)
            h = ln >> 1
            q = conds[lo + h]
            if q.kind == 'T':
                return rec(lo, h)
            if q.kind == 'F':
                return rec(lo + h + 1, ln - h - 1)
            return ite(q, rec(lo, h), rec(lo + h + 1, ln - h - 1))
        return rec(0, int(c))
    if I.cfg.get('sorted'):
        return first_where(I, n, st, fr, a, b, pred)
    lo, ln = fresh('lo', 'i', True), fresh('ln', 'i', True)
    h = fdiv(P(ln), P(2))
    mid = P(lo) + h
    s = State(st.cells, st.facts.add(ge0(cnt - P(lo) - P(ln))).add(ge0(P(ln) - 1)))
    q = s.facts.simp(I.tobool(s, pred(s, elem(I, s, a, mid))))
    return loop_([lo, ln], [ZERO, cnt], None, gt0(P(ln)), [ite(q, P(lo), mid + 1), ite(q, h, P(ln) - h - 1)], 0)


def quant(I, n, st, fr, a, b, pred, which):
    cnt = count_between(I, st, a, b)
    c = cnt.const()
    if c is not None and c <= 600:
        conds = [I.tobool(st, pred(st, elem(I, st, a, P(i)))) for i in range(int(c))]
        if which == 'any':
            return or_(*conds)
        return and_(*conds)
    k = fresh('k', 'i', True)
    s = State(st.cells, st.facts.add(ge0(cnt - 1 - P(k))))
    p = s.facts.simp(I.tobool(s, pred(s, elem(I, s, a, P(k)))))
    if which == 'any':
        return any_(k, cnt, p)
    return not_(any_(k, cnt, not_(p)))


def eqv(I, st, a, b, t=''):
    """value equality of two abstract values"""
    if isinstance(a, TERM) and isinstance(b, TERM):
        return I.compare('==', a, b, t or 'long', st)
    if isinstance(a, Str) and isinstance(b, Str):
        return I.str_eq(a, b)
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.concrete() and b.concrete():
            if len(a.segs) != len(b.segs):
                return FALSE
            return and_(*[eqv(I, st, x[1], y[1], a.et) for x, y in zip(a.segs, b.segs)])
        la, lb = slen(a.segs), slen(b.segs)
        k = fresh('k', 'i', True)
        same = eq0(la - lb)
        s = State(st.cells, st.facts.add(same).add(ge0(la - 1 - P(k))))
        if s.facts.bad:
            return same
        x, y = I.index(s, a, P(k)), I.index(s, b, P(k))
        return and_(same, not_(any_(k, la, not_(eqv(I, s, x, y, a.et)))))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.f.keys() == b.f.keys():
        if I.ast.record(a.cls) is not None:
            raise Unsupported('comparison of %s' % a.cls)
        return and_(*[eqv(I, st, x, b.f[k]) for k, x in a.f.items()])
    if isinstance(a, Map) and isinstance(b, Map) and len(a.items) == len(b.items):
        return and_(*[and_(eqv(I, st, x[0], y[0]), eqv(I, st, x[1], y[1])) for x, y in zip(a.items, b.items)])
    raise Unsupported('comparison of %s' % type(a).__name__)


FUNCTOR_ALGS = frozenset('''for_each for_each_n generate generate_n transform transform_reduce accumulate reduce inner_product
    inclusive_scan exclusive_scan partial_sum adjacent_difference iota find_if find_if_not any_of all_of none_of count_if copy_if
    lower_bound upper_bound equal_range partition_point partition stable_partition sort stable_sort nth_element partial_sort
    max_element min_element minmax_element unique remove_if replace_if equal mismatch lexicographical_compare
    binary_search is_sorted is_partitioned adjacent_find'''.split())


def std_call(I, f, args, n, st, fr):
    name = f.name
    # evaluated lazily: forwarding helpers
    if name in ('move', 'forward', 'as_const', 'addressof', '__addressof', 'ref', 'cref') and len(args) == 1:
        v = I.ev(args[0], st, fr)
        if name in ('addressof', '__addressof'):
            return PtrTo(v)
        return v
    if name == 'declval':
        raise Unsupported('declval')
    vals = []
    for a in args:
        if a.get('kind') == 'CXXDefaultArgExpr':
            continue
        vals.append(I.ev(a, st, fr))
        if not st.alive:
            return VOID
    args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
    tys = [qt(a) for a in args]
    rt = qt(n)
    if name in FUNCTOR_ALGS:
        for i, v in enumerate(vals):
            if isinstance(v, (Ref, Obj)) and 'reference_wrapper' not in tys[i]:
                x = I.load(st, v)
                if isinstance(x, Obj) and I.ast.record(x.cls) is not None:
                    vals[i] = I.new_cell(st, x)      # algorithms take their functors by value
    if name in ('serialize', 'split_member') and len(vals) == 3 and isinstance(vals[0], Ref) and isinstance(vals[1], Ref):
        return archive(I, name, vals, st, fr)
    if name == 'make_nvp' and len(vals) == 2:
        return vals[1]

    def L(i):
        return I.load(st, vals[i])
    if not vals:
        if name in ('max', 'min', 'lowest', 'epsilon', 'quiet_NaN', 'infinity', 'signaling_NaN', 'denorm_min'):
            return limits(I, name, rt)
        if name in ('nan', 'nanf'):
            return P(NAN)
    if name in ('nan', 'nanf', '__builtin_nan', 'nanl'):
        return P(NAN)
    if name in MATH1 and len(vals) == 1:
        x = L(0)
        if isinstance(x, B):
            x = b2i(x)
        if isinstance(x, Poly):
            return math1(I, name, x, tys[0], st)
    if name == 'pow' and len(vals) == 2:
        a, b = P(I.normi(st, P(L(0)), I.kind(tys[0]))), P(I.normi(st, P(L(1)), I.kind(tys[1])))
        if I.fp:
            a, b = [fp_op('i2d', v) if I.kind(t)[0] == 'int' and v.const() is None else v for v, t in ((a, tys[0]), (b, tys[1]))]
            return fp_op('pow', a, b)
        return pow_(a, b)
    if name in ('fmax', 'fmin'):
        return minmax(I, name[1:], L(0), L(1), tys[0], st)
    if name in ('max', 'min'):
        if len(vals) == 1:
            s = L(0)
            if isinstance(s, Seq) and s.concrete():
                r = s.segs[0][1]
                for e in s.elems()[1:]:
                    r = I.load(st, minmax(I, name, r, e, s.et, st))
                return r
            raise Unsupported(name)
        return minmax(I, name, vals[0], vals[1], tys[0], st, vals[2] if len(vals) > 2 else None, n, fr)
    if name == 'clamp':
        x = minmax(I, 'max', L(0), L(1), tys[0], st)
        return minmax(I, 'min', x, L(2), tys[0], st)
    if name == 'fma':
        if I.fp:
            return P(mk_atom('fp', ('fma', P(L(0)), P(L(1)), P(L(2))), 'r'))
        return P(L(0)) * P(L(1)) + P(L(2))
    if name == 'hypot' and not I.fp:
        return sqrt_(sum((P(L(i)) * P(L(i)) for i in range(len(vals))), ZERO))
    if name == 'copysign' and not I.fp:
        a = math1(I, 'abs', P(L(0)), 'double', st)
        return ite(gt0(-P(L(1))), -a, a)
    if name == 'minmax' and len(vals) == 2:
        x, y = L(0), L(1)
        c = st.facts.simp(I.compare('<', y, x, tys[0], st))
        return Obj('std::pair', {'first': merge_val(c, y, x), 'second': merge_val(c, x, y)} if c.kind not in 'TF' else {'first': y if c.kind == 'T' else x, 'second': x if c.kind == 'T' else y})
    if name in ('fmod', 'remainder') and not I.fp:
        x, y = P(I.normi(st, P(L(0)), I.kind(tys[0]))), P(I.normi(st, P(L(1)), I.kind(tys[1])))
        if name == 'fmod' and x.sort == 'i' and y.sort == 'i':
            return x - y * st.facts.simp(tdiv(x, y))
        if y.const() == 0:
            return P(NAN)
        return x - y * math1(I, 'trunc' if name == 'fmod' else 'rint', x * inv(y), 'double', st)
    if name == 'modf' and not I.fp:
        x = P(L(0))
        t = math1(I, 'trunc', x, 'double', st)
        I.write(st, I.pointee(st, L(1)), t)
        return x - t
    if name in ('div', 'ldiv', 'lldiv') and len(vals) == 2:
        x, y = I.normi(st, P(L(0)), I.kind(tys[0])), I.normi(st, P(L(1)), I.kind(tys[1]))
        if y.const() == 0:
            raise Unsupported('division by zero')
        q = st.facts.simp(tdiv(x, y))
        return Obj('div_t', {'quot': q, 'rem': x - y * q})
    if name in ('atan2', 'remquo') and name == 'atan2' and not I.fp:
        return fn('atan2', P(L(0)), P(L(1)))
    if name == 'setprecision':
        return Obj('setprecision', {'p': P(L(0))})
    if name in ('setw', 'setfill'):
        return Obj(name, {'p': P(L(0))})
    if name in ('make_unique', 'make_shared') and '[]' not in rt:
        ta = tmpl_args(bare(rt))
        v = std_make(I, ta[0], vals, args, tys, st, fr, n)
        return PtrTo(I.new_cell(st, v))
    if name in ('polar', 'abs', 'norm', 'arg', 'conj', 'real', 'imag', 'exp') and any('complex<' in t for t in (bare(rt), bare(tys[0]))):
        r = complex_fn(I, name, [L(i) for i in range(len(vals))], st)
        if r is not None:
            return r
    if name == 'generate_canonical' and isinstance(L(0), Obj) and L(0).cls == 'rng':
        return draw(I, Obj('std::uniform_real_distribution', {'a': ZERO, 'b': ONE}), vals[0], st)
    if name in ('tolower', 'toupper') and isinstance(L(0), Poly):
        c = L(0).const()
        if c is not None:
            return P(ord(getattr(chr(int(c) & 127), name[2:])()))
        return P(mk_atom('sel', (name, L(0)), 'i', True))
    if name in ('strcasecmp', 'strncmp', 'strncasecmp') and isinstance(L(0), Str) and isinstance(L(1), Str):
        x, y = L(0), L(1)
        if len(vals) > 2:
            k = P(L(2)).const()
            if k is None:
                raise Unsupported(name)
            x, y = [text_call(I, z, 'substr', [ZERO, P(k)], []) for z in (x, y)]
        if 'case' in name:
            x, y = [Str([('lit', z.lit().lower())]) if z.lit() is not None else Str([('sym', textop('lower', (), str_code(z), nn=True))]) for z in (x, y)]
        return str_method(I, I.new_cell(st, x), x, 'compare', [y], tys[1:2], n, st)
    if name == 'lcm' and len(vals) == 2:
        x, y = P(L(0)), P(L(1))
        g = agcd(st.facts.simp(x), st.facts.simp(y))
        p = x * y
        p = ite(ge0(p), p, -p)
        return ite(eq0(p), ZERO, st.facts.simp(tdiv(p, g)))
    if name == 'strcmp' and len(vals) == 2 and all(isinstance(L(i), Str) for i in (0, 1)):
        return str_method(I, I.new_cell(st, L(0)), L(0), 'compare', [vals[1]], tys[1:], n, st)
    if name in ('gcd', '__gcd'):
        f = gcd_ if name == '__gcd' else agcd
        return f(st.facts.simp(P(L(0))), st.facts.simp(P(L(1))))
    if name in ('__builtin_add_overflow', '__builtin_sub_overflow', '__builtin_mul_overflow'):
        t = tys[2]
        t = bare(t)
        t = bare(t[:-1]) if t.endswith('*') else t
        k = I.kind(t)
        a, b = I.normi(st, P(L(0)), I.kind(tys[0])), I.normi(st, P(L(1)), I.kind(tys[1]))
        v = {'a': lambda: a + b, 's': lambda: a - b, 'm': lambda: a * b}[name[10]]()
        hi = (1 << (k[1] - 1)) - 1 if k[2] else (1 << k[1]) - 1
        lo = -(1 << (k[1] - 1)) if k[2] else 0
        ov = st.facts.simp(or_(ge0(v - hi - 1), ge0(P(lo) - 1 - v)))
        dst = I.load(st, vals[2])
        r = I.pointee(st, dst)
        old = narrow(k[1], k[2], v) if k[1] < 64 or k[2] else P(mk_atom('wrapu', (v,), 'i', True))
        if k[1] == 64 and k[2]:
            old = P(mk_atom('narrow', (64, True, v), 'i', False))
        I.write(st, r, merge_val(ov, old, v) if ov.kind not in ('T', 'F') else (old if ov.kind == 'T' else v))
        return ov
    if name in ('__builtin_expect',):
        return L(0)
    if name in ('__assert_fail', '__assert', 'abort', 'terminate', '__builtin_unreachable', 'exit', '_Exit', 'quick_exit'):
        raise Unsupported('call of %s' % name)
    if name == 'is_constant_evaluated':
        return FALSE
    # containers and iterators
    if name in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend', 'crbegin', 'crend', 'size', 'ssize', 'empty', 'data') and len(vals) == 1:
        return std_method(I, vals[0], name.replace('ssize', 'size'), [], n, st, fr, tys[0])
    if name in ('next', 'prev'):
        d = P(L(1)) if len(vals) > 1 else ONE
        it = L(0)
        return Iter(it.ref, it.pos + (d if name == 'next' else -d), it.rev)
    if name == 'advance':
        it = L(0)
        d = P(L(1))
        if d.sort == 'r':
            d = I.f2i(st, d, ('int', 64, True))
        I.write(st, vals[0], Iter(it.ref, it.pos + d, it.rev))
        return VOID
    if name == 'distance':
        return count_between(I, st, L(0), L(1))
    if name == 'back_inserter':
        return Obj('std::back_insert_iterator', {'c': PtrTo(vals[0])})
    if name in ('make_pair', 'make_tuple', 'tie', 'forward_as_tuple'):
        keys = ('first', 'second') if name == 'make_pair' else [str(i) for i in range(len(vals))]
        d = {}
        for k, v, a in zip(keys, vals, args):
            if name in ('tie', 'forward_as_tuple'):
                d[k] = RefVal(v)
            else:
                d[k] = moved(I, v, a, st)
        return Obj('std::pair' if name == 'make_pair' else 'std::tuple', d)
    if name == 'get' and len(vals) == 1:
        m = re.search(r'get<(\d+)', (f.ty or '') + str(n.get('_tmpl', '')))
        raise Unsupported('std::get')
    if name == 'swap' and len(vals) == 2:
        x, y = L(0), L(1)
        I.write(st, vals[0], y)
        I.write(st, vals[1], x)
        return VOID
    if name == 'exchange':
        x = L(0)
        y = L(1)
        if isinstance(y, TERM):
            y = I.convert(y, tys[1], tys[0], st)
        I.write(st, vals[0], y)
        return x
    if name == 'getline':
        return getline(I, vals, st)
    if name in ('endl', 'ends', 'flush'):
        ref = vals[0]
        if name == 'endl':
            put(I, st, ref, [('lit', '\n')])
        return ref
    if name in ('stoi', 'stol', 'stoul', 'stoll', 'stoull', 'strtoul', 'strtoull', 'strtol', 'atol', 'atoi', 'atoll', 'strtoll', 'stod', 'strtod', 'atof'):
        return parse_num(I, name, L(0), vals, st, rt)
    if name == 'to_string':
        v = L(0)
        if I.kind(tys[0])[0] == 'flt':
            return Str([('val', v, 'fixed6')])
        return Str(val_parts(I, v, tys[0], '', st))
    if name in ('print', 'format', 'println') or name == 'format_to':
        return fmt_call(I, name, vals, args, st)
    if name in ('serialize', 'serialize_adl'):
        o = I.load(st, vals[1])
        return I.call_method(vals[1], 'serialize', [vals[0]] + vals[2:], st, fr)
    r = algorithm(I, name, vals, tys, args, n, st, fr)
    if r is not NotImplemented:
        return r
    raise Unsupported('call of %s at %s' % (name, I.where(n)))


def archive(I, name, vals, st, fr):
    """boost::serialization::access: hands the archive to the class's own function"""
    ar, ob = I.read(st, vals[0]), I.read(st, vals[1])
    if not isinstance(ar, Obj) or not isinstance(ob, Obj):
        raise Unsupported('archive of a non-class value')
    rec = I.ast.record(ob.cls)
    cls = bare(ar.cls)
    if name == 'split_member':
        name = 'save' if cls.endswith('OutAr') else 'load'
    for d in I.ast.methods(rec, name) if rec is not None else []:
        d = I.ast.find_def(d['id']) or d
        p = I.ast.params(d)
        if I.ast.body(d) is not None and not I.ast.dependent(d) and p and bare(qt(p[0])).rstrip(' &') == cls:
            return I.call(d, vals[1], [vals[0], vals[2]], st, fr, decl=d)
    raise Unsupported('no %s instantiation for %s' % (name, ob.cls))


def parse_num(I, name, s, vals, st, rt):
    if isinstance(s, Opaque) and s.why == 'nullptr' or isinstance(s, Poly) and s.const() == 0:
        # undefined: no value is promised
        I.throw(st, 'undefined behaviour', VOID)
        return VOID
    if name.startswith('strto') and len(vals) > 1:
        e = I.load(st, vals[1])
        if isinstance(e, PtrTo) and isinstance(s, Str):
            # the whole text is the number
            I.write(st, e.ref, Iter(I.new_cell(st, Seq([('e', ZERO)], 'char')), ZERO, False))
    if not isinstance(s, Str):
        raise Unsupported(name)
    t = s.lit()
    if t is not None:
        m = re.match(r'\s*[+-]?\d+', t)
        if m and I.kind(rt)[0] == 'int':
            return P(int(m.group(0)))
        if not m and re.match(r'\s*[/A-Za-z]', t) and t[:1] not in 'iInN' and (name.startswith('strto') or name.startswith('ato')) and len(vals) < 3:
            return P(0)
        if not m and re.match(r'\s*[./A-Za-z]', t) and I.load(st, vals[2]) is not None and P(I.load(st, vals[2])).const() == 10 and name.startswith('strto'):
            return P(0)
    if len(s.parts) == 1 and s.parts[0][0] == 'val':
        return s.parts[0][1]
    if len(s.parts) == 1 and s.parts[0][0] == 'sym':
        if name in ('strtoull', 'strtoul', 'stoul', 'stoull'):
            base = 10
            if len(vals) == 3:
                b = P(I.load(st, vals[2])).const()
                base = None if b is None else int(b)
            if base == 10:
                return P(mk_atom('sel', ('strtoull', s.parts[0][1]), 'i', True))
            if base == 0:
                return P(mk_atom('sel', ('strtoull0', s.parts[0][1]), 'i', True))
            if base is not None:
                return P(mk_atom('sel', ('strtoull%d' % base, s.parts[0][1]), 'i', True))
            raise Unsupported('base')
        v = P(mk_atom('sel', ('strtoull', s.parts[0][1]), 'i', True))
        if name in ('strtol', 'strtoll', 'atol', 'atoll', 'stol', 'stoll'):
            # decimal values beyond the signed range saturate
            hi = P((1 << 63) - 1)
            return ite(ge0(hi - v), v, hi)
        if name in ('atoi', 'stoi'):
            return narrow(32, True, v)
        if name in ('stod', 'strtod', 'atof'):
            return P(mk_atom('sel', ('strtod', s.parts[0][1]), 'r', True))
    raise Unsupported(name)


def fmt_call(I, name, vals, args, st):
    vs = list(vals)
    as_ = list(args)
    ref = None
    first = I.load(st, vs[0])
    if name in ('print', 'println'):
        if isinstance(first, Obj) and 'fail' in first.f:
            ref = vs.pop(0)
            as_.pop(0)
        elif isinstance(first, PtrTo) or isinstance(first, Opaque):
            raise Unsupported('print to FILE')
        else:
            ref = I.std_stream(st, 'cout')
    elif name == 'format_to':
        raise Unsupported('format_to')
    fs_ = I.load(st, vs[0])
    if not isinstance(fs_, Str) or fs_.lit() is None:
        raise Unsupported('format string')
    parts = fmt_parts(I, fs_.lit(), vs[1:], as_[1:], st)
    if name == 'format':
        return Str(parts)
    if name == 'println':
        parts.append(('lit', '\n'))
    put(I, st, ref, parts)
    return VOID


def algorithm(I, name, vals, tys, args, n, st, fr):
    def L(i):
        return I.load(st, vals[i])
    if not vals or not isinstance(L(0), (Iter, Obj)):
        return NotImplemented
    a = L(0)
    if isinstance(a, Obj):
        if a.cls == 'std::istreambuf_iterator' and name == 'equal':
            return file_equal(I, [L(i) for i in range(len(vals))], st)
        if not (a.cls in ('std::back_insert_iterator', 'std::ostream_iterator') and name in ('generate_n', 'fill_n')):
            return NotImplemented
    b = L(1) if len(vals) > 1 else None
    et = et_of(I, st, a) if isinstance(a, Iter) else None
    loop = lambda cnt, step: I.count_loop(n, st, fr, cnt, step)

    if name in ('accumulate', 'reduce', 'transform_reduce', 'inner_product') and isinstance(b, Iter):
        cnt = count_between(I, st, a, b)
        two = name in ('inner_product', 'transform_reduce') and len(vals) >= 4 and isinstance(L(2), Iter)
        ii = 3 if two else 2
        if ii < len(vals):
            T = bare(tys[ii])
            init = L(ii)
        else:
            T, init = et, I.default(et, st, fr)
        acc = I.new_cell(st, init)
        rest = vals[ii + 1:]
        op1 = rest[0] if rest else None
        op2 = rest[1] if len(rest) > 1 else None
        c2 = L(2) if two else None
        et2 = et_of(I, st, c2) if two else ''

        def step(s, i):
            x = elem(I, s, a, i)
            tx = et
            if two:
                y = elem(I, s, c2, i)
                if op2 is not None:
                    x = I.load(s, call_fn(I, op2, [x, y], [et, et2], n, s, fr))
                    tx = ''
                else:
                    tx = common(I, [et, et2])
                    xa, ya = I.read(s, x), I.read(s, y)
                    x = I.binop('*', I.convert(xa, et, tx, s), I.convert(ya, et2, tx, s), tx, tx, tx, s)
            elif name == 'transform_reduce' and op2 is not None:
                x = I.load(s, call_fn(I, op2, [x], [et], n, s, fr))
                tx = ret_type(I, op2, s, [et])
            cur = I.read(s, acc)
            if op1 is not None:
                v = I.load(s, call_fn(I, op1, [acc, x] if not isinstance(cur, TERM) else [cur, x], [T, tx], n, s, fr))
                rt = ret_type(I, op1, s, [T, tx])
                if isinstance(v, TERM) and rt:
                    v = I.convert(v, rt, T, s)
            else:
                xv = I.load(s, x)
                C = common(I, [T, tx])
                if not C:
                    C = T
                v = I.binop('+', I.convert(cur, T, C, s) if C else cur, I.convert(xv, tx, C, s) if tx and C else xv, C, C, C, s)
                v = I.convert(v, C, T, s)
            I.write(s, acc, v)
        loop(cnt, step)
        return I.read(st, acc) if st.alive else VOID

    if name in ('transform', 'for_each') and isinstance(a, Iter) and isinstance(I.read(st, a.ref), Str) and a.pos.const() == 0 and not a.rev and len(vals) == (4 if name == 'transform' else 3):
        x = I.read(st, a.ref)
        f = vals[-1]

        def chars(s, r):
            v = I.load(s, call_fn(I, f, [r], ['char'], n, s, fr))
            if name == 'transform':
                I.write(s, r, v)
        y = char_map(I, st, x, chars)
        out = L(2) if name == 'transform' else a
        if isinstance(out, Iter) and out.pos.const() == 0:
            I.write(st, out.ref, y)
        elif isinstance(out, Obj) and out.cls == 'std::back_insert_iterator':
            w = I.read(st, out.f['c'].ref)
            I.write(st, out.f['c'].ref, y if not w.parts else w + y)
        else:
            raise Unsupported('output of a text')
        return out
    if name == 'transform':
        cnt = count_between(I, st, a, b)
        two = len(vals) == 5
        out = L(3) if two else L(2)
        op = vals[-1]
        c2 = L(2) if two else None
        et2 = et_of(I, st, c2) if two else ''

        def step(s, i):
            xs = [elem(I, s, a, i)] + ([elem(I, s, c2, i)] if two else [])
            v = I.load(s, call_fn(I, op, xs, [et, et2][:len(xs)], n, s, fr))
            if s.alive:
                out_put(I, s, out, i, v, ret_type(I, op, s, [et, et2][:len(xs)]))
        loop(cnt, step)
        return out_end(out, cnt)
    if name in ('for_each', 'for_each_n'):
        cnt = count_between(I, st, a, b) if name == 'for_each' else P(b)

        def step(s, i):
            call_fn(I, vals[2], [elem(I, s, a, i)], [et], n, s, fr)
        loop(cnt, step)
        return L(2) if st.alive else VOID
    if name in ('fill', 'fill_n'):
        cnt = count_between(I, st, a, b) if name == 'fill' else P(L(1))
        v = L(2)
        loop(cnt, lambda s, i: out_put(I, s, a, i, v, tys[2]))
        return out_end(a, cnt)
    if name in ('generate', 'generate_n'):
        cnt = count_between(I, st, a, b) if name == 'generate' else P(L(1))
        f = vals[2]

        def step(s, i):
            v = I.load(s, call_fn(I, f, [], [], n, s, fr))
            out_put(I, s, a, i, v, ret_type(I, f, s))
        loop(cnt, step)
        return out_end(a, cnt)
    if name in ('copy', 'copy_n', 'move', 'copy_if', 'copy_backward', 'reverse_copy', 'replace_copy', 'unique_copy', 'remove_copy_if'):
        if name in ('copy_backward', 'reverse_copy', 'replace_copy', 'unique_copy', 'remove_copy_if'):
            raise Unsupported(name)
        cnt = count_between(I, st, a, b) if name != 'copy_n' else P(L(1))
        out = L(2)
        if name == 'copy_if':
            if not (isinstance(out, Obj)):
                raise Unsupported('copy_if')

            def step(s, i):
                r = elem(I, s, a, i)
                c = s.facts.simp(I.tobool(s, I.load(s, call_fn(I, vals[3], [r], [et], n, s, fr))))
                I.branch(c, s, lambda z: out_put(I, z, out, i, I.read(z, r), et), None)
        else:
            def step(s, i):
                out_put(I, s, out, i, I.read(s, elem(I, s, a, i)), et)
        loop(cnt, step)
        return out_end(out, cnt)
    if name in ('upper_bound', 'lower_bound') and len(vals) == 3 and hasattr(I, 'sorted_search'):
        return I.sorted_search(name, st, a, b, I.load(st, vals[2]))
    if name in ('find', 'find_if', 'find_if_not', 'upper_bound', 'lower_bound', 'partition_point'):
        if name == 'find':
            v = L(2)
            pred = lambda s, r: elem_eq(I, s, I.read(s, r), v, et, tys[2])
        elif name == 'upper_bound':
            v = vals[2]
            if len(vals) > 3:
                pred = lambda s, r: I.load(s, call_fn(I, vals[3], [v, r], [tys[2], et], n, s, fr))
            else:
                pred = lambda s, r: lessv(I, s, I.load(s, v), I.read(s, r), tys[2], et)
        elif name == 'lower_bound':
            v = vals[2]
            if len(vals) > 3:
                pred = lambda s, r: not_(I.tobool(s, I.load(s, call_fn(I, vals[3], [r, v], [et, tys[2]], n, s, fr))))
            else:
                pred = lambda s, r: not_(lessv(I, s, I.read(s, r), I.load(s, v), et, tys[2]))
        elif name == 'find_if':
            pred = lambda s, r: I.load(s, call_fn(I, vals[2], [r], [et], n, s, fr))
        else:
            pred = lambda s, r: not_(I.tobool(s, I.load(s, call_fn(I, vals[2], [r], [et], n, s, fr))))
        if name in ('find', 'find_if', 'find_if_not'):
            p = first_where(I, n, st, fr, a, b, pred)
        else:
            p = bisect(I, n, st, fr, a, b, pred)
        return Iter(a.ref, a.pos + p, a.rev)
    if name == 'binary_search':
        v = vals[2]
        if len(vals) > 3:
            low = lambda s, r: not_(I.tobool(s, I.load(s, call_fn(I, vals[3], [r, v], [et, tys[2]], n, s, fr))))
            le = lambda s, r: not_(I.tobool(s, I.load(s, call_fn(I, vals[3], [v, r], [tys[2], et], n, s, fr))))
        else:
            low = lambda s, r: not_(lessv(I, s, I.read(s, r), I.load(s, v), et, tys[2]))
            le = lambda s, r: not_(lessv(I, s, I.load(s, v), I.read(s, r), tys[2], et))
        cnt = count_between(I, st, a, b)
        if cnt.const() == 0:
            return FALSE
        if cnt.const() is not None:
            k = int(cnt.const())
            ok = [I.tobool(st, le(st, elem(I, st, a, P(i)))) for i in range(k)]
            p = bisect(I, n, st, fr, a, b, low)
            return st.facts.simp(or_(*[and_(eq0(p - i), ok[i]) for i in range(k)]))
        p = bisect(I, n, st, fr, a, b, low)
        s = State(st.cells, st.facts.add(ge0(cnt - 1 - p)))
        return and_(ge0(cnt - 1 - p), I.tobool(s, le(s, elem(I, s, a, p))))
    if name in ('sort', 'stable_sort', 'nth_element', 'partial_sort'):
        hi = L(2) if name in ('nth_element', 'partial_sort') else b
        cnt = count_between(I, st, a, hi).const()
        if cnt is None or cnt > 12:
            raise Unsupported('%s of a range of any length' % name)
        ci = 3 if name in ('nth_element', 'partial_sort') else 2
        xs = [I.read(st, elem(I, st, a, P(i))) for i in range(int(cnt))]
        for i in range(len(xs)):
            for j in range(len(xs) - 1 - i):
                x, y = xs[j], xs[j + 1]
                if len(vals) > ci:
                    c = I.tobool(st, I.load(st, call_fn(I, vals[ci], [y, x], [et, et], n, st, fr)))
                else:
                    c = lessv(I, st, y, x, et, et)
                c = st.facts.simp(c)
                if c.kind == 'T':
                    xs[j], xs[j + 1] = y, x
                elif c.kind != 'F':
                    xs[j], xs[j + 1] = merge_val(c, y, x), merge_val(c, x, y)
        for i, x in enumerate(xs):
            I.write(st, elem(I, st, a, P(i)), x)
        return VOID
    if name == 'rotate':
        cnt, k = count_between(I, st, a, L(2)).const(), count_between(I, st, a, b).const()
        if cnt is None or k is None:
            raise Unsupported(name)
        xs = [I.read(st, elem(I, st, a, P(i))) for i in range(int(cnt))]
        for i, x in enumerate(xs[int(k):] + xs[:int(k)]):
            I.write(st, elem(I, st, a, P(i)), x)
        return Iter(a.ref, a.pos + cnt - k, a.rev)
    if name == 'minmax_element':
        return Obj('std::pair', {'first': algorithm(I, 'min_element', vals, tys, args, n, st, fr), 'second': algorithm(I, 'max_element', vals, tys, args, n, st, fr)})
    if name == 'mismatch':
        c2 = L(2)
        k = count_between(I, st, a, b).const()
        if k is None or len(vals) > 3 and isinstance(L(3), Iter) and count_between(I, st, c2, L(3)).const() is None:
            raise Unsupported(name)
        if len(vals) > 3 and isinstance(L(3), Iter):
            k = min(k, count_between(I, st, c2, L(3)).const())
        et2 = et_of(I, st, c2)
        p = P(k)
        for i in reversed(range(int(k))):
            p = ite(st.facts.simp(elem_eq(I, st, I.read(st, elem(I, st, a, P(i))), I.read(st, elem(I, st, c2, P(i))), et, et2)), p, P(i))
        return Obj('std::pair', {'first': Iter(a.ref, a.pos + p, a.rev), 'second': Iter(c2.ref, c2.pos + p, c2.rev)})
    if name == 'lexicographical_compare':
        c2 = L(2)
        k, m = count_between(I, st, a, b).const(), count_between(I, st, c2, L(3)).const()
        if k is None or m is None or len(vals) > 4:
            raise Unsupported(name)
        et2 = et_of(I, st, c2)
        r = Bc(k < m)
        for i in reversed(range(int(min(k, m)))):
            x, y = I.read(st, elem(I, st, a, P(i))), I.read(st, elem(I, st, c2, P(i)))
            r = or_(lessv(I, st, x, y, et, et2), and_(not_(lessv(I, st, y, x, et2, et)), r))
        return st.facts.simp(r)
    if name in ('any_of', 'all_of', 'none_of'):
        pred = lambda s, r: I.load(s, call_fn(I, vals[2], [r], [et], n, s, fr))
        if name == 'none_of':
            return not_(quant(I, n, st, fr, a, b, pred, 'any'))
        return quant(I, n, st, fr, a, b, pred, name[:3])
    if name in ('count', 'count_if'):
        cnt = count_between(I, st, a, b)
        acc = I.new_cell(st, ZERO)
        v = vals[2]

        def step(s, i):
            r = elem(I, s, a, i)
            if name == 'count':
                c = elem_eq(I, s, I.read(s, r), I.load(s, v), et, tys[2])
            else:
                c = I.tobool(s, I.load(s, call_fn(I, v, [r], [et], n, s, fr)))
            I.write(s, acc, I.read(s, acc) + b2i(s.facts.simp(c)))
        loop(cnt, step)
        return I.read(st, acc)
    if name in ('max_element', 'min_element'):
        cnt = count_between(I, st, a, b).const()
        if cnt is None:
            if I.cfg.get('fp') and bare(et) in ('double', 'float', 'long double'):
                uns(name)
            total = count_between(I, st, a, b)

            def extreme(s, r):
                # the first element that no other one beats
                def beats(s2, q):
                    x, y = (r, q) if name[:3] == 'max' else (q, r)
                    if len(vals) > 2:
                        return I.load(s2, call_fn(I, vals[2], [x, y], [et, et], n, s2, fr))
                    return I.compare('<', I.read(s2, x), I.read(s2, y), et, s2)
                return not_(quant(I, n, s, fr, a, b, beats, 'any'))
            return Iter(a.ref, a.pos + first_where(I, n, st, fr, a, b, extreme), a.rev)
        if cnt == 0:
            return b
        best = P(0)
        bv = I.read(st, elem(I, st, a, ZERO))
        for i in range(1, int(cnt)):
            x = I.read(st, elem(I, st, a, P(i)))
            if len(vals) > 2:
                c = I.tobool(st, I.load(st, call_fn(I, vals[2], [bv, x] if name[:3] == 'max' else [x, bv], [et, et], n, st, fr)))
            else:
                c = I.compare('<', bv, x, et, st) if name[:3] == 'max' else I.compare('<', x, bv, et, st)
            c = st.facts.simp(c)
            best = ite(c, P(i), best)
            bv = merge_val(c, x, bv) if c.kind not in ('T', 'F') else (x if c.kind == 'T' else bv)
        return Iter(a.ref, a.pos + best, a.rev)
    if name in ('partial_sum', 'inclusive_scan', 'adjacent_difference', 'exclusive_scan'):
        cnt = count_between(I, st, a, b)
        out = L(2)
        if name in ('adjacent_difference', 'exclusive_scan'):
            k = cnt.const()
            ex = name == 'exclusive_scan'
            opn = vals[3 + ex] if len(vals) > 3 + ex else None
            if opn is not None or k is None and ex:
                raise Unsupported(name)
            if ex:
                cur, T = L(3), tys[3]
                for i in range(int(k)):
                    x = I.read(st, elem(I, st, a, P(i)))
                    out_put(I, st, out, P(i), cur, T)
                    C = common(I, [bare(T), et])
                    cur = I.convert(I.binop('+', I.convert(cur, bare(T), C, st), I.convert(x, et, C, st), C, C, C, st), C, bare(T), st)
                return out_end(out, cnt)
            prev = I.new_cell(st, I.default(et, st, fr))

            def step(s, i):
                x = I.read(s, elem(I, s, a, i))
                v = ite(eq0(i), x, I.binop('-', x, I.read(s, prev), et, et, et, s))
                I.write(s, prev, x)
                out_put(I, s, out, i, v, et)
            loop(cnt, step)
            return out_end(out, cnt)
        acc = I.new_cell(st, I.default(et, st, fr))
        op = vals[3] if len(vals) > 3 else None

        def step(s, i):
            x = I.read(s, elem(I, s, a, i))
            if op is not None:
                base = s.facts
                if i.const() == 0:
                    v = x
                elif i.const() is not None:
                    v = I.load(s, call_fn(I, op, [I.read(s, acc), x], [et, et], n, s, fr))
                else:
                    raise Unsupported(name)
            else:
                v = I.binop('+', I.read(s, acc), x, et, et, et, s)
            I.write(s, acc, v)
            out_put(I, s, out, i, v, et)
        loop(cnt, step)
        return out_end(out, cnt)
    if name == 'iota':
        cnt = count_between(I, st, a, b)
        v = P(L(2))
        loop(cnt, lambda s, i: out_put(I, s, a, i, v + i, ''))
        return VOID
    if name == 'equal':
        c2 = L(2)
        if not isinstance(c2, Iter):
            return NotImplemented
        cnt = count_between(I, st, a, b)
        four = len(vals) > 3 and isinstance(L(3), Iter)
        same = TRUE
        if four:
            same = eq0(cnt - count_between(I, st, c2, L(3)))
            if same.kind == 'F':
                return FALSE
        et2 = et_of(I, st, c2)
        k = cnt.const()
        if k is None or same.kind != 'T':
            kk = fresh('k', 'i', True)
            s = State(st.cells, st.facts.add(ge0(cnt - 1 - P(kk))).add(same))
            if len(vals) > (4 if four else 3):
                p = I.tobool(s, I.load(s, call_fn(I, vals[-1], [elem(I, s, a, P(kk)), elem(I, s, c2, P(kk))], [et, et2], n, s, fr)))
            else:
                p = elem_eq(I, s, I.read(s, elem(I, s, a, P(kk))), I.read(s, elem(I, s, c2, P(kk))), et, et2)
            return and_(same, not_(any_(kk, cnt, not_(s.facts.simp(p)))))
        if len(vals) > (4 if four else 3):
            return and_(*[I.tobool(st, I.load(st, call_fn(I, vals[-1], [elem(I, st, a, P(i)), elem(I, st, c2, P(i))], [et, et2], n, st, fr))) for i in range(int(k))])
        return and_(*[elem_eq(I, st, I.read(st, elem(I, st, a, P(i))), I.read(st, elem(I, st, c2, P(i))), et, et2) for i in range(int(k))])
    if name in ('swap_ranges', 'iter_swap'):
        c2 = L(2) if name == 'swap_ranges' else b
        cnt = count_between(I, st, a, b) if name == 'swap_ranges' else ONE

        def step(s, i):
            r1, r2 = elem(I, s, a, i), elem(I, s, c2, i)
            x, y = I.read(s, r1), I.read(s, r2)
            I.write(s, r1, y)
            I.write(s, r2, x)
        loop(cnt, step)
        return VOID
    if name == 'reverse':
        cnt = count_between(I, st, a, b)
        if cnt.const() is None:
            q = I.read(st, a.ref)
            if isinstance(q, Seq) and len(q.segs) == 1 and q.segs[0][0] == 'r' and a.pos.const() == 0 and not a.rev and st.facts.simp(slen(q.segs) - cnt).const() == 0:
                _, m, k, body = q.segs[0]
                I.write(st, a.ref, Seq([('r', m, k, vsubst(body, {k: m - 1 - P(k)}))], q.et))
                return VOID
            raise Unsupported(name)
        cnt = cnt.const()
        xs = [I.read(st, elem(I, st, a, P(i))) for i in range(int(cnt))]
        for i, x in enumerate(reversed(xs)):
            I.write(st, elem(I, st, a, P(i)), x)
        return VOID
    if name in ('is_sorted',):
        cnt = count_between(I, st, a, b).const()
        if cnt is None:
            raise Unsupported(name)
        return and_(*[not_(I.compare('<', I.read(st, elem(I, st, a, P(i + 1))), I.read(st, elem(I, st, a, P(i))), et, st)) for i in range(int(cnt) - 1)])
    return NotImplemented


def uns(x):
    raise Unsupported(x)


def lessv(I, st, x, y, tx, ty):
    if isinstance(x, TERM) and isinstance(y, TERM):
        C = common(I, [tx, ty])
        return I.compare('<', I.convert(x, tx, C, st), I.convert(y, ty, C, st), C, st)
    raise Unsupported('ordering')


def elem_eq(I, st, x, y, tx, ty):
    if isinstance(x, TERM) and isinstance(y, TERM) and tx and ty:
        C = common(I, [tx, ty])
        if C:
            return I.compare('==', I.convert(x, tx, C, st), I.convert(y, ty, C, st), C, st)
    if isinstance(x, Obj) and I.ast.record(x.cls) is not None:
        r = I.call_operator('operator==', [I.new_cell(st, x), I.new_cell(st, y)], st, None)
        return I.tobool(st, I.load(st, r))
    return eqv(I, st, x, y, tx)


def ret_type(I, f, st, tys=()):
    """the arithmetic type a callable returns; for generic callables the common type
    of the types of their arguments"""
    def generic():
        ts = [bare(t) for t in tys]
        return common(I, ts) if ts and all(t and I.kind(t)[0] in ('int', 'bool', 'flt') for t in ts) else ''
    if isinstance(f, (Ref, CondRef)):
        f = I.load(st, f)
    d = None
    if isinstance(f, Closure):
        d = f.op
    elif isinstance(f, Fn):
        if f.node is None:
            return (f.ty or generic()) if f.name in ('plus', 'minus', 'multiplies', 'divides', 'modulus', 'negate') else ''
        d = f.node
    elif isinstance(f, Obj):
        rec = I.ast.record(f.cls)
        ms = I.ast.methods(rec, 'operator()') if rec is not None else []
        d = ms[0] if ms else None
    if d is not None and d.get('kind') == 'FunctionTemplateDecl':
        return generic()
    if d is None:
        return ''
    t = (d.get('type') or {}).get('qualType', '')
    if '->' in t:
        t = t.split('->')[-1]
    else:
        t = t[:t.index('(')] if '(' in t else t
    t = bare(t)
    return t if t in INTS or t in ('double', 'float', 'bool') else ''


def file_equal(I, vs, st):
    f1, e1, f2 = vs[0], vs[1], vs[2]
    if e1.f['end'] is not TRUE or f1.f['end'] is not FALSE or f2.f['end'] is not FALSE:
        raise Unsupported('stream comparison')
    a, b = I.read(st, f1.f['f'].ref), I.read(st, f2.f['f'].ref)
    return bytes_equal(I, st, a, b, len(vs) >= 4)


def bytes_equal(I, st, a, b, both):
    k = fresh('k', 'i', True)
    n1, n2 = ite(a.f['closed'], ZERO, fsize(a) - a.f['pos']), ite(b.f['closed'], ZERO, fsize(b) - b.f['pos'])
    if st is not None:
        n1, n2 = st.facts.simp(n1), st.facts.simp(n2)
    neq = not_(eq0(fbyte(a, a.f['pos'] + P(k)) - fbyte(b, b.f['pos'] + P(k))))
    if both:
        return and_(eq0(n1 - n2), not_(any_(k, n1, neq)))
    d = st.facts.simp(n2 - n1)
    if st.facts.nonneg(d):
        return not_(any_(k, n1, neq))
    # past the end of the second stream the buffer yields end-of-file, byte 255 as a char
    past = not_(eq0(fbyte(a, a.f['pos'] + P(k)) - 255))
    return not_(any_(k, n1, bite(ge0(n2 - 1 - P(k)), neq, past)))


def ateof(I, st, x):
    """stream iterator or stream at its end"""
    if 'end' in x.f:
        if x.f['end'] is TRUE:
            return TRUE
        x = I.read(st, x.f['f'].ref)
    if x.cls != 'std::ifstream':
        raise Unsupported('iterator over %s' % x.cls)
    return st.facts.simp(or_(x.f['closed'], ge0(x.f['pos'] - fsize(x))))


def curbyte(I, st, x):
    if 'end' in x.f:
        if x.f['end'] is TRUE:
            return P(-1)
        x = I.read(st, x.f['f'].ref)
    if x.cls != 'std::ifstream':
        raise Unsupported('iterator over %s' % x.cls)
    return st.facts.simp(ite(ateof(I, st, x), P(255), fbyte(x, x.f['pos'])))


def getline(I, vals, st):
    ref = vals[0]
    o = I.read(st, ref)
    if 'rest' not in o.f:
        raise Unsupported('getline')
    d = 10
    if len(vals) > 2:
        d = P(I.load(st, vals[2])).const()
    ch = chr(int(d))
    out = []
    parts = list(o.f['rest'].parts)
    found = False
    before = st.facts.simp(or_(o.f['fail'], o.f.get('eof', FALSE)))
    if before.kind == 'T':
        I.write(st, ref, o.set('fail', TRUE))
        return ref
    if before.kind != 'F':
        raise Unsupported('getline after a possible failure')
    if not parts:
        I.write(st, ref, o.set('fail', TRUE).set('eof', TRUE))
        return ref
    while parts:
        p = parts.pop(0)
        if p[0] == 'lit':
            i = p[1].find(ch)
            if i >= 0:
                out.append(('lit', p[1][:i]))
                parts.insert(0, ('lit', p[1][i + 1:]))
                found = True
                break
            out.append(p)
        elif p[0] == 'val' and p[2] == '' and not ch.isdigit() and ch != '-':
            out.append(p)
        else:
            raise Unsupported('getline over symbolic text')
    I.write(st, ref, o.set('rest', Str(parts)).set('eof', Bc(not found)))
    I.write(st, vals[1], Str(out))
    return ref


# ------------------------------------------------------------------ streams
def extract(I, st, ref, dref, t):
    """formatted input"""
    o = I.read(st, ref)
    if 'rest' not in o.f:
        raise Unsupported('input from %s' % o.cls)
    fl = st.facts.simp(o.f['fail'])
    if fl.kind == 'T':
        return
    if fl.kind != 'F':
        raise Unsupported('input after a possible failure')
    cur = I.read(st, dref)
    ef = st.facts.simp(o.f.get('eof', FALSE))
    if ef.kind == 'T':
        I.write(st, ref, o.set('fail', TRUE))
        return
    if ef.kind != 'F':
        raise Unsupported('input after a possible end of the text')
    parts = list(o.f['rest'].parts)
    if isinstance(cur, Obj) and cur.cls == 'rng':
        if len(parts) == 1 and parts[0][0] == 'val' and parts[0][2] == 'rng':
            a = parts[0][1].single_atom()
            if a is not None and a.kind == 'sel' and a.args[0] == 'mtstate':
                I.write(st, dref, Obj('rng', {'s': a.args[1], 'n': a.args[2]}))
                I.write(st, ref, o.set('rest', Str([])).set('eof', TRUE))
                return
        if len(parts) == 1 and parts[0][0] == 'sym':
            c = parts[0][1]
            bad = st.facts.simp(mk_b('bsel', ('badstate', c)))
            new = Obj('rng', {'s': P(mk_atom('sel', ('mtparse', c), 'i', True)), 'n': ZERO})
            junk = Obj('rng', {'s': P(mk_atom('sel', ('mtjunk', c), 'i', True)), 'n': ZERO})
            I.write(st, dref, merge_val(bad, junk, new) if bad.kind not in 'TF' else (junk if bad.kind == 'T' else new))
            I.write(st, ref, o.set('rest', Str([])).set('fail', bad).set('eof', mk_b('bsel', ('eofstate', c))))
            return
        lit = o.f['rest'].lit()
        if lit is not None:
            # fewer numbers than any state has
            toks = lit.split()
            if len(toks) < 300:
                I.write(st, dref, Obj('rng', {'s': P(fresh('junk', 'i', True)), 'n': ZERO}))
                if all(re.fullmatch(r'\d+', x) for x in toks):
                    o = o.set('rest', Str([])).set('eof', TRUE)
                I.write(st, ref, o.set('fail', TRUE))
                return
        raise Unsupported('engine state text')
    # leading blanks
    while parts and parts[0][0] == 'lit':
        s = parts[0][1].lstrip(' \t\n\r\v\f')
        if s:
            parts[0] = ('lit', s)
            break
        parts.pop(0)

    def done(fail=FALSE, look=False):
        # look: the extraction looks at the character behind the last one taken
        I.write(st, ref, o.set('rest', Str(parts)).set('fail', fail).set('eof', Bc(look and not parts)))
    if not parts:
        done(TRUE, True)
        return
    p = parts[0]
    if p[0] == 'tail':
        raise Unsupported('input inside a number')
    k = I.kind(t)
    if bare(t) == 'char':
        if p[0] == 'lit':
            I.write(st, dref, P(ord(p[1][0])))
            parts[0] = ('lit', p[1][1:])
            if not parts[0][1]:
                parts.pop(0)
            done()
            return
        if p[0] == 'val' and p[2] == '':
            c = P(fresh('digit', 'i', True))
            # the first character of a number: '-' or a digit
            st.facts = st.facts.add(not_(eq0(c - 47))).add(ge0(c - 43)).add(ge0(P(57) - c)).add(not_(eq0(c - 46))).add(not_(eq0(c - 44)))
            I.write(st, dref, c)
            parts[0] = ('tail', p[1], '')
            done()
            return
        raise Unsupported('character input')
    if k[0] == 'int':
        if p[0] == 'sym' and len(parts) == 1 and k[1:] == (64, False):
            parts.pop(0)
            I.write(st, dref, parse_num(I, 'strtoull', Str([p]), [], st, 'unsigned long'))
            done(look=True)
            return
        if p[0] == 'val' and p[2] == '':
            nx = parts[1] if len(parts) > 1 else None
            if nx is not None and (nx[0] != 'lit' or nx[1][:1].isdigit()):
                raise Unsupported('input of adjacent numbers')
            parts.pop(0)
            I.write(st, dref, p[1])
            done(look=True)
            return
        if p[0] == 'lit':
            m = re.match(r'[+-]?\d+', p[1])
            if not m:
                I.write(st, dref, ZERO)
                if p[1][0] in '+-':
                    parts[0] = ('lit', p[1][1:])
                    if not p[1][1:]:
                        parts.pop(0)
                done(TRUE, True)
                return
            if m.end() == len(p[1]) and len(parts) > 1:
                raise Unsupported('input of adjacent numbers')
            v = int(m.group(0))
            _, b, s = k
            hi = (1 << (b - 1)) - 1 if s else (1 << b) - 1
            lo = -(1 << (b - 1)) if s else 0
            if v > hi or v < lo:
                I.write(st, dref, P(hi if v > hi else lo))
                parts[0] = ('lit', p[1][m.end():])
                if not parts[0][1]:
                    parts.pop(0)
                done(TRUE, True)
                return
            I.write(st, dref, P(v))
            parts[0] = ('lit', p[1][m.end():])
            if not parts[0][1]:
                parts.pop(0)
            done(look=True)
            return
    if isinstance(cur, Str):
        out = []
        while parts:
            p = parts[0]
            if p[0] == 'lit':
                m = re.search(r'\s', p[1])
                if m:
                    out.append(('lit', p[1][:m.start()]))
                    parts[0] = ('lit', p[1][m.start():])
                    break
                out.append(parts.pop(0))
            elif p[0] == 'val' and p[2] == '':
                out.append(parts.pop(0))
            else:
                raise Unsupported('word input')
        I.write(st, dref, Str(out))
        done(look=True)
        return
    raise Unsupported('input of %s' % t)


def std_operator(I, op, args, n, st, fr):
    name = op[8:] if op.startswith('operator') else op
    a0 = I.ev(args[0], st, fr)
    if not st.alive:
        return VOID
    x = I.load(st, a0)
    tys = [qt(a) for a in args]
    if name == '<<' and isinstance(x, Obj) and 'fail' in x.f:
        v = I.ev(args[1], st, fr)
        if not st.alive:
            return VOID
        if isinstance(v, Fn) and v.name in ('endl', 'flush', 'ends'):
            if v.name == 'endl':
                put(I, st, a0, [('lit', '\n')])
            return a0
        if isinstance(v, Fn) and v.name in ('scientific', 'fixed', 'defaultfloat'):
            I.write(st, a0, x.set('ffield', Str([('lit', {'scientific': 'e', 'fixed': 'f', 'defaultfloat': 'g'}[v.name])])))
            return a0
        if isinstance(v, Fn):
            raise Unsupported('manipulator %s' % v.name)
        y = I.load(st, v)
        if isinstance(y, Obj) and y.cls == 'setprecision':
            I.write(st, a0.sub(('f', 'prec')), y.f['p'])
            return a0
        if isinstance(y, Obj) and y.cls == 'setfill':
            raise Unsupported('fill character')
        if isinstance(y, Obj) and y.cls == 'setw':
            I.write(st, a0, x.set('width', y.f['p']))
            return a0
        if 'width' in x.f and x.f['width'].const() != 0:
            w = x.f['width'].const()
            t = tys[1]
            if w is None or not isinstance(y, Poly) or I.kind(t)[0] not in ('int', 'flt') or bare(t) == 'char':
                raise Unsupported('padded output')
            x = x.set('width', ZERO)
            I.write(st, a0, x)
            sp = '>%d' % int(w)
            if I.kind(t)[0] == 'flt':
                pr = st.facts.simp(x.f['prec']).const()
                ff = x.f['ffield'].lit() if 'ffield' in x.f else 'g'
                sp = 'f>%d.%s%s' % (int(w), '*' if pr is None else int(pr), ff)
            put(I, st, a0, [('val', st.facts.simp(P(y)), sp)])
            return a0
        if isinstance(y, Obj) and y.cls == 'rng' and I.cfg.get('iofail'):
            I.write(st, a0.sub(('f', 'fail')), bsym('iofail'))
            I.write(st, a0.sub(('f', 'bad')), bsym('iofail'))
        if isinstance(y, Obj) and I.ast.record(y.cls) is not None:
            r = I.call_operator('operator<<', [a0, v if isinstance(v, Ref) else I.new_cell(st, y)], st, fr)
            return r
        spec = ''
        t = tys[1]
        if I.kind(t)[0] == 'flt':
            pr = st.facts.simp(x.f['prec'])
            ff = x.f['ffield'].lit() if 'ffield' in x.f else 'g'
            spec = '.%s%s' % (int(pr.const()) if pr.const() is not None else '*', ff)
            put(I, st, a0, ([] if pr.const() is not None else [('val', pr, 'precision')]) + [('val', st.facts.simp(P(y)), 'f' + spec)])
        else:
            put(I, st, a0, val_parts(I, y, t, '', st) if not isinstance(y, B) else [('val', b2i(y), '')])
        return a0
    if name == '>>' and isinstance(x, Obj) and 'fail' in x.f:
        d = I.ev(args[1], st, fr)
        if isinstance(d, Fn) and d.name == 'ws':
            return a0
        extract(I, st, a0, d, tys[1])
        return a0
    if name == '!' and isinstance(x, Obj) and 'fail' in x.f:
        return x.f['fail']
    if name == '=':
        v = I.ev(args[1], st, fr)
        if not st.alive:
            return VOID
        y = moved(I, v, args[1], st)
        if isinstance(x, Obj) and x.f and any(isinstance(f, RefVal) for f in x.f.values()):
            # tie
            src = list(y.f.values())
            for f, s in zip(x.f.values(), src):
                I.write(st, f.ref, s)
            return a0
        if isinstance(x, Obj) and x.cls == 'std::back_insert_iterator':
            push(I, st, x.f['c'].ref, y, qt(args[1]))
            return a0
        if isinstance(x, Obj) and x.cls == 'std::optional':
            if isinstance(y, Obj) and y.cls == 'std::optional':
                I.write(st, a0, y)
            else:
                I.write(st, a0, Obj('std::optional', {'has': TRUE, 'v': y}))
            return a0
        if isinstance(x, Str) and isinstance(y, Poly):
            y = Str([('lit', chr(int(y.const())))])
        if isinstance(x, Seq) and isinstance(y, Seq):
            y = Seq(y.segs, x.et or y.et)
        I.write(st, a0, y)
        return a0
    rest = []
    if name not in ('++', '--') and len(args) > 1:
        for a in args[1:]:
            rest.append(I.ev(a, st, fr))
            if not st.alive:
                return VOID
    if name == '[]':
        if isinstance(x, Map):
            return map_get(I, st, a0, I.load(st, rest[0]), 'op', fr)
        i = P(I.load(st, rest[0]))
        i = I.normi(st, i, I.kind(tys[1]))
        if isinstance(x, Iter):
            return I.deref(st, Iter(x.ref, x.pos + i, x.rev))
        if not isinstance(a0, (Ref, CondRef)):
            a0 = I.new_cell(st, x)
        if isinstance(x, Str):
            if x.lit() is None and i.const() is not None and str_code(x) is not None:
                return textop('char', (int(i.const()),), str_code(x), nn=True)
            return I.index(st, x, i)
        return I.subref(a0, ('i', st.facts.simp(i)))
    if name in ('()',):
        if isinstance(x, Obj) and x.cls == 'std::uniform_real_distribution':
            return draw(I, x, rest[0], st)
        if isinstance(x, Obj) and x.cls == 'std::bernoulli_distribution':
            return gt0(x.f['p'] - draw(I, Obj('std::uniform_real_distribution', {'a': ZERO, 'b': ONE}), rest[0], st))
        if isinstance(x, Obj) and x.cls == 'rng':
            v = P(mk_atom('sel', ('mtdraw', x.f['s'], x.f['n']), 'i', True))
            I.write(st, a0, x.set('n', x.f['n'] + 1))
            return v
        return call_fn(I, x if isinstance(x, (Fn, Closure)) else a0, rest, tys[1:], n, st, fr)
    if isinstance(x, Iter):
        if name == '*':
            if rest:
                raise Unsupported('iterator operator')
            return I.deref(st, x)
        if name == '->':
            return PtrTo(I.deref(st, x))
        if name in ('++', '--'):
            d = 1 if name == '++' else -1
            nv = Iter(x.ref, x.pos + d, x.rev)
            I.write(st, a0, nv)
            return x if len(args) > 1 else a0
        y = I.load(st, rest[0])
        if name in ('==', '!=', '<', '>', '<=', '>='):
            return I.compare(name, x, y, 'long', st)
        if name in ('+', '-'):
            return I.iter_arith(name, x, y)
        if name in ('+=', '-='):
            I.write(st, a0, I.iter_arith(name[0], x, y))
            return a0
    if isinstance(x, Obj) and x.cls in ('std::back_insert_iterator', 'std::ostream_iterator') and name in ('*', '++'):
        return a0
    if isinstance(x, Obj) and x.cls == 'std::istreambuf_iterator':
        if name == '*':
            return curbyte(I, st, x)
        if name == '++' and x.f['end'] is FALSE:
            o = I.read(st, x.f['f'].ref)
            I.write(st, x.f['f'].ref, o.set('pos', st.facts.simp(o.f['pos'] + ite(ateof(I, st, o), ZERO, ONE))))
            if len(args) > 1:
                # the proxy of it++ keeps the byte
                raise Unsupported('it++ of a stream iterator')
            return a0
        if name in ('==', '!='):
            r = iff(ateof(I, st, x), ateof(I, st, I.load(st, rest[0])))
            return r if name == '==' else not_(r)
    y = I.load(st, rest[0]) if rest else None
    if not I.fp and any(isinstance(v, Obj) and v.cls == 'std::complex' for v in (x, y)):
        if y is None and name in ('+', '-'):
            return complex_op(I, name, ZERO, x)
        if name in ('+=', '-=', '*=', '/='):
            I.write(st, a0, complex_op(I, name[0], x, y))
            return a0
        if name in ('+', '-', '*', '/', '==', '!='):
            return complex_op(I, name, x, y)
    if name == '+' and isinstance(y, Iter):
        return I.iter_arith('+', x, y)
    if isinstance(x, Str) or isinstance(y, Str):
        if name in ('==', '!='):
            r = I.str_eq(x, y)
            return r if name == '==' else not_(r)
        if name == '+' and isinstance(x, Choice) and choice_of_str(x):
            return on_choice(x, lambda v: str_binop_plus(v, y, tys) if not isinstance(y, Choice) else on_choice(y, lambda w: str_binop_plus(v, w, tys)))
        if name == '+' and isinstance(y, Choice) and choice_of_str(y):
            return on_choice(y, lambda w: str_binop_plus(x, w, tys))
        xs, ys = as_str(x, tys[0]), as_str(y, tys[1])
        if name == '+':
            return xs + ys
        if name == '+=':
            I.write(st, a0, xs + ys)
            return a0
        if name in ('<', '>', '<=', '>=') and xs.lit() is not None and ys.lit() is not None:
            p, q = xs.lit(), ys.lit()
            return Bc({'<': p < q, '>': p > q, '<=': p <= q, '>=': p >= q}[name])
        raise Unsupported('string operator %s' % name)
    if name in ('==', '!=') and isinstance(x, (Seq, Obj, Map)):
        if isinstance(x, Obj) and I.ast.record(x.cls) is not None:
            raise Unsupported('operator== of %s' % x.cls)
        r = elem_eq_seq(I, st, x, y)
        return r if name == '==' else not_(r)
    if name in ('<', '>', '<=', '>=') and isinstance(x, Obj) and isinstance(y, Obj) and x.cls in ('std::pair', 'std::tuple'):
        raise Unsupported('lexicographic order')
    if name in ('==', '!=', '<', '>', '<=', '>=') and isinstance(x, TERM) and isinstance(y, TERM):
        return I.compare(name, x, y, tys[0], st)
    if name in ('|', '&', '^', '+', '-') and isinstance(x, Poly) and isinstance(y, Poly):
        return I.arith(name, x, y, 'long', st)
    if isinstance(x, PtrTo) and name in ('*', '->', '!', '==', '!='):
        if name in '*->':
            return x.ref if name == '*' else x
        null = isinstance(y, Opaque) or isinstance(y, Poly) and y.const() == 0
        if name == '!' or null:
            return Bc(name == '!=')
    if name == '*' and isinstance(x, Obj) and x.cls == 'std::optional':
        return I.fieldref(a0, 'v')
    if name == '->' and isinstance(x, Obj) and x.cls == 'std::optional':
        return PtrTo(I.fieldref(a0, 'v'))
    raise Unsupported('operator %s on %s at %s' % (name, type(x).__name__, I.where(n)))


def elem_eq_seq(I, st, x, y):
    if isinstance(x, Seq) and isinstance(y, Seq) and x.concrete() and y.concrete():
        if len(x.segs) != len(y.segs):
            return FALSE
        return and_(*[elem_eq(I, st, p[1], q[1], x.et, y.et) for p, q in zip(x.segs, y.segs)])
    return eqv(I, st, x, y)


def str_binop_plus(x, y, tys):
    return as_str(x, tys[0]) + as_str(y, tys[1])


def as_str(v, t):
    if isinstance(v, Str):
        return v
    if isinstance(v, Poly) and v.const() is not None:
        return Str([('lit', chr(int(v.const()) & 255))])
    raise Unsupported('text of %s' % type(v).__name__)


def draw(I, d, rref, st, ):
    r = I.read(st, rref)
    if not (isinstance(r, Obj) and r.cls == 'rng'):
        raise Unsupported('random engine')
    u = P(mk_atom('sel', ('u01', r.f['s'], r.f['n']), 'r', True))
    I.write(st, rref, r.set('n', r.f['n'] + 1))
    a, b = d.f['a'], d.f['b']
    st.facts = st.facts.add(gt0(ONE - u))
    return a + (b - a) * u


# ------------------------------------------------------------------ maps
def key_cmp(k):
    if isinstance(k, Str) and k.lit() is not None:
        return (0, k.lit())
    if isinstance(k, Poly) and k.const() is not None:
        return (1, k.const())
    return None


def map_insert(m, k, v, overwrite):
    kc = key_cmp(k)
    if kc is None:
        raise Unsupported('insertion of a symbolic key')
    items = list(m.items)
    for j, (kk, vv) in enumerate(items):
        c = key_cmp(kk)
        if c is None:
            raise Unsupported('map with symbolic keys')
        if c == kc:
            if overwrite:
                items[j] = (kk, v)
            return Map(items, m.kt, m.vt)
        if c > kc:
            items.insert(j, (k, v))
            return Map(items, m.kt, m.vt)
    items.append((k, v))
    return Map(items, m.kt, m.vt)


def map_find(I, st, m, k):
    """list of (index, condition)"""
    out = []
    rest = TRUE
    for j, (kk, _) in enumerate(m.items):
        c = st.facts.simp(and_(rest, eqv(I, st, kk, k, m.kt)))
        if c.kind == 'T':
            return [(j, TRUE)], FALSE
        if c.kind != 'F':
            out.append((j, c))
            rest = st.facts.simp(and_(rest, not_(eqv(I, st, kk, k, m.kt))))
    return out, rest


def map_get(I, st, ref, k, how, fr):
    m = I.read(st, ref)
    hits, miss = map_find(I, st, m, k)
    if how == 'op' and miss.kind != 'F':
        if not hits and key_cmp(k) is not None:
            m2 = map_insert(m, k, I.default(m.vt, st, fr), False)
            I.write(st, ref, m2)
            j = [i for i, (kk, _) in enumerate(m2.items) if key_cmp(kk) == key_cmp(k)][0]
            return ref.sub(('m', j))
        raise Unsupported('map[] with an unknown key')
    if how == 'at' and miss.kind != 'F':
        a, b = I.fork(st, miss)
        if a.alive:
            I.throw(a, 'std::out_of_range', Obj('std::out_of_range', {'what': Str([('lit', 'map::at')])}))
        st.take(b)
        if not st.alive or not hits:
            st.alive = False
            return VOID
    r = ref.sub(('m', hits[-1][0]))
    for j, c in reversed(hits[:-1]):
        r = CondRef(st.facts.simp(c), ref.sub(('m', j)), r)
    return r


# ------------------------------------------------------------------ methods
def std_method(I, obj, name, args, n, st, fr, ot):
    if name in ('value', 'const_value') and 'serialization::nvp' in ot:
        return obj
    x = I.load(st, obj)
    if isinstance(x, (PtrTo,)) :
        obj = x.ref
        x = I.load(st, obj)
    vals = []
    for a in args:
        if a.get('kind') == 'CXXDefaultArgExpr':
            continue
        vals.append(I.ev(a, st, fr))
        if not st.alive:
            return VOID
    args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
    tys = [qt(a) for a in args]
    x = I.load(st, obj)

    def L(i):
        return I.load(st, vals[i])
    if not isinstance(obj, (Ref, CondRef)):
        obj = I.new_cell(st, x)
    if isinstance(obj, CondRef) and name in ('push_back', 'emplace_back', 'clear', 'resize', 'pop_back', 'assign', 'insert', 'erase'):
        raise Unsupported('modification of a conditional object')
    if name in ('operator=', 'operator[]', 'operator*', 'operator+=', 'operator->', 'operator++', 'operator()', 'operator<<', 'operator>>', 'operator--'):
        return std_operator_vals(I, name, obj, vals, tys, args, n, st, fr)
    if isinstance(x, (Seq, Map)):
        if name == 'size':
            return slen(x.segs) if isinstance(x, Seq) else P(len(x.items))
        if name == 'empty':
            return eq0(slen(x.segs)) if isinstance(x, Seq) else Bc(not x.items)
        ln = slen(x.segs) if isinstance(x, Seq) else P(len(x.items))
        if name in ('begin', 'cbegin'):
            return mkiter(obj, ZERO)
        if name in ('end', 'cend'):
            return mkiter(obj, st.facts.simp(ln))
        if name in ('rbegin', 'crbegin'):
            return Iter(obj, ZERO, True)
        if name in ('rend', 'crend'):
            return Iter(obj, st.facts.simp(ln), True)
        if name in ('clear',):
            I.write(st, obj, Seq([], x.et) if isinstance(x, Seq) else Map([], x.kt, x.vt))
            return VOID
        if name == 'swap':
            y = L(0)
            I.write(st, obj, y)
            I.write(st, vals[0], x)
            return VOID
        if name in ('max_size',):
            return P((1 << 63) - 1)
    if isinstance(x, Seq):
        return seq_method(I, obj, x, name, vals, tys, args, n, st, fr)
    if isinstance(x, Map):
        if name == 'at':
            return map_get(I, st, obj, L(0), 'at', fr)
        if name in ('find', 'count', 'contains'):
            hits, miss = map_find(I, st, x, L(0))
            if name == 'find':
                p = P(len(x.items))
                for j, c in reversed(hits):
                    p = ite(c, P(j), p)
                return Iter(obj, p)
            c = or_(*[c for _, c in hits])
            return c if name == 'contains' else b2i(c)
        if name in ('lower_bound', 'upper_bound', 'equal_range'):
            kk = key_cmp(L(0))
            if kk is None:
                raise Unsupported('map::%s of a symbolic key' % name)
            lo = sum(key_cmp(a) < kk for a, _ in x.items)
            up = lo + sum(key_cmp(a) == kk for a, _ in x.items)
            if name == 'equal_range':
                return Obj('std::pair', {'first': Iter(obj, P(lo)), 'second': Iter(obj, P(up))})
            return Iter(obj, P(lo if name == 'lower_bound' else up))
        if name in ('emplace', 'try_emplace', 'insert', 'insert_or_assign', 'emplace_hint'):
            if name == 'insert' and len(vals) == 1:
                p = L(0)
                if isinstance(p, Seq):
                    raise Unsupported('insert of a list')
                k, v = p.f['first'], p.f['second']
            elif name in ('emplace', 'try_emplace', 'insert_or_assign') and len(vals) == 2:
                k, v = L(0), L(1)
                if isinstance(v, TERM):
                    v = I.convert(v, tys[1], x.vt, st)
            elif name in ('emplace', 'try_emplace') and len(vals) == 1:
                k, v = L(0), I.default(x.vt, st, fr)
            else:
                raise Unsupported('map::%s' % name)
            if isinstance(k, RefVal):
                k = I.load(st, k.ref)
            if isinstance(v, RefVal):
                v = I.load(st, v.ref)
            hits, miss = map_find(I, st, x, k)
            if miss.kind not in ('T', 'F'):
                raise Unsupported('insertion of a symbolic key')
            new = miss.kind == 'T'
            m2 = map_insert(x, k, v, name == 'insert_or_assign')
            I.write(st, obj, m2)
            j = [i for i, (kk, _) in enumerate(m2.items) if key_cmp(kk) == key_cmp(k)][0]
            return Obj('std::pair', {'first': Iter(obj, P(j)), 'second': Bc(new)})
        if name == 'erase':
            k = L(0)
            if isinstance(k, Iter):
                j = k.pos.const()
                if j is None:
                    raise Unsupported('erase')
                I.write(st, obj, Map([it for i, it in enumerate(x.items) if i != j], x.kt, x.vt))
                return Iter(obj, k.pos)
            hits, miss = map_find(I, st, x, k)
            if any(c.kind != 'T' for _, c in hits):
                raise Unsupported('erase of a symbolic key')
            js = {j for j, _ in hits}
            I.write(st, obj, Map([it for i, it in enumerate(x.items) if i not in js], x.kt, x.vt))
            return P(len(js))
        raise Unsupported('map::%s' % name)
    if isinstance(x, Str):
        return str_method(I, obj, x, name, vals, tys, n, st)
    if isinstance(x, Obj):
        if 'fail' in x.f:
            return stream_method(I, obj, x, name, vals, tys, n, st)
        if x.cls == 'rng':
            if name == 'discard':
                I.write(st, obj, x.set('n', x.f['n'] + P(L(0))))
                return VOID
            if name == 'seed':
                v = L(0) if vals else P(5489)
                w = rng64(bare(ot))
                if isinstance(v, Obj) and v.cls == 'std::seed_seq':
                    I.write(st, obj, rng_new(v.f['v'], 'mtseedseq' if w else 'mtseedseq32'))
                    return VOID
                v = I.normu(st, P(v))
                I.write(st, obj, rng_new(v if w else I.narrowto(st, v, 32, False), 'mtseed' if w else 'mtseed32'))
                return VOID
            if name in ('min', 'max'):
                raise Unsupported(name)
        if x.cls == 'std::uniform_real_distribution':
            if name in ('a', 'min'):
                return x.f['a']
            if name in ('b', 'max'):
                return x.f['b']
            if name == 'reset':
                return VOID
            if name == 'operator()':
                return draw(I, x, vals[0], st)
        if x.cls == 'std::complex':
            if name in ('real', 'imag'):
                if vals:
                    I.write(st, obj, x.set(name[:2], P(L(0))))
                    return VOID
                return x.f[name[:2]]
        if x.cls == 'std::bernoulli_distribution' and name == 'operator()':
            return gt0(x.f['p'] - draw(I, Obj('std::uniform_real_distribution', {'a': ZERO, 'b': ONE}), vals[0], st))
        if name == 'what' and 'what' in x.f:
            return x.f['what']
        if x.cls == 'const' and name.startswith('operator'):
            return x.f['value']
        if x.cls == 'std::optional':
            if name in ('has_value', 'operator bool'):
                return x.f['has']
            if name == 'value':
                return I.fieldref(obj, 'v')
            if name == 'value_or':
                return merge_val(x.f['has'], x.f['v'], L(0))
            if name == 'reset':
                I.write(st, obj, x.set('has', FALSE))
                return VOID
        if name == 'swap' and len(vals) == 1:
            y = L(0)
            I.write(st, obj, y)
            I.write(st, vals[0], x)
            return VOID
    if isinstance(x, Iter):
        if name == 'base':
            return x
    if isinstance(x, Choice):
        if name in ('compare', 'find', 'rfind', 'substr', 'size', 'length', 'empty', 'at', 'front', 'back', 'c_str', 'data', 'find_first_of', 'find_first_not_of') and choice_of_str(x):
            return on_choice(x, lambda y: str_method(I, obj, y, name, vals, tys, n, st))
        raise Unsupported('call on alternative values')
    if isinstance(x, Poly) and name.startswith('operator ') and I.kind(bare(name[9:]))[0] == 'int':
        # positions convert to offsets
        return x
    raise Unsupported('%s of %s at %s' % (name, x.cls if isinstance(x, Obj) else type(x).__name__, I.where(n)))


def mkiter(obj, pos):
    if isinstance(obj, CondRef):
        raise Unsupported('iterator into a conditional object')
    return Iter(obj, pos)


def std_operator_vals(I, name, obj, vals, tys, args, n, st, fr):
    x = I.load(st, obj)
    if name == 'operator=':
        y = moved(I, vals[0], args[0], st)
        if isinstance(x, Seq) and isinstance(y, Seq):
            y = Seq(y.segs, x.et or y.et)
        I.write(st, obj, y)
        return obj
    if name == 'operator[]':
        if isinstance(x, Map):
            return map_get(I, st, obj, I.load(st, vals[0]), 'op', fr)
        return I.subref(obj, ('i', st.facts.simp(I.normi(st, P(I.load(st, vals[0])), I.kind(tys[0])))))
    if name == 'operator()' and isinstance(x, Obj) and x.cls == 'std::uniform_real_distribution':
        return draw(I, x, vals[0], st)
    raise Unsupported(name)


def seq_method(I, obj, x, name, vals, tys, args, n, st, fr):
    def L(i):
        return I.load(st, vals[i])
    ln = slen(x.segs)
    et = x.et
    if name == 'data':
        return Iter(obj, ZERO)
    if name in ('push_back', 'emplace_back', 'push_front', 'emplace_front'):
        if not vals:
            v = I.default(et, st, fr)
        elif len(vals) == 1:
            v = moved(I, vals[0], args[0] if args else None, st)
            x = I.read(st, obj)
            if isinstance(v, TERM):
                v = I.convert(v, tys[0], et, st)
            elif name.startswith('emplace') and I.kind(et)[0] == 'obj' and tmpl_name(bare(tys[0])) != tmpl_name(bare(et)) and not isinstance(v, (Seq, Str)):
                raise Unsupported('emplace')
        elif tmpl_name(bare(et)) in SEQS and len(vals) == 2:
            v = std_construct(I, bare(et), '', vals, args, st, fr, n)
        elif tmpl_name(bare(et)) == 'std::pair':
            v = std_construct(I, bare(et), '', vals, args, st, fr, n)
        else:
            raise Unsupported('emplace')
        x = I.read(st, obj)
        if name.endswith('front'):
            I.write(st, obj, Seq((('e', v),) + x.segs, et))
            return VOID
        I.write(st, obj, Seq(x.segs + (('e', v),), et))
        if name == 'emplace_back':
            return obj.sub(('i', ln))
        return VOID
    if name == 'pop_back':
        if x.segs and x.segs[-1][0] == 'e':
            I.write(st, obj, Seq(x.segs[:-1], et))
        else:
            I.write(st, obj, piecewise(I, st, [(x, ZERO, ln - 1)], et))
        return VOID
    if name == 'back':
        i = st.facts.simp(ln - 1)
        return I.subref(obj, ('i', i))
    if name == 'front':
        return I.subref(obj, ('i', ZERO))
    if name == 'at':
        i = st.facts.simp(I.normi(st, P(L(0)), I.kind(tys[0])))
        bad = st.facts.simp(not_(and_(ge0(ln - 1 - i), ge0(i))))
        if bad.kind != 'F':
            a, b = I.fork(st, bad)
            if a.alive:
                I.throw(a, 'std::out_of_range', Obj('std::out_of_range', {'what': Str([('lit', 'vector::at')])}))
            st.take(b)
            if not st.alive:
                return VOID
        return I.subref(obj, ('i', st.facts.simp(i)))
    if name in ('reserve', 'shrink_to_fit'):
        return VOID
    if name == 'capacity':
        raise Unsupported('capacity')
    if name == 'fill':
        v = L(0)
        if isinstance(v, TERM):
            v = I.convert(v, tys[0], et, st)
        I.write(st, obj, rep(I, st, ln, v, et))
        return VOID
    if name == 'resize':
        k = st.facts.simp(I.normi(st, P(L(0)), I.kind(tys[0])))
        v = L(1) if len(vals) > 1 else I.default(et, st, fr)
        if isinstance(v, TERM) and len(vals) > 1:
            v = I.convert(v, tys[1], et, st)
        c, m = k.const(), ln.const()
        if c is not None and x.concrete():
            segs = list(x.segs[:int(c)])
            if c - len(segs) > MAXE:
                segs.append(('r', k - len(segs), fresh('k', 'i', True), v))
            else:
                segs += [('e', v)] * (int(c) - len(segs))
            I.write(st, obj, Seq(segs, et))
            return VOID
        # symbolic size: element k is the old one below the old size
        if len(x.segs) == 0:
            I.write(st, obj, rep(I, st, k, v, et))
            return VOID
        kk = fresh('k', 'i', True)
        K = P(kk)
        f = State(st.cells, st.facts.add(ge0(k - 1 - K)))
        inside = f.facts.simp(ge0(ln - 1 - K))
        if inside.kind == 'F':
            body = v
        else:
            f2 = State(st.cells, f.facts.add(inside))
            old = I.index(f2, x, K)
            body = merge_val(inside, old, v) if inside.kind != 'T' else old
        I.write(st, obj, Seq([('r', k, kk, body)], et))
        return VOID
    if name == 'assign':
        a = L(0)
        if isinstance(a, Iter):
            I.write(st, obj, range_seq(I, a, L(1), et, st))
        elif isinstance(a, Seq):
            I.write(st, obj, Seq(a.segs, et))
        else:
            v = L(1)
            if isinstance(v, TERM):
                v = I.convert(v, tys[1], et, st)
            I.write(st, obj, rep(I, st, I.normi(st, P(a), I.kind(tys[0])), v, et))
        return VOID
    if name in ('insert', 'emplace'):
        it = L(0)
        p = st.facts.simp(it.pos)
        if len(vals) == 2:
            v = L(1)
            new = v.segs if isinstance(v, Seq) and tmpl_name(bare(et)) not in SEQS else (('e', I.convert(v, tys[1], et, st) if isinstance(v, TERM) else v),)
        elif isinstance(L(1), Iter):
            new = range_seq(I, L(1), L(2), et, st).segs
        else:
            new = rep(I, st, P(L(1)), L(2), et).segs
        if p is st.facts.simp(ln):
            I.write(st, obj, Seq(x.segs + tuple(new), et))
        elif p.const() == 0:
            I.write(st, obj, Seq(tuple(new) + x.segs, et))
        elif p.const() is not None and x.concrete():
            I.write(st, obj, Seq(x.segs[:int(p.const())] + tuple(new) + x.segs[int(p.const()):], et))
        else:
            y = Seq(new, et)
            I.write(st, obj, piecewise(I, st, [(x, ZERO, p), (y, ZERO, slen(y.segs)), (x, p, ln - p)], et))
        return Iter(obj, p)
    if name == 'erase':
        it = L(0)
        p = it.pos.const()
        e = L(1).pos.const() if len(vals) > 1 else (p + 1 if p is not None else None)
        if p is None or e is None or not x.concrete():
            b = L(1).pos if len(vals) > 1 else it.pos + 1
            if it.rev:
                raise Unsupported('erase')
            I.write(st, obj, piecewise(I, st, [(x, ZERO, it.pos), (x, b, ln - b)], et))
            return Iter(obj, it.pos)
        I.write(st, obj, Seq(x.segs[:int(p)] + x.segs[int(e):], et))
        return Iter(obj, P(p))
    if name == 'sum' and not vals:
        s = ZERO
        for e in x.elems():
            s = s + e
        return s
    raise Unsupported('vector::%s' % name)


def char_map(I, st, x, step):
    """the text x with every character replaced by what step leaves in the cell it is given"""
    t = x.lit()
    if t is not None:
        out = ''
        for ch in t:
            r = I.new_cell(st, P(ord(ch)))
            step(st, r)
            if not st.alive:
                raise Unsupported('exit from a loop over a text')
            c = P(I.read(st, r)).const()
            if c is None:
                raise Unsupported('characters of a text')
            out += chr(int(c) & 255)
        return Str([('lit', out)])
    code = str_code(x)
    if code is None:
        raise Unsupported('characters of a text')
    ch = P(fresh('ch', 'i', True))
    s = st.clone()
    r = I.new_cell(s, ch)
    step(s, r)
    v = I.read(s, r) if s.alive else None
    for k, c in st.cells.items():
        if s.cells.get(k) is not c:
            raise Unsupported('loop over the characters of a text')
    a = v.single_atom() if isinstance(v, Poly) else None
    while a is not None and a.kind == 'narrow':
        v = a.args[2]
        a = v.single_atom()
    if v is ch:
        return x
    if a is not None and a.kind == 'sel' and a.args[0] in ('tolower', 'toupper') and a.args[1] is ch:
        return Str([('sym', textop(a.args[0][2:], (), code, nn=True))])
    raise Unsupported('loop over the characters of a text')


def choice_of_str(x):
    return isinstance(x, Str) or isinstance(x, Choice) and choice_of_str(x.a) and choice_of_str(x.b)


def on_choice(x, f):
    return merge_val(x.c, on_choice(x.a, f), on_choice(x.b, f)) if isinstance(x, Choice) else f(x)


def text_call(I, x, name, vals, tys):
    """a pure operation with constant arguments; None if the arguments are not constant"""
    for i, v in enumerate(vals):
        if isinstance(v, Choice):
            return merge_val(v.c, text_call(I, x, name, vals[:i] + [v.a] + vals[i + 1:], tys), text_call(I, x, name, vals[:i] + [v.b] + vals[i + 1:], tys))
    c = str_code(x)
    cs = []
    for v in vals:
        if isinstance(v, Str) and v.lit() is not None:
            cs.append(v.lit())
        elif isinstance(v, Poly) and v.const() is not None:
            cs.append(int(v.const()))
        else:
            return None
    if c is None:
        return None
    if name == 'compare':
        if len(cs) == 1:
            return None
        if len(cs) == 3 and isinstance(cs[2], str):
            return textop(name, cs, c)
        return None
    if name in ('at', 'operator[]', 'front'):
        return textop('char', cs or [0], c, nn=True)
    if name == 'back':
        return textop('last', (), c, nn=True)
    if name == 'substr':
        r = textop(name, cs, c, nn=True)
        return Str([('lit', TEXTS[int(r.const())])]) if r.const() is not None else Str([('sym', r)])
    return textop(name, cs, c, nn=True)


def str_method(I, obj, x, name, vals, tys, n, st):
    if name in ('c_str', 'data', 'operator basic_string_view', 'str'):
        return x
    if name.startswith('operator'):
        return x
    t = x.lit()
    if name in ('size', 'length'):
        if t is not None:
            return P(len(t))
        c = str_code(x)
        if c is not None:
            return P(mk_atom('sel', ('strlen', c), 'i', True))
        raise Unsupported('length of composed text')
    if name == 'compare' and len(vals) > 1 or name in ('find', 'rfind', 'find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of', 'substr', 'at', 'operator[]', 'front', 'back', 'compare'):
        r = text_call(I, x, name, [I.load(st, v) for v in vals], tys)
        if r is not None:
            return r
    if name == 'empty':
        if t is not None:
            return Bc(t == '')
        if any(p[0] in ('val', 'lit') for p in x.parts):
            return FALSE
        return eq0(P(mk_atom('sel', ('strlen', str_code(x)), 'i', True)))
    if name in ('append', 'push_back'):
        v = I.load(st, vals[0])
        I.write(st, obj, x + as_str(v, tys[0]))
        return obj
    if name == 'clear':
        I.write(st, obj, Str([]))
        return VOID
    if name == 'assign':
        I.write(st, obj, I.load(st, vals[0]))
        return obj
    if name == 'compare' and len(vals) == 1:
        r = I.str_eq(x, I.load(st, vals[0]))
        if r.kind == 'T':
            return ZERO
        y = I.load(st, vals[0])
        if x.lit() is not None and isinstance(y, Str) and y.lit() is not None:
            return P(-1 if x.lit() < y.lit() else 1)
        if str_code(x) is None or not isinstance(y, Str) or str_code(y) is None:
            v = P(fresh('cmp', 'i'))
            st.facts = st.facts.add(not_(eq0(v)))
        else:
            v = ite(mk_b('bsel', ('strless', P(str_code(x)), P(str_code(y)))), P(-1), ONE)
        return v if r.kind == 'F' else ite(r, ZERO, v)
    if t is not None:
        cs = []
        for v in vals:
            v = I.load(st, v)
            if isinstance(v, Str) and v.lit() is not None:
                cs.append(v.lit())
            elif isinstance(v, Poly) and v.const() is not None:
                cs.append(int(v.const()))
            else:
                raise Unsupported('string::%s' % name)
        NPOS = (1 << 64) - 1
        if name in ('find', 'rfind', 'find_first_of', 'find_first_not_of'):
            s = cs[0] if isinstance(cs[0], str) else chr(cs[0])
            if name == 'find':
                r = t.find(s, cs[1] if len(cs) > 1 else 0)
            elif name == 'rfind':
                r = t.rfind(s)
            elif name == 'find_first_of':
                r = min([i for i, c in enumerate(t) if c in s] or [-1])
            else:
                r = min([i for i, c in enumerate(t) if c not in s] or [-1])
            return P(r if r >= 0 else NPOS)
        if name == 'substr':
            a = cs[0] if cs else 0
            b = cs[1] if len(cs) > 1 else NPOS
            return Str([('lit', t[a:a + b])])
        if name in ('front', 'back') and t:
            return P(ord(t[0 if name == 'front' else -1]))
        if name == 'at':
            return P(ord(t[cs[0]]))
    else:
        if name == 'find' and vals:
            # separator search in composed text
            v = I.load(st, vals[0])
            s = v.lit() if isinstance(v, Str) else chr(int(v.const())) if isinstance(v, Poly) and v.const() is not None else None
            raise Unsupported('search in composed text')
    raise Unsupported('string::%s' % name)


def stream_method(I, obj, x, name, vals, tys, n, st):
    def L(i):
        return I.load(st, vals[i])
    if name == 'operator bool':
        return not_(x.f['fail'])
    if name in ('fail', 'operator!'):
        return x.f['fail']
    if name == 'bad':
        # the operations modelled here set failbit; only setstate and a failing device set badbit
        return x.f.get('bad', FALSE)
    if name == 'good':
        if 'rest' in x.f:
            return not_(or_(x.f['fail'], x.f['eof']))
        return not_(x.f['fail'])
    if name == 'is_open':
        return not_(x.f['fail'])
    if name == 'eof':
        return x.f.get('eof', FALSE)
    if name == 'setstate':
        c = P(L(0)).const()
        if c is None:
            raise Unsupported('setstate')
        if int(c) & 5:
            x = x.set('fail', TRUE)
            if int(c) & 1:
                x = x.set('bad', TRUE)
            I.write(st, obj, x)
        if int(c) & 2 and 'eof' in x.f:
            I.write(st, obj, x.set('eof', TRUE))
        return VOID
    if name == 'clear':
        if vals:
            c = P(L(0)).const()
            x = x.set('fail', Bc(bool(int(c) & 5))).set('bad', Bc(bool(int(c) & 1)))
        else:
            c = 0
            x = x.set('fail', FALSE).set('bad', FALSE)
        if 'eof' in x.f:
            x = x.set('eof', Bc(bool(int(c) & 2)))
        I.write(st, obj, x)
        return VOID
    if name == 'str':
        if vals:
            k = 'rest' if 'rest' in x.f else 'buf'
            I.write(st, obj, x.set(k, L(0)))
            return VOID
        return x.f['buf'] if 'buf' in x.f else x.f['rest']
    if name in ('close', 'flush', 'sync_with_stdio') and x.cls != 'std::ifstream':
        return VOID
    if name == 'open' and 'file' in x.f:
        mode = P(L(1)).const() if len(vals) > 1 else 16
        event(I, st, open_mode(mode), L(0), None)
        I.write(st, obj, x.set('file', L(0)))
        return VOID
    if name == 'precision':
        old = x.f['prec']
        if vals:
            I.write(st, obj, x.set('prec', P(L(0))))
        return old
    if name in ('put', 'write') and name == 'put':
        c = P(L(0)).const()
        if c is None:
            raise Unsupported('put')
        put(I, st, obj, [('lit', chr(int(c) & 255))])
        return obj
    if x.cls == 'std::ifstream':
        if name == 'tellg':
            return ite(x.f['fail'], P(-1), x.f['pos'])
        if name == 'seekg':
            off = P(L(0))
            if len(vals) > 1:
                d = P(L(1)).const()
                if d is None:
                    d = P(L(1))
                    base = ite(eq0(d), ZERO, ite(eq0(d - 1), x.f['pos'], fsize(x)))
                else:
                    base = {0: ZERO, 1: x.f['pos'], 2: fsize(x)}[int(d)]
                off = off + base
            I.write(st, obj, x.set('pos', off))
            return obj
        if name == 'eof':
            raise Unsupported('eof')
        if name == 'rdbuf':
            return PtrTo(obj)
        if name == 'close':
            I.write(st, obj, x.set('closed', TRUE))
            return VOID
        if name in ('get', 'peek', 'sgetc', 'sbumpc') and not vals:
            e = or_(x.f['fail'], ateof(I, st, x)) if name in ('get', 'peek') else ateof(I, st, x)
            e = st.facts.simp(e)
            b = fbyte(x, x.f['pos'])
            if name in ('get', 'sbumpc'):
                I.write(st, obj, x.set('pos', x.f['pos'] + ite(e, ZERO, ONE)).set('fail', or_(x.f['fail'], e) if name == 'get' else x.f['fail']))
            return st.facts.simp(ite(e, P(-1), b))
    if 'rest' in x.f and name in ('get', 'peek'):
        if vals:
            raise Unsupported(name)
        parts = list(x.f['rest'].parts)
        before = st.facts.simp(or_(x.f['fail'], x.f['eof']))
        if before.kind not in 'TF':
            raise Unsupported('%s after a possible failure' % name)
        if before.kind == 'T':
            I.write(st, obj, x.set('fail', TRUE))
            return P(-1)
        if not parts:
            I.write(st, obj, x.set('eof', TRUE).set('fail', Bc(name == 'get')))
            return P(-1)
        if parts[0][0] != 'lit':
            if parts[0][0] == 'val' and name == 'peek':
                c = P(fresh('digit', 'i', True))
                st.facts = st.facts.add(not_(eq0(c - 47))).add(ge0(c - 43)).add(ge0(P(57) - c))
                return c
            raise Unsupported('get inside a number')
        c = parts[0][1][0]
        if name == 'get':
            parts[0] = ('lit', parts[0][1][1:])
            if not parts[0][1]:
                parts.pop(0)
            I.write(st, obj, x.set('rest', Str(parts)))
        return P(ord(c))
    if name == 'ignore' and 'rest' in x.f:
        k = int(P(L(0)).const()) if vals else 1
        parts = list(x.f['rest'].parts)
        while k and parts:
            if parts[0][0] != 'lit':
                raise Unsupported('ignore inside a number')
            s = parts[0][1]
            parts[0] = ('lit', s[k:])
            k -= min(k, len(s))
            if not parts[0][1]:
                parts.pop(0)
        I.write(st, obj, x.set('rest', Str(parts)).set('eof', Bc(k > 0)))
        return obj
    raise Unsupported('stream %s' % name)
