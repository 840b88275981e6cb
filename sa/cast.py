"""Loading of clang's typed JSON AST: declarations, definitions, records."""
import json
import os
import re
import subprocess

DECLS = ('Decl',)


def clang_ast(src, flags, filt):
    cmd = ['clang++', '-std=c++17', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt] + flags + [src]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return p.returncode, p.stdout, p.stderr


def parse_stream(s):
    d = json.JSONDecoder()
    i, n = 0, len(s)
    out = []
    while True:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            return out
        o, i = d.raw_decode(s, i)
        out.append(o)


_sp = re.compile(r'\s+')


def norm_type(t):
    t = t.replace('class ', '').replace('struct ', '').replace('enum ', '').replace('typename ', '')
    t = re.sub(r'\bconst\b', ' ', t)
    t = re.sub(r'\bvolatile\b', ' ', t)
    t = re.sub(r'(\d)(?:UL|U|L|ul|u)\b', r'\1', t)
    t = t.replace('std::__cxx11::', 'std::')
    t = _sp.sub(' ', t).strip()
    t = re.sub(r'\s*([<>,&*])\s*', r'\1', t)
    if '<>' in t:
        for k, v in DEFAULTS.items():
            t = re.sub(r'(?<![\w:])' + re.escape(k), v, t)
    return t


DEFAULTS = {}       # template-ids relying on default arguments only


def bare(t):
    t = norm_type(t)
    while t.endswith('&') or t.endswith('*'):
        if t.endswith('*'):
            break
        t = t[:-1]
    return t.strip()


def tmpl_args(t):
    """template arguments of the outermost template-id"""
    i = t.find('<')
    if i < 0:
        return []
    depth = 0
    cur = ''
    out = []
    for ch in t[i:]:
        if ch == '<':
            depth += 1
            if depth == 1:
                continue
        if ch == '>':
            depth -= 1
            if depth == 0:
                out.append(cur.strip())
                return out
        if ch == ',' and depth == 1:
            out.append(cur.strip())
            cur = ''
            continue
        cur += ch
    return out


def tmpl_name(t):
    i = t.find('<')
    return t if i < 0 else t[:i]


def qt(node):
    t = node.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''


class AST:
    def __init__(self, objs):
        self.objs = objs
        self.decl = {}
        self.parent = {}
        self.prev = {}
        self.records = {}
        self.by_qname = {}
        self.file = '?'
        self.line = 0
        self.nfun = 0
        for o in objs:
            self._walk(o, None, '')
        # definitions
        self.defn = {}
        for i, n in self.decl.items():
            if n.get('kind') in FUNS and self.body(n) is not None and not self.dependent(n):
                j = i
                while j:
                    self.defn.setdefault(j, n)
                    j = self.prev.get(j)
        # later redeclarations of a definition
        for i, n in self.decl.items():
            j = i
            seen = []
            while j and j not in self.defn:
                seen.append(j)
                j = self.prev.get(j)
            if j:
                for s in seen:
                    self.defn.setdefault(s, self.defn[j])

    def dependent(self, n):
        return n.get('_dep', False)

    def _loc(self, n):
        for l in (n.get('loc'), (n.get('range') or {}).get('begin'), (n.get('range') or {}).get('end')):
            if not l:
                continue
            for k in ('spellingLoc', 'expansionLoc'):
                if k in l:
                    self._one(l[k])
            self._one(l)

    def _one(self, l):
        if 'file' in l:
            self.file = l['file']
        if 'line' in l:
            self.line = l['line']

    def _begin(self, n):
        l = n.get('loc') or {}
        l = l.get('expansionLoc', l)
        if l and 'offset' in l:
            self._one(l)
            return (self.file, self.line)
        return None

    def _walk(self, n, par, q, dep=False):
        if not isinstance(n, dict):
            return
        k = n.get('kind', '')
        where = None
        if n.get('loc'):
            if 'spellingLoc' in n['loc']:
                self._one(n['loc']['spellingLoc'])
                n['_spell'] = (self.file, self.line)
            self._one_all(n['loc'])
            where = (self.file, self.line)
        r = n.get('range') or {}
        if r.get('begin'):
            self._one_all(r['begin'])
            if where is None:
                where = (self.file, self.line)
        if r.get('end'):
            self._one_all(r['end'])
        n['_loc'] = where or (self.file, self.line)
        i = n.get('id')
        if i and k.endswith('Decl') and i in self.decl and 'inner' in self.decl[i] and 'inner' not in n:
            return          # a bare reference to a declaration already seen in full
        if i and k.endswith('Decl'):
            self.decl[i] = n
            if par is not None:
                n['_par'] = par
            if n.get('previousDecl'):
                self.prev[i] = n['previousDecl']
            name = n.get('name', '')
            if k == 'ClassTemplateDecl':
                ds = [((c.get('defaultArg') or {}).get('type') or {}).get('qualType') for c in n.get('inner', []) if c.get('kind') == 'TemplateTypeParmDecl']
                if ds and all(ds) and not any(c.get('kind') in ('NonTypeTemplateParmDecl', 'TemplateTemplateParmDecl') for c in n['inner']):
                    DEFAULTS[(q + '::' if q else '') + name + '<>'] = (q + '::' if q else '') + name + '<' + ','.join(ds) + '>'
            if k in ('NamespaceDecl', 'CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'EnumDecl'):
                q2 = (q + '::' + name if q else name) if name else q
                if k == 'ClassTemplateSpecializationDecl':
                    args = []
                    for c in n.get('inner', []):
                        if c.get('kind') == 'TemplateArgument':
                            args.append(targ(c))
                    q2 = q2 + '<' + ','.join(norm_type(a) for a in args) + '>'
                n['_q'] = q2
                if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') and n.get('completeDefinition'):
                    if not (par is not None and par.get('kind') == 'ClassTemplateDecl' and k == 'CXXRecordDecl'):
                        self.records[norm_type(q2)] = n
                    else:
                        dep = True
                q = q2
            elif k in FUNS:
                n['_q'] = (q + '::' + name) if q else name
                if par is not None and par.get('kind') == 'FunctionTemplateDecl' and not any(c.get('kind') == 'TemplateArgument' for c in n.get('inner', [])):
                    dep = True
                pid = n.get('parentDeclContextId')
                if pid and pid in self.decl and self.decl[pid].get('_dep_rec'):
                    dep = True
                if 'mangledName' not in n and k not in ('CXXConstructorDecl', 'CXXDestructorDecl'):
                    pass
                n['_dep'] = dep
                self.nfun += 1
                self.by_qname.setdefault(n['_q'], []).append(n)
            if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
                n['_dep_rec'] = dep
        for c in n.get('inner', []) or []:
            self._walk(c, n, q, dep)

    def _one_all(self, l):
        if 'spellingLoc' in l:
            self._one(l['spellingLoc'])
        if 'expansionLoc' in l:
            self._one(l['expansionLoc'])
        self._one(l)

    @staticmethod
    def body(fn):
        for c in fn.get('inner', []) or []:
            if c.get('kind') == 'CompoundStmt':
                return c
        return None

    @staticmethod
    def params(fn):
        return [c for c in fn.get('inner', []) or [] if c.get('kind') == 'ParmVarDecl']

    def record(self, t):
        t = bare(t)
        if t in self.records:
            return self.records[t]
        return None

    def fields(self, rec):
        """(name, node) of all fields, bases first"""
        out = []
        for b in rec.get('bases', []):
            bt = b['type'].get('desugaredQualType') or b['type']['qualType']
            br = self.record(bt)
            if br is not None:
                out += self.fields(br)
        for c in rec.get('inner', []):
            if c.get('kind') == 'FieldDecl':
                out.append((c.get('name', ''), c))
        return out

    def methods(self, rec, name):
        return [c for c in self.all_members(rec) if c.get('kind') in FUNS and c.get('name') == name]

    def all_members(self, rec):
        for c in rec.get('inner', []):
            if c.get('kind') == 'FunctionTemplateDecl':
                for d in c.get('inner', []):
                    yield d
            yield c
        for b in rec.get('bases', []):
            br = self.record(b['type'].get('desugaredQualType') or b['type']['qualType'])
            if br is not None:
                yield from self.all_members(br)

    def same_fn(self, d):
        r = {d['id']}
        p = self.prev.get(d['id'])
        while p:
            r.add(p)
            p = self.prev.get(p)
        return r

    def find_def(self, i):
        return self.defn.get(i)


FUNS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'CXXDestructorDecl')


def targ(c):
    if 'type' in c:
        return c['type'].get('desugaredQualType') or c['type'].get('qualType')
    if 'value' in c:
        return str(c['value'])
    if 'decl' in c:
        return c['decl'].get('name', '?')
    inner = c.get('inner', []) or []
    if c.get('isPack') or sum(x.get('kind') == 'TemplateArgument' for x in inner) > 1:
        return ','.join(targ(x) for x in inner if x.get('kind') == 'TemplateArgument')
    for x in inner:
        if 'value' in x:
            return str(x['value'])
        if x.get('kind') == 'TemplateArgument':
            return targ(x)
    return '?'
