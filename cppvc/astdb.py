"""Extraction: runs clang on a driver TU that includes the headers of /repo and indexes the *instantiated* declarations
and bodies of the resulting AST.  Nothing of the verified text is hand-written: bodies come from this dump on every run."""
import json, os, re, subprocess, glob
from . import ctypes_ as T

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = 'clang++'


class ExtractError(Exception):
    pass


def includes():
    return ['-I' + d for d in sorted(glob.glob(os.path.join(REPO, 'subprojects', '*', 'include')))]


def dump(driver_path, extra=()):
    cmd = [CLANG, '-std=c++17', '-fsyntax-only', '-w', '-DNDEBUG', '-ferror-limit=5'] + includes() + list(extra) + \
          ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=mltk', driver_path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise ExtractError('clang failed on the driver:\n' + p.stderr.decode(errors='replace')[:4000])
    return p.stdout.decode(errors='replace')


FUNCS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'CXXDestructorDecl')


class Func:
    __slots__ = ('node', 'name', 'cls', 'params', 'body', 'inits', 'qualtype', 'rettype', 'static', 'virtual', 'line', 'file', 'kind', 'implicit', 'default', 'tmpl_args')

    def __repr__(self):
        return 'Func(%s::%s %s)' % (self.cls, self.name, self.qualtype)


class Record:
    __slots__ = ('ty', 'fields', 'bases', 'methods', 'node', 'complete', 'pattern')


class AST:
    def __init__(self, text):
        self.decls = {}
        self.funcs = {}
        self.records = {}
        self.docs = []
        dec = json.JSONDecoder(); i = 0; n = len(text)
        while True:
            while i < n and text[i] in ' \n\r\t':
                i += 1
            if i >= n:
                break
            o, i = dec.raw_decode(text, i)
            self.docs.append(o)
        T.parse.cache_clear()
        self._names()
        self._lines()
        for d in self.docs:
            self._index(d, None, False)
        self._link()

    # -- pass 1: names of enums / templates / records -------------------------------------------------
    def _names(self):
        def go(n):
            k = n.get('kind')
            if k == 'EnumDecl' and n.get('name'):
                T.ENUMS.add(n['name'])
            elif k == 'ClassTemplateDecl':
                T.TEMPLATES.add(n['name'])
            elif k == 'CXXRecordDecl' and n.get('name'):
                T.RECORDS.add(n['name'])
            if k in ('NamespaceDecl', 'ClassTemplateDecl', 'CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'LinkageSpecDecl', 'TranslationUnitDecl'):
                for c in n.get('inner', []) or []:
                    if c:
                        go(c)
        for d in self.docs:
            go(d)

    def _lines(self):
        st = {'file': None, 'line': None}

        def loc(l):
            if not l:
                return
            if 'spellingLoc' in l:
                loc(l['spellingLoc']); loc(l.get('expansionLoc')); return
            if 'file' in l:
                st['file'] = l['file']
            if 'line' in l:
                st['line'] = l['line']
        stack = list(reversed(self.docs))
        while stack:
            n = stack.pop()
            loc(n.get('loc'))
            r = n.get('range')
            if r:
                loc(r.get('begin'))
                n['_line'] = st['line']; n['_file'] = st['file']
                loc(r.get('end'))
            inner = n.get('inner')
            if inner:
                for c in reversed(inner):
                    if c:
                        stack.append(c)

    def _index(self, n, cls, pattern):
        k = n.get('kind')
        if 'id' in n and k and k.endswith('Decl'):
            old = self.decls.get(n['id'])
            if old is None or 'inner' in n:
                self.decls[n['id']] = n
        if k in FUNCS:
            self._func(n, cls, pattern)
            return
        if k == 'FunctionTemplateDecl':
            first = True
            for c in n.get('inner', []) or []:
                if c.get('kind') in FUNCS:
                    self._func(c, cls, pattern or first)
                    first = False
            return
        if k == 'ClassTemplateDecl':
            seen = False
            for c in n.get('inner', []) or []:
                if c.get('kind') == 'CXXRecordDecl':
                    self._index(c, None, True)
                elif c.get('kind') in ('ClassTemplateSpecializationDecl',):
                    self._index(c, None, pattern)
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
            name = n.get('name')
            if not name:
                return
            if k == 'ClassTemplatePartialSpecializationDecl':
                pattern = True
            args = []
            if k == 'ClassTemplateSpecializationDecl':
                for c in n.get('inner', []) or []:
                    if c.get('kind') == 'TemplateArgument':
                        t = c.get('type')
                        if t:
                            args.append(t.get('desugaredQualType', t['qualType']))
                        elif 'value' in c:
                            args.append(str(c['value']))
            ty = T.parse(name + ('<' + ', '.join(args) + '>' if args else '')) if not pattern else ('pattern', name)
            complete = n.get('completeDefinition', False)
            r = Record(); r.ty = ty; r.node = n; r.fields = []; r.bases = []; r.methods = {}; r.complete = complete; r.pattern = pattern
            for b in n.get('bases', []) or []:
                t = b['type']
                try:
                    r.bases.append(T.parse(t.get('desugaredQualType', t['qualType'])))
                except Exception:
                    pass
            for c in n.get('inner', []) or []:
                ck = c.get('kind')
                if ck == 'FieldDecl':
                    r.fields.append(c)
                    self.decls[c['id']] = c
                    c['_cls'] = ty
                else:
                    self._index(c, ty, pattern)
            if not pattern:
                old = self.records.get(ty)
                if old is None or (complete and (not old.complete or len(r.fields) >= len(old.fields))):
                    self.records[ty] = r
            return
        if k == 'FriendDecl':
            for c in n.get('inner', []) or []:
                if c.get('kind') in FUNCS or c.get('kind') == 'FunctionTemplateDecl':
                    self._index(c, None, pattern)
            return
        for c in n.get('inner', []) or []:
            if c:
                self._index(c, cls, pattern)

    def _func(self, n, cls, pattern):
        if n['id'] in self.funcs and not n.get('inner'):        # a mere reference to an already listed declaration
            return
        f = Func()
        f.node = n; f.name = n.get('name'); f.cls = cls; f.kind = n['kind']
        f.qualtype = n.get('type', {}).get('qualType', '')
        f.params = []; f.body = None; f.inits = []
        f.static = n.get('storageClass') == 'static'
        f.virtual = n.get('virtual', False)
        f.line = n.get('_line'); f.file = n.get('_file')
        f.implicit = n.get('isImplicit', False)
        f.default = n.get('explicitlyDefaulted')
        f.tmpl_args = []
        for c in n.get('inner', []) or []:
            ck = c.get('kind')
            if ck == 'ParmVarDecl':
                f.params.append(c)
                self.decls[c['id']] = c
            elif ck == 'CompoundStmt':
                f.body = c
            elif ck == 'CXXTryStmt':
                f.body = c
            elif ck == 'CXXCtorInitializer':
                f.inits.append(c)
            elif ck == 'OverrideAttr':
                f.virtual = True
            elif ck == 'TemplateArgument':
                f.tmpl_args.append(c)
        n['_pattern'] = pattern
        if not pattern and n.get('name') == cls:
            pass
        self.funcs[n['id']] = f
        self.decls[n['id']] = n

    def _link(self):
        # definitions out of line: map declaration id -> definition with body
        self.defof = {}
        for i, f in self.funcs.items():
            p = f.node.get('previousDecl')
            if p and f.body is not None:
                q = p
                while q:
                    self.defof[q] = i
                    d = self.decls.get(q)
                    q = d.get('previousDecl') if d else None
        self.members = {}
        for i, f in self.funcs.items():
            pc = f.node.get('parentDeclContextId')
            if f.cls is None and pc:
                # out-of-line member definition
                d = self.decls.get(pc)
                if d is not None:
                    for ty, r in self.records.items():
                        if r.node is d:
                            f.cls = ty
        for i, f in self.funcs.items():
            if f.node.get('_pattern') or f.cls is None or f.cls[0] == 'pattern':
                continue
            self.members.setdefault(f.cls, []).append(f)

    # -- queries -----------------------------------------------------------------------------------
    def func(self, fid):
        f = self.funcs.get(fid)
        if f is None:
            return None
        if f.body is None and fid in self.defof:
            g = self.funcs[self.defof[fid]]
            if g.cls is None:
                g.cls = f.cls
            return g
        return f

    def find_methods(self, cls, name):
        out = []
        for f in self.members.get(cls, []):
            if f.name == name:
                g = self.func(f.node['id'])
                if g not in out:
                    out.append(g)
        return out

    def find_functions(self, name, pattern=False):
        out = []
        for i, f in self.funcs.items():
            if f.name == name and (f.cls is None) and f.body is not None and (not f.node.get('_pattern')):
                out.append(f)
        return out

    def all_fields(self, cls):
        """[(name, type-string, FieldDecl)] including bases (bases first)"""
        r = self.records.get(cls)
        if r is None:
            raise ExtractError('no record %s' % (cls,))
        out = []
        for b in r.bases:
            if b in self.records:
                out += self.all_fields(b)
        for c in r.fields:
            if c.get('name'):
                t = c['type']
                out.append((c['name'], t.get('desugaredQualType', t['qualType']), c))
        return out

    def is_base(self, base, cls):
        if base == cls:
            return True
        r = self.records.get(cls)
        if r is None:
            return False
        return any(self.is_base(base, b) for b in r.bases)

    def overrider(self, cls, name, qualtype):
        """final overrider of a virtual method for the dynamic type cls"""
        key = _sigkey(qualtype)
        r = self.records.get(cls)
        if r is None:
            return None
        for f in self.find_methods(cls, name):
            if _sigkey(f.qualtype) == key:
                return f
        for b in r.bases:
            f = self.overrider(b, name, qualtype)
            if f is not None:
                return f
        return None


def _sigkey(q):
    # parameter list only
    i = q.find('(')
    s = q[i:]
    s = re.sub(r'std::|mltk::', '', s)
    return s.replace(' ', '')
