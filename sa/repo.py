"""Source loading and name resolution for the analysed packages."""
from __future__ import annotations

import ast
import hashlib
import os


class Module:
    def __init__(self, name, path, text):
        self.name = name
        self.path = path
        self.text = text
        self.tree = ast.parse(text, path)
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.defs = {}          # name -> ('func'|'class'|'import'|'from'|'value', payload)
        self._scan(self.tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                self.defs[n.name] = ('func', n)
            elif isinstance(n, ast.ClassDef):
                self.defs[n.name] = ('class', n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.defs[a.asname] = ('import', a.name)
                    else:
                        self.defs[a.name.split('.')[0]] = ('import', a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                mod = self._abs(n)
                for a in n.names:
                    if a.name == '*':
                        self.defs.setdefault('*', ('star', []))[1].append(mod)
                    else:
                        self.defs[a.asname or a.name] = ('from', (mod, a.name))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    self._bind(t, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self._bind(n.target, n.value)
            elif isinstance(n, (ast.If, ast.Try)):
                self._scan(n.body)
                for h in getattr(n, 'handlers', []):
                    pass
                self._scan(n.orelse)

    def _bind(self, t, v):
        if isinstance(t, ast.Name):
            self.defs[t.id] = ('value', v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Name):
                    self.defs[e.id] = ('item', (v, i))

    def _abs(self, n):
        if not n.level:
            return n.module or ''
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        if n.level > 1:
            parts = parts[:-(n.level - 1)]
        if n.module:
            parts = parts + [n.module]
        return '.'.join(parts)


class ClassInfo:
    def __init__(self, qual, node, mod):
        self.qual = qual
        self.node = node
        self.mod = mod
        self.members = {}
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                kind = 'func'
                for d in n.decorator_list:
                    s = ast.unparse(d)
                    if s in ('property', 'cached_property', 'functools.cached_property'):
                        kind = 'prop'
                    elif s == 'classmethod':
                        kind = 'cm'
                    elif s == 'staticmethod':
                        kind = 'sm'
                    elif s.endswith('.setter'):
                        kind = 'setter'
                if kind == 'setter':
                    self.members[n.name + '.setter'] = ('func', n)
                    continue
                self.members[n.name] = (kind, n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.members[t.id] = ('value', n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                self.members[n.target.id] = ('value', n.value)


class Repo:
    """All modules below the given package roots ({package: directory})."""

    OVERLAY: dict = {}      # module name -> text, for the development tools

    def __init__(self, roots):
        self.roots = roots
        self.modules = {}
        self.errors = {}
        self._classes = {}
        self._funcs = {}
        self._mro = {}
        for pkg, d in roots.items():
            self._load(pkg, d)

    def _load(self, pkg, d):
        for base, dirs, files in os.walk(d):
            dirs[:] = sorted(x for x in dirs if not x.startswith(('.', '__pycache__')))
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(base, f)
                rel = os.path.relpath(path, d)
                parts = rel[:-3].split(os.sep)
                if parts[-1] == '__init__':
                    parts = parts[:-1]
                name = '.'.join([pkg] + parts) if parts else pkg
                with open(path, encoding='utf8') as fh:
                    text = fh.read()
                text = self.OVERLAY.get(name, text)
                try:
                    self.modules[name] = Module(name, path, text)
                except SyntaxError as e:
                    self.errors[name] = e

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode())
            h.update(self.modules[n].text.encode())
        return h.hexdigest()[:16]

    # -------------------------------------------------------- resolution

    def resolve(self, modname, name, _seen=None):
        """What `name` means in module `modname`:
        ('func', qual) ('class', qual) ('mod', name) ('ext', dotted)
        ('value', (module, expr)) or None"""
        _seen = _seen or set()
        if (modname, name) in _seen:
            return None
        _seen.add((modname, name))
        mod = self.modules.get(modname)
        if mod is None:
            return ('ext', modname + '.' + name)
        d = mod.defs.get(name)
        if d is None:
            if modname + '.' + name in self.modules:
                return ('mod', modname + '.' + name)
            for m in mod.defs.get('*', (None, []))[1]:
                if m in self.modules:
                    r = self.resolve(m, name, _seen)
                    if r:
                        return r
            return None
        kind, p = d
        if kind == 'func':
            return ('func', modname + ':' + name)
        if kind == 'class':
            return ('class', modname + ':' + name)
        if kind == 'import':
            if p in self.modules:
                return ('mod', p)
            return ('ext', p)
        if kind == 'from':
            m, n = p
            if m in self.modules:
                r = self.resolve(m, n, _seen)
                if r is None and m + '.' + n in self.modules:
                    return ('mod', m + '.' + n)
                return r
            if m + '.' + n in self.modules:
                return ('mod', m + '.' + n)
            return ('ext', (m + '.' + n) if m else n)
        if kind == 'value':
            return ('value', (modname, name, p))
        if kind == 'item':
            return ('item', (modname, name) + p)
        return None

    def cls(self, qual):
        c = self._classes.get(qual)
        if c is None:
            m, n = qual.split(':')
            mod = self.modules.get(m)
            if mod is None:
                return None
            d = mod.defs.get(n)
            if not d or d[0] != 'class':
                return None
            c = self._classes[qual] = ClassInfo(qual, d[1], mod)
        return c

    def base_names(self, qual):
        c = self.cls(qual)
        if c is None:
            return []
        out = []
        for b in c.node.bases:
            out.append(self._resolve_expr(c.mod.name, b))
        return out

    def _resolve_expr(self, modname, e):
        """Qualified name of a class expression."""
        if isinstance(e, ast.Name):
            r = self.resolve(modname, e.id)
            if r is None:
                return 'builtins.' + e.id
            if r[0] == 'class':
                return r[1]
            if r[0] == 'ext':
                return r[1]
            return modname + '?' + e.id
        if isinstance(e, ast.Attribute):
            base = e.value
            names = [e.attr]
            while isinstance(base, ast.Attribute):
                names.append(base.attr)
                base = base.value
            if isinstance(base, ast.Name):
                r = self.resolve(modname, base.id)
                if r and r[0] == 'mod':
                    m = r[1]
                    for n in reversed(names):
                        r = self.resolve(m, n)
                        if r is None:
                            return '?'
                        if r[0] == 'mod':
                            m = r[1]
                        else:
                            return r[1]
                if r and r[0] == 'ext':
                    return '.'.join([r[1]] + list(reversed(names)))
        return '?' + ast.unparse(e)

    def mro(self, qual):
        """Linearised bases (C3), repo classes and external names."""
        r = self._mro.get(qual)
        if r is not None:
            return r
        if ':' not in qual or self.cls(qual) is None:
            return [qual]
        self._mro[qual] = [qual]
        seqs = [list(self.mro(b)) for b in self.base_names(qual)] + [list(self.base_names(qual))]
        out = [qual]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in t if x != h] for t in seqs]
            seqs = [t for t in seqs if t]
        self._mro[qual] = out
        return out

    def subclasses(self, qual):
        out = []
        for m in self.modules.values():
            for n, (k, p) in m.defs.items():
                if k == 'class':
                    q = m.name + ':' + n
                    if qual in self.mro(q):
                        out.append(q)
        return sorted(out)

    def member(self, qual, name, after=None):
        """(kind, node, owner) of a class attribute."""
        mro = self.mro(qual)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for q in mro:
            c = self.cls(q) if ':' in q else None
            if c is None:
                continue
            if name in c.members:
                k, n = c.members[name]
                return k, n, q
        return None

    def ext_bases(self, qual):
        return [q for q in self.mro(qual) if ':' not in q and q not in ('object', 'builtins.object')]

    def func(self, qual):
        """FunctionDef of 'module:name' or 'module:Class.name'."""
        m, n = qual.split(':')
        mod = self.modules.get(m)
        if mod is None:
            return None
        if '.' in n:
            c, f = n.split('.', 1)
            ci = self.cls(m + ':' + c)
            if ci is None or f not in ci.members:
                return None
            return ci.members[f][1]
        d = mod.defs.get(n)
        if d is None or d[0] != 'func':
            return None
        return d[1]

    def iter_functions(self):
        for m in self.modules.values():
            if not m.name.startswith('pynare'):
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, ast.FunctionDef):
                    yield m, n
