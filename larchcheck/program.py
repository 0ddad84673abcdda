"""Resolved program model: modules, classes (with MRO and properties), functions."""
import ast
import os

from .frontend import parse_file, FrontendError


class AnalysisBroken(Exception):
    """An anchor the rule depends on is missing: error exit, never a verdict."""


class Func:
    def __init__(self, module, cls, name, node, kind):
        self.module, self.cls, self.name, self.node, self.kind = module, cls, name, node, kind
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.all_params = self.params + self.kwonly

    @property
    def path(self): return self.module.path
    @property
    def qual(self):
        base = self.module.short + ':' + ((self.cls.name + '.') if self.cls else '') + self.name
        return base + ({'setter': '.setter', 'deleter': '.deleter', 'getter': '.getter'}.get(self.kind, ''))
    def default_of(self, p):
        a = self.node.args
        pos = a.posonlyargs + a.args
        nd = len(a.defaults)
        for i, x in enumerate(pos):
            if x.arg == p:
                j = i - (len(pos) - nd)
                return a.defaults[j] if j >= 0 else None
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg == p:
                return d
        return None
    def loc(self, node=None):
        return '%s:%d' % (self.module.rel, getattr(node, 'lineno', None) or self.node.lineno)
    def __repr__(self): return '<Func %s>' % self.qual


class Cls:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.methods = {}
        self.props = {}
        self.attrs = {}
        self.order = []
        for s in node.body:
            self._member(s)

    def _member(self, s):
        if isinstance(s, ast.FunctionDef):
            kind = 'method'
            for d in s.decorator_list:
                t = ast.unparse(d)
                if t in ('property', 'lazy', 'cached_property', 'functools.cached_property', 'property_in'):
                    kind = 'getter'
                elif t.endswith('.setter'):
                    kind = 'setter'
                elif t.endswith('.deleter'):
                    kind = 'deleter'
                elif t.endswith('.getter'):
                    kind = 'getter'
                elif t == 'classmethod':
                    kind = 'classmethod'
                elif t == 'staticmethod':
                    kind = 'staticmethod'
            f = Func(self.module, self, s.name, s, kind)
            self.order.append(f)
            if kind in ('getter', 'setter', 'deleter'):
                self.props.setdefault(s.name, {})[kind] = f
            else:
                self.methods[s.name] = f
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            self.attrs[s.targets[0].id] = s.value
            # x = property(getx, setx, delx) / alias = method
            v = s.value
            nm = s.targets[0].id
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'property':
                for kind, a in zip(('getter', 'setter', 'deleter'), v.args):
                    if isinstance(a, ast.Name) and a.id in self.methods:
                        self.props.setdefault(nm, {})[kind] = self.methods[a.id]
            elif isinstance(v, ast.Name) and v.id in self.methods:
                self.methods[nm] = self.methods[v.id]
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            self.attrs[s.target.id] = s.value
        elif isinstance(s, (ast.If, ast.Try)):
            for x in s.body:
                self._member(x)

    def functions(self):
        return list(self.order)

    @property
    def qual(self): return self.module.short + ':' + self.name


class Module:
    def __init__(self, prog, name, path):
        self.prog, self.name, self.path = prog, name, path
        self.rel = os.path.relpath(path, prog.repo)
        self.short = name[len('larch.'):] if name.startswith('larch.') else name
        self.tree = parse_file(path, name)
        self.funcs, self.classes, self.imports, self.consts = {}, {}, {}, {}
        self.stars = []
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = Func(self, None, s.name, s, 'func')
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Cls(self, s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = (a.name, None)
                    else:
                        self.imports[a.name.split('.')[0]] = (a.name.split('.')[0], None)
            elif isinstance(s, ast.ImportFrom):
                base = self._abs(s.module, s.level)
                for a in s.names:
                    if a.name == '*':
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = (base, a.name)
            elif isinstance(s, (ast.If, ast.With)):
                self._scan(s.body)
                self._scan(getattr(s, 'orelse', []))
            elif isinstance(s, ast.Try):
                self._scan(s.body)
                for h in s.handlers:
                    self._scan(h.body)
                self._scan(s.orelse)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.consts[s.target.id] = s.value

    def all_funcs(self):
        """every function and method, property accessors included"""
        out = list(self.funcs.values())
        for c in self.classes.values():
            out += list(c.methods.values())
            for p in c.props.values():
                out += [x for x in p.values() if x is not None]
        return out

    def _abs(self, module, level):
        module = module or ''
        if module.startswith('.'):
            n = len(module) - len(module.lstrip('.'))
            level = max(level, n)
            module = module.lstrip('.')
        if not level:
            return module
        parts = self.name.split('.')
        if os.path.basename(self.path) != '__init__.py':
            parts = parts[:-1]
        if level > 1:
            parts = parts[:-(level - 1)]
        return '.'.join(parts + ([module] if module else []))


class Program:
    def __init__(self, repo='/repo'):
        self.repo = repo
        self.modules = {}
        self.enum = {}
        self._paths, self._bases, self._mros = {}, {}, {}

    def module_path(self, name):
        if name not in self._paths:
            self._paths[name] = self._module_path(name)
        return self._paths[name]

    def _module_path(self, name):
        base = os.path.join(self.repo, *name.split('.'))
        for p in (base + '.py', base + '.pyx', os.path.join(base, '__init__.py')):
            if os.path.exists(p):
                return p
        return None

    def module(self, name):
        if not name.startswith('larch'):
            name = 'larch.' + name
        if name not in self.modules:
            p = self.module_path(name)
            if p is None:
                return None
            try:
                self.modules[name] = Module(self, name, p)
            except (FrontendError, SyntaxError) as e:
                raise AnalysisBroken('cannot parse %s: %s' % (p, e))
        return self.modules[name]

    def need_module(self, name):
        m = self.module(name)
        if m is None:
            raise AnalysisBroken('module %s not found' % name)
        return m

    def all_modules(self):
        out = []
        root = os.path.join(self.repo, 'larch')
        skip = ('doc', 'examples', 'data_warehouse')
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in skip and not x.startswith('__'))
            for f in sorted(fs):
                if f.endswith('.py') or f.endswith('.pyx'):
                    rel = os.path.relpath(os.path.join(d, f), self.repo)
                    nm = rel.rsplit('.', 1)[0].replace(os.sep, '.')
                    if nm.endswith('.__init__'):
                        nm = nm[:-9]
                    out.append(nm)
        return [self.module(n) for n in out]

    def cls(self, modname, cname):
        m = self.need_module(modname)
        if cname not in m.classes:
            raise AnalysisBroken('class %s not found in %s' % (cname, modname))
        return m.classes[cname]

    def func(self, modname, fname):
        m = self.need_module(modname)
        if fname not in m.funcs:
            raise AnalysisBroken('function %s not found in %s' % (fname, modname))
        return m.funcs[fname]

    def method(self, cls, name, kind=None):
        r = self.lookup(cls, name, kind)
        if r is None:
            raise AnalysisBroken('method %s of class %s not found' % (name, cls.name))
        return r

    # -------------------------------------------------- name resolution
    def resolve_import(self, module, node, name):
        """what `from X import name` inside a function binds"""
        base = module._abs(node.module, node.level)
        if not base.startswith('larch'):
            return ('ext', base + '.' + name)
        mm = self.module(base) if self.module_path(base) else None
        if mm is not None:
            r = self.resolve(mm, name)
            if r is not None:
                return r
        if self.module_path(base + '.' + name):
            return self.module(base + '.' + name)
        return ('ext', base + '.' + name)

    def resolve(self, module, name, seen=None):
        """-> Func | Cls | Module | ('const', node, module) | ('ext', 'numpy.x') | None"""
        seen = seen or set()
        if (module.name, name) in seen:
            return None
        seen.add((module.name, name))
        if name in module.funcs:
            return module.funcs[name]
        if name in module.classes:
            return module.classes[name]
        if name in module.imports:
            m, n = module.imports[name]
            if n is None:
                if m.startswith('larch'):
                    r = self.module(m)
                    if r is not None:
                        return r
                return ('ext', m)
            if m.startswith('larch'):
                sub = self.module(m + '.' + n) if self.module_path(m + '.' + n) else None
                mm = self.module(m) if self.module_path(m) else None
                if mm is not None:
                    r = self.resolve(mm, n, seen)
                    if r is not None:
                        return r
                if sub is not None:
                    return sub
                return ('ext', m + '.' + n)
            return ('ext', m + '.' + n)
        if name in module.consts:
            return ('const', module.consts[name], module)
        for b in module.stars:
            if b.startswith('larch') and self.module_path(b):
                r = self.resolve(self.module(b), name, seen)
                if r is not None:
                    return r
        return None

    def bases(self, cls):
        if cls not in self._bases:
            self._bases[cls] = self._find_bases(cls)
        return list(self._bases[cls])

    def _find_bases(self, cls):
        out = []
        for b in cls.node.bases:
            t = b
            if isinstance(t, ast.Name):
                r = self.resolve(cls.module, t.id)
            elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                m = self.resolve(cls.module, t.value.id)
                r = self.resolve(m, t.attr) if isinstance(m, Module) else None
            else:
                r = None
            if isinstance(r, tuple) and r[0] == 'const' and isinstance(r[1], ast.Name):
                r = self.resolve(r[2], r[1].id)
            if isinstance(r, Cls):
                out.append(r)
        return out

    def mro(self, cls):
        if cls not in self._mros:
            self._mros[cls] = self._find_mro(cls)
        return list(self._mros[cls])

    def _find_mro(self, cls):
        out = []
        def go(c):
            if c in out:
                out.remove(c)
            out.append(c)
            for b in self.bases(c):
                go(b)
        go(cls)
        return out

    def lookup(self, cls, name, kind=None, after=None):
        """Find method or property accessor by MRO.  kind in (None,'getter','setter','deleter')."""
        skip = after is not None
        for c in self.mro(cls):
            if skip:
                if c is after:
                    skip = False
                continue
            if kind is None:
                if name in c.methods:
                    return c.methods[name]
                if name in c.props:
                    return None
            else:
                if name in c.props:
                    return c.props[name].get(kind)
                if name in c.methods:
                    return None
        return None

    def is_prop(self, cls, name):
        for c in self.mro(cls):
            if name in c.props:
                return True
            if name in c.methods or name in c.attrs:
                return False
        return False

    def subclasses(self, cls):
        out = []
        for m in self.all_modules():
            for c in m.classes.values():
                if c is not cls and cls in self.mro(c):
                    out.append(c)
        return out
