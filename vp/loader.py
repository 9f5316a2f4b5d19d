"""Translates /repo's Python 2 sources and executes them with the shims."""
import ast
import builtins
import hashlib
import multiprocessing
import os
import shutil
import sys
import types
import warnings

REPO = os.environ.get('VP_REPO', '/repo')
TOPS = ('mtoolkit', 'nrml')
FILES = ('main.py',)


def _translate(args):
    src, dst, name = args
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    from lib2to3 import refactor
    g = globals()
    if '_TOOL' not in g:
        fx = refactor.get_fixers_from_package('lib2to3.fixes')
        g['_TOOL'] = refactor.RefactoringTool(fx)
        g['_TOOL2'] = refactor.RefactoringTool([f for f in fx if not f.endswith('.fix_print')],
                                               {'print_function': True})
    with open(src, 'rb') as f:
        text = f.read().decode('utf-8')
    if not text.endswith('\n'):
        text += '\n'
    try:
        out = str(g['_TOOL'].refactor_string(text, name))
    except Exception:
        try:
            out = str(g['_TOOL2'].refactor_string(text, name))
        except Exception:
            out = text
    with open(dst, 'wb') as f:
        f.write(out.encode('utf-8'))
    return dst


def build_tree(dest):
    """A translated copy of /repo's package in dest (made anew)."""
    jobs = []
    for top in TOPS:
        for path, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = sorted(d for d in dirs if d not in ('.git', '__pycache__'))
            out = os.path.join(dest, os.path.relpath(path, REPO))
            os.makedirs(out, exist_ok=True)
            for n in sorted(files):
                if n.endswith('.pyc'):
                    continue
                s, d = os.path.join(path, n), os.path.join(out, n)
                if n.endswith('.py'):
                    jobs.append((s, d, n))
                elif os.path.isfile(s):
                    shutil.copy2(s, d)
    for n in FILES:
        if os.path.exists(os.path.join(REPO, n)):
            jobs.append((os.path.join(REPO, n), os.path.join(dest, n), n))
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with multiprocessing.Pool(min(8, len(jobs))) as p:
        p.map(_translate, jobs, chunksize=1)
    return dest


class Trans(ast.NodeTransformer):
    """`%` goes through vp_mod; function entries are recorded."""

    def __init__(self, mod):
        self.mod = mod
        self.stack = []

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name('vp_mod', ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign([n.target], ast.Call(
                ast.Name('vp_mod', ast.Load()), [ast.Name(n.target.id, ast.Load()), n.value], [])), n)
        return n

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        q = self.mod + '.' + '.'.join(self.stack)
        self.stack.pop()
        call = ast.Expr(ast.Call(ast.Name('vp_enter', ast.Load()), [ast.Constant(q)], []))
        doc = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) \
            and isinstance(n.body[0].value.value, str) else 0
        n.body.insert(doc, call)
        return n


_code = {}


def code_of(tree, name):
    """(code object, is package, path) of a module of the translated tree."""
    key = (tree, name)
    if key not in _code:
        p = os.path.join(tree, *name.split('.'))
        pkg = os.path.isdir(p)
        path = os.path.join(p, '__init__.py') if pkg else p + '.py'
        if not os.path.exists(path):
            _code[key] = None
        else:
            with open(path, 'rb') as f:
                t = ast.parse(f.read(), path)
            t = ast.fix_missing_locations(Trans(name).visit(t))
            _code[key] = (compile(t, path, 'exec'), pkg, path)
    return _code[key]


class Registry(object):
    """Modules of one path."""

    def __init__(self, tree, H):
        from . import shims, npshim
        self.tree, self.H = tree, H
        self.mods = {}
        self.entered = set()
        np = npshim.Module(H)
        self.mods['numpy'] = np
        self.mods['math'] = shims.math_module()
        self.mods['datetime'] = shims.datetime_module(H)
        self.mods['time'] = shims.time_module(H)
        self.mods['logging'] = shims.logging_module(H)
        self.mods['shapely'], self.mods['shapely.geometry'], self.mods['shapely.prepared'] = shims.shapely_module()
        self.mods.update(shims.nhlib_modules(H))
        b = types.ModuleType('builtins')
        b.__dict__.update(builtins.__dict__)
        b.__dict__.update(shims.BUILTINS)
        b.__dict__['vp_mod'] = shims.vp_mod
        b.__dict__['vp_enter'] = self.entered.add
        b.__dict__['__import__'] = self.imp
        self.mods['builtins'] = b
        self.builtins = b.__dict__

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + '.' + name if name else pkg
        m = self.load(name)
        if m is None:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        if fromlist:
            for f in fromlist:
                if not hasattr(m, f):
                    self.load(name + '.' + f)
            return m
        return self.load(name.split('.')[0])

    def run_main(self):
        """Executes main.py as the program."""
        code, pkg, path = code_of(self.tree, 'main')
        m = types.ModuleType('__main__')
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        self.entered.add('main.__main__')
        exec(code, m.__dict__)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        top = name.split('.')[0]
        if top == 'scipy':
            from . import shims
            parts = name.split('.')
            for i in range(1, len(parts) + 1):
                n = '.'.join(parts[:i])
                if n not in self.mods:
                    self.mods[n] = shims.scipy_module(n)
            return self.mods[name]
        if top == 'numpy':
            parts = name.split('.')
            m = self.mods['numpy']
            for p in parts[1:]:
                m = getattr(m, p)
            return m
        if top not in TOPS and top not in ('main', 'nhlib', 'shapely'):
            return None
        parent = None
        if '.' in name:
            parent = self.load(name.rpartition('.')[0])
        c = code_of(self.tree, name)
        if c is None:
            raise ModuleNotFoundError('No module named %r' % name)
        code, pkg, path = c
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if parent is not None:
            setattr(parent, name.rpartition('.')[2], m)
        return m
