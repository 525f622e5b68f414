"""Loads the structrans sources from the repository's working tree into an
isolated registry in which numpy and math are the symbolic stand-ins."""
import ast
import builtins
import os
import re
import sys
import types
import warnings

from . import symnp as N
from .sym import ENG, Sym

REPO = os.environ.get('VERIF_REPO', '/repo')
_CODE = {}
_real_import = builtins.__import__


def source_path(name):
    base = os.path.join(REPO, *name.split('.'))
    if os.path.isfile(base + '.py'):
        return base + '.py', False
    if os.path.isfile(os.path.join(base, '__init__.py')):
        return os.path.join(base, '__init__.py'), True
    return None, False


def code_of(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    c = _CODE.get(key)
    if c is None:
        with open(path, encoding='utf-8') as f:
            src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.fix_missing_locations(StrMod().visit(ast.parse(src, path)))
            c = compile(tree, path, 'exec', dont_inherit=True)
        _CODE[key] = c
    return c


class StrMod(ast.NodeTransformer):
    """'text' % values: symbolic values cannot pass through the builtin operator"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, 'value', ''), str):
            return ast.copy_location(ast.Call(ast.Name('__strmod__', ast.Load()), [n.left, n.right], []), n)
        return n


def strmod(text, val):
    vals = val if isinstance(val, tuple) else (val,)
    if not any(isinstance(v, (Sym, N.SArr)) for v in vals):
        return text % val
    it = iter(vals)

    def one(m):
        if m.group(3) == '%':
            return '%'
        v = next(it)
        if isinstance(v, N.SArr) and v.a.ndim == 0:
            v = v.a.item()
        if not isinstance(v, Sym):
            return m.group(0) % v
        if m.group(3) in 'sr':
            return str(v)
        if m.group(3) in 'di' and not v.isint:
            v = int(v)
            return m.group(0) % v
        return v.__format__((m.group(2) or '') + ('d' if m.group(3) == 'i' else m.group(3)))
    return re.sub(r'%([-+ 0#]*\d*)(\.\d+)?([a-zA-Z%])', one, text)


class Mod(types.ModuleType):
    pass


class Loader(object):
    def __init__(self):
        self.mods = {}
        b = dict(builtins.__dict__)
        b['__import__'] = self.imp
        b['int'] = N.PInt
        b['float'] = N.PFloat
        b['print'] = lambda *a, **k: None
        b['abs'] = lambda x: N.abs_(x) if isinstance(x, N.SArr) else abs(x)
        b['round'] = lambda x, nd=None: (N.round_(x, nd or 0) if isinstance(x, N.SArr) else
                                         x.__round__(nd) if isinstance(x, Sym) else round(x, nd) if nd is not None else round(x))
        b['open'] = self.no_open
        b['__strmod__'] = strmod
        self.builtins = b

    @staticmethod
    def no_open(*a, **k):
        raise ENG.unsupported('open')

    def load(self, name):
        """import with the order of execution of the real import system"""
        m = self.mods.get(name)
        if m is not None:
            return m
        parent = None
        if '.' in name:
            parent = self.load(name.rpartition('.')[0])
            m = self.mods.get(name)
            if m is not None:
                return m
        path, pkg = source_path(name)
        if path is None:
            raise ImportError('No module named %r' % name)
        m = Mod(name)
        m.__dict__.update(__file__=path, __package__=name if pkg else name.rpartition('.')[0], __builtins__=self.builtins)
        if pkg:
            m.__dict__['__path__'] = [os.path.dirname(path)]
        self.mods[name] = m
        try:
            exec(code_of(path), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if parent is not None:
            setattr(parent, name.rpartition('.')[2], m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            parts = pkg.split('.')
            if level > 1:
                parts = parts[:-(level - 1)]
            base = '.'.join(parts)
            full = base + '.' + name if name else base
        else:
            full = name
        top = full.split('.')[0]
        if top == 'structrans':
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != '*' and f not in m.__dict__ and '__path__' in m.__dict__ and source_path(full + '.' + f)[0]:
                        self.load(full + '.' + f)
                        m.__dict__.setdefault(f, self.mods[full + '.' + f])
                return m
            return self.mods['structrans']
        if top == 'numpy':
            m = N.symnp
            if fromlist:
                for p in full.split('.')[1:]:
                    m = getattr(m, p)
            return m
        if top == 'math':
            return N.symmath
        if top == 'scipy':
            raise ImportError('No module named scipy')
        return _real_import(name, globals, locals, fromlist, level)
