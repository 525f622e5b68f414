"""A numpy stand-in whose arrays may hold symbolic scalars.

Arrays are numpy object arrays (so views, slicing and in-place semantics are
numpy's own) tagged with the dtype kind the real array would have.  Operations
without symbolic elements run on native numpy arrays.
"""
import math
import types
from fractions import Fraction
from functools import reduce

import numpy as _np

from . import poly as P
from . import sym as S
from .sym import Sym, SymBool, ENG, And, Or, Not, lift

_obj = _np.dtype(object)


# ------------------------------------------------------------------ dtypes
class SDtype(object):
    itemsize = 8

    def __init__(self, kind):
        self.kind = kind

    @property
    def name(self):
        return {'i': 'int64', 'f': 'float64', 'b': 'bool', 'O': 'object', 'u': 'uint64', 'c': 'complex128'}[self.kind]

    @property
    def type(self):
        return {'i': _np.int64, 'f': _np.float64, 'b': _np.bool_, 'O': object}[self.kind]

    @property
    def char(self):
        return {'i': 'l', 'f': 'd', 'b': '?', 'O': 'O'}[self.kind]

    def __eq__(self, o):
        try:
            return dkind(o) == self.kind
        except Exception:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.kind)

    def __str__(self):
        return self.name

    __repr__ = __str__


class IntType(type):
    """patched builtin int: a type for isinstance, symbolic on call"""
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, Sym) and x.isint)

    def __call__(cls, x=0, *a):
        if isinstance(x, Sym):
            return S.sym_trunc(x)
        if isinstance(x, SArr):
            return IntType.__call__(cls, x.item())
        return int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class PInt(metaclass=IntType):
    __name__ = 'int'


PInt.from_bytes = int.from_bytes


class FloatType(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, Sym) and not x.isint)

    def __call__(cls, x=0.0):
        if isinstance(x, Sym):
            return S.as_float(x)
        if isinstance(x, SArr):
            return FloatType.__call__(cls, x.item())
        if isinstance(x, str):
            return float(x)
        return _np.float64(x)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class PFloat(metaclass=FloatType):
    __name__ = 'float'


def dkind(dt):
    if isinstance(dt, SDtype):
        return dt.kind
    if dt is None:
        return 'f'
    if dt is int or dt is PInt:
        return 'i'
    if dt is float or dt is PFloat:
        return 'f'
    if dt is bool:
        return 'b'
    if dt is object:
        return 'O'
    k = _np.dtype(dt).kind
    if k == 'u':
        k = 'i'
    return k


def cast_scalar(x, kind):
    if kind == 'f':
        if isinstance(x, Sym):
            return S.as_float(x)
        if isinstance(x, SymBool):
            return _np.float64(1.0 if bool(x) else 0.0)
        if isinstance(x, Fraction):
            return S.wrap({P.ONE: P._norm(x)} if x else {}, (), False)
        if isinstance(x, (str, list, tuple, dict)) or x is None:
            if x is None:
                return _np.float64('nan')
            return _np.float64(float(x))
        if isinstance(x, (complex, _np.complexfloating)):
            return _np.float64(x.real)
        return _np.float64(x)
    if kind == 'i':
        if isinstance(x, Sym):
            if x.isint:
                return x
            return S.sym_trunc(x)
        if isinstance(x, SymBool):
            return _np.int64(1 if bool(x) else 0)
        if isinstance(x, (float, _np.floating)) and not math.isfinite(x):
            return _np.int64(-2 ** 63)
        x = int(x)
        return _np.int64(x) if -2 ** 63 <= x < 2 ** 63 else x
    if kind == 'b':
        if isinstance(x, SymBool):
            return x
        if isinstance(x, Sym):
            return x != 0
        return _np.bool_(bool(x))
    return x


def scalar_kind(x):
    if isinstance(x, Sym):
        return 'i' if x.isint else 'f'
    if isinstance(x, (SymBool, bool, _np.bool_)):
        return 'b'
    if isinstance(x, (int, _np.integer)):
        return 'i'
    if isinstance(x, (float, _np.floating, Fraction)):
        return 'f'
    if isinstance(x, (complex, _np.complexfloating)):
        return 'c'
    return 'O'


_ORDER = {'b': 0, 'i': 1, 'f': 2, 'c': 3, 'O': 4}


def merge_kinds(ks):
    k = 'b'
    for x in ks:
        if _ORDER[x] > _ORDER[k]:
            k = x
    return k


def infer(o):
    if o.size == 0:
        return 'f'
    return merge_kinds(scalar_kind(x) for x in o.flat)


def cast_obj(o, kind):
    """object array with every element of the given kind"""
    out = _np.empty(o.shape, dtype=object)
    of = out.reshape(-1) if out.flags.c_contiguous else out.ravel()
    for i, x in enumerate(o.flat):
        of[i] = cast_scalar(x, kind)
    return out


def has_sym(o):
    for x in o.flat:
        if isinstance(x, (Sym, SymBool)):
            return True
    return False


def native(o, kind):
    """native array of a concrete object array"""
    if kind == 'O':
        return o
    dt = {'i': _np.int64, 'f': _np.float64, 'b': _np.bool_, 'c': complex}[kind]
    return o.astype(dt)


def from_native(r):
    """SArr from a native array"""
    if r.dtype == object:
        k = infer(r)
        return SArr(cast_obj(r, k) if k != 'O' else r, k)
    k = r.dtype.kind
    if k == 'u':
        k = 'i'
        r = r.astype(_np.int64)
    if k == 'c':
        o = _np.empty(r.shape, dtype=object)
        f = o.reshape(-1)
        for i, x in enumerate(r.flat):
            f[i] = x
        return SArr(o, 'c')
    if k not in 'ifb':
        return r
    o = _np.empty(r.shape, dtype=object)
    f = o.reshape(-1)
    for i, x in enumerate(r.flat):
        f[i] = x
    return SArr(o, k)


def wrap_result(r):
    if isinstance(r, SArr):
        return r
    if isinstance(r, _np.ndarray):
        if r.ndim == 0:
            return wrap_result(r.item() if r.dtype == object else r[()])
        return from_native(r)
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(wrap_result(x) for x in r)
    if type(r) is list:
        return [wrap_result(x) for x in r]
    if isinstance(r, tuple):          # named tuples of numpy.linalg
        return tuple(wrap_result(x) for x in r)
    if isinstance(r, (int, float)) and not isinstance(r, bool):
        return _np.int64(r) if isinstance(r, int) and -2 ** 63 <= r < 2 ** 63 else \
            (_np.float64(r) if isinstance(r, float) else r)
    return r


def nested(x):
    if isinstance(x, SArr):
        return x.a.tolist() if x.a.ndim else x.a.item()
    if isinstance(x, _np.ndarray):
        return x.tolist() if x.dtype != object else x.tolist()
    if isinstance(x, (list, tuple)):
        return [nested(y) for y in x]
    if isinstance(x, (types.GeneratorType, map, zip, filter, set, dict)):
        return x
    return x


def to_obj(x):
    """object ndarray of anything array-like"""
    if isinstance(x, SArr):
        return x.a
    if isinstance(x, _np.ndarray):
        return from_native(x).a if x.dtype != object else x
    if isinstance(x, (list, tuple)):
        n = nested(x)
        try:
            r = _np.array(n, dtype=object)
        except ValueError:
            r = _np.empty(len(n), dtype=object)
            for i, y in enumerate(x):
                r[i] = y
            return r
        return r
    r = _np.empty((), dtype=object)
    r[()] = x
    return r


def kind_of(x, o=None):
    if isinstance(x, SArr):
        return x.kind
    if isinstance(x, _np.ndarray) and x.dtype != object:
        return {'u': 'i'}.get(x.dtype.kind, x.dtype.kind)
    return infer(to_obj(x) if o is None else o)


def array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False, like=None):
    ENG.tick()
    if isinstance(x, (str, bytes)):
        return _np.array(x)
    o = to_obj(x)
    if o.ndim == 0 and not isinstance(x, (SArr, _np.ndarray)) and \
            not isinstance(o.item(), (Sym, SymBool, int, float, _np.generic, Fraction, complex)):
        return SArr(o, 'O')
    if dtype is not None:
        k = dkind(dtype)
    elif isinstance(x, SArr):
        k = x.kind
    else:
        k = infer(o)
    r = cast_obj(o, k) if k != 'O' else o.copy()
    while r.ndim < ndmin:
        r = r[None]
    return SArr(r, k)


def asarray(x, dtype=None, order=None):
    if isinstance(x, SArr) and (dtype is None or dkind(dtype) == x.kind):
        return x
    return array(x, dtype)


def _undef(kind):
    ENG.undef = True
    ENG.nfresh += 1
    v = P.REG.new('undef!%d' % ENG.nfresh, 'fresh', isint=(kind == 'i'))
    return Sym({((v.id, 1),): 1}, (), kind == 'i')


def full_of(shape, value, kind):
    if isinstance(shape, (Sym,)):
        shape = int(shape)
    if isinstance(shape, SArr):
        shape = tuple(int(s) for s in shape)
    if isinstance(shape, (list, tuple)):
        shape = tuple(int(s) for s in shape)
    o = _np.empty(shape, dtype=object)
    o.fill(value) if not isinstance(value, Sym) else o.reshape(-1).__setitem__(slice(None), [value] * o.size)
    return SArr(o, kind)


# ------------------------------------------------------------------ arrays
class NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SArr, _np.ndarray))


class ndarray(metaclass=NdMeta):
    pass


_CMP = {'>': _np.greater, '>=': _np.greater_equal, '<': _np.less, '<=': _np.less_equal,
        '==': _np.equal, '!=': _np.not_equal}
_AR = {'+': _np.add, '-': _np.subtract, '*': _np.multiply, '/': _np.true_divide,
       '//': _np.floor_divide, '%': _np.remainder, '**': _np.power}


def binop(x, y, op):
    ENG.tick()
    a, b = to_obj(x), to_obj(y)
    ka = kind_of(x, a)
    kb = kind_of(y, b)
    if not has_sym(a) and not has_sym(b) and 'O' not in (ka, kb):
        f = _CMP.get(op) or _AR[op]
        na, nb = native(a, ka), native(b, kb)
        # python scalars are weakly typed
        with _np.errstate(all='ignore'):
            r = f(na, nb)
        return wrap_result(r)
    if op in _CMP:
        r = _CMP[op](a, b, dtype=object)
        if not isinstance(r, _np.ndarray):
            return r
        if r.ndim == 0:
            return r.item()
        return SArr(r, 'b')
    if op == '**' and isinstance(y, (int, float, _np.generic)) and not isinstance(y, bool):
        r = _np.frompyfunc(lambda u: u ** y, 1, 1)(a)
    else:
        r = _AR[op](a, b)
    if not isinstance(r, _np.ndarray):
        return r
    if r.ndim == 0:
        return r.item()
    k = 'O' if 'O' in (ka, kb) else 'f' if (op == '/' or 'f' in (ka, kb)) else 'i'
    if op == '**' and k == 'i':
        k = infer(r)
    if k == 'f':
        r = cast_obj(r, 'f')
    return SArr(r, k)


def _methods():
    ns = {}
    for op, name in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('/', 'truediv'), ('//', 'floordiv'),
                     ('%', 'mod'), ('**', 'pow')):
        def fwd(self, o, op=op):
            if not _okoperand(o):
                return NotImplemented
            return binop(self, o, op)

        def rev(self, o, op=op):
            if not _okoperand(o):
                return NotImplemented
            return binop(o, self, op)

        def inp(self, o, op=op):
            r = binop(self, o, op)
            rk = r.kind if isinstance(r, SArr) else scalar_kind(r)
            if self.kind == 'i' and rk == 'f':
                raise _np._core._exceptions._UFuncOutputCastingError(_np.add, 'same_kind', _np.dtype('float64'),
                                                             _np.dtype('int64'), 0) if False else \
                    TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
            ro = to_obj(r)
            if ro.shape != self.a.shape:
                raise ValueError('non-broadcastable output operand')
            self.a[...] = ro
            return self
        ns['__%s__' % name] = fwd
        ns['__r%s__' % name] = rev
        ns['__i%s__' % name] = inp
    for op, name in (('>', 'gt'), ('>=', 'ge'), ('<', 'lt'), ('<=', 'le'), ('==', 'eq'), ('!=', 'ne')):
        def cmp(self, o, op=op):
            if o is None or isinstance(o, str):
                return from_native(_np.full(self.a.shape, op == '!='))
            return binop(self, o, op)
        ns['__%s__' % name] = cmp
    return ns


def _okoperand(o):
    return isinstance(o, (SArr, _np.ndarray, Sym, SymBool, int, float, _np.generic, list, tuple, Fraction))


def fix_index(i):
    if isinstance(i, tuple):
        return tuple(fix_index(x) for x in i)
    if isinstance(i, Sym):
        return i.__index__()
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, SArr):
        if i.kind == 'b':
            return _np.array([bool(x) for x in i.a.flat], dtype=bool).reshape(i.a.shape)
        if i.a.size == 0:
            return _np.zeros(i.a.shape, dtype=int)
        return _np.array([x.__index__() for x in i.a.flat], dtype=int).reshape(i.a.shape)
    if isinstance(i, list):
        return [fix_index(x) for x in i]
    if isinstance(i, slice):
        return slice(fix_index(i.start), fix_index(i.stop), fix_index(i.step))
    if isinstance(i, range):
        return list(i)
    return i


class SArr(object):
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, a, kind):
        self.a = a
        self.kind = kind

    locals().update(_methods())
    __hash__ = None

    # shape-like
    @property
    def shape(self):
        return self.a.shape

    @shape.setter
    def shape(self, s):
        self.a.shape = s

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def dtype(self):
        return SDtype(self.kind)

    @property
    def T(self):
        return SArr(self.a.T, self.kind)

    @property
    def real(self):
        if self.kind == 'c':
            return from_native(native(self.a, 'c').real.copy())
        return SArr(self.a, self.kind)

    @property
    def imag(self):
        if self.kind == 'c':
            return from_native(native(self.a, 'c').imag.copy())
        return full_of(self.a.shape, _np.float64(0.0), self.kind)

    @property
    def flat(self):
        return iter(list(self.a.flat))

    @property
    def flags(self):
        return self.a.flags

    @property
    def itemsize(self):
        return 8

    @property
    def nbytes(self):
        return 8 * self.a.size

    @property
    def base(self):
        return None

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        if self.a.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(len(self.a)):
            yield self[i]

    def __getitem__(self, i):
        r = self.a[fix_index(i)]
        if isinstance(r, _np.ndarray) and r.dtype == object:
            if r.ndim == 0 and not (isinstance(i, tuple) and Ellipsis in [x for x in i if x is Ellipsis]):
                return r.item()
            return SArr(r, self.kind)
        return r

    def __setitem__(self, i, v):
        ENG.tick()
        i = fix_index(i)
        if self.kind == 'O':
            self.a[i] = v if not isinstance(v, SArr) else v.a
            return
        if isinstance(v, (SArr, _np.ndarray, list, tuple)):
            o = to_obj(v)
            self.a[i] = cast_obj(o, self.kind)
        else:
            tgt = self.a[i]
            if isinstance(tgt, _np.ndarray):
                x = cast_scalar(v, self.kind)
                w = _np.empty((), dtype=object)
                w[()] = x
                self.a[i] = w
            else:
                self.a[i] = cast_scalar(v, self.kind)

    def __contains__(self, x):
        return bool(any_(self == x))

    def __bool__(self):
        if self.a.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
        return bool(self.a.reshape(-1)[0])

    def __neg__(self):
        r = _np.negative(self.a) if has_sym(self.a) else None
        if r is None:
            return from_native(_np.negative(native(self.a, self.kind)))
        return SArr(r, self.kind)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return abs_(self)

    def __invert__(self):
        if self.kind == 'b':
            return SArr(_np.frompyfunc(Not, 1, 1)(self.a), 'b')
        return from_native(~native(self.a, self.kind))

    def __and__(self, o):
        return logical_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return logical_or(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return self != o

    def __iand__(self, o):
        r = logical_and(self, o)
        self.a[...] = r.a
        return self

    def __ior__(self, o):
        r = logical_or(self, o)
        self.a[...] = r.a
        return self

    def __matmul__(self, o):
        return dot(self, o) if to_obj(o).ndim <= 2 and self.a.ndim <= 2 else matmul(self, o)

    def __rmatmul__(self, o):
        return dot(o, self) if to_obj(o).ndim <= 2 and self.a.ndim <= 2 else matmul(o, self)

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        return self.item().__index__()

    def item(self, *a):
        if a:
            return self.a.reshape(-1)[a[0]] if len(a) == 1 and not isinstance(a[0], tuple) else self.a[a if len(a) > 1 else a[0]]
        if self.a.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return self.a.reshape(-1)[0]

    def copy(self, order=None):
        return SArr(self.a.copy(), self.kind)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return SArr(self.a.copy(), self.kind)

    def astype(self, dt, copy=True, **kw):
        k = dkind(dt)
        return SArr(cast_obj(self.a, k), k)

    def reshape(self, *s, **kw):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        return SArr(self.a.reshape(tuple(int(x) for x in s)), self.kind)

    def flatten(self, order='C'):
        return SArr(self.a.flatten(order), self.kind)

    def ravel(self, order='C'):
        return SArr(self.a.ravel(order), self.kind)

    def transpose(self, *ax):
        return SArr(self.a.transpose(*ax), self.kind)

    def swapaxes(self, i, j):
        return SArr(self.a.swapaxes(i, j), self.kind)

    def squeeze(self, axis=None):
        return SArr(self.a.squeeze(axis), self.kind)

    def tolist(self):
        def py(x):
            if isinstance(x, list):
                return [py(y) for y in x]
            if isinstance(x, _np.integer):
                return int(x)
            return x
        return py(self.a.tolist())

    def tostring(self):
        vals = []
        for x in self.a.flat:
            if isinstance(x, Sym):
                x = ENG.concretize(x) if self.kind == 'i' else ENG.pin(x)
            vals.append(x)
        return _np.array(vals, dtype={'i': _np.int64, 'f': _np.float64, 'b': _np.bool_}[self.kind]).tobytes()

    tobytes = tostring

    def fill(self, v):
        self[...] = v

    def dot(self, o):
        return dot(self, o)

    def sum(self, axis=None, dtype=None, keepdims=False):
        return sum_(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None):
        return generic('prod', self, axis=axis)

    def mean(self, axis=None):
        s = sum_(self, axis=axis)
        return s / (self.a.size if axis is None else self.a.shape[axis])

    def cumsum(self, axis=None):
        return generic('cumsum', self, axis=axis)

    def all(self, axis=None, keepdims=False):
        return all_(self, axis=axis)

    def any(self, axis=None, keepdims=False):
        return any_(self, axis=axis)

    def max(self, axis=None):
        return generic('max', self, axis=axis)

    def min(self, axis=None):
        return generic('min', self, axis=axis)

    def argmin(self, axis=None):
        return generic('argmin', self, axis=axis)

    def argmax(self, axis=None):
        return generic('argmax', self, axis=axis)

    def argsort(self, axis=-1, kind=None):
        return argsort(self, axis)

    def sort(self, axis=-1, kind=None):
        r = sort(self, axis)
        self.a[...] = r.a

    def trace(self, *a, **k):
        return generic('trace', self, *a, **k)

    def diagonal(self, *a, **k):
        return SArr(_np.diagonal(self.a, *a, **k), self.kind)

    def nonzero(self):
        return generic('nonzero', self)

    def repeat(self, *a, **k):
        return generic('repeat', self, *a, **k)

    def take(self, *a, **k):
        return generic('take', self, *a, **k)

    def round(self, decimals=0):
        return round_(self, decimals)

    def clip(self, lo, hi):
        return minimum(maximum(self, lo), hi)

    def conj(self):
        return self.copy()

    conjugate = conj

    def view(self, *a, **k):
        if not a and not k:
            return SArr(self.a, self.kind)
        raise ENG.unsupported('view')

    def setflags(self, *a, **k):
        pass

    def resize(self, *a, **k):
        raise ENG.unsupported('resize')

    def __repr__(self):
        return 'SArr(%r)' % (self.a.tolist(),)

    def __str__(self):
        def one(x):
            return str(x) if isinstance(x, (Sym, SymBool)) or not isinstance(x, float) else '%.8g' % x if x != int(x) else '%d.' % x

        def tree(a):
            return '[' + ' '.join(tree(b) if isinstance(b, list) else one(b) for b in a) + ']' if isinstance(a, list) else one(a)
        return tree(self.a.tolist())

    def __format__(self, spec):
        if spec:
            raise TypeError('unsupported format string passed to numpy.ndarray.__format__')
        return str(self)

    def __getattr__(self, k):
        if k.startswith('__') or k in ('_k',):
            raise AttributeError(k)
        raise ENG.unsupported('array attribute %s' % k)

    def __reduce__(self):
        raise ENG.unsupported('pickle')


# ------------------------------------------------------------------ functions
def _unwrap(x, force_obj):
    if isinstance(x, SArr):
        return x.a if force_obj else native(x.a, x.kind)
    if isinstance(x, (list, tuple)):
        if any(isinstance(y, (SArr, Sym, SymBool, list, tuple)) for y in x):
            t = [_unwrap(y, force_obj) for y in x]
            return tuple(t) if isinstance(x, tuple) else t
        return x
    if isinstance(x, SymBool):
        return x
    if x is PInt:
        return int
    if x is PFloat:
        return float
    if isinstance(x, SDtype):
        return _np.dtype(x.type)
    return x


def _any_sym(x):
    if isinstance(x, SArr):
        return has_sym(x.a) or x.kind == 'O'
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_any_sym(y) for y in x)
    return False


def generic(name, *args, **kw):
    """run the real numpy function on native or object arrays"""
    ENG.tick()
    f = name if callable(name) else _np
    if not callable(name):
        for part in name.split('.'):
            f = getattr(f, part)
    sym = any(_any_sym(x) for x in args) or any(_any_sym(x) for x in kw.values())
    a = [_unwrap(x, sym) for x in args]
    k = {n: _unwrap(x, sym) for n, x in kw.items()}
    with _np.errstate(all='ignore'):
        return wrap_result(f(*a, **k))


def unary(fsym, fnat, kindmap=None):
    def g(x, *rest, **kw):
        ENG.tick()
        if isinstance(x, (Sym,)):
            return fsym(x)
        if isinstance(x, (list, tuple)):
            x = array(x)
        if isinstance(x, SArr):
            if not has_sym(x.a):
                with _np.errstate(all='ignore'):
                    return wrap_result(fnat(native(x.a, x.kind)))
            r = _np.frompyfunc(fsym, 1, 1)(x.a)
            if not isinstance(r, _np.ndarray):
                return r
            k = kindmap(x.kind) if kindmap else infer(r)
            return SArr(cast_obj(r, k), k)
        with _np.errstate(all='ignore'):
            return wrap_result(fnat(x))
    return g


_f = lambda k: 'f'
_same = lambda k: k


def _nsqrt(x):
    return S.sym_sqrt(x) if isinstance(x, Sym) else wrap_result(_np.sqrt(x))


def _ncos(x):
    return S.trig(x)[0]


def _nsin(x):
    return S.trig(x)[1]


def _ntan(x):
    c, s = S.trig(x)
    return S.div(lift(s), lift(c)) if isinstance(s, Sym) or isinstance(c, Sym) else s / c


def _nsign(x):
    return _np.float64(ENG.sign(x))


def _pinned(fn):
    def g(x):
        return _np.float64(fn(float(x)))
    return g


def _neg_floor(x):
    r = S.sym_floor(-x) if isinstance(x, Sym) else _np.floor(-x)
    return -r


sqrt = unary(_nsqrt, _np.sqrt, _f)
cos = unary(_ncos, _np.cos, _f)
sin = unary(_nsin, _np.sin, _f)
tan = unary(_ntan, _np.tan, _f)
floor = unary(lambda x: S.sym_floor(x), _np.floor, _f)
ceil = unary(_neg_floor, _np.ceil, _f)
rint = unary(lambda x: S.sym_rint(x), _np.rint, _f)
trunc = unary(lambda x: S.as_float(S.sym_trunc(x)), _np.trunc, _f)
fix = trunc
sign = unary(_nsign, _np.sign, _f)
abs_ = unary(S.sym_abs, _np.abs, _same)
square = unary(lambda x: x * x, _np.square, _same)
radians = unary(lambda x: x * (math.pi / 180), _np.radians, _f)
degrees = unary(lambda x: x * (180 / math.pi), _np.degrees, _f)
isnan = unary(lambda x: False, _np.isnan, lambda k: 'b')
isfinite = unary(lambda x: True, _np.isfinite, lambda k: 'b')
isinf = unary(lambda x: False, _np.isinf, lambda k: 'b')
reciprocal = unary(lambda x: 1 / x, _np.reciprocal, _f)
negative = lambda x: -asarray(x) if not isinstance(x, Sym) else -x
logical_not = unary(lambda x: Not(x) if isinstance(x, SymBool) else Not(x != 0), _np.logical_not, lambda k: 'b')


def real(x):
    if isinstance(x, (SArr, Sym)):
        return x.real
    return _np.real(x)


def imag(x):
    if isinstance(x, (SArr, Sym)):
        return x.imag
    return _np.imag(x)


def round_(x, decimals=0, out=None):
    ENG.tick()
    if isinstance(x, (list, tuple)):
        x = array(x)
    if isinstance(x, SArr):
        if not has_sym(x.a):
            return wrap_result(_np.round(native(x.a, x.kind), decimals))
        if x.kind == 'i':
            return x.copy()
        r = _np.frompyfunc(lambda u: S.sym_round(u, decimals) if isinstance(u, Sym) else _np.round(u, decimals), 1, 1)(x.a)
        return SArr(cast_obj(r, 'f'), 'f')
    if isinstance(x, Sym):
        return S.sym_round(x, decimals)
    return _np.round(x, decimals)


def logical_and(a, b):
    a, b = asarray(a), asarray(b)
    r = _np.frompyfunc(lambda x, y: And(cast_scalar(x, 'b'), cast_scalar(y, 'b')), 2, 1)(a.a, b.a)
    return SArr(r, 'b') if isinstance(r, _np.ndarray) and r.ndim else (r.item() if isinstance(r, _np.ndarray) else r)


def logical_or(a, b):
    a, b = asarray(a), asarray(b)
    r = _np.frompyfunc(lambda x, y: Or(cast_scalar(x, 'b'), cast_scalar(y, 'b')), 2, 1)(a.a, b.a)
    return SArr(r, 'b') if isinstance(r, _np.ndarray) and r.ndim else (r.item() if isinstance(r, _np.ndarray) else r)


def _reduce_bool(x, axis, op):
    x = asarray(x) if not isinstance(x, (Sym, SymBool)) else array([x])
    el = _np.frompyfunc(lambda u: cast_scalar(u, 'b'), 1, 1)
    if axis is None:
        return op(*[cast_scalar(u, 'b') for u in x.a.flat])
    o = _np.moveaxis(x.a, axis, 0)
    out = _np.empty(o.shape[1:], dtype=object)
    for idx in _np.ndindex(*o.shape[1:]):
        out[idx] = op(*[cast_scalar(u, 'b') for u in o[(slice(None),) + idx]])
    if out.ndim == 0:
        return out.item()
    return SArr(out, 'b')


def _boolres(r):
    return r if isinstance(r, (SymBool, SArr)) else _np.bool_(r)


def all_(x, axis=None, out=None, keepdims=False):
    return _boolres(_reduce_bool(x, axis, And))


def any_(x, axis=None, out=None, keepdims=False):
    return _boolres(_reduce_bool(x, axis, Or))


def sum_(x, axis=None, dtype=None, out=None, keepdims=False, initial=None):
    if isinstance(x, types.GeneratorType):
        return reduce(lambda a, b: a + b, x, 0)
    x = asarray(x)
    if x.kind == 'b':
        x = x.astype(int)
    if not has_sym(x.a):
        return wrap_result(_np.sum(native(x.a, x.kind), axis=axis, keepdims=keepdims))
    r = _np.sum(x.a, axis=axis, keepdims=keepdims)
    return wrap_result(r)


def dot(a, b, out=None):
    ENG.tick()
    if not isinstance(a, (SArr, _np.ndarray, list, tuple)) or not isinstance(b, (SArr, _np.ndarray, list, tuple)):
        return a * b
    a, b = asarray(a), asarray(b)
    if not has_sym(a.a) and not has_sym(b.a) and 'O' not in (a.kind, b.kind):
        return wrap_result(_np.dot(native(a.a, a.kind), native(b.a, b.kind)))
    r = _np.dot(a.a, b.a)
    k = 'f' if 'f' in (a.kind, b.kind) else 'i'
    if not isinstance(r, _np.ndarray):
        return r
    if r.size and k == 'f':
        r = cast_obj(r, 'f')
    return SArr(r, k)


def matmul(a, b, out=None):
    a, b = asarray(a), asarray(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    return generic('matmul', a, b)


def inner(a, b):
    a, b = asarray(a), asarray(b)
    return dot(a, b.T if b.ndim > 1 else b)


def vdot(a, b):
    return dot(asarray(a).ravel(), asarray(b).ravel())


def outer(a, b, out=None):
    a, b = asarray(a), asarray(b)
    return a.reshape(-1, 1) * b.reshape(1, -1)


def cross(a, b, **kw):
    if kw:
        return generic('cross', a, b, **kw)
    a, b = asarray(a), asarray(b)
    if a.ndim == 1 and b.ndim == 1 and len(a) == 3 and len(b) == 3:
        return array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    return generic('cross', a, b)


def tensordot(a, b, axes=2):
    a, b = asarray(a), asarray(b)
    if not has_sym(a.a) and not has_sym(b.a):
        return wrap_result(_np.tensordot(native(a.a, a.kind), native(b.a, b.kind), axes=axes))
    r = _np.tensordot(a.a, b.a, axes=axes)
    k = 'f' if 'f' in (a.kind, b.kind) else 'i'
    if not isinstance(r, _np.ndarray) or r.ndim == 0:
        return wrap_result(r)
    return SArr(cast_obj(r, k), k)


def eye(n, m=None, k=0, dtype=float, **kw):
    return wrap_result(_np.eye(int(n), None if m is None else int(m), k)).astype(dtype)


def identity(n, dtype=float):
    return eye(n, dtype=dtype)


def zeros(shape, dtype=float, order=None):
    k = dkind(dtype)
    return full_of(shape, cast_scalar(0, k), k)


def ones(shape, dtype=float, order=None):
    k = dkind(dtype)
    return full_of(shape, cast_scalar(1, k), k)


def full(shape, v, dtype=None):
    k = dkind(dtype) if dtype is not None else scalar_kind(v)
    return full_of(shape, cast_scalar(v, k), k)


def empty(shape, dtype=float, order=None):
    k = dkind(dtype)
    if k == 'O':
        return full_of(shape, None, 'O')
    return full_of(shape, _undef(k), k)


def empty_like(x, dtype=None, **kw):
    x = asarray(x)
    return empty(x.shape, dtype if dtype is not None else SDtype(x.kind))


def zeros_like(x, dtype=None, **kw):
    x = asarray(x)
    return zeros(x.shape, dtype if dtype is not None else SDtype(x.kind))


def ones_like(x, dtype=None, **kw):
    x = asarray(x)
    return ones(x.shape, dtype if dtype is not None else SDtype(x.kind))


def full_like(x, v, dtype=None, **kw):
    x = asarray(x)
    return full(x.shape, v, dtype if dtype is not None else SDtype(x.kind))


def diag(v, k=0):
    v = asarray(v)
    if v.ndim == 1 and k == 0:
        n = len(v)
        r = full_of((n, n), cast_scalar(0, v.kind if v.kind != 'O' else 'f'), v.kind)
        for i in range(n):
            r.a[i, i] = v.a[i]
        return r
    return SArr(_np.diag(v.a, k).copy(), v.kind)


def where(c, *xy):
    if not xy:
        return generic('nonzero', SArr(_np.frompyfunc(lambda u: _np.bool_(bool(u)), 1, 1)(asarray(c).a), 'b'))
    x, y = xy
    if isinstance(c, (SymBool, bool, _np.bool_)):
        c = array(c)
    c = asarray(c)
    cc = _np.array([bool(u) for u in c.a.flat], dtype=bool).reshape(c.a.shape)
    x, y = asarray(x), asarray(y)
    r = _np.where(cc, x.a, y.a)
    k = merge_kinds([x.kind, y.kind])
    if r.ndim == 0:
        return cast_scalar(r.item(), k)
    return SArr(cast_obj(r, k), k)


def _pairwise(f):
    def g(a, b, out=None):
        a, b = asarray(a), asarray(b)
        r = _np.frompyfunc(f, 2, 1)(a.a, b.a)
        k = merge_kinds([a.kind, b.kind])
        if not isinstance(r, _np.ndarray) or r.ndim == 0:
            return cast_scalar(r.item() if isinstance(r, _np.ndarray) else r, k)
        return SArr(cast_obj(r, k), k)
    return g


maximum = _pairwise(lambda x, y: x if x >= y else y)
minimum = _pairwise(lambda x, y: x if x <= y else y)
fmax, fmin = maximum, minimum


def _close1(x, y, rtol, atol):
    if isinstance(x, Sym) or isinstance(y, Sym):
        if isinstance(x, (float, _np.floating)) and not math.isfinite(x):
            return False
        if isinstance(y, (float, _np.floating)) and not math.isfinite(y):
            return False
        d = x - y
        if not isinstance(d, Sym):
            d = lift(d)
            if not d.n:
                return True
        ay = abs(y)
        t = lift(Fraction(str(atol))) + lift(Fraction(str(rtol))) * ay if isinstance(ay, Sym) \
            else lift(Fraction(str(atol)) + Fraction(str(rtol)) * Fraction(float(ay)))
        return And(S.compare(lift(d), lift(t), '<='), S.compare(lift(-lift(d)), lift(t), '<='))
    return bool(_np.isclose(float(x), float(y), rtol=rtol, atol=atol))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = asarray(a), asarray(b)
    r = _np.frompyfunc(lambda x, y: _close1(x, y, rtol, atol), 2, 1)(a.a, b.a)
    if not isinstance(r, _np.ndarray) or r.ndim == 0:
        return r.item() if isinstance(r, _np.ndarray) else r
    return SArr(r, 'b')


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    ENG.tick()
    a, b = asarray(a), asarray(b)
    if not has_sym(a.a) and not has_sym(b.a):
        return bool(_np.allclose(native(a.a, a.kind), native(b.a, b.kind), rtol=rtol, atol=atol))
    r = isclose(a, b, rtol, atol)
    if isinstance(r, SArr):
        r = And(*list(r.a.flat))
    return r


def array_equal(a, b):
    try:
        a, b = asarray(a), asarray(b)
    except Exception:
        return False
    if a.shape != b.shape:
        return False
    return all_(a == b) if a.size else True


def append(arr, values, axis=None):
    a, v = asarray(arr), asarray(values)
    if axis is None:
        a, v = a.ravel(), v.ravel()
        axis = 0
    return concatenate((a, v), axis=axis)


def concatenate(xs, axis=0, **kw):
    xs = [asarray(x) for x in xs]
    k = merge_kinds([x.kind for x in xs if x.a.size] or [x.kind for x in xs])
    if any(not x.a.size and x.kind == 'f' for x in xs):
        k = merge_kinds([k, 'f'])
    r = _np.concatenate([x.a for x in xs], axis=axis)
    return SArr(cast_obj(r, k) if k != 'O' else r, k)


def stack(xs, axis=0, **kw):
    xs = [asarray(x) for x in xs]
    k = merge_kinds([x.kind for x in xs])
    return SArr(cast_obj(_np.stack([x.a for x in xs], axis=axis), k), k)


def vstack(xs, **kw):
    return _stk(_np.vstack, xs)


def hstack(xs, **kw):
    return _stk(_np.hstack, xs)


def column_stack(xs):
    return _stk(_np.column_stack, xs)


def dstack(xs):
    return _stk(_np.dstack, xs)


def _stk(f, xs):
    xs = [asarray(x) for x in xs]
    k = merge_kinds([x.kind for x in xs])
    return SArr(cast_obj(f([x.a for x in xs]), k), k)


def delete(arr, obj, axis=None):
    a = asarray(arr)
    r = _np.delete(a.a, fix_index(obj), axis=axis)
    return SArr(r, a.kind)


def insert(arr, obj, values, axis=None):
    a = asarray(arr)
    v = to_obj(values)
    r = _np.insert(a.a, fix_index(obj), v if v.ndim else v.item(), axis=axis)
    return SArr(cast_obj(r, a.kind), a.kind)


def argsort(x, axis=-1, kind=None, **kw):
    x = asarray(x)
    if not has_sym(x.a):
        return wrap_result(_np.argsort(native(x.a, x.kind), axis=axis))
    if x.ndim != 1:
        raise ENG.unsupported('argsort nd')
    import functools
    lst = list(x.a)

    def c(i, j):
        if lst[i] < lst[j]:
            return -1
        if lst[i] > lst[j]:
            return 1
        return 0
    return array(sorted(range(len(lst)), key=functools.cmp_to_key(c)))


def sort(x, axis=-1, kind=None, **kw):
    x = asarray(x)
    if not has_sym(x.a):
        return wrap_result(_np.sort(native(x.a, x.kind), axis=axis))
    if x.ndim == 1:
        return SArr(x.a[fix_index(argsort(x))], x.kind)
    raise ENG.unsupported('sort nd')


def searchsorted(a, v, side='left', sorter=None):
    a = list(asarray(a).a.flat)
    if isinstance(v, (SArr, list, tuple)):
        return array([searchsorted(a, x, side) for x in v])
    lo = 0
    n = len(a)
    # numpy bisects; on a sorted list a linear scan decides the same index
    lo, hi = 0, n
    while lo < hi:
        mid = (lo + hi) // 2
        if (a[mid] < v) if side == 'left' else (a[mid] <= v):
            lo = mid + 1
        else:
            hi = mid
    return _np.int64(lo)


def einsum(spec, *ops, **kw):
    kw.pop('optimize', None)
    ops = [asarray(o) for o in ops]
    k = 'f' if any(o.kind == 'f' for o in ops) else 'i'
    if not any(has_sym(o.a) for o in ops):
        return wrap_result(_np.einsum(spec, *[native(o.a, o.kind) for o in ops]))
    # object einsum by hand
    spec = spec.replace(' ', '')
    if '...' in spec:
        raise ENG.unsupported('einsum ellipsis')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        out = ''.join(sorted(c for c in set(ins.replace(',', '')) if ins.count(c) == 1))
    ins = ins.split(',')
    dims = {}
    for s, o in zip(ins, ops):
        for c, d in zip(s, o.shape):
            dims[c] = d
    summed = [c for c in dims if c not in out]
    r = _np.empty(tuple(dims[c] for c in out), dtype=object)
    for oi in _np.ndindex(*[dims[c] for c in out]):
        t = None
        for si in _np.ndindex(*[dims[c] for c in summed]):
            e = dict(zip(out, oi))
            e.update(zip(summed, si))
            p = None
            for s, o in zip(ins, ops):
                x = o.a[tuple(e[c] for c in s)]
                p = x if p is None else p * x
            t = p if t is None else t + p
        r[oi] = t
    if r.ndim == 0:
        return r.item()
    return SArr(cast_obj(r, k), k)


def power(a, b):
    if isinstance(a, Sym):
        return a ** b
    return asarray(a) ** b


def unique(x, *a, **k):
    x = asarray(x)
    if has_sym(x.a):
        x = array([ENG.concretize(u) if isinstance(u, Sym) and x.kind == 'i' else float(u) for u in x.a.flat]).reshape(x.shape)
    return generic('unique', x, *a, **k)


def vectorize(f, *a, **k):
    def g(*xs):
        xs = [asarray(x) for x in xs]
        return wrap_result(_np.frompyfunc(f, len(xs), 1)(*[x.a for x in xs]))
    return g


def fromiter(it, dtype, count=-1):
    return array(list(it), dtype=dtype)


def may_share_memory(a, b):
    return bool(_np.may_share_memory(a.a, b.a))


def iterable(x):
    return _np.iterable(x)


def isscalar(x):
    return isinstance(x, (Sym, SymBool)) or _np.isscalar(x)


# ------------------------------------------------------------------ linalg
class _Linalg(types.ModuleType):
    LinAlgError = _np.linalg.LinAlgError

    def __init__(self):
        types.ModuleType.__init__(self, 'numpy.linalg')

    @staticmethod
    def det(A):
        ENG.tick()
        A = asarray(A)
        if not has_sym(A.a):
            n = native(A.a, A.kind)
            return wrap_result(_np.linalg.det(n))
        if A.ndim > 2:
            return array([_Linalg.det(x) for x in A])
        if A.ndim != 2 or A.shape[0] != A.shape[1]:
            raise _np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
        return S.as_float(_det(A.a))

    @staticmethod
    def inv(A):
        ENG.tick()
        A = asarray(A)
        if A.ndim < 2:
            raise _np.linalg.LinAlgError('%d-dimensional array given' % A.ndim)
        if not has_sym(A.a):
            return wrap_result(_np.linalg.inv(native(A.a, A.kind)))
        if A.ndim > 2:
            return array([_Linalg.inv(x) for x in A])
        if A.shape[0] != A.shape[1]:
            raise _np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
        n = len(A)
        d = _det(A.a)
        if bool(S.compare(lift(d), lift(0), '==')):
            raise _np.linalg.LinAlgError('Singular matrix')
        r = _np.empty((n, n), dtype=object)
        dl = lift(d)
        for i in range(n):
            for j in range(n):
                if n == 1:
                    c = _np.float64(1.0)
                else:
                    m = _np.delete(_np.delete(A.a, j, 0), i, 1)
                    c = _det(m)
                if (i + j) % 2:
                    c = -c
                r[i, j] = S.div(lift(c), dl)
        return SArr(cast_obj(r, 'f'), 'f')

    @staticmethod
    def solve(A, b):
        return dot(_Linalg.inv(A), b)

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        ENG.tick()
        x = asarray(x)
        if not has_sym(x.a):
            return wrap_result(_np.linalg.norm(native(x.a, x.kind), ord=ord, axis=axis, keepdims=keepdims))
        if axis is not None:
            o = _np.moveaxis(x.a, axis, 0)
            if o.ndim != 2:
                raise ENG.unsupported('norm axis')
            return array([_Linalg.norm(SArr(o[:, i], x.kind), ord) for i in range(o.shape[1])])
        if ord in (None, 'fro') or (ord == 2 and x.ndim == 1):
            s = reduce(lambda a, b: a + b, [u * u for u in x.a.flat])
            return S.sym_sqrt(s, nonneg=True)
        if ord == 1 and x.ndim == 1:
            return sum_(abs_(x))
        if ord in (float('inf'), _np.inf) and x.ndim == 1:
            return generic('max', abs_(x))
        raise ENG.unsupported('norm ord')

    @staticmethod
    def matrix_power(A, n):
        A = asarray(A)
        n = int(n)
        if n < 0:
            return _Linalg.matrix_power(_Linalg.inv(A), -n)
        r = eye(len(A), dtype=SDtype(A.kind))
        for _ in range(n):
            r = dot(r, A)
        return r

    @staticmethod
    def eig(A):
        A = asarray(A)
        if not has_sym(A.a):
            w, v = _np.linalg.eig(native(A.a, A.kind))
            return wrap_result(w), wrap_result(v)
        return sym_eig(A)

    @staticmethod
    def eigh(A, UPLO='L'):
        A = asarray(A)
        if not has_sym(A.a):
            w, v = _np.linalg.eigh(native(A.a, A.kind))
            return wrap_result(w), wrap_result(v)
        w, v = sym_eig(A)
        i = argsort(w)
        return w[i], v[:, i]

    @staticmethod
    def eigvals(A):
        return _Linalg.eig(A)[0]

    @staticmethod
    def eigvalsh(A):
        return _Linalg.eigh(A)[0]

    @staticmethod
    def cholesky(A):
        A = asarray(A)
        if not has_sym(A.a):
            return wrap_result(_np.linalg.cholesky(native(A.a, A.kind)))
        n = len(A)
        L = zeros((n, n))
        for i in range(n):
            for j in range(i + 1):
                s = A[i, j]
                for k in range(j):
                    s = s - L[i, k] * L[j, k]
                if i == j:
                    if not s > 0:
                        raise _np.linalg.LinAlgError('Matrix is not positive definite')
                    L[i, i] = sqrt(s)
                else:
                    L[i, j] = s / L[j, j]
        return L

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return lambda *a, **kw: generic('linalg.' + k, *a, **kw)


def _det(o):
    n = len(o)
    if n == 0:
        return _np.float64(1.0)
    if n == 1:
        return o[0, 0]
    if n == 2:
        return o[0, 0] * o[1, 1] - o[0, 1] * o[1, 0]
    t = _np.float64(0.0)
    for j in range(n):
        x = o[0, j]
        if not isinstance(x, Sym) and x == 0:
            continue
        m = _np.delete(o[1:], j, 1)
        c = x * _det(m)
        t = t + c if j % 2 == 0 else t - c
    return t


def _same(a, b):
    d = a - b
    if isinstance(d, Sym):
        return not d.n
    return abs(d) < 1e-12


def register_spectrum(C, lams, V, perm=None):
    """declare C = V diag(lams) V^T (orthonormal columns); perm is the order in
    which an eigen-solver returns the pairs"""
    C, V = asarray(C), asarray(V)
    ENG.spectra.append((C.a.copy(), [lift(x) if not isinstance(x, Sym) else x for x in lams], V.a.copy(), perm))


def _constant(o):
    """the matrix of floats if no entry depends on a symbol"""
    out = _np.empty(o.shape)
    for i, x in _np.ndenumerate(o):
        if isinstance(x, Sym):
            if x.d or set(x.n) - {()}:
                return None
            x = x.n.get((), 0)
        out[i] = float(x)
    return out


def sym_eig(A):
    n = len(A)
    o = A.a
    # diagonal
    if all(_same(o[i, j], _np.float64(0.0)) for i in range(n) for j in range(n) if i != j):
        return SArr(cast_obj(_np.array([o[i, i] for i in range(n)], dtype=object), 'f'), 'f'), eye(n)
    for (C, lams, V, perm) in ENG.spectra:
        if C.shape == o.shape and all(_same(o[i, j], C[i, j]) for i in range(n) for j in range(n)):
            p = perm if perm is not None else range(n)
            l = _np.empty(n, dtype=object)
            v = _np.empty((n, n), dtype=object)
            for k, q in enumerate(p):
                l[k] = S.as_float(lams[q])
                v[:, k] = V[:, q]
            return SArr(cast_obj(l, 'f'), 'f'), SArr(cast_obj(v, 'f'), 'f')
    k = _constant(o)
    if k is not None:
        w, v = _np.linalg.eig(k)
        return wrap_result(_np.real(w)), wrap_result(_np.real(v))
    symm = all(_same(o[i, j], o[j, i]) for i in range(n) for j in range(i))
    if n == 2 and symm:
        return _eig2(o[0, 0], o[0, 1], o[1, 1])
    if n == 3 and symm:
        for k in range(3):
            i, j = [x for x in range(3) if x != k]
            if _same(o[k, i], _np.float64(0.0)) and _same(o[k, j], _np.float64(0.0)):
                w2, v2 = _eig2(o[i, i], o[i, j], o[j, j])
                w = _np.empty(3, dtype=object)
                v = full_of((3, 3), _np.float64(0.0), 'f').a
                w[i], w[j], w[k] = w2.a[0], w2.a[1], o[k, k]
                v[i, i], v[j, i], v[i, j], v[j, j] = v2.a[0, 0], v2.a[1, 0], v2.a[0, 1], v2.a[1, 1]
                v[k, k] = _np.float64(1.0)
                return SArr(cast_obj(w, 'f'), 'f'), SArr(v, 'f')
    if symm:
        return _eig_fresh(A)
    ENG.degrade('eigenvalues of a non-symmetric symbolic matrix')
    w, v = _np.linalg.eig(_np.array([[float(x) for x in r] for r in o]))
    return wrap_result(_np.real(w)), wrap_result(_np.real(v))


def _eig2(a, b, d):
    h = (a - d) / 2
    disc = S.sym_sqrt(h * h + b * b, nonneg=True)
    m = (a + d) / 2
    l1, l2 = m - disc, m + disc
    # unit vector of l2: (b, l2 - a) or axes when b == 0
    if bool(b == 0):
        return array([a, d], dtype=float), eye(2)
    x, y = b, l2 - a
    r = S.sym_sqrt(x * x + y * y, nonneg=True)
    x, y = x / r, y / r
    return array([l1, l2]), array([[-y, x], [x, y]])


_EIGMEMO = {}


def _eig_fresh(A):
    """eigenvalues/vectors as fresh symbols constrained by their definition"""
    n = len(A)
    I = eye(n)
    o = A.a
    e1 = reduce(lambda x, y: x + y, [o[i, i] for i in range(n)])
    det = _det(o)
    key = tuple((P.pfreeze(lift(x).n), lift(x).d) for x in (e1, det))
    tag = 'eig%d' % (abs(hash(key)) % 10 ** 8)
    lam = []
    for i in range(n):
        v = P.REG.new('%s_l%d' % (tag, i), 'fresh')
        lam.append(Sym({((v.id, 1),): 1}, (), False))
    ENG.assert_(S.compare(lift(reduce(lambda x, y: x + y, lam)), lift(e1), '=='))
    ENG.assert_(S.compare(lift(reduce(lambda x, y: x * y, lam)), lift(det), '=='))
    if n == 3:
        e2 = sum(o[i, i] * o[j, j] - o[i, j] * o[j, i] for i in range(3) for j in range(i))
        ENG.assert_(S.compare(lift(lam[0] * lam[1] + lam[0] * lam[2] + lam[1] * lam[2]), lift(e2), '=='))
    ENG.spectra.append((o.copy(), lam, _LazyVec(A, lam, tag), None))
    C, l, V, p = ENG.spectra[-1]
    return array(lam), V.get()


class _LazyVec(object):
    def __init__(self, A, lam, tag):
        self.A, self.lam, self.tag = A, lam, tag

    def get(self):
        n = len(self.A)
        V = _np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                v = P.REG.new('%s_v%d%d' % (self.tag, i, j), 'fresh', lo=-1, hi=1)
                V[i, j] = Sym({((v.id, 1),): 1}, (), False)
        self.V = V
        return SArr(V, 'f')

    def __getitem__(self, k):
        return self.V[k]


linalg = _Linalg()


# ------------------------------------------------------------------ random
class _Random(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'numpy.random')

    @staticmethod
    def random_integers(lo, hi=None, size=None):
        return _Random._ints(lo, hi, size)

    @staticmethod
    def randint(lo, hi=None, size=None, dtype=None):
        if hi is None:
            lo, hi = 0, lo
        return _Random._ints(lo, hi - 1, size)

    @staticmethod
    def _ints(lo, hi, size):
        n = int(_np.prod(size)) if size is not None else 1
        out = _np.empty(n, dtype=object)
        for i in range(n):
            ENG.nfresh += 1
            v = P.REG.new('rnd!%d' % ENG.nfresh, 'fresh', isint=True, lo=int(lo), hi=int(hi))
            out[i] = Sym({((v.id, 1),): 1}, (), True)
        return SArr(out.reshape(size), 'i') if size is not None else out[0]

    @staticmethod
    def rand(*size):
        n = int(_np.prod(size)) if size else 1
        out = _np.empty(n, dtype=object)
        for i in range(n):
            out[i] = ENG.fresh_real('rnd', 0, 1)
        return SArr(out.reshape(size), 'f') if size else out[0]

    random = rand

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise ENG.unsupported('numpy.random.' + k)


random = _Random()


# ------------------------------------------------------------------ module
class SymNumpy(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')
        self.__path__ = []
        g = globals()
        for n in ('array asarray ndarray sqrt cos sin tan floor ceil rint trunc fix sign square radians degrees isnan '
                  'isfinite isinf reciprocal negative real imag logical_and logical_or logical_not dot matmul inner '
                  'vdot outer cross tensordot eye identity zeros ones full empty empty_like zeros_like ones_like '
                  'full_like diag where maximum minimum fmax fmin isclose allclose array_equal append concatenate stack vstack '
                  'hstack column_stack dstack delete insert argsort sort searchsorted einsum power unique vectorize '
                  'fromiter may_share_memory iterable isscalar linalg random').split():
            setattr(self, n, g[n])
        self.deg2rad, self.rad2deg = radians, degrees
        self.absolute = self.abs = self.fabs = abs_
        self.round = self.around = self.round_ = round_
        self.all = self.alltrue = all_
        self.any = self.sometrue = any_
        self.sum = sum_
        self.add = lambda a, b, **k: binop(a, b, '+')
        self.subtract = lambda a, b, **k: binop(a, b, '-')
        self.multiply = lambda a, b, **k: binop(a, b, '*')
        self.divide = self.true_divide = lambda a, b, **k: binop(a, b, '/')
        self.floor_divide = lambda a, b, **k: binop(a, b, '//')
        self.mod = self.remainder = lambda a, b, **k: binop(a, b, '%')
        self.greater = lambda a, b, **k: binop(a, b, '>')
        self.greater_equal = lambda a, b, **k: binop(a, b, '>=')
        self.less = lambda a, b, **k: binop(a, b, '<')
        self.less_equal = lambda a, b, **k: binop(a, b, '<=')
        self.equal = lambda a, b, **k: binop(a, b, '==')
        self.not_equal = lambda a, b, **k: binop(a, b, '!=')
        self.asanyarray = self.ascontiguousarray = self.asfarray = asarray
        self.copy = lambda x, **k: array(x)
        self.int = self.int64 = self.int32 = self.int_ = self.intp = PInt
        self.float = self.float64 = self.float_ = PFloat
        self.bool = self.bool_ = _np.bool_
        self.double = PFloat
        self.object = self.object_ = object
        self.pi = math.pi
        self.e = math.e
        self.inf = self.Inf = self.infty = float('inf')
        self.nan = self.NaN = float('nan')
        self.newaxis = None
        self.dtype = SDtype
        self.errstate = _np.errstate
        self.seterr = lambda **k: {}
        self.set_printoptions = lambda *a, **k: None
        self.integer = _np.integer
        self.floating = _np.floating
        self.number = _np.number
        self.generic = _np.generic
        self.transpose = lambda x, axes=None: asarray(x).transpose(axes) if axes is not None else asarray(x).T
        self.reshape = lambda x, s, **k: asarray(x).reshape(s)
        self.ravel = lambda x, **k: asarray(x).ravel()
        self.diagonal = lambda x, *a, **k: asarray(x).diagonal(*a, **k)
        self.shape = lambda x: asarray(x).shape
        self.ndim = lambda x: asarray(x).ndim
        self.size = lambda x, axis=None: asarray(x).size if axis is None else asarray(x).shape[axis]
        self.swapaxes = lambda x, i, j: asarray(x).swapaxes(i, j)
        self.squeeze = lambda x, axis=None: asarray(x).squeeze(axis)
        self.atleast_1d = lambda x: asarray(x) if asarray(x).ndim else asarray(x).reshape(1)
        self.ndindex = _np.ndindex
        self.copysign = _pairwise(lambda x, y: abs(x) if not (y < 0) else -abs(x))
        self.hypot = _pairwise(lambda x, y: S.sym_sqrt(lift(x * x + y * y), nonneg=True))
        self.amax = lambda x, **k: generic('max', x, **k)
        self.amin = lambda x, **k: generic('min', x, **k)
        self.product = lambda x, **k: generic('prod', x, **k)
        self.mean = lambda x, axis=None: asarray(x).mean(axis)
        self.arange = self._arange
        self.clip = lambda x, lo, hi: minimum(maximum(x, lo), hi)
        self.exp = unary(_pinned(math.exp), _np.exp, _f)
        self.log = unary(_pinned(math.log), _np.log, _f)
        self.arccos = unary(_pinned(math.acos), _np.arccos, _f)
        self.arcsin = unary(_pinned(math.asin), _np.arcsin, _f)
        self.arctan = unary(_pinned(math.atan), _np.arctan, _f)
        self.cbrt = unary(_pinned(lambda x: float(_np.cbrt(x))), _np.cbrt, _f)
        self.asmatrix = self.matrix = self._nomatrix
        self.__version__ = '1.23.5'

    @staticmethod
    def _nomatrix(*a, **k):
        raise ENG.unsupported('matrix')

    @staticmethod
    def _arange(*a, **k):
        dt = k.pop('dtype', None)
        a = [int(x) if isinstance(x, Sym) and x.isint else (float(x) if isinstance(x, Sym) else x) for x in a]
        r = wrap_result(_np.arange(*a))
        return r.astype(dt) if dt is not None else r

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if k in ('alen', 'asscalar', 'rank', 'complex', 'str', 'long', 'unicode'):
            raise AttributeError("module 'numpy' has no attribute %r" % k)
        if not hasattr(_np, k):
            raise AttributeError("module 'numpy' has no attribute %r" % k)
        f = getattr(_np, k)
        if callable(f) and not isinstance(f, type):
            return lambda *a, **kw: generic(k, *a, **kw)
        return f


symnp = SymNumpy()


# ------------------------------------------------------------------ math
class SymMath(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'math')
        self.pi, self.e, self.inf, self.nan = math.pi, math.e, math.inf, math.nan

    @staticmethod
    def sqrt(x):
        x = _scal(x)
        if isinstance(x, Sym):
            if bool(S.compare(x, lift(0), '<')):
                raise ValueError('math domain error')
            return S.sym_sqrt(x)
        return math.sqrt(x)

    @staticmethod
    def cos(x):
        return _ncos(_scal(x)) if isinstance(_scal(x), Sym) else math.cos(x)

    @staticmethod
    def sin(x):
        return _nsin(_scal(x)) if isinstance(_scal(x), Sym) else math.sin(x)

    @staticmethod
    def tan(x):
        return _ntan(_scal(x)) if isinstance(_scal(x), Sym) else math.tan(x)

    @staticmethod
    def radians(x):
        return _scal(x) * (math.pi / 180)

    @staticmethod
    def degrees(x):
        return _scal(x) * (180 / math.pi)

    @staticmethod
    def floor(x):
        x = _scal(x)
        return S.sym_floor(x, True) if isinstance(x, Sym) else math.floor(x)

    @staticmethod
    def ceil(x):
        x = _scal(x)
        if isinstance(x, Sym):
            r = S.sym_floor(-x, True)
            return -r
        return math.ceil(x)

    @staticmethod
    def trunc(x):
        x = _scal(x)
        return S.sym_trunc(x)

    @staticmethod
    def fabs(x):
        return S.as_float(abs(_scal(x)))

    @staticmethod
    def copysign(x, y):
        y = _scal(y)
        if isinstance(y, Sym):
            return abs(x) if bool(y >= 0) else -abs(x)
        return math.copysign(x, y) if not isinstance(x, Sym) else (abs(x) if math.copysign(1, y) > 0 else -abs(x))

    @staticmethod
    def pow(x, y):
        return _scal(x) ** y if isinstance(_scal(x), Sym) else math.pow(x, y)

    @staticmethod
    def hypot(x, y):
        return S.sym_sqrt(lift(x * x + y * y), nonneg=True)

    @staticmethod
    def isnan(x):
        return False if isinstance(x, Sym) else math.isnan(x)

    @staticmethod
    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if isinstance(a, Sym) or isinstance(b, Sym):
            return _close1(a, b, rel_tol, abs_tol)
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    @staticmethod
    def gcd(*a):
        return math.gcd(*[int(x) for x in a])

    @staticmethod
    def fsum(xs):
        return reduce(lambda a, b: a + b, xs, 0.0)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        f = getattr(math, k)
        if callable(f):
            return lambda *a: f(*[float(x) if isinstance(x, Sym) and not x.isint else (int(x) if isinstance(x, Sym) else x) for x in a])
        return f


def _scal(x):
    return x.item() if isinstance(x, SArr) else x


symmath = SymMath()
