"""numpy over symbolic elements: SArr is an object-dtype ndarray subclass which
remembers the dtype the real array would have ("virtual dtype")."""
import builtins
import math
import os
import types

import numpy as np

from . import core
from .core import Sym, SymBool, Unsupported, ite, floor, trunc, band, bor, bnot, to_real, to_int, roundhalfeven

_ND = np.ndarray


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def scalar_vdt(x):
    """numpy dtype a concrete/symbolic scalar stands for; None for weak python scalars"""
    if isinstance(x, np.generic):
        return x.dtype
    return None


def elem_kind(x):
    if isinstance(x, (bool, np.bool_, SymBool)):
        return np.dtype(bool)
    if isinstance(x, Sym):
        return np.dtype('int64') if x.isint else np.dtype('float64')
    if isinstance(x, (int,)):
        return np.dtype('int64')
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, float):
        return np.dtype('float64')
    return np.dtype(object)


def cast_element(x, dt, src=None):
    dt = np.dtype(dt)
    if not is_sym(x):
        if dt.kind == 'f':
            v = float(x)
            return core_r32(v) if dt.itemsize == 4 else float(np.float16(v)) if dt.itemsize == 2 else v
        if dt.kind in 'iu':
            return int(x)
        if dt.kind == 'b':
            return bool(x)
        return x
    if dt.kind == 'f':
        if isinstance(x, SymBool):
            x = x.as_int()
        return half(to_real(x)) if dt.itemsize == 2 else to_real(x)
    if dt.kind in 'iu':
        if isinstance(x, SymBool):
            return x.as_int()
        t = trunc(x)
        return t
    if dt.kind == 'b':
        return x if isinstance(x, SymBool) else (x != 0)
    if dt.kind == 'O':
        return x
    raise Unsupported('cast of a symbolic value to %s' % dt)


def half(x):
    """a symbolic value rounded to half precision: any value within half a unit in
    the last place"""
    ctx = core.cur()
    r = ctx.fresh_real('half')
    e = core.maximum(x, -x) * 2.0 ** -11 + 2.0 ** -25
    ctx.assume(core.band(r - x <= e, x - r <= e))
    return r


def core_r32(v):
    from .ir import r32
    return r32(v)


def norm_dtype(dt):
    if dt is None:
        return None
    d = getattr(dt, 'vp_dtype', None)
    if d is not None and isinstance(dt, type):
        return np.dtype(d)
    return np.dtype(dt)


class SArr(_ND):
    vdt = None
    __array_priority__ = 2000.0

    def __array_finalize__(self, o):
        if o is None:
            return
        self.vdt = getattr(o, 'vdt', None)

    # dtype as seen by the code under test
    @property
    def vdtype(self):
        return self.vdt

    def plain(self):
        return self.view(_ND)

    def __getattribute__(self, name):
        if name == 'dtype':
            v = _ND.__getattribute__(self, '__dict__').get('vdt')
            if v is not None:
                return v
        if name == 'itemsize':
            return _ND.__getattribute__(self, '__dict__').get('vdt', np.dtype(object)).itemsize
        if name == 'nbytes':
            return self.size * self.itemsize
        if name == 'data':
            return self._buffer()
        return _ND.__getattribute__(self, name)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_impl(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kw):
        return func_impl(func, args, kw)

    # -- indexing
    def __getitem__(self, k):
        r = _ND.__getitem__(self.plain(), conc_key(k))
        return self._wrap(r)

    def _wrap(self, r):
        if isinstance(r, _ND):
            r = r.view(SArr)
            r.vdt = self.vdt
            return r
        return elem_out(r, self.vdt)

    def __setitem__(self, k, v):
        if isinstance(v, SArr):
            v = v.plain()
        elif isinstance(v, _ND) and v.dtype != object:
            v = v.astype(object)
        if isinstance(v, _ND):
            vv = np.empty(v.shape, dtype=object)
            for i in np.ndindex(*v.shape):
                vv[i] = cast_element(v[i], self.vdt)
            v = vv
        elif isinstance(v, (list, tuple)):
            vv = np.empty(len(v), dtype=object)
            for i, x in enumerate(v):
                vv[i] = cast_element(x, self.vdt)
            v = vv
        else:
            v = cast_element(v, self.vdt)
        _ND.__setitem__(self.plain(), conc_key(k), v)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __contains__(self, x):
        return builtins.any(bool(e == x) for e in self.ravel())

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
        return bool(self.plain().reshape(-1)[0])

    def __len__(self):
        if self.ndim == 0:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    def __float__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return float(self.plain().reshape(-1)[0])

    def __int__(self):
        return int(self.plain().reshape(-1)[0])

    def __index__(self):
        return self.plain().reshape(-1)[0].__index__()

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __reduce__(self):
        raise Unsupported('pickling a symbolic array')

    def _buffer(self, order='C'):
        a = self.plain()
        return SymBuffer(list(a.reshape(-1, order='F' if order == 'F' else 'C')), self.dtype)

    def tobytes(self, order='C'):
        return self._buffer(order or 'C')

    def tofile(self, *a):
        raise Unsupported('writing a symbolic array')

    def tolist(self):
        if self.ndim == 0:
            return elem_out(self.plain()[()], self.vdt)
        return [x.tolist() if isinstance(x, SArr) else x for x in self]

    def item(self, *a):
        if not a:
            if self.size != 1:
                raise ValueError('can only convert an array of size 1 to a Python scalar')
            return self.plain().reshape(-1)[0]
        return self.plain()[a if len(a) > 1 else a[0]]

    # -- methods
    def astype(self, dt, order='K', casting='unsafe', subok=True, copy=True):
        dt = norm_dtype(dt)
        r = np.empty_like(self.plain(), order=order)
        p = self.plain()
        for i in np.ndindex(*self.shape):
            r[i] = cast_element(p[i], dt)
        return mk(r, dt)

    def copy(self, order='C'):
        return mk(self.plain().copy(order=order), self.vdt)

    def _red(self, f, axis=None, dtype=None, keepdims=False, out=None, initial=None, where=None, ddof=None):
        if out is not None or where not in (None, True, np._NoValue):
            raise Unsupported('out=/where= in a reduction')
        return reduce_axis(self, f, axis, keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        dt = norm_dtype(dtype) or sum_dtype(self.vdt)
        r = self._red(lambda v: fold_add(v, dt), axis, keepdims=keepdims, out=out)
        return retype(r, dt)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        dt = norm_dtype(dtype) or sum_dtype(self.vdt)
        return retype(self._red(fold_mul, axis, keepdims=keepdims, out=out), dt)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        dt = norm_dtype(dtype) or (self.vdt if self.vdt.kind == 'f' else np.dtype('float64'))
        return retype(self._red(fold_mean, axis, keepdims=keepdims, out=out), dt)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        dt = norm_dtype(dtype) or (self.vdt if self.vdt.kind == 'f' else np.dtype('float64'))
        return retype(self._red(lambda v: fold_var(v, ddof), axis, keepdims=keepdims, out=out), dt)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        dt = norm_dtype(dtype) or (self.vdt if self.vdt.kind == 'f' else np.dtype('float64'))
        return retype(self._red(lambda v: py_sqrt(fold_var(v, ddof)), axis, keepdims=keepdims, out=out), dt)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return retype(self._red(fold_max, axis, keepdims=keepdims, out=out), self.vdt)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return retype(self._red(fold_min, axis, keepdims=keepdims, out=out), self.vdt)

    def ptp(self, axis=None, out=None):
        return self.max(axis) - self.min(axis)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return retype(self._red(lambda v: bor(*[tb(x) for x in v]), axis, keepdims=keepdims, out=out), np.dtype(bool))

    def all(self, axis=None, out=None, keepdims=False, **k):
        return retype(self._red(lambda v: band(*[tb(x) for x in v]), axis, keepdims=keepdims, out=out), np.dtype(bool))

    def argmax(self, axis=None, out=None, **k):
        return retype(self._red(fold_argmax, axis), np.dtype('int64'))

    def argmin(self, axis=None, out=None, **k):
        return retype(self._red(fold_argmin, axis), np.dtype('int64'))

    def cumsum(self, axis=None, dtype=None, out=None):
        a = self.ravel() if axis is None else self
        if a.ndim != 1:
            q = np.moveaxis(a.plain(), axis, -1)
            o = np.empty(q.shape, dtype=object)
            for i in np.ndindex(*q.shape[:-1]):
                acc = None
                for j in range(q.shape[-1]):
                    acc = q[i + (j,)] if acc is None else acc + q[i + (j,)]
                    o[i + (j,)] = acc
            return mk(np.moveaxis(o, -1, axis), norm_dtype(dtype) or sum_dtype(self.vdt))
        r, acc = [], None
        for x in a.plain():
            acc = x if acc is None else acc + x
            r.append(acc)
        return mk_list(r, (len(r),), norm_dtype(dtype) or sum_dtype(self.vdt))

    def argsort(self, axis=-1, kind=None, order=None, **k):
        if self.ndim != 1:
            q = np.moveaxis(self.plain(), axis, -1)
            o = np.empty(q.shape, dtype=np.int64)
            for i in np.ndindex(*q.shape[:-1]):
                o[i] = sorted_indices(list(q[i]))
            return np.moveaxis(o, -1, axis)
        p = list(self.plain())
        ix = sorted_indices(p)
        return np.asarray(ix, dtype=np.int64)

    def sort(self, axis=-1, kind=None, order=None, **k):
        if self.ndim != 1:
            q = np.moveaxis(self.plain(), axis, -1)
            for i in np.ndindex(*q.shape[:-1]):
                for j, x in enumerate(sort_values(list(q[i]))):
                    q[i + (j,)] = x
            return
        p = list(self.plain())
        p = sort_values(p)
        for i, x in enumerate(p):
            _ND.__setitem__(self.plain(), i, x)

    def round(self, decimals=0, out=None):
        if decimals:
            if self.vdt.kind != 'f':
                raise Unsupported('round to decimals')
            return elementwise(lambda x: _roundd(x, int(decimals)), [self], self.vdt)
        return elementwise(lambda x: to_real(roundhalfeven(x)) if self.vdt.kind == 'f' else x, [self], self.vdt)

    def nonzero(self):
        return np.nonzero(conc_bool(self))

    def dot(self, o):
        return dot(self, o)

    def clip(self, a_min=None, a_max=None, out=None, **k):
        r = self
        if a_min is not None:
            r = np.maximum(r, a_min)
        if a_max is not None:
            r = np.minimum(r, a_max)
        return r

    def take(self, ix, axis=None, **k):
        ix = conc_key(ix)
        return self._wrap(_ND.take(self.plain(), ix, axis=axis))

    def fill(self, v):
        self[...] = v

    def __repr__(self):
        return 'SArr(shape=%r, dtype=%s)' % (self.shape, self.vdt)
    __str__ = __repr__

    def __format__(self, s):
        return repr(self)


def tb(x):
    if isinstance(x, Sym):
        return x != 0
    return x


def vdtype(a):
    if isinstance(a, SArr):
        return a.vdt
    return a.dtype


def mk(plain, dt):
    r = plain.view(SArr)
    r.vdt = np.dtype(dt)
    return r


def mk_list(vals, shape, dt):
    a = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        a[i] = v
    return mk(a.reshape(shape), dt)


def elem_out(x, dt):
    """scalar extracted from an array"""
    if is_sym(x):
        return x
    if dt is not None and dt.kind == 'f':
        return np.float64(x) if dt.itemsize == 8 else np.float32(x)
    if dt is not None and dt.kind in 'iu':
        return dt.type(x)
    if dt is not None and dt.kind == 'b':
        return np.bool_(x)
    return x


def wrap_array(vals, shape, dt):
    """array from executor output: a real ndarray when nothing is symbolic"""
    if any(is_sym(v) for v in vals) or getattr(core.CTX, 'sym_arrays', False):
        return mk_list(vals, tuple(shape), dt)
    return np.array(vals, dtype=dt).reshape(tuple(shape)) if vals else np.zeros(tuple(shape), dtype=dt)


def as_sarr(x, dt=None):
    if isinstance(x, SArr):
        return x if dt is None or dt == x.vdt else x.astype(dt)
    if isinstance(x, _ND) and x.dtype != object:
        r = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            r[i] = x[i].item()
        s = mk(r, x.dtype)
        return s if dt is None else s.astype(dt)
    if is_sym(x) or np.isscalar(x):
        r = np.empty((), dtype=object)
        r[()] = x
    elif isinstance(x, _ND):
        r = x
    else:
        r = obj_array(x)
    flat = [r[i] for i in np.ndindex(*r.shape)]
    if dt is None:
        kinds = {elem_kind(v) for v in flat}
        dt = np.result_type(*kinds) if kinds and np.dtype(object) not in kinds else (
            np.dtype('float64') if not kinds else np.dtype(object))
    o = np.empty(r.shape, dtype=object)
    for i in np.ndindex(*r.shape):
        o[i] = cast_element(r[i], dt)
    return mk(o, dt)


def obj_array(x):
    """nested sequences -> object ndarray, descending into lists, tuples and arrays"""
    x = list(x)
    if x and any(isinstance(e, (list, tuple, _ND)) for e in x):
        parts = [obj_array(e) if isinstance(e, (list, tuple)) else (
            e.plain() if isinstance(e, SArr) else np.asarray(e).astype(object)) for e in x]
        if len({p.shape for p in parts}) != 1:
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        r = np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, p in enumerate(parts):
            r[i] = p
        return r
    r = np.empty(len(x), dtype=object)
    for i, e in enumerate(x):
        r[i] = e
    return r


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, SArr):
        return True
    if isinstance(x, _ND):
        return x.dtype == object and any(is_sym(v) for v in x.ravel())
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def conc_bool(a):
    """real bool ndarray from a symbolic mask (forks)"""
    p = a.plain() if isinstance(a, SArr) else a
    r = np.empty(p.shape, dtype=bool)
    for i in np.ndindex(*p.shape):
        r[i] = bool(p[i])
    return r


def conc_key(k):
    if isinstance(k, tuple):
        return tuple(conc_key(x) for x in k)
    if isinstance(k, SArr):
        if k.vdt.kind == 'b':
            return conc_bool(k)
        if k.vdt.kind in 'iu':
            r = np.empty(k.shape, dtype=np.int64)
            p = k.plain()
            for i in np.ndindex(*k.shape):
                r[i] = int(p[i])
            return r
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, Sym):
        return k.__index__()
    if isinstance(k, slice):
        f = lambda v: v.__index__() if isinstance(v, Sym) else v
        return slice(f(k.start), f(k.stop), f(k.step))
    if isinstance(k, list):
        return [conc_key(x) for x in k]
    return k


# ------------------------------------------------------------ folds
def sum_dtype(dt):
    if dt.kind == 'b':
        return np.dtype('int64')
    if dt.kind == 'i' and dt.itemsize < 8:
        return np.dtype('int64')
    if dt.kind == 'u' and dt.itemsize < 8:
        return np.dtype('uint64')
    return dt


def fold_add(v, dt=None):
    r = 0.0 if dt is not None and dt.kind == 'f' else 0
    for x in v:
        r = r + x
    return r


def fold_mul(v):
    r = 1
    for x in v:
        r = r * x
    return r


def fold_mean(v):
    return fold_add(v) / float(len(v)) if len(v) else float('nan')


def fold_var(v, ddof=0):
    m = fold_mean(v)
    return fold_add([(x - m) * (x - m) for x in v]) / float(len(v) - ddof)


def py_sqrt(x):
    return core.sqrt(x) if is_sym(x) else math.sqrt(x)


def fold_max(v):
    if not len(v):
        raise ValueError('zero-size array to reduction operation maximum which has no identity')
    r = v[0]
    for x in v[1:]:
        r = smax(r, x)
    return r


def fold_min(v):
    if not len(v):
        raise ValueError('zero-size array to reduction operation minimum which has no identity')
    r = v[0]
    for x in v[1:]:
        r = smin(r, x)
    return r


def smax(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return bor(tb(a), tb(b))
    return core.maximum(a, b)


def smin(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return band(tb(a), tb(b))
    return core.minimum(a, b)


def fold_argmax(v):
    if not len(v):
        raise ValueError('attempt to get argmax of an empty sequence')
    # forks: first index holding the maximum
    best = 0
    for i in range(1, len(v)):
        if bool(v[i] > v[best]):
            best = i
    return best


def fold_argmin(v):
    if not len(v):
        raise ValueError('attempt to get argmin of an empty sequence')
    best = 0
    for i in range(1, len(v)):
        if bool(v[i] < v[best]):
            best = i
    return best


def sorted_indices(p):
    import functools

    def c(i, j):
        if bool(p[i] < p[j]):
            return -1
        if bool(p[j] < p[i]):
            return 1
        return 0
    return sorted(range(len(p)), key=functools.cmp_to_key(c))


def sort_values(p):
    """odd-even merge by compare-exchange: min/max terms, no forking"""
    p = list(p)
    n = len(p)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = p[j], p[j + 1]
            p[j], p[j + 1] = smin(a, b), smax(a, b)
    return p


def retype(r, dt):
    if np.dtype(dt) == np.float16 and isinstance(r, SArr):
        return r.astype(dt)
    if np.dtype(dt) == np.float16 and is_sym(r):
        return half(to_real(r))
    if isinstance(r, SArr):
        r.vdt = np.dtype(dt)
        return r
    return elem_out(r, np.dtype(dt))


def reduce_axis(a, f, axis, keepdims=False):
    p = a.plain()
    if isinstance(axis, tuple):
        if len(axis) == a.ndim:
            axis = None
        elif len(axis) == 1:
            axis = axis[0]
        else:
            ax = [x % a.ndim for x in axis]
            q = np.moveaxis(p, ax, range(a.ndim - len(ax), a.ndim))
            r = reduce_axis(mk(q.reshape(q.shape[:a.ndim - len(ax)] + (-1,)), a.vdt), f, -1)
            return np.expand_dims(r, tuple(ax)) if keepdims else r
    if axis is None:
        r = f([p[i] for i in np.ndindex(*p.shape)])
        if keepdims:
            return mk_list([r], (1,) * a.ndim, a.vdt)
        return r
    axis = axis.__index__()
    if not -a.ndim <= axis < a.ndim:
        raise np.exceptions.AxisError(axis, a.ndim)
    q = np.moveaxis(p, axis, -1)
    shape = q.shape[:-1]
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = f(list(q[i]))
    if keepdims:
        out = np.expand_dims(out, axis)
    if out.ndim == 0:
        return out[()]
    return mk(out, a.vdt)


# ------------------------------------------------------------ ufuncs
def _div(a, b):
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all='ignore'):
            return float(np.divide(float(a), float(b)))
    if is_sym(b):
        if bool(b == 0):
            if is_sym(a):
                if bool(a > 0):
                    return float('inf')
                if bool(a < 0):
                    return float('-inf')
                return float('nan')
            return float('nan') if a == 0 else math.copysign(float('inf'), a)
        return a / b
    if b == 0:
        if bool(a > 0):
            return float('inf')
        return float('-inf') if bool(a < 0) else float('nan')
    return a / b


def _pow(a, b):
    if not is_sym(a) and not is_sym(b):
        return a ** b
    return a ** b


def _mathfn(name):
    def f(x):
        if isinstance(x, Sym):
            return getattr(x, name)()
        if isinstance(x, SymBool):
            return getattr(to_real(x.as_int()), name)()
        with np.errstate(all='ignore'):
            return getattr(np, name)(float(x)).item()
    return f


def _floorf(x):
    if is_sym(x):
        return to_real(floor(x))
    return float(math.floor(x)) if x - x == 0 else x


def _ceilf(x):
    if is_sym(x):
        return to_real(-floor(-x))
    return float(math.ceil(x)) if x - x == 0 else x


def _sign(x):
    if not is_sym(x):
        return float(np.sign(x))
    return ite(x > 0, 1.0, ite(x < 0, -1.0, 0.0))


def _feq(a, b):
    return a == b


def _copysign(a, b):
    neg = b < 0 if is_sym(b) else math.copysign(1.0, b) < 0
    return ite(neg, -abs(a), abs(a)) if is_sym(neg) else (-abs(a) if neg else abs(a))


def _fmod(a, b):
    if is_sym(a) or is_sym(b):
        return a - b * to_real(trunc(_div(a, b)))
    return math.fmod(a, b)


def _roundd(x, d):
    if not is_sym(x):
        return float(np.round(x, d))
    q = 10.0 ** abs(d)
    return to_real(roundhalfeven(x * q)) / q if d > 0 else to_real(roundhalfeven(x / q)) * q


UF = {
    'copysign': _copysign, 'fmod': _fmod, 'hypot': lambda a, b: py_sqrt(a * a + b * b),
    'log1p': lambda x: _mathfn('log')(1.0 + x), 'expm1': lambda x: _mathfn('exp')(x) - 1.0,
    'exp2': lambda x: _pow(2.0, x), 'signbit': lambda x: x < 0 if is_sym(x) else bool(np.signbit(x)),
    'heaviside': lambda a, b: ite(a > 0, 1.0, ite(a < 0, 0.0, b)) if is_sym(a) or is_sym(b) else float(np.heaviside(a, b)),
    'tan': _mathfn('tan'),
    'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'multiply': lambda a, b: a * b,
    'divide': _div, 'true_divide': _div, 'negative': lambda a: -a, 'positive': lambda a: a,
    'absolute': abs, 'fabs': abs, 'power': _pow, 'float_power': _pow, 'square': lambda a: a * a,
    'floor_divide': lambda a, b: core.floordiv(a, b) if is_sym(a) or is_sym(b) else a // b,
    'remainder': lambda a, b: a - core.floordiv(a, b) * b if is_sym(a) or is_sym(b) else a % b,
    'greater': lambda a, b: a > b, 'greater_equal': lambda a, b: a >= b, 'less': lambda a, b: a < b,
    'less_equal': lambda a, b: a <= b, 'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b,
    'maximum': smax, 'minimum': smin, 'fmax': smax, 'fmin': smin,
    'sqrt': lambda x: py_sqrt(x), 'log': _mathfn('log'), 'log10': _mathfn('log10'), 'log2': _mathfn('log2'),
    'exp': _mathfn('exp'), 'sin': _mathfn('sin'), 'cos': _mathfn('cos'),
    'floor': _floorf, 'ceil': _ceilf, 'trunc': lambda x: to_real(trunc(x)), 'rint': lambda x: to_real(roundhalfeven(x)),
    'sign': _sign,
    'logical_and': lambda a, b: band(tb(a), tb(b)), 'logical_or': lambda a, b: bor(tb(a), tb(b)),
    'logical_not': lambda a: bnot(tb(a)), 'logical_xor': lambda a, b: tb(a) ^ tb(b),
    'bitwise_and': lambda a, b: a & b, 'bitwise_or': lambda a, b: a | b, 'bitwise_xor': lambda a, b: a ^ b,
    'invert': lambda a: a.negate() if isinstance(a, SymBool) else (not a if isinstance(a, (bool, np.bool_)) else ~a),
    'isfinite': lambda a: True if is_sym(a) else bool(np.isfinite(a)),
    'isnan': lambda a: False if is_sym(a) else bool(np.isnan(a)),
    'isinf': lambda a: False if is_sym(a) else bool(np.isinf(a)),
    'conjugate': lambda a: a, 'reciprocal': lambda a: _div(1.0, a),
    'radians': lambda a: a * (math.pi / 180.0), 'deg2rad': lambda a: a * (math.pi / 180.0),
    'degrees': lambda a: a * (180.0 / math.pi), 'rad2deg': lambda a: a * (180.0 / math.pi),
}
BOOLOUT = {'greater', 'greater_equal', 'less', 'less_equal', 'equal', 'not_equal', 'logical_and', 'logical_or',
           'logical_not', 'logical_xor', 'isfinite', 'isnan', 'isinf', 'signbit'}


def out_dtype(ufunc, inputs, dtype=None):
    if dtype is not None:
        return norm_dtype(dtype)
    ins = []
    for x in inputs:
        if isinstance(x, SArr):
            ins.append(x.vdt)
        elif isinstance(x, _ND):
            ins.append(x.dtype)
        elif isinstance(x, np.generic):
            ins.append(x.dtype)
        elif isinstance(x, (bool, SymBool)):
            ins.append(np.dtype(bool))
        elif isinstance(x, Sym):
            ins.append(int if x.isint else float)
        elif isinstance(x, int):
            ins.append(int)
        elif isinstance(x, float):
            ins.append(float)
        elif isinstance(x, (list, tuple)):
            ins.append(as_sarr(x).vdt)
        else:
            return np.dtype(object)
    if all(not isinstance(i, np.dtype) for i in ins):
        ins = [np.dtype('float64') if i is float else np.dtype('int64') for i in ins]
    try:
        r = ufunc.resolve_dtypes(tuple(ins) + (None,) * ufunc.nout)[-1]
    except TypeError as e:
        raise TypeError("ufunc '%s' not supported for the input types" % ufunc.__name__) from e
    return r


def unwrap(x):
    if isinstance(x, SArr):
        return x.plain()
    if isinstance(x, _ND):
        if x.dtype == object:
            return x
        r = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            r[i] = x[i].item()
        return r
    if isinstance(x, (list, tuple)):
        return as_sarr(x).plain()
    r = np.empty((), dtype=object)
    r[()] = x.item() if isinstance(x, np.generic) else x
    return r


def elementwise(f, inputs, dt):
    ps = np.broadcast_arrays(*[unwrap(x) for x in inputs])
    out = np.empty(ps[0].shape, dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = f(*[p[i] for p in ps])
    if out.ndim == 0 and not any(isinstance(x, _ND) and x.ndim == 0 for x in []):
        return elem_out(out[()], np.dtype(dt))
    return mk(out, dt)


def ufunc_impl(ufunc, method, inputs, kw):
    name = ufunc.__name__
    if name == 'divmod' and method == '__call__' and not kw:
        return np.floor_divide(*inputs), np.remainder(*inputs)
    if name == 'modf' and method == '__call__' and not kw:
        w = np.trunc(inputs[0])
        return inputs[0] - w, w
    f = UF.get(name)
    if f is None:
        raise Unsupported('numpy.%s of a symbolic array' % name)
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    dtype = kw.pop('dtype', None)
    kw.pop('casting', None)
    kw.pop('order', None)
    kw.pop('subok', None)
    if method == 'reduce':
        a = as_sarr(inputs[0])
        ax = kw.get('axis', 0)
        kd = kw.get('keepdims', False)
        m = {'add': a.sum, 'maximum': a.max, 'minimum': a.min, 'logical_and': a.all, 'logical_or': a.any,
             'multiply': a.prod, 'fmax': a.max, 'fmin': a.min}.get(name)
        if out is not None:
            raise Unsupported('numpy.%s.reduce' % name)
        if m is None:
            import functools
            return reduce_axis(a, lambda v: functools.reduce(f, v), ax, kd)
        if dtype is not None:
            return m(axis=ax, keepdims=kd, dtype=dtype)
        return m(axis=ax, keepdims=kd)
    if method == 'accumulate':
        if name == 'add':
            return as_sarr(inputs[0]).cumsum(axis=kw.get('axis', 0))
        return f_accumulate(f, as_sarr(inputs[0]), kw.get('axis', 0))
    if method == 'reduceat':
        return f_reduceat(f, as_sarr(inputs[0]), inputs[1], kw.get('axis', 0))
    if method == 'at':
        a, ix = inputs[0], inputs[1]
        if not isinstance(a, SArr):
            raise Unsupported('symbolic values written into a concrete array')
        ix = np.asarray(conc_key(ix))
        b = [None] * ix.size if len(inputs) < 3 else np.broadcast_to(unwrap(inputs[2]), ix.shape).reshape(-1)
        for i, v in zip(ix.reshape(-1), b):
            a[int(i)] = f(a[int(i)], v) if len(inputs) > 2 else f(a[int(i)])
        return None
    if method == 'outer':
        a, b = as_sarr(inputs[0]), as_sarr(inputs[1])
        return ufunc_impl(ufunc, '__call__', (a.reshape(a.shape + (1,) * b.ndim), b), {})
    if method != '__call__':
        raise Unsupported('numpy.%s.%s' % (name, method))
    dt = out_dtype(ufunc, inputs, dtype)
    if where is not True:
        o = out[0] if isinstance(out, tuple) else out
        if o is None:
            raise Unsupported('where= argument')
        fill = o
        r = elementwise(lambda w, y, *v: ite(tb(w), f(*v), y) if is_sym(w) else (f(*v) if w else y), [where, fill] + list(inputs), dt)
    else:
        r = elementwise(f, inputs, dt)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        od = vdtype(o)
        if not np.can_cast(dt, od, 'same_kind'):
            raise np._core._exceptions._UFuncOutputCastingError(ufunc, 'same_kind', dt, od, 0)
        if not isinstance(o, SArr):
            # `a op= symbolic` on an array nobody else refers to: the name is
            # simply rebound to the (symbolic) result
            import sys
            if o.base is None and o.flags.owndata and sys.getrefcount(o) <= INPLACE_REFS and \
                    (not isinstance(r, SArr) or r.shape == o.shape):
                return r.astype(od) if isinstance(r, SArr) else r
            raise Unsupported('symbolic values written into a concrete array')
        if isinstance(r, SArr) and r.shape != o.shape:
            raise ValueError('non-broadcastable output operand')
        o[...] = r
        return o
    return r


# reference count ufunc_impl sees for an array bound to one name only
INPLACE_REFS = 9


def _sym_array_ufunc(self, ufunc, method, *inputs, **kw):
    return ufunc_impl(ufunc, method, inputs, kw)


Sym.__array_ufunc__ = _sym_array_ufunc
SymBool.__array_ufunc__ = _sym_array_ufunc


# ------------------------------------------------------------ functions
def dot(a, b):
    a, b = as_sarr(a), as_sarr(b)
    dt = np.result_type(a.vdt, b.vdt)
    pa, pb = a.plain(), b.plain()
    if a.ndim == 1 and b.ndim == 1:
        return retype(fold_add([x * y for x, y in zip(pa, pb)]), dt)
    if a.ndim == 2 and b.ndim == 1:
        return mk_list([fold_add([x * y for x, y in zip(r, pb)]) for r in pa], (a.shape[0],), dt)
    if a.ndim == 1 and b.ndim == 2:
        return mk_list([fold_add([x * y for x, y in zip(pa, c)]) for c in pb.T], (b.shape[1],), dt)
    if a.ndim == 2 and b.ndim == 2:
        return mk_list([fold_add([x * y for x, y in zip(r, c)]) for r in pa for c in pb.T], (a.shape[0], b.shape[1]), dt)
    raise Unsupported('dot')


def f_median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    a = as_sarr(a)

    def med(v):
        if not v:
            return float('nan')
        s = sort_values(v)
        n = len(s)
        return s[n // 2] * 1.0 if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2.0
    r = reduce_axis(a, med, axis, keepdims)
    return retype(r, a.vdt if a.vdt.kind == 'f' else np.dtype('float64'))


def f_percentile(a, q, axis=None, out=None, overwrite_input=False, method='linear', keepdims=False, **k):
    if method != 'linear':
        raise Unsupported('percentile method')
    a = as_sarr(a)
    qs = np.asarray(q, dtype=float)

    def pc(qq):
        def g(v):
            s = sort_values(v)
            n = len(s)
            if n == 0:
                raise IndexError('percentile of an empty array')
            x = (n - 1) * (qq / 100.0)
            i = int(math.floor(x))
            fr = x - i
            if fr == 0 or i + 1 >= n:
                return s[min(i, n - 1)] * 1.0
            return s[i] + (s[i + 1] - s[i]) * fr
        return g
    rs = [reduce_axis(a, pc(float(x)), axis, keepdims) for x in qs.ravel()]
    dt = np.dtype('float64')
    if qs.ndim == 0:
        return retype(rs[0], dt)
    if isinstance(rs[0], SArr):
        r = np.empty((len(rs),) + rs[0].shape, dtype=object)
        for i, x in enumerate(rs):
            r[i] = x.plain()
        return mk(r, dt)
    return mk_list(rs, (len(rs),), dt)


def conc_discrete(v):
    """float of a term over integer atoms only (forks over its values)"""
    if not isinstance(v, Sym):
        return float(v)
    ctx = core.cur()
    if not all(ctx.atoms[i].isint for m in v.t for i in m):
        r = ctx.only_value(v)
        if r is None:
            raise Unsupported('a discrete value depends on a symbolic real')
        return float(r)
    den = 1
    for c in v.t.values():
        den = den * c.denominator // math.gcd(den, c.denominator)
    return int(Sym({m: c * den for m, c in v.t.items()}, True)) / den


def f_interp(x, xp, fp, left=None, right=None, period=None):
    if left is not None or right is not None or period is not None:
        raise Unsupported('interp options')
    xp = np.array([conc_discrete(v) for v in as_sarr(xp).plain().reshape(-1)], dtype=float)
    fp = as_sarr(fp).plain()
    if len(xp) == 0:
        raise ValueError('array of sample points is empty')
    if len(xp) != len(fp):
        raise ValueError('fp and xp are not of the same length.')
    sx = isinstance(x, SArr)
    xs = x.plain() if sx else np.asarray(x, dtype=float)

    def g(t):
        t = conc_discrete(t)
        if t <= xp[0]:
            return fp[0]
        if t >= xp[-1]:
            return fp[-1]
        j = int(np.searchsorted(xp, t, side='right')) - 1
        if xp[j] == t:
            return fp[j]
        slope = (fp[j + 1] - fp[j]) / float(xp[j + 1] - xp[j])
        return slope * (t - float(xp[j])) + fp[j]
    if xs.ndim == 0:
        return g(xs[()])
    return mk_list([g(xs[i]) for i in np.ndindex(*xs.shape)], xs.shape, np.dtype('float64'))


def f_diff(a, n=1, axis=-1, **k):
    a = as_sarr(a)
    for _ in range(n):
        if a.ndim != 1:
            a = np.moveaxis(a, axis, -1)[..., 1:] - np.moveaxis(a, axis, -1)[..., :-1]
        else:
            a = a[1:] - a[:-1]
    return a


def f_where(c, *args):
    if not args:
        if isinstance(c, SArr):
            return np.where(conc_bool(c))
        return np.where(c)
    a, b = args
    dt = np.result_type(*[x.vdt if isinstance(x, SArr) else (x if not is_sym(x) else 0.0) for x in (a, b)])
    return elementwise(lambda cc, x, y: ite(tb(cc), x, y), [c, a, b], dt)


def f_polyfit(x, y, deg, rcond=None, full=False, w=None, cov=False):
    if full or w is not None or cov or has_sym(x) and not isinstance(x, SArr):
        raise Unsupported('polyfit options')
    if isinstance(x, SArr):
        px = x.plain()
        if any(is_sym(v) for v in px):
            raise Unsupported('polyfit with symbolic abscissae')
        x = np.array([float(v) for v in px])
    deg = deg.__index__() if not isinstance(deg, float) else deg
    y = as_sarr(y)
    M = np.polyfit(np.asarray(x, dtype=float), np.eye(len(x)), deg)
    py = y.plain()
    return mk_list([fold_add([float(c) * v for c, v in zip(row, py)], np.dtype(float)) for row in M], (M.shape[0],),
                   np.dtype('float64'))


class SPoly:
    """np.poly1d with symbolic coefficients (leading zeros are not trimmed)"""

    def __init__(self, c):
        self.c = as_sarr(c)
    coefficients = property(lambda s: s.c)
    coef = coeffs = coefficients

    @property
    def order(self):
        return len(self.c) - 1

    def __call__(self, x):
        return f_polyval(self.c, x)

    def __len__(self):
        return len(self.c) - 1

    def __iter__(self):
        return iter(self.c)

    def __getitem__(self, k):
        n = len(self.c) - 1
        return self.c[n - k] if 0 <= k <= n else 0


def f_polyval(c, x):
    if isinstance(x, (_ND, list, tuple)):
        r = np.zeros(np.shape(x))
    else:
        r = 0.0
    for i in range(len(c)):
        r = r * x + c[i]
    return r


def f_cat(name):
    def f(seq, *a, **k):
        seq = list(seq)
        dt = np.result_type(*[vdtype(s) if isinstance(s, _ND) else as_sarr(s).vdt for s in seq])
        k.pop('dtype', None)
        return mk(getattr(np, name)([unwrap(s) for s in seq], *a, **k), dt)
    return f


def f_struct(name):
    def f(a, *args, **k):
        s = as_sarr(a)
        args = tuple(conc_key(x) if isinstance(x, (Sym, SArr)) else x for x in args)
        r = getattr(np, name)(s.plain(), *args, **k)
        if isinstance(r, _ND):
            return mk(r, s.vdt)
        if isinstance(r, list):
            return [mk(x, s.vdt) for x in r]
        return r
    return f


def meth(name):
    def f(a, *args, **k):
        k = {kk: v for kk, v in k.items() if v is not np._NoValue}
        return getattr(as_sarr(a), name)(*args, **k)
    return f


def f_sort(a, axis=-1, kind=None, order=None, **k):
    s = as_sarr(a).copy()
    if axis is None:
        s = s.ravel()
    s.sort(axis=-1 if axis is None else axis)
    return s


def f_accumulate(f, a, axis=0):
    q = np.moveaxis(a.plain(), axis, -1)
    o = np.empty(q.shape, dtype=object)
    for i in np.ndindex(*q.shape[:-1]):
        acc = None
        for j in range(q.shape[-1]):
            acc = q[i + (j,)] if j == 0 else f(acc, q[i + (j,)])
            o[i + (j,)] = acc
    return mk(np.moveaxis(o, -1, axis), a.vdt)


def f_reduceat(f, a, ix, axis=0):
    import functools
    ix = [int(i) for i in np.asarray(conc_key(ix)).reshape(-1)]
    q = np.moveaxis(a.plain(), axis, 0)
    if any(not 0 <= i < q.shape[0] for i in ix):
        raise IndexError('index out-of-bounds in reduceat')
    rows = []
    for k, i in enumerate(ix):
        e = ix[k + 1] if k + 1 < len(ix) else q.shape[0]
        sub = q[i:e] if e > i else q[i:i + 1]
        r = np.empty(q.shape[1:], dtype=object)
        for j in np.ndindex(*q.shape[1:]):
            r[j] = functools.reduce(f, [sub[(n,) + j] for n in range(sub.shape[0])])
        rows.append(r)
    o = np.empty((len(rows),) + q.shape[1:], dtype=object)
    for k, r in enumerate(rows):
        o[k] = r if r.ndim else r[()]
    return mk(np.moveaxis(o, 0, axis), a.vdt)


def f_average(a, axis=None, weights=None, returned=False, keepdims=False):
    if returned:
        raise Unsupported('average options')
    a = as_sarr(a)
    if weights is None:
        return a.mean(axis=axis)
    w = as_sarr(weights)
    if w.shape != a.shape:
        if axis is None or w.ndim != 1:
            raise Unsupported('average weights')
        sh = [1] * a.ndim
        sh[axis] = w.size
        w = w.reshape(sh)
    return (a * w).sum(axis=axis) / (w * np.ones(a.shape)).sum(axis=axis)


def f_einsum(spec, *ops, **k):
    spec = spec.replace(' ', '')
    if '...' in spec:
        raise Unsupported('einsum')
    ins, _, o = spec.partition('->')
    ins = ins.split(',')
    if '->' not in spec:
        o = ''.join(sorted(c for c in set(''.join(ins)) if ''.join(ins).count(c) == 1))
    ops = [as_sarr(x) for x in ops]
    dim = {}
    for t, x in zip(ins, ops):
        for c, n in zip(t, x.shape):
            dim[c] = max(n, dim.get(c, 1))
    rest = [c for c in dim if c not in o]
    out = np.empty(tuple(dim[c] for c in o), dtype=object)
    dt = np.result_type(*[x.vdt for x in ops])
    ps = [x.plain() for x in ops]
    for i in np.ndindex(*out.shape):
        v = dict(zip(o, i))
        acc = []
        for j in np.ndindex(*[dim[c] for c in rest]):
            v.update(zip(rest, j))
            acc.append(fold_mul([p[tuple(v[c] for c in t)] for p, t in zip(ps, ins)]))
        out[i] = fold_add(acc, dt)
    return mk(out, dt) if out.ndim else elem_out(out[()], dt)


def f_window(x, window_shape, axis=None, **k):
    s = as_sarr(x)
    return mk(np.lib.stride_tricks.sliding_window_view(s.plain(), window_shape, axis=axis).copy(), s.vdt)


def f_linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if retstep:
        raise Unsupported('linspace options')
    d = (num - 1) if endpoint else num
    v = [a + (b - a) * (i / d) if d else a * 1.0 for i in range(num)]
    if endpoint and num > 1:
        v[-1] = b * 1.0
    return mk_list(v, (num,), norm_dtype(dtype) or np.dtype('float64'))


def p_fromiter(it, dtype, count=-1, **k):
    v = list(it)
    if has_sym(v):
        return as_sarr(v).astype(norm_dtype(dtype))
    return np.fromiter(v, norm_dtype(dtype))


def f_argwhere(a):
    return np.argwhere(conc_bool(as_sarr(a)))


def f_count_nonzero(a, axis=None, **k):
    return np.count_nonzero(conc_bool(as_sarr(a)), axis=axis)


def f_digitize(x, bins, right=False):
    return f_searchsorted(bins, x, 'left' if right else 'right')


def f_isin(a, b, **k):
    bs = list(as_sarr(b).ravel().plain())
    return elementwise(lambda x: bor(*[x == y for y in bs]) if bs else False, [a], np.dtype(bool))


def f_cov_outer(a, b, **k):
    a, b = as_sarr(a).ravel(), as_sarr(b).ravel()
    return a.reshape(a.size, 1) * b.reshape(1, b.size)


def f_apply_along_axis(func1d, axis, arr, *args, **kw):
    s = as_sarr(arr)
    q = np.moveaxis(s.plain(), axis, -1)
    rs = {i: func1d(mk(q[i].copy(), s.vdt), *args, **kw) for i in np.ndindex(*q.shape[:-1])}
    first = rs[next(iter(rs))]
    sub = first.shape if isinstance(first, _ND) else ()
    o = np.empty(q.shape[:-1] + sub, dtype=object)
    for i, r in rs.items():
        if sub:
            o[i] = unwrap(r)
        else:
            o[i] = r
    dt = vdtype(first) if sub else elem_kind(first)
    return mk(np.moveaxis(o, -1, axis) if sub else o, dt) if o.ndim else o[()]


def f_copyto(dst, src, where=True, **k):
    if not isinstance(dst, SArr):
        raise Unsupported('symbolic values written into a concrete array')
    if where is True:
        dst[...] = src
    else:
        w = conc_bool(where) if isinstance(where, SArr) else where
        dst[w] = np.broadcast_to(unwrap(src), dst.shape)[w] if isinstance(src, _ND) else src


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return abs(as_sarr(a) - b) <= atol + rtol * abs(as_sarr(b))


def f_full_like(a, v, dtype=None, **k):
    a = as_sarr(a)
    r = np.empty(a.shape, dtype=object)
    dt = norm_dtype(dtype) or a.vdt
    for i in np.ndindex(*a.shape):
        r[i] = cast_element(v, dt)
    return mk(r, dt)


def f_searchsorted(a, v, side='left', sorter=None):
    a = as_sarr(a)

    def one(x):
        n = 0
        for y in a.plain():
            if bool(y < x) or (side == 'right' and bool(y == x)):
                n += 1
            else:
                break
        return n
    if isinstance(v, (_ND, list, tuple)):
        return np.array([one(x) for x in as_sarr(v).plain()], dtype=np.int64)
    return np.int64(one(v))


def f_convolve(a, v, mode='full'):
    a, v = as_sarr(a), as_sarr(v)
    n, m = a.size, v.size
    if n < m:
        a, v, n, m = v, a, m, n
    pa, pv = list(a.plain()), list(v.plain())
    dt = np.result_type(a.vdt, v.vdt)
    full = [fold_add([pa[j] * pv[i - j] for j in range(max(0, i - m + 1), min(n, i + 1))], dt) for i in range(n + m - 1)]
    if mode == 'same':
        k = (m - 1) // 2
        full = full[k:k + n]
    elif mode == 'valid':
        full = full[m - 1:n]
    return mk_list(full, (len(full),), dt)


def f_correlate(a, v, mode='valid'):
    if as_sarr(a).size < as_sarr(v).size:
        raise Unsupported('correlate with a longer kernel')
    return f_convolve(a, as_sarr(v)[::-1], mode)


def f_roll(a, shift, axis=None):
    s = as_sarr(a)
    return mk(np.roll(s.plain(), conc_key(shift), axis=axis), s.vdt)


def f_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    s = as_sarr(a)
    if axis is not None and s.ndim > 1:
        raise Unsupported('unique options')
    p = list(s.ravel().plain())
    out, first, inv, cnt = [], [], [0] * len(p), []
    for i in sorted_indices(p):
        if not out or bool(out[-1] != p[i]):
            out.append(p[i])
            first.append(i)
            cnt.append(0)
        first[-1] = min(first[-1], i)
        cnt[-1] += 1
        inv[i] = len(out) - 1
    r = [mk_list(out, (len(out),), s.vdt)]
    if return_index:
        r.append(np.array(first, dtype=np.int64))
    if return_inverse:
        r.append(np.array(inv, dtype=np.int64).reshape(s.shape))
    if return_counts:
        r.append(np.array(cnt, dtype=np.int64))
    return r[0] if len(r) == 1 else tuple(r)


def f_nan(name):
    return meth(name)


FUNCS = {
    'median': f_median, 'nanmedian': f_median, 'percentile': f_percentile, 'interp': f_interp, 'diff': f_diff,
    'quantile': lambda a, q, **k: f_percentile(a, np.asarray(q) * 100.0, **k),
    'where': f_where, 'polyfit': f_polyfit, 'polyval': f_polyval, 'sort': f_sort, 'argsort': meth('argsort'),
    'argmax': meth('argmax'), 'argmin': meth('argmin'), 'sum': meth('sum'), 'mean': meth('mean'), 'var': meth('var'),
    'std': meth('std'), 'max': meth('max'), 'amax': meth('max'), 'min': meth('min'), 'amin': meth('min'), 'ptp': meth('ptp'),
    'any': meth('any'), 'all': meth('all'), 'cumsum': meth('cumsum'), 'prod': meth('prod'), 'clip': meth('clip'),
    'nonzero': meth('nonzero'), 'flatnonzero': lambda a: np.flatnonzero(conc_bool(as_sarr(a))),
    'dot': dot, 'matmul': dot, 'round': meth('round'), 'around': meth('round'), 'copy': meth('copy'),
    'isclose': f_isclose, 'searchsorted': f_searchsorted, 'full_like': f_full_like,
    'zeros_like': lambda a, dtype=None, **k: f_full_like(a, 0, dtype), 'empty_like': lambda a, dtype=None, **k: f_full_like(a, 0, dtype),
    'ones_like': lambda a, dtype=None, **k: f_full_like(a, 1, dtype),
    'allclose': lambda a, b, **k: bool(f_isclose(a, b, **k).all()), 'array_equal': lambda a, b, **k: bool((as_sarr(a) == b).all()),
    'roll': f_roll, 'unique': f_unique, 'take': meth('take'), 'convolve': f_convolve,
    'shape': lambda a: a.shape, 'ndim': lambda a: a.ndim, 'size': lambda a, axis=None: a.size if axis is None else a.shape[axis],
    'iscomplexobj': lambda a: False, 'isrealobj': lambda a: True, 'result_type': lambda *a: np.result_type(*[vdtype(x) if isinstance(x, _ND) else x for x in a]),
}
FUNCS.update({
    'average': f_average, 'einsum': f_einsum, 'linspace': f_linspace, 'argwhere': f_argwhere, 'count_nonzero': f_count_nonzero,
    'digitize': f_digitize, 'isin': f_isin, 'outer': f_cov_outer, 'inner': dot, 'vdot': lambda a, b: dot(as_sarr(a).ravel(), as_sarr(b).ravel()),
    'apply_along_axis': f_apply_along_axis, 'copyto': f_copyto, 'correlate': f_correlate, 'sliding_window_view': f_window,
    'cumulative_sum': meth('cumsum'), 'cumprod': lambda a, axis=None, **k: f_accumulate(lambda x, y: x * y, as_sarr(a).ravel() if axis is None else as_sarr(a), axis or 0),
    'nansum': meth('sum'), 'nanmean': meth('mean'), 'nanmax': meth('max'), 'nanmin': meth('min'), 'nanstd': meth('std'), 'nanvar': meth('var'),
    'nanargmax': meth('argmax'), 'nanargmin': meth('argmin'), 'nanpercentile': f_percentile,
    'nan_to_num': lambda a, **k: as_sarr(a).copy(), 'ediff1d': lambda a, **k: f_diff(as_sarr(a).ravel()),
    'extract': lambda c, a: as_sarr(a).ravel()[np.ravel(c)], 'compress': lambda c, a, axis=None, **k: as_sarr(a)[np.asarray(conc_key(c), dtype=bool)],
    'partition': lambda a, kth, axis=-1, **k: f_sort(a, axis), 'argpartition': lambda a, kth, axis=-1, **k: as_sarr(a).argsort(axis),
    'lexsort': lambda keys, axis=-1: _lexsort(keys), 'sort_complex': f_sort, 'real': lambda a: as_sarr(a), 'trapezoid': lambda y, x=None, dx=1.0, **k: (
        (as_sarr(y)[1:] + as_sarr(y)[:-1]) * (dx if x is None else np.diff(x)) / 2.0).sum(),
    'gradient_': None, 'linalg.norm': None,
})
FUNCS = {k: v for k, v in FUNCS.items() if v is not None}


def _lexsort(keys):
    keys = [list(as_sarr(k).plain()) for k in keys][::-1]
    ix = list(range(len(keys[0])))
    for k in keys[::-1]:
        o = sorted_indices([k[i] for i in ix])
        ix = [ix[j] for j in o]
    return np.array(ix, dtype=np.int64)


def f_norm(x, ord=None, axis=None, keepdims=False):
    a = as_sarr(x)
    if axis is None and a.ndim > 1 and ord is not None or keepdims:
        raise Unsupported('matrix norm')
    b = a.ravel() if axis is None else a
    ax = 0 if axis is None else axis
    if ord in (None, 2):
        q = (b * b).sum(axis=ax)
        return np.sqrt(q) if isinstance(q, SArr) else py_sqrt(q)
    if ord == 1:
        return abs(b).sum(axis=ax)
    if ord == np.inf:
        return abs(b).max(axis=ax)
    raise Unsupported('norm of order %r' % ord)


def f_bincount(x, weights=None, minlength=0):
    ix = [int(v) for v in (x.plain() if isinstance(x, SArr) else np.asarray(x).tolist())]
    if any(i < 0 for i in ix):
        raise ValueError("'list' argument must have no negative elements")
    if weights is None:
        return np.bincount(np.array(ix, dtype=np.int64), minlength=int(minlength))
    w = list(as_sarr(weights).plain())
    out = [0.0] * max(int(minlength), max(ix, default=-1) + 1)
    for i, v in zip(ix, w):
        out[i] = out[i] + v
    return mk_list(out, (len(out),), np.dtype('float64'))


def f_lstsq(a, b, rcond=None):
    if has_sym(a):
        a = as_sarr(a)
        if any(is_sym(v) for v in a.plain()):
            raise Unsupported('lstsq with a symbolic matrix')
        a = np.array([float(v) for v in a.plain()]).reshape(a.shape)
    b = as_sarr(b)
    if b.ndim != 1:
        raise Unsupported('lstsq of several vectors')
    M, res, rank, sv = np.linalg.lstsq(a, np.eye(len(a)), rcond=rcond)
    pb = b.plain()
    c = mk_list([fold_add([float(m) * v for m, v in zip(row, pb)], np.dtype(float)) for row in M], (M.shape[0],), np.dtype('float64'))
    return c, res[:0], rank, sv


def f_insert(arr, obj, values, axis=None):
    a = as_sarr(arr)
    if axis is not None and a.ndim > 1:
        raise Unsupported('insert in a matrix')
    v = list(a.ravel().plain())
    ix = [int(i) for i in np.ravel(conc_key(obj))]
    vals = list(np.ravel(as_sarr(values)).plain()) if isinstance(values, (list, tuple, _ND)) or is_sym(values) is False and np.ndim(values) else [values]
    n = len(v)
    if len(ix) == 1:
        i = ix[0] + (n if ix[0] < 0 else 0)
        v[i:i] = vals
    else:
        vals = vals * len(ix) if len(vals) == 1 else vals
        for k, (i, x) in enumerate(sorted(zip([i + (n if i < 0 else 0) for i in ix], vals), key=lambda t: t[0])):
            v.insert(i + k, x)
    return mk_list([cast_element(x, vdtype(a)) for x in v], (len(v),), vdtype(a))


def f_select(conds, choices, default=0):
    r = default
    for c, x in list(zip(conds, choices))[::-1]:
        r = np.where(c, x, r) if isinstance(c, SArr) or has_sym(x) or has_sym(r) else np.where(np.asarray(c), x, r)
    return r


def f_take_along(arr, indices, axis=-1):
    a = as_sarr(arr)
    ix = np.asarray(conc_key(indices))
    o = np.take_along_axis(np.arange(a.size).reshape(a.shape), ix, axis)
    v = a.ravel().plain()
    return mk_list([v[int(i)] for i in o.ravel()], o.shape, vdtype(a))


def f_tensordot(a, b, axes=2):
    if axes == 1:
        return dot(a, b)
    if axes == 0:
        return f_cov_outer(a, b)
    raise Unsupported('tensordot')


FUNCS.update({'norm': f_norm, 'bincount': f_bincount, 'lstsq': f_lstsq, 'insert': f_insert, 'select': f_select, 'take_along_axis': f_take_along,
              'tensordot': f_tensordot, 'array_equiv': lambda a, b: bool((as_sarr(a) == b).all()), 'trace': lambda a, *k, **kw: np.diagonal(a, *k, **kw).sum(),
              'choose': lambda a, choices, **k: f_select([as_sarr(a) == i for i in range(len(choices))], choices)})
for _n in ('concatenate', 'hstack', 'vstack', 'stack', 'column_stack', 'dstack'):
    FUNCS[_n] = f_cat(_n)
for _n in ('reshape', 'ravel', 'transpose', 'squeeze', 'expand_dims', 'moveaxis', 'swapaxes', 'repeat', 'tile', 'flip', 'fliplr',
           'flipud', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'split', 'array_split', 'hsplit', 'vsplit', 'rot90', 'tril', 'triu', 'trim_zeros_', 'delete', 'broadcast_to', 'rollaxis', 'resize', 'pad',
           'append_', 'diagonal'):
    FUNCS[_n] = f_struct(_n)
FUNCS['append'] = lambda a, v, axis=None: f_cat('concatenate')([np.ravel(a), np.ravel(as_sarr(v))] if axis is None else [a, v], **({} if axis is None else {'axis': axis}))


def func_impl(func, args, kw):
    f = FUNCS.get(func.__name__)
    if f is None:
        raise Unsupported('numpy.%s of a symbolic array' % func.__name__)
    return f(*args, **kw)


# ------------------------------------------------------------ numpy module proxy
def p_fromfile(file, dtype=float, count=-1, sep='', offset=0, **k):
    dt = norm_dtype(dtype)
    base = offset + (file.tell() if hasattr(file, 'tell') else 0)
    name = file.name if hasattr(file, 'name') else os.fspath(file)
    a = np.fromfile(file, dtype=dt, count=count, sep=sep, offset=offset, **k)
    ctx = core.CTX
    table = ctx.data_files.get(os.path.realpath(name)) if ctx is not None else None
    if not table:
        return a
    out = []
    for i, v in enumerate(a.tolist()):
        e = table.get(base + i * dt.itemsize)
        if e is not None and e[0] == dt:
            v = e[1]
        elif e is not None and e[0].itemsize == dt.itemsize == 1 and dt.kind in 'iu':
            v = ite(e[1] > 127, e[1] - 256, e[1]) if dt.kind == 'i' else ite(e[1] < 0, e[1] + 256, e[1])
        out.append(v)
    return mk_list(out, a.shape, dt) if any(is_sym(v) for v in out) else a


class SymBuffer:
    """memory of a symbolic array, passed through base64 as a token"""
    def __init__(self, items, dt):
        self.items, self.dt = items, dt

    def encode_token(self):
        ctx = core.cur()
        if not hasattr(ctx, 'buffers'):
            ctx.buffers = []
        ctx.buffers.append(self)
        return b'@B%d@' % (len(ctx.buffers) - 1)

    @staticmethod
    def decode_token(b):
        if not (b.startswith(b'@B') and b.endswith(b'@')):
            return None
        return core.cur().buffers[int(b[2:-1])]

    def __bytes__(self):
        return self

    def tobytes(self):
        return self


def p_frombuffer(buf, dtype=float, count=-1, offset=0, **k):
    dt = norm_dtype(dtype)
    if isinstance(buf, SymBuffer):
        n = len(buf.items) * buf.dt.itemsize
        if count != -1 or offset:
            raise Unsupported('part of a symbolic buffer')
        if n % dt.itemsize:
            raise ValueError('buffer size must be a multiple of element size')
        if buf.dt != dt:
            ctx = core.cur()   # bits read as another type: any value
            new = ctx.real if dt.kind == 'f' else (lambda s: ctx.int(s, -2 ** 31, 2 ** 31 - 1))
            r = mk_list([new('reread%d' % i) for i in range(n // dt.itemsize)], (n // dt.itemsize,), dt)
        else:
            r = mk_list(buf.items, (len(buf.items),), dt)
        r.flags.writeable = False   # as with bytes
        return r
    return np.frombuffer(buf, dtype=dt, count=count, offset=offset, **k)


def p_asarray(a, dtype=None, order=None, **k):
    dt = norm_dtype(dtype)
    if has_sym(a):
        s = as_sarr(a)
        return s if dt is None or dt == s.vdt else s.astype(dt)
    return np.asarray(a, dtype=dt, order=order)


def p_array(a, dtype=None, copy=True, order='K', **k):
    dt = norm_dtype(dtype)
    if has_sym(a):
        s = as_sarr(a)
        return s.astype(dt if dt is not None else s.vdt)
    return np.array(a, dtype=dt, copy=copy, order=order, **k)


def p_ascontiguousarray(a, dtype=None):
    if has_sym(a):
        s = p_asarray(a, dtype)
        if s.flags.c_contiguous and s.ndim > 0:
            return s
        return mk(np.ascontiguousarray(s.plain()), s.vdt)
    return np.ascontiguousarray(a, dtype=norm_dtype(dtype))


def p_arange(*a, dtype=None, **k):
    if any(isinstance(x, Sym) for x in a):
        if all(not isinstance(x, Sym) or x.isint for x in a):
            a = tuple(x.__index__() if isinstance(x, Sym) else x for x in a)
        else:
            raise Unsupported('arange with symbolic reals')
    return np.arange(*a, dtype=norm_dtype(dtype), **k)


def p_full(shape, fill_value, dtype=None, **k):
    if is_sym(fill_value):
        n = int(np.prod(shape))
        return mk_list([fill_value] * n, shape, norm_dtype(dtype) or elem_kind(fill_value))
    return np.full(conc_key(shape), fill_value, dtype=norm_dtype(dtype), **k)


def p_zeros(name):
    fn = getattr(np, name)

    def f(shape, dtype=float, **k):
        shape = conc_key(shape)
        dt = norm_dtype(dtype)
        # writable symbolic storage
        if dt.kind in 'fiub':
            v = {'zeros': 0, 'ones': 1, 'empty': 0}[name]
            r = np.empty(shape, dtype=object)
            for i in np.ndindex(*r.shape):
                r[i] = cast_element(v, dt)
            return mk(r, dt)
        return fn(shape, dtype=dt, **k)
    return f


def p_poly1d(c, *a, **k):
    if has_sym(c):
        return SPoly(c)
    return np.poly1d(c, *a, **k)


def own(r):
    """an array which is nobody else's"""
    return r.copy() if isinstance(r, np.ndarray) and r.base is not None else r


def p_conc1(name):
    fn = getattr(np, name)

    def f(*a, **k):
        if any(has_sym(x) for x in a):
            if any(isinstance(x, SArr) for x in a):
                return func_impl(fn, a, k)
            g = FUNCS.get(name)
            if g is not None:
                return g(*a, **k)
            raise Unsupported('numpy.%s' % name)
        if 'dtype' in k:
            k['dtype'] = norm_dtype(k['dtype'])
        return fn(*a, **k)
    f.__name__ = name
    return f


class ScalarMeta(type):
    """the NumPy scalar types, which also convert symbolic values"""
    def __call__(cls, *a, **k):
        base = cls.__mro__[1]
        if len(a) == 1 and not k and has_sym(a[0]):
            return cast_element(a[0], np.dtype(base)) if is_sym(a[0]) else p_asarray(a[0], base)
        return base(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, cls.__mro__[1])

    def __subclasscheck__(cls, x):
        return issubclass(x, cls.__mro__[1])

    def __eq__(cls, o):
        return o is cls or o is cls.__mro__[1]

    def __hash__(cls):
        return hash(cls.__mro__[1])


SCALARS = {}
for _n in ('float64', 'float32', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64'):
    SCALARS[_n] = ScalarMeta(_n, (getattr(np, _n),), {'__module__': 'numpy'})
SCALARS.update(double=SCALARS['float64'], single=SCALARS['float32'], intp=SCALARS['int64'], int_=SCALARS['int64'])


_linspace = p_conc1('linspace')


class NumpyProxy(types.ModuleType):
    def __init__(self, hooks=None):
        types.ModuleType.__init__(self, 'numpy')
        d = self.__dict__
        d.update(asarray=p_asarray, array=p_array, ascontiguousarray=p_ascontiguousarray, arange=p_arange,
                 asanyarray=p_asarray, full=p_full, fromiter=p_fromiter, linspace=lambda *a, **k: own(_linspace(*a, **k)), zeros=p_zeros('zeros'), ones=p_ones_, empty=p_zeros('empty'),
                 poly1d=p_poly1d, fromfile=p_fromfile, frombuffer=p_frombuffer, asfortranarray=lambda a, dtype=None: mk(np.asfortranarray(as_sarr(a).plain()), as_sarr(a).vdt)
                 if has_sym(a) else np.asfortranarray(a))
        d.update(SCALARS)
        for n in FUNCS:
            if n not in d and hasattr(np, n):
                d[n] = p_conc1(n)
        if hooks:
            d.update(hooks)

    def __getattr__(self, name):
        return getattr(np, name)


p_ones_ = p_zeros('ones')
