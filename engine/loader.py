"""Loads riptide's Python modules from /repo's current sources for symbolic
execution: the same source text, compiled by the ordinary compiler (a[k] being
evaluated by a function, so that k may be a symbolic mask), with the builtins
and the numpy / math modules replaced by versions which also accept
symbolic values."""
import ast
import base64
import builtins
import fractions
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import io
import json
import math
import os
import random
import struct
import sys
import types

import numpy as np

from . import core, nps
from .core import Sym, SymBool, Unsupported

REPO = os.environ.get('VP_REPO', '/repo')


# ------------------------------------------------------------ builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, Sym) and not x.isint)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)

    def __getattr__(cls, n):
        return getattr(builtins.float, n)

    def __repr__(cls):
        return "<class 'float'>"


class FloatShim(metaclass=_FloatMeta):
    vp_dtype = 'float64'
    dtype = np.dtype('float64')

    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return core.to_real(x)
        if isinstance(x, SymBool):
            return core.to_real(x.as_int())
        if isinstance(x, nps.SArr):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            return cls(x.plain().reshape(-1)[0])
        if isinstance(x, str) and '@S' in x and core.CTX is not None:
            v = core.CTX.untoken(x)
            if v is not None:
                return core.to_real(v)
        return builtins.float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, Sym) and x.isint)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)

    def __getattr__(cls, n):
        return getattr(builtins.int, n)

    def __repr__(cls):
        return "<class 'int'>"


class IntShim(metaclass=_IntMeta):
    vp_dtype = 'int64'
    dtype = np.dtype('int64')

    def __new__(cls, x=0, *a):
        if isinstance(x, Sym):
            return core.trunc(x)
        if isinstance(x, SymBool):
            return x.as_int()
        if isinstance(x, nps.SArr):
            return cls(x.plain().reshape(-1)[0])
        if isinstance(x, str) and '@S' in x and core.CTX is not None:
            v = core.CTX.untoken(x)
            if v is not None:
                if not v.isint:
                    raise ValueError('invalid literal for int()')
                return v
        return builtins.int(x, *a)


FloatShim.__name__ = FloatShim.__qualname__ = 'float'
IntShim.__name__ = IntShim.__qualname__ = 'int'


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.bool, SymBool))

    def __eq__(cls, o):
        return o is cls or o is builtins.bool

    def __hash__(cls):
        return hash(builtins.bool)


class BoolShim(metaclass=_BoolMeta):
    vp_dtype = 'bool'
    dtype = np.dtype(bool)

    def __new__(cls, x=False):
        return builtins.bool(x)


BoolShim.__name__ = BoolShim.__qualname__ = 'bool'


def _mm(name, fn):
    native = getattr(builtins, name)

    def f(*a, **k):
        if not k:
            items = list(a[0]) if len(a) == 1 else list(a)
            if any(isinstance(x, (Sym, SymBool)) for x in items):
                r = items[0]
                for x in items[1:]:
                    r = fn(r, x)
                return r
            if items:
                return native(items)
        return native(*a, **k)
    f.__name__ = name
    return f


sh_min = _mm('min', core.minimum)
sh_max = _mm('max', core.maximum)


def sh_round(x, nd=None):
    if isinstance(x, Sym):
        return x.__round__(nd)
    if isinstance(x, nps.SArr) and nd is None and x.size == 1:
        return core.roundhalfeven(x.plain().reshape(-1)[0])
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


class SymType:
    pass


def sh_type(*a):
    if len(a) == 1:
        if isinstance(a[0], Sym):
            return IntShim if a[0].isint else FloatShim
        if isinstance(a[0], SymBool):
            return BoolShim
    return builtins.type(*a)


class VFS:
    """virtual files, consulted before the real file system"""
    files = {}

    @classmethod
    def get(cls, p):
        try:
            p = os.fspath(p)
        except TypeError:
            return None
        return cls.files.get(os.path.realpath(p)) if p and isinstance(p, str) else None


def sh_open(f, mode='r', *a, **k):
    v = VFS.get(f) if not isinstance(f, builtins.int) else None
    if v is not None:
        return v(mode)
    return builtins.open(f, mode, *a, **k)


# ------------------------------------------------------------ math
class MathProxy(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'math')
        d = self.__dict__
        d['floor'] = lambda x: core.floor(x) if isinstance(x, Sym) else math.floor(x)
        d['ceil'] = lambda x: -core.floor(-x) if isinstance(x, Sym) else math.ceil(x)
        d['trunc'] = lambda x: core.trunc(x) if isinstance(x, Sym) else math.trunc(x)
        d['sqrt'] = core.sqrt
        d['fabs'] = lambda x: abs(core.to_real(x)) if isinstance(x, Sym) else math.fabs(x)
        d['isnan'] = lambda x: False if isinstance(x, Sym) else math.isnan(x)
        d['isinf'] = lambda x: False if isinstance(x, Sym) else math.isinf(x)
        d['isfinite'] = lambda x: True if isinstance(x, Sym) else math.isfinite(x)
        for n in ('log', 'exp', 'sin', 'cos', 'log10', 'log2'):
            d[n] = self._one(n)
        d['fsum'] = lambda it: sum(it)
        d['pow'] = lambda a, b: a ** b if isinstance(a, Sym) or isinstance(b, Sym) else math.pow(a, b)
        d['hypot'] = lambda *a: core.sqrt(sum(x * x for x in a)) if any(isinstance(x, Sym) for x in a) else math.hypot(*a)
        d['prod'] = self._prod
        d['sumprod'] = lambda p, q: sum(x * y for x, y in zip(p, q))
        d['copysign'] = lambda a, b: nps._copysign(a, b) if isinstance(a, Sym) or isinstance(b, Sym) else math.copysign(a, b)
        d['fmod'] = lambda a, b: nps._fmod(a, b) if isinstance(a, Sym) or isinstance(b, Sym) else math.fmod(a, b)
        d['radians'] = lambda x: x * (math.pi / 180.0) if isinstance(x, Sym) else math.radians(x)
        d['degrees'] = lambda x: x * (180.0 / math.pi) if isinstance(x, Sym) else math.degrees(x)
        d['isclose'] = self._isclose
        d['log1p'] = lambda x: (1.0 + x).log() if isinstance(x, Sym) else math.log1p(x)
        d['expm1'] = lambda x: x.exp() - 1.0 if isinstance(x, Sym) else math.expm1(x)

    @staticmethod
    def _prod(it, start=1):
        for x in it:
            start = start * x
        return start

    @staticmethod
    def _isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if isinstance(a, Sym) or isinstance(b, Sym):
            return abs(a - b) <= core.maximum(core.maximum(abs(a), abs(b)) * rel_tol, abs_tol)
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    @staticmethod
    def _one(n):
        def f(x, *a):
            if isinstance(x, Sym):
                if a:
                    return x.log() / math.log(a[0])
                return getattr(x, n)()
            return getattr(math, n)(x, *a)
        return f

    def __getattr__(self, n):
        return getattr(math, n)


def _native(x):
    """shim types -> the builtins they stand for"""
    return {FloatShim: builtins.float, IntShim: builtins.int, BoolShim: builtins.bool}.get(x, x) if isinstance(x, type) else x


class ModuleProxy(types.ModuleType):
    def __init__(self, module, **d):
        types.ModuleType.__init__(self, module.__name__)
        self.__dict__['_vp_module'] = module
        self.__dict__.update(d)

    def __getattr__(self, n):
        return getattr(self.__dict__['_vp_module'], n)


# ------------------------------------------------------------ struct
def struct_proxy():
    def fix(fmt, t):
        if core.CTX is None:
            return t
        t = tuple(core.CTX.unpacked(v) for v in t)
        if any(c in str(fmt) for c in 'IL'):
            t = tuple(core.ite(v < 0, v + 2 ** 32, v) if isinstance(v, Sym) and v.isint else v for v in t)
        return t

    class Struct(struct.Struct):
        def unpack(self, *a):
            return fix(self.format, struct.Struct.unpack(self, *a))

        def unpack_from(self, *a, **k):
            return fix(self.format, struct.Struct.unpack_from(self, *a, **k))
    return ModuleProxy(struct, unpack=lambda *a: fix(a[0], struct.unpack(*a)),
                       unpack_from=lambda *a, **k: fix(a[0], struct.unpack_from(*a, **k)), Struct=Struct)


# ------------------------------------------------------------ sky coordinates
class SymAngle:
    """angle in degrees"""

    def __init__(self, deg):
        self.deg = self.degree = self.value = deg

    @property
    def hour(self):
        return self.deg / 15.0

    @property
    def rad(self):
        return self.deg * (math.pi / 180.0)
    radian = rad

    def to_value(self, unit):
        import astropy.units as u
        return self.deg * float((1.0 * u.deg).to_value(unit))


class SymSky:
    """coordinates of a symbolic position, only ever converted to degrees"""

    def __init__(self, ra, dec, frame):
        self.ra, self.dec, self.frame_name = SymAngle(ra), SymAngle(dec), frame

    @property
    def icrs(self):
        if self.frame_name == 'icrs':
            return self
        c = core.cur()   # another frame: the conversion is not followed
        return SymSky(c.real('ra', 0, 360), c.real('dec', -90, 90), 'icrs')

    @property
    def galactic(self):
        raise Unsupported('conversion of a symbolic position')

    def __deepcopy__(self, memo):
        return self


def _sky_class():
    from astropy.coordinates import SkyCoord
    import astropy.units as u

    def degrees(x, unit):
        if isinstance(x, core.SymQuantity):
            x, unit = x.value, x.unit
        elif isinstance(x, u.Quantity):
            x, unit = x.value, x.unit
        if unit is None:
            raise ValueError('no unit was specified')
        unit = u.Unit(unit)
        if unit == u.hour:
            unit = u.hourangle
        k = float((1.0 * unit).to_value(u.deg))
        return x * k

    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, (SkyCoord, SymSky))

        def __getattr__(cls, n):
            return getattr(SkyCoord, n)

    class SkyShim(metaclass=Meta):
        def __new__(cls, *a, **k):
            v = list(a) + list(k.values())
            if any(isinstance(x, (Sym, core.SymQuantity)) for x in v):
                ra = k.get('ra', a[0] if a else None)
                dec = k.get('dec', a[-1] if a else None)
                unit = k.get('unit', (None, None))
                if isinstance(unit, str):
                    unit = [w.strip() for w in unit.split(',')]
                if not isinstance(unit, (tuple, list)):
                    unit = (unit, unit)
                if len(unit) == 1:
                    unit = (unit[0], unit[0])
                fr = k.get('frame', 'icrs')
                return SymSky(degrees(ra, unit[0]), degrees(dec, unit[1]), fr if isinstance(fr, str) else fr.name)
            return SkyCoord(*a, **k)
    SkyShim.__name__ = 'SkyCoord'
    return SkyShim


def coordinates_proxy():
    import astropy.coordinates
    return ModuleProxy(astropy.coordinates, SkyCoord=_sky_class())


# ------------------------------------------------------------ fractions
class SymFraction:
    """Fraction(x) of a symbolic number, waiting for its limit_denominator()"""

    def __init__(self, x):
        self.x = x

    def limit_denominator(self, n=1000000):
        n = builtins.int(n)
        if n < 1:
            raise ValueError('max_denominator should be at least 1')
        x = self.x
        k = core.floor(x).__index__() if isinstance(core.floor(x), Sym) else core.floor(x)
        # Farey sequence between k and k + 1
        F = sorted({fractions.Fraction(p, q) for q in range(1, n + 1) for p in range(q + 1)})
        lo, hi = 0, len(F) - 1
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if builtins.bool(x - k >= F[mid]):
                lo = mid
            else:
                hi = mid
        a, b = F[lo] + k, F[hi] + k
        m = (a + b) / 2
        if builtins.bool(x == m):
            return a if a.denominator <= b.denominator else b
        return a if builtins.bool(x < m) else b


class _FractionMeta(type(fractions.Fraction)):
    def __instancecheck__(cls, x):
        return isinstance(x, fractions.Fraction)

    def __getattr__(cls, n):
        return getattr(fractions.Fraction, n)


class FractionShim(metaclass=_FractionMeta):
    def __new__(cls, *a, **k):
        if len(a) == 1 and isinstance(a[0], Sym):
            return SymFraction(a[0])
        if any(isinstance(x, Sym) for x in a):
            raise Unsupported('Fraction of two symbolic numbers')
        return fractions.Fraction(*a, **k)


# ------------------------------------------------------------ json, base64
class SymJSONEncoder(json.JSONEncoder):
    def default(self, o):
        if isinstance(o, Sym):
            return {'@S': core.CTX.token(o)}
        return json.JSONEncoder.default(self, o)


def json_loads(s, *a, **k):
    hook = k.pop('object_hook', None)

    def h(d):
        if set(d) == {'@S'}:
            return core.CTX.untoken(d['@S'])
        return hook(d) if hook is not None else d
    return json.loads(s, *a, object_hook=h, **k)


def json_dumps(o, *a, **k):
    k.setdefault('cls', SymJSONEncoder)
    return json.dumps(o, *a, **k)


def json_proxy():
    return ModuleProxy(json, JSONEncoder=SymJSONEncoder, loads=json_loads, dumps=json_dumps,
                       load=lambda f, **k: json_loads(f.read(), **k),
                       dump=lambda o, f, **k: f.write(json_dumps(o, **k)) and None)


def base64_proxy():
    def enc(b, *a):
        if isinstance(b, nps.SymBuffer):
            return b.encode_token()
        return base64.b64encode(b, *a)

    def dec(b, *a, **k):
        t = b if isinstance(b, (bytes, bytearray)) else b.encode()
        r = nps.SymBuffer.decode_token(bytes(t))
        return r if r is not None else base64.b64decode(b, *a, **k)
    return ModuleProxy(base64, b64encode=enc, b64decode=dec, standard_b64encode=enc, standard_b64decode=dec)


MODULES = {}


def proxy_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split('.')[0]
        p = MODULES.get(name)
        if p is not None:
            return p
        if top in MODULES and not fromlist:
            builtins.__import__(name)
            return MODULES[top]
    return builtins.__import__(name, globals, locals, fromlist, level)


def build_builtins():
    d = dict(vars(builtins))
    d.update(float=FloatShim, int=IntShim, bool=BoolShim, min=sh_min, max=sh_max, round=sh_round, open=sh_open,
             __import__=proxy_import, __symx_getitem__=getitem)
    return d


class Subscripts(ast.NodeTransformer):
    """a[k] is evaluated by getitem(a, k), so that real arrays can be indexed with
    symbolic masks and indices"""

    def visit_Subscript(self, n):
        self.generic_visit(n)
        k = n.slice
        if not isinstance(n.ctx, ast.Load) or isinstance(k, (ast.Constant, ast.Slice)):
            return n
        if any(isinstance(x, (ast.Slice, ast.Starred)) for x in getattr(k, 'elts', [])):
            return n
        c = ast.Call(ast.Name('__symx_getitem__', ast.Load()), [n.value, k], [])
        return ast.fix_missing_locations(ast.copy_location(c, n))


def getitem(a, k):
    if type(a) is np.ndarray and isinstance(k, (nps.SArr, tuple)):
        return a[nps.conc_key(k)]
    return a[k]


class Loader(importlib.machinery.SourceFileLoader):
    BUILTINS = None

    CODE = {}

    def exec_module(self, module):
        module.__dict__['__builtins__'] = Loader.BUILTINS
        code = Loader.CODE.get(self.path)
        if code is None:
            tree = Subscripts().visit(ast.parse(self.get_data(self.path), self.path))
            code = Loader.CODE[self.path] = compile(tree, self.path, 'exec', dont_inherit=True)
        exec(code, module.__dict__)


class PlainLoader(importlib.machinery.SourceFileLoader):
    def exec_module(self, module):
        code = compile(self.get_data(self.path), self.path, 'exec', dont_inherit=True)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """finds riptide's sources under REPO, whatever else is installed"""

    def __init__(self, loader):
        self.loader = loader

    def find_spec(self, name, path=None, target=None):
        if name != 'riptide' and not name.startswith('riptide.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        init = os.path.join(base, '__init__.py')
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(name, init, loader=self.loader(name, init),
                                                          submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(name, base + '.py', loader=self.loader(name, base + '.py'))
        return None


def stub_version():
    m = types.ModuleType('riptide._version')
    m.version = m.__version__ = '0.2.5'
    m.version_tuple = m.__version_tuple__ = (0, 2, 5)
    sys.modules['riptide._version'] = m


class R:
    """the implementation as harnesses see it"""

    def __init__(self, libcpp, engine):
        self.libcpp = libcpp
        self.engine = engine
        self.vfs = VFS.files

    def restart(self):
        """the package as a new process sees it: module state of earlier paths is gone"""
        for m in [m for m in sys.modules if m.startswith('riptide') and (m + '.').startswith('riptide.') and
                  m not in ('riptide.libcpp', 'riptide._version')]:
            del sys.modules[m]
        VFS.files.clear()
        self.libcpp._ex.reset_all()
        importlib.import_module('riptide').libcpp = self.libcpp

    def mod(self, name):
        return importlib.import_module(name)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(importlib.import_module('riptide'), name)


def load_symbolic(ex, hooks=None):
    """install the symbolic riptide package in this process"""
    from .cppsym import LibCpp
    sys.dont_write_bytecode = True
    os.environ.setdefault('MPLBACKEND', 'Agg')
    MODULES['numpy'] = nps.NumpyProxy()
    MODULES['math'] = MathProxy()
    MODULES['struct'] = struct_proxy()
    MODULES['astropy.coordinates'] = coordinates_proxy()
    MODULES['json'] = json_proxy()
    MODULES['base64'] = base64_proxy()
    MODULES['fractions'] = ModuleProxy(fractions, Fraction=FractionShim)
    Loader.BUILTINS = build_builtins()
    sys.meta_path.insert(0, Finder(Loader))
    stub_version()
    lc = LibCpp(ex)
    sys.modules['riptide.libcpp'] = lc
    riptide = importlib.import_module('riptide')
    riptide.libcpp = lc
    return R(lc, True)


def load_real(ext):
    """the real package with the extension built from the current sources"""
    sys.dont_write_bytecode = True
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.meta_path.insert(0, Finder(PlainLoader))
    stub_version()
    spec = importlib.util.spec_from_file_location('riptide.libcpp', ext,
                                                  loader=importlib.machinery.ExtensionFileLoader('riptide.libcpp', ext))
    m = importlib.util.module_from_spec(spec)
    sys.modules['riptide.libcpp'] = m
    spec.loader.exec_module(m)
    riptide = importlib.import_module('riptide')
    riptide.libcpp = m
    return R(m, False)
