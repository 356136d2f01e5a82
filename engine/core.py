"""Symbolic core: polynomial terms over z3 atoms, symbolic booleans, and path
exploration by re-execution.

Everything here is about one *exploration* of one harness: the harness is run
again and again, each time with a different prefix of branch decisions, until
every feasible path has been executed (or the budget runs out, which makes the
harness inconclusive).  On every path each `check` is one solver query: path
condition and negated assertion.
"""
import math
import os
import random
import re
import sys
import time
from fractions import Fraction

_SP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _SP not in sys.path:
    sys.path.append(_SP)
import z3  # noqa: E402

F0, F1 = Fraction(0), Fraction(1)


# ---------------------------------------------------------------- control flow
class Control(BaseException):
    """Engine control flow; never caught by code under test."""


class PathInfeasible(Control):
    pass


class Unsupported(Control):
    """The engine cannot encode this; the harness is inconclusive."""


class Budget(Control):
    pass


class CodeUB(BaseException):
    """undefined behaviour of the C++ code under test"""


class StopPath(Control):
    """A violation was found on this path; the rest of it is not explored."""


TOKEN = re.compile(r'@S(\d+)@')
MAGIC_I = 0x5AFE0000
MAGIC_D = 0x7FF8A5A5A5000000   # quiet NaN payloads

CTX = None  # current symbolic context, or None in concrete mode


def cur():
    if CTX is None:
        raise Unsupported('symbolic value used outside a symbolic session')
    return CTX


# ---------------------------------------------------------------- terms
def _num(x):
    """Fraction of a concrete finite number, or None."""
    c = x.__class__
    if c is int or c is bool:
        return Fraction(int(x))
    if c is Fraction:
        return x
    if c is float:
        if x - x != 0.0:
            return None
        return Fraction(x)
    if hasattr(x, 'dtype') and getattr(x, 'ndim', 1) == 0:
        try:
            v = x.item()
        except Exception:
            return None
        if isinstance(v, (int, float)):
            return _num(v)
    return None


def _isint(x):
    if isinstance(x, Sym):
        return x.isint
    if isinstance(x, (bool, int)):
        return True
    d = getattr(x, 'dtype', None)
    return d is not None and d.kind in 'iub'


def _nonfinite(x):
    """float value if x is a concrete inf/nan"""
    if hasattr(x, 'dtype') and getattr(x, 'ndim', 1) == 0:
        try:
            x = x.item()
        except Exception:
            return None
    if isinstance(x, float) and (x - x != 0.0):
        return x
    return None


def mk(t, isint):
    """Term from a monomial dict: a Python number when constant."""
    if not t:
        return 0 if isint else 0.0
    if len(t) == 1 and () in t:
        c = t[()]
        if isint and c.denominator == 1:
            return int(c)
        try:
            f = float(c)
        except OverflowError:
            f = None
        if f is not None and f - f == 0.0 and Fraction(f) == c:
            return f
    return Sym(t, isint)


def _terms(x):
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, SymBool):
        return x.as_int().t if isinstance(x.as_int(), Sym) else {(): Fraction(x.as_int())}
    n = _num(x)
    if n is None:
        return None
    return {(): n} if n else {}


def _add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, F0) + (c if s == 1 else -c)
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mul(a, b):
    if len(b) == 1 and () in b:
        a, b = b, a
    if len(a) == 1 and () in a:
        k = a[()]
        return {m: c * k for m, c in b.items()} if k else {}
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2))
            v = r.get(m, F0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > 4000:
        raise Unsupported('polynomial blow-up')
    return r


class SymQuantity:
    """symbolic number with an astropy unit"""

    def __init__(self, value, unit):
        self.value, self.unit = value, unit

    def to_value(self, unit):
        return self.value * float((1.0 * self.unit).to_value(unit))


class Sym:
    """Symbolic real (or integer): polynomial over context atoms."""
    __slots__ = ('t', 'isint', '_z', '_k', '_npf')
    __array_priority__ = 1000.0

    def __init__(self, t, isint=False):
        self.t = t
        self.isint = isint
        self._z = None
        self._k = None

    # -- identity
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def __hash__(self):
        if self.isint:
            return hash(cur().concretize(self))
        return 0x51   # dictionaries and sets then compare for equality, which forks

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def z(self):
        if self._z is None:
            self._z = cur().poly_z3(self.t, self.isint)
        return self._z

    # -- arithmetic
    def _bin(self, o, f, special):
        if hasattr(o, '__array_ufunc__') and getattr(o, 'ndim', 0) > 0:
            return NotImplemented
        to = _terms(o)
        if to is None:
            nf = _nonfinite(o)
            if nf is not None:
                return special(nf)
            return NotImplemented
        return mk(f(self.t, to), self.isint and _isint(o))

    def __add__(self, o):
        return self._bin(o, _add, lambda v: v)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: _add(a, b, -1), lambda v: -v)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: _add(b, a, -1), lambda v: v)

    def __mul__(self, o):
        if hasattr(o, 'physical_type') and hasattr(o, 'decompose'):
            return SymQuantity(self, o)

        def sp(v):
            if v != v:
                return v
            if bool(self > 0):
                return v
            if bool(self < 0):
                return -v
            return float('nan')
        return self._bin(o, _mul, sp)
    __rmul__ = __mul__

    def __neg__(self):
        return mk({m: -c for m, c in self.t.items()}, self.isint)

    def __pos__(self):
        return self

    def __truediv__(self, o):
        if hasattr(o, '__array_ufunc__') and getattr(o, 'ndim', 0) > 0:
            return NotImplemented
        if isinstance(o, Sym):
            return divide(self, o)
        n = _num(o)
        if n is None:
            nf = _nonfinite(o)
            if nf is None:
                return NotImplemented
            return nf if nf != nf else 0.0
        if n == 0:
            if isinstance(o, (int, float)) and not hasattr(o, 'dtype'):
                raise ZeroDivisionError('float division by zero')
            if bool(self > 0):
                return float('inf')
            if bool(self < 0):
                return float('-inf')
            return float('nan')
        return mk({m: c / n for m, c in self.t.items()}, False)

    def __rtruediv__(self, o):
        if hasattr(o, '__array_ufunc__') and getattr(o, 'ndim', 0) > 0:
            return NotImplemented
        n = _num(o)
        if n is None:
            return NotImplemented
        return divide(Sym({(): n} if n else {}, False), self)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        if hasattr(o, '__array_ufunc__') and getattr(o, 'ndim', 0) > 0:
            return NotImplemented
        return self - floordiv(self, o) * o

    def __rmod__(self, o):
        return o - floordiv(o, self) * self

    def __divmod__(self, o):
        q = floordiv(self, o)
        return q, self - q * o

    def __rdivmod__(self, o):
        q = floordiv(o, self)
        return q, o - q * self

    def __pow__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        if n == Fraction(1, 2):
            return sqrt(self)
        if n == Fraction(-1, 2):
            return 1.0 / sqrt(self)
        if n.denominator != 1:
            raise Unsupported('symbolic ** non-integer')
        n = int(n)
        r = 1 if self.isint else 1.0
        for _ in range(abs(n)):
            r = r * self
        return r if n >= 0 else 1.0 / r

    def __rpow__(self, o):
        # concrete base, symbolic exponent: enumerate integer exponents
        if self.isint:
            return o ** int(self)
        raise Unsupported('concrete ** symbolic real')

    def __abs__(self):
        return maximum(self, -self)

    def __round__(self, nd=None):
        if nd is None:
            return roundhalfeven(self)
        nd = nd.__index__()
        q = 10 ** abs(nd)
        if self.isint:
            return self if nd >= 0 else roundhalfeven(to_real(self) / q) * q
        return to_real(roundhalfeven(self * q)) / q if nd >= 0 else to_real(roundhalfeven(self / q)) * q

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __trunc__(self):
        return trunc(self)

    def __int__(self):
        return cur().concretize(trunc(self))

    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return cur().concretize(self)

    def __float__(self):
        if self.is_const():
            return float(self.t.get((), F0))
        raise Unsupported('float() of a symbolic value')

    # -- comparisons
    def __lt__(self, o):
        return compare(self, o, '<')

    def __le__(self, o):
        return compare(self, o, '<=')

    def __gt__(self, o):
        return compare(self, o, '>')

    def __ge__(self, o):
        return compare(self, o, '>=')

    def __eq__(self, o):
        return compare(self, o, '==')

    def __ne__(self, o):
        return compare(self, o, '!=')

    def __bool__(self):
        r = compare(self, 0, '!=')
        return bool(r)

    def __repr__(self):
        try:
            names = cur().atoms
        except Unsupported:
            names = None
        parts = []
        for m, c in sorted(self.t.items())[:12]:
            nm = '*'.join(str(names[i].name) if names else 'a%d' % i for i in m)
            parts.append(('%g*%s' % (float(c), nm)) if m else '%g' % float(c))
        return '<Sym %s%s>' % (' + '.join(parts) or '0', ' ...' if len(self.t) > 12 else '')

    def __format__(self, spec):
        return str(self)

    def __str__(self):
        return CTX.token(self) if CTX is not None else '<sym>'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    # -- methods numpy calls on object elements
    def sqrt(self):
        return sqrt(self)

    def floor(self):
        r = floor(self)
        return r if self.isint else to_real(r)

    def ceil(self):
        r = -floor(-self)
        return r if self.isint else to_real(r)

    def trunc(self):
        return to_real(trunc(self))

    def rint(self):
        return to_real(roundhalfeven(self))

    def log(self):
        return ufn('log', self)

    def log10(self):
        return ufn('log', self) / math.log(10.0)

    def log2(self):
        return ufn('log', self) / math.log(2.0)

    def exp(self):
        return ufn('exp', self)

    def sin(self):
        return ufn('sin', self)

    def cos(self):
        return ufn('cos', self)

    def conjugate(self):
        return self

    def item(self):
        return self

    def is_integer(self):
        if self.isint:
            return True
        return bool(compare(self, to_real(floor(self)), '=='))

    @property
    def real(self):
        return self


def to_real(x):
    if isinstance(x, Sym):
        return Sym(x.t, False) if x.isint else x
    return float(x)


def to_int(x):
    """reinterpret an integral-valued term as an int"""
    if isinstance(x, Sym):
        return x if x.isint else Sym(x.t, True)
    return int(x)


# ---------------------------------------------------------------- booleans
class SymBool:
    __slots__ = ('z', 'k', 'info', '_i')
    __array_priority__ = 1000.0

    def __init__(self, zexpr, key=None, info=None):
        self.z = zexpr
        self.k = key
        self.info = info     # (op, lhs, rhs) for max recognition
        self._i = None

    def __bool__(self):
        return cur().branch(self)

    def __and__(self, o):
        if hasattr(o, '__array_ufunc__') and getattr(o, 'ndim', 0) > 0:
            return NotImplemented
        if isinstance(o, SymBool):
            return SymBool(z3.And(self.z, o.z))
        return self if o else False
    __rand__ = __and__

    def __or__(self, o):
        if hasattr(o, '__array_ufunc__') and getattr(o, 'ndim', 0) > 0:
            return NotImplemented
        if isinstance(o, SymBool):
            return SymBool(z3.Or(self.z, o.z))
        return True if o else self
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.Xor(self.z, o.z))
        return self.negate() if o else self
    __rxor__ = __xor__

    def negate(self):
        info = None
        if self.info:
            op, a, b = self.info
            info = ({'>': '<=', '<': '>=', '>=': '<', '<=': '>', '==': '!=', '!=': '=='}[op], a, b)
        k = self.k
        if k is not None:
            k = k[1] if k[0] == 'not' else ('not', k)
        return SymBool(z3.Not(self.z), k, info)

    def __invert__(self):
        return self.negate()
    logical_not = negate

    def logical_and(self, o):
        return self & o

    def logical_or(self, o):
        return self | o

    def as_int(self):
        if self._i is None:
            self._i = cur().atom_ite(self, {(): F1}, {}, True)
        return self._i

    def __add__(self, o):
        return self.as_int() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __mul__(self, o):
        return self.as_int() * o
    __rmul__ = __mul__

    def __index__(self):
        return int(bool(self))

    def __lt__(self, o):
        return bool(self) < o

    def __le__(self, o):
        return bool(self) <= o

    def __gt__(self, o):
        return bool(self) > o

    def __ge__(self, o):
        return bool(self) >= o

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.z == o.z)
        if isinstance(o, (bool, int)):
            return self if o else self.negate()
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else (r.negate() if isinstance(r, SymBool) else (not r))

    def __hash__(self):
        return hash(self.k) if self.k is not None else self.z.hash()

    def __repr__(self):
        return '<SymBool>'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def zbool(c):
    if isinstance(c, SymBool):
        return c.z
    return z3.BoolVal(bool(c))


def bnot(c):
    return c.negate() if isinstance(c, SymBool) else (not c)


def band(*cs):
    zs = []
    for c in cs:
        if isinstance(c, SymBool):
            zs.append(c.z)
        elif not c:
            return False
    if not zs:
        return True
    return SymBool(z3.And(*zs)) if len(zs) > 1 else SymBool(zs[0])


def bor(*cs):
    zs = []
    for c in cs:
        if isinstance(c, SymBool):
            zs.append(c.z)
        elif c:
            return True
    if not zs:
        return False
    return SymBool(z3.Or(*zs)) if len(zs) > 1 else SymBool(zs[0])


def implies(a, b):
    return bor(bnot(a), b)


_REV = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}


def _cmpnum(c, op):
    return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op]


def compare(a, b, op):
    if hasattr(b, '__array_ufunc__') and getattr(b, 'ndim', 0) > 0:
        return NotImplemented
    tb = _terms(b)
    if tb is None:
        nf = _nonfinite(b)
        if nf is None:
            return NotImplemented
        # a is finite
        if nf != nf:
            return op == '!='
        return _cmpnum(-1 if nf > 0 else 1, op)
    ta = a.t if isinstance(a, Sym) else _terms(a)
    d = _add(ta, tb, -1)
    if not d or (len(d) == 1 and () in d):
        return _cmpnum(d.get((), F0), op)
    ctx = cur()
    lo, hi = ctx.interval(d)
    if lo is not None and lo > 0 or hi is not None and hi < 0:
        return _cmpnum(1 if (lo is not None and lo > 0) else -1, op)
    if op == '>=' and lo is not None and lo >= 0:
        return True
    if op == '<' and lo is not None and lo >= 0:
        return False
    if op == '<=' and hi is not None and hi <= 0:
        return True
    if op == '>' and hi is not None and hi <= 0:
        return False
    return ctx.cmp_bool(d, op, (op, a, b))


# ---------------------------------------------------------------- functions
def ite(c, a, b):
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, SymBool) or isinstance(b, SymBool) or (isinstance(a, bool) and isinstance(b, bool)):
        return SymBool(z3.If(c.z, zbool(a), zbool(b)))
    ta, tb = _terms(a), _terms(b)
    if ta is None or tb is None:
        return a if bool(c) else b
    if ta == tb:
        return a
    if c.info is not None:
        op, l, r = c.info
        tl, tr = _terms(l), _terms(r)
        if op in ('>', '>='):
            if tl == ta and tr == tb:
                return maximum(a, b)
            if tl == tb and tr == ta:
                return minimum(a, b)
        elif op in ('<', '<='):
            if tl == ta and tr == tb:
                return minimum(a, b)
            if tl == tb and tr == ta:
                return maximum(a, b)
    return cur().atom_ite(c, ta, tb, _isint(a) and _isint(b))


def maximum(a, b):
    """max(a, b) of finite terms"""
    na, nb = _nonfinite(a), _nonfinite(b)
    if na is not None or nb is not None:
        if (na is not None and na != na) or (nb is not None and nb != nb):
            return float('nan')
        if na is not None and nb is not None:
            return max(na, nb)
        if na is not None:
            return a if na > 0 else b
        return b if nb > 0 else a
    if not isinstance(a, (Sym, SymBool)) and not isinstance(b, (Sym, SymBool)):
        return a if a >= b else b
    return cur().atom_max([_terms(a), _terms(b)], _isint(a) and _isint(b))


def minimum(a, b):
    return -maximum(-a, -b)


def divide(a, b):
    """a / b, both terms, b symbolic"""
    tb = _terms(b)
    if not tb or (len(tb) == 1 and () in tb):
        n = tb.get((), F0)
        if n == 0:
            raise ZeroDivisionError('division by zero')
        return mk({m: c / n for m, c in _terms(a).items()}, False)
    ta = _terms(a)
    # exact proportionality, e.g. x / x
    if ta and set(ta) == set(tb):
        it = iter(tb)
        m0 = next(it)
        r = ta[m0] / tb[m0]
        if all(ta[m] == r * tb[m] for m in tb):
            if bool(compare(b, 0, '==')):
                raise ZeroDivisionError('division by zero')
            return mk({(): r}, False)
    if bool(compare(b, 0, '==')):
        raise ZeroDivisionError('division by zero')
    # single-monomial denominator dividing every monomial of the numerator
    if len(tb) == 1:
        (mb, cb), = tb.items()
        r = {}
        for m, c in ta.items():
            lm = list(m)
            try:
                for i in mb:
                    lm.remove(i)
            except ValueError:
                r = None
                break
            r[tuple(lm)] = c / cb
        if r is not None:
            return mk(r, False)
    return cur().atom_quot(ta, tb)


def floor(a):
    """integer floor of a term"""
    if not isinstance(a, Sym):
        if isinstance(a, Fraction):
            return math.floor(a)
        return math.floor(a)
    if a.isint:
        return a
    if a.is_const():
        return math.floor(a.t.get((), F0))
    return cur().atom_floor(a.t)


def trunc(a):
    if not isinstance(a, Sym):
        return math.trunc(a)
    if a.isint:
        return a
    if bool(compare(a, 0, '>=')):
        return floor(a)
    return -floor(-a)


def roundhalfeven(a):
    if not isinstance(a, Sym):
        return round(a)
    if a.isint:
        return a
    f = floor(a + 0.5)
    # tie -> even
    tie = compare(to_real(f), a + 0.5, '==')
    if isinstance(tie, SymBool):
        if bool(tie):
            return 2 * floor(to_real(f) / 2)
        return f
    if tie:
        return 2 * floor(to_real(f) / 2)
    return f


def floordiv(a, b):
    nb = _num(b)
    if nb is not None:
        if nb == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        q = mk({m: c / nb for m, c in _terms(a).items()}, False)
        r = floor(q)
    else:
        r = floor(divide(a if isinstance(a, Sym) else Sym(_terms(a), False), b))
    if _isint(a) and _isint(b):
        return r
    return to_real(r)


def sqrt(a):
    if not isinstance(a, Sym):
        return math.sqrt(a)
    if bool(compare(a, 0, '<')):
        return float('nan')
    return cur().atom_sqrt(a.t)


def ufn(name, a):
    if not isinstance(a, Sym):
        return getattr(math, name)(a)
    return cur().atom_ufn(name, a.t)


def fraction_of(x):
    if isinstance(x, z3.RatNumRef):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if isinstance(x, z3.IntNumRef):
        return Fraction(x.as_long())
    if isinstance(x, z3.AlgebraicNumRef):
        return fraction_of(x.approx(30))
    raise Unsupported('model value %r' % (x,))


# ---------------------------------------------------------------- context
class Atom:
    __slots__ = ('z', 'name', 'isint', 'lo', 'hi')

    def __init__(self, z, name, isint, lo=None, hi=None):
        self.z, self.name, self.isint, self.lo, self.hi = z, name, isint, lo, hi


class Stats:
    def __init__(self):
        self.queries = self.branch_queries = self.unknown = self.hunts = 0
        self.solver_s = 0.0
        self.paths = self.infeasible = 0
        self.checks = self.checks_trivial = self.checks_solver = 0
        self.transitions = 0

    def as_dict(self):
        return dict(self.__dict__)

    def merge(self, d):
        for k, v in d.items():
            self.__dict__[k] = self.__dict__.get(k, 0) + v


class Violation:
    def __init__(self, label, detail, inputs, choices):
        self.label, self.detail, self.inputs, self.choices = label, detail, inputs, choices


class SymCtx:
    symbolic = True

    def __init__(self, prefix, stats, opts):
        self.prefix = prefix
        self.trace = []
        self.pending = []
        self.stats = stats
        self.opts = opts
        self.solver = z3.Solver()
        self.solver.set('timeout', opts.get('query_ms', 20000))
        if 'seed' in opts:
            self.solver.set('random_seed', opts['seed'])
        self.atoms = []
        self.atom_keys = {}
        self.inputs = {}      # name -> (kind, atom index)
        self.known = {}
        self.nfresh = 0
        self.violations = []
        self.cfg = opts.get('cfg', {})
        self.deadline = opts.get('deadline')
        self.last_sat_model = None
        self.notes = []
        self.inconclusive = []
        self.late = []
        self.tokens = []
        self.token_ids = {}
        self.data_files = {}
        self.scopes0 = self.solver.num_scopes()

    # -- atoms
    def new_atom(self, z, name, isint, lo=None, hi=None, key=None):
        self.atoms.append(Atom(z, name, isint, lo, hi))
        i = len(self.atoms) - 1
        if key is not None:
            self.atom_keys[key] = i
        return i

    def fresh(self, kind, isint):
        self.nfresh += 1
        n = '%s!%d' % (kind, self.nfresh)
        return n, (z3.Int(n) if isint else z3.Real(n))

    def fresh_real(self, kind):
        n, z = self.fresh(kind, False)
        return self.atom_sym(self.new_atom(z, n, False, None, None, (kind, n)))

    def atom_sym(self, i):
        return Sym({(i,): F1}, self.atoms[i].isint)

    def poly_z3(self, t, isint=False):
        allint = all(self.atoms[i].isint for m in t for i in m) and all(c.denominator == 1 for c in t.values())
        parts = []
        for m, c in t.items():
            if allint:
                e = z3.IntVal(int(c)) if (c != 1 or not m) else None
            else:
                e = z3.RealVal(c) if (c != 1 or not m) else None
            for i in m:
                a = self.atoms[i]
                az = a.z if allint or not a.isint else z3.ToReal(a.z)
                e = az if e is None else e * az
            parts.append(e)
        if not parts:
            return z3.IntVal(0) if isint else z3.RealVal(0)
        r = parts[0] if len(parts) == 1 else z3.Sum(parts)
        if not isint and r.is_int():
            r = z3.ToReal(r)
        if isint and r.is_real():
            r = z3.ToInt(r)
        return r

    def real_z3(self, t):
        return self.poly_z3(t, False)

    def interval(self, t):
        lo = hi = F0
        for m, c in t.items():
            if not m:
                if lo is not None:
                    lo += c
                if hi is not None:
                    hi += c
                continue
            if len(m) == 1:
                a = self.atoms[m[0]]
                l, h = a.lo, a.hi
            elif len(m) == 2 and m[0] == m[1]:
                a = self.atoms[m[0]]
                l, h = F0, None
                if a.lo is not None and a.hi is not None:
                    h = max(a.lo * a.lo, a.hi * a.hi)
                    if a.lo > 0:
                        l = a.lo * a.lo
            else:
                l = h = F1
                for i in m:
                    a = self.atoms[i]
                    if a.lo is None or a.hi is None or l is None:
                        # product of non-negatives is non-negative
                        l = F0 if all(self.atoms[j].lo is not None and self.atoms[j].lo >= 0 for j in m) else None
                        h = None
                        break
                    cs = (l * a.lo, l * a.hi, h * a.lo, h * a.hi)
                    l, h = min(cs), max(cs)
            if c < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
            if lo is None and hi is None:
                break
        return lo, hi

    def cmp_bool(self, d, op, info):
        # normalise: integer coefficients, sign by smallest monomial
        den = 1
        for c in d.values():
            den = den * c.denominator // math.gcd(den, c.denominator)
        g = 0
        ints = {}
        for m, c in d.items():
            v = int(c * den)
            ints[m] = v
            g = math.gcd(g, abs(v))
        first = min(m for m in ints if m)
        sgn = -1 if ints[first] < 0 else 1
        ints = {m: Fraction(sgn * v // g) for m, v in ints.items()}
        if sgn < 0:
            op = _REV[op]
        items = tuple(sorted(ints.items()))
        neg = False
        if op == '<':
            op, neg = '>=', True
        elif op == '<=':
            op, neg = '>', True
        elif op == '!=':
            op, neg = '==', True
        k = (op, items)
        z = self.atom_keys.get(('cmp', k))
        if z is None:
            e = self.poly_z3(ints)
            if all(self.atoms[i].isint for m in ints for i in m):
                e = self.poly_z3(ints, True)
                zero = z3.IntVal(0)
            else:
                zero = z3.RealVal(0)
            z = {'>=': e >= zero, '>': e > zero, '==': e == zero}[op]
            self.atom_keys[('cmp', k)] = z
        if neg:
            return SymBool(z3.Not(z), ('not', k), info)
        return SymBool(z, k, info)

    @staticmethod
    def tkey(t):
        return tuple(sorted(t.items()))

    def atom_ite(self, c, ta, tb, isint):
        k = ('ite', c.k if c.k is not None else c.z.get_id(), self.tkey(ta), self.tkey(tb), isint)
        i = self.atom_keys.get(k)
        if i is None:
            za = self.poly_z3(ta, isint)
            zb = self.poly_z3(tb, isint)
            la, ha = self.interval(ta)
            lb, hb = self.interval(tb)
            lo = None if la is None or lb is None else min(la, lb)
            hi = None if ha is None or hb is None else max(ha, hb)
            i = self.new_atom(z3.If(c.z, za, zb), 'ite%d' % len(self.atoms), isint, lo, hi, k)
            self.keep(c)
        return self.atom_sym(i)

    def keep(self, o):
        self.notes.append(o)   # keep z3 ids alive

    def atom_max(self, tlist, isint):
        # flatten: max(max(S), x) with unit coefficient
        ops = {}
        for t in tlist:
            if len(t) == 1:
                (m, c), = t.items()
                if len(m) == 1 and c == 1:
                    s = self.atom_keys.get(('maxset', m[0]))
                    if s is not None:
                        for u in s:
                            ops[self.tkey(u)] = u
                        continue
            ops[self.tkey(t)] = t
        # drop dominated operands (differences decidable by intervals)
        items = list(ops.values())
        keep = []
        for a_i, a in enumerate(items):
            dom = False
            for b_i, b in enumerate(items):
                if a_i == b_i:
                    continue
                lo, hi = self.interval(_add(b, a, -1))
                if lo is not None and lo >= 0 and not (hi is not None and hi <= 0 and b_i > a_i):
                    dom = True
                    break
            if not dom:
                keep.append(a)
        if len(keep) == 1:
            return mk(keep[0], isint)
        keep.sort(key=self.tkey)
        # factor out a common offset is not attempted
        k = ('max', tuple(self.tkey(t) for t in keep), isint)
        i = self.atom_keys.get(k)
        if i is None:
            los, his = [], []
            for t in keep:
                lo, hi = self.interval(t)
                los.append(lo)
                his.append(hi)
            lo = max((x for x in los if x is not None), default=None)
            hi = None if any(h is None for h in his) else max(his)
            zs = [self.poly_z3(t, isint) for t in keep]
            if len(zs) <= 2:
                z = z3.If(zs[0] >= zs[1], zs[0], zs[1])
            else:
                n, z = self.fresh('max', isint)
                for e in zs:
                    self.solver.add(z >= e)
                self.solver.add(z3.Or([z == e for e in zs]))
            i = self.new_atom(z, 'max%d' % len(self.atoms), isint, lo, hi, k)
            self.atom_keys[('maxset', i)] = keep
        return self.atom_sym(i)

    def atom_quot(self, ta, tb):
        k = ('quot', self.tkey(ta), self.tkey(tb))
        i = self.atom_keys.get(k)
        if i is None:
            n, z = self.fresh('quot', False)
            self.solver.add(z * self.poly_z3(tb) == self.poly_z3(ta))
            la, ha = self.interval(ta)
            lb, hb = self.interval(tb)
            lo = hi = None
            if None not in (la, ha, lb, hb) and (lb > 0 or hb < 0):
                cs = [la / lb, la / hb, ha / lb, ha / hb]
                lo, hi = min(cs), max(cs)
            elif la is not None and la >= 0 and lb is not None and lb >= 0:
                lo = F0
            if lo is not None:
                self.solver.add(z >= z3.RealVal(lo))
            if hi is not None:
                self.solver.add(z <= z3.RealVal(hi))
            i = self.new_atom(z, n, False, lo, hi, k)
        return self.atom_sym(i)

    def atom_floor(self, t):
        c0 = t.get((), F0)
        ip = Fraction(math.floor(c0))
        # integer-valued part can be pulled out
        rest, out = {}, {}
        for m, c in t.items():
            if m and c.denominator == 1 and all(self.atoms[i].isint for i in m):
                out[m] = c
            elif m:
                rest[m] = c
        frac = c0 - ip
        if ip:
            out[()] = ip
        if frac:
            rest[()] = frac
        if not rest or set(rest) == {()}:
            return mk(out, True)
        k = ('floor', self.tkey(rest))
        i = self.atom_keys.get(k)
        if i is None:
            v = self.floor_of_log(rest)
            if v is not None:
                return mk(_add({(): Fraction(v)} if v else {}, out), True)
            n, z = self.fresh('floor', True)
            e = self.poly_z3(rest)
            self.solver.add(z3.ToReal(z) <= e, e < z3.ToReal(z) + 1)
            lo, hi = self.interval(rest)
            i = self.new_atom(z, n, True, None if lo is None else Fraction(math.floor(lo)),
                              None if hi is None else Fraction(math.floor(hi)), k)
        return mk(_add({(i,): F1}, out), True)

    def floor_of_log(self, t):
        """floor(c log(x) + d): forks over its integer values, each decided by
        comparing x with exp((n - d) / c); None when t is not of that form"""
        mons = [m for m in t if m]
        if not mons or any(len(m) != 1 or ('logarg', m[0]) not in self.atom_keys for m in mons):
            return None
        c, d = t[mons[0]], t.get((), F0)
        num, den = {(): F1}, {(): F1}
        for m in mons:
            if abs(float(t[m]) - float(c)) < 1e-12 * abs(float(c)):
                num = _mul(num, self.atom_keys[('logarg', m[0])])
            elif abs(float(t[m]) + float(c)) < 1e-12 * abs(float(c)):
                den = _mul(den, self.atom_keys[('logarg', m[0])])
            else:
                return None
        lo, hi = self.interval(t)
        if lo is None or hi is None:
            raise Unsupported('floor of a logarithm of an unbounded term')
        c, d, lo, hi = float(c), float(d), float(lo), float(hi)
        x, y = Sym(num, False), Sym(den, False)
        for n in range(math.floor(lo - 1e-9), math.floor(hi + 1e-9)):
            e = math.exp((n + 1 - d) / c)
            if bool(x < e * y) if c > 0 else bool(x > e * y):
                return n
        return math.floor(hi + 1e-9)

    def atom_sqrt(self, t):
        if len(t) == 1:
            (m, c), = t.items()
            if c > 0 and all(m.count(i) % 2 == 0 for i in set(m)):
                # perfect square: sqrt(c) |m|
                r = math.sqrt(c)
                for i in sorted(set(m)):
                    for _ in range(m.count(i) // 2):
                        r = abs(self.atom_sym(i)) * r
                return r
        k = ('sqrt', self.tkey(t))
        i = self.atom_keys.get(k)
        if i is None:
            n, z = self.fresh('sqrt', False)
            self.solver.add(z >= 0, z * z == self.poly_z3(t))
            lo, hi = self.interval(t)
            i = self.new_atom(z, n, False, F0, None if hi is None else Fraction(math.sqrt(hi)) * 2 + 1, k)
        return self.atom_sym(i)

    def atom_ufn(self, name, t):
        k = ('ufn', name, self.tkey(t))
        i = self.atom_keys.get(k)
        if i is None:
            f = z3.Function('f_' + name, z3.RealSort(), z3.RealSort())
            z = f(self.poly_z3(t))
            lo = hi = None
            if name in ('sin', 'cos'):
                lo, hi = Fraction(-1), F1
                self.solver.add(z >= -1, z <= 1)
            elif name == 'log':
                la, ha = self.interval(t)
                if la is not None and la > 0:
                    lo = Fraction(math.log(la)) - Fraction(1, 10 ** 9)
                    self.solver.add(z >= z3.RealVal(lo))
                if ha is not None and ha > 0:
                    hi = Fraction(math.log(ha)) + Fraction(1, 10 ** 9)
                    self.solver.add(z <= z3.RealVal(hi))
            i = self.new_atom(z, name + '%d' % len(self.atoms), False, lo, hi, k)
            if name == 'log':
                self.atom_keys[('logarg', i)] = dict(t)
        return self.atom_sym(i)

    # -- solver
    def _check(self, *extra):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time budget')
        t0 = time.time()
        r = self.solver.check(*extra)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def add(self, z):
        self.solver.add(z)

    def branch(self, b):
        """decide a symbolic condition on this path"""
        k = b.k
        if k is not None:
            base, neg = (k[1], True) if k[0] == 'not' else (k, False)
            v = self.known.get(base)
            if v is not None:
                return v != neg
        i = len(self.trace)
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time budget')
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            if i > self.opts.get('max_depth', 4000):
                raise Budget('decision depth')
            rt = self._check(b.z)
            self.stats.branch_queries += 1
            if rt == z3.unsat:
                d = (False, True)
            else:
                rf = self._check(z3.Not(b.z))
                self.stats.branch_queries += 1
                if rf == z3.unsat:
                    d = (True, True)
                else:
                    if z3.is_eq(b.z):     # exact ties last
                        self.late.append(self.trace + [(True, False)])
                        d = (False, False)
                    else:
                        self.pending.append(self.trace + [(False, False)])
                        d = (True, False)
            self.stats.transitions += 1
        self.trace.append(d)
        v, forced = d
        if not forced:
            self.solver.add(b.z if v else z3.Not(b.z))
        if k is not None:
            base, neg = (k[1], True) if k[0] == 'not' else (k, False)
            self.known[base] = v != neg
        return v

    def concretize(self, s):
        """pick a concrete integer value for s, forking over all of them"""
        if not isinstance(s, Sym):
            return int(s)
        if s.is_const():
            return int(s.t.get((), F0))
        lo, hi = self.interval(s.t)
        n = 0
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                v, eq = self.prefix[i]      # (value, bool)
            else:
                r = self._check()
                if r != z3.sat:
                    raise Unsupported('cannot enumerate values (%s)' % r)
                mv = self.solver.model().eval(s.z(), model_completion=True)
                v = int(fraction_of(mv))
                other = self._check(s.z() != v)
                self.stats.branch_queries += 2
                if other != z3.unsat:
                    self.pending.append(self.trace + [(v, False)])
                eq = True
                self.stats.transitions += 1
            self.trace.append((v, eq))
            if eq:
                self.solver.add(s.z() == v)
                return v
            self.solver.add(s.z() != v)
            n += 1
            if n > self.opts.get('max_enum', 400):
                raise Budget('too many values')

    def only_value(self, s):
        """the value of s when the path leaves it a single one"""
        if self._check() != z3.sat:
            return None
        mv = self.solver.model().eval(s.z(), model_completion=True)
        if not (z3.is_rational_value(mv) or z3.is_int_value(mv)) or self._check(s.z() != mv) != z3.unsat:
            return None
        return fraction_of(mv)

    # -- harness interface
    def real(self, name, lo, hi, nice=True):
        lo, hi = _num(lo), _num(hi)
        z = z3.Real(name)
        i = self.new_atom(z, name, False, lo, hi)
        self.solver.add(z >= z3.RealVal(lo), z <= z3.RealVal(hi))
        self.inputs[name] = ('real', i)
        return self.atom_sym(i)

    def int(self, name, lo, hi):
        z = z3.Int(name)
        i = self.new_atom(z, name, True, Fraction(lo), Fraction(hi))
        self.solver.add(z >= lo, z <= hi)
        self.inputs[name] = ('int', i)
        return self.atom_sym(i)

    def bool(self, name):
        i = self.int(name, 0, 1)
        return i == 1

    def choose(self, name, options):
        """one of a finite list, chosen by a symbolic index"""
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[int(i)]

    def vec(self, name, n, lo=-8, hi=8):
        return [self.real('%s_%d' % (name, i), lo, hi) for i in range(n)]

    def arr(self, name, shape, lo=-8, hi=8, dtype='float32'):
        """array of independent symbolic reals (ints for integer dtypes)"""
        from .nps import mk_list
        import numpy as np
        dt = np.dtype(dtype)
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        n = 1
        for d in shape:
            n *= d
        if dt.kind == 'f':
            v = self.vec(name, n, lo, hi)
        else:
            v = [self.int('%s_%d' % (name, i), lo, hi) for i in range(n)]
        return mk_list(v, shape, dt)

    def farr(self, values, dtype='float32', shape=None):
        """array of given (symbolic or concrete) elements"""
        from .nps import mk_list, cast_element
        import numpy as np
        dt = np.dtype(dtype)
        values = [cast_element(v, dt) for v in values]
        return mk_list(values, shape if shape is not None else (len(values),), dt)

    def vals(self, a):
        return flat_values(a)

    def token(self, s):
        """text standing for a term; float() and int() of the code under test give
        the term back"""
        k = (s.key(), s.isint)
        i = self.token_ids.get(k)
        if i is None:
            i = self.token_ids[k] = len(self.tokens)
            self.tokens.append(s)
        return '@S%d@' % i

    def untoken(self, text):
        m = TOKEN.fullmatch(text.strip())
        return self.tokens[int(m.group(1))] if m else None

    def text(self, v):
        """text of a number, for files read by the code under test"""
        if isinstance(v, Sym):
            return self.token(v)
        return repr(v.item() if hasattr(v, 'item') else v)

    def number(self, text):
        """number of a text written by the code under test"""
        v = self.untoken(text)
        return float(text) if v is None else v

    def pack(self, fmt, v):
        """binary form of a number ('i' or 'd')"""
        import struct
        if isinstance(v, Sym):
            self.token(v)
            i = self.token_ids[(v.key(), v.isint)]
            return struct.pack('<i', MAGIC_I + i) if fmt == 'i' else struct.pack('<q', MAGIC_D + i)
        return struct.pack('<' + fmt, v)

    def unpacked(self, v):
        """number unpacked by the code under test -> term"""
        import struct
        if isinstance(v, int) and MAGIC_I <= v < MAGIC_I + len(self.tokens):
            return self.tokens[v - MAGIC_I]
        if isinstance(v, float) and v != v:
            i = struct.unpack('<q', struct.pack('<d', v))[0] - MAGIC_D
            if 0 <= i < len(self.tokens):
                return self.tokens[i]
        return v

    def write_data(self, path, values, dtype, header=b''):
        """binary file of samples, which may be symbolic"""
        import numpy as np
        dt = np.dtype(dtype)
        table = {}
        raw = []
        for i, v in enumerate(values):
            if isinstance(v, Sym):
                table[len(header) + i * dt.itemsize] = (dt, v)
                v = 0
            raw.append(v)
        with open(path, 'wb') as f:
            f.write(header + np.asarray(raw).astype(dt).tobytes())
        self.data_files[os.path.realpath(path)] = table

    def call(self, f, *a, **k):
        """('ok', result) or ('exc', exception)"""
        try:
            return 'ok', f(*a, **k)
        except Exception as e:
            return 'exc', e

    def must_raise(self, f, label, *a, **k):
        st, v = self.call(f, *a, **k)
        return self.check(st == 'exc', label, 'no exception, returned %s' % (type(v).__name__,))

    def must_raise_type(self, exc, f, label, *a, **k):
        st, v = self.call(f, *a, **k)
        return self.check(st == 'exc' and isinstance(v, exc), label, '%s: %r' % (st, v))

    def assume(self, c):
        if isinstance(c, SymBool):
            self.solver.add(c.z)
            if len(self.trace) >= len(self.prefix):
                if self._check() == z3.unsat:
                    raise PathInfeasible()
            if c.k is not None:
                base, neg = (c.k[1], True) if c.k[0] == 'not' else (c.k, False)
                self.known[base] = not neg
        elif not c:
            raise PathInfeasible()

    def check(self, cond, label, detail=''):
        self.stats.checks += 1
        if not isinstance(cond, (SymBool, bool)):
            if isinstance(cond, Sym):
                cond = cond != 0
            else:
                cond = bool(cond)
        if isinstance(cond, SymBool):
            self.stats.checks_solver += 1
            r = self._check(z3.Not(cond.z))
            if r == z3.unsat:
                return True
            if r == z3.unknown:
                self.hunt(z3.Not(cond.z), label, detail)
                self.inconclusive.append(label)
                return True
            self.fail(label, detail, z3.Not(cond.z))
        elif not cond:
            r = self._check()
            if r == z3.unsat:
                raise PathInfeasible()
            self.fail(label, detail, None)
        else:
            self.stats.checks_trivial += 1
        return True

    def check_all(self, conds, label, detail=''):
        """one query for a conjunction"""
        zs = []
        for c in conds:
            if isinstance(c, SymBool):
                zs.append(c.z)
            elif not c:
                return self.check(False, label, detail)
        if not zs:
            return self.check(True, label, detail)
        return self.check(SymBool(z3.And(*zs)), label, detail)

    def close_cond(self, a, b, tol):
        if not isinstance(a, (Sym, SymBool)) and not isinstance(b, (Sym, SymBool)):
            na, nb = _nonfinite(a), _nonfinite(b)
            if na is not None or nb is not None:
                return (na is not None and nb is not None and (na == nb or (na != na and nb != nb)))
            return abs(_num(a) - _num(b)) <= _num(tol)
        if _nonfinite(a) is not None or _nonfinite(b) is not None:
            return False
        d = a - b
        if not isinstance(d, Sym):
            return abs(d) <= tol
        return band(d <= tol, d >= -tol)

    def close(self, a, b, label, tol=1e-3, detail=''):
        return self.check(self.close_cond(a, b, tol), label, detail)

    def close_all(self, pairs, label, tol=1e-3, detail=''):
        pairs = list(pairs)
        return self.check_all([self.close_cond(a, b, tol) for a, b in pairs], label, detail)

    def same_all(self, pairs, label, tol=1e-3, detail=''):
        """close_all, decided by the solver on the unsimplified terms even where
        the term normaliser alone would settle it"""
        pairs = list(pairs)
        zs = []
        for a, b in pairs:
            if isinstance(a, Sym) and isinstance(b, Sym):
                d = _add(a.t, b.t, -1)
                if not d or set(d) == {()}:
                    e = self.poly_z3(a.t) - self.poly_z3(b.t)
                    t = z3.RealVal(_num(tol))
                    zs.append(z3.And(e <= t, e >= -t))
                    continue
            c = self.close_cond(a, b, tol)
            if isinstance(c, SymBool):
                zs.append(c.z)
            elif not c:
                return self.check(False, label, detail)
        if not zs:
            return self.check(True, label, detail)
        return self.check(SymBool(z3.And(*zs)), label, detail)

    def witness(self):
        """concrete inputs satisfying the path condition (dyadic where possible)"""
        model = self._nice_model([])
        return None if model is None else self._inputs_of(model)

    def probes(self, n, rng):
        """a few different concrete inputs that reach this point"""
        out = []
        z = [self.atoms[i] for k, i in self.inputs.values()]
        for k in range(n):
            self.solver.push()
            try:
                if k:
                    self.solver.set('timeout', 1500)
                    for a in rng.sample(z, min(len(z), 6)):
                        if a.lo is None or a.hi is None or a.lo == a.hi:
                            continue
                        w = (a.hi - a.lo) / 4
                        if a.isint:
                            v = rng.randint(int(a.lo), int(a.hi))
                            c = a.z == v if k % 2 else a.z >= v
                        else:
                            v = a.lo + w * rng.randint(0, 3)
                            c = z3.And(a.z >= z3.RealVal(v), a.z <= z3.RealVal(v + w))
                        self.solver.push()
                        self.solver.add(c)
                        if self.solver.check() != z3.sat:
                            self.solver.pop()
                m = self._nice_model([])
                if m is not None:
                    out.append(self._inputs_of(m))
            except Control:
                pass
            finally:
                # every level pushed above
                while self.solver.num_scopes() > self.scopes0:
                    self.solver.pop()
                self.solver.set('timeout', self.opts.get('query_ms', 20000))
        return out

    def hunt(self, neg, label, detail):
        """the query is too hard in general: look for a counterexample with some of the inputs fixed"""
        if self.stats.hunts >= 12:
            return
        self.stats.hunts += 1
        rng = random.Random(self.stats.hunts)
        z = [self.atoms[i] for k, i in self.inputs.values()]
        found = None
        for n in range(4):
            if self.deadline is not None and time.time() > self.deadline - 5:
                break
            A = [neg] + list(self.solver.assertions())
            pins = []
            for a in rng.sample(z, len(z)):
                if a.lo is None or a.hi is None or a.lo == a.hi:
                    continue
                v = rng.randint(int(a.lo), int(a.hi)) if a.isint else a.lo + (a.hi - a.lo) * Fraction(rng.randint(1, 4095), 4096)
                B = [z3.simplify(z3.substitute(e, (a.z, z3.IntVal(v) if a.isint else z3.RealVal(v)))) for e in A]
                q = z3.Solver()
                q.set('timeout', 2000)
                q.add(B[1:])
                if any(z3.is_false(e) for e in B[1:]) or q.check() == z3.unsat:
                    continue
                A = B
                pins.append(a.z == v if a.isint else a.z == z3.RealVal(v))
            q = z3.Solver()
            q.set('timeout', 4000)
            q.add(A)
            q.add(pins)
            if q.check() == z3.sat:
                found = self._inputs_of(q.model())
            if found is not None:
                self.violations.append(Violation(label, str(detail), found, None))
                raise StopPath()

    def fail(self, label, detail, neg):
        """record a violation with a concrete input assignment"""
        model = self._nice_model([neg] if neg is not None else [])
        if model is None:
            self.inconclusive.append(label + ' (no model)')
            raise StopPath()
        self.violations.append(Violation(label, str(detail), self._inputs_of(model), None))
        raise StopPath()

    def _inputs_of(self, model):
        inputs = {}
        for name, (kind, i) in self.inputs.items():
            v = fraction_of(model.eval(self.atoms[i].z, model_completion=True))
            inputs[name] = int(v) if kind == 'int' else [v.numerator, v.denominator]
        return inputs

    def _nice_model(self, extra):
        s = self.solver
        s.push()
        for e in extra:
            s.add(e)
        model = None
        t0 = time.time()
        # prefer small dyadic values for the real inputs: exact in float32
        reals = [self.atoms[i].z for k, i in self.inputs.values() if k == 'real']
        for den, ms in ((1, 3000), (8, 3000), (1024, 3000)):
            if not reals:
                break
            s.push()
            s.set('timeout', ms)
            for j, z in enumerate(reals):
                q = z3.Int('nice!%d' % j)
                s.add(z == z3.ToReal(q) / den)
            r = s.check()
            if r == z3.sat:
                model = s.model()
            s.pop()
            if model is not None:
                break
        s.set('timeout', self.opts.get('query_ms', 20000))
        if model is None:
            r = s.check()
            if r == z3.sat:
                model = s.model()
        s.pop()
        self.stats.solver_s += time.time() - t0
        return model

    # the harness may note facts for the evidence
    def note(self, *a):
        pass

    def is_sym(self, x):
        return isinstance(x, (Sym, SymBool))


def flat_values(a):
    """flat list of Python floats / terms"""
    if isinstance(a, (Sym, SymBool, int, float)):
        return [a]
    if hasattr(a, 'plain'):
        return [a.plain()[i] for i in _ndindex(a.shape)]
    if hasattr(a, 'ravel'):
        return [x for x in a.ravel().tolist()]
    return [y for x in a for y in flat_values(x)]


def _ndindex(shape):
    import numpy as np
    return np.ndindex(*shape)


class ConCtx:
    """A harness run on concrete inputs: replay against the real code, or (with
    engine=True) against the symbolic stand-ins for differential validation."""
    symbolic = False

    def __init__(self, inputs, cfg, R=None, engine=False, slack=0.5, rng=None):
        self.inputs_given = dict(inputs)
        self.cfg = cfg
        self.R = R
        self.engine = engine
        self.failures = []
        self.slack = slack
        self.trace = []
        self.checks = 0
        self.rng = rng

    def _get(self, name, default, kind=None, lo=None, hi=None):
        v = self.inputs_given.get(name)
        if v is None:
            if self.rng is None:
                return default
            if kind == 'int':
                v = self.rng.randint(int(lo), int(hi))
            else:
                lo, hi = Fraction(lo), Fraction(hi)
                v = lo + (hi - lo) * Fraction(self.rng.randint(0, 1 << 10), 1 << 10)
                q = Fraction(round(v * 64), 64)
                if lo <= q <= hi:
                    v = q
                v = [v.numerator, v.denominator]
            self.inputs_given[name] = v
        if isinstance(v, (list, tuple)):
            return float(Fraction(v[0], v[1]))
        return v

    def real(self, name, lo, hi, nice=True):
        return float(self._get(name, min(max(0.0, float(lo)), float(hi)), 'real', lo, hi))

    def int(self, name, lo, hi):
        return int(self._get(name, lo, 'int', lo, hi))

    def bool(self, name):
        return bool(self._get(name, 0, 'int', 0, 1))

    def choose(self, name, options):
        if len(options) == 1:
            return options[0]
        return options[int(self._get(name, 0, 'int', 0, len(options) - 1))]

    def vec(self, name, n, lo=-8, hi=8):
        return [self.real('%s_%d' % (name, i), lo, hi) for i in range(n)]

    def arr(self, name, shape, lo=-8, hi=8, dtype='float32'):
        import numpy as np
        dt = np.dtype(dtype)
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        n = 1
        for d in shape:
            n *= d
        if dt.kind == 'f':
            v = self.vec(name, n, lo, hi)
        else:
            v = [self.int('%s_%d' % (name, i), lo, hi) for i in range(n)]
        return self.farr(v, dt, shape)

    def farr(self, values, dtype='float32', shape=None):
        import numpy as np
        dt = np.dtype(dtype)
        values = list(values)
        shape = shape if shape is not None else (len(values),)
        if self.engine:
            from .nps import mk_list, cast_element
            return mk_list([cast_element(v, dt) for v in values], shape, dt)
        return np.array(values).astype(dt).reshape(shape)

    def vals(self, a):
        return flat_values(a)

    def text(self, v):
        return repr(v.item() if hasattr(v, 'item') else v)

    def number(self, text):
        return float(text)

    def pack(self, fmt, v):
        import struct
        return struct.pack('<' + fmt, v)

    def write_data(self, path, values, dtype, header=b''):
        import numpy as np
        with open(path, 'wb') as f:
            f.write(header + np.asarray(values).astype(dtype).tobytes())

    call = SymCtx.call
    must_raise = SymCtx.must_raise
    must_raise_type = SymCtx.must_raise_type

    def assume(self, c):
        if not bool(c):
            raise PathInfeasible()

    def check(self, cond, label, detail=''):
        self.checks += 1
        c = bool(cond)
        self.trace.append(1.0 if c else 0.0)
        if not c:
            self.failures.append((label, str(detail)))
            raise StopPath()
        return True

    def check_all(self, conds, label, detail=''):
        return self.check(all(bool(c) for c in conds), label, detail)

    def close_cond(self, a, b, tol):
        a, b = float(a), float(b)
        self.trace.append(a)
        if a != a and b != b:
            return True
        if a == b:
            return True
        return abs(a - b) <= tol * self.slack

    def close(self, a, b, label, tol=1e-3, detail=''):
        return self.check(self.close_cond(a, b, tol), label, detail or '%r vs %r' % (float(a), float(b)))

    def close_all(self, pairs, label, tol=1e-3, detail=''):
        for a, b in pairs:
            if not self.close_cond(a, b, tol):
                return self.check(False, label, '%s: %r vs %r' % (detail, float(a), float(b)))
        return self.check(True, label)
    same_all = close_all

    def note(self, *a):
        pass

    def is_sym(self, x):
        return False


def run_concrete(harness, ctx):
    """run a harness on a concrete context; returns a result dict"""
    out = {'status': 'ok', 'failures': ctx.failures}
    try:
        harness(ctx)
    except PathInfeasible:
        out['status'] = 'infeasible'
    except StopPath:
        out['status'] = 'failed'
    except Control as e:
        out['status'] = 'unsupported'
        out['error'] = '%s: %s' % (type(e).__name__, e)
    except Exception as e:
        out['status'] = 'failed'
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = '; '.join('%s:%d %s' % (f.filename.rsplit('/', 1)[-1], f.lineno, f.name) for f in tb[-3:])
        ctx.failures.append(('exception', '%s: %s [%s]' % (type(e).__name__, e, where)))
    except BaseException as e:
        if type(e).__name__ == 'CppUB':
            out['status'] = 'failed'
            ctx.failures.append(('exception', 'CppUB: %s' % e))
        else:
            raise
    out['checks'] = ctx.checks
    out['trace'] = ctx.trace[:5000]
    out['inputs'] = ctx.inputs_given
    return out


def explore(harness, opts):
    """Run a harness over all its paths. Returns a result dict."""
    global CTX
    stats = Stats()
    stack = [[]]
    res = {'violations': [], 'inconclusive': [], 'stats': None, 'complete': True, 'witnesses': [], 'probes': []}
    nunsup = 0
    prng = random.Random(opts.get('seed', 0))
    max_paths = opts.get('max_paths', 5000)
    max_viol = opts.get('max_violations', 3)
    t0 = time.time()
    opts = dict(opts)
    opts['deadline'] = t0 + opts.get('budget_s', 60)
    nchecks_paths = 0
    while stack:
        prefix = stack.pop()
        if stats.paths + stats.infeasible >= max_paths:
            res['complete'] = False
            res['inconclusive'].append('path budget (%d)' % max_paths)
            break
        ctx = SymCtx(prefix, stats, opts)
        ctx.R = opts.get('R')
        CTX = ctx
        if hasattr(ctx.R, 'restart'):
            ctx.R.restart()
        c0 = stats.checks
        try:
            harness(ctx)
            stats.paths += 1
            if len(res['witnesses']) < opts.get('max_witnesses', 2) and stats.checks > c0:
                w = ctx.witness()
                if w is not None:
                    res['witnesses'].append(w)
        except PathInfeasible:
            stats.infeasible += 1
        except StopPath:
            stats.paths += 1
        except Unsupported as e:
            res['inconclusive'].append('unsupported: %s' % e)
            res['complete'] = False
            if os.environ.get('VP_DEBUG'):
                import traceback
                traceback.print_exc()
            # inputs that lead here are executed on the real code
            nunsup += 1
            res['probes'].extend(ctx.probes(6 if nunsup == 1 else 2, prng))
            if nunsup >= 12 or time.time() > opts['deadline']:
                break
        except Budget as e:
            res['inconclusive'].append('budget: %s' % e)
            res['complete'] = False
            res['probes'].extend(ctx.probes(2, prng))
            break
        except (Exception, CodeUB) as e:
            # the code under test raised where the harness expects no exception
            if os.environ.get('VP_DEBUG'):
                import traceback
                traceback.print_exc()
            stats.paths += 1
            stats.checks += 1
            try:
                r = ctx._check()
                if r == z3.unsat:
                    pass
                elif r == z3.unknown:
                    ctx.inconclusive.append('exception %r on an undecided path' % (e,))
                else:
                    ctx.fail('exception', '%s: %s' % (type(e).__name__, e), None)
            except StopPath:
                pass
            except Budget as e2:
                res['inconclusive'].append('budget: %s' % e2)
                res['complete'] = False
        finally:
            CTX = None
        if stats.checks > c0:
            nchecks_paths += 1
        stack.extend(ctx.pending)
        stack[:0] = ctx.late
        for v in ctx.violations:
            res['violations'].append({'label': v.label, 'detail': v.detail, 'inputs': v.inputs})
        if ctx.inconclusive:
            res['inconclusive'].extend('unknown: %s' % x for x in ctx.inconclusive)
            res['complete'] = False
            if len(res['probes']) < 12:
                res['probes'].extend(ctx.probes(2, prng))
        if len(res['violations']) >= max_viol:
            res['complete'] = False
            break
    if nchecks_paths == 0 and not res['violations'] and not res['inconclusive']:
        res['inconclusive'].append('vacuous: no path reached a check')
        res['complete'] = False
    res['inconclusive'] = sorted(set(res['inconclusive']))
    res['stats'] = stats.as_dict()
    res['paths_with_checks'] = nchecks_paths
    res['wall_s'] = time.time() - t0
    return res
