"""LLVM IR (textual, -O1, scalar) -> Python functions over the executor's
memory.  Integers and pointers are concrete, floating-point values may be
symbolic terms.  Anything outside the supported subset raises Unsupported when
it is reached, never silently."""
import math
import re
import struct
from fractions import Fraction

from .core import (CodeUB, Sym, SymBool, Unsupported, Control, ite, floor, sqrt, ufn, maximum, minimum, trunc, cur)

TOK = re.compile(r'''\s*(?:
  (?P<str>c"[^"]*") |
  (?P<name>[%@](?:"[^"]*"|[-\w.$]+)) |
  (?P<num>-?\d+\.\d*(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+) |
  (?P<meta>!(?:"[^"]*"|[\w.]*)) |
  (?P<attr>\#\d+) |
  (?P<word>[A-Za-z_.][\w.]*|\$"[^"]*"|\$[\w.]+) |
  (?P<ell>\.\.\.) |
  (?P<qs>"[^"]*") |
  (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)


def lex(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise Unsupported('lex: %r' % s[i:i + 40])
        i = m.end()
        out.append(m.group(m.lastgroup))
    return out


class T:
    """type"""
    __slots__ = ('k', 'n', 'e', 'fields', 'packed', 'name')

    def __init__(self, k, n=0, e=None, fields=None, packed=False, name=None):
        self.k, self.n, self.e, self.fields, self.packed, self.name = k, n, e, fields, packed, name

    def __repr__(self):
        return '%s%s' % (self.k, self.n or '')


PARAM_ATTRS = {'noundef', 'nonnull', 'nocapture', 'readonly', 'readnone', 'writeonly', 'noalias', 'signext', 'zeroext',
               'returned', 'immarg', 'writable', 'dead_on_unwind', 'nofree', 'inreg', 'swiftself', 'noext', 'allocptr',
               'allocalign', 'dead_on_return'}
PARAM_ATTRS_P = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'captures',
                 'range', 'nofpclass', 'initializes', 'memory', 'preallocated', 'inalloca', 'byref'}
CC = {'fastcc', 'ccc', 'coldcc', 'tail', 'musttail', 'notail', 'dso_local', 'local_unnamed_addr', 'unnamed_addr',
      'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


class P:
    """token stream"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise Unsupported('expected %r at %r' % (x, self.t[self.i:self.i + 8]))

    def type(self):
        t = self.next()
        if t is None:
            raise Unsupported('type expected')
        if t == '{':
            f = []
            while not self.accept('}'):
                f.append(self.type())
                self.accept(',')
            r = T('struct', fields=f)
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = T('array', n, e)
        elif t == '<':
            if self.accept('{'):
                f = []
                while not self.accept('}'):
                    f.append(self.type())
                    self.accept(',')
                self.expect('>')
                r = T('struct', fields=f, packed=True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                r = T('vector', n, e)
        elif t[0] == '%':
            r = T('named', name=t)
        elif re.fullmatch(r'i\d+', t):
            r = T('int', int(t[1:]))
        elif t in ('float', 'double', 'ptr', 'void', 'label', 'metadata', 'half', 'x86_fp80', 'fp128', 'token'):
            r = T(t)
        elif t == 'opaque':
            r = T('struct', fields=[])
        else:
            raise Unsupported('type %r' % t)
        while self.peek() == '*':
            self.next()
            r = T('ptr')
        if self.peek() == '(' and False:
            pass
        return r

    def skip_attrs(self):
        """skip parameter attributes; returns dict of byval/sret types"""
        r = {}
        while True:
            t = self.peek()
            if t in PARAM_ATTRS:
                self.next()
            elif t in PARAM_ATTRS_P:
                self.next()
                if self.accept('('):
                    j = self.i
                    if t in ('byval', 'sret'):
                        r[t] = self.type()
                    self.i = j
                    d = 1
                    while d:
                        x = self.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                elif t == 'align':
                    self.next()
            elif t and t[0] == '"':
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return r


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.parse(text)

    # -- layout
    def resolve(self, t):
        while t.k == 'named':
            if t.name not in self.types:
                raise Unsupported('opaque type %s' % t.name)
            t = self.types[t.name]
        return t

    def size_align(self, t):
        t = self.resolve(t)
        k = t.k
        if k == 'int':
            s = max(1, 1 << max(0, ((t.n + 7) // 8 - 1).bit_length()))
            return s, min(s, 16)
        if k == 'float':
            return 4, 4
        if k in ('double', 'ptr'):
            return 8, 8
        if k == 'array':
            s, a = self.size_align(t.e)
            return s * t.n, a
        if k == 'struct':
            off, al = 0, 1
            for f in t.fields:
                s, a = self.size_align(f)
                if t.packed:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if k == 'vector':
            s, a = self.size_align(t.e)
            return s * t.n, s * t.n
        raise Unsupported('size of %s' % k)

    def field_off(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, f in enumerate(t.fields):
            s, a = self.size_align(f)
            if t.packed:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += s
        raise Unsupported('field index')

    # -- parsing
    def parse(self, text):
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = type (.*)$', l)
                if m:
                    if m.group(2).strip() != 'opaque':
                        self.types[m.group(1)] = P(lex(m.group(2)), self).type()
            elif l.startswith('@'):
                self.parse_global(l)
            elif l.startswith('declare'):
                m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', l)
                if m:
                    self.decls.add(m.group(1))
            elif l.startswith('define'):
                body = []
                hdr = l
                i += 1
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', hdr)
                self.funcs[m.group(1)] = (hdr, body)
            i += 1

    def parse_global(self, l):
        m = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*)$', l)
        self.globals[m.group(1)] = m.group(2)


def sani(n):
    return 'v_' + re.sub(r'\W', lambda m: '_%x_' % ord(m.group(0)), n[1:].strip('"'))


def bits_to_f32(b):
    return struct.unpack('<f', struct.pack('<I', b & 0xffffffff))[0]


def bits_to_f64(b):
    return struct.unpack('<d', struct.pack('<Q', b & 0xffffffffffffffff))[0]


_pk = struct.Struct('<f')
_pack, _unpack = _pk.pack, _pk.unpack


def r32(x):
    """round to float32"""
    if x.__class__ is float:
        try:
            return _unpack(_pack(x))[0]
        except OverflowError:
            return math.inf if x > 0 else -math.inf
    if x.__class__ is int:
        return r32(float(x))
    return x


class Undef:
    """uninitialised value: may be copied, not used"""
    __slots__ = ()

    def __repr__(self):
        return 'undef'

    def __bool__(self):
        raise CppUB('branch on an uninitialised value')

    def __eq__(self, o):
        raise CppUB('use of an uninitialised value')

    def __hash__(self):
        return 0
    __lt__ = __le__ = __gt__ = __ge__ = __ne__ = __eq__


def _u(self, *a):
    raise CppUB('use of an uninitialised value')


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'and', 'rand', 'or', 'ror', 'xor', 'rxor',
           'lshift', 'rshift', 'rlshift', 'rrshift', 'floordiv', 'mod', 'rfloordiv', 'rmod', 'neg', 'abs', 'index', 'float', 'int'):
    setattr(Undef, '__%s__' % _n, _u)
UNDEF = Undef()


class CppUB(CodeUB):
    """memory error / undefined behaviour of the C++ code"""


class CppException(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind, self.msg = kind, msg


class Opaque:
    """bits moved through integer registers: [(offset, size, value)]"""
    __slots__ = ('pieces', 'size')

    def __init__(self, pieces, size):
        self.pieces, self.size = pieces, size


MASKP = (1 << 40) - 1
M64 = (1 << 64) - 1


class Obj:
    __slots__ = ('size', 'cells', 'gran', 'zero', 'name', 'freed', 'ro', 'fn')

    def __init__(self, size, name):
        self.size, self.name = size, name
        self.cells = {}
        self.gran = 0        # uniform cell size, 0 = empty, -1 = mixed
        self.zero = None
        self.freed = False
        self.ro = False
        self.fn = None


class Memory:
    def __init__(self):
        self.objs = {}
        self.nid = 1
        self.count = 0

    def alloc(self, size, name):
        if size < 0 or size >= (1 << 36):
            raise CppException('std::bad_alloc', 'allocation of %d bytes' % size)
        o = Obj(size, name)
        i = self.nid
        self.nid += 1
        self.objs[i] = o
        return i << 40

    def get(self, p, size, write=False):
        o = self.objs.get(p >> 40)
        if o is None:
            raise CppUB('%s through invalid pointer 0x%x' % ('write' if write else 'read', p))
        off = p & MASKP
        if o.freed:
            raise CppUB('use after free of %s' % o.name)
        if off + size > o.size:
            raise CppUB('out-of-bounds %s: offset %d size %d of %s (%d bytes)' % (
                'write' if write else 'read', off, size, o.name, o.size))
        return o, off

    # cells hold (size, value)
    def load(self, p, size):
        if p.__class__ is not int:
            raise CppUB('read through an uninitialised pointer')
        o = self.objs.get(p >> 40)
        off = p & MASKP
        if o is None or o.freed or off + size > o.size:
            self.get(p, size)
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        return self.slow_load(o, off, size)

    def slow_load(self, o, off, size):
        pieces = []
        pos = off
        end = off + size
        if o.gran == size and off % size == 0 and o.cells.get(off) is None:
            cov = []
        else:
            cov = sorted((k, v) for k, v in o.cells.items() if k < end and k + v[0] > off) if o.cells else []
        if not cov:
            if o.zero and any(a <= off and end <= b for a, b in o.zero):
                return 0
            return UNDEF
        allc = True
        bs = bytearray()
        for k, (s, v) in cov:
            if k > pos:
                if o.zero and any(a <= pos and k <= b for a, b in o.zero):
                    bs += b'\0' * (k - pos)
                    pieces.append((pos - off, k - pos, 0))
                    pos = k
                else:
                    return UNDEF
            b = cell_bytes(v, s)
            if b is None:
                allc = False
                if k < off or k + s > end:
                    raise Unsupported('partial load of a symbolic value')
            else:
                lo, hi = max(k, off), min(k + s, end)
                bs += b[lo - k:hi - k]
            pieces.append((k - off, s, v))
            pos = k + s
        if pos < end:
            if o.zero and any(a <= pos and end <= b for a, b in o.zero):
                bs += b'\0' * (end - pos)
                pieces.append((pos - off, end - pos, 0))
            else:
                return UNDEF
        if allc:
            return int.from_bytes(bytes(bs[:size]), 'little')
        return Opaque(pieces, size)

    def store(self, p, size, v):
        if p.__class__ is not int:
            raise CppUB('write through an uninitialised pointer')
        o = self.objs.get(p >> 40)
        off = p & MASKP
        if o is None or o.freed or off + size > o.size:
            self.get(p, size, True)
        if o.ro:
            raise CppUB('write to constant memory %s' % o.name)
        if v.__class__ is Opaque:
            for a, s, x in v.pieces:
                self.store(p + a, s, x)
            return
        g = o.gran
        if g == size and off % size == 0:
            o.cells[off] = (size, v)
            return
        if g == 0 and off % size == 0:
            o.gran = size
            o.cells[off] = (size, v)
            return
        o.gran = -1
        # remove overlapped cells (split concrete ones)
        end = off + size
        for k in range(max(0, off - 15), end):
            c = o.cells.get(k)
            if c is None or k + c[0] <= off:
                continue
            if k == off and c[0] == size:
                continue
            del o.cells[k]
            if k < off or k + c[0] > end:
                b = cell_bytes(c[1], c[0])
                if b is None:
                    raise Unsupported('partial overwrite of a symbolic value')
                for j in range(c[0]):
                    if not (off <= k + j < end):
                        o.cells[k + j] = (1, b[j])
        o.cells[off] = (size, v)

    def memcpy(self, d, s, n):
        if n == 0:
            return
        so, soff = self.get(s, n)
        do, doff = self.get(d, n, True)
        if do.ro:
            raise CppUB('write to constant memory %s' % do.name)
        g = so.gran
        pieces = []
        if g > 0 and soff % g == 0 and n % g == 0:
            cells = so.cells
            for k in range(soff, soff + n, g):
                c = cells.get(k)
                if c is not None:
                    pieces.append((k - soff, g, c[1]))
                elif so.zero and any(a <= k and k + g <= b for a, b in so.zero):
                    pieces.append((k - soff, g, 0))
                else:
                    pieces.append((k - soff, g, UNDEF))
        elif g == 0:
            if so.zero and any(a <= soff and soff + n <= b for a, b in so.zero):
                self.memset(d, 0, n)
                return
            pieces = None
        else:
            pos = soff
            end = soff + n
            for k, (cs, v) in sorted((k, v) for k, v in so.cells.items() if k < end and k + v[0] > soff):
                if k < soff or k + cs > end:
                    b = cell_bytes(v, cs)
                    if b is None:
                        raise Unsupported('partial copy of a symbolic value')
                    for j in range(cs):
                        if soff <= k + j < end:
                            pieces.append((k + j - soff, 1, b[j]))
                else:
                    pieces.append((k - soff, cs, v))
        # clear destination, then write
        self.clear(do, doff, n)
        if pieces is None:
            return
        for a, cs, v in pieces:
            self.store(d + a, cs, v)

    def clear(self, o, off, n):
        end = off + n
        g = o.gran
        if g > 0 and off % g == 0 and n % g == 0:
            for k in range(off, end, g):
                o.cells.pop(k, None)
        else:
            for k in [k for k, v in o.cells.items() if k < end and k + v[0] > off]:
                c = o.cells[k]
                if k >= off and k + c[0] <= end:
                    del o.cells[k]
                else:
                    o.gran = -1
                    b = cell_bytes(c[1], c[0])
                    if b is None:
                        raise Unsupported('partial overwrite of a symbolic value')
                    del o.cells[k]
                    for j in range(c[0]):
                        if not (off <= k + j < end):
                            o.cells[k + j] = (1, b[j])
        if o.zero:
            z = []
            for a, b in o.zero:
                if a < off:
                    z.append((a, min(b, off)))
                if b > end:
                    z.append((max(a, end), b))
            o.zero = [x for x in z if x[0] < x[1]] or None

    def memset(self, d, v, n):
        if n == 0:
            return
        o, off = self.get(d, n, True)
        self.clear(o, off, n)
        if v == 0:
            o.zero = (o.zero or []) + [(off, off + n)]
        else:
            for k in range(n):
                self.store(d + k, 1, v)

    def cstr(self, p):
        o, off = self.get(p, 1)
        b = bytearray()
        while True:
            c = self.load(p, 1)
            if not isinstance(c, int):
                raise CppUB('unterminated string')
            if c == 0:
                return b.decode('latin1')
            b.append(c)
            p += 1


def cell_bytes(v, s):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return (v & ((1 << (8 * s)) - 1)).to_bytes(s, 'little')
    if isinstance(v, float):
        return struct.pack('<f' if s == 4 else '<d', v)
    return None


# ------------------------------------------------------------ runtime helpers
def h_ldf(M, p, size):
    v = M.load(p, size)
    c = v.__class__
    if c is float or c is Sym:
        return v
    if c is int:
        return bits_to_f32(v) if size == 4 else bits_to_f64(v)
    if c is Opaque and len(v.pieces) == 1 and v.pieces[0][0] == 0 and v.pieces[0][1] == size:
        return v.pieces[0][2]
    if v is UNDEF:
        return v
    if c is Fraction:
        return v
    raise Unsupported('float load of %r' % (v,))


def h_ldi(M, p, size, mask):
    v = M.load(p, size)
    c = v.__class__
    if c is int:
        return v & mask
    if c is float:
        return int.from_bytes(struct.pack('<f' if size == 4 else '<d', v), 'little')
    if v is UNDEF or c is Opaque:
        return v
    if c is SymBool:
        return v
    if c is bool:
        return int(v)
    if c is Sym:
        return Opaque([(0, size, v)], size)
    raise Unsupported('integer load of %r' % (v,))


def h_int(v):
    """a concrete integer (forks on a symbolic boolean)"""
    if v.__class__ is int:
        return v
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, SymBool):
        return int(bool(v))
    if v is UNDEF:
        raise CppUB('use of an uninitialised value')
    raise Unsupported('integer operation on %r' % (v,))


def h_fdiv(a, b):
    if isinstance(a, float) and isinstance(b, float):
        if b == 0.0:
            if a != a or a == 0.0:
                return math.nan
            return math.copysign(math.inf, a) * math.copysign(1.0, b)
        return a / b
    if isinstance(b, float) and b == 0.0 and isinstance(a, Sym):
        if bool(a > 0):
            return math.inf * math.copysign(1.0, b)
        if bool(a < 0):
            return -math.inf * math.copysign(1.0, b)
        return math.nan
    if isinstance(b, Sym):
        if bool(b == 0):
            if isinstance(a, Sym):
                return math.inf if bool(a > 0) else (-math.inf if bool(a < 0) else math.nan)
            return math.nan if a == 0 or a != a else math.copysign(math.inf, a)
    return a / b


def h_fneg(a):
    return -a


def h_frem(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return math.fmod(a, b) if b != 0 and a - a == 0 else math.nan
    if is_zero_const(b):
        raise CppUB('fmod by zero')
    return a - b * m_trunc(h_fdiv(a, b))


def is_zero_const(b):
    return isinstance(b, float) and b == 0.0


def h_fcmp(pred, a, b):
    if isinstance(a, float) and isinstance(b, float):
        un = a != a or b != b
        if pred == 'ord':
            return not un
        if pred == 'uno':
            return un
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        if un:
            return pred[0] == 'u'
        k = pred[1:]
        return {'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b, 'eq': a == b, 'ne': a != b}[k]
    if a is UNDEF or b is UNDEF:
        raise CppUB('comparison of an uninitialised value')
    for x in (a, b):
        if isinstance(x, float) and x != x:
            return pred[0] == 'u' or pred == 'uno'
    if pred == 'ord':
        return True
    if pred == 'uno':
        return False
    k = pred[1:]
    if k == 'gt':
        return a > b
    if k == 'ge':
        return a >= b
    if k == 'lt':
        return a < b
    if k == 'le':
        return a <= b
    if k == 'eq':
        return a == b
    if k == 'ne':
        return a != b
    return {'true': True, 'false': False}[pred]


def h_sel(c, a, b):
    if c.__class__ is SymBool:
        if a.__class__ is int and b.__class__ is int:
            if a == b:
                return a
            return a if bool(c) else b
        if a is UNDEF or b is UNDEF:
            return a if bool(c) else b
        if isinstance(a, (float, Sym, SymBool, bool)) and isinstance(b, (float, Sym, SymBool, bool)):
            for x in (a, b):
                if isinstance(x, float) and x - x != 0.0:
                    return a if bool(c) else b
            return ite(c, a, b)
        return a if bool(c) else b
    return a if c else b


def h_fptoui(a, bits, signed):
    if isinstance(a, float):
        if a != a or a - a != 0.0:
            raise CppUB('float to integer conversion of %r' % a)
        v = int(a)
    elif isinstance(a, Sym):
        v = cur().concretize(trunc(a))
    elif a is UNDEF:
        raise CppUB('conversion of an uninitialised value')
    else:
        raise Unsupported('fptoui of %r' % (a,))
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    if not (lo <= v <= hi):
        raise CppUB('float to integer conversion out of range: %d' % v)
    return v & ((1 << bits) - 1)


def h_sgn(v, bits):
    v = h_int(v)
    return v - (1 << bits) if v >> (bits - 1) else v


def h_div(a, b, signed, bits, rem):
    if signed:
        a, b = h_sgn(a, bits), h_sgn(b, bits)
    else:
        a, b = h_int(a), h_int(b)
    if b == 0:
        raise CppUB('integer division by zero')
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0):
        q = -q
    r = a - q * b
    return (r if rem else q) & ((1 << bits) - 1)


def h_icmp(pred, a, b, bits):
    if a.__class__ is not int:
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            if pred == 'eq':
                return (a == b) if isinstance(a, SymBool) else (b == a)
            if pred == 'ne':
                return (a != b) if isinstance(a, SymBool) else (b != a)
        a = h_int(a)
    if b.__class__ is not int:
        b = h_int(b)
    if pred[0] == 's':
        a, b = h_sgn(a, bits), h_sgn(b, bits)
    k = pred[-2:]
    return {'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b, 'eq': a == b, 'ne': a != b}[k]


def h_fma(a, b, c, single, fused):
    if isinstance(a, float) and isinstance(b, float) and isinstance(c, float):
        if fused and all(x - x == 0.0 for x in (a, b, c)):
            v = Fraction(a) * Fraction(b) + Fraction(c)
            try:
                f = float(v)
            except OverflowError:
                return a * b + c
            if single:
                # one rounding to float32: round-half-even on the exact value
                return f32_from_fraction(v)
            return f
        x = a * b
        if single:
            x = r32(x)
        x = x + c
        return r32(x) if single else x
    return a * b + c


def f32_from_fraction(v):
    if v == 0:
        return 0.0
    s = -1 if v < 0 else 1
    v = abs(v)
    e = v.numerator.bit_length() - v.denominator.bit_length()
    if Fraction(2) ** e > v:
        e -= 1
    q = max(e - 23, -149)
    m = v / Fraction(2) ** q
    n = m.numerator // m.denominator
    r = m - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
        n += 1
    return s * float(n * Fraction(2) ** q)


def m_floor(x):
    if isinstance(x, float):
        return float(math.floor(x)) if x - x == 0.0 else x
    if isinstance(x, Sym):
        f = floor(x)
        return Sym(f.t, False) if isinstance(f, Sym) else float(f)
    return x.__float__()


def m_ceil(x):
    return -m_floor(-x)


def m_trunc(x):
    if isinstance(x, float):
        return float(math.trunc(x)) if x - x == 0.0 else x
    t = trunc(x)
    return Sym(t.t, False) if isinstance(t, Sym) else float(t)


def m_round(x):
    """half away from zero"""
    if isinstance(x, float):
        if x - x != 0.0:
            return x
        return math.copysign(math.floor(abs(x) + 0.5) if abs(x) < 2**52 else abs(x), x)
    if bool(x >= 0):
        return m_floor(x + 0.5)
    return -m_floor(-x + 0.5)


def m_rint(x):
    if isinstance(x, float):
        return float(round(x)) if x - x == 0.0 else x
    from .core import roundhalfeven, to_real
    return to_real(roundhalfeven(x))


def m_sqrt(x):
    if isinstance(x, float):
        return math.sqrt(x) if x >= 0 else (math.nan if x == x else x)
    return sqrt(x)


def m_pow(a, b):
    if isinstance(a, float) and isinstance(b, float):
        try:
            return math.pow(a, b)
        except OverflowError:
            return math.inf
        except (ValueError, ZeroDivisionError):
            return math.nan
    if isinstance(b, float) and b == int(b) and abs(b) < 64:
        return a ** int(b) if b >= 0 else h_fdiv(1.0, a ** int(-b))
    if isinstance(b, float) and b == 0.5:
        return sqrt(a)
    raise Unsupported('pow of symbolic values')


def m_log(x):
    if isinstance(x, float):
        return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)
    return ufn('log', x)


def m_exp(x):
    if isinstance(x, float):
        try:
            return math.exp(x)
        except OverflowError:
            return math.inf
    return ufn('exp', x)


def m_fabs(x):
    return abs(x)


def m_max(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return b if a != a else (a if b != b else max(a, b))
    return maximum(a, b)


def m_min(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return b if a != a else (a if b != b else min(a, b))
    return minimum(a, b)


def m_log2(x):
    return m_log(x) / math.log(2.0) if not isinstance(x, float) else (math.log2(x) if x > 0 else m_log(x))


def m_log10(x):
    return m_log(x) / math.log(10.0) if not isinstance(x, float) else (math.log10(x) if x > 0 else m_log(x))


def m_copysign(a, b):
    if isinstance(b, float):
        return abs(a) if math.copysign(1.0, b) > 0 else -abs(a)
    return abs(a) if bool(b >= 0) else -abs(a)


def m_hypot(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return math.hypot(a, b)
    return m_sqrt(a * a + b * b)


def m_exp2(x):
    return 2.0 ** x if isinstance(x, float) else m_pow(2.0, x)


def m_log1p(x):
    return (math.log1p(x) if x > -1 else m_log(1.0 + x)) if isinstance(x, float) else m_log(1.0 + x)


def m_expm1(x):
    return math.expm1(x) if isinstance(x, float) else m_exp(x) - 1.0


def m_fdim(a, b):
    return m_max(a - b, 0.0)


def ufm(name):
    g = getattr(math, name)

    def f(x):
        return g(x) if isinstance(x, float) else ufn(name, x)
    return f


MATH1 = {'floor': m_floor, 'ceil': m_ceil, 'trunc': m_trunc, 'round': m_round, 'rint': m_rint, 'nearbyint': m_rint,
         'sqrt': m_sqrt, 'log': m_log, 'exp': m_exp, 'fabs': m_fabs, 'log2': m_log2, 'log10': m_log10, 'roundeven': m_rint,
         'exp2': m_exp2, 'log1p': m_log1p, 'expm1': m_expm1, 'sin': ufm('sin'), 'cos': ufm('cos'), 'erf': ufm('erf'),
         'cbrt': ufm('cbrt')}
MATH2 = {'pow': m_pow, 'fmax': m_max, 'fmin': m_min, 'maxnum': m_max, 'minnum': m_min, 'copysign': m_copysign,
         'fmod': h_frem, 'maximum': m_max, 'minimum': m_min, 'hypot': m_hypot, 'fdim': m_fdim}
TOINT = {'lround': m_round, 'llround': m_round, 'lrint': m_rint, 'llrint': m_rint}
for _k, _f in TOINT.items():
    MATH1['i_' + _k] = _f


class FuncGen:
    """generate Python source for one IR function"""

    def __init__(self, ex, name, hdr, body):
        self.ex, self.mod, self.name = ex, ex.mod, name
        self.hdr, self.body = hdr, body
        self.lines = []

    def gen(self):
        h = self.hdr
        m = re.search(re.escape(self.name) + r'\(', h)
        p = P(lex(h[m.end() - 1:]), self.mod)
        p.expect('(')
        params = []
        byval = []
        n = 0
        while not p.accept(')'):
            if p.accept('...'):
                continue
            t = p.type()
            at = p.skip_attrs()
            nm = p.peek()
            if nm and nm[0] == '%':
                p.next()
            else:
                nm = '%%%d' % n
            n += 1
            params.append(sani(nm))
            if 'byval' in at:
                byval.append((sani(nm), self.mod.size_align(at['byval'])[0]))
            p.accept(',')
        # blocks
        blocks = []
        curb = None
        first = None
        k = 0
        body = self.body
        while k < len(body):
            l = body[k]
            k += 1
            if not l.strip() or l.strip().startswith(';'):
                continue
            mm = re.match(r'^("[^"]*"|[-\w.$]+):', l)
            if mm:
                curb = (mm.group(1).strip('"'), [])
                blocks.append(curb)
                continue
            if curb is None:
                curb = (str(len(params)), [])
                blocks.append(curb)
                first = curb[0]
            s = l.strip()
            # multi-line constructs
            if re.match(r'switch ', s) and not s.rstrip().endswith(']'):
                while not body[k].strip().startswith(']'):
                    s += ' ' + body[k].strip()
                    k += 1
                s += ' ]'
                k += 1
            elif ' = landingpad' in s or re.match(r'(%\S+ = )?(tail |musttail |notail )?invoke ', s) or ' invoke ' in s:
                while k < len(body) and body[k].startswith('     ') and body[k].strip():
                    s += ' ' + body[k].strip()
                    k += 1
            curb[1].append(s)
        self.idx = {b[0]: i for i, b in enumerate(blocks)}
        self.catching = {n for n, ins in blocks
                         if any('landingpad' in x and re.search(r'\b(catch|filter)\b', x) for x in ins)}
        # phis
        self.phis = {}
        for name, ins in blocks:
            for s in ins:
                mm = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = phi ', s)
                if mm:
                    pp = P(lex(s[mm.end():]), self.mod)
                    while pp.peek() in CC:
                        pp.next()
                    t = pp.type()
                    while pp.accept('['):
                        v = self.value(pp, t)
                        pp.expect(',')
                        src = pp.next()[1:].strip('"')
                        pp.expect(']')
                        self.phis.setdefault((src, name), []).append((sani(mm.group(1)), v))
                        if not pp.accept(','):
                            break
        out = []
        out.append('def F(%s):' % ', '.join(params))
        for v, sz in byval:
            out.append('  _t = M.alloc(%d, "byval"); M.memcpy(_t, %s, %d); %s = _t' % (sz, v, sz, v))
        code = []
        for name, ins in blocks:
            self.lines = []
            self.cur = name
            for s in ins:
                if ' = phi ' in s:
                    continue
                try:
                    self.inst(s)
                except Unsupported as e:
                    self.lines.append('unsup(%r)' % ('%s: %s' % (self.name, e)))
            code.append(self.lines)
        out.append('  bb = 0')
        out.append('  while True:')
        self.tree(out, code, 0, len(code), 2)
        return '\n'.join(out) + '\n'

    def tree(self, out, code, lo, hi, ind):
        pad = '  ' * ind
        if hi - lo == 1:
            for l in code[lo]:
                for x in l.split('\n'):
                    out.append(pad + x)
            if not code[lo]:
                out.append(pad + 'pass')
            return
        mid = (lo + hi) // 2
        out.append(pad + 'if bb < %d:' % mid)
        self.tree(out, code, lo, mid, ind + 1)
        out.append(pad + 'else:')
        self.tree(out, code, mid, hi, ind + 1)

    def goto(self, target):
        ph = self.phis.get((self.cur, target), [])
        s = ''
        if ph:
            if len(ph) == 1:
                if ph[0][0] != ph[0][1]:
                    s += '%s = %s; ' % ph[0]
            else:
                s += '%s = %s; ' % (', '.join(a for a, b in ph), ', '.join(b for a, b in ph))
        return s + 'bb = %d' % self.idx[target]

    # -- values
    def value(self, p, t):
        x = p.next()
        if x is None:
            raise Unsupported('value expected')
        if x[0] == '%':
            return sani(x)
        if x[0] == '@':
            return 'G(%r)' % x
        k = self.mod.resolve(t).k if t.k == 'named' else t.k
        if x in ('undef', 'poison'):
            return 'UNDEF'
        if x == 'null':
            return '0'
        if x == 'true':
            return '1'
        if x == 'false':
            return '0'
        if x == 'zeroinitializer':
            return self.zero(t)
        if k == 'int':
            return str(int(x) & ((1 << t.n) - 1))
        if k in ('float', 'double'):
            if x.startswith('0x'):
                f = bits_to_f64(int(x[2:], 16))
            else:
                f = float(x)
            if f != f:
                return 'NAN'
            if f - f != 0.0:
                return 'INF' if f > 0 else '(-INF)'
            return '(%s)' % repr(f)
        if k == 'ptr' or x in ('getelementptr', 'inttoptr', 'bitcast', 'ptrtoint'):
            if x == 'getelementptr':
                while p.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    if p.next() == 'inrange' and p.peek() == '(':
                        while p.next() != ')':
                            pass
                p.expect('(')
                bt = p.type()
                p.expect(',')
                pt = p.type()
                base = self.value(p, pt)
                idx = []
                while p.accept(','):
                    it = p.type()
                    idx.append((it, self.value(p, it)))
                p.expect(')')
                return self.gep(bt, base, idx)
            if x in ('inttoptr', 'bitcast', 'ptrtoint', 'addrspacecast'):
                p.expect('(')
                st = p.type()
                v = self.value(p, st)
                p.expect('to')
                p.type()
                p.expect(')')
                return v
        if x == '{' or x == '[' or x == '<':
            close = {'{': '}', '[': ']', '<': '>'}[x]
            vs = []
            while not p.accept(close):
                et = p.type()
                vs.append(self.value(p, et))
                p.accept(',')
            return '[%s]' % ', '.join(vs)
        raise Unsupported('constant %r' % x)

    def zero(self, t):
        t = self.mod.resolve(t)
        if t.k in ('int', 'ptr'):
            return '0'
        if t.k in ('float', 'double'):
            return '0.0'
        if t.k == 'struct':
            return '[%s]' % ', '.join(self.zero(f) for f in t.fields)
        if t.k == 'array':
            return '[%s]' % ', '.join(self.zero(t.e) for _ in range(t.n))
        raise Unsupported('zero of %s' % t.k)

    def gep(self, bt, base, idx):
        terms = []
        c = 0
        t = bt
        for j, (it, v) in enumerate(idx):
            if j == 0:
                s = self.mod.size_align(t)[0]
            else:
                t = self.mod.resolve(t)
                if t.k == 'struct':
                    off, t = self.mod.field_off(t, int(v))
                    c += off
                    continue
                t = t.e
                s = self.mod.size_align(t)[0]
            if re.fullmatch(r'\d+', v):
                iv = int(v)
                if iv >> (it.n - 1):
                    iv -= 1 << it.n
                c += iv * s
            else:
                if it.n < 64:
                    v = 'h_sgn(%s, %d)' % (v, it.n)
                terms.append('%s*%d' % (v, s) if s != 1 else v)
        e = ' + '.join([base] + terms)
        if c:
            e += ' + %d' % c if c > 0 else ' - %d' % -c
        if not terms and not c:
            return base
        return '((%s) & 0xffffffffffffffff)' % e

    def tv(self, p):
        t = p.type()
        p.skip_attrs()
        return t, self.value(p, t)

    # -- instructions
    def inst(self, s):
        # strip trailing metadata
        p = P(lex(s), self.mod)
        dst = None
        if p.peek()[0] == '%' and p.peek(1) == '=':
            dst = sani(p.next())
            p.next()
        while p.peek() in ('tail', 'musttail', 'notail'):
            p.next()
        op = p.next()
        f = getattr(self, 'i_' + op, None)
        if f is None:
            f = self.generic(op)
            if f is None:
                raise Unsupported('instruction %s' % op)
        f(p, dst, op)

    def out(self, dst, e):
        self.lines.append('%s = %s' % (dst, e) if dst else e)

    def generic(self, op):
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            return self.intop
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return self.fop
        if op in ('zext', 'sext', 'trunc', 'fptrunc', 'fpext', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast',
                  'ptrtoint', 'inttoptr', 'addrspacecast'):
            return self.castop
        return None

    def intop(self, p, dst, op):
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
            p.next()
        t = p.type()
        if t.k != 'int':
            raise Unsupported('vector integer op')
        a = self.value(p, t)
        p.expect(',')
        b = self.value(p, t)
        mask = (1 << t.n) - 1
        if t.n == 1 and op in ('and', 'or', 'xor'):
            e = 'b_%s(%s, %s)' % (op, a, b)
        elif op in ('add', 'sub', 'mul'):
            e = '(%s %s %s) & %d' % (a, {'add': '+', 'sub': '-', 'mul': '*'}[op], b, mask)
        elif op in ('and', 'or', 'xor'):
            e = 'h_int(%s) %s h_int(%s)' % (a, {'and': '&', 'or': '|', 'xor': '^'}[op], b)
        elif op == 'shl':
            e = '(h_int(%s) << h_int(%s)) & %d' % (a, b, mask)
        elif op == 'lshr':
            e = 'h_int(%s) >> h_int(%s)' % (a, b)
        elif op == 'ashr':
            e = '(h_sgn(%s, %d) >> h_int(%s)) & %d' % (a, t.n, b, mask)
        else:
            e = 'h_div(%s, %s, %s, %d, %s)' % (a, b, op[0] == 's', t.n, op.endswith('rem'))
        self.out(dst, e)

    def fop(self, p, dst, op):
        while p.peek() in CC:
            p.next()
        t = p.type()
        if t.k not in ('float', 'double'):
            raise Unsupported('floating type %s' % t.k)
        a = self.value(p, t)
        p.expect(',')
        b = self.value(p, t)
        if op == 'fdiv':
            e = 'h_fdiv(%s, %s)' % (a, b)
        elif op == 'frem':
            e = 'h_frem(%s, %s)' % (a, b)
        else:
            e = '%s %s %s' % (a, {'fadd': '+', 'fsub': '-', 'fmul': '*'}[op], b)
        self.out(dst, 'r32(%s)' % e if t.k == 'float' else e)

    def i_fneg(self, p, dst, op):
        while p.peek() in CC:
            p.next()
        t = p.type()
        self.out(dst, '-(%s)' % self.value(p, t))

    def castop(self, p, dst, op):
        while p.peek() in ('nneg', 'nuw', 'nsw') or p.peek() in CC:
            p.next()
        t = p.type()
        v = self.value(p, t)
        p.expect('to')
        d = p.type()
        if 'vector' in (t.k, d.k):
            raise Unsupported('vector cast')
        if op == 'zext':
            e = 'h_int(%s)' % v
        elif op == 'sext':
            e = 'h_sgn(%s, %d) & %d' % (v, t.n, (1 << d.n) - 1)
        elif op == 'trunc':
            e = 'h_trunc(%s, %d)' % (v, d.n)
        elif op == 'fptrunc':
            e = 'r32(%s)' % v
        elif op == 'fpext':
            e = v
        elif op == 'uitofp':
            e = 'float(h_int(%s))' % v
            if d.k == 'float':
                e = 'i2f32(h_int(%s))' % v
        elif op == 'sitofp':
            e = 'float(h_sgn(%s, %d))' % (v, t.n)
            if d.k == 'float':
                e = 'i2f32(h_sgn(%s, %d))' % (v, t.n)
        elif op in ('fptosi', 'fptoui'):
            e = 'h_fptoui(%s, %d, %s)' % (v, d.n, op == 'fptosi')
        elif op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
            e = v
        elif op == 'bitcast':
            if t.k == d.k and t.k != 'int':
                e = v
            else:
                e = 'h_bitcast(%s, %r, %r)' % (v, t.k, d.k)
        self.out(dst, e)

    def i_icmp(self, p, dst, op):
        while p.peek() in ('samesign',):
            p.next()
        pred = p.next()
        t = p.type()
        a = self.value(p, t)
        p.expect(',')
        b = self.value(p, t)
        bits = 64 if t.k == 'ptr' else t.n
        if t.k == 'vector':
            raise Unsupported('vector icmp')
        if pred[0] != 's' and bits > 1:
            # fast path: concrete integers
            o = {'eq': '==', 'ne': '!=', 'ugt': '>', 'uge': '>=', 'ult': '<', 'ule': '<='}[pred]
            self.out(dst, '(%s %s %s) if %s.__class__ is int and %s.__class__ is int else h_icmp(%r, %s, %s, %d)' % (
                a, o, b, par(a), par(b), pred, a, b, bits))
        else:
            self.out(dst, 'h_icmp(%r, %s, %s, %d)' % (pred, a, b, bits))

    def i_fcmp(self, p, dst, op):
        while p.peek() in CC:
            p.next()
        pred = p.next()
        t = p.type()
        if t.k == 'vector':
            raise Unsupported('vector fcmp')
        a = self.value(p, t)
        p.expect(',')
        b = self.value(p, t)
        self.out(dst, 'h_fcmp(%r, %s, %s)' % (pred, a, b))

    def i_select(self, p, dst, op):
        while p.peek() in CC:
            p.next()
        ct, c = self.tv(p)
        p.expect(',')
        at, a = self.tv(p)
        p.expect(',')
        bt, b = self.tv(p)
        if ct.k == 'vector':
            raise Unsupported('vector select')
        self.out(dst, 'h_sel(%s, %s, %s)' % (c, a, b))

    def i_freeze(self, p, dst, op):
        t, v = self.tv(p)
        self.out(dst, v)

    def i_getelementptr(self, p, dst, op):
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        bt = p.type()
        p.expect(',')
        pt, base = self.tv(p)
        idx = []
        while p.accept(','):
            if p.peek() and p.peek()[0] == '!':
                break
            it = p.type()
            idx.append((it, self.value(p, it)))
        self.out(dst, self.gep(bt, base, idx))

    def i_load(self, p, dst, op):
        if p.peek() in ('atomic', 'volatile'):
            p.next()
        t = p.type()
        p.expect(',')
        pt, a = self.tv(p)
        self.out(dst, self.load_e(t, a))

    def load_e(self, t, a):
        r = self.mod.resolve(t)
        if r.k == 'float':
            return 'h_ldf(M, %s, 4)' % a
        if r.k == 'double':
            return 'h_ldf(M, %s, 8)' % a
        if r.k == 'ptr':
            return 'h_ldi(M, %s, 8, 0xffffffffffffffff)' % a
        if r.k == 'int':
            return 'h_ldi(M, %s, %d, %d)' % (a, self.mod.size_align(r)[0], (1 << r.n) - 1)
        if r.k == 'struct':
            es = []
            for i in range(len(r.fields)):
                off, f = self.mod.field_off(r, i)
                es.append(self.load_e(f, '(%s + %d)' % (a, off)))
            return '[%s]' % ', '.join(es)
        raise Unsupported('load of %s' % r.k)

    def i_store(self, p, dst, op):
        if p.peek() in ('atomic', 'volatile'):
            p.next()
        t, v = self.tv(p)
        p.expect(',')
        pt, a = self.tv(p)
        self.store_e(t, v, a)

    def store_e(self, t, v, a):
        r = self.mod.resolve(t)
        if r.k in ('float', 'double', 'ptr', 'int'):
            self.lines.append('M.store(%s, %d, %s)' % (a, self.mod.size_align(r)[0], v))
        elif r.k == 'struct':
            for i in range(len(r.fields)):
                off, f = self.mod.field_off(r, i)
                self.store_e(f, '(%s)[%d]' % (v, i), '(%s + %d)' % (a, off))
        else:
            raise Unsupported('store of %s' % r.k)

    def i_alloca(self, p, dst, op):
        p.accept('inalloca')
        t = p.type()
        n = '1'
        if p.accept(','):
            if p.peek() not in ('align', 'addrspace') and p.peek()[0] != '!':
                nt, n = self.tv(p)
        sz = self.mod.size_align(t)[0]
        self.out(dst, 'M.alloc(%d * h_int(%s), %r)' % (sz, n, 'stack object %s in %s' % (dst, self.name)))

    def i_extractvalue(self, p, dst, op):
        t, v = self.tv(p)
        e = v
        while p.accept(','):
            e += '[%d]' % int(p.next())
        self.out(dst, e)

    def i_insertvalue(self, p, dst, op):
        t, v = self.tv(p)
        p.expect(',')
        vt, x = self.tv(p)
        idx = []
        while p.accept(','):
            if p.peek()[0] == '!':
                break
            idx.append(int(p.next()))
        n = len(self.mod.resolve(t).fields or []) or self.mod.resolve(t).n
        self.out(dst, 'h_insert(%s, %s, %r, %d)' % (v, x, idx, n))

    def i_ret(self, p, dst, op):
        t = p.type()
        self.lines.append('return' if t.k == 'void' else 'return %s' % self.value(p, t))

    def i_unreachable(self, p, dst, op):
        self.lines.append('unreachable(%r)' % self.name)

    def i_resume(self, p, dst, op):
        self.lines.append('raise_current()')

    def i_landingpad(self, p, dst, op):
        if dst:
            self.out(dst, '[0, 0]')

    def i_br(self, p, dst, op):
        if p.accept('label'):
            self.lines.append(self.goto(p.next()[1:].strip('"')) + '; continue')
            return
        t = p.type()
        c = self.value(p, t)
        p.expect(',')
        p.expect('label')
        a = p.next()[1:].strip('"')
        p.expect(',')
        p.expect('label')
        b = p.next()[1:].strip('"')
        self.lines.append('if %s:\n  %s\nelse:\n  %s\ncontinue' % (c, self.goto(a), self.goto(b)))

    def i_switch(self, p, dst, op):
        t = p.type()
        v = self.value(p, t)
        p.expect(',')
        p.expect('label')
        d = p.next()[1:].strip('"')
        p.expect('[')
        self.lines.append('_s = h_int(%s)' % v)
        kw = 'if'
        src = ''
        while not p.accept(']'):
            ct = p.type()
            c = self.value(p, ct)
            p.expect(',')
            p.expect('label')
            b = p.next()[1:].strip('"')
            src += '%s _s == %s:\n  %s\n' % (kw, c, self.goto(b))
            kw = 'elif'
        if kw == 'if':
            src += self.goto(d) + '\n'
        else:
            src += 'else:\n  %s\n' % self.goto(d)
        self.lines.append(src + 'continue')

    def i_invoke(self, p, dst, op):
        n = len(self.lines)
        self.call(p, dst)
        p.expect('to')
        p.expect('label')
        a = p.next()[1:].strip('"')
        p.expect('unwind')
        p.expect('label')
        u = p.next()[1:].strip('"')
        if u in self.catching:
            body = '\n'.join(self.lines[n:]).replace('\n', '\n  ')
            del self.lines[n:]
            self.lines.append('try:\n  %s\nexcept CppException:\n  unsup("catch clause")' % (body or 'pass'))
        self.lines.append(self.goto(a) + '; continue')

    def i_call(self, p, dst, op):
        self.call(p, dst)

    def call(self, p, dst):
        while p.peek() in CC:
            p.next()
        p.skip_attrs()
        while p.peek() in CC:
            p.next()
        rt = p.type()
        if p.peek() == '(':          # function type
            d = 0
            while True:
                x = p.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
        callee = p.next()
        if callee == 'asm':
            raise Unsupported('inline asm')
        p.expect('(')
        args = []
        types = []
        while not p.accept(')'):
            t = p.type()
            if t.k == 'metadata':
                p.next()
                p.accept(',')
                args.append('0')
                continue
            p.skip_attrs()
            args.append(self.value(p, t))
            types.append(t)
            p.accept(',')
        while p.peek() and (p.peek()[0] == '#'):
            p.next()
        if p.peek() == '[':      # operand bundles
            while p.next() != ']':
                pass
        if callee[0] == '%':
            e = 'call_ptr(%s, [%s])' % (sani(callee), ', '.join(args))
            self.out(dst, e)
            return
        e = self.intrinsic(callee, args, types, rt)
        if e is None:
            return
        self.out(dst, e)

    def intrinsic(self, c, a, types, rt):
        n = c[1:].strip('"')
        if n.startswith('llvm.'):
            b = n.split('.')[1]
            full = n[5:]
            if b in ('lifetime', 'assume', 'dbg', 'donothing', 'prefetch', 'invariant', 'va_start'):
                return None
            if full.startswith('experimental.noalias') or full.startswith('stackrestore'):
                return None
            if b == 'stacksave':
                return '0'
            if b in ('memcpy', 'memmove'):
                return 'M.memcpy(%s, %s, h_int(%s))' % (a[0], a[1], a[2])
            if b == 'memset':
                return 'M.memset(%s, %s, h_int(%s))' % (a[0], a[1], a[2])
            if b in ('umin', 'umax'):
                return '%s(h_int(%s), h_int(%s))' % (b[1:], a[0], a[1])
            if b in ('smin', 'smax'):
                w = types[0].n
                return '%s(h_sgn(%s, %d), h_sgn(%s, %d)) & %d' % (b[1:], a[0], w, a[1], w, (1 << w) - 1)
            if b == 'abs':
                w = types[0].n
                return 'abs(h_sgn(%s, %d)) & %d' % (a[0], w, (1 << w) - 1)
            if full.startswith('usub.sat'):
                return 'max(0, h_int(%s) - h_int(%s))' % (a[0], a[1])
            if full.startswith('uadd.sat'):
                return 'min(%d, h_int(%s) + h_int(%s))' % ((1 << types[0].n) - 1, a[0], a[1])
            if full.startswith(('umul.with.overflow', 'uadd.with.overflow', 'usub.with.overflow')):
                return 'h_ovf(%r, %s, %s, %d)' % (full[:4], a[0], a[1], types[0].n)
            if b in ('fmuladd', 'fma'):
                return 'h_fma(%s, %s, %s, %s, %s)' % (a[0], a[1], a[2], types[0].k == 'float',
                                                      'True' if b == 'fma' else 'FUSED[0]')
            if b in MATH1:
                e = 'm1_%s(%s)' % (b, a[0])
                return 'r32(%s)' % e if types[0].k == 'float' else e
            if b in MATH2:
                e = 'm2_%s(%s, %s)' % (b, a[0], a[1])
                return 'r32(%s)' % e if types[0].k == 'float' else e
            if b == 'powi':
                return 'm2_pow(%s, float(h_sgn(%s, 32)))' % (a[0], a[1])
            if b in TOINT:
                return 'h_fptoui(m1_i_%s(%s), %d, True)' % (b, a[0], rt.n)
            if b in ('ctlz',):
                return '%d - h_int(%s).bit_length()' % (types[0].n, a[0])
            if b == 'cttz':
                return 'h_cttz(%s, %d)' % (a[0], types[0].n)
            if b == 'ctpop':
                return 'bin(h_int(%s)).count("1")' % a[0]
            if b == 'expect' or full.startswith('threadlocal.address'):
                return a[0]
            if b in ('is',) and full.startswith('is.constant'):
                return '0'
            if b in ('fshl', 'fshr'):
                return 'h_fsh(%r, %s, %s, %s, %d)' % (b, a[0], a[1], a[2], types[0].n)
            if b == 'trap':
                return 'unreachable("trap")'
            if b in ('fptoui', 'fptosi') and 'sat' in full:
                return 'h_fptoui(%s, %d, %s)' % (a[0], rt.n, b == 'fptosi')
            raise Unsupported('intrinsic %s' % n)
        base = n[:-1] if n.endswith('f') and n[:-1] in MATH1 or n[:-1] in MATH2 and n.endswith('f') else n
        if c not in self.mod.funcs:
            ib = n[:-1] if n.endswith('f') else n
            if ib in TOINT:
                return 'h_fptoui(m1_i_%s(%s), %d, True)' % (ib, a[0], rt.n)
            if n in ('modf', 'modff'):
                return 'h_modf(M, %s, %s, %d)' % (a[0], a[1], 4 if n == 'modff' else 8)
            if n in ('fma', 'fmaf'):
                return 'h_fma(%s, %s, %s, %s, True)' % (a[0], a[1], a[2], n == 'fmaf')
            if base in MATH1:
                e = 'm1_%s(%s)' % (base, a[0])
                return 'r32(%s)' % e if rt.k == 'float' else e
            if base in MATH2:
                e = 'm2_%s(%s, %s)' % (base, a[0], a[1])
                return 'r32(%s)' % e if rt.k == 'float' else e
        return 'call(%r, [%s])' % (c, ', '.join(a))


def par(a):
    return '(%s)' % a if not a.isidentifier() else a


def h_trunc(v, bits):
    if v.__class__ is int:
        return v & ((1 << bits) - 1)
    if isinstance(v, SymBool) and bits == 1:
        return v
    return h_int(v) & ((1 << bits) - 1)


def h_bitcast(v, a, b):
    if v is UNDEF:
        return v
    if a == 'int' and b in ('float', 'double'):
        if isinstance(v, Opaque):
            return v.pieces[0][2]
        return bits_to_f32(v) if b == 'float' else bits_to_f64(v)
    if b == 'int':
        if isinstance(v, float):
            return int.from_bytes(struct.pack('<f' if a == 'float' else '<d', v), 'little')
        return Opaque([(0, 4 if a == 'float' else 8, v)], 4 if a == 'float' else 8)
    return v


def h_insert(agg, x, idx, n):
    if agg is UNDEF:
        agg = [UNDEF] * n
    agg = list(agg)
    if len(idx) == 1:
        agg[idx[0]] = x
    else:
        agg[idx[0]] = h_insert(agg[idx[0]], x, idx[1:], 4)
    return agg


def h_ovf(op, a, b, bits):
    a, b = h_int(a), h_int(b)
    v = {'umul': a * b, 'uadd': a + b, 'usub': a - b}[op]
    return [v & ((1 << bits) - 1), not (0 <= v < (1 << bits))]


def h_modf(M, x, p, size):
    t = m_trunc(x)
    M.store(p, size, t)
    return x - t


def h_cttz(v, bits):
    v = h_int(v)
    return (v & -v).bit_length() - 1 if v else bits


def h_fsh(k, a, b, c, n):
    a, b, c = h_int(a), h_int(b), h_int(c) % n
    if k == 'fshl':
        return ((a << c) | (b >> (n - c))) & ((1 << n) - 1)
    return ((a << (n - c)) | (b >> c)) & ((1 << n) - 1)


def b_and(a, b):
    if isinstance(a, SymBool):
        return a & bool(b) if not isinstance(b, SymBool) else a & b
    if isinstance(b, SymBool):
        return b & bool(a)
    return 1 if (a and b) else 0


def b_or(a, b):
    if isinstance(a, SymBool):
        return a | (b if isinstance(b, SymBool) else bool(b))
    if isinstance(b, SymBool):
        return b | bool(a)
    return 1 if (a or b) else 0


def b_xor(a, b):
    if isinstance(a, SymBool):
        return a ^ (b if isinstance(b, SymBool) else bool(b))
    if isinstance(b, SymBool):
        return b ^ bool(a)
    return 1 if (bool(a) != bool(b)) else 0


def i2f32(v):
    """correctly rounded int -> float32"""
    if -(1 << 24) <= v <= (1 << 24):
        return float(v)
    return f32_from_fraction(Fraction(v))
