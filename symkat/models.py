"""Models of builtin operations, used by code rewritten by ``load``."""
import builtins
import math
import re
import string
import struct
import sys
import types
import collections
from fractions import Fraction

from . import engine, sym, symre
from . import term as z3
from .sym import (Sym, SymBool, SymBytes, SymFloat, SymInt, SymStr, branch,
                  concretize, is_sym, mkbool, mkbytes, mkint, mkstr,
                  unmodelled)

SEQ = (SymBytes, SymStr)
PATTERN = type(re.compile(''))
PLAIN = (str, bytes, int, float, bool, type(None))


def has_sym(x, depth=3):
    """Does x contain a symbolic value the C level would have to look at?"""
    t = type(x)
    if t in PLAIN:
        return False
    if issubclass(t, Sym):
        return True
    if depth and t in (list, tuple, set, frozenset, collections.deque):
        for v in x:
            if has_sym(v, depth - 1):
                return True
        return False
    if depth and isinstance(x, dict):
        for k, v in x.items():
            if has_sym(k, depth - 1) or has_sym(v, depth - 1):
                return True
        return False
    if depth and isinstance(x, tuple):
        for v in tuple.__iter__(x):
            if has_sym(v, depth - 1):
                return True
    return False


def needs_text_model(x, depth=3):
    """Could formatting x involve symbolic values?"""
    t = type(x)
    if t in PLAIN:
        return False
    if issubclass(t, Sym):
        return True
    if issubclass(t, BaseException):
        return any(needs_text_model(a, depth - 1) for a in x.args) or (
            t.__str__ not in (BaseException.__str__, OSError.__str__,
                              KeyError.__str__))
    if t in (list, tuple, set, frozenset, collections.deque) or isinstance(
            x, (tuple, list)):
        return depth > 0 and any(needs_text_model(v, depth - 1) for v in x)
    if isinstance(x, dict):
        return depth > 0 and any(
            needs_text_model(k, depth - 1) or needs_text_model(v, depth - 1)
            for k, v in x.items())
    m = getattr(t, '__module__', '')
    return m.startswith('katcp') or m.startswith('props') or m == '__main__'


# ---------------------------------------------------------------- numbers

def dec_elems(x):
    """Decimal text of an int-like symbolic value, as elements."""
    e = x.e
    neg = branch(e < 0)
    a = -e if neg else e
    nd = 1
    while not branch(a < 10 ** nd):
        nd += 1
        if nd > 400:
            unmodelled('decimal text of an unbounded integer')
    out = digit_elems(a, nd)
    return ([45] if neg else []) + out


def digit_elems(a, nd):
    """nd decimal digits of the z3 Int 0 <= a < 10**nd."""
    E = sym.ex()
    if nd == 1:
        return [a + 48]
    ds = [E.fresh_int('d') for _ in range(nd)]
    total = 0
    for d in ds:
        total = total * 10 + d
    E.constrain(z3.And(*([a == total] + [z3.And(d >= 0, d <= 9)
                                         for d in ds])))
    return [d + 48 for d in ds]


def fixed_elems(x, prec):
    """'%.<prec>f' of a SymFloat."""
    neg = branch(x.n < 0)
    a = -x.n if neg else x.n
    if x.g >= 0:
        k = sym.round_half_even(a * 10 ** prec, 2 ** x.g)
    else:
        k = a * (2 ** -x.g) * 10 ** prec
    nd = prec + 1
    while not branch(k < 10 ** nd):
        nd += 1
        if nd > 400:
            unmodelled('unbounded float text')
    ds = digit_elems(k, nd)
    out = ds[:nd - prec]
    if prec:
        out = out + [46] + ds[nd - prec:]
    return ([45] if neg else []) + out


def float_repr_elems(x):
    """repr() of a SymFloat whose exact decimal expansion is short.

    For a double whose exact decimal expansion has at most 15 significant
    digits and 1e-4 <= |x| < 1e16, repr is that expansion (DBL_DIG = 15)."""
    if x.g > 12:
        unmodelled('repr of a float on a fine grid')
    if branch(x.n == 0):
        return [ord(c) for c in '0.0']
    g = max(x.g, 0)
    neg = branch(x.n < 0)
    a = -x.n if neg else x.n
    if x.g < 0:
        a = a * 2 ** -x.g
    if not sym.ex().valid(a < 2 ** g * 10 ** (15 - max(g, 1))):
        unmodelled('repr of a large float')
    k = a * 5 ** g              # = |x| * 10**g, exact
    if g >= 4 and not sym.ex().valid(k * 10 ** 4 >= 10 ** g):
        unmodelled('repr of a small float')
    # strip trailing zeros of the fraction
    frac = g
    while frac > 1:
        t = 10 ** (g - frac + 1)
        if branch(k % z3.IntVal(t) == 0):
            frac -= 1
        else:
            break
    if frac != g and g > 0:
        E = sym.ex()
        k2 = E.fresh_int('q')
        E.constrain(k2 * 10 ** (g - frac) == k)
        k = k2
    if g == 0:
        k, frac = k * 10, 1
    nd = frac + 1
    while not branch(k < 10 ** nd):
        nd += 1
    ds = digit_elems(k, nd)
    out = ds[:nd - frac] + [46] + ds[nd - frac:]
    return ([45] if neg else []) + out


def sym_int(x=0, base=None):
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return mkint(z3.If(x.e, 1, 0), 0, 1)
    if t is SymFloat:
        return x.__trunc__()
    if t in SEQ:
        if base not in (None, 10):
            return int(concretize(x), base)
        return parse_int(x)
    if base is None:
        if hasattr(t, '__int__') and t not in PLAIN:
            return x.__int__()
        return int(x)
    return int(x, base)


def _strip_space(e, isspace):
    i, j = 0, len(e)
    while i < j and branch(isspace(e[i])):
        i += 1
    while j > i and branch(isspace(e[j - 1])):
        j -= 1
    return e[i:j]


def _digits(e, i, is_str, vals):
    """Scan digits with single underscores from i; append digit values."""
    start = i
    last_us = True            # an underscore may not come first
    n = len(e)
    while i < n:
        c = e[i]
        if branch(sym.inset(c, sym.DIG)):
            vals.append(c - 48)
            last_us = False
            i += 1
        elif branch(sym.ceq(c, 95)):
            if last_us:
                return None
            last_us = True
            i += 1
        elif is_str and type(c) is not int and branch(
                sym.zand(c >= 128, sym.ucond(c, 'isdecimal'))):
            import unicodedata
            v = concretize(SymInt(c), 800)
            vals.append(unicodedata.digit(chr(v)))
            last_us = False
            i += 1
        else:
            break
    if i > start and last_us:
        return None
    return i


def poly(vals):
    n = 0
    for v in vals:
        n = n * 10 + v
    return n


def parse_int(x):
    is_str = type(x) is SymStr
    err = ValueError('invalid literal for int() with base 10')
    e = _strip_space(x.elems(), x._isspace)
    i, neg = 0, False
    if e:
        if branch(sym.ceq(e[0], 45)):
            neg, i = True, 1
        elif branch(sym.ceq(e[0], 43)):
            i = 1
    vals = []
    j = _digits(e, i, is_str, vals)
    if j is None or j != len(e) or not vals:
        raise err
    hi = 10 ** len(vals) - 1
    n = poly(vals)
    if neg:
        return mkint(-n, -hi, 0)
    return mkint(n, 0, hi)


def sym_float(x=0.0):
    t = type(x)
    if t is SymFloat:
        return x
    if t is SymInt:
        return sym.int_to_float(x)
    if t is SymBool:
        return 1.0 if bool(x) else 0.0
    if t in SEQ:
        return parse_float(x)
    if t not in PLAIN and hasattr(t, '__float__'):
        return x.__float__()
    return float(x)


def parse_float(x):
    is_str = type(x) is SymStr
    err = ValueError('could not convert string to float')
    e = _strip_space(x.elems(), x._isspace)
    i, neg = 0, False
    if e:
        if branch(sym.ceq(e[0], 45)):
            neg, i = True, 1
        elif branch(sym.ceq(e[0], 43)):
            i = 1
    rest = mkbytes(e[i:]) if not is_str else mkstr(e[i:])
    n = len(e)
    # words
    for word, val in (('inf', float('inf')), ('infinity', float('inf')),
                      ('nan', float('nan'))):
        if n - i == len(word):
            cs = [sym.zor(sym.ceq(c, ord(w)), sym.ceq(c, ord(w.upper())))
                  for c, w in zip(e[i:], word)]
            if branch(sym.zand(*cs)):
                return -val if neg else val
    ip, fp = [], []
    j = i
    if j < n and branch(sym.inset(e[j], sym.DIG)) or (
            is_str and j < n and type(e[j]) is not int
            and not branch(e[j] < 128)):
        j = _digits(e, j, is_str, ip)
        if j is None:
            raise err
    if j < n and branch(sym.ceq(e[j], 46)):
        j += 1
        if j < n and branch(sym.inset(e[j], sym.DIG)):
            j = _digits(e, j, is_str, fp)
            if j is None:
                raise err
    if not ip and not fp:
        raise err
    k = -len(fp)
    if j < n and branch(sym.zor(sym.ceq(e[j], 101), sym.ceq(e[j], 69))):
        j += 1
        eneg = False
        if j < n:
            if branch(sym.ceq(e[j], 45)):
                eneg, j = True, j + 1
            elif branch(sym.ceq(e[j], 43)):
                j += 1
        ev = []
        if j < n and branch(sym.inset(e[j], sym.DIG)):
            j = _digits(e, j, is_str, ev)
        else:
            raise err
        if j is None or not ev:
            raise err
        x10 = concretize(mkint(poly(ev)))
        k += -x10 if eneg else x10
    if j != n:
        raise err
    vals = ip + fp
    num = poly(vals)
    hi = 10 ** len(vals)
    if type(num) is int:
        v = float(Fraction(num) * Fraction(10) ** k)
        return -v if neg else v
    if neg:
        num = -num
    if k >= 0:
        r = sym.to_double(num * 10 ** k, 1, hi * 10 ** k)
    else:
        r = sym.to_double(num, 10 ** -k, Fraction(hi, 10 ** -k))
    if neg and type(r) is float and r == 0:
        return -0.0
    return r


# ------------------------------------------------------------------- text

def lazy_str(thunk):
    return SymStr(None, thunk)


def sym_str(x='', *a):
    t = type(x)
    if a:
        # str(bytes, encoding)
        return mcall(x, 'decode', *a)
    if t is str or t is SymStr:
        return x
    if t is SymInt:
        return mkstr(dec_elems(x))
    if t is SymBool:
        return 'True' if bool(x) else 'False'
    if t is SymFloat:
        return lazy_str(lambda: mkstr(float_repr_elems(x)))
    if t is SymBytes:
        return sym_repr(x)
    if not needs_text_model(x):
        return str(x)
    if issubclass(t, BaseException):
        if t.__str__ in (BaseException.__str__, KeyError.__str__):
            if len(x.args) == 0:
                return ''
            if len(x.args) == 1:
                if t.__str__ is KeyError.__str__:
                    return sym_repr(x.args[0])
                return sym_str(x.args[0])
            return sym_repr(x.args)
        return call(t.__str__, x)
    f = t.__str__
    if isinstance(f, types.FunctionType):
        return call(f, x)
    return sym_repr(x)


def sym_repr(x):
    t = type(x)
    if t is SymInt:
        return mkstr(dec_elems(x))
    if t is SymBool:
        return 'True' if bool(x) else 'False'
    if t is SymFloat:
        return lazy_str(lambda: mkstr(float_repr_elems(x)))
    if t in SEQ:
        return lazy_str(lambda: repr_elems(x))
    if not needs_text_model(x):
        return repr(x)
    if t in (list, tuple):
        items = list(x)
        o, c = ('[', ']') if t is list else ('(', ',)' if len(x) == 1 else ')')
        return lazy_str(lambda: sym.SymStr(
            [ord(o)] + _joined([sym_repr(v) for v in items])
            + [ord(ch) for ch in c]))
    f = t.__repr__
    if isinstance(f, types.FunctionType) and f.__module__ != 'collections':
        return call(f, x)
    if issubclass(t, BaseException):
        return lazy_str(lambda: SymStr([ord(c) for c in t.__name__]
                                       + SymSeq_raw(sym_repr(tuple(x.args)))))
    if f is object.__repr__:
        return object.__repr__(x)
    return lazy_str(lambda: unmodelled('repr of %s' % t.__name__))


def SymSeq_raw(v):
    return sym.SymSeq._raw(v)


def _joined(parts):
    out = []
    for i, p in enumerate(parts):
        if i:
            out += [44, 32]
        out += SymSeq_raw(p)
    return out


def repr_elems(x):
    is_str = type(x) is SymStr
    e = x.elems()
    # quote selection
    has_sq = any(branch(sym.ceq(c, 39)) for c in e)
    has_dq = has_sq and any(branch(sym.ceq(c, 34)) for c in e)
    q = 34 if has_sq and not has_dq else 39
    out = [] if is_str else [98]
    out.append(q)
    for c in e:
        if branch(sym.ceq(c, q)) or branch(sym.ceq(c, 92)):
            out += [92, c]
        elif branch(sym.ceq(c, 9)):
            out += [92, 116]
        elif branch(sym.ceq(c, 10)):
            out += [92, 110]
        elif branch(sym.ceq(c, 13)):
            out += [92, 114]
        elif is_str:
            if branch(sym.ucond(c, 'isprintable')):
                out.append(c)
            else:
                out += [ord(z) for z in repr(chr(concretize(mkint(c))))[1:-1]]
        elif branch(sym.zand(c >= 32, c < 127)):
            out.append(c)
        else:
            out += sym.hex_escape(c)
    out.append(q)
    return SymStr(out)


_FMT = re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[-#0 +]*)'
                  r'(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?'
                  r'(?P<conv>[diouxXeEfFgGcrsab%])')


def sym_mod(fmt, args):
    """fmt % args with symbolic operands."""
    is_bytes = isinstance(fmt, bytes)
    if is_sym(fmt):
        fmt = concretize(fmt)
    text = fmt.decode('latin-1') if is_bytes else fmt
    mapping = args if isinstance(args, dict) else None
    if isinstance(args, tuple):
        seq = list(args)
    else:
        seq = [args]
    out, pos, used = [], 0, 0
    lazies = []
    i = 0
    while True:
        i = text.find('%', pos)
        if i < 0:
            out.extend([ord(c) for c in text[pos:]])
            break
        out.extend([ord(c) for c in text[pos:i]])
        m = _FMT.match(text, i)
        if m is None:
            raise ValueError('unsupported format character')
        pos = m.end()
        conv = m.group('conv')
        if conv == '%':
            out.append(37)
            continue
        if '*' in (m.group('width'), m.group('prec')):
            unmodelled('* in format')
        if m.group('key') is not None:
            v = mapping[m.group('key')]
        else:
            if used >= len(seq):
                raise TypeError('not enough arguments for format string')
            v = seq[used]
            used += 1
        spec = text[i:pos]
        piece = fmt_one(spec, conv, m, v, is_bytes)
        out.append(piece)
    if mapping is None and used < len(seq):
        raise TypeError('not all arguments converted during formatting')

    def build():
        r = []
        for p in out:
            if type(p) is int:
                r.append(p)
            else:
                r.extend(SymSeq_raw(p))
        return r
    if any(type(p) is SymStr and p._e is None for p in out):
        if is_bytes:
            return SymBytes(None, build)
        return SymStr(None, build)
    return mkbytes(build()) if is_bytes else mkstr(build())


def pad_elems(es, flags, width, numeric):
    """Apply printf-style flags '0', '-', '+', ' ' and a width."""
    if numeric and not (type(es[0]) is int and es[0] == 45):
        if '+' in flags:
            es = [43] + es
        elif ' ' in flags:
            es = [32] + es
    n = width - len(es)
    if n > 0:
        if '-' in flags:
            es = es + [32] * n
        elif '0' in flags and numeric:
            k = 1 if type(es[0]) is int and es[0] in (43, 45, 32) else 0
            es = es[:k] + [48] * n + es[k:]
        else:
            es = [32] * n + es
    return es


def fmt_one(spec, conv, m, v, is_bytes):
    if not needs_text_model(v):
        if is_bytes:
            return spec.encode('latin-1') % (v,)
        return spec % (v,)
    plain = not (m.group('flags') or m.group('width'))
    if conv in 's' or (conv == 'b' and is_bytes):
        if m.group('prec') is not None or not plain:
            v = concretize(v)
            return (spec.encode('latin-1') if is_bytes else spec) % (v,)
        if is_bytes:
            if isinstance(v, bytes):
                return v
            b = getattr(type(v), '__bytes__', None)
            if b is not None and not is_sym(v):
                return call(b, v)
            raise TypeError('%b requires a bytes-like object')
        return sym_str(v)
    if conv in 'ra':
        return sym_repr(v)
    if conv in 'di':
        if isinstance(v, (int, float)):
            n = sym_int(v)
            if type(n) is int:
                return (spec.encode('latin-1') if is_bytes else spec) % (n,)
            if plain and m.group('prec') is None:
                return mkstr(dec_elems(n))
            fl, w = m.group('flags') or '', m.group('width') or '0'
            if m.group('prec') is None and w.isdigit() and '#' not in fl:
                return mkstr(pad_elems(dec_elems(n), fl, int(w), True))
            return spec % concretize(n)
        raise TypeError('%%%s format: a number is required, not %s'
                        % (conv, type(v).__name__))
    if conv in 'fFgGeE':
        if not isinstance(v, (int, float)):
            raise TypeError('must be real number, not %s' % type(v).__name__)
        f = sym_float(v)
        if type(f) is float:
            return (spec.encode('latin-1') if is_bytes else spec) % (f,)
        if conv in 'fF' and plain:
            p = m.group('prec')
            return mkstr(fixed_elems(f, 6 if p is None else int(p)))
        fl, w = m.group('flags') or '', m.group('width') or '0'
        if conv in 'fF' and w.isdigit() and '#' not in fl:
            p = m.group('prec')
            return mkstr(pad_elems(
                fixed_elems(f, 6 if p is None else int(p)), fl, int(w), True))
        return lazy_str(lambda: unmodelled('float format %s' % spec))
    if conv == 'c':
        return concretize(v) if isinstance(v, int) else v
    return spec % concretize(v)


def sym_format(fmt, args, kwargs):
    out, auto = [], 0
    fm = string.Formatter()
    lazy = False
    for lit, field, spec, conv in fm.parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        v, _ = fm.get_field(field, args, kwargs)
        p = fmt_value(v, conv, spec, args, kwargs)
        lazy = lazy or (type(p) is SymStr and p._e is None)
        out.append(p)

    def build():
        r = []
        for p in out:
            r.extend(SymSeq_raw(p))
        return SymStr(r)
    if lazy:
        return SymStr(None, build)
    return mkstr(build().elems())


def fmt_value(v, conv, spec, args=(), kwargs={}):
    if spec and '{' in spec:
        spec = string.Formatter().vformat(spec, args, kwargs)
    if conv == 's':
        v = sym_str(v)
    elif conv in ('r', 'a'):
        v = sym_repr(v)
    if not needs_text_model(v):
        return format(v, spec or '')
    if not spec:
        t = type(v)
        if not is_sym(v) and isinstance(t.__format__, types.FunctionType):
            return call(t.__format__, v, '')
        return sym_str(v)
    if type(v) is SymInt and spec == 'd':
        return sym_str(v)
    mm = re.match(r'^(0?)(\d*)d$', spec)
    if type(v) is SymInt and mm:
        return mkstr(pad_elems(dec_elems(v), mm.group(1),
                               int(mm.group(2) or 0), True))
    if type(v) is SymFloat and re.match(r'^\.\d+f$', spec):
        return mkstr(fixed_elems(v, int(spec[1:-1])))
    if type(v) is SymStr and spec == 's':
        return v
    return lazy_str(lambda: format(concretize(v), spec))


def sym_bytes(x=b'', *a):
    t = type(x)
    if t is SymBytes:
        return x
    if t is SymStr:
        if not a:
            raise TypeError('string argument without an encoding')
        return x.encode(*a)
    if t is SymInt:
        return bytes(concretize(x))
    if t is str:
        return bytes(x, *a)
    if t in (list, tuple):
        es = []
        for v in x:
            p = sym.iparts(v)
            if p is None:
                return bytes(x)
            if not branch(sym.zand(p[0] >= 0, p[0] <= 255)):
                raise ValueError('bytes must be in range(0, 256)')
            es.append(p[0])
        return mkbytes(es)
    f = getattr(t, '__bytes__', None)
    if isinstance(f, types.FunctionType):
        return call(f, x)
    if hasattr(x, '__iter__') and t not in (bytes, bytearray, memoryview):
        return sym_bytes(list(x))
    return bytes(x, *a)


class SymSet(Sym):
    """A set with symbolic elements (equality decided lazily)."""
    __slots__ = ('items',)

    def __init__(self, it=()):
        self.items = []
        for v in it:
            self.add(v)

    @property
    def __class__(self):
        return set

    def add(self, v):
        for w in self.items:
            if bool(w == v):
                return
        self.items.append(v)

    def discard(self, v):
        for i, w in enumerate(self.items):
            if bool(w == v):
                del self.items[i]
                return

    def update(self, *its):
        for it in its:
            for v in it:
                self.add(v)

    def __iter__(self):
        return iter(list(self.items))

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return bool(self.items)

    def __contains__(self, v):
        return bool(sk_in(v, self.items))

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return False
        a, b = self.items, list(o)
        if len(a) != len(b):
            return False
        return sym.And(*[sk_in(v, b) for v in a])

    def __ne__(self, o):
        return sym.Not(self == o)

    def __hash__(self):
        unmodelled('hash of set')

    def __or__(self, o):
        return SymSet(self.items + list(o))
    __ror__ = __or__
    union = __or__

    def __and__(self, o):
        return SymSet([v for v in self.items if bool(sk_in(v, list(o)))])
    __rand__ = __and__
    intersection = __and__

    def __sub__(self, o):
        return SymSet([v for v in self.items if not bool(sk_in(v, list(o)))])
    difference = __sub__

    def copy(self):
        return SymSet(self.items)

    def issubset(self, o):
        return all(bool(sk_in(v, list(o))) for v in self.items)
    __le__ = issubset

    def __getattr__(self, name):
        if hasattr(set, name):
            unmodelled('set.%s' % name)
        raise AttributeError(name)


def sym_set(it=()):
    vals = list(it)
    if any(is_sym(v) for v in vals):
        return SymSet(vals)
    return set(vals)


# --------------------------------------------------------------- containers

def key_eq(k, key):
    r = k == key if not is_sym(key) else key == k
    if r is NotImplemented:
        return False
    return sym.to_cond(r)


_MISSING = object()


def dict_find(d, key):
    """Value for a symbolic key, or _MISSING; merges same-shaped values."""
    pairs = []
    for k in list(d):
        c = key_eq(k, key)
        if c is False:
            continue
        pairs.append((k, c))
        if c is True:
            break
    if not pairs or not branch(sym.zor(*[c for _, c in pairs])):
        return _MISSING
    groups = []
    for k, c in pairs:
        v = d[k]
        shape = None
        if type(v) is int:
            shape = ('int',)
        elif type(v) is bytes:
            shape = ('bytes', len(v))
        elif type(v) is str:
            shape = ('str', len(v))
        for g in groups:
            if shape is not None and g[0] == shape:
                g[1].append((v, c))
                break
        else:
            groups.append((shape, [(v, c)]))
    for gi, (shape, members) in enumerate(groups):
        if gi < len(groups) - 1 and not branch(
                sym.zor(*[c for _, c in members])):
            continue
        if len(members) == 1:
            return members[0][0]
        if shape[0] == 'int':
            return mkint(_ite([(v, c) for v, c in members]))
        n = shape[1]
        cols = []
        for i in range(n):
            cols.append(_ite([(v[i] if shape[0] == 'bytes' else ord(v[i]), c)
                              for v, c in members]))
        return mkbytes(cols) if shape[0] == 'bytes' else mkstr(cols)
    return _MISSING


def _ite(members):
    vals = set(v for v, _ in members)
    if len(vals) == 1:
        return members[0][0]
    r = members[-1][0]
    for v, c in reversed(members[:-1]):
        r = z3.If(c, z3.IntVal(v), z3.IntVal(r) if type(r) is int else r)
    return r


def sk_getitem(obj, key):
    if is_sym(key):
        if isinstance(obj, dict):
            r = dict_find(obj, key)
            if r is _MISSING:
                miss = getattr(type(obj), '__missing__', None)
                if miss is not None:
                    return obj[concretize(key)]
                raise KeyError(key)
            return r
        if type(obj) is bytes and type(key) is SymInt:
            return obj[concretize(key)]
    return obj[key]


def sk_setitem(value, obj, key):
    if is_sym(key) and isinstance(obj, dict):
        key = concretize(key)
    obj[key] = value


def sk_in(x, c):
    t = type(c)
    if is_sym(c):
        if t in SEQ:
            return mkbool(c.contains_cond(x))
        if t is SymSet:
            return sk_in(x, c.items)
        return x in c
    if is_sym(x):
        if t is bytes:
            if not isinstance(x, (bytes, int)):
                raise TypeError('a bytes-like object is required')
            return mkbool(SymBytes(list(c)).contains_cond(x))
        if t is str:
            if not isinstance(x, str):
                raise TypeError("'in <string>' requires string")
            return mkbool(SymStr([ord(z) for z in c]).contains_cond(x))
        if t in (dict, set, frozenset, list, tuple) or isinstance(
                c, (dict, set, frozenset)) or t.__name__ in (
                    'dict_keys', 'dict_values', 'OrderedDict', 'deque'):
            conds = []
            for k in list(c):
                q = key_eq(k, x)
                if q is True:
                    return True
                conds.append(q)
            return mkbool(sym.zor(*conds))
        return x in c
    if t in (list, tuple) and has_sym(c, 1):
        return mkbool(sym.zor(*[key_eq(k, x) if not is_sym(k)
                                else key_eq(x, k) for k in c]))
    return x in c


def sk_not_in(x, c):
    r = sk_in(x, c)
    return sym.Not(r) if type(r) is SymBool else not r


def sk_mod(a, b):
    ta = type(a)
    if ta is str or ta is bytes:
        args = b if isinstance(b, tuple) else (b,)
        if isinstance(b, dict):
            if any(needs_text_model(v) for v in b.values()):
                return sym_mod(a, b)
            return a % b
        for v in tuple.__iter__(args) if isinstance(args, tuple) else args:
            if needs_text_model(v):
                return sym_mod(a, b)
        return a % b
    return a % b


def sk_fstr(*parts):
    r = []
    lazy = False
    for p in parts:
        lazy = lazy or (type(p) is SymStr and p._e is None)
    if lazy:
        return SymStr(None, lambda: SymStr(
            [c for p in parts for c in SymSeq_raw(p)]))
    for p in parts:
        r.extend(SymSeq_raw(p))
    return mkstr(r)


# -------------------------------------------------------------------- calls

def sym_type(*a):
    if len(a) == 1 and is_sym(a[0]):
        return a[0].__class__
    return type(*a)


def sym_ord(c):
    e = SymSeq_raw(c)
    if len(e) != 1:
        raise TypeError('ord() expected a character')
    return mkint(e[0])


def sym_chr(i):
    p = sym.iparts(i)
    if not branch(sym.zand(p[0] >= 0, p[0] < 0x110000)):
        raise ValueError('chr() arg not in range(0x110000)')
    return mkstr([p[0]])


def sym_round(x, nd=None):
    if nd is None:
        return x.__round__() if is_sym(x) else round(x)
    return x.__round__(nd) if is_sym(x) else round(x, nd)


def sym_format_builtin(v, spec=''):
    return fmt_value(v, None, spec)


def sym_minmax(name):
    orig = getattr(builtins, name)

    def f(*a, **k):
        return orig(*a, **k)
    return f


_STRUCT = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False),
           'i': (4, True), 'I': (4, False), 'l': (4, True), 'L': (4, False),
           'q': (8, True), 'Q': (8, False)}


def _struct_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode('ascii')
    if fmt[:1] not in ('>', '<', '!') or any(c not in _STRUCT
                                             for c in fmt[1:]):
        return None
    return fmt[0] != '<', [_STRUCT[c] for c in fmt[1:]]


def sym_struct_pack(fmt, *vals):
    f = _struct_fmt(fmt)
    if f is None:
        return struct.pack(fmt, *concretize(vals))
    big, items = f
    if len(items) != len(vals):
        raise struct.error('pack expected %d items for packing (got %d)'
                           % (len(items), len(vals)))
    out = []
    for (n, signed), v in zip(items, vals):
        if isinstance(v, SymFloat) or not (isinstance(v, SymInt)
                                           or isinstance(v, int)):
            raise struct.error('required argument is not an integer')
        lo = -(1 << (8 * n - 1)) if signed else 0
        hi = (1 << (8 * n - (1 if signed else 0))) - 1
        if not (lo <= v) or not (v <= hi):
            raise struct.error('integer out of range')
        bs = []
        w = v % (1 << (8 * n))
        for _ in range(n):
            b = w % 256
            bs.append(b.e if isinstance(b, SymInt) else b)
            w = w // 256
        out.extend(reversed(bs) if big else bs)
    return mkbytes(out)


def sym_struct_unpack(fmt, data):
    f = _struct_fmt(fmt)
    if f is None:
        return struct.unpack(fmt, concretize(data))
    big, items = f
    if len(data) != sum(n for n, _ in items):
        raise struct.error('unpack requires a bytes object of length %d'
                           % sum(n for n, _ in items))
    out = []
    pos = 0
    for n, signed in items:
        bs = [data[pos + i] for i in range(n)]
        pos += n
        if not big:
            bs.reverse()
        v = 0
        for b in bs:
            v = v * 256 + b
        if signed and v >= (1 << (8 * n - 1)):
            v = v - (1 << (8 * n))
        out.append(v)
    return tuple(out)


MODELS = {
    struct.pack: sym_struct_pack, struct.unpack: sym_struct_unpack,
    int: sym_int, float: sym_float, str: sym_str, bytes: sym_bytes,
    repr: sym_repr, set: sym_set, frozenset: sym_set, type: sym_type,
    ord: sym_ord, chr: sym_chr, round: sym_round, format: sym_format_builtin,
    bool: bool, math.floor: lambda x: x.__floor__(),
    math.ceil: lambda x: x.__ceil__(), math.trunc: sym_int,
    math.isnan: lambda x: False, math.isinf: lambda x: False,
    math.fabs: lambda x: abs(sym_float(x)),
}
for _n in ('match', 'search', 'fullmatch', 'sub', 'subn', 'split', 'findall',
           'finditer'):
    def _mk(n):
        def f(pattern, *a, **k):
            if not isinstance(pattern, PATTERN):
                flags = k.pop('flags', 0)
                pattern = re.compile(concretize(pattern), flags)
            return symre.METHODS[n](pattern, *a, **k)
        return f
    MODELS[getattr(re, _n)] = _mk(_n)

# always modelled: arguments may be objects with rewritten methods
ALWAYS = {str: sym_str, bytes: sym_bytes, repr: sym_repr}

SAFE = set([
    len, isinstance, issubclass, iter, next, enumerate, zip, map, filter, list,
    tuple, sorted, min, max, sum, any, all, abs, reversed, print, id, callable,
    divmod, range, slice, property, dict, object, super, classmethod,
    staticmethod, hash, collections.deque, collections.OrderedDict,
    collections.defaultdict, setattr, getattr, hasattr, delattr, vars, dir,
    BaseException.with_traceback, bool,
])

PYFUNC = (types.FunctionType,)
BUILTIN_TYPE_NAMES = set(['builtin_function_or_method', 'builtin_function',
                          'method_descriptor', 'wrapper_descriptor',
                          'method-wrapper', 'classmethod_descriptor'])


def _lookup(table, f):
    try:
        return table.get(f)
    except TypeError:
        return None


_UNBOUND = {}
for _c in (str, bytes):
    for _n in dir(_c):
        if not _n.startswith('__'):
            try:
                _UNBOUND[getattr(_c, _n)] = _n
            except TypeError:
                pass


def _builtin_fn(f):
    return (type(f).__name__ in BUILTIN_TYPE_NAMES or isinstance(f, type)
            or (type(f) is types.FunctionType and f.__module__ is None))


def _unbound(f):
    return _lookup(_UNBOUND, f)


def call(f, /, *args, **kw):
    t = type(f)
    if t is types.FunctionType and f.__module__ != 're':
        if f.__module__ is None and args and is_sym(args[0]):
            u = _unbound(f)
            if u is not None:
                return getattr(args[0], u)(*args[1:], **kw)
        return f(*args, **kw)
    m = _lookup(ALWAYS, f)
    if m is not None:
        if args and needs_text_model(args[0]):
            return m(*args, **kw)
        return f(*args, **kw)
    symbolic = False
    for a in args:
        if has_sym(a):
            symbolic = True
            break
    else:
        for a in kw.values():
            if has_sym(a):
                symbolic = True
                break
        else:
            if f in (set, frozenset) and args and type(args[0]) not in PLAIN:
                return sym_set(args[0]) if f is set else frozenset(
                    sym_set(args[0]))
    if not symbolic:
        return f(*args, **kw)
    if 'key' in kw and _builtin_fn(kw['key']):
        key = kw['key']
        kw['key'] = lambda x: call(key, x)
    elif f is map and _builtin_fn(args[0]):
        fn0 = args[0]
        return map(lambda *a: call(fn0, *a), *args[1:])
    m = _lookup(MODELS, f)
    if m is not None:
        return m(*args, **kw)
    try:
        if f in SAFE:
            return f(*args, **kw)
    except TypeError:
        pass
    if isinstance(f, type):
        if f.__module__ in ('builtins', '_struct', 'itertools', '_json'):
            if issubclass(f, BaseException) or f.__module__ == 'itertools':
                return f(*args, **kw)
            return f(*concretize(args), **concretize(kw))
        return f(*args, **kw)
    if t.__name__ in BUILTIN_TYPE_NAMES or t is types.FunctionType:
        u = _unbound(f)
        if u is not None and args and is_sym(args[0]):
            return getattr(args[0], u)(*args[1:], **kw)
        mod = getattr(f, '__module__', '') or ''
        if mod.startswith('itertools') or mod.startswith('_functools'):
            return f(*args, **kw)
        return f(*concretize(args), **concretize(kw))
    return f(*args, **kw)


def mcall(obj, name, /, *args, **kw):
    t = type(obj)
    if t is str or t is bytes:
        if name == 'join':
            items = list(args[0])
            for v in items:
                if is_sym(v):
                    return _lift(obj).join(items)
            return obj.join(items)
        if name == 'format':
            for v in args:
                if needs_text_model(v):
                    return sym_format(obj, args, kw)
            for v in kw.values():
                if needs_text_model(v):
                    return sym_format(obj, args, kw)
            return obj.format(*args, **kw)
        for v in args:
            if has_sym(v, 1):
                return getattr(_lift(obj), name)(*args, **kw)
        return getattr(obj, name)(*args, **kw)
    if isinstance(obj, dict) and args and is_sym(args[0]):
        if name == 'get':
            r = dict_find(obj, args[0])
            if r is _MISSING:
                return args[1] if len(args) > 1 else kw.get('default')
            return r
        if name in ('pop', 'setdefault', '__getitem__', '__setitem__',
                    '__delitem__', 'has_key', '__contains__'):
            return getattr(obj, name)(concretize(args[0]), *args[1:], **kw)
        return getattr(obj, name)(*args, **kw)
    if t is PATTERN:
        for v in args:
            if is_sym(v):
                fn = symre.METHODS.get(name)
                if fn is None:
                    unmodelled('re.Pattern.%s' % name)
                return fn(obj, *args, **kw)
        return getattr(obj, name)(*args, **kw)
    if t in BUILTIN_CONTAINERS or is_sym(obj):
        if 'key' in kw and _builtin_fn(kw['key']):
            key = kw['key']
            kw['key'] = lambda x: call(key, x)
        return getattr(obj, name)(*args, **kw)
    return call(getattr(obj, name), *args, **kw)


BUILTIN_CONTAINERS = (list, dict, set, tuple, frozenset, collections.deque,
                      collections.OrderedDict, collections.defaultdict)


def _lift(s):
    if type(s) is str:
        return SymStr([ord(c) for c in s])
    return SymBytes(list(s))


def reraise_abort():
    et = sys.exc_info()[0]
    if et is not None and issubclass(et, (engine.PathAbort,
                                          engine.Incomplete)):
        raise sys.exc_info()[1]
