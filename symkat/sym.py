"""Symbolic values: proxies over solver terms with Python's semantics.

Representation
  SymBool   z3 Bool
  SymInt    z3 Int (Python ints are unbounded, so mathematical ints are exact)
  SymFloat  a double known to be n * 2**-g with n a z3 Int.  Every operation is
            IEEE-754 exact: results that might not be representable are rounded
            (round-half-even) by forking over the binade.
  SymBytes / SymStr   concrete length, each element a Python int or a z3 Int
"""
import fractions
import os
import traceback
import unicodedata

from . import engine
from . import term as z3

Fraction = fractions.Fraction
DIG = frozenset(range(48, 58))


class Unmodelled(Exception):
    pass


def ex():
    e = engine.EX
    if e is None:
        raise RuntimeError('symbolic value used outside symbolic execution')
    return e


def branch(c):
    if c is True or c is False:
        return c
    return ex().branch(c)


def is_sym(x):
    return isinstance_(x, Sym)


def isinstance_(x, cls):
    return issubclass(type(x), cls)


def unmodelled(what):
    where = ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                       for f in reversed(traceback.extract_stack()[-9:-1]))
    ex().fail_incomplete('unmodelled operation: %s (%s)' % (what, where))


class Sym(object):
    __slots__ = ()


def to_cond(c):
    """Harness condition -> True/False/z3 Bool."""
    t = type(c)
    if t is SymBool:
        return c.e
    if t is bool:
        return c
    if isinstance(c, z3.B):
        return c
    return bool(c)


def zand(*cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is not True:
            out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def zor(*cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is not False:
            out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def znot(c):
    if c is True:
        return False
    if c is False:
        return True
    return z3.Not(c)


# public combinators for harnesses (work on concrete values too)
def And(*cs):
    return mkbool(zand(*[to_cond(c) for c in cs]))


def Or(*cs):
    return mkbool(zor(*[to_cond(c) for c in cs]))


def Not(c):
    return mkbool(znot(to_cond(c)))


def Implies(a, b):
    return mkbool(zor(znot(to_cond(a)), to_cond(b)))


def mkbool(c):
    if c is True or c is False:
        return c
    return SymBool(c)


class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return branch(self.e)

    def __eq__(self, o):
        if type(o) is SymBool:
            return mkbool(self.e == o.e)
        if o is True or o is False:
            return mkbool(self.e if o else znot(self.e))
        return self._i() == o

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        return And(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return ~self._i()

    def _i(self):
        return 1 if bool(self) else 0

    def __add__(self, o):
        return self._i() + o
    __radd__ = __add__

    def __int__(self):
        return self._i()
    __index__ = __int__

    def __repr__(self):
        return '<symbolic bool>'


def mkint(e, lo=None, hi=None):
    if type(e) is int:
        return e
    if lo is not None and lo == hi:
        return lo
    return SymInt(e, lo, hi)


def iparts(x):
    """(expr, lo, hi) of an int-like value, or None."""
    t = type(x)
    if t is int:
        return x, x, x
    if t is bool:
        return int(x), int(x), int(x)
    if t is SymInt:
        return x.e, x.lo, x.hi
    if t is SymBool:
        v = x._i()
        return v, v, v
    return None


def _add(a, b):
    return None if a is None or b is None else a + b


def _neg(a):
    return None if a is None else -a


def cmp_expr(op, a, b):
    if op == 'lt':
        return a < b
    if op == 'le':
        return a <= b
    if op == 'gt':
        return a > b
    if op == 'ge':
        return a >= b
    if op == 'eq':
        return a == b
    return a != b


class SymNum(Sym):
    __slots__ = ()

    def __lt__(self, o):
        return num_cmp('lt', self, o)

    def __le__(self, o):
        return num_cmp('le', self, o)

    def __gt__(self, o):
        return num_cmp('gt', self, o)

    def __ge__(self, o):
        return num_cmp('ge', self, o)

    def __eq__(self, o):
        r = num_cmp('eq', self, o)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = num_cmp('ne', self, o)
        return True if r is NotImplemented else r

    def __pos__(self):
        return self

    def __add__(self, o):
        return num_arith('+', self, o)

    def __radd__(self, o):
        return num_arith('+', o, self)

    def __sub__(self, o):
        return num_arith('-', self, o)

    def __rsub__(self, o):
        return num_arith('-', o, self)

    def __mul__(self, o):
        return num_arith('*', self, o)

    def __rmul__(self, o):
        return num_arith('*', o, self)

    def __truediv__(self, o):
        return num_arith('/', self, o)

    def __rtruediv__(self, o):
        return num_arith('/', o, self)

    def __floordiv__(self, o):
        return num_arith('//', self, o)

    def __rfloordiv__(self, o):
        return num_arith('//', o, self)

    def __mod__(self, o):
        return num_arith('%', self, o)

    def __rmod__(self, o):
        return num_arith('%', o, self)

    def __divmod__(self, o):
        return num_arith('//', self, o), num_arith('%', self, o)

    def __pow__(self, o):
        if type(o) is int and o == 2:
            return self * self
        unmodelled('pow')

    def __rpow__(self, o):
        return o ** concretize(self)


class SymInt(SymNum):
    __slots__ = ('e', 'lo', 'hi')

    def __init__(self, e, lo=None, hi=None):
        self.e = e
        self.lo = lo
        self.hi = hi

    @property
    def __class__(self):
        return int

    def __neg__(self):
        return mkint(-self.e, _neg(self.hi), _neg(self.lo))

    def __abs__(self):
        if bool(self < 0):
            return -self
        return self

    def __bool__(self):
        return branch(self.e != 0)

    def __hash__(self):
        return hash(concretize(self))

    def __index__(self):
        return concretize(self)
    __int__ = __index__

    def bit_length(self):
        return concretize(self).bit_length()

    def conjugate(self):
        return self
    real = property(conjugate)
    numerator = property(conjugate)
    imag = 0
    denominator = 1

    def is_integer(self):
        return True

    def __trunc__(self):
        return self
    __floor__ = __ceil__ = __trunc__

    def __round__(self, nd=None):
        return self

    def __getattr__(self, name):
        if hasattr(int, name):
            unmodelled('int.%s' % name)
        raise AttributeError(name)

    def __and__(self, o):
        return concretize(self) & concretize(o)

    def __or__(self, o):
        return concretize(self) | concretize(o)

    def __xor__(self, o):
        return concretize(self) ^ concretize(o)

    def __lshift__(self, o):
        return self * (1 << concretize(o))

    def __rshift__(self, o):
        return self // (1 << concretize(o))

    def __invert__(self):
        return -self - 1

    def __repr__(self):
        return '<symbolic int>'


class SymFloat(SymNum):
    """The double n * 2**-g; ``bound`` is an upper bound on its magnitude."""
    __slots__ = ('n', 'g', 'bound', 'nonneg')

    def __init__(self, n, g, bound=None, nonneg=False):
        self.n = n
        self.g = g
        self.bound = bound
        self.nonneg = nonneg

    @property
    def __class__(self):
        return float

    def __neg__(self):
        return SymFloat(-self.n, self.g, self.bound)

    def __abs__(self):
        if self.nonneg:
            return self
        if branch(self.n < 0):
            return SymFloat(-self.n, self.g, self.bound, True)
        return SymFloat(self.n, self.g, self.bound, True)

    def __bool__(self):
        return branch(self.n != 0)

    def __hash__(self):
        return hash(concretize(self))

    def __float__(self):
        unmodelled('float() of a symbolic float in uninstrumented code')

    def __int__(self):
        return concretize(self.__trunc__())

    def __trunc__(self):
        q = self.n
        if self.g <= 0:
            return mkint(q * (2 ** -self.g))
        d = 2 ** self.g
        if branch(self.n >= 0):
            return mkint(self.n / z3.IntVal(d))
        return mkint(-((-self.n) / z3.IntVal(d)))

    def __floor__(self):
        if self.g <= 0:
            return mkint(self.n * (2 ** -self.g))
        return mkint(self.n / z3.IntVal(2 ** self.g))

    def __ceil__(self):
        return -((-self).__floor__())

    def __round__(self, nd=None):
        if nd is None:
            if self.g <= 0:
                return mkint(self.n * (2 ** -self.g))
            return mkint(round_half_even(self.n, 2 ** self.g))
        unmodelled('round(x, ndigits)')

    def is_integer(self):
        if self.g <= 0:
            return True
        return mkbool(self.n % z3.IntVal(2 ** self.g) == 0)

    def conjugate(self):
        return self
    real = property(conjugate)
    imag = 0.0

    def __getattr__(self, name):
        if hasattr(float, name):
            unmodelled('float.%s' % name)
        raise AttributeError(name)

    def __repr__(self):
        return '<symbolic float>'


def zabs(e):
    return z3.If(e >= 0, e, -e)


def round_half_even(num, den):
    """Integer k = num/den rounded half to even (fresh definition)."""
    if den == 1:
        return num
    E = ex()
    k = E.fresh_int('r')
    diff = 2 * (num - k * den)
    E.constrain(z3.And(diff <= den, diff >= -den,
                       z3.Implies(z3.Or(diff == den, diff == -den),
                                  k % 2 == 0)))
    return k


def to_double(num, den, bound=None):
    """The double nearest to the rational num/den (num: z3 Int, den: int>0)."""
    E = ex()
    if type(num) is int:
        return num / den if True else None
    # exact when den is a power of two and the magnitude is < 2**53 / den
    if den & (den - 1) == 0:
        g = den.bit_length() - 1
        lim = 2 ** 53
        if bound is not None and bound * den <= lim:
            return SymFloat(num, g, bound)
        if E.valid(z3.And(num <= lim, num >= -lim)):
            return SymFloat(num, g, bound if bound is not None
                            else Fraction(lim, den))
    if branch(num == 0):
        return 0.0
    neg = branch(num < 0)
    a = -num if neg else num
    # find binade: 2**(e+52) <= a/den < 2**(e+53)
    lo, hi = -1074, 1023 - 52
    if bound is not None:
        b = Fraction(bound)
        hi = min(hi, max(lo, (b.numerator // b.denominator).bit_length() - 52))

    def ge_pow(k):      # a/den >= 2**k ?
        if k >= 0:
            return a >= den * (2 ** k)
        return a * (2 ** -k) >= den
    # a >= 1  =>  a/den >= 1/den
    lo = max(lo, -(den.bit_length()) - 53)
    if hi < lo:
        hi = lo
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if branch(ge_pow(mid + 52)):
            lo = mid
        else:
            hi = mid - 1
    e = lo
    if e <= -1074 or e > 970:
        unmodelled('subnormal or overflowing float')
    if e >= 0:
        m = round_half_even(a, den * 2 ** e)
    else:
        m = round_half_even(a * (2 ** -e), den)
    # m may equal 2**53: still representable as m * 2**e
    n, g = m, -e
    nb = Fraction(2) ** (e + 53)
    if neg:
        n = -n
    return SymFloat(n, g, nb, not neg)


def fparts(x):
    """(n, g, bound) for a value used as a float operand; None if not numeric.

    Concrete floats are returned exactly; inf/nan give ('special', x)."""
    t = type(x)
    if t is SymFloat:
        return x.n, x.g, x.bound
    if t is float:
        if x != x or x in (float('inf'), float('-inf')):
            return 'special', x, None
        num, den = x.as_integer_ratio()
        return num, den.bit_length() - 1, Fraction(abs(num), den)
    p = iparts(x)
    if p is not None:
        e, lo, hi = p
        b = None
        if lo is not None and hi is not None:
            b = max(abs(lo), abs(hi))
        return e, 0, b
    return None


def num_cmp(op, a, b):
    pa, pb = iparts(a), iparts(b)
    if pa is not None and pb is not None:
        ea, la, ha = pa
        eb, lb, hb = pb
        if op in ('lt', 'ge') and None not in (ha, lb) and ha < lb:
            return op == 'lt'
        if op in ('gt', 'le') and None not in (la, hb) and la > hb:
            return op == 'gt'
        return mkbool(_b(cmp_expr(op, ea, eb)))
    fa, fb = fparts(a), fparts(b)
    if fa is None or fb is None:
        return NotImplemented
    if fa[0] == 'special' if isinstance(fa[0], str) else False:
        return _special_cmp(op, fa[1], 0.0)
    if fb[0] == 'special' if isinstance(fb[0], str) else False:
        return _special_cmp(op, 0.0, fb[1])
    na, ga, _ = fa
    nb, gb, _ = fb
    g = max(ga, gb)
    na = na * 2 ** (g - ga) if g != ga else na
    nb = nb * 2 ** (g - gb) if g != gb else nb
    return mkbool(_b(cmp_expr(op, na, nb)))


def _b(x):
    return x if isinstance(x, bool) else x


def _special_cmp(op, x, y):
    return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y,
            'eq': x == y, 'ne': x != y}[op]


def num_arith(op, a, b):
    pa, pb = iparts(a), iparts(b)
    if pa is not None and pb is not None and op != '/':
        return int_arith(op, pa, pb)
    if type(a) in (SymBytes, SymStr, bytes, str, list, tuple) and op == '*':
        return a * concretize(b)
    if type(b) in (SymBytes, SymStr, bytes, str, list, tuple) and op == '*':
        return b * concretize(a)
    fa, fb = fparts(a), fparts(b)
    if fa is None or fb is None:
        return NotImplemented
    if isinstance(fa[0], str) or isinstance(fb[0], str):
        return _special_arith(op, a, b, fa, fb)
    na, ga, ba = fa
    nb, gb, bb = fb
    if op in '+-':
        # int operands convert to double first
        if pa is not None and not _int_exact(pa):
            return num_arith(op, int_to_float(a), b)
        if pb is not None and not _int_exact(pb):
            return num_arith(op, a, int_to_float(b))
        g = max(ga, gb)
        na = na * 2 ** (g - ga) if g != ga else na
        nb = nb * 2 ** (g - gb) if g != gb else nb
        n = na + nb if op == '+' else na - nb
        bound = _add(ba, bb)
        nonneg = (op == '+' and getattr(a, 'nonneg', False) is True
                  and (not is_sym(b) and b >= 0
                       or getattr(b, 'nonneg', False) is True))
        if g < 0:
            n, g = n * 2 ** (-g), 0
        r = to_double(n, 2 ** g, bound)
        if nonneg and type(r) is SymFloat:
            r.nonneg = True
        return r
    if op == '*':
        sa, sb = is_sym(a), is_sym(b)
        if sa and sb:
            b = concretize(b)
            return num_arith(op, a, b)
        g = ga + gb
        n = na * nb
        bound = None if ba is None or bb is None else ba * bb
        if g < 0:
            n, g = n * 2 ** (-g), 0
        return to_double(n, 2 ** g, bound)
    if op == '/':
        if is_sym(b):
            b = concretize(b)
            return num_arith(op, a, b)
        if nb == 0:
            raise ZeroDivisionError('float division by zero')
        # (na/2^ga) / (nb/2^gb) = na*2^gb / (nb*2^ga)
        num = na
        den = nb
        sh = gb - ga
        if sh >= 0:
            num = num * 2 ** sh
        else:
            den = den * 2 ** -sh
        if den < 0:
            num, den = -num, -den
        fr = 1
        import math
        # normalise by removing powers of two common with numerator shift
        if sh > 0:
            c = math.gcd(2 ** sh, den)
            if c > 1:
                num = na * (2 ** sh // c)
                if nb < 0:
                    num = -num
                den //= c
        bound = None if ba is None else ba / abs(Fraction(nb) / Fraction(2) ** gb)
        if not is_sym(a):
            return a / b
        return to_double(num, den, bound)
    if op in ('//', '%'):
        if is_sym(b):
            return num_arith(op, a, concretize(b))
        if nb == 0:
            raise ZeroDivisionError('float modulo')
        if not is_sym(a):
            return a // b if op == '//' else a % b
        if nb < 0:
            unmodelled('float %s by a negative number' % op)
        if pa is not None and not _int_exact(pa):
            return num_arith(op, int_to_float(a), b)
        g = max(ga, gb, 0)
        na, nb = na * 2 ** (g - ga), nb * 2 ** (g - gb)
        # the remainder of two doubles is exact for positive ones, and rounds
        # once (adding the divisor) for a negative dividend
        if op == '%':
            return to_double(na % nb, 2 ** g, Fraction(nb, 2 ** g))
        return to_double((na - na % nb) / nb, 1,
                         None if ba is None else ba * 2 ** g / nb + 1)
    return NotImplemented


def _int_exact(p):
    e, lo, hi = p
    if type(e) is int:
        return abs(e) <= 2 ** 53
    if lo is not None and hi is not None and max(abs(lo), abs(hi)) <= 2 ** 53:
        return True
    return ex().valid(z3.And(e <= 2 ** 53, e >= -2 ** 53))


def int_to_float(x):
    p = iparts(x)
    if type(p[0]) is int:
        return float(p[0])
    b = None
    if p[1] is not None and p[2] is not None:
        b = max(abs(p[1]), abs(p[2]))
    return to_double(p[0], 1, b)


def _special_arith(op, a, b, fa, fb):
    sa = isinstance(fa[0], str)
    x, other, other_first = (a, b, False) if sa else (b, a, True)
    if is_sym(other):
        if x != x:
            return x
        if op == '+':
            return x
        if op == '-':
            return -x if other_first else x
        # sign of the symbolic operand matters
        if bool(other > 0):
            o = 1.0
        elif bool(other < 0):
            o = -1.0
        else:
            o = 0.0
    else:
        o = other
    p, q = (o, x) if other_first else (x, o)
    return {'+': lambda: p + q, '-': lambda: p - q, '*': lambda: p * q,
            '/': lambda: p / q, '//': lambda: p // q, '%': lambda: p % q}[op]()


def int_arith(op, pa, pb):
    a, la, ha = pa
    b, lb, hb = pb
    if op == '+':
        return mkint(a + b, _add(la, lb), _add(ha, hb))
    if op == '-':
        return mkint(a - b, _add(la, _neg(hb)), _add(ha, _neg(lb)))
    if op == '*':
        if type(a) is not int and type(b) is not int:
            b = concretize(SymInt(b, lb, hb))
            lb = hb = b
        lo = hi = None
        if None not in (la, ha, lb, hb):
            c = [la * lb, la * hb, ha * lb, ha * hb]
            lo, hi = min(c), max(c)
        return mkint(a * b, lo, hi)
    if type(b) is not int:
        b = concretize(SymInt(b, lb, hb))
    if b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if type(a) is int:
        return a // b if op == '//' else a % b
    if b < 0:
        a, b2 = -a, -b
        q = a / z3.IntVal(b2)       # floor for positive divisor
        if op == '//':
            return mkint(q)
        return mkint(-(a % z3.IntVal(b2)))
    if op == '//':
        return mkint(a / z3.IntVal(b),
                     None if la is None else la // b,
                     None if ha is None else ha // b)
    return mkint(a % z3.IntVal(b), 0, b - 1)


def concretize(x, limit=400):
    """Sound concretisation: fork over the feasible values of x."""
    t = type(x)
    if t is SymBool:
        return bool(x)
    if t is SymInt:
        return _conc_int(x.e, limit)
    if t is SymFloat:
        n = _conc_int(x.n, limit)
        return float(Fraction(n) / Fraction(2) ** x.g)
    if t is SymBytes:
        return bytes([_conc_int(c, limit) for c in x.elems()])
    if t is SymStr:
        return ''.join([chr(_conc_int(c, limit)) for c in x.elems()])
    if t is list:
        return [concretize(v, limit) for v in x]
    if t is tuple:
        return tuple([concretize(v, limit) for v in x])
    if t is dict:
        return dict((concretize(k, limit), concretize(v, limit))
                    for k, v in x.items())
    return x


def _conc_int(e, limit):
    if type(e) is int:
        return e
    E = ex()
    for i in range(limit):
        v = E_candidate(E, e)
        if branch(e == v):
            return v
    unmodelled('concretisation of a value with more than %d choices' % limit)


def E_candidate(E, e):
    """A feasible value of e; recorded, so that re-execution agrees."""
    return E.candidate(e)


# --------------------------------------------------------------------------
# Sequences

def ceq(a, b):
    """Equality condition of two elements."""
    if type(a) is int and type(b) is int:
        return a == b
    if type(a) is not int and type(b) is not int and a.eq(b):
        return True
    return a == b


def inset(c, values):
    """c in a set of ints, as a condition (ranges are compressed)."""
    if type(c) is int:
        return c in values
    rs = ranges(values)
    if len(rs) > 8:
        b = engine.EX.bounds.get(c.get_id()) if engine.EX else None
        if b is not None:
            rs = [r for r in rs if r[0] <= b[1] and r[1] >= b[0]]
    return zor(*[c == lo if lo == hi else z3.And(c >= lo, c <= hi)
                 for lo, hi in rs])


_RANGES = {}


def ranges(values):
    key = values if isinstance(values, frozenset) else frozenset(values)
    r = _RANGES.get(key)
    if r is None:
        r = []
        for v in sorted(key):
            if r and r[-1][1] == v - 1:
                r[-1][1] = v
            else:
                r.append([v, v])
        _RANGES[key] = r
    return r


def mkbytes(elems):
    for c in elems:
        if type(c) is not int:
            return SymBytes(list(elems))
    return bytes(elems)


def mkstr(elems):
    for c in elems:
        if type(c) is not int:
            return SymStr(list(elems))
    return ''.join([chr(c) for c in elems])


BWS = frozenset(b' \t\n\r\x0b\x0c')
ALPHA = frozenset(list(range(65, 91)) + list(range(97, 123)))
UPPER = frozenset(range(65, 91))
LOWER = frozenset(range(97, 123))
ALNUM = ALPHA | DIG

_UCACHE = {}


def uclass(name):
    """Set of code points for which str.<name>() holds."""
    s = _UCACHE.get(name)
    if s is None:
        s = frozenset(c for c in range(0x110000) if getattr(chr(c), name)())
        _UCACHE[name] = s
    return s


_RUNS = {}


def case_runs(what, bounds):
    """[(lo, hi, stride, delta)] of a case mapping within bounds, and the code
    points which map to several."""
    lo, hi = bounds
    key = (what, lo, hi)
    if key not in _RUNS:
        runs, multi = [], []
        for c in range(lo, hi + 1):
            r = getattr(chr(c), what)()
            if len(r) != 1:
                multi.append(c)
                continue
            d = ord(r) - c
            if not d:
                continue
            if runs and runs[-1][3] == d:
                l = runs[-1]
                if c - l[1] in (1, 2) and (l[2] == 0 or l[2] == c - l[1]):
                    l[2] = c - l[1]
                    l[1] = c
                    continue
            runs.append([c, c, 0, d])
        _RUNS[key] = runs, frozenset(multi)
    return _RUNS[key]


def case_term(c, runs):
    r = c
    for lo, hi, st, d in runs:
        if lo == hi:
            k = c == lo
        else:
            k = z3.And(c >= lo, c <= hi)
            if st == 2:
                k = z3.And(k, c % 2 == lo % 2)
        r = z3.If(k, c + d, r)
    return r


def ucond(c, name):
    if type(c) is int:
        return getattr(chr(c), name)()
    return inset(c, uclass(name))


class SymSeq(Sym):
    __slots__ = ('_e', '_thunk')

    def __init__(self, elems=None, thunk=None):
        self._e = elems
        self._thunk = thunk

    def elems(self):
        if self._e is None:
            t = self._thunk
            v = t()
            self._e = self._raw(v)
            self._thunk = None
        return self._e

    # construction -------------------------------------------------------
    @classmethod
    def _raw(cls, v):
        if isinstance_(v, SymSeq):
            return v.elems()
        if type(v) is str:
            return [ord(c) for c in v]
        return list(v)

    def _coerce(self, o):
        """Elements of o if it has the same kind, else None."""
        t = type(o)
        if t is type(self):
            return o.elems()
        if self.KIND is bytes:
            if isinstance(o, (bytes, bytearray)) and not is_sym(o):
                return list(o)
            return None
        if isinstance(o, str) and not is_sym(o):
            return [ord(c) for c in o]
        return None

    def _need(self, o, what='argument'):
        e = self._coerce(o)
        if e is None:
            raise TypeError('a %s-like object is required, not %r'
                            % (self.KIND.__name__, type(o).__name__))
        return e

    # basic protocol -----------------------------------------------------
    def __len__(self):
        return len(self.elems())

    def __bool__(self):
        return len(self.elems()) > 0

    def __hash__(self):
        return hash(concretize(self))

    def eq_cond(self, o):
        oe = self._coerce(o)
        if oe is None:
            return NotImplemented
        e = self.elems()
        if len(e) != len(oe):
            return False
        cs = []
        for a, b in zip(e, oe):
            c = ceq(a, b)
            if c is False:
                return False
            cs.append(c)
        return zand(*cs)

    def __eq__(self, o):
        c = self.eq_cond(o)
        if c is NotImplemented:
            return False
        return mkbool(c)

    def __ne__(self, o):
        c = self.eq_cond(o)
        if c is NotImplemented:
            return True
        return mkbool(znot(c))

    def _cmp(self, o, strict_lt, if_eq):
        """lexicographic: (self < o) or (equal and if_eq)"""
        oe = self._coerce(o)
        if oe is None:
            raise TypeError('unorderable types')
        e = self.elems()
        return mkbool(lex_lt(e, oe, if_eq))

    def __lt__(self, o):
        return mkbool(lex_lt(self.elems(), self._need(o), False))

    def __le__(self, o):
        return mkbool(lex_lt(self.elems(), self._need(o), True))

    def __gt__(self, o):
        return mkbool(lex_lt(self._need(o), self.elems(), False))

    def __ge__(self, o):
        return mkbool(lex_lt(self._need(o), self.elems(), True))

    def __add__(self, o):
        oe = self._coerce(o)
        if oe is None:
            raise TypeError("can't concat %s to %s"
                            % (type(o).__name__, self.KIND.__name__))
        return self._mk(self.elems() + oe)

    def __radd__(self, o):
        oe = self._coerce(o)
        if oe is None:
            raise TypeError("can't concat %s to %s"
                            % (self.KIND.__name__, type(o).__name__))
        return self._mk(oe + self.elems())

    def __mul__(self, k):
        return self._mk(self.elems() * concretize(k))
    __rmul__ = __mul__

    def __contains__(self, o):
        return bool(mkbool(self.contains_cond(o)))

    def contains_cond(self, o):
        e = self.elems()
        if self.KIND is bytes and iparts(o) is not None:
            v = iparts(o)[0]
            return zor(*[ceq(c, v) for c in e])
        oe = self._need(o)
        if not oe:
            return True
        return zor(*[self._at(e, i, oe)
                     for i in range(len(e) - len(oe) + 1)])

    @staticmethod
    def _at(e, i, oe):
        cs = []
        for a, b in zip(e[i:i + len(oe)], oe):
            c = ceq(a, b)
            if c is False:
                return False
            cs.append(c)
        return zand(*cs)

    def __mod__(self, args):
        from . import models
        return models.sym_mod(self, args)

    # searching ----------------------------------------------------------
    def _bounds(self, start, end):
        n = len(self.elems())
        return slice(concretize(start), concretize(end)).indices(n)[:2]

    def find(self, sub, start=None, end=None):
        e = self.elems()
        s, t = self._bounds(start, end)
        if self.KIND is bytes and iparts(sub) is not None:
            oe = [iparts(sub)[0]]
        else:
            oe = self._need(sub)
        for i in range(s, t - len(oe) + 1):
            if branch(self._at(e, i, oe)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        e = self.elems()
        s, t = self._bounds(start, end)
        if self.KIND is bytes and iparts(sub) is not None:
            oe = [iparts(sub)[0]]
        else:
            oe = self._need(sub)
        for i in range(t - len(oe), s - 1, -1):
            if branch(self._at(e, i, oe)):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def count(self, sub, start=None, end=None):
        s, t = self._bounds(start, end)
        e = self.elems()
        oe = self._need(sub) if iparts(sub) is None else [iparts(sub)[0]]
        n, i = 0, s
        if not oe:
            return t - s + 1
        while i <= t - len(oe):
            if branch(self._at(e, i, oe)):
                n += 1
                i += len(oe)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        if type(p) is tuple:
            for q in p:
                if self.startswith(q, start, end):
                    return True
            return False
        s, t = self._bounds(start, end)
        oe = self._need(p)
        e = self.elems()[s:t]
        if len(oe) > len(e):
            return False
        return mkbool(self._at(e, 0, oe))

    def endswith(self, p, start=None, end=None):
        if type(p) is tuple:
            for q in p:
                if self.endswith(q, start, end):
                    return True
            return False
        s, t = self._bounds(start, end)
        oe = self._need(p)
        e = self.elems()[s:t]
        if len(oe) > len(e):
            return False
        return mkbool(self._at(e, len(e) - len(oe), oe))

    # splitting ----------------------------------------------------------
    def split(self, sep=None, maxsplit=-1):
        e = self.elems()
        maxsplit = concretize(maxsplit)
        if sep is None:
            out, cur = [], None
            i = 0
            while i < len(e):
                if branch(self._isspace(e[i])):
                    if cur is not None:
                        out.append(self._mk(cur))
                        cur = None
                        if maxsplit >= 0 and len(out) >= maxsplit:
                            # rest, left-stripped
                            rest = self._mk(e[i:])
                            rest = (rest.lstrip() if is_sym(rest)
                                    else rest.lstrip())
                            if len(rest):
                                out.append(rest)
                            return out
                else:
                    if cur is None:
                        if maxsplit >= 0 and len(out) >= maxsplit:
                            out.append(self._mk(e[i:]))
                            return out
                        cur = []
                    cur.append(e[i])
                i += 1
            if cur is not None:
                out.append(self._mk(cur))
            return out
        oe = self._need(sep)
        if not oe:
            raise ValueError('empty separator')
        out, last, i = [], 0, 0
        while i <= len(e) - len(oe):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if branch(self._at(e, i, oe)):
                out.append(self._mk(e[last:i]))
                i += len(oe)
                last = i
            else:
                i += 1
        out.append(self._mk(e[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = concretize(maxsplit)
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            unmodelled('rsplit(None, n)')
        e = self.elems()
        oe = self._need(sep)
        out, end, i = [], len(e), len(e) - len(oe)
        while i >= 0 and len(out) < maxsplit:
            if branch(self._at(e, i, oe)):
                out.append(self._mk(e[i + len(oe):end]))
                end = i
                i -= len(oe)
            else:
                i -= 1
        out.append(self._mk(e[:end]))
        return out[::-1]

    def partition(self, sep):
        oe = self._need(sep)
        i = self.find(sep)
        e = self.elems()
        if i < 0:
            return self, self._mk([]), self._mk([])
        return (self._mk(e[:i]), self._mk(oe), self._mk(e[i + len(oe):]))

    def rpartition(self, sep):
        oe = self._need(sep)
        i = self.rfind(sep)
        e = self.elems()
        if i < 0:
            return self._mk([]), self._mk([]), self
        return (self._mk(e[:i]), self._mk(oe), self._mk(e[i + len(oe):]))

    def splitlines(self, keepends=False):
        if self.KIND is str:
            unmodelled('str.splitlines')
        e = self.elems()
        out, cur, i = [], [], 0
        while i < len(e):
            c = e[i]
            if branch(ceq(c, 10)):
                nl = 1
            elif branch(ceq(c, 13)):
                nl = 1
                if i + 1 < len(e) and branch(ceq(e[i + 1], 10)):
                    nl = 2
            else:
                cur.append(c)
                i += 1
                continue
            if keepends:
                cur.extend(e[i:i + nl])
            out.append(self._mk(cur))
            cur = []
            i += nl
        if cur:
            out.append(self._mk(cur))
        return out

    def _stripset(self, chars):
        if chars is None:
            return self._isspace
        ce = self._need(chars)
        return lambda c: zor(*[ceq(c, x) for x in ce])

    def lstrip(self, chars=None):
        f = self._stripset(chars)
        e = self.elems()
        i = 0
        while i < len(e) and branch(f(e[i])):
            i += 1
        return self._mk(e[i:])

    def rstrip(self, chars=None):
        f = self._stripset(chars)
        e = self.elems()
        j = len(e)
        while j > 0 and branch(f(e[j - 1])):
            j -= 1
        return self._mk(e[:j])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def replace(self, old, new, count=-1):
        oe, ne = self._need(old), self._need(new)
        e = self.elems()
        count = concretize(count)
        out, i, k = [], 0, 0
        if not oe:
            unmodelled('replace of empty pattern')
        while i < len(e):
            if ((count < 0 or k < count) and i <= len(e) - len(oe)
                    and branch(self._at(e, i, oe))):
                out.extend(ne)
                i += len(oe)
                k += 1
            else:
                out.append(e[i])
                i += 1
        return self._mk(out)

    def join(self, it):
        out, first = [], True
        e = self.elems()
        for x in it:
            if not first:
                out.extend(e)
            first = False
            out.extend(self._need(x))
        return self._mk(out)

    def translate(self, table, delete=None):
        if self.KIND is bytes and type(table) is bytes and delete is None:
            out = []
            for c in self.elems():
                if type(c) is int:
                    out.append(table[c])
                else:
                    ch = [i for i in range(256) if table[i] != i]
                    r = c
                    for i in ch:
                        r = z3.If(c == i, table[i], r)
                    out.append(r)
            return self._mk(out)
        unmodelled('translate')

    def ljust(self, n, fill=None):
        e = self.elems()
        f = [32] if fill is None else self._need(fill)
        return self._mk(e + f * max(0, concretize(n) - len(e)))

    def rjust(self, n, fill=None):
        e = self.elems()
        f = [32] if fill is None else self._need(fill)
        return self._mk(f * max(0, concretize(n) - len(e)) + e)

    def removeprefix(self, p):
        if self.startswith(p):
            return self._mk(self.elems()[len(p):])
        return self

    def __getattr__(self, name):
        if hasattr(self.KIND, name):
            unmodelled('%s.%s' % (self.KIND.__name__, name))
        raise AttributeError("'%s' object has no attribute '%s'"
                             % (self.KIND.__name__, name))

    # case ---------------------------------------------------------------
    def lower(self):
        return self._case(UPPER, 32, 'lower')

    def upper(self):
        return self._case(LOWER, -32, 'upper')

    def _case(self, src, delta, what):
        out = []
        for c in self.elems():
            if type(c) is int:
                if c < 128:
                    out.append(c + delta if c in src else c)
                    continue
                if self.KIND is bytes:
                    out.append(c)
                    continue
                r = getattr(chr(c), what)()
                out.extend([ord(x) for x in r])
                continue
            if self.KIND is str:
                b = engine.EX.bounds.get(c.get_id())
                if b is None and not branch(c < 128):
                    b = (128, 0x7ff) if branch(c < 0x800) else (0x800, 0xffff)
                    if b[0] == 0x800 and not branch(c < 0x10000):
                        b = (0x10000, 0x10ffff)
                if b is not None:
                    runs, multi = case_runs(what, b)
                    if not (multi and branch(inset(c, multi))):
                        out.append(case_term(c, runs))
                        continue
            if self.KIND is str:
                v = _conc_int(c, 400)
                out.extend([ord(x) for x in getattr(chr(v), what)()])
                continue
            out.append(z3.If(inset(c, src), c + delta, c))
        return self._mk(out)

    # predicates ---------------------------------------------------------
    def _all(self, f):
        e = self.elems()
        if not e:
            return False
        return mkbool(zand(*[f(c) for c in e]))

    def isalpha(self):
        return self._all(lambda c: self._cls(c, ALPHA, 'isalpha'))

    def isdigit(self):
        return self._all(lambda c: self._cls(c, DIG, 'isdigit'))

    def isalnum(self):
        return self._all(lambda c: self._cls(c, ALNUM, 'isalnum'))

    def isspace(self):
        return self._all(lambda c: self._cls(c, BWS, 'isspace'))

    def isdecimal(self):
        return self._all(lambda c: self._cls(c, DIG, 'isdecimal'))

    def isnumeric(self):
        return self._all(lambda c: self._cls(c, DIG, 'isnumeric'))

    def isprintable(self):
        e = self.elems()
        return mkbool(zand(*[ucond(c, 'isprintable') for c in e]))

    def isascii(self):
        return mkbool(zand(*[c < 128 for c in self.elems()]))

    def isupper(self):
        return self._islu(UPPER, LOWER)

    def islower(self):
        return self._islu(LOWER, UPPER)

    def _islu(self, want, other):
        e = self.elems()
        if self.KIND is str:
            for c in e:
                if not branch(c < 128):
                    unmodelled('isupper/islower of non-ASCII')
        return mkbool(zand(zor(*[inset(c, want) for c in e]),
                           *[znot(inset(c, other)) for c in e]))


def lex_lt(a, b, if_eq):
    n = min(len(a), len(b))
    if len(a) == len(b):
        tail = if_eq
    else:
        tail = len(a) < len(b)
    r = tail
    for i in range(n - 1, -1, -1):
        x, y = a[i], b[i]
        lt = x < y
        eq = ceq(x, y)
        r = zor(lt, zand(eq, r))
    return r


class SymBytes(SymSeq):
    __slots__ = ()
    KIND = bytes

    @property
    def __class__(self):
        return bytes

    def _mk(self, e):
        return mkbytes(e)

    @staticmethod
    def _isspace(c):
        return inset(c, BWS)

    @staticmethod
    def _cls(c, bset, name):
        return inset(c, bset)

    def __getitem__(self, k):
        e = self.elems()
        if isinstance(k, slice):
            return mkbytes(e[slice(*[concretize(x) for x in
                                     (k.start, k.stop, k.step)])])
        k = concretize(k)
        return mkint(e[k], 0, 255)

    def __iter__(self):
        return iter([mkint(c, 0, 255) for c in self.elems()])

    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if enc in ('ascii', 'us-ascii'):
            return self._decode_ascii(errors)
        if enc in ('latin-1', 'latin1', 'iso-8859-1'):
            return mkstr(self.elems())
        if enc in ('utf-8', 'utf8'):
            return self._decode_utf8(errors)
        unmodelled('decode %s' % encoding)

    def _dec_err(self, enc, i, why):
        # message content is formatted lazily; object carries placeholder
        raise UnicodeDecodeError(enc, b'?' * len(self.elems()), i, i + 1, why)

    def _decode_ascii(self, errors):
        out = []
        for i, c in enumerate(self.elems()):
            if branch(c < 128):
                out.append(c)
            elif errors == 'strict':
                self._dec_err('ascii', i, 'ordinal not in range(128)')
            elif errors == 'ignore':
                continue
            elif errors == 'replace':
                out.append(0xFFFD)
            elif errors == 'backslashreplace':
                out.extend(hex_escape(c))
            else:
                unmodelled('decode errors=%s' % errors)
        return mkstr(out)

    def _decode_utf8(self, errors):
        e = self.elems()
        n = len(e)
        out, i = [], 0

        def bad(i, k):
            """malformed sequence e[i:i+k]"""
            if errors == 'strict':
                self._dec_err('utf-8', i, 'invalid data')
            elif errors == 'ignore':
                pass
            elif errors == 'replace':
                out.append(0xFFFD)
            elif errors == 'backslashreplace':
                for c in e[i:i + k]:
                    out.extend(hex_escape(c))
            elif errors == 'surrogateescape':
                for c in e[i:i + k]:
                    out.append(c + 0xDC00)
            else:
                unmodelled('decode errors=%s' % errors)
            return i + k

        def rng(c, lo, hi):
            if type(c) is int:
                return lo <= c <= hi
            return branch(z3.And(c >= lo, c <= hi))
        while i < n:
            c = e[i]
            if branch(c < 0x80):
                out.append(c)
                i += 1
                continue
            if rng(c, 0xC2, 0xDF):
                need = 1
            elif rng(c, 0xE0, 0xEF):
                need = 2
            elif rng(c, 0xF0, 0xF4):
                need = 3
            else:
                i = bad(i, 1)
                continue
            lo, hi = 0x80, 0xBF
            if need == 2:
                if branch(ceq(c, 0xE0)):
                    lo = 0xA0
                elif branch(ceq(c, 0xED)):
                    hi = 0x9F
            elif need == 3:
                if branch(ceq(c, 0xF0)):
                    lo = 0x90
                elif branch(ceq(c, 0xF4)):
                    hi = 0x8F
            k = 1
            ok = True
            while k <= need:
                if i + k >= n or not rng(e[i + k], lo, hi):
                    ok = False
                    break
                lo, hi = 0x80, 0xBF
                k += 1
            if not ok:
                i = bad(i, k)
                continue
            if need == 1:
                cp = (c - 0xC0) * 64 + (e[i + 1] - 0x80)
            elif need == 2:
                cp = ((c - 0xE0) * 4096 + (e[i + 1] - 0x80) * 64
                      + (e[i + 2] - 0x80))
            else:
                cp = ((c - 0xF0) * 262144 + (e[i + 1] - 0x80) * 4096
                      + (e[i + 2] - 0x80) * 64 + (e[i + 3] - 0x80))
            out.append(cp)
            i += need + 1
        return mkstr(out)

    def hex(self):
        out = []
        for c in self.elems():
            out.extend(hexdigits(c))
        return mkstr(out)

    def __bytes__(self):
        unmodelled('bytes() of a symbolic value in uninstrumented code')

    def __repr__(self):
        return '<symbolic bytes>'


def hexdigits(c):
    if type(c) is int:
        return [ord(x) for x in '%02x' % c]
    hi, lo = c / z3.IntVal(16), c % z3.IntVal(16)
    return [z3.If(d < 10, d + 48, d + 87) for d in (hi, lo)]


def hex_escape(c):
    return [92, 120] + hexdigits(c)


class SymStr(SymSeq):
    __slots__ = ()
    KIND = str

    @property
    def __class__(self):
        return str

    def _mk(self, e):
        return mkstr(e)

    @staticmethod
    def _isspace(c):
        return ucond(c, 'isspace')

    @staticmethod
    def _cls(c, bset, name):
        return ucond(c, name)

    def __getitem__(self, k):
        e = self.elems()
        if isinstance(k, slice):
            return mkstr(e[slice(*[concretize(x) for x in
                                   (k.start, k.stop, k.step)])])
        k = concretize(k)
        return mkstr([e[k]])

    def __iter__(self):
        return iter([mkstr([c]) for c in self.elems()])

    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        out = []
        if enc in ('ascii', 'us-ascii', 'latin-1', 'latin1', 'iso-8859-1'):
            lim = 128 if 'ascii' in enc else 256
            for i, c in enumerate(self.elems()):
                if branch(c < lim):
                    out.append(c)
                elif errors == 'strict':
                    raise UnicodeEncodeError(
                        enc, '?' * len(self.elems()), i, i + 1,
                        'ordinal not in range(%d)' % lim)
                elif errors == 'ignore':
                    continue
                elif errors == 'replace':
                    out.append(63)
                else:
                    unmodelled('encode errors=%s' % errors)
            return mkbytes(out)
        if enc not in ('utf-8', 'utf8'):
            unmodelled('encode %s' % encoding)

        def dm(c, k):
            if type(c) is int:
                return c // k
            return c / z3.IntVal(k)

        for i, c in enumerate(self.elems()):
            if branch(c < 0x80):
                out.append(c)
            elif branch(c < 0x800):
                out += [0xC0 + dm(c, 64), 0x80 + c % 64]
            elif branch(c < 0x10000):
                if type(c) is int:
                    sur = 0xD800 <= c <= 0xDFFF
                else:
                    sur = branch(z3.And(c >= 0xD800, c <= 0xDFFF))
                if sur:
                    if errors == 'strict':
                        raise UnicodeEncodeError(
                            'utf-8', '?' * len(self.elems()), i, i + 1,
                            'surrogates not allowed')
                    elif errors == 'replace':
                        out.append(63)
                        continue
                    elif errors == 'ignore':
                        continue
                    elif errors != 'surrogatepass':
                        unmodelled('encode errors=%s' % errors)
                out += [0xE0 + dm(c, 4096), 0x80 + dm(c, 64) % 64,
                        0x80 + c % 64]
            else:
                out += [0xF0 + dm(c, 262144), 0x80 + dm(c, 4096) % 64,
                        0x80 + dm(c, 64) % 64, 0x80 + c % 64]
        return mkbytes(out)

    def format(self, *a, **k):
        from . import models
        return models.sym_format(concretize(self), a, k)

    def isidentifier(self):
        unmodelled('isidentifier')

    def __str__(self):
        return '<symbolic str>'

    def __repr__(self):
        return '<symbolic str>'


def concretise_under(v, model):
    """Plain Python value of v under a model (for witnesses)."""
    t = type(v)

    def num(e):
        if type(e) is int:
            return e
        return model.eval(e)
    if t is SymBool:
        return model.eval(v.e)
    if t is SymInt:
        return num(v.e)
    if t is SymFloat:
        return float(Fraction(num(v.n)) / Fraction(2) ** v.g)
    if t is SymBytes:
        return bytes([num(c) for c in v.elems()])
    if t is SymStr:
        return ''.join([chr(num(c)) for c in v.elems()])
    if isinstance(v, list):
        return [concretise_under(x, model) for x in v]
    if isinstance(v, tuple):
        return tuple([concretise_under(x, model) for x in v])
    if isinstance(v, dict):
        return dict((concretise_under(k, model), concretise_under(x, model))
                    for k, x in v.items())
    return v
