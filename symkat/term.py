"""Hash-consed terms over integers and booleans, translated to z3 on demand.

Integers are kept in linear normal form (constant + sum of coeff * atom), so
that most of the arithmetic of text processing disappears before a query is
built.  Terms are only translated (once) when they reach the solver.
Module-level names mirror the z3 API used by the rest of symkat.
"""
import z3 as _z3

_TABLE = {}
_NEXT = [0]


class T(object):
    __slots__ = ('op', 'args', 'id', 'z', 'const', 'lin', '__weakref__')

    def get_id(self):
        return self.id

    def __hash__(self):
        return self.id

    def eq(self, o):
        return self is o

    def __repr__(self):
        return '%s%r' % (self.op, self.args)

    def __bool__(self):
        raise TypeError('term used as a truth value')


def _mk(op, args, key, cls):
    k = (op, key)
    t = _TABLE.get(k)
    if t is None:
        t = cls()
        t.op = op
        t.args = args
        t.z = None
        _NEXT[0] += 1
        t.id = _NEXT[0]
        _TABLE[k] = t
    return t


def table_size():
    return len(_TABLE)


def reset_table():
    _TABLE.clear()


# ------------------------------------------------------------------ integers

class I(T):
    """Integer term.  op is 'var', 'lin', 'ite', 'div' or 'mod'."""
    __slots__ = ()

    # linear view: (const, ((atom, coeff), ...)) sorted by atom id
    def view(self):
        if self.op == 'lin':
            return self.args
        return 0, ((self, 1),)

    def __add__(self, o):
        return add(self, o)
    __radd__ = __add__

    def __sub__(self, o):
        return add(self, neg(o))

    def __rsub__(self, o):
        return add(o, neg(self))

    def __neg__(self):
        return neg(self)

    def __mul__(self, o):
        if type(o) is int:
            return scale(self, o)
        raise TypeError('non-linear')
    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, o)

    def __mod__(self, o):
        return mod(self, o)

    def __lt__(self, o):
        return cmp_(self, o, 'lt')

    def __le__(self, o):
        return cmp_(self, o, 'le')

    def __gt__(self, o):
        return cmp_(o, self, 'lt')

    def __ge__(self, o):
        return cmp_(o, self, 'le')

    def __eq__(self, o):
        return cmp_(self, o, 'eq')

    def __ne__(self, o):
        return Not(cmp_(self, o, 'eq'))

    __hash__ = T.__hash__


def Int(name):
    return _mk('var', name, name, I)


def IntVal(v):
    return v


def lin(const, items):
    """Build from constant and list of (atom, coeff) sorted by atom id."""
    if not items:
        return const
    if const == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items = tuple(items)
    key = (const,) + tuple([(a.id, c) for a, c in items])
    return _mk('lin', (const, items), key, I)


def add(a, b):
    if type(a) is int:
        if type(b) is int:
            return a + b
        c, items = b.view()
        return b if a == 0 else lin(a + c, items)
    if type(b) is int:
        c, items = a.view()
        return a if b == 0 else lin(b + c, items)
    ca, ia = a.view()
    cb, ib = b.view()
    out = []
    i = j = 0
    while i < len(ia) and j < len(ib):
        x, p = ia[i]
        y, q = ib[j]
        if x is y:
            if p + q:
                out.append((x, p + q))
            i += 1
            j += 1
        elif x.id < y.id:
            out.append(ia[i])
            i += 1
        else:
            out.append(ib[j])
            j += 1
    out.extend(ia[i:])
    out.extend(ib[j:])
    return lin(ca + cb, out)


def neg(a):
    return scale(a, -1)


def scale(a, k):
    if type(a) is int:
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    c, items = a.view()
    return lin(c * k, [(x, q * k) for x, q in items])


def div(a, k):
    """Floor division by a positive integer constant."""
    if type(k) is not int or k <= 0:
        raise TypeError('division by a non-constant')
    if type(a) is int:
        return a // k
    if k == 1:
        return a
    c, items = a.view()
    if all(q % k == 0 for _, q in items):
        return lin(c // k, [(x, q // k) for x, q in items])
    return _mk('div', (a, k), (a.id, k), I)


def mod(a, k):
    if type(k) is not int or k <= 0:
        raise TypeError('modulo by a non-constant')
    if type(a) is int:
        return a % k
    if k == 1:
        return 0
    c, items = a.view()
    items2 = [(x, q % k) for x, q in items if q % k]
    r = lin(c % k, items2)
    if type(r) is int:
        return r % k
    return _mk('mod', (r, k), (r.id, k), I)


def If(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if type(a) is int and type(b) is int and a == b:
        return a
    if a is b:
        return a
    if isinstance(a, B) or isinstance(b, B) or isinstance(a, bool):
        return Or(And(c, a), And(Not(c), b))
    ka = ('c', a) if type(a) is int else a.id
    kb = ('c', b) if type(b) is int else b.id
    return _mk('ite', (c, a, b), (c.id, ka, kb), I)


# ------------------------------------------------------------------ booleans

class B(T):
    """op: 'bvar', 'not', 'and', 'or', 'lt0', 'le0', 'eq0'."""
    __slots__ = ()

    def __eq__(self, o):
        if o is True:
            return self
        if o is False:
            return Not(self)
        return Or(And(self, o), And(Not(self), Not(o)))

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = T.__hash__


def Bool(name):
    return _mk('bvar', name, name, B)


def cmp_(a, b, op):
    if type(a) is int and type(b) is int:
        return a < b if op == 'lt' else a <= b if op == 'le' else a == b
    if type(a) not in (int, I) or type(b) not in (int, I):
        a = int(a) if isinstance(a, bool) else a
        b = int(b) if isinstance(b, bool) else b
    d = add(a, neg(b))
    if type(d) is int:
        return d < 0 if op == 'lt' else d <= 0 if op == 'le' else d == 0
    c, items = d.view()
    # normalise strict to non-strict, divide by gcd
    if op == 'lt':
        c += 1
        op = 'le'
    g = 0
    for _, q in items:
        g = _gcd(g, q)
    if op == 'eq':
        if c % g:
            return False
        if items[0][1] < 0:
            g = -g
        if g != 1:
            c, items = c // g, [(x, q // g) for x, q in items]
    elif g != 1:
        # sum + c <= 0  <=>  sum/g <= floor(-c/g)
        c, items = -((-c) // g), [(x, q // g) for x, q in items]
    # simple interval reasoning for ite/mod free atoms is left to the solver
    if len(items) == 1 and items[0][0].op == 'mod' and items[0][1] in (1, -1):
        k = items[0][0].args[1]
        q = items[0][1]
        if op == 'le':
            lo, hi = (c, c + k - 1) if q == 1 else (c - k + 1, c)
            if hi <= 0:
                return True
            if lo > 0:
                return False
        elif q == 1 and not 0 <= -c < k:
            return False
    t = lin(c, items)
    if op == 'eq':
        # (if p then u else v) == const  with constant arms
        if (t.op == 'ite' or (t.op == 'lin' and len(items) == 1
                              and items[0][0].op == 'ite')):
            x, q = t.view()[1][0]
            k = -t.view()[0] * q
            if q in (1, -1):
                r = ite_eq(x, k)
                if r is not None:
                    return r
        return _mk('eq0', t, t.id, B)
    # le:  store with canonical sign, using negation for the mirror image
    return _mk('le0', t, t.id, B)


def ite_eq(x, k, depth=0):
    """x == k for an ite tree with constant leaves, as a boolean term."""
    if type(x) is int:
        return x == k
    if x.op != 'ite' or depth > 12:
        if depth == 0:
            return None
        return cmp_(x, k, 'eq')
    c, a, b = x.args
    ra, rb = ite_eq(a, k, depth + 1), ite_eq(b, k, depth + 1)
    return Or(And(c, ra), And(Not(c), rb))


def _gcd(a, b):
    a, b = abs(a), abs(b)
    while b:
        a, b = b, a % b
    return a


def Not(c):
    if c is True:
        return False
    if c is False:
        return True
    if c.op == 'not':
        return c.args
    return _mk('not', c, c.id, B)


def _nary(op, cs, unit):
    out = {}
    for c in cs:
        if c is unit:
            continue
        if c is (not unit):
            return not unit
        if c.op == op:
            for d in c.args:
                out[d.id] = d
        else:
            out[c.id] = c
    for i, c in out.items():
        if c.op == 'not' and c.args.id in out:
            return not unit
    if not out:
        return unit
    if len(out) == 1:
        for c in out.values():
            return c
    items = tuple([out[i] for i in sorted(out)])
    return _mk(op, items, tuple([c.id for c in items]), B)


def And(*cs):
    return _nary('and', cs, True)


def Or(*cs):
    return _nary('or', cs, False)


def Implies(a, b):
    return Or(Not(a), b)


def is_true(c):
    return c is True


def is_false(c):
    return c is False


def is_int_value(e):
    return type(e) is int


def simplify(c):
    return c


# ---------------------------------------------------------------- evaluation

def evaluate(t, asg, memo):
    """Value of t under an assignment {var name: value} (missing: 0/False)."""
    if t is True or t is False or type(t) is int:
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    op = t.op
    if op == 'var':
        r = asg.get(t.args, 0)
    elif op == 'bvar':
        r = asg.get(t.args, False)
    elif op == 'lin':
        r, items = t.args
        for a, c in items:
            r += c * evaluate(a, asg, memo)
    elif op == 'ite':
        c, a, b = t.args
        r = evaluate(a if evaluate(c, asg, memo) else b, asg, memo)
    elif op == 'div':
        r = evaluate(t.args[0], asg, memo) // t.args[1]
    elif op == 'mod':
        r = evaluate(t.args[0], asg, memo) % t.args[1]
    elif op == 'not':
        r = not evaluate(t.args, asg, memo)
    elif op == 'and':
        r = True
        for c in t.args:
            if not evaluate(c, asg, memo):
                r = False
                break
    elif op == 'or':
        r = False
        for c in t.args:
            if evaluate(c, asg, memo):
                r = True
                break
    elif op == 'le0':
        r = evaluate(t.args, asg, memo) <= 0
    elif op == 'eq0':
        r = evaluate(t.args, asg, memo) == 0
    else:
        raise RuntimeError(op)
    memo[t.id] = r
    return r


# --------------------------------------------------------------- translation

def to_z3(t):
    if t is True or t is False:
        return _z3.BoolVal(t)
    if type(t) is int:
        return _z3.IntVal(t)
    if t.z is not None:
        return t.z
    op = t.op
    if op == 'var':
        z = _z3.Int(t.args)
    elif op == 'bvar':
        z = _z3.Bool(t.args)
    elif op == 'lin':
        z = _sum(t)
    elif op == 'ite':
        c, a, b = t.args
        z = _z3.If(to_z3(c), to_z3(a), to_z3(b))
    elif op == 'div':
        z = to_z3(t.args[0]) / t.args[1]
    elif op == 'mod':
        z = to_z3(t.args[0]) % t.args[1]
    elif op == 'not':
        z = _z3.Not(to_z3(t.args))
    elif op == 'and':
        z = _z3.And(*[to_z3(c) for c in t.args])
    elif op == 'or':
        z = _z3.Or(*[to_z3(c) for c in t.args])
    elif op in ('le0', 'eq0'):
        # keep atoms on one side, the constant on the other
        c, items = t.args.view()
        pos = [(a, q) for a, q in items if q > 0]
        ng = [(a, -q) for a, q in items if q < 0]
        lhs = _poly(pos)
        rhs = _poly(ng)
        if lhs is None:
            # -rhs + c <= 0  <=>  rhs >= c
            z = rhs >= c if op == 'le0' else rhs == c
        elif rhs is None:
            z = lhs <= -c if op == 'le0' else lhs == -c
        else:
            if c < 0:
                rhs = rhs + (-c)
            elif c > 0:
                lhs = lhs + c
            z = lhs <= rhs if op == 'le0' else lhs == rhs
    else:
        raise RuntimeError(op)
    t.z = z
    return z


def _poly(items):
    if not items:
        return None
    parts = [to_z3(a) if q == 1 else to_z3(a) * q for a, q in items]
    return parts[0] if len(parts) == 1 else _z3.Sum(*parts)


def _sum(t):
    c, items = t.args
    z = _poly(items)
    return z if c == 0 else z + c


def variables(t, out, seen):
    """Collect variable terms."""
    stack = [t]
    while stack:
        x = stack.pop()
        if x is True or x is False or type(x) is int or x.id in seen:
            continue
        seen.add(x.id)
        op = x.op
        if op in ('var', 'bvar'):
            out[x.args] = x
        elif op == 'lin':
            stack.extend([a for a, _ in x.args[1]])
        elif op in ('ite', 'and', 'or'):
            stack.extend(x.args)
        elif op in ('div', 'mod'):
            stack.append(x.args[0])
        else:
            stack.append(x.args)
