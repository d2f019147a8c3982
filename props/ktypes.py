"""C05-C07: KATCP types, parameter packing and the handler decorators."""
import struct

from katcp.core import FailReply, Message
from katcp.kattypes import (Address, Bool, Discrete, DiscreteMulti, Float, Int,
                            Lru, Parameter, Regex, Str, StrictTimestamp, Struct,
                            Timestamp, TimestampOrNow, inform, make_reply,
                            pack_types, request, return_reply, send_reply,
                            unpack_message, unpack_types)
from props.simloop import SimLoop, as_thread, install_env
from symkat.harness import assume_note, harness
from tornado.concurrent import Future

MAJORS = [4, 5]


def raises(exc, fn, *args, **kw):
    try:
        fn(*args, **kw)
    except exc:
        return True
    return False


# ------------------------------------------------------------------ C05

@harness('C05', 'integers |v| < 10**digits; canonical decimal texts of up to '
         'n characters; booleans; lru values',
         quick=[{'digits': 12, 'n': 5}], thorough=[{'digits': 18, 'n': 9}],
         covers=['int', 'int-text', 'bool', 'lru'])
def scalars(ctx, digits, n):
    kind = ctx.choice('kind', ['int', 'int-text', 'bool', 'lru'])
    major = ctx.choice('major', MAJORS)
    ctx.cover(kind)
    if kind == 'int':
        v = ctx.int('v', -10 ** digits + 1, 10 ** digits - 1)
        t = Int()
        packed = t.pack(v, major=major)
        ctx.observe('packed', packed)
        ctx.check(t.unpack(packed, major) == v, 'integer survives')
        ctx.check(t.pack(t.unpack(packed, major), major=major) == packed,
                  'canonical text')
    elif kind == 'int-text':
        neg = ctx.choice('neg', [b'', b'-'])
        k = ctx.choice('len', list(range(1, n + 1)))
        txt = ctx.bytes('txt', k, alphabet=b'0123456789')
        ctx.assume(txt[0] != 48 or (k == 1 and neg == b''))
        v = Int().unpack(neg + txt, major)
        ref = 0
        for c in txt:
            ref = ref * 10 + (c - 48)
        ctx.check(v == (-ref if neg else ref), 'decimal value')
        ctx.check(Int().pack(v, major=major) == neg + txt, 'text survives')
    elif kind == 'bool':
        v = ctx.symbool('v')
        packed = Bool().pack(v, major=major)
        ctx.check((packed == b'1') == v, 'true packs to 1')
        ctx.check((packed == b'0') == (not v), 'false packs to 0')
        ctx.check(Bool().unpack(packed, major) == v, 'boolean survives')
    else:
        v = ctx.choice('v', [Lru.LRU_NOMINAL, Lru.LRU_ERROR])
        packed = Lru().pack(v, major=major)
        ctx.check(packed == (b'nominal', b'error')[v], 'lru name')
        ctx.check(Lru().unpack(packed, major) == v, 'lru survives')


@harness('C05', 'text of up to n code points (all Unicode scalar values); '
         'UTF-8 byte strings of up to n bytes; discrete and regex types over '
         'the same texts', quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['str', 'bytes', 'discrete', 'regex'])
def texts(ctx, n):
    kind = ctx.choice('kind', ['str', 'bytes', 'discrete', 'regex'])
    major = ctx.choice('major', MAJORS)
    k = ctx.choice('len', list(range(n + 1)))
    if kind == 'str':
        v = ctx.text('v', k)
        packed = Str().pack(v, major=major)
        ctx.check(Str().unpack(packed, major) == v, 'text survives')
        ctx.cover('str')
    elif kind == 'bytes':
        v = ctx.bytes('v', k)
        try:
            txt = Str().unpack(v, major)
        except ValueError:
            return
        ctx.check(Str().pack(txt, major=major) == v, 'UTF-8 bytes survive')
        ctx.check(Str().pack(v, major=major) == v, 'bytes packed unchanged')
        ctx.cover('bytes')
    elif kind == 'discrete':
        t = Discrete(['a', 'Bc', u'\u00e9'], case_insensitive=ctx.choice(
            'ci', [False, True]))
        v = ctx.text('v', k, hi=0xff)
        try:
            packed = t.pack(v, major=major)
        except ValueError:
            return
        ctx.check(t.unpack(packed, major) == v, 'discrete value survives')
        ctx.cover('discrete')
    else:
        t = Regex('^[a-c]*$')
        v = ctx.text('v', k, hi=0x7f)
        try:
            packed = t.pack(v, major=major)
        except ValueError:
            return
        ctx.check(t.unpack(packed, major) == v, 'text survives')
        ctx.cover('regex')


@harness('C05', 'floats k/2**g with |v| <= bound (exact doubles)',
         quick=[{'g': 3, 'bound': 2000}, {'g': 10, 'bound': 8}],
         thorough=[{'g': 10, 'bound': 1000}, {'g': 1, 'bound': 10 ** 7}],
         covers=['float', 'int', 'strict'])
def floats(ctx, g, bound):
    kind = ctx.choice('kind', ['float', 'int', 'strict'])
    major = ctx.choice('major', MAJORS)
    ctx.cover(kind)
    if kind == 'int':
        v = ctx.int('v', -bound, bound)
        ctx.check(Float().unpack(Float().pack(v, major=major), major) == v,
                  'integral float survives')
        return
    v = ctx.float('v', 0 if kind == 'strict' else -bound, bound, g)
    t = Float() if kind == 'float' else StrictTimestamp()
    packed = t.pack(v, major=major)
    ctx.observe('packed', packed)
    ctx.check(t.unpack(packed, major) == v, 'float survives')


@harness('C05', 'timestamps: every whole microsecond count < 2**us_bits (KATCP '
         '5) and millisecond count < 2**ms_bits (KATCP 4), and all doubles '
         'k/2**g below 2**31',
         quick=[{'ms_bits': 41, 'g': 10}],
         thorough=[{'ms_bits': 43, 'g': 20}],
         covers=['v4', 'v5', 'grid', 'now'])
def timestamps(ctx, ms_bits, g):
    kind = ctx.choice('kind', ['v4', 'v5', 'grid', 'now'])
    t = ctx.choice('type', [Timestamp, TimestampOrNow])()
    ctx.cover(kind)
    if kind == 'v4':
        ms = ctx.int('ms', 0, 2 ** ms_bits)
        txt = b'%d' % ms
        v = t.unpack(txt, 4)
        ctx.check(t.pack(v, major=4) == txt, 'whole milliseconds survive')
    elif kind == 'v5':
        s = ctx.int('s', 0, 999)
        us = ctx.int('us', 0, 999999)
        txt = b'%d.%06d' % (s, us)
        v = t.unpack(txt, 5)
        ctx.check(t.pack(v, major=5) == txt, 'whole microseconds survive')
    elif kind == 'grid':
        v = ctx.float('v', 0, 2 ** 31, g)
        back = t.unpack(t.pack(v, major=5), 5)
        d = back - v
        ctx.check(-0.000001 <= d and d <= 0.000001, 'accurate to 1 us')
        ms = int(t.pack(v, major=4))
        ctx.check(ms - v * 1000 <= 1 and v * 1000 - ms <= 1,
                  'accurate to 1 ms')
    else:
        n = TimestampOrNow()
        major = ctx.choice('major', MAJORS)
        ctx.check(n.pack(TimestampOrNow.NOW, major=major) == b'now', 'now')
        ctx.check(n.unpack(b'now', major) is TimestampOrNow.NOW, 'now back')


@harness('C05', 'addresses: host of up to n bytes of [0-9a-z.:], any port '
         '0..65535 or none', quick=[{'n': 3}], thorough=[{'n': 5}],
         covers=['v4', 'v6'])
def addresses(ctx, n):
    k = ctx.choice('len', list(range(1, n + 1)))
    host = ctx.text('host', k, hi=0x7f, alphabet='0123456789abcdefghij.:')
    port = None
    if ctx.choice('has_port', [True, False]):
        port = ctx.int('port', 0, 65535)
    major = ctx.choice('major', MAJORS)
    packed = Address().pack((host, port), major=major)
    ctx.observe('packed', packed)
    h, p = Address().unpack(packed, major)
    ctx.check(h == host, 'host survives')
    if port is None:
        ctx.check(p is None, 'no port')
    else:
        ctx.check(p == port, 'port survives')
    ctx.cover('v6' if packed[:1] == b'[' else 'v4')


@harness('C05', 'discrete sets: every subset of three names, in any order; '
         'structs of one to three integers (formats >BhI, <qH)',
         quick=[{}], covers=['multi', 'struct', 'all'])
def composites(ctx):
    kind = ctx.choice('kind', ['multi', 'struct', 'all'])
    major = ctx.choice('major', MAJORS)
    ctx.cover(kind)
    if kind == 'multi':
        t = DiscreteMulti(['Foo', 'bar', 'baz'])
        order = ctx.choice('order', [['Foo', 'bar', 'baz'],
                                     ['baz', 'Foo', 'bar'],
                                     ['bar', 'baz', 'Foo']])
        v = [x for i, x in enumerate(order) if ctx.bool('in%d' % i)]
        ctx.assume(len(v) > 0)
        back = t.unpack(t.pack(v, major=major), major)
        ctx.check(sorted(back) == sorted(v), 'the set survives')
    elif kind == 'all':
        t = DiscreteMulti(['Foo', 'bar', 'baz'])
        ctx.check(sorted(t.unpack(b'all', major)) == ['Foo', 'bar', 'baz'],
                  'the all keyword is the whole set')
    else:
        if ctx.choice('fmt', [0, 1]):
            fmt = '>BhI'
            v = (ctx.int('a', 0, 255), ctx.int('b', -2 ** 15, 2 ** 15 - 1),
                 ctx.int('c', 0, 2 ** 32 - 1))
        else:
            fmt = '<qH'
            v = (ctx.int('a', -2 ** 63, 2 ** 63 - 1), ctx.int('b', 0, 65535))
        t = Struct(fmt)
        packed = t.pack(v, major=major)
        ctx.check(len(packed) == struct.calcsize(fmt), 'struct size')
        back = t.unpack(packed, major)
        for x, y in zip(back, v):
            ctx.check(x == y, 'struct member survives')
        ctx.check(len(back) == len(v), 'struct member count')


# ------------------------------------------------------------------ C06

@harness('C06', 'integer values |v| < 10**6 against all bounds |b| < 10**6, '
         'given or absent; floats k/8 likewise with |v| <= 500',
         quick=[{}], covers=['inside', 'below', 'above'])
def ranges(ctx):
    kind = ctx.choice('kind', ['int', 'float'])
    major = ctx.choice('major', MAJORS)
    if kind == 'int':
        def draw(n):
            return ctx.int(n, -10 ** 6, 10 ** 6)
    else:
        def draw(n):
            return ctx.float(n, -500, 500, 3)
    lo = draw('lo') if ctx.choice('has_lo', [True, False]) else None
    hi = draw('hi') if ctx.choice('has_hi', [True, False]) else None
    t = (Int if kind == 'int' else Float)(min=lo, max=hi)
    v = draw('v')
    below = lo is not None and v < lo
    above = hi is not None and v > hi
    wire = b'%d' % v if kind == 'int' else b'%r' % v
    try:
        packed = t.pack(v, major=major)
    except ValueError:
        ctx.check(below or above, 'a value inside the range is packed')
        packed = None
    else:
        ctx.check(not (below or above), 'a value outside is not packed')
    try:
        got = t.unpack(wire, major)
    except ValueError:
        ctx.check(below or above, 'a value inside the range is unpacked')
        ctx.check(packed is None, 'pack and unpack agree')
        ctx.cover('below' if below else 'above')
    else:
        ctx.check(not (below or above), 'a value outside is not unpacked')
        ctx.check(got == v, 'value')
        ctx.cover('inside')


NAMES = ['on', 'Off', 'x']


@harness('C06', 'candidate texts of up to n ASCII characters against a '
         'three-element discrete set (case sensitive or not), an anchored '
         'regular expression, and a discrete-multi set',
         quick=[{'n': 3}], thorough=[{'n': 4}],
         covers=['member', 'stranger', 'regex', 'multi'])
def discrete_sets(ctx, n):
    kind = ctx.choice('kind', ['discrete', 'regex', 'multi'])
    major = ctx.choice('major', MAJORS)
    k = ctx.choice('len', list(range(n + 1)))
    v = ctx.text('v', k, hi=0x7f)
    if kind == 'discrete':
        ci = ctx.choice('ci', [False, True])
        t = Discrete(NAMES, case_insensitive=ci)
        cand = v.lower() if ci else v
        member = False
        for name in NAMES:
            if cand == (name.lower() if ci else name):
                member = True
    elif kind == 'regex':
        t = Regex(r'[a-c]\d?\Z')
        member = k in (1, 2)
        if member:
            member = 'a' <= v[0] <= 'c'
            if k == 2:
                member = member and '0' <= v[1] <= '9'
        if member:
            ctx.cover('regex')
    else:
        t = DiscreteMulti(['a', 'bc'], all_keyword='*')
        ctx.assume(v != '*')
        member = k > 0
        for part in v.split(','):
            p = part.strip()
            if not (p == 'a' or p == 'bc'):
                member = False
        if member:
            ctx.cover('multi')
    try:
        t.unpack(v.encode('ascii'), major)
    except ValueError:
        ctx.check(not member, 'a declared value is accepted')
        ctx.cover('stranger')
    else:
        ctx.check(member, 'an undeclared value is refused')
        ctx.cover('member')
    if kind != 'multi':
        ctx.check(raises(ValueError, t.pack, v, major=major) == (not member),
                  'pack enforces the same set')
    else:
        ctx.check(raises(ValueError, t.pack, [v], major=major)
                  == (not (v == 'a' or v == 'bc')), 'pack checks each item')


@harness('C06', 'default given or not, optional or not, value given or '
         'missing, for eight types; pack, unpack and Parameter',
         quick=[{}], covers=['default', 'none', 'error', 'value'])
def defaults(ctx):
    has_default = ctx.choice('default', [True, False])
    optional = ctx.choice('optional', [True, False])
    cls, args, dflt, wire = ctx.choice('type', [
        (Int, (), 7, b'7'), (Float, (), 0.5, b'0.5'), (Bool, (), True, b'1'),
        (Bool, (), False, b'0'), (Int, (), 0, b'0'), (Str, (), '', b''),
        (Str, (), 'q', b'q'), (Discrete, (['a', 'b'],), 'b', b'b'),
        (Lru, (), 0, b'nominal'), (Timestamp, (), 1.5, b'1.500000'),
        (Address, (), ('h', 1), b'h:1')])
    kw = {'optional': optional}
    if has_default:
        kw['default'] = dflt
    t = cls(*args, **kw)
    given = ctx.choice('given', [True, False])
    par = Parameter(1, 'p', t, 5)
    if given:
        ctx.check(t.unpack(wire) == dflt, 'given value wins')
        ctx.check(par.unpack(wire) == dflt, 'given value wins')
        ctx.check(t.pack(dflt) == wire, 'value packed')
        ctx.check(par.pack(dflt) == wire, 'value packed')
        ctx.cover('value')
    elif has_default:
        v = t.unpack(None)
        ctx.check(v == dflt and type(v) is type(dflt), 'default used')
        ctx.check(par.unpack(None) == dflt, 'default used')
        ctx.check(t.pack(None) == wire, 'default packed')
        ctx.cover('default')
    elif optional:
        ctx.check(t.unpack(None) is None, 'optional parameter is None')
        ctx.check(par.unpack(None) is None, 'optional parameter is None')
        ctx.check(raises(ValueError, t.pack, None), 'None cannot be packed')
        ctx.cover('none')
    else:
        ctx.check(raises(ValueError, t.unpack, None), 'missing value refused')
        ctx.check(raises(FailReply, par.unpack, None), 'missing value refused')
        ctx.check(raises(ValueError, t.pack, None), 'missing value refused')
        ctx.cover('error')


@harness('C06', 'integer and float defaults |d| <= 6 against bounds |b| <= 6, '
         'discrete and pattern defaults of one character; value missing',
         quick=[{}], covers=['ok', 'refused'])
def default_range(ctx):
    kind = ctx.choice('type', ['int', 'float', 'discrete', 'regex', 'strict'])
    if kind in ('int', 'float'):
        num = ((lambda n: ctx.int(n, -6, 6)) if kind == 'int'
               else (lambda n: ctx.float(n, -6, 6, 1)))
        lo, hi, d = num('min'), num('max'), num('default')
        cls = Int if kind == 'int' else Float
        kw = {}
        ok = True
        if ctx.choice('has_min', [True, False]):
            kw['min'] = lo
            ok = ok and d >= lo
        if ctx.choice('has_max', [True, False]):
            kw['max'] = hi
            ok = ok and d <= hi
        t = cls(default=d, **kw)
    elif kind == 'strict':
        d = ctx.float('default', -6, 6, 1)
        ok = d >= 0
        t = StrictTimestamp(default=d)
    else:
        d = ctx.text('default', 1, hi=0x7f)
        ok = d == 'a'
        t = (Discrete(['a', 'bc'], default=d) if kind == 'discrete'
             else Regex('^a', default=d))
    major = ctx.choice('major', MAJORS)
    par = Parameter(1, 'p', t, major)
    if ok:
        ctx.check(t.unpack(None, major) == d, 'default used')
        ctx.check(t.unpack(t.pack(None, major=major), major) == d,
                  'default packed')
        ctx.check(par.unpack(None) == d, 'default used')
        ctx.check(par.pack(None) == t.pack(d, major=major), 'default packed')
        ctx.cover('ok')
    else:
        ctx.check(raises(ValueError, t.unpack, None, major),
                  'a default outside the declared values is refused')
        ctx.check(raises(ValueError, t.pack, None, major=major),
                  'a default outside the declared values is refused')
        ctx.check(raises(FailReply, par.unpack, None), 'refused')
        ctx.check(raises(ValueError, par.pack, None), 'refused')
        ctx.cover('refused')


ALL_TYPES = [
    ('int', lambda: Int()), ('float', lambda: Float()),
    ('bool', lambda: Bool()), ('str', lambda: Str()),
    ('discrete', lambda: Discrete(['on', 'off'])),
    ('lru', lambda: Lru()), ('address', lambda: Address()),
    ('timestamp', lambda: Timestamp()), ('now', lambda: TimestampOrNow()),
    ('strict', lambda: StrictTimestamp()), ('struct', lambda: Struct('>H')),
    ('regex', lambda: Regex('^a')), ('multi', lambda: DiscreteMulti(['a']))]


@harness('C06', 'every byte string of up to n bytes as a parameter of each of '
         'the thirteen types', quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['accepted', 'refused'])
def malformed(ctx, n):
    name, mk = ctx.choice('type', ALL_TYPES)
    major = ctx.choice('major', MAJORS)
    k = ctx.choice('len', list(range(n + 1)))
    raw = ctx.bytes('raw', k)
    t = mk()
    try:
        v = Parameter(1, 'p', t, major).unpack(raw)
    except FailReply:
        ctx.cover('refused')
        if name == 'bool':
            ctx.check(raw != b'0' and raw != b'1', 'booleans are 0 or 1')
        elif name == 'struct':
            ctx.check(k != 2, 'a struct of the right size is accepted')
        elif name in ('int', 'float', 'timestamp', 'strict'):
            plain = k > 0
            for c in raw:
                if not (48 <= c <= 57):
                    plain = False
            ctx.check(not plain, 'plain decimal digits are a number')
        elif name == 'str':
            ascii_only = True
            for c in raw:
                if c >= 128:
                    ascii_only = False
            ctx.check(not ascii_only, 'ASCII text is a string')
        return
    ctx.cover('accepted')
    if name == 'bool':
        ctx.check(raw == b'0' or raw == b'1', 'booleans are 0 or 1')
        ctx.check(v == (raw == b'1'), 'boolean value')
    elif name in ('discrete', 'lru', 'multi', 'regex'):
        if name == 'discrete':
            ctx.check(raw == b'on', 'declared values only')
        elif name == 'regex':
            ctx.check(raw[0] == 97, 'matching values only')
        elif name == 'multi':
            ctx.check(v == ['a'] * len(v), 'declared values only')
        else:
            ctx.check(False, 'no lru value is this short')
    elif name in ('int', 'float', 'timestamp', 'strict', 'now'):
        digits = False
        named = name in ('float', 'timestamp', 'now')
        for c in raw:
            if 48 <= c <= 57:
                digits = True
        if not digits:
            # longer bounds reach nan / inf / now
            ctx.check(named and k >= 3, 'a number has a digit')
    elif name == 'struct':
        ctx.check(k == 2, 'a struct of the wrong size is refused')
        ctx.check(v[0] == raw[0] * 256 + raw[1], 'struct value')


@harness('C06', 'strict timestamps: all floats k/8 with |v| <= 50; struct and '
         'integer values outside the declared domain', quick=[{}],
         covers=['negative', 'overflow', 'lru'])
def domain_edges(ctx):
    kind = ctx.choice('kind', ['negative', 'overflow', 'lru'])
    ctx.cover(kind)
    if kind == 'negative':
        v = ctx.float('v', -50, 50, 3)
        bad = raises(ValueError, StrictTimestamp().pack, v)
        ctx.check(bad == (v < 0), 'negative strict timestamps are refused')
        bad = raises(ValueError, StrictTimestamp().unpack, b'%r' % v)
        ctx.check(bad == (v < 0), 'negative strict timestamps are refused')
    elif kind == 'overflow':
        v = ctx.int('v', -10 ** 6, 10 ** 6)
        bad = raises(ValueError, Struct('>H').pack, (v,))
        ctx.check(bad == (v < 0 or v > 65535), 'struct range')
    else:
        v = ctx.int('v', -5, 5)
        bad = raises(ValueError, Lru().pack, v)
        ctx.check(bad == (not (v == 0 or v == 1)), 'lru values')


@harness('C06', 'floats that are NaN or infinite, as values and as texts, '
         'against all integer bounds |b| <= 100, given or absent; strict '
         'timestamps likewise', quick=[{}],
         covers=['NaN', 'inside', 'outside', 'strict'])
def not_finite(ctx):
    major = ctx.choice('major', MAJORS)
    text = ctx.choice('text', ['nan', 'NaN', '-nan', 'inf', '-inf',
                               'Infinity'])
    v = float(text)
    if ctx.choice('strict', [False, True]):
        for f, a in ((StrictTimestamp().pack, v),
                     (StrictTimestamp().unpack, text.encode())):
            try:
                f(a, major=major)
            except ValueError:
                continue
            ctx.check(v == float('inf') and a == v, 'refused')
        ctx.cover('strict')
        return
    lo = ctx.int('lo', -100, 100) if ctx.choice('has_lo', [True, False]) \
        else None
    hi = ctx.int('hi', -100, 100) if ctx.choice('has_hi', [True, False]) \
        else None
    t = Float(min=lo, max=hi)
    ok = ((lo is None or v == float('inf'))
          and (hi is None or v == float('-inf')))
    try:
        packed = t.pack(v, major=major)
    except ValueError:
        ctx.check(not ok, 'packed')
    else:
        ctx.check(ok and str(float(packed)) == str(v), 'refused')
    try:
        got = t.unpack(text.encode(), major)
    except ValueError:
        ctx.check(not ok, 'unpacked')
        ctx.cover('outside')
    else:
        ctx.check(ok and str(got) == str(v), 'refused')
        ctx.cover('NaN' if got != got else 'inside')


# ------------------------------------------------------------------ C07

def make_types(ctx, n, multi_last=True):
    """A signature: tuple of Int types with symbolic optional/default."""
    types, spec = [], []
    for i in range(n):
        k = ctx.choice('sig%d' % i, ['required', 'optional', 'default'])
        multiple = multi_last and i == n - 1 and ctx.choice('multi',
                                                            [False, True])
        kw = {'multiple': multiple}
        if k == 'optional':
            kw['optional'] = True
        elif k == 'default':
            kw['default'] = 40 + i
        types.append(Int(max=9999, **kw))
        spec.append((k, multiple))
    return tuple(types), spec


@harness('C07', 'signatures of up to n integer parameters (required, optional, '
         'defaulted, last one repeatable) called with 0..m arguments, each any '
         'byte string of up to w bytes',
         quick=[{'n': 2, 'm': 3, 'w': 1}, {'n': 1, 'm': 2, 'w': 2}],
         thorough=[{'n': 3, 'm': 4, 'w': 1}, {'n': 2, 'm': 3, 'w': 2}],
         covers=['ok', 'too-many', 'missing', 'bad'])
def unpack_request(ctx, n, m, w):
    k = ctx.choice('ntypes', list(range(n + 1)))
    types, spec = make_types(ctx, k)
    nargs = ctx.choice('nargs', list(range(m + 1)))
    args = [ctx.bytes('a%d' % i, ctx.choice('l%d' % i, list(range(w + 1))))
            for i in range(nargs)]
    seen = []

    @request(*types)
    def request_foo(self, req, *values):
        seen.append((self, req, values))
        return 'handled'

    msg = Message.request('foo', *args)
    multi = bool(spec) and spec[-1][1]
    # reference
    expect, why = [], None
    if nargs > k and not multi:
        why = 'too-many'
    else:
        for i in range(max(k, nargs)):
            kind = spec[min(i, k - 1)][0]
            if i >= nargs:
                if kind == 'required':
                    why = why or 'missing'
                expect.append(None if kind == 'optional' else 40 + i)
                continue
            a = args[i]
            # texts of up to two bytes: reference decimal reader
            val = None
            if len(a) > 0:
                body = a[1:] if (a[0] == 43 or a[0] == 45) else a
                good = len(body) > 0
                num = 0
                for c in body:
                    if not (48 <= c <= 57):
                        good = False
                    num = num * 10 + (c - 48)
                if good:
                    val = -num if a[0] == 45 else num
            if val is None:
                # surrounding white space is tolerated, nothing else is
                plain = False
                for c in a:
                    if c == 0x20 or 9 <= c <= 13:
                        plain = True
                if plain:
                    return
                why = why or 'bad'
            expect.append(val)
    try:
        r = request_foo('self', 'req', msg)
    except FailReply:
        ctx.check(why is not None, 'a well-formed request is handled')
        ctx.check(not seen, 'no handler call on refusal')
        ctx.cover(why)
        return
    ctx.check(why is None, 'a malformed request is refused')
    ctx.check(r == 'handled', 'handler result passed on')
    ctx.check(len(seen) == 1, 'one handler call')
    values = seen[0][2]
    ctx.check(len(values) == len(expect), 'one value per parameter')
    for got, want in zip(values, expect):
        if want is None:
            ctx.check(got is None, 'missing optional parameter is None')
        else:
            ctx.check(got == want, 'value in declared order')
    ctx.cover('ok')


@harness('C07', 'replies of 0..n values against signatures of 0..n integer '
         'types (required, optional, defaulted, last repeatable); status ok, '
         'fail or other', quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['ok', 'fail', 'refused', 'status'])
def pack_reply(ctx, n):
    k = ctx.choice('ntypes', list(range(n + 1)))
    types, spec = make_types(ctx, k)
    nargs = ctx.choice('nargs', list(range(n + 2)))
    values = [ctx.int('v%d' % i, 0, 12000) for i in range(nargs)]
    status = ctx.choice('status', ['ok', 'fail', 'maybe'])
    how = ctx.choice('how', ['return', 'send'])
    sent = []
    if status == 'fail':
        out = ('fail', 'reason')
    else:
        out = (status,) + tuple(values)
    req_msg = Message.request('foo-bar', mid=b'3')

    class Req(object):
        msg = req_msg

        def reply_with_message(self, m):
            sent.append(m)

    if how == 'return':
        @return_reply(*types)
        def request_foo_bar(self, req):
            return out
    else:
        @send_reply(*types)
        def request_foo_bar(self, req):
            return (req,) + out

    multi = bool(spec) and spec[-1][1]
    bad = None
    if status == 'maybe':
        bad = 'status'
    elif status == 'ok':
        if nargs > k and not multi:
            bad = 'refused'
        for v in values:
            if v > 9999:
                bad = 'refused'
        for i in range(nargs, k):
            if spec[i][0] != 'default':
                bad = 'refused'
    try:
        r = request_foo_bar('self', Req())
    except ValueError:
        ctx.check(bad is not None, 'a reply matching the signature is made')
        ctx.check(not sent, 'nothing sent')
        ctx.cover(bad)
        return
    ctx.check(bad is None, 'a reply not matching the signature is refused')
    if how == 'send':
        ctx.check(len(sent) == 1 and r is None, 'one reply sent')
        r = sent[0]
    ctx.check(r.mtype == Message.REPLY and r.name == 'foo-bar', 'reply name')
    if status == 'fail':
        ctx.check(r.arguments == [b'fail', b'reason'], 'fail reply')
        ctx.cover('fail')
        return
    want = [b'ok'] + [b'%d' % v for v in values]
    want += [b'%d' % (40 + i) for i in range(nargs, k)]
    ctx.check(len(r.arguments) == len(want), 'argument count')
    for a, b in zip(r.arguments, want):
        ctx.check(a == b, 'packed in order')
    ctx.cover('ok')


@harness('C07', 'decorator order (request outside or inside), with and '
         'without the message, informs; argument names in error texts',
         quick=[{}], covers=['request-outside', 'reply-outside', 'inform'])
def decorator_forms(ctx):
    kind = ctx.choice('kind', ['request-outside', 'reply-outside', 'inform'])
    include = ctx.choice('include_msg', [False, True])
    v = ctx.int('v', -50, 50)
    ok = 0 <= v <= 9
    seen = []
    ctx.cover(kind)
    if kind == 'inform':
        deco = inform(Int(min=0, max=9), include_msg=include)
        if include:
            def inform_it(self, msg, alpha):
                seen.append((msg, alpha))
        else:
            def inform_it(self, alpha):
                seen.append((None, alpha))
        h = deco(inform_it)
        msg = Message.inform('it', v)
        bad = raises(FailReply, h, 'self', msg)
        ctx.check(bad == (not ok), 'informs are checked')
        if ok:
            ctx.check(seen[0][1] == v and
                      seen[0][0] is (msg if include else None), 'arguments')
        return
    if include:
        def request_it(self, req, msg, alpha):
            seen.append((req, msg, alpha))
            return ('ok', alpha + 1)
    else:
        def request_it(self, req, alpha):
            seen.append((req, None, alpha))
            return ('ok', alpha + 1)
    rq = request(Int(min=0, max=9), include_msg=include)
    rr = return_reply(Int(max=9))
    h = rq(rr(request_it)) if kind == 'request-outside' else rr(rq(request_it))
    ctx.check(h.__name__ == 'request_it', 'the handler keeps its name')
    msg = Message.request('it', v)
    try:
        r = h('self', 'req', msg)
    except FailReply as e:
        ctx.check(not ok, 'valid parameters are accepted')
        ctx.check('alpha' in str(e), 'the parameter is named in the error')
        ctx.check(not seen, 'handler not called')
    except ValueError:
        ctx.check(v == 9, 'reply outside its declared range is refused')
    else:
        ctx.check(ok and v != 9, 'invalid parameters are refused')
        ctx.check(r.arguments[0] == b'ok' and r.arguments[1] == b'%d' % (v + 1),
                  'reply')
        ctx.check(seen[0][0] == 'req', 'the request object is passed on')
        ctx.check(seen[0][1] is (msg if include else None), 'message passed')


@harness('C07', 'parameters alpha, beta, gamma (repeatable), 1..5 arguments, '
         'one of them (any position) bad; handlers, methods without request '
         'object, KATCP 4 and 5 (a timestamp); replies of a timestamp through '
         'return_reply (also with a future) and send_reply; fail replies with '
         'none, one and two reasons, replies of too few or many values',
         quick=[{}], covers=['named', 'timestamp', 'reason',
                             'no single reason', 'other values'])
def declared(ctx):
    major = ctx.choice('major', [4, 5])
    what = ctx.choice('what', ['names', 'reply', 'fail'])
    ts = ctx.int('ts', 1, 50)
    wire = b'%d' % (ts * 1000 if major == 4 else ts)
    if what == 'names':
        seen = []
        plain = ctx.choice('plain', [False, True])
        if plain:
            @unpack_message(Int(min=0, max=9), Timestamp(),
                            Int(min=0, max=9, multiple=True), major=major)
            def reply_it(self, alpha, beta, *gamma):
                seen.append((alpha, beta) + gamma)
            call = lambda msg: reply_it('self', msg)
        else:
            @request(Int(min=0, max=9), Timestamp(),
                     Int(min=0, max=9, multiple=True), major=major)
            def request_it(self, req, alpha, beta, *gamma):
                seen.append((alpha, beta) + gamma)
            call = lambda msg: request_it('self', 'req', msg)
        n = ctx.choice('n', [1, 2, 3, 4, 5])
        bad = ctx.choice('bad', [None, 0, 1, 2, 3, 4])
        vals = [ctx.int('v%d' % i, 0, 9) for i in range(n)]
        args = [b'%d' % v for v in vals]
        if n > 1:
            args[1] = wire
            vals[1] = ts
        if bad is not None:
            if bad >= n:
                return
            args[bad] = b'x'
        if n < 3 and bad is None:
            bad = n
        try:
            call(Message.request('it', *args))
        except FailReply as e:
            ctx.check(bad is not None, 'accepted')
            name = (['alpha', 'beta'] + [None] * 3)[bad]
            if bad < 2:
                ctx.check(name in str(e), 'the parameter is named')
            ctx.check(str(bad + 1) in str(e), 'with its position')
            ctx.check(not seen, 'not called')
            ctx.cover('named')
            return
        ctx.check(bad is None and len(seen) == 1, 'called')
        ctx.check(len(seen[0]) == len(vals), 'all values')
        for a, b in zip(seen[0], vals):
            ctx.check(a == b, 'the values in order')
        return
    how = ctx.choice('how', ['return', 'future', 'send'])
    f = Future()
    loop = SimLoop(1000)
    install_env(loop, 1)
    if what == 'reply':
        nv = ctx.choice('values', [0, 1, 2, 3])
        out = ('ok', ts, 7, 8)[:nv + 1]
    else:
        nr = ctx.choice('reasons', [0, 1, 2])
        out = ('fail',) + ('one', 'two')[:nr]
    sent = []
    req_msg = Message.request('it', mid=b'3')

    class Req(object):
        msg = req_msg

        def reply_with_message(self, m):
            sent.append(m)
    if how == 'send':
        @send_reply(Timestamp(), Int(default=4), major=major)
        def request_it(self, req):
            return (req,) + out
    else:
        @return_reply(Timestamp(), Int(default=4), major=major)
        def request_it(self, req):
            return out if how == 'return' else f
    refused = False
    try:
        with as_thread(1):
            r = request_it('self', Req())
        if how == 'future':
            ctx.check(not r.done(), 'no reply before there is a result')
            f.set_result(out)
            with as_thread(1):
                loop.settle()
            r = r.result()
        elif how == 'send':
            r, = sent
    except ValueError:
        refused = True
    if what == 'fail' and nr != 1:
        ctx.check(refused and not sent, 'a fail reply has one reason')
        ctx.cover('no single reason')
        return
    if what == 'reply' and nv in (0, 3):
        ctx.check(refused and not sent, 'a reply has the values declared')
        ctx.cover('other values')
        return
    ctx.check(not refused and r.mtype == Message.REPLY and r.name == 'it',
              'a reply is made')
    if what == 'fail':
        ctx.check(r.arguments == [b'fail', b'one'], 'with the reason')
        ctx.cover('reason')
        return
    ctx.check(r.arguments[0] == b'ok' and len(r.arguments) == 3, 'ok')
    ctx.check(r.arguments[2] == (b'4' if nv == 1 else b'7'),
              'the value, or its default')
    kt = Timestamp()
    ctx.check(kt.unpack(r.arguments[1], major) == ts, 'in the unit of the '
              'version')
    if major == 4:
        ctx.check(r.arguments[1] == b'%d' % (ts * 1000), 'milliseconds')
    ctx.cover('timestamp')


assume_note('C05', 'floats and timestamps are exact doubles on a dyadic grid; '
            'values outside the stated magnitude bounds, infinities and NaN '
            'are outside the claim')
assume_note('C07', 'argument texts longer than the bound, and parameter types '
            'other than integers, are outside the claim (see C06)')
