"""C01-C03: the wire codec (katcp.core.Message / MessageParser)."""
from katcp.core import KatcpSyntaxError, Message, MessageParser
from symkat.harness import assume_note, harness

TYPES = [Message.REQUEST, Message.REPLY, Message.INFORM]
SYMBOL = {Message.REQUEST: b'?', Message.REPLY: b'!', Message.INFORM: b'#'}
CONTROL = [0x00, 0x0a, 0x0d, 0x1b, 0x09]


def shapes(total, nargs):
    """All tuples of argument lengths with the given bounds."""
    out = [()]
    res = [()]
    for _ in range(nargs):
        out = [s + (n,) for s in out for n in range(total + 1)
               if sum(s) + n <= total]
        res += out
    return res


def draw_args(ctx, total, nargs):
    shape = ctx.choice('shape', shapes(total, nargs))
    return [ctx.bytes('arg%d' % i, n) for i, n in enumerate(shape)]


def draw_mid(ctx):
    kind = ctx.choice('mid_kind', ['none', 'bytes', 'int'])
    if kind == 'none':
        return None, None
    if kind == 'bytes':
        n = ctx.choice('mid_len', [1, 2, 3])
        mid = ctx.bytes('mid', n, alphabet=b'0123456789')
        return mid, mid
    v = ctx.int('mid_int', 0, 99999)
    return v, b'%d' % v


# ------------------------------------------------------------------ C01

@harness('C01', 'any message type, 0-3 arguments of arbitrary bytes, total '
         'argument length <= total, optional numeric id',
         quick=[{'total': 4, 'nargs': 2}, {'total': 3, 'nargs': 3}],
         thorough=[{'total': 6, 'nargs': 2}, {'total': 8, 'nargs': 1},
                   {'total': 5, 'nargs': 3}],
         covers=['args'])
def roundtrip_args(ctx, total, nargs):
    mtype = ctx.choice('mtype', TYPES)
    args = draw_args(ctx, total, nargs)
    mid = ctx.choice('mid', [None, b'7', b'042'])
    msg = Message(mtype, 'foo-bar', args, mid)
    line = bytes(msg)
    ctx.observe('line', line)
    back = MessageParser().parse(line)
    ctx.check(back.mtype == mtype, 'message type survives')
    ctx.check(back.name == 'foo-bar', 'name survives')
    ctx.check(back.mid == mid, 'message id survives')
    ctx.check(len(back.arguments) == len(args), 'argument count survives')
    for i, a in enumerate(args):
        ctx.check(back.arguments[i] == a, 'argument %d survives' % i)
    ctx.check(back == msg, 'the parsed message equals the original')
    ctx.check(not (back != msg), 'inequality agrees with equality')
    if args:
        ctx.cover('args')


@harness('C01', 'names: every text of length 1..n over the code points '
         '0..hi; ids: none, 1-3 digits, or an integer below 100000',
         quick=[{'n': 1, 'hi': 0x10ffff}, {'n': 2, 'hi': 0x17f}],
         thorough=[{'n': 2, 'hi': 0x10ffff}, {'n': 3, 'hi': 0x17f},
                   {'n': 4, 'hi': 0x7f}],
         covers=['accepted', 'rejected'])
def roundtrip_head(ctx, n, hi):
    mtype = ctx.choice('mtype', TYPES)
    k = ctx.choice('name_len', list(range(1, n + 1)))
    name = ctx.text('name', k, hi=hi)
    mid, mid_bytes = draw_mid(ctx)
    try:
        msg = Message(mtype, name, [b'x'], mid)
    except KatcpSyntaxError:
        # only names outside the grammar may be refused
        ok = True
        for i, c in enumerate(name):
            letter = 'a' <= c <= 'z' or 'A' <= c <= 'Z'
            other = '0' <= c <= '9' or c == '-'
            if not (letter or (i > 0 and other)):
                ok = False
        ctx.check(not ok, 'a grammatical name is accepted')
        ctx.cover('rejected')
        return
    line = bytes(msg)
    ctx.observe('line', line)
    back = MessageParser().parse(line)
    ctx.check(back.mtype == mtype, 'message type survives')
    ctx.check(back.name == name, 'name survives')
    ctx.check(back.mid == mid_bytes, 'message id survives')
    ctx.check(back.arguments == [b'x'], 'arguments survive')
    ctx.check(back == msg, 'the parsed message equals the original')
    ctx.cover('accepted')


@harness('C01', 'message ids of 1..3 arbitrary bytes',
         quick=[{'n': 3}], covers=['accepted', 'rejected'])
def mid_validity(ctx, n):
    k = ctx.choice('len', list(range(0, n + 1)))
    mid = ctx.bytes('mid', k)
    digits = k > 0
    for c in mid:
        if not (48 <= c <= 57):
            digits = False
    try:
        msg = Message(Message.REQUEST, 'foo', [], mid)
    except KatcpSyntaxError:
        ctx.check(not digits, 'a numeric id is accepted')
        ctx.cover('rejected')
        return
    ctx.check(digits, 'only numeric ids are accepted')
    back = MessageParser().parse(bytes(msg))
    ctx.check(back.mid == mid, 'message id survives')
    ctx.cover('accepted')


@harness('C01', 'typed arguments: ints |v| <= 10**6, booleans, text of up to '
         'n code points (any Unicode scalar value), floats k/8 with '
         '|value| <= 1000', quick=[{'n': 2}], thorough=[{'n': 3}, {'n': 4}],
         covers=['int', 'bool', 'text', 'float'])
def typed_arguments(ctx, n):
    kind = ctx.choice('kind', ['int', 'bool', 'text', 'float'])
    if kind == 'int':
        v = ctx.int('v', -10 ** 6, 10 ** 6)
    elif kind == 'bool':
        v = ctx.symbool('v')
    elif kind == 'text':
        v = ctx.text('v', ctx.choice('len', list(range(n + 1))))
    else:
        v = ctx.float('v', -1000, 1000, 3)
    how = ctx.choice('how', ['request', 'reply', 'inform'])
    msg = getattr(Message, how)('foo', v, mid=1)
    back = MessageParser().parse(bytes(msg))
    ctx.check(back == msg, 'round trip')
    ctx.check(len(back.arguments) == 1, 'one argument')
    a = back.arguments[0]
    ctx.observe('arg', a)
    if kind == 'int':
        ctx.check(int(a) == v, 'integer value survives')
        ctx.check(len(a) <= 8, 'plain decimal text')
    elif kind == 'bool':
        ctx.check((a == b'1') == v, 'true is 1')
        ctx.check((a == b'0') == (not v), 'false is 0')
    elif kind == 'text':
        ctx.check(a.decode('utf-8') == v, 'text survives as UTF-8')
    else:
        ctx.check(float(a) == v, 'float value survives')
    ctx.cover(kind)


@harness('C01', 'replies and informs built for a request with any id '
         '(none or 1-2 digits), argument of up to 2 arbitrary bytes',
         quick=[{}], covers=['with-id', 'without-id'])
def derived_messages(ctx):
    mid = ctx.choice('mid_kind', ['none', 'digits'])
    mid = None if mid == 'none' else ctx.bytes(
        'mid', ctx.choice('mid_len', [1, 2]), alphabet=b'0123456789')
    arg = ctx.bytes('arg', ctx.choice('len', [0, 1, 2]))
    req = Message.request('do-it', b'a', mid=mid)
    for msg, mtype in ((Message.reply_to_request(req, arg), Message.REPLY),
                       (Message.reply_inform(req, arg), Message.INFORM)):
        ctx.check(msg.mtype == mtype, 'type of derived message')
        ctx.check(msg.name == req.name, 'derived message keeps the name')
        ctx.check(msg.mid == mid, 'derived message keeps the id')
        ctx.check(msg.arguments == [arg], 'derived message arguments')
    ctx.check(Message.reply_to_request(req, b'ok', arg).reply_ok(),
              'ok reply is recognised')
    ctx.check(bool(Message.reply_to_request(req, arg).reply_ok())
              == (arg == b'ok'), 'only ok replies are ok')
    ctx.check(not Message.reply_inform(req, b'ok').reply_ok(),
              'an inform is not an ok reply')
    # a copy is equal and independent
    c = Message.reply_inform(req, arg)
    d = c.copy()
    ctx.check(d == c, 'a copy equals its original')
    d.arguments.append(b'x')
    ctx.check(len(c.arguments) == 1, 'a copy has its own argument list')
    ctx.cover('with-id' if mid is not None else 'without-id')


# ------------------------------------------------------------------ C02

@harness('C02', 'up to nargs arguments of arbitrary bytes, total length <= '
         'total', quick=[{'total': 4, 'nargs': 2}, {'total': 2, 'nargs': 3}],
         thorough=[{'total': 6, 'nargs': 2}, {'total': 8, 'nargs': 1}],
         covers=['line'])
def single_line(ctx, total, nargs):
    mtype = ctx.choice('mtype', TYPES)
    args = draw_args(ctx, total, nargs)
    msg = Message(mtype, 'foo', args, ctx.choice('mid', [None, b'5']))
    line = bytes(msg)
    ctx.observe('line', line)
    ctx.check(line[:1] == SYMBOL[mtype], 'line starts with the type symbol')
    spaces = 0
    for c in line:
        for bad in CONTROL:
            ctx.check(c != bad, 'no raw control character in a line')
        if c == 0x20:
            spaces += 1
    ctx.check(spaces == len(args), 'one separator per argument')
    for tok in line.split(b' ')[1:]:
        ctx.check(len(tok) > 0, 'no empty argument token')
    ctx.cover('line')


@harness('C02', 'two messages with arguments of up to n arbitrary bytes sent '
         'back to back, split at newlines by the receiver',
         quick=[{'n': 2}], thorough=[{'n': 3}, {'n': 4}], covers=['two'])
def no_injection(ctx, n):
    a = ctx.bytes('a', ctx.choice('la', list(range(n + 1))))
    b = ctx.bytes('b', ctx.choice('lb', list(range(n + 1))))
    m1 = Message.inform('one', a, b'end')
    m2 = Message.reply('two', b, mid=3)
    data = bytes(m1) + b'\n' + bytes(m2) + b'\n'
    lines = data.split(b'\n')
    ctx.check(len(lines) == 3, 'exactly two lines')
    ctx.check(lines[2] == b'', 'terminated')
    p = MessageParser()
    ctx.check(p.parse(lines[0]) == m1, 'first message')
    ctx.check(p.parse(lines[1]) == m2, 'second message')
    ctx.cover('two')


# ------------------------------------------------------------------ C03

ESC = {0x5c: 0x5c, 0x5f: 0x20, 0x30: 0x00, 0x6e: 0x0a, 0x72: 0x0d,
       0x65: 0x1b, 0x74: 0x09}


def reference_parse(line):
    """Independent reference parser: (mtype, name, mid, args) or None."""
    if len(line) == 0:
        return None
    t = line[0]
    if t == 0x3f:
        mtype = Message.REQUEST
    elif t == 0x21:
        mtype = Message.REPLY
    elif t == 0x23:
        mtype = Message.INFORM
    else:
        return None
    toks = [[]]
    prev_ws = False
    for c in line[1:]:
        if c == 0x20 or c == 0x09:
            if not prev_ws:
                toks.append([])
            prev_ws = True
        else:
            prev_ws = False
            toks[-1].append(c)
    if len(toks) > 1 and not toks[-1]:
        toks.pop()
    head = toks[0]
    # name
    i = 0
    name = []
    while i < len(head) and head[i] != 0x5b:
        c = head[i]
        letter = 0x41 <= c <= 0x5a or 0x61 <= c <= 0x7a
        if not (letter or (i > 0 and (0x30 <= c <= 0x39 or c == 0x2d))):
            return None
        name.append(c)
        i += 1
    if not name:
        return None
    mid = None
    if i < len(head):
        i += 1
        mid = []
        while i < len(head) and 0x30 <= head[i] <= 0x39:
            mid.append(head[i])
            i += 1
        if not mid or i != len(head) - 1 or head[i] != 0x5d:
            return None
    args = []
    for tok in toks[1:]:
        out = []
        j = 0
        while j < len(tok):
            c = tok[j]
            if c in (0x00, 0x0a, 0x0d, 0x1b):
                return None
            if c == 0x5c:
                j += 1
                if j >= len(tok):
                    return None
                d = tok[j]
                if d == 0x40:
                    pass
                elif d in ESC:
                    out.append(ESC[d])
                else:
                    return None
            else:
                out.append(c)
            j += 1
        args.append(out)
    return mtype, name, mid, args


def compare_with_reference(ctx, line):
    ref = reference_parse(line)
    try:
        msg = MessageParser().parse(line)
    except KatcpSyntaxError:
        ctx.check(ref is None, 'a grammatical line is accepted')
        ctx.cover('rejected')
        return
    ctx.check(ref is not None, 'an ungrammatical line is rejected')
    mtype, name, mid, args = ref
    ctx.check(msg.mtype == mtype, 'type as in the grammar')
    ctx.check(msg.name == bytes(name).decode('ascii'), 'name as in the grammar')
    if mid is None:
        ctx.check(msg.mid is None, 'no id')
    else:
        ctx.check(msg.mid == bytes(mid), 'id as in the grammar')
    ctx.check(len(msg.arguments) == len(args), 'argument count')
    for got, want in zip(msg.arguments, args):
        ctx.check(got == bytes(want), 'argument as in the grammar')
    again = MessageParser().parse(bytes(msg))
    ctx.check(again == msg, 're-serialised form parses to the same message')
    ctx.observe('canonical', bytes(msg))
    ctx.cover('accepted')


def draw_line(ctx, name, n):
    line = ctx.bytes(name, n)
    for c in line:
        # the read loops split at these: parse() never sees them
        ctx.assume(c != 0x0a)
        ctx.assume(c != 0x0d)
    return line


@harness('C03', 'every line of 0..n bytes (CR/LF excluded: they end a line)',
         quick=[{'n': 4}], thorough=[{'n': 5}, {'n': 6}],
         covers=['accepted', 'rejected'])
def any_line(ctx, n):
    k = ctx.choice('len', list(range(n + 1)))
    compare_with_reference(ctx, draw_line(ctx, 'line', k))


@harness('C03', 'lines starting "?a " followed by every n-byte tail '
         '(arguments), and "!b" + every n-byte tail (id part)',
         quick=[{'n': 4}], thorough=[{'n': 5}, {'n': 6}],
         covers=['accepted', 'rejected'])
def any_tail(ctx, n):
    prefix = ctx.choice('prefix', [b'?a ', b'!b', b'#c[', b'?d x\\'])
    k = ctx.choice('len', list(range(n + 1)))
    compare_with_reference(ctx, prefix + draw_line(ctx, 'tail', k))


assume_note('C01', 'argument lengths and counts beyond the stated bounds are '
            'outside the claim; floats are restricted to a dyadic grid')
assume_note('C03', 'lines longer than the stated bounds are outside the claim')
