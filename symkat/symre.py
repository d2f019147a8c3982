"""Regular expressions over symbolic sequences (backtracking, forking)."""
import sre_constants as C
import sre_parse
import re

from . import sym

_TREES = {}


def tree(p):
    t = _TREES.get((p.pattern, p.flags))
    if t is None:
        t = sre_parse.parse(p.pattern, p.flags & ~re.UNICODE
                            if isinstance(p.pattern, str) else p.flags)
        _TREES[(p.pattern, p.flags)] = t
    return t


def _cat(name, c, is_bytes):
    if name in (C.CATEGORY_DIGIT, C.CATEGORY_NOT_DIGIT):
        r = sym.inset(c, sym.DIG) if is_bytes else sym.ucond(c, 'isdecimal')
        return sym.znot(r) if name is C.CATEGORY_NOT_DIGIT else r
    if name in (C.CATEGORY_SPACE, C.CATEGORY_NOT_SPACE):
        r = sym.inset(c, sym.BWS) if is_bytes else sym.ucond(c, 'isspace')
        return sym.znot(r) if name is C.CATEGORY_NOT_SPACE else r
    if name in (C.CATEGORY_WORD, C.CATEGORY_NOT_WORD):
        if is_bytes:
            r = sym.inset(c, sym.ALNUM | {95})
        else:
            r = sym.zor(sym.ucond(c, 'isalnum'), sym.ceq(c, 95))
        return sym.znot(r) if name is C.CATEGORY_NOT_WORD else r
    sym.unmodelled('regex category %s' % (name,))


def _in(items, c, is_bytes):
    neg = False
    conds = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            conds.append(sym.ceq(c, av))
        elif op is C.RANGE:
            lo, hi = av
            if type(c) is int:
                conds.append(lo <= c <= hi)
            else:
                from . import term as z3
                conds.append(z3.And(c >= lo, c <= hi))
        elif op is C.CATEGORY:
            conds.append(_cat(av, c, is_bytes))
        else:
            sym.unmodelled('regex set item %s' % (op,))
    r = sym.zor(*conds)
    return sym.znot(r) if neg else r


class M(object):
    """Matcher for one (pattern, subject) pair."""

    def __init__(self, p, e, is_bytes):
        self.p = p
        self.e = e
        self.n = len(e)
        self.is_bytes = is_bytes
        self.flags = p.flags
        if p.flags & (re.I | re.L):
            sym.unmodelled('regex flags')

    def seq(self, items, k, i, g):
        """Yield (pos, groups) for matches of items[k:] at i."""
        if k == len(items):
            yield i, g
            return
        op, av = items[k]
        e = self.e
        if op is C.LITERAL:
            if i < self.n and sym.branch(sym.ceq(e[i], av)):
                for r in self.seq(items, k + 1, i + 1, g):
                    yield r
        elif op is C.NOT_LITERAL:
            if i < self.n and not sym.branch(sym.ceq(e[i], av)):
                for r in self.seq(items, k + 1, i + 1, g):
                    yield r
        elif op is C.ANY:
            if i < self.n and (self.flags & re.S or
                               not sym.branch(sym.ceq(e[i], 10))):
                for r in self.seq(items, k + 1, i + 1, g):
                    yield r
        elif op is C.IN:
            if i < self.n and sym.branch(_in(av, e[i], self.is_bytes)):
                for r in self.seq(items, k + 1, i + 1, g):
                    yield r
        elif op is C.AT:
            if self.at(av, i):
                for r in self.seq(items, k + 1, i, g):
                    yield r
        elif op is C.BRANCH:
            for alt in av[1]:
                for j, g2 in self.seq(list(alt), 0, i, g):
                    for r in self.seq(items, k + 1, j, g2):
                        yield r
        elif op is C.SUBPATTERN:
            gid, add, sub, pat = av
            if add or sub:
                sym.unmodelled('regex inline flags')
            for j, g2 in self.seq(list(pat), 0, i, g):
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (i, j)
                for r in self.seq(items, k + 1, j, g2):
                    yield r
        elif op is C.MAX_REPEAT:
            lo, hi, pat = av
            for r in self.rep(items, k, list(pat), lo, hi, 0, i, g, True):
                yield r
        elif op is C.MIN_REPEAT:
            lo, hi, pat = av
            for r in self.rep(items, k, list(pat), lo, hi, 0, i, g, False):
                yield r
        elif op is C.GROUPREF:
            if av in g:
                s, t = g[av]
                ok = True
                for x in range(t - s):
                    if i + x >= self.n or not sym.branch(
                            sym.ceq(e[i + x], e[s + x])):
                        ok = False
                        break
                if ok:
                    for r in self.seq(items, k + 1, i + t - s, g):
                        yield r
        elif op in (C.ASSERT, C.ASSERT_NOT):
            direction, pat = av
            if direction < 0:
                sym.unmodelled('regex lookbehind')
            found = None
            for j, g2 in self.seq(list(pat), 0, i, g):
                found = g2
                break
            if op is C.ASSERT and found is not None:
                for r in self.seq(items, k + 1, i, found):
                    yield r
            elif op is C.ASSERT_NOT and found is None:
                for r in self.seq(items, k + 1, i, g):
                    yield r
        else:
            sym.unmodelled('regex op %s' % (op,))

    def rep(self, items, k, pat, lo, hi, count, i, g, greedy):
        if not greedy and count >= lo:
            for r in self.seq(items, k + 1, i, g):
                yield r
        if count < hi:
            for j, g2 in self.seq(pat, 0, i, g):
                if j == i and count >= lo:
                    continue        # no progress
                for r in self.rep(items, k, pat, lo, hi, count + 1, j, g2,
                                  greedy):
                    yield r
        if greedy and count >= lo:
            for r in self.seq(items, k + 1, i, g):
                yield r

    def at(self, av, i):
        e = self.e
        if av is C.AT_BEGINNING_STRING:
            return i == 0
        if av is C.AT_BEGINNING:
            if self.flags & re.M:
                return i == 0 or sym.branch(sym.ceq(e[i - 1], 10))
            return i == 0
        if av is C.AT_END_STRING:
            return i == self.n
        if av is C.AT_END:
            if i == self.n:
                return True
            if self.flags & re.M:
                return sym.branch(sym.ceq(e[i], 10))
            return i == self.n - 1 and sym.branch(sym.ceq(e[i], 10))
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            def word(x):
                return (0 <= x < self.n and sym.branch(_cat(
                    C.CATEGORY_WORD, e[x], self.is_bytes)))
            b = word(i - 1) != word(i)
            return b if av is C.AT_BOUNDARY else not b
        sym.unmodelled('regex at %s' % (av,))


class SymMatch(object):
    def __init__(self, p, subject, mk, e, start, end, groups):
        self.re = p
        self.string = subject
        self._mk = mk
        self._e = e
        self._g = dict(groups)
        self._g[0] = (start, end)

    def _id(self, k):
        if isinstance(k, str) and not isinstance(k, sym.Sym):
            return self.re.groupindex[k]
        if not 0 <= k <= self.re.groups:
            raise IndexError('no such group')
        return k

    def _one(self, k, default=None):
        s = self._g.get(self._id(k))
        if s is None:
            return default
        return self._mk(self._e[s[0]:s[1]])

    def group(self, *ks):
        if not ks:
            ks = (0,)
        if len(ks) == 1:
            return self._one(ks[0])
        return tuple(self._one(k) for k in ks)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self._one(k, default)
                     for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return dict((n, self._one(n, default)) for n in self.re.groupindex)

    def start(self, k=0):
        return self._g.get(self._id(k), (-1, -1))[0]

    def end(self, k=0):
        return self._g.get(self._id(k), (-1, -1))[1]

    def span(self, k=0):
        return self._g.get(self._id(k), (-1, -1))

    @property
    def lastindex(self):
        ks = [k for k in self._g if k]
        return max(ks, key=lambda k: self._g[k][1]) if ks else None


def _prep(p, s):
    is_bytes = isinstance(s, bytes)
    if is_bytes != isinstance(p.pattern, bytes):
        raise TypeError('cannot use a %s pattern on a %s-like object' % (
            'bytes' if isinstance(p.pattern, bytes) else 'string',
            'bytes' if is_bytes else 'string'))
    if type(s) in (sym.SymBytes, sym.SymStr):
        e = s.elems()
    elif is_bytes:
        e = list(s)
    else:
        e = [ord(c) for c in s]
    mk = sym.mkbytes if is_bytes else sym.mkstr
    return M(p, e, is_bytes), mk, e


def match_at(p, s, pos, full=False, must_advance=False):
    m, mk, e = _prep(p, s)
    for j, g in m.seq(list(tree(p)), 0, pos, {}):
        if full and j != len(e):
            continue
        if must_advance and j == pos:
            continue
        return SymMatch(p, s, mk, e, pos, j, g)
    return None


def match(p, s, pos=0, endpos=None):
    if endpos is not None:
        s = s[:endpos]
    return match_at(p, s, pos)


def fullmatch(p, s, pos=0, endpos=None):
    if endpos is not None:
        s = s[:endpos]
    return match_at(p, s, pos, full=True)


def search(p, s, pos=0, endpos=None):
    if endpos is not None:
        s = s[:endpos]
    for i in range(pos, len(s) + 1):
        r = match_at(p, s, i)
        if r is not None:
            return r
    return None


def finditer(p, s, pos=0):
    n = len(s)
    must = False
    while pos <= n:
        r = None
        for i in range(pos, n + 1):
            r = match_at(p, s, i, must_advance=must and i == pos)
            if r is not None:
                break
        if r is None:
            return
        yield r
        pos = r.end()
        must = r.end() == r.start()


def findall(p, s, pos=0):
    out = []
    for m in finditer(p, s, pos):
        if p.groups == 0:
            out.append(m.group())
        elif p.groups == 1:
            out.append(m.groups(b'' if isinstance(s, bytes) else '')[0])
        else:
            out.append(m.groups(b'' if isinstance(s, bytes) else ''))
    return out


def split(p, s, maxsplit=0):
    _, mk, e = _prep(p, s)
    out, last, k = [], 0, 0
    for m in finditer(p, s):
        if maxsplit and k >= maxsplit:
            break
        out.append(mk(e[last:m.start()]))
        out.extend(m.groups())
        last = m.end()
        k += 1
    out.append(mk(e[last:]))
    return out


def sub(p, repl, s, count=0):
    return subn(p, repl, s, count)[0]


def subn(p, repl, s, count=0):
    _, mk, e = _prep(p, s)
    out, last, k = [], 0, 0
    if not callable(repl) and not sym.is_sym(repl):
        bs = b'\\' if isinstance(repl, bytes) else '\\'
        if bs in repl:
            template = sre_parse.parse_template(repl, p)
            groups, literals = template

            def fn(m, groups=groups, literals=literals):
                parts = list(literals)
                for i, g in groups:
                    parts[i] = m.group(g)
                r = []
                for x in parts:
                    if x is not None:
                        r.extend(_prep(p, x)[2])
                return mk(r)
        else:
            def fn(m):
                return repl
    elif callable(repl):
        fn = repl
    else:
        sym.unmodelled('symbolic replacement template')
    for m in finditer(p, s):
        if count and k >= count:
            break
        out.extend(e[last:m.start()])
        out.extend(_prep(p, fn(m))[2])
        last = m.end()
        k += 1
    out.extend(e[last:])
    return mk(out), k


METHODS = {'match': match, 'fullmatch': fullmatch, 'search': search,
           'finditer': finditer, 'findall': findall, 'split': split,
           'sub': sub, 'subn': subn}
