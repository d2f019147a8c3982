"""Sensor trees."""
from katcp import AggregateSensorTree, BooleanSensorTree, Sensor
from symkat.harness import assume_note, harness


def boolean(i):
    return Sensor.boolean('s%d' % i, 'desc')


class Bool(object):
    """The tree and what it should look like."""

    def __init__(self, ctx, n, free=None):
        self.ctx = ctx
        self.n = n
        self.tree = BooleanSensorTree()
        self.s = [boolean(i) for i in range(n)]
        self.value = []
        for i in range(n):
            v = (ctx.bool('init%d' % i) if free is None or i in free
                 else False)
            self.s[i].set_value(v)
            self.value.append(v)
        self.kids = [set() for i in range(n)]

    def settle(self):
        """Parents get the AND of their children; children come later."""
        for i in reversed(range(self.n)):
            if self.kids[i]:
                self.value[i] = all([self.value[j] for j in self.kids[i]])

    def add(self, p, c):
        self.tree.add(self.s[p], self.s[c])
        self.kids[p].add(c)
        self.settle()

    def remove(self, p, c):
        self.tree.remove(self.s[p], self.s[c])
        if c in self.kids[p]:
            self.kids[p].discard(c)
            if not self.kids[p]:
                self.value[p] = True
                self.ctx.cover('last child removed')
        else:
            self.ctx.cover('no such link')
        self.settle()

    def set(self, i, v):
        self.s[i].set_value(v)
        self.value[i] = v
        self.settle()

    def check(self):
        linked = set()
        for i in range(self.n):
            if self.kids[i]:
                linked.add(i)
                linked.update(self.kids[i])
        for i in range(self.n):
            s = self.s[i]
            self.ctx.check(s.value() == self.value[i],
                           'a parent is the AND of its children, '
                           'others keep their value')
            self.ctx.check((s in self.tree) == (i in linked),
                           'in the tree exactly if linked')
            if i in linked:
                self.ctx.check(
                    self.tree.children(s) == set(self.s[j]
                                                 for j in self.kids[i])
                    and self.tree.parents(s) == set(
                        self.s[j] for j in range(self.n)
                        if i in self.kids[j]), 'links')


def pairs(n):
    return [(i, j) for i in range(n) for j in range(i + 1, n)]


def bool_step(ctx, b, k):
    ops = ([('add',) + p for p in pairs(b.n)]
           + [('remove',) + p for p in pairs(b.n)]
           + [('set', i) for i in range(b.n)])
    op = ctx.choice('op%d' % k, ops)
    if op[0] == 'add':
        b.add(op[1], op[2])
    elif op[0] == 'remove':
        b.remove(op[1], op[2])
    else:
        ctx.assume(not b.kids[op[1]])
        b.set(op[1], ctx.bool('v%d' % k))
        if any(op[1] in kids for kids in b.kids):
            ctx.cover('propagated')
    b.check()


@harness('C31', 'BooleanSensorTree of 3 boolean sensors of any initial values; '
         'every sequence of `steps` of: add or remove any (acyclic) link, '
         'existing or not, set any leaf to a symbolic value',
         quick=[{'steps': 3}], thorough=[{'steps': 4}],
         covers=['propagated', 'last child removed', 'no such link'])
def boolean_small(ctx, steps):
    b = Bool(ctx, 3)
    for k in range(steps):
        bool_step(ctx, b, k)


SHAPES = [
    # diamond, chain, two parents of one child, a mixture
    [(0, 1), (0, 2), (1, 3), (2, 3)],
    [(0, 1), (1, 2), (2, 3)],
    [(0, 2), (1, 2), (1, 3)],
    [(0, 1), (0, 2), (0, 3), (1, 3)]]


@harness('C31', 'diamond, chain and other shapes of 4 sensors (built in any '
         'of three orders), then every sequence of `steps` of the same '
         'operations', quick=[{'steps': 2}], thorough=[{'steps': 3}],
         covers=['propagated', 'last child removed', 'no such link'])
def boolean_shapes(ctx, steps):
    links = ctx.choice('shape', SHAPES)
    b = Bool(ctx, 4, [c for p, c in links if not any(
        q == c for q, d in links)])
    order = ctx.choice('order', [0, 1, 2])
    links = list(links)
    if order == 1:
        links.reverse()
    elif order == 2:
        links = links[2:] + links[:2]
    for p, c in links:
        b.add(p, c)
    b.check()
    for k in range(steps):
        bool_step(ctx, b, k)


@harness('C31', 'the same shapes; any `gone` links removed in any order, then '
         'added back in the same or reverse order; every leaf is set to a '
         'symbolic value in between and at the end',
         quick=[{'gone': 2}], thorough=[{'gone': 3}], covers=['back'])
def relinked(ctx, gone):
    links = ctx.choice('shape', SHAPES)
    leaves = [c for c in range(4) if not any(p == c for p, d in links)]
    b = Bool(ctx, 4, leaves)
    for p, c in links:
        b.add(p, c)
    left, lost = list(links), []
    for k in range(gone):
        l = ctx.choice('gone%d' % k, left)
        left.remove(l)
        lost.append(l)
        b.remove(*l)
    b.check()
    leaf = ctx.choice('leaf', leaves)
    b.set(leaf, ctx.bool('mid'))
    b.check()
    if ctx.choice('reverse', [False, True]):
        lost.reverse()
    for l in lost:
        b.add(*l)
        b.check()
    for i in leaves:
        b.set(i, ctx.bool('end%d' % i))
        b.check()
    ctx.cover('back')


@harness('C31', 'sensors of every other type', quick=[{}],
         covers=['refused'])
def only_boolean(ctx):
    tree = BooleanSensorTree()
    other = ctx.choice('other', [
        Sensor.integer('i', 'd'), Sensor.string('i', 'd'),
        Sensor.float('i', 'd'), Sensor.discrete('i', 'd', '', ['a', 'b'])])
    b = boolean(1)
    pair = ctx.choice('pair', [(other, b), (b, other)])
    try:
        tree.add(*pair)
        ok = False
    except ValueError:
        ok = True
    ctx.check(ok and other not in tree, 'refused')
    ctx.cover('refused')


# ------------------------------------------------------------------ C32

def integer(name):
    return Sensor.integer(name, 'desc', '', [-1000, 1000])


class Agg(object):
    """Aggregates 0 and 1 (sums) over children 2..4."""
    SETS = [(2, 3), (2,), (2, 3, 4)]

    def __init__(self, ctx):
        self.ctx = ctx
        self.tree = AggregateSensorTree()
        self.s = [integer('s%d' % i) for i in range(5)]
        self.value = [0] * 5
        for i in (2, 3, 4):
            self.put(i, ctx.int('init%d' % i, -9, 9))
        self.rules = {}          # parent -> children
        self.active = set()
        self.registered = set()
        self.needs = {}          # waiting parent -> missing children
        self.calls = []

    def put(self, i, v):
        self.s[i].set_value(v, timestamp=1)
        self.value[i] = v

    def rule(self, parent, children):
        self.calls.append((parent, set(children)))
        parent.set_value(sum(c.value() for c in children), timestamp=1)

    def sums(self):
        for p in self.active:
            self.value[p] = sum(self.value[c] for c in self.rules[p])

    def delay(self, p, kids):
        self.rules[p] = kids
        self.needs[p] = set(c for c in kids if c not in self.registered)
        return self.complete()

    def register(self, c):
        self.registered.add(c)
        for p in self.needs:
            self.needs[p].discard(c)
        return self.complete()

    def deregister(self, c):
        self.registered.discard(c)
        for p in self.rules:
            if c in self.rules[p]:
                self.active.discard(p)
                self.needs.setdefault(p, set()).add(c)

    def complete(self):
        n = 0
        for p in list(self.needs):
            if not self.needs[p]:
                del self.needs[p]
                self.active.add(p)
                n += 1
        return n

    def check(self):
        self.sums()
        for i in range(5):
            s = self.s[i]
            if i > 1 or i in self.active:
                self.ctx.check(s.value() == self.value[i],
                               'an aggregate follows its children')
            if i <= 1:
                self.ctx.check((s in self.tree) == (i in self.active),
                               'in the tree exactly if complete')
                if i in self.active:
                    self.ctx.check(self.tree.children(s) == set(
                        self.s[c] for c in self.rules[i]), 'its children')


def agg_step(ctx, a, k):
    op = ctx.choice('op%d' % k, ['add', 'delayed', 'register', 'deregister',
                                 'remove', 'set'])
    if op in ('add', 'delayed'):
        p = ctx.choice('parent%d' % k, [0, 1])
        kids = ctx.choice('kids%d' % k, a.SETS)
        try:
            if op == 'add':
                a.tree.add(a.s[p], a.rule, tuple(a.s[c] for c in kids))
            else:
                a.tree.add_delayed(a.s[p], a.rule, ['s%d' % c for c in kids])
            ok = True
        except ValueError:
            ok = False
        ctx.check(ok == (p not in a.rules), 'one rule for each aggregate')
        if ok:
            if op == 'add':
                a.rules[p] = kids
                a.active.add(p)
            elif not a.delay(p, kids):
                ctx.cover('delayed')
            if p in a.active:
                rule, children = a.tree.fetch(a.s[p])
                ctx.check(set(children) == set(a.s[c] for c in kids),
                          'fetch()')
    elif op == 'register':
        c = ctx.choice('child%d' % k, [2, 3, 4])
        try:
            a.tree.register_sensor(a.s[c])
            ok = True
        except ValueError:
            ok = False
        ctx.check(ok == (c not in a.registered), 'registered once')
        if ok and a.register(c):
            ctx.cover('completed')
    elif op == 'deregister':
        c = ctx.choice('child%d' % k, [2, 3, 4])
        try:
            a.tree.deregister_sensor(a.s[c])
            ok = True
        except ValueError:
            ok = False
        ctx.check(ok == (c in a.registered), 'only a registered sensor')
        if ok:
            n = len(a.active)
            a.deregister(c)
            if len(a.active) < n:
                ctx.cover('incomplete again')
    elif op == 'remove':
        p = ctx.choice('parent%d' % k, [0, 1])
        try:
            a.tree.remove(a.s[p])
            ok = True
        except ValueError:
            ok = False
        ctx.check(ok == (p in a.active), 'only an active rule')
        if ok:
            del a.rules[p]
            a.active.discard(p)
            ctx.cover('removed')
    else:
        c = ctx.choice('child%d' % k, [2, 3, 4])
        before = [a.s[p].value() for p in (0, 1)]
        a.put(c, ctx.int('v%d' % k, -9, 9))
        for p in (0, 1):
            if p not in a.active:
                ctx.check(a.s[p].value() == before[p],
                          'no update without an active rule')
        ctx.cover('set')
    a.check()


@harness('C32', 'AggregateSensorTree with two sums over one to three of three '
         'integer sensors of symbolic values; every sequence of `steps` of: '
         'add, add_delayed, remove a rule, register or deregister a child, '
         'set a child to a symbolic value',
         quick=[{'steps': 3}], thorough=[{'steps': 4}],
         covers=['delayed', 'completed', 'incomplete again', 'removed', 'set'])
def aggregates(ctx, steps):
    a = Agg(ctx)
    for k in range(steps):
        agg_step(ctx, a, k)


@harness('C32', 'the same after two delayed rules were completed (or all but '
         'one child registered): every sequence of `steps` operations, then '
         'all children are registered and set',
         quick=[{'steps': 2}], thorough=[{'steps': 3}],
         covers=['completed', 'incomplete again', 'removed', 'set'])
def aggregates_churn(ctx, steps):
    a = Agg(ctx)
    both = [ctx.choice('kids_a', a.SETS), ctx.choice('kids_b', a.SETS)]
    for p in (0, 1):
        a.tree.add_delayed(a.s[p], a.rule, ['s%d' % c for c in both[p]])
        a.delay(p, both[p])
    for c in (2, 3, 4)[:ctx.choice('upto', [2, 3])]:
        a.tree.register_sensor(a.s[c])
        a.register(c)
    a.check()
    for k in range(steps):
        agg_step(ctx, a, k)
    for c in (2, 3, 4):
        if c not in a.registered:
            a.tree.register_sensor(a.s[c])
            a.register(c)
    a.check()
    for c in (2, 3, 4):
        a.put(c, ctx.int('last%d' % c, -9, 9))
        a.check()


@harness('C32', 'an aggregate of an aggregate (each added at once or delayed, in '
         'either order), then `steps` of: remove or add back a rule, deregister '
         'or register a sensor, set one to a symbolic value',
         quick=[{'steps': 2}], thorough=[{'steps': 3}],
         covers=['followed', 'incomplete'])
def nested(ctx, steps):
    # s0 = s1 + s2 and s1 = s3 + s4
    tree = AggregateSensorTree()
    s = [integer('s%d' % i) for i in range(5)]
    val = [0] * 5
    for i in (2, 3, 4):
        val[i] = ctx.int('init%d' % i, -9, 9)
        s[i].set_value(val[i], timestamp=1)
    kids = {0: (1, 2), 1: (3, 4)}

    def rule(parent, children):
        parent.set_value(sum(c.value() for c in children), timestamp=1)

    ruled, names = {}, set()

    def add(p, delayed):
        if delayed:
            tree.add_delayed(s[p], rule, ['s%d' % c for c in kids[p]])
        else:
            tree.add(s[p], rule, tuple(s[c] for c in kids[p]))
        ruled[p] = not delayed or all(c in names for c in kids[p])

    def register(c):
        tree.register_sensor(s[c])
        names.add(c)
        for p in ruled:
            if c in kids[p]:
                ruled[p] = ruled[p] or all(k in names for k in kids[p])

    def check():
        for p in (1, 0):
            if ruled.get(p):
                val[p] = sum(val[c] for c in kids[p])
            else:
                val[p] = s[p].value()
        for p in (0, 1):
            ctx.check(s[p].value() == val[p], 'an aggregate follows')
            if ruled.get(p):
                ctx.check(s[p] in tree and set(tree.children(s[p]))
                          == set(s[c] for c in kids[p]), 'its children')
                ctx.cover('followed')
            elif p in ruled:
                ctx.cover('incomplete')

    order = ctx.choice('order', [(0, 1), (1, 0)])
    modes = [ctx.choice('mode%d' % p, [False, True]) for p in (0, 1)]
    regs = ctx.choice('registered', [(), (3, 4), (1, 2, 3), (4, 3, 2, 1)])
    before = ctx.choice('before', [True, False])
    if before:
        for c in regs:
            register(c)
    for p in order:
        add(p, modes[p])
        check()
    if not before:
        for c in regs:
            register(c)
            check()
    for k in range(steps):
        op = ctx.choice('op%d' % k, ['rule', 'name', 'set'])
        if op == 'rule':
            p = ctx.choice('p%d' % k, [0, 1])
            if ruled.get(p):
                tree.remove(s[p])
                del ruled[p]
            elif p not in ruled:
                add(p, modes[p])
        elif op == 'name':
            c = ctx.choice('c%d' % k, [1, 3])
            if c in names:
                tree.deregister_sensor(s[c])
                names.discard(c)
                for p in ruled:
                    if c in kids[p]:
                        ruled[p] = False
            else:
                register(c)
        else:
            c = ctx.choice('c%d' % k, [2, 3])
            val[c] = ctx.int('v%d' % k, -9, 9)
            s[c].set_value(val[c], timestamp=1)
        check()
    for c in (4, 3, 2):
        val[c] = ctx.int('last%d' % c, -9, 9)
        s[c].set_value(val[c], timestamp=1)
        check()


@harness('C32', 'a deregistered child is replaced by another sensor of the '
         'same name, while its aggregates are complete or still waiting',
         quick=[{}], covers=['complete', 'waiting'])
def replaced(ctx):
    a = Agg(ctx)
    kids = ctx.choice('kids', a.SETS)
    a.tree.add_delayed(a.s[0], a.rule, ['s%d' % c for c in kids])
    n = int(ctx.int('n', 1, len(kids)))
    for c in kids[:n]:
        a.tree.register_sensor(a.s[c])
    ctx.cover('complete' if n == len(kids) else 'waiting')
    old = a.s[2]
    a.tree.deregister_sensor(old)
    new = integer('s2')
    v = ctx.int('v', -9, 9)
    new.set_value(v, timestamp=1)
    a.tree.register_sensor(new)
    for c in kids[n:]:
        a.tree.register_sensor(a.s[c])
    want = v + sum(a.value[c] for c in kids if c != 2)
    ctx.check(a.s[0].value() == want, 'the new sensor counts')
    old.set_value(500, timestamp=1)
    ctx.check(a.s[0].value() == want, 'the old one does not')
    u = ctx.int('u', -9, 9)
    new.set_value(u, timestamp=1)
    ctx.check(a.s[0].value() == want - v + u, 'the new one is followed')
    ctx.check(old not in a.tree, 'the old one is out of the tree')


for pid in ('C31', 'C32'):
    assume_note(pid, 'acyclic links only; aggregation rules do not fail and '
                'change only their own sensor')
