"""Registry of properties and their harnesses."""

PROPS = {}


class Harness(object):
    """One symbolic harness.

    fn(ctx, **params) is run symbolically (and concretely, for replays).
    quick / thorough: lists of parameter dicts (the stated bounds).
    covers: tags which must be reached on some feasible path (vacuity guard).
    """

    def __init__(self, fn, name, bounds, quick, thorough, covers, expect):
        self.fn = fn
        self.name = name
        self.bounds = bounds
        self.quick = quick
        self.thorough = thorough
        self.covers = covers
        self.expect = expect


class Prop(object):
    def __init__(self, pid):
        self.pid = pid
        self.harnesses = []
        self.assumptions = []


def prop(pid):
    if pid not in PROPS:
        PROPS[pid] = Prop(pid)
    return PROPS[pid]


def harness(pid, bounds, quick=({},), thorough=(), covers=(), expect=None):
    """Decorator registering a harness for property ``pid``."""
    def deco(fn):
        prop(pid).harnesses.append(Harness(
            fn, fn.__name__, bounds, list(quick), list(thorough),
            list(covers), expect))
        return fn
    return deco


def assume_note(pid, *texts):
    prop(pid).assumptions.extend(texts)
