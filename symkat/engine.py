"""Path exploration engine: symbolic execution by re-execution.

A *harness* is a Python function ``h(ctx)`` which draws symbolic inputs from
``ctx``, runs functions of the real implementation on them and states
assertions with ``ctx.check``.  Every time the (real, rewritten-on-load) code
branches on a symbolic condition, ``Explorer.branch`` asks the SMT solver which
sides are feasible under the current path condition and the engine later
re-executes the harness for each of them.  When the work list is empty, every
feasible path within the stated bounds has been executed, and on each one the
solver has discharged the negation of every assertion.
"""
import os
import pickle
import re
import select
import sys
import time as _time
import traceback

import z3 as _z3

from . import term as z3

perf = _time.perf_counter


class PathAbort(BaseException):
    """Ends the current path (infeasible assumption, or violation recorded)."""


class Incomplete(BaseException):
    """The engine could not decide or encode something: never a success."""


class CheckFailed(BaseException):
    """Raised by ConcreteCtx.check when an assertion fails during a replay."""


EX = None          # the active Explorer (None while running concretely)
FUNCS = set()      # qualified names of the implementation functions executed


def active():
    return EX


_DEF = re.compile(r'\(define-fun (?:\|([^|]*)\||(\S+)) \(\) (Int|Bool)\s+'
                  r'(?:(true)|(false)|(\d+)|\(- (\d+)\))\)')


class Model(object):
    """A satisfying assignment, evaluated in Python."""

    def __init__(self, ref, solver):
        zm = _z3.Z3_solver_get_model(ref, solver)
        _z3.Z3_model_inc_ref(ref, zm)
        txt = _z3.Z3_model_to_string(ref, zm)
        _z3.Z3_model_dec_ref(ref, zm)
        self.asg = asg = {}
        self.memo = {}
        n = 0
        for q, name, _, t, f, pos, neg in _DEF.findall(txt):
            n += 1
            if pos:
                v = int(pos)
            elif neg:
                v = -int(neg)
            else:
                v = bool(t)
            asg[q or name] = v
        if n != txt.count('(define-fun'):
            raise Incomplete('cannot read the model: %s' % txt[:200])

    def eval(self, t):
        return z3.evaluate(t, self.asg, self.memo)


class Stats(object):
    FIELDS = ('paths', 'aborted', 'decisions', 'queries', 'sat', 'unsat',
              'solver_s', 'obligations', 'discharged', 'concrete_checks',
              'max_depth', 'forks', 'covered')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.covered = {}

    def merge(self, d):
        for f in self.FIELDS:
            if f == 'max_depth':
                self.max_depth = max(self.max_depth, d[f])
            elif f == 'covered':
                for k, v in d[f].items():
                    self.covered[k] = self.covered.get(k, 0) + v
            else:
                setattr(self, f, getattr(self, f) + d[f])

    def as_dict(self):
        return dict((f, getattr(self, f)) for f in self.FIELDS)


class Explorer(object):
    MAX_DECISIONS = 20000

    def __init__(self, query_timeout_ms=60000):
        self._new_solver(query_timeout_ms)
        self.query_timeout_ms = query_timeout_ms
        self.stats = Stats()
        self.stack = []            # pending prefixes
        self._reset()

    def _reset(self):
        self.prefix = ()
        self.trace = []
        self.known = {}
        self.keep = []
        self.pc = []
        self.synced = 0
        self.model = None
        self.inputs = {}
        self.observed = []
        self.aborting = None
        self.alts = []
        self.violations = []
        self.fresh = 0
        self.bounds = {}

    # ---- solver ----------------------------------------------------------
    def _new_solver(self, timeout):
        self.solver = _z3.Solver()
        self.solver.set('timeout', timeout)
        self.asserted = []         # terms on the solver's assertion stack
        self.ctxref = self.solver.ctx.ref()

    def add(self, expr):
        self.pc.append(expr)

    def constrain(self, *exprs):
        """Add definitional constraints (input domains, fresh variables)."""
        for e in exprs:
            if e is True:
                continue
            self.pc.append(e)
            if self.model is not None and self.model_value(e) is not True:
                self.model = None

    def flush(self):
        """Bring the solver's assertion stack in line with this path."""
        st, pc = self.asserted, self.pc
        n = self.synced
        if n == 0 or n > len(st):
            n = 0
            m = min(len(st), len(pc))
            while n < m and st[n] is pc[n]:
                n += 1
        if n < len(st):
            _z3.Z3_solver_pop(self.ctxref, self.solver.solver, len(st) - n)
            del st[n:]
        ref, sv = self.ctxref, self.solver.solver
        for t in pc[n:]:
            _z3.Z3_solver_push(ref, sv)
            _z3.Z3_solver_assert(ref, sv, z3.to_z3(t).as_ast())
            st.append(t)
        self.synced = len(pc)

    def query(self, *extra):
        """sat / unsat under the path condition; Incomplete on unknown."""
        t = perf()
        self.flush()
        if any(e is False for e in extra):
            return False, None
        zs = [z3.to_z3(e).as_ast() for e in extra if e is not True]
        ref, sv = self.ctxref, self.solver.solver
        if zs:
            _z3.Z3_solver_push(ref, sv)
            for z in zs:
                _z3.Z3_solver_assert(ref, sv, z)
        r = _z3.Z3_solver_check(ref, sv)
        mod = None
        if r == _z3.Z3_L_TRUE:
            mod = Model(ref, sv)
        elif r != _z3.Z3_L_FALSE:
            why = self.solver.reason_unknown()
            s2 = _z3.Solver()
            s2.set('timeout', self.query_timeout_ms * 2)
            s2.add(*[z3.to_z3(e) for e in self.pc])
            s2.add(*[z3.to_z3(e) for e in extra if e is not True])
            r = {'sat': 1, 'unsat': -1}.get(str(s2.check()), 0)
            if r == 1:
                mod = Model(ref, s2.solver)
        if zs:
            _z3.Z3_solver_pop(ref, sv, 1)
        self.stats.solver_s += perf() - t
        self.stats.queries += 1
        if r == 1:
            self.stats.sat += 1
            return True, mod
        if r == -1:
            self.stats.unsat += 1
            return False, None
        self.fail_incomplete('solver returned unknown: %s' % why)

    def fail_incomplete(self, why):
        self.aborting = Incomplete(why)
        raise self.aborting

    def model_value(self, cond):
        if self.model is None:
            return None
        return self.model.eval(cond)

    def fresh_int(self, hint='k'):
        self.fresh += 1
        return z3.Int('%s!%d' % (hint, self.fresh))

    # ---- branching -------------------------------------------------------
    def branch(self, cond):
        if self.aborting is not None:
            raise self.aborting
        if cond is True or cond is False:
            return cond
        # Every call is recorded in the trace, also when the outcome is
        # implied, so that re-execution stays aligned whatever the solver's
        # internal term order is.
        key = cond.get_id()
        r = self.known.get(key)
        i = len(self.trace)
        if i >= self.MAX_DECISIONS:
            self.fail_incomplete('decision bound exceeded on a path')
        if i < len(self.prefix):
            d = self.prefix[i]
            if r is None:
                self.known[key] = d
                self.keep.append(cond)
                self.add(cond if d else z3.Not(cond))
                if self.model is not None and self.model_value(cond) != d:
                    self.model = None
            elif r != d:
                self.fail_incomplete('re-execution diverged')
            self.trace.append(d)
            return d
        if r is not None:
            self.trace.append(r)
            return r
        c = z3.simplify(cond)
        if z3.is_true(c):
            d = True
        elif z3.is_false(c):
            d = False
        else:
            key2 = c.get_id()
            d = self.known.get(key2)
            if d is None:
                d = self._decide(c)
                self.known[key2] = d
                self.keep.append(c)
                self.add(c if d else z3.Not(c))
        self.trace.append(d)
        self.known[key] = d
        self.keep.append(cond)
        return d

    def _decide(self, cond):
        self.stats.decisions += 1
        ncond = z3.Not(cond)
        mv = self.model_value(cond)
        if mv is None:
            t_ok, m = self.query(cond)
            if t_ok:
                self.model = m
                f_ok, _ = self.query(ncond)
            else:
                # path condition is satisfiable by invariant
                f_ok = True
                self.model = None
                return False
            mv = True
        elif mv:
            t_ok = True
            f_ok, _ = self.query(ncond)
        else:
            f_ok = True
            t_ok, _ = self.query(cond)
        if t_ok and f_ok:
            # continue on the side the current model satisfies
            d = mv
            self.stats.forks += 1
            self.alts.append(tuple(self.trace) + (not d,))
            return d
        return t_ok

    def assume(self, cond):
        if self.aborting is not None:
            raise self.aborting
        if cond is True:
            return
        if cond is False:
            self.abort()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            self.abort()
        self.add(cond)
        if self.model is not None and self.model_value(cond) is True:
            return
        if len(self.trace) < len(self.prefix):
            # this prefix was already found feasible beyond this point
            self.model = None
            return
        ok, m = self.query()
        if not ok:
            self.abort()
        self.model = m

    def abort(self):
        self.aborting = PathAbort()
        raise self.aborting

    def check(self, cond, msg):
        """Discharge an assertion; on failure record a counterexample."""
        if self.aborting is not None:
            raise self.aborting
        if cond is True:
            self.stats.concrete_checks += 1
            return
        self.stats.obligations += 1
        if cond is not False:
            c = z3.simplify(cond)
            if z3.is_true(c):
                self.stats.discharged += 1
                return
            bad, m = self.query(z3.Not(c))
            if not bad:
                self.stats.discharged += 1
                return
        else:
            m = self.get_model()
        self.violations.append({'msg': msg, 'inputs': self.extract(m)})
        self.abort()

    def valid(self, cond):
        """True iff cond holds for every value on this path (no forking)."""
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.model_value(cond) is False:
            return False
        bad, _ = self.query(z3.Not(cond))
        return not bad

    def candidate(self, e):
        """A feasible value of the integer term e, recorded in the trace."""
        if self.aborting is not None:
            raise self.aborting
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            m = self.get_model() if self.model is None else self.model
            v = int(m.eval(e))
        self.trace.append(v)
        return v

    def get_model(self):
        ok, m = self.query()
        if not ok:
            self.fail_incomplete('path condition became unsatisfiable')
        self.model = m
        return m

    # ---- inputs ----------------------------------------------------------
    def extract(self, model):
        out = {}
        for name, (kind, exprs, meta) in self.inputs.items():
            vals = []
            for e in exprs:
                if isinstance(e, int):
                    vals.append(e)
                else:
                    vals.append(int(model.eval(e)))
            out[name] = [kind, vals, meta]
        return out

    # ---- running ---------------------------------------------------------
    def run_path(self, fn, prefix, want_model=False):
        """Execute one path.  Returns dict(status, alts, violations, ...)"""
        global EX
        self._reset()
        self.prefix = prefix
        if z3.table_size() > 1500000:
            z3.reset_table()
            self._new_solver(self.query_timeout_ms)
        EX = self
        status, detail = 'ok', None
        try:
            try:
                fn(SymCtx(self))
            except PathAbort:
                status = 'abort'
            except Incomplete as e:
                status, detail = 'incomplete', str(e)
            except Exception as e:
                if self.aborting is not None:
                    raise self.aborting
                status = 'exception'
                detail = '%s: %s' % (type(e).__name__, _safe_str(e))
                tb = traceback.format_exc()
                try:
                    m = self.get_model()
                    self.violations.append({
                        'msg': 'unexpected exception %s' % detail,
                        'inputs': self.extract(m), 'traceback': tb})
                except BaseException as e2:
                    status, detail = 'incomplete', repr(e2)
        except (PathAbort, Incomplete) as e:
            status = 'abort' if isinstance(e, PathAbort) else 'incomplete'
            detail = str(e)
        if status == 'ok' and self.aborting is not None:
            # an abort was swallowed by code under test
            status = ('abort' if isinstance(self.aborting, PathAbort)
                      else 'incomplete')
            detail = str(self.aborting)
        witness = None
        if status == 'ok' and want_model:
            try:
                m = self.get_model()
                witness = {'inputs': self.extract(m),
                           'observed': eval_observed(self.observed, m)}
            except (PathAbort, Incomplete) as e:
                status, detail = 'incomplete', 'model extraction: %s' % e
        EX = None
        st = self.stats
        if status == 'abort' and not self.violations:
            st.aborted += 1
        else:
            st.paths += 1
        st.max_depth = max(st.max_depth, len(self.trace))
        return {'status': status, 'detail': detail, 'alts': self.alts,
                'violations': self.violations, 'witness': witness}


def _safe_str(e):
    try:
        return str(e)[:300]
    except Exception:
        return '<unprintable>'


def eval_observed(obs, model):
    from . import sym
    return [(label, sym.concretise_under(v, model)) for label, v in obs]


class BaseCtx(object):
    symbolic = False

    def assume(self, cond):
        raise NotImplementedError


class SymCtx(BaseCtx):
    """Harness-facing context during symbolic execution."""
    symbolic = True

    def __init__(self, ex):
        self.ex = ex

    def _reg(self, name, kind, exprs, meta=None):
        if name in self.ex.inputs:
            raise RuntimeError('duplicate input %s' % name)
        self.ex.inputs[name] = (kind, exprs, meta)

    def int(self, name, lo=None, hi=None):
        from . import sym
        if lo is not None and lo == hi:
            self._reg(name, 'int', [lo])
            return lo
        v = z3.Int(name)
        self._reg(name, 'int', [v])
        if lo is not None:
            self.ex.constrain(v >= lo)
        if hi is not None:
            self.ex.constrain(v <= hi)
        return sym.SymInt(v, lo, hi)

    def bool(self, name):
        """A symbolic boolean input; forks as soon as it is drawn."""
        v = z3.Bool(name)
        self._reg(name, 'bool', [v])
        return self.ex.branch(v)

    def symbool(self, name):
        from . import sym
        v = z3.Bool(name)
        self._reg(name, 'bool', [v])
        return sym.SymBool(v)

    def choice(self, name, options):
        """A symbolic selector variable; the engine forks over its values."""
        opts = list(options) if not isinstance(options, int) else range(options)
        n = len(opts)
        if n == 1:
            self._reg(name, 'choice', [0])
            return opts[0]
        v = z3.Int(name)
        self._reg(name, 'choice', [v])
        self.ex.constrain(v >= 0)
        self.ex.constrain(v < n)
        # The selector is unconstrained otherwise: binary search keeps
        # the decision depth logarithmic.
        lo, hi = 0, n - 1
        while lo < hi:
            mid = (lo + hi) // 2
            if self.ex.branch(v <= mid):
                hi = mid
            else:
                lo = mid + 1
        return opts[lo]

    def bytes(self, name, length, alphabet=None):
        from . import sym
        vs = [z3.Int('%s[%d]' % (name, i)) for i in range(length)]
        self._reg(name, 'bytes', vs)
        for v in vs:
            self.ex.constrain(v >= 0)
            self.ex.constrain(v <= 255)
            if alphabet is not None:
                self.ex.constrain(z3.Or(*[v == c for c in alphabet]))
        return sym.mkbytes(vs)

    def text(self, name, length, lo=0, hi=0x10FFFF, surrogates=False,
             alphabet=None):
        from . import sym
        vs = [z3.Int('%s[%d]' % (name, i)) for i in range(length)]
        self._reg(name, 'text', vs)
        for v in vs:
            self.ex.bounds[v.get_id()] = (lo, hi)
            self.ex.constrain(v >= lo)
            self.ex.constrain(v <= hi)
            if not surrogates and hi >= 0xD800:
                self.ex.constrain(z3.Or(v < 0xD800, v > 0xDFFF))
            if alphabet is not None:
                self.ex.constrain(z3.Or(*[v == ord(c) for c in alphabet]))
        return sym.mkstr(vs)

    def float(self, name, lo, hi, g=10):
        """A symbolic double n*2**-g with lo <= value <= hi (exact grid)."""
        from . import sym
        v = z3.Int(name)
        self._reg(name, 'float', [v], g)
        self.ex.constrain(v >= int(lo * 2 ** g))
        self.ex.constrain(v <= int(hi * 2 ** g))
        return sym.SymFloat(v, g, max(abs(lo), abs(hi)), lo >= 0)

    def assume(self, cond):
        from . import sym
        self.ex.assume(sym.to_cond(cond))

    def check(self, cond, msg):
        from . import sym
        self.ex.check(sym.to_cond(cond), msg)

    def observe(self, label, value):
        self.ex.observed.append((label, value))

    def cover(self, tag):
        c = self.ex.stats.covered
        c[tag] = c.get(tag, 0) + 1


class ConcreteCtx(BaseCtx):
    """The same interface fed with the solver's values, on unpatched code."""
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.observed = []
        self.covered = {}
        self.failed = None     # sticky: the code under test may swallow it

    def _get(self, name, kind):
        if name not in self.inputs:
            # The solver's run ended before this input was drawn
            raise ReplayDiverged('input %s was not drawn symbolically' % name)
        k, vals, meta = self.inputs[name]
        if k != kind:
            raise ReplayDiverged('input %s kind %s/%s' % (name, k, kind))
        return vals, meta

    def int(self, name, lo=None, hi=None):
        return self._get(name, 'int')[0][0]

    def bool(self, name):
        return bool(self._get(name, 'bool')[0][0])

    symbool = bool

    def choice(self, name, options):
        opts = list(options) if not isinstance(options, int) else range(options)
        return opts[self._get(name, 'choice')[0][0]]

    def bytes(self, name, length, alphabet=None):
        return bytes(self._get(name, 'bytes')[0])

    def text(self, name, length, lo=0, hi=0, surrogates=False, alphabet=None):
        return ''.join(chr(c) for c in self._get(name, 'text')[0])

    def float(self, name, lo, hi, g=10):
        vals, g = self._get(name, 'float')
        return vals[0] / float(2 ** g)

    def assume(self, cond):
        if not cond:
            raise ReplayDiverged('assumption does not hold concretely')

    def check(self, cond, msg):
        if not cond:
            if self.failed is None:
                self.failed = msg
            raise CheckFailed(msg)

    def observe(self, label, value):
        self.observed.append((label, value))

    def cover(self, tag):
        self.covered[tag] = self.covered.get(tag, 0) + 1


class ReplayDiverged(Exception):
    pass


# --------------------------------------------------------------------------
# Parallel driver

class Result(object):
    def __init__(self):
        self.stats = Stats()
        self.violations = []
        self.incomplete = []
        self.witnesses = []
        self.funcs = set()
        self.complete = False
        self.wall_s = 0.0


def _worker(fn, rfd, wfd, sample_every, query_timeout_ms):
    rf = os.fdopen(rfd, 'rb')
    wf = os.fdopen(wfd, 'wb')
    ex = Explorer(query_timeout_ms)
    count = 0
    while True:
        try:
            job = pickle.load(rf)
        except EOFError:
            break
        if job is None:
            break
        prefixes, max_paths, max_s = job
        stack = list(prefixes)
        out = {'violations': [], 'incomplete': [], 'witnesses': []}
        ex.stats = Stats()
        t0 = perf()
        n = 0
        while stack and n < max_paths and perf() - t0 < max_s:
            p = stack.pop()
            want = (count % sample_every == 0)
            r = ex.run_path(fn, p, want)
            n += 1
            if r['status'] == 'ok':
                count += 1
            if r['witness'] is not None:
                out['witnesses'].append(r['witness'])
            stack.extend(r['alts'])
            out['violations'].extend(r['violations'])
            if r['status'] == 'incomplete':
                out['incomplete'].append(r['detail'])
            if out['violations'] or len(out['incomplete']) > 20:
                break
        out['left'] = stack
        out['stats'] = ex.stats.as_dict()
        out['funcs'] = sorted(FUNCS)
        try:
            blob = pickle.dumps(out)
        except Exception:
            for w in out['witnesses']:
                w['observed'] = [('unpicklable', None)]
            blob = pickle.dumps(out)
        wf.write(blob)
        wf.flush()
    os._exit(0)


def explore(fn, jobs=8, deadline=None, sample_every=20, max_violations=1,
            query_timeout_ms=60000, max_witnesses=400):
    """Explore every path of harness ``fn``.  ``deadline`` is in perf() time."""
    res = Result()
    t0 = perf()
    workers = []
    sys.stdout.flush()
    sys.stderr.flush()
    for _ in range(jobs):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                for w in workers:
                    os.close(w['out'].fileno())
                    os.close(w['in'].fileno())
                _worker(fn, r1, w2, sample_every, query_timeout_ms)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(3)
        os.close(r1)
        os.close(w2)
        workers.append({'pid': pid, 'out': os.fdopen(w1, 'wb'),
                        'in': os.fdopen(r2, 'rb'), 'busy': False})
    queue = [()]
    stop = False
    try:
        while True:
            idle = [w for w in workers if not w['busy']]
            if (not stop and deadline is not None and perf() > deadline):
                res.incomplete.append('time budget exhausted with %d prefixes '
                                      'pending' % len(queue))
                stop = True
            if not stop:
                for w in idle:
                    if not queue:
                        break
                    # hand out a share, keep chunks short while work is scarce
                    share = max(1, min(16, len(queue) // (2 * jobs)))
                    batch, queue = queue[:share], queue[share:]
                    scarce = len(queue) < jobs
                    job = (batch, 4 if scarce else 400, 0.3 if scarce else 2.0)
                    pickle.dump(job, w['out'])
                    w['out'].flush()
                    w['busy'] = True
            busy = [w for w in workers if w['busy']]
            if not busy or (stop and res.violations):
                break
            ready, _, _ = select.select([w['in'] for w in busy], [], [], 5.0)
            for w in busy:
                if w['in'] in ready:
                    try:
                        out = pickle.load(w['in'])
                    except EOFError:
                        w['busy'] = False
                        workers.remove(w)
                        res.incomplete.append('worker died')
                        stop = True
                        continue
                    w['busy'] = False
                    res.stats.merge(out['stats'])
                    res.violations.extend(out['violations'])
                    res.incomplete.extend(out['incomplete'])
                    if len(res.witnesses) < max_witnesses:
                        res.witnesses.extend(out['witnesses'])
                    res.funcs.update(out['funcs'])
                    # deepest-last order keeps the queue small
                    queue.extend(out['left'])
                    # keep looking for violations past a few undecided paths
                    if (len(res.violations) >= max_violations
                            or len(res.incomplete) > 100):
                        stop = True
            if stop and deadline is not None and perf() > deadline + 60:
                break
        res.complete = not queue and not res.incomplete
    finally:
        for w in workers:
            try:
                os.kill(w['pid'], 9)
            except OSError:
                pass
        for w in workers:
            try:
                os.waitpid(w['pid'], 0)
            except OSError:
                pass
    res.wall_s = perf() - t0
    return res
