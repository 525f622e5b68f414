"""Symbolic harness context and path exploration."""
import re
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction

import numpy as _np

from . import poly as P
from . import sym as S
from . import symnp as N
from .conc import NUMBER, capture, stub
from .loader import Loader, REPO
from .sym import ENG, Sym, SymBool, And, Or, Not, EngineSignal, PathInfeasible, Budget, Unsupported, lift

warnings.simplefilter('ignore')


class AssumeFailed(EngineSignal):
    pass


class SymCtx(object):
    symbolic = True
    Unset = object()

    def __init__(self, opts):
        self.loader = Loader()
        self.np = N.symnp
        self.la = N.linalg
        self.math = N.symmath
        self.int_type = N.PInt
        self.opts = opts
        self.cands = []
        self.unresolved = []
        self.nchecks = 0
        self.proved = 0
        self.patches = []

    # --- modules
    def mod(self, name):
        return self.loader.load(name)

    def private(self, name, attr):
        """a function that is not part of the interface; without it there is nothing to decide"""
        m = self.mod(name)
        try:
            return getattr(m, attr)
        except AttributeError:
            raise ENG.unsupported('%s.%s does not exist' % (name, attr))

    def patch(self, obj, name, value):
        self.patches.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def undecidable(self, msg):
        raise ENG.unsupported(msg)

    def capture(self, f):
        """(result of f(), what it prints)"""
        return capture(self.loader.builtins, f)

    def capture(self, f):
        """(result of f(), what it prints)"""
        return capture(self.loader.builtins, f)

    def stub(self, attr, f, *mods):
        """stand-in for a function where it is used (mods[0]) and where it is defined"""
        stub(self, attr, f, mods)

    def restore(self):
        for obj, name, v in reversed(self.patches):
            setattr(obj, name, v)
        self.patches = []

    # --- inputs
    def real(self, name, lo=None, hi=None):
        v = P.REG.new(name, 'in', lo=None if lo is None else Fraction(str(lo)),
                      hi=None if hi is None else Fraction(str(hi)))
        return Sym({((v.id, 1),): 1}, (), False)

    def int(self, name, lo, hi):
        v = P.REG.new(name, 'in', isint=True, lo=lo, hi=hi)
        return Sym({((v.id, 1),): 1}, (), True)

    def pick(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self.int(name, 0, len(options) - 1))]

    def choice(self, name, n):
        """concrete int in 0..n-1, every value explored"""
        return int(self.int(name, 0, n - 1)) if n > 1 else 0

    def mat(self, name, n, m, lo, hi):
        return self.np.array([[self.real('%s%d%d' % (name, i, j), lo, hi) for j in range(m)] for i in range(n)])

    def vec(self, name, n, lo, hi):
        return self.np.array([self.real('%s%d' % (name, i), lo, hi) for i in range(n)])

    def imat(self, name, n, m, lo, hi):
        return self.np.array([[self.int('%s%d%d' % (name, i, j), lo, hi) for j in range(m)] for i in range(n)])

    def ivec(self, name, n, lo, hi):
        return self.np.array([self.int('%s%d' % (name, i), lo, hi) for i in range(n)])

    # --- logic
    And = staticmethod(And)
    Or = staticmethod(Or)
    Not = staticmethod(Not)

    def implies(self, a, b):
        return Or(Not(a), b)

    def assume(self, cond):
        if isinstance(cond, N.SArr):
            cond = N.all_(cond)
        if isinstance(cond, SymBool):
            ENG.assert_(cond)
        elif not cond:
            ENG.aborted = AssumeFailed()
            raise ENG.aborted

    def _bool(self, cond):
        if isinstance(cond, N.SArr):
            cond = N.all_(cond)
        if isinstance(cond, Sym):
            cond = cond != 0
        return cond

    def check(self, cond, msg):
        ENG.tick()
        cond = self._bool(cond)
        self.nchecks += 1
        if not isinstance(cond, SymBool):
            if bool(cond):
                ENG.stats['normalised'] += 1
                self.proved += 1
            else:
                self.violate(msg)
            return bool(cond)
        if ENG.quick(cond) is True:
            ENG.stats['normalised'] += 1
            self.proved += 1
            return True
        neg = Not(cond)
        r = ENG.feasible(neg)
        if r == 'unsat':
            self.proved += 1
            return True
        if r == 'sat':
            self.violate(msg, ENG.lastmodel, neg)
            return False
        env = ENG.probe([neg], tries=300, slack=1e-4, tmax=2.0)
        if env is not None:
            self.cands.append((msg, ENG.inputs_of(env)))
            return False
        self.unresolved.append(msg)
        return None

    def violate(self, msg, model=None, neg=None):
        if len(self.cands) > 40:
            return
        envs = []
        if neg is not None:
            for slack in (1e-2, 1e-4):
                e = ENG.probe([neg], tries=150, slack=slack, tmax=0.7)
                if e is not None:
                    envs.append(e)
                    break
        else:
            e = ENG.probe([], tries=100, tmax=0.5)
            if e is not None:
                envs.append(e)
        if model is None and neg is None:
            try:
                model = ENG.path_model()
            except PathInfeasible:
                ENG.aborted = None
                return
        if model:
            envs.append(ENG.model_env(model))
            if neg is not None:
                marg = self._margin(neg)
                if marg is not None:
                    if ENG.feasible(marg, slow=False) == 'sat':
                        envs.append(ENG.model_env(ENG.lastmodel))
        if not envs:
            self.unresolved.append(msg)
        for e in envs:
            self.cands.append((msg, ENG.inputs_of(e)))

    def _margin(self, b):
        """a strictly stronger version of b with a visible margin"""
        if b.op == 'or':
            return Or(*[self._margin(a) if isinstance(a, SymBool) else a for a in b.args])
        if b.op == 'and':
            return And(*[self._margin(a) if isinstance(a, SymBool) else a for a in b.args])
        p = b.args[0]
        m = {P.ONE: Fraction(-1, 100)}
        if b.op in ('>', '>='):
            return S.atom(P.padd(p, m), '>=')
        if b.op == '!=':
            return Or(S.atom(P.padd(p, m), '>='), S.atom(P.padd(P.pscale(p, -1), m), '>='))
        return b

    def fail(self, msg):
        self.nchecks += 1
        self.violate(msg)

    def reached(self):
        self.nchecks += 1
        self.proved += 1

    def close(self, A, B, tol=1e-6):
        """formula: A and B agree elementwise (shape included)"""
        try:
            a, b = N.to_obj(A), N.to_obj(B)
        except Exception:
            return False
        if a.shape != b.shape:
            return False
        t = Fraction(str(tol))
        conds = []
        for x, y in zip(a.flat, b.flat):
            if x is None or y is None or isinstance(x, str) or isinstance(y, str):
                return False
            if isinstance(x, Sym) or isinstance(y, Sym):
                if lift(x) is None or lift(y) is None:
                    return False
                d = lift(x)._add(lift(y), -1)
                if isinstance(d, Sym):
                    if not d.n:
                        continue
                    conds.append(And(S.compare(d, lift(t), '<='), S.compare(d, lift(-t), '>=')))
                elif abs(d) > tol:
                    return False
            else:
                x, y = float(x), float(y)
                if not abs(x - y) <= tol * (1 + abs(y)):
                    return False
        return And(*conds)

    def eq(self, A, B, msg, tol=1e-6):
        return self.check(self.close(A, B, tol), msg)

    def same(self, A, B, msg):
        """exact equality (integers, small lists)"""
        a, b = N.to_obj(A), N.to_obj(B)
        if a.shape != b.shape:
            return self.check(False, msg)
        conds = []
        for x, y in zip(a.flat, b.flat):
            r = x == y
            conds.append(r if isinstance(r, SymBool) else bool(r))
        return self.check(And(*conds), msg)

    def is_int(self, x, tol=1e-6):
        """formula: x is an integer (up to the tolerance)"""
        if isinstance(x, Sym):
            if S.provably_int(x):
                return True
            k = ENG.int_mode
            ENG.int_mode = 'fresh'
            try:
                r = S.sym_rint(x)
            finally:
                ENG.int_mode = k
            return self.close(x, r, tol)
        return abs(float(x) - round(float(x))) <= tol

    def all_int(self, A, tol=1e-6):
        return And(*[self.is_int(x, tol) for x in N.to_obj(A).flat])

    def value(self, x):
        """concrete value of an integer (every value explored)"""
        if isinstance(x, Sym):
            return int(ENG.concretize(x))
        return x

    def is_concrete(self, x):
        return not N.has_sym(N.to_obj(x))

    def raises(self, fn, *exc):
        exc = exc or (Exception,)
        try:
            fn()
        except exc:
            if ENG.aborted is not None:
                raise ENG.aborted
            return True
        return False

    def register_spectrum(self, C, lams, V, perm=None):
        N.register_spectrum(C, lams, V, perm)

    def int_mode(self, mode):
        ENG.int_mode = mode

    def shape(self, A):
        return N.to_obj(A).shape

    def fields(self, text):
        """(text with # for every number and single spaces, numbers with the rounding of the print)"""
        vals = []

        def one(m):
            vals.append(S.TOKENS[int(m.group(1))] if m.group(1) else (float(m.group(0)), 0))
            return '#'
        t = re.sub(NUMBER + '|\u27e6(\\d+)\u27e7', one, str(text))
        return ' '.join(t.split()), vals

    def printed(self, x, y, tol):
        """formula: the printed number x (of fields) is y up to tol"""
        if x[1] > Fraction(str(tol)):
            # sound only as an upper bound; a replay on the real code decides
            return False
        return self.close(x[0], y, tol if not isinstance(x[0], Sym) else 1e-9)

    def note(self, msg):
        ENG.note(msg)

    def finite(self, A):
        for x in N.to_obj(A).flat:
            if isinstance(x, Sym):
                continue
            if x is None or not _np.isfinite(float(x)):
                return False
        return True


# ------------------------------------------------------------------ tracing
class FuncTrace(object):
    """records which repository functions were executed symbolically"""
    def __init__(self):
        self.funcs = set()
        self.tool = 3
        self.on = False

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        try:
            mon.use_tool_id(self.tool, 'verif')
        except ValueError:
            pass
        mon.register_callback(self.tool, mon.events.PY_START, self.cb)
        mon.set_events(self.tool, mon.events.PY_START)
        self.on = True

    def cb(self, code, off):
        fn = code.co_filename
        if fn.startswith(REPO):
            self.funcs.add('%s:%s' % (fn[len(REPO) + 1:], code.co_qualname))
        return sys.monitoring.DISABLE


TRACE = FuncTrace()


def _alarm(sig, frame):
    if ENG.aborted is None:
        ENG.aborted = Budget('wall')
    raise ENG.aborted


def run_case(fn, kwargs, opts, seed=1):
    """explore every path of one harness case; returns a result dict"""
    t0 = time.time()
    if not TRACE.on:
        TRACE.start()
    ENG.reset_case(seed)
    ENG.t_fast = opts.get('t_fast', 1500)
    ENG.t_slow = opts.get('t_slow', 10000)
    ENG.max_values = opts.get('max_values', 64)
    maxpaths = opts.get('paths', 2000)
    tlimit = opts.get('time', 60)
    ENG.deadline = t0 + tlimit
    nwit = opts.get('witnesses', 3)
    res = {'paths': 0, 'infeasible': 0, 'checks': 0, 'proved': 0, 'unresolved': [], 'cands': [],
           'witness': [], 'degraded': [], 'aborted': [], 'complete': True, 'notes': []}
    signal.signal(signal.SIGALRM, _alarm)
    work = [[]]
    while work:
        if res['paths'] + res['infeasible'] >= maxpaths or time.time() > ENG.deadline:
            res['complete'] = False
            res['aborted'].append('budget: %d paths explored, %d open' % (res['paths'], len(work)))
            break
        prefix = work.pop()
        ENG.start_path(prefix)
        ENG.int_mode = opts.get('int_mode', 'fresh')
        c = SymCtx(opts)
        status = 'ok'
        signal.setitimer(signal.ITIMER_REAL, max(1.0, ENG.deadline - time.time() + 2))
        try:
            try:
                fn(c, **kwargs)
                if ENG.aborted is not None:
                    raise ENG.aborted
            except EngineSignal:
                raise
            except Exception as e:
                if ENG.aborted is not None:
                    raise ENG.aborted
                tb = traceback.extract_tb(e.__traceback__)
                where = '%s:%s' % (tb[-1].filename.split('/')[-1], tb[-1].lineno)
                if opts.get('debug'):
                    traceback.print_exc()
                status = 'raise'
                c.nchecks += 1
                c.violate('raised %s: %s (%s)' % (type(e).__name__, str(e)[:120], where))
        except (PathInfeasible, AssumeFailed):
            status = 'infeasible'
        except (Budget, Unsupported) as e:
            status = 'abort'
            ENG.aborted = None
            res['complete'] = False
            if opts.get('debug'):
                traceback.print_exc()
            msg = '%s: %s' % (type(e).__name__, e)
            if msg not in res['aborted']:
                res['aborted'].append(msg)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            c.restore()
        ENG.aborted = None
        work.extend(ENG.pending)
        if status == 'infeasible':
            res['infeasible'] += 1
            continue
        res['paths'] += 1
        res['checks'] += c.nchecks
        res['proved'] += c.proved
        for u in c.unresolved:
            if u not in res['unresolved']:
                res['unresolved'].append(u)
        if len(res['cands']) < 60:
            res['cands'].extend(c.cands)
        for d in ENG.degraded:
            if d not in res['degraded']:
                res['degraded'].append(d)
        for d in ENG.notes:
            if d not in res['notes']:
                res['notes'].append(d)
        if len(res['witness']) < nwit or status == 'abort' and len(res['witness']) < nwit + 10:
            try:
                signal.setitimer(signal.ITIMER_REAL, 10)
                env = ENG.probe([], tries=60, tmax=0.3)
                if env is None:
                    old = ENG.deadline
                    ENG.deadline = None
                    m = ENG.path_model()
                    ENG.deadline = old
                    if m is not None:
                        env = ENG.model_env(m)
                if env is not None:
                    res['witness'].append(ENG.inputs_of(env))
            except EngineSignal:
                ENG.aborted = None
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                ENG.deadline = t0 + tlimit
    res['stats'] = dict(ENG.stats)
    res['wall'] = time.time() - t0
    res['funcs'] = sorted(TRACE.funcs)
    return res
