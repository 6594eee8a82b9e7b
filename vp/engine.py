'''The verifier: symbolic execution of the real functions of /repo by CPython itself.

The modules of bibleref are read from /repo's working tree on every run, rewritten mechanically (vp.transform: loops get
cut points, `is` and a few builtins become engine calls) and executed on symbolic values. Every path of a function is
run (decisions are replayed from a prefix, so each path is a complete run of the real code); each clause of its contract
is a proof obligation that z3 must discharge under the path's condition.

Integers are mathematical integers, as Python's are.
'''
import time

import z3

from . import spec
from .spec import SymValue, Theory


class Stop(BaseException):
    '''Base of the exceptions that control the exploration; never caught by the code under verification.'''


class PathEnd(Stop):
    pass


class Infeasible(Stop):
    pass


class Unsupported(Stop):
    '''The code does something the engine cannot represent.'''


class Restart(Stop):
    '''The exploration of this function must start again (a loop needs a cut, or an invariant candidate fell).'''


class Budget(Stop):
    pass


E = None    # the engine in charge


def _set(e):
    global E
    E = e


# ---------------------------------------------------------------------------------------------------------------
# Symbolic scalars
# ---------------------------------------------------------------------------------------------------------------

_ints = {}
_memo = {}      # (operation, ids of operands) -> (result, operands); the operands are kept, so that their ids stay theirs


def zi(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, int):
        x = int(x)
        e = _ints.get(x)
        if e is None:
            e = _ints[x] = z3.IntVal(x)
        return e
    raise Unsupported(f'not an integer: {x!r}')


def ident(x):
    '''A key for a scalar operand.'''
    return x.i if isinstance(x, SymValue) else (int(x),)


def zb(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, bool):
        return _TRUE if x else _FALSE
    raise Unsupported(f'not a boolean: {x!r}')


_TRUE, _FALSE = z3.BoolVal(True), z3.BoolVal(False)


def mkint(e):
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def _isint(x):
    return isinstance(x, (int, SymInt))


_ARITH = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b}
_CMP = {'<': (lambda a, b: a < b, False), '<=': (lambda a, b: a <= b, True), '>': (lambda a, b: a > b, False),
        '>=': (lambda a, b: a >= b, True), '==': (lambda a, b: a == b, True), '!=': (lambda a, b: a != b, False)}


def arith(op, x, y):
    k = (op, ident(x), ident(y))
    r = _memo.get(k)
    if r is None:
        r = _memo[k] = (mkint(z3.simplify(_ARITH[op](zi(x), zi(y)))), x, y)
    return r[0]


def compare(op, x, y):
    k = (op, ident(x), ident(y))
    r = _memo.get(k)
    if r is None:
        fn, same = _CMP[op]
        xe, ye = zi(x), zi(y)
        r = _memo[k] = (same if xe.eq(ye) else mkbool(z3.simplify(fn(xe, ye))), x, y)
    return r[0]


class SymInt(SymValue):
    __slots__ = ('e', 'i')

    def __init__(self, e):
        self.e = e
        self.i = e.get_id()

    def __add__(self, o):
        if not _isint(o):
            return NotImplemented
        if isinstance(o, int) and o == 0:
            return self
        return arith('+', self, o)

    def __radd__(self, o):
        if not _isint(o):
            return NotImplemented
        return self + o

    def __sub__(self, o):
        if not _isint(o):
            return NotImplemented
        return arith('-', self, o)

    def __rsub__(self, o):
        if not _isint(o):
            return NotImplemented
        return arith('-', o, self)

    def __mul__(self, o):
        if not _isint(o):
            return NotImplemented
        return arith('*', self, o)
    __rmul__ = __mul__

    def __neg__(self):
        return arith('-', 0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.e / o)    # z3 integer division floors for positive divisors
        raise Unsupported('division')

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.e % o)
        raise Unsupported('modulo')

    def __lt__(self, o):
        return compare('<', self, o) if _isint(o) else NotImplemented

    def __le__(self, o):
        return compare('<=', self, o) if _isint(o) else NotImplemented

    def __gt__(self, o):
        return compare('>', self, o) if _isint(o) else NotImplemented

    def __ge__(self, o):
        return compare('>=', self, o) if _isint(o) else NotImplemented

    def __eq__(self, o):
        return compare('==', self, o) if _isint(o) else False

    def __ne__(self, o):
        return compare('!=', self, o) if _isint(o) else True

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        raise Unsupported('hash of a symbolic integer')

    def __index__(self):
        raise Unsupported('symbolic integer used as a machine integer')
    __int__ = __index__
    __float__ = __index__

    def __format__(self, s):
        return '<sym>'

    def __str__(self):
        return '<sym>'
    __repr__ = lambda self: f'SymInt({self.e})'


class SymBool(SymValue):
    __slots__ = ('e', 'i')

    def __init__(self, e):
        self.e = e
        self.i = e.get_id()

    def __bool__(self):
        return E.branch(self.e)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.simplify(self.e == zb(o)))
        if _isint(o):
            return spec.Ite(self, 1, 0) == o
        return False

    def __ne__(self, o):
        return spec.Not(self == o)

    def __and__(self, o):
        return spec.And(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return spec.Or(self, o)
    __ror__ = __or__

    def __invert__(self):
        raise Unsupported('~ of a boolean')

    def __add__(self, o):
        return spec.Ite(self, 1, 0) + o
    __radd__ = __add__

    def __hash__(self):
        raise Unsupported('hash of a symbolic boolean')

    def __index__(self):
        return 1 if bool(self) else 0

    def __str__(self):
        return '<sym>'


def _memoised(op, xs, fn):
    k = (op,) + tuple([ident(x) for x in xs])
    r = _memo.get(k)
    if r is None:
        r = _memo[k] = (fn(), xs)
    return r[0]


class _Ops:
    @staticmethod
    def And(xs):
        return xs[0] if len(xs) == 1 else _memoised('and', xs, lambda: mkbool(z3.And([zb(x) for x in xs])))

    @staticmethod
    def Or(xs):
        return xs[0] if len(xs) == 1 else _memoised('or', xs, lambda: mkbool(z3.Or([zb(x) for x in xs])))

    @staticmethod
    def Not(x):
        def fn():
            e = zb(x)
            return mkbool(e.arg(0)) if z3.is_not(e) else mkbool(z3.Not(e))
        return _memoised('not', (x,), fn)

    @staticmethod
    def Iff(a, b):
        if isinstance(a, bool):
            return b if a else spec.Not(b)
        if isinstance(b, bool):
            return a if b else spec.Not(a)
        return _memoised('iff', (a, b), lambda: mkbool(z3.simplify(zb(a) == zb(b))))

    @staticmethod
    def Ite(c, a, b):
        if isinstance(a, (bool, SymBool)):
            return mkbool(z3.If(zb(c), zb(a), zb(b)))
        if a is b:
            return a
        return _memoised('ite', (c, a, b), lambda: mkint(z3.If(zb(c), zi(a), zi(b))))


spec._set_sym(_Ops)


# ---------------------------------------------------------------------------------------------------------------
# The engine: decisions, path condition, obligations
# ---------------------------------------------------------------------------------------------------------------

class Result:
    __slots__ = ('label', 'status', 'info', 'path', 'secs')

    def __init__(self, label, status, info, path, secs):
        self.label, self.status, self.info, self.path, self.secs = label, status, info, path, secs


class Engine:
    def __init__(self, timeout_ms=20000, max_paths=20000, deadline=None):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.max_paths = max_paths
        self.deadline = deadline
        self.solver_time = 0.0
        self.queries = 0
        self.loops = {}         # loop key -> LoopInfo (cut loops)
        self.on_start = []      # called at the start of each path
        self.results = []
        self.changed = False    # an invariant candidate fell in this round
        self.paths = 0
        self.stack_keys = []
        self.replay_to = 0

    # -- paths --

    def start_path(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.solver.reset()
        self.names = {}
        self.chaps = {}
        self.notes = []
        self.hashes = []
        self.loopstack = []
        self.wlog = []          # links written: (node or list, attribute)
        self.touched = []       # lists changed
        self.covers = []        # quantities: whether a range includes some position
        self.covfacts = []      # what is known of any such quantity
        self.arranged = []      # lists of which such facts are known
        self.avoid = {}
        self.driving = False
        self.steps = 0
        self.ghost = None
        self.concrete_depth = 0
        self.pc = []
        self.depth = 0
        for fn in self.on_start:
            fn()

    def explore(self, run, start=None):
        '''Run every path of run() that begins with the decisions `start`.'''
        self.pending = [start or []]
        while self.pending:
            if self.deadline and time.time() > self.deadline:
                raise Budget('time')
            prefix = self.pending.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Budget('paths')
            self.start_path(prefix)
            try:
                run()
            except (PathEnd, Infeasible):
                pass
            except Unsupported:
                # a path replayed after an invariant candidate fell in this round proves nothing; the round is repeated
                if not self.changed:
                    raise

    def add(self, e):
        self.pc.append(e)
        self.solver.add(e)

    def check(self, *extra):
        t = time.time()
        self.queries += 1
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        return r

    def branch(self, e):
        '''Decide a symbolic condition; explores both sides when both are possible.'''
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
            self.trace.append(v)
            if v in (2, 3):     # forced
                if self.changed:    # (by an invariant candidate that may have fallen; the round will be repeated)
                    self.add(e if v == 2 else z3.Not(e))
                return v == 2
            self.add(e if v else z3.Not(e))
            return bool(v)
        t = self.check(e)
        if t == z3.unsat:
            self.trace.append(3)
            return False
        f = self.check(z3.Not(e))
        if f == z3.unsat:
            if t == z3.unknown:
                self.notes.append('unknown feasibility')
            self.trace.append(2)
            return True
        self.pending.append(self.trace + [0])
        self.trace.append(1)
        self.add(e)
        return True

    def choose(self, n):
        '''A free choice among n alternatives, all explored.'''
        if n == 1:
            return 0
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
            self.trace.append(v)
            return v - 10
        for i in range(n - 1, 0, -1):
            self.pending.append(self.trace + [10 + i])
        self.trace.append(10)
        return 0

    @property
    def replaying(self):
        return len(self.trace) < len(self.prefix)

    def assume(self, x):
        if isinstance(x, bool):
            if not x:
                raise Infeasible
            return
        self.add(zb(x))

    def feasible(self):
        '''Prune the path if its condition is contradictory.'''
        if not self.replaying and self.check() == z3.unsat:
            raise Infeasible

    def falsified(self, exprs):
        '''The indices of the expressions that are not implied by the path condition (all at once, guided by models).'''
        live = {i: zb(x) for i, x in enumerate(exprs) if not isinstance(x, bool)}
        bad = {i for i, x in enumerate(exprs) if x is False}
        while live:
            r = self.check(z3.Not(z3.And(list(live.values()))))
            if r == z3.unsat:
                break
            drop = set()
            if r == z3.sat:
                m = self.solver.model()
                drop = {i for i, x in live.items() if z3.is_false(m.eval(x, model_completion=True))}
            if not drop:
                drop = {i for i, x in live.items() if self.check(z3.Not(x)) != z3.unsat}
                bad |= drop
                break
            bad |= drop
            for i in drop:
                del live[i]
        return bad

    def known(self, x):
        '''Whether x is implied by the path condition.'''
        if isinstance(x, bool):
            return x
        return self.check(z3.Not(zb(x))) == z3.unsat

    def known_rec(self, x):
        '''known(), as a decision that is replayed.'''
        if isinstance(x, bool):
            return x
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
            self.trace.append(v)
            if v == 5 and self.changed:
                self.add(zb(x))
            return v == 5
        r = self.known(x)
        self.trace.append(5 if r else 6)
        return r

    def fresh(self, hint):
        k = self.names.get(hint, 0)
        self.names[hint] = k + 1
        return f'{hint}!{k}'

    def int(self, hint):
        return SymInt(z3.Int(self.fresh(hint)))

    def bool(self, hint):
        return SymBool(z3.Bool(self.fresh(hint)))

    # -- obligations --

    def prove(self, label, x):
        t0 = time.time()
        if isinstance(x, bool):
            if x:
                status, info = 'proved', None
            else:
                # the clause is false outright: a violation if this path is possible
                r = self.check()
                status = 'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown'
                info = self.model() if r == z3.sat else None
        else:
            e = zb(x)
            r = self.check(z3.Not(e))
            status = 'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown'
            info = None
            if r == z3.sat:
                info = self.model()
            elif r == z3.unknown:
                status, info = self.other_solvers(e)
        self.results.append(Result(label, status, info, list(self.trace), time.time() - t0))
        return status == 'proved'

    def model(self):
        try:
            m = self.solver.model()
            return {str(d): str(m[d])[:200] for d in m.decls()}
        except z3.Z3Exception:
            return None

    def other_solvers(self, e):
        '''A second opinion from cvc5 on a query z3 gave up on.'''
        import subprocess
        import tempfile
        s = z3.Solver()
        for p in self.pc:
            s.add(p)
        s.add(z3.Not(e))
        text = s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2') as fh:
            fh.write('(set-logic ALL)\n' + text)
            fh.flush()
            try:
                out = subprocess.run(['cvc5', '--tlimit=20000', fh.name], capture_output=True, text=True, timeout=30).stdout
            except Exception:
                return 'unknown', None
        if out.startswith('unsat'):
            return 'proved', None
        return 'unknown', None


# ---------------------------------------------------------------------------------------------------------------
# The theory of an arbitrary well-formed Bible
# ---------------------------------------------------------------------------------------------------------------

I, Bo = z3.IntSort(), z3.BoolSort()
_nch = z3.Function('nch', I, I)
_mx = z3.Function('mx', I, I, I)
_z = z3.Function('z', I, I, Bo)
_base = {False: z3.Function('base', I, I, I), True: z3.Function('base0', I, I, I)}
_rank = z3.Function('rank', I, I, I)
_N = z3.Int('N')


_instances = {}      # axiom instances built so far


class SymWorld(Theory):
    '''Uninterpreted Bible data with the axioms of a well-formed Bible, instantiated for the chapter terms that occur.

    Axioms (for all books o in 0..N-1 and chapters c in 1..nch(o)):
      N >= 1, nch(o) >= 1, mx(o,c) >= 1
      base(0,1) = 0; base(o,c+1) = base(o,c) + cnt(o,c); base(o+1,1) = base(o,nch(o)) + cnt(o,nch(o))
    and their consequence, used as a lemma (proved by induction in vp.lemmas):
      (o,c) < (o',c')  implies  base(o,c) + cnt(o,c) <= base(o',c')
    and the same for rank (the number of chapters before), with 1 in place of cnt.
    '''

    def __init__(self):
        self.N = SymInt(_N)

    def reset(self):
        E.add(_N >= 1)
        self._books = {}
        self._terms = {}
        self._seqs = {False: [], True: [], 'rank': []}
        self._seen = {False: set(), True: set(), 'rank': set()}

    def _book(self, o):
        k = o.get_id()
        if k not in self._books:
            self._books[k] = o
            if ('b', k) not in _instances:
                _instances['b', k] = (z3.Implies(z3.And(o >= 0, o < _N), _nch(o) >= 1), o)
            E.add(_instances['b', k][0])

    def _chap(self, o, c):
        k = (o.get_id(), c.get_id())
        if k not in self._terms:
            self._terms[k] = (o, c)
            self._book(o)
            if ('c', k) not in _instances:
                _instances['c', k] = (z3.Implies(self._vc(o, c), _mx(o, c) >= 1), o, c)
            E.add(_instances['c', k][0])

    def _vc(self, o, c):
        return z3.And(o >= 0, o < _N, c >= 1, c <= _nch(o))

    def _term(self, name, fn, *args):
        '''The term fn(args), with the arguments simplified: (term, arguments).'''
        k = (name,) + tuple([ident(x) for x in args])
        r = _memo.get(k)
        if r is None:
            es = [z3.simplify(zi(x)) for x in args]
            e = fn(*es)
            r = _memo[k] = (SymBool(e) if z3.is_bool(e) else SymInt(e), es, args)
        return r

    def nch(self, o):
        r = self._term('nch', _nch, o)
        self._book(*r[1])
        return r[0]

    def mx(self, o, c):
        r = self._term('mx', _mx, o, c)
        self._chap(*r[1])
        return r[0]

    def hasz(self, o, c):
        return self._term('z', _z, o, c)[0]

    def _cnt(self, f, o, c):
        if f == 'rank':
            return z3.IntVal(1)
        return _mx(o, c) + (z3.If(_z(o, c), z3.IntVal(1), z3.IntVal(0)) if f else 0)

    def _seq(self, f, fn, o, c):
        '''Register the term fn(o,c) and instantiate the axioms relating it to the others.'''
        k = (o.get_id(), c.get_id())
        if k in self._seen[f]:
            return
        self._seen[f].add(k)
        self._chap(o, c)
        key = (f, k)
        if key not in _instances:
            x = fn(o, c)
            # (the terms are kept, so that their ids stay theirs)
            _instances[key] = (z3.And(z3.Implies(self._vc(o, c), x >= 0), z3.Implies(z3.And(o == 0, c == 1), x == 0)),
                               o, c)
        E.add(_instances[key][0])
        others = self._seqs[f]
        for k2, o2, c2 in others:
            key = (f, k, k2)
            ax = _instances.get(key)
            if ax is None:
                x, y = fn(o, c), fn(o2, c2)
                v1, v2 = self._vc(o, c), self._vc(o2, c2)
                lt12 = z3.Or(o < o2, z3.And(o == o2, c < c2))
                lt21 = z3.Or(o2 < o, z3.And(o == o2, c2 < c))
                n1, n2 = self._cnt(f, o, c), self._cnt(f, o2, c2)
                ax = _instances[key] = z3.And(
                    z3.Implies(z3.And(v1, v2), z3.And(z3.Implies(lt12, x + n1 <= y), z3.Implies(lt21, y + n2 <= x))),
                    z3.Implies(z3.And(v1, self._succ(o, c, o2, c2)), y == x + n1),
                    z3.Implies(z3.And(v2, self._succ(o2, c2, o, c)), x == y + n2))
            E.add(ax)
        others.append((k, o, c))

    def _succ(self, o, c, o2, c2):
        return z3.Or(z3.And(o2 == o, c2 == c + 1), z3.And(o2 == o + 1, c == _nch(o), c2 == 1))

    def base(self, f, o, c):
        f = bool(f)
        r = self._term('base0' if f else 'base', _base[f], o, c)
        self._seq(f, _base[f], *r[1])
        return r[0]

    def neighbours(self, f, t):
        o, c, _ = t
        for oo, cc in ((o, c + 1), (o + 1, 1), (o, c - 1), (o - 1, self.nch(o - 1))):
            self.base(f, oo, cc)
            self.crank(oo, cc)

    def crank(self, o, c):
        r = self._term('rank', _rank, o, c)
        self._seq('rank', _rank, *r[1])
        return r[0]

    def minv(self, f, o, c):
        return spec.Ite(self.hasz(o, c), 0, 1) if f else 1

    # lists and positions (see vp.contracts)

    assuming = False

    def items(self, x):
        if '_chain' in getattr(x, '__dict__', ()):
            from . import heap as H
            if any(isinstance(c, H.Gap) for c in x._chain.cells):
                raise Unsupported('the items of a list of unknown length')
            return [x._chain.val(c) for c in x._chain.cells]
        return list(iter(x))

    def is_list(self, x):
        return type(x).__name__ == 'BibleRangeList'

    def forall_pos(self, f, fn, bounds=()):
        '''At the arbitrary position p* of this verification (proving it there proves it for all).'''
        if self.assuming:
            ps = [b + d for b in bounds for d in (-1, 0, 1)]
            from .spec import And
            return And(fn(self.pstar(f)), *[fn(p) for p in ps])
        return fn(self.pstar(f))

    def pstar(self, f):
        p = SymInt(z3.Int(f'p*{int(bool(f))}'))
        return p

    def tiling(self, x, f, lo, hi, preds, n):
        t = x.__dict__.get('_tile')
        if t is None:
            rs = list(x)
            yield 'has pieces', len(rs) > 0
            if n is not None:
                yield 'has the expected number of pieces', n == len(rs)
            pos = lo
            for i, r in enumerate(rs):
                yield 'the pieces are ranges', type(r).__name__ == 'BibleRange'
                yield 'the pieces are valid', self.valid_range(f, r)
                s, e = self.span(f, r)
                yield 'the pieces are consecutive', s == pos
                pos = e + 1
                for label, fn in preds.items():
                    yield f'every piece {label}', fn(r)
            yield 'the pieces end where the range ends', pos == hi
            return
        yield 'the pieces are valid and consecutive', t.ok
        if t.ok:
            if n is not None:
                yield 'has the expected number of pieces', t.n == n
            for label in preds:
                yield f'every piece {label}', label in t.preds
            yield 'the pieces end where the range ends', t.hi == hi

    def tiling_result(self, a, f, preds, n):
        '''The result of a callee that tiles a range (its contract): known relative to the tiling of the caller.'''
        from . import invariants as INV
        g = E.ghost
        if g is None or g.start is None or g.f != f:
            raise Unsupported('a tiling without a caller that tiles')
        if not E.known_rec(spec.eqt(self.t(g.start), self.t(a.self.start))):
            raise Unsupported('a tiling that starts elsewhere')
        s, e = self.span(f, a.self)
        g.preds.update(preds(self, a, f))
        k = SymInt(z3.Int(E.fresh('pieces'))) if n is None else n
        t = INV.Tile(k, e + 1, list(preds(self, a, f)))
        E.assume(t.facts())
        return INV.mklist(t)
