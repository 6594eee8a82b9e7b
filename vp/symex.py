'''Symbolic stand-ins for the state the functions work on, the loader of the rewritten modules, and loops.

See vp.engine (paths, obligations, theory) and vp.transform (what is rewritten).
'''
import builtins
import itertools
import os
import sys
import types

import z3

from . import engine as G, spec, transform
from .engine import (SymInt, SymBool, Unsupported, PathEnd, Restart, zi, zb, mkint, mkbool, SymWorld)
from .spec import And, Or, Not, Implies, Iff, Ite, lexlt, eqt, SymValue

SRC = os.path.join(os.environ.get('VP_REPO', '/repo'), 'src/bibleref')
W = SymWorld()
MAXROUNDS = 60
LISTLIKE = []       # stand-ins for lists


def E():
    return G.E


# ---------------------------------------------------------------------------------------------------------------
# Loading
# ---------------------------------------------------------------------------------------------------------------

class _Package(types.ModuleType):
    '''The package module; reading the global flags is an event the engine controls.'''

    @property
    def flags(self):
        return GLOBAL.read()

    @flags.setter
    def flags(self, v):
        GLOBAL.written(v)


class Cell:
    '''A flag bit whose value is chosen (both ways) when it is first looked at.'''
    __slots__ = ('v',)

    def __init__(self, v=None):
        self.v = v

    def get(self):
        if self.v is None:
            self.v = bool(G.E.choose(2))
        return self.v


class LazyFlag:
    '''A BibleFlag of which no more is decided than what is looked at.'''

    def __init__(self, bits):
        self.bits = bits        # bit value -> Cell

    @staticmethod
    def make(**known):
        F = ref.BibleFlag
        d = {}
        for b in F:
            d[b.value] = Cell(known.get(b.name))
        return LazyFlag(d)

    def _val(self, o):
        if isinstance(o, ref.BibleFlag):
            return {b: Cell(bool(o.value & b)) for b in self.bits}
        if isinstance(o, LazyFlag):
            return o.bits
        return None

    def has(self, name):
        return self.bits[ref.BibleFlag[name].value].get()

    def __contains__(self, o):
        if isinstance(o, ref.BibleFlag):
            return all(self.bits[b].get() for b in self.bits if o.value & b)
        if isinstance(o, LazyFlag):
            return all(self.bits[b].get() for b in self.bits if o.bits[b].get())
        raise TypeError(f'unsupported operand type(s) for in: {type(o).__qualname__!r} and BibleFlag')

    def __or__(self, o):
        v = self._val(o)
        if v is None:
            return NotImplemented
        out = {}
        for b, c in self.bits.items():
            d = v[b]
            if c.v is True or d.v is True:
                out[b] = Cell(True)
            elif c.v is False:
                out[b] = d
            elif d.v is False or c is d:
                out[b] = c
            else:
                out[b] = Cell(c.get() or d.get())
        return LazyFlag(out)
    __ror__ = __or__

    def __and__(self, o):
        v = self._val(o)
        if v is None:
            return NotImplemented
        out = {}
        for b, c in self.bits.items():
            d = v[b]
            if c.v is False or d.v is False:
                out[b] = Cell(False)
            elif c.v is True:
                out[b] = d
            elif d.v is True or c is d:
                out[b] = c
            else:
                out[b] = Cell(c.get() and d.get())
        return LazyFlag(out)
    __rand__ = __and__

    def __xor__(self, o):
        return LazyFlag({b: Cell(c.get() != self._val(o)[b].get()) for b, c in self.bits.items()})
    __rxor__ = __xor__

    def __invert__(self):
        return LazyFlag({b: Cell(not c.get()) for b, c in self.bits.items()})

    def __bool__(self):
        return any(c.get() for c in self.bits.values())

    def __eq__(self, o):
        v = self._val(o)
        if v is None:
            return False
        return all(c.get() == v[b].get() for b, c in self.bits.items())

    def __hash__(self):
        return hash(self.real())

    @property
    def value(self):
        return sum(b for b, c in self.bits.items() if c.get())
    _value_ = value

    def real(self):
        return ref.BibleFlag(self.value)

    def known(self):
        '''The value, with undecided bits unset.'''
        return sum(b for b, c in self.bits.items() if c.v)


class _Global:
    def __init__(self):
        self.reset()

    def reset(self):
        self.value = None
        self.reads = 0

    def read(self):
        self.reads += 1
        if self.value is None:
            e = G.E
            if e is None:
                return None
            self.value = LazyFlag.make()
        return self.value

    def written(self, v):
        if G.E is not None and loaded:
            raise Unsupported('the code writes the global flags')


GLOBAL = _Global()
loaded = None
ref = util = None


class _Loader:
    def __init__(self, name, path):
        self.name, self.path = name, path

    def create_module(self, spec_):
        if self.name == 'bibleref':
            return _Package('bibleref')
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as fh:
            src = fh.read()
        code = transform.rewrite(src, self.path, self.name)
        module.__dict__['__builtins__'] = BUILTINS
        exec(code, module.__dict__)


class _Finder:
    def find_spec(self, name, path=None, target=None):
        import importlib.machinery as m
        if name == 'bibleref':
            s = m.ModuleSpec(name, _Loader(name, f'{SRC}/__init__.py'), is_package=True, origin=SRC)
            s.submodule_search_locations = [SRC]
            return s
        if name.startswith('bibleref.'):
            p = f'{SRC}/{name.split(".", 1)[1].replace(".", "/")}.py'
            if os.path.exists(p):
                return m.ModuleSpec(name, _Loader(name, p), origin=p)
        return None


def load():
    '''Load the rewritten package, leaving a real one that may already be imported alone.'''
    global loaded, ref, util
    if loaded:
        return loaded
    saved = {k: v for k, v in sys.modules.items() if k == 'bibleref' or k.startswith('bibleref.')}
    for k in saved:
        del sys.modules[k]
    f = _Finder()
    sys.meta_path.insert(0, f)
    try:
        import bibleref
        import bibleref.ref as ref_, bibleref.util as util_
        pkg = sys.modules['bibleref']
    finally:
        sys.meta_path.remove(f)
        for k in [k for k in sys.modules if k == 'bibleref' or k.startswith('bibleref.')]:
            del sys.modules[k]
        sys.modules.update(saved)
    ref, util = ref_, util_
    loaded = pkg
    pkg.__dict__['_real_data'] = pkg._bible_data
    return pkg


# ---------------------------------------------------------------------------------------------------------------
# Symbolic books and Bible data
# ---------------------------------------------------------------------------------------------------------------

class SymBook:
    '''A book at a symbolic position of the order. Methods are those of the real BibleBook.'''

    def __init__(self, order):
        self.__dict__['order'] = order

    def __setattr__(self, k, v):
        raise Unsupported(f'the code sets {k} of a book')

    def __getattr__(self, k):
        if k == '_max_verses':
            return SymMax(self.order)
        if k == '_verse_0s':
            return SymZeros(self.order)
        if k in ('title', 'abbrev') and strings.ON[0]:
            return strings.book_name(self, k)
        if k in ('title', 'abbrev', 'name', 'value', '_name_', '_value_'):
            return f'<{k}>'
        d = ref.BibleBook.__dict__.get(k)
        if isinstance(d, types.FunctionType):
            return types.MethodType(d, self)
        if isinstance(d, property) and d.fget:
            return d.fget(self)
        if isinstance(d, staticmethod):
            return d.__func__
        if isinstance(d, classmethod):
            return types.MethodType(d.__func__, ref.BibleBook)
        if isinstance(d, ref.BibleBook):
            return d
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported(f'attribute {k} of a book')

    def _op(self, name, other, default):
        fn = ref.BibleBook.__dict__.get(name)
        if fn is not None:
            return fn(self, other)
        return default()

    def __eq__(self, o):
        def default():
            if isinstance(o, SymBook):
                return self.order == o.order
            return False
        return self._op('__eq__', o, default)

    def __ne__(self, o):
        if '__ne__' in ref.BibleBook.__dict__:
            return ref.BibleBook.__dict__['__ne__'](self, o)
        return spec.Not(self == o)

    def __lt__(self, o):
        return self._op('__lt__', o, lambda: NotImplemented)

    def __le__(self, o):
        return self._op('__le__', o, lambda: NotImplemented)

    def __gt__(self, o):
        return self._op('__gt__', o, lambda: NotImplemented)

    def __ge__(self, o):
        return self._op('__ge__', o, lambda: NotImplemented)

    def __hash__(self):
        fn = ref.BibleBook.__dict__.get('__hash__')
        if fn is not None:
            return fn(self)
        return symhash(self.order)

    def __str__(self):
        return '<book>'
    __repr__ = __str__

    def __format__(self, s):
        return '<book>'


class SymMax:
    '''The verse counts of a book: a list of length nch(o) whose item i is mx(o, i+1).'''

    def __init__(self, o):
        self.o = o

    def sym_len(self):
        return W.nch(self.o)

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported('slice of the verse counts')
        n = W.nch(self.o)
        if i < 0:
            i = i + n
        if i < 0 or i >= n:
            raise IndexError('list index out of range')
        return W.mx(self.o, i + 1)

    def __bool__(self):
        return bool(W.nch(self.o) > 0)

    def sym_iter(self):
        return _IndexIter(self)

    def __eq__(self, o):
        raise Unsupported('comparison of verse counts')


class SymZeros:
    def __init__(self, o):
        self.o = o

    def __contains__(self, c):
        if not isinstance(c, (int, SymInt)):
            return False
        r = And(c >= 1, c <= W.nch(self.o), W.hasz(self.o, c))
        return bool(r)

    def __bool__(self):
        raise Unsupported('emptiness of the verse-0 set')

    def sym_len(self):
        raise Unsupported('size of the verse-0 set')


class SymOrder:
    '''The configured book order.'''

    def sym_len(self):
        return W.N

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported('slice of the book order')
        if i < 0:
            i = i + W.N
        if i < 0 or i >= W.N:
            raise IndexError('list index out of range')
        return SymBook(i)

    def __contains__(self, b):
        return isinstance(b, SymBook)

    def index(self, b):
        if isinstance(b, SymBook):
            return b.order
        raise Unsupported('index in the book order')

    def __bool__(self):
        return bool(W.N > 0)

    def sym_iter(self):
        return _IndexIter(self)


class SymData:
    book_order = SymOrder()

    def __getattr__(self, k):
        if k in strings.SEPS:
            if strings.ON[0]:
                return strings.SymStr([strings.Piece('sep', k)])
            return strings.TEXT[k]
        raise Unsupported(f'Bible data: {k}')


_hashes = []


def symhash(x):
    '''An arbitrary injective hash: equal values get equal hashes, others different ones.'''
    if not isinstance(x, SymValue):
        return hash(x)
    table = G.E.__dict__.setdefault('hashes', [])
    for y, h in table:
        if x == y:
            return h
    h = 1000003 + 7919 * len(table)
    table.append((x, h))
    return h


SymInt.__hash__ = symhash


# ---------------------------------------------------------------------------------------------------------------
# Builtins that accept symbolic values
# ---------------------------------------------------------------------------------------------------------------

def vp_isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(vp_isinstance(x, c) for c in cls)
    if isinstance(x, SymInt):
        return cls in (int, object)
    if isinstance(x, SymBool):
        return cls in (bool, int, object)
    if isinstance(x, SymBook):
        return cls is object or (isinstance(cls, type) and issubclass(ref.BibleBook, cls))
    if isinstance(x, LazyFlag):
        return isinstance(cls, type) and issubclass(ref.BibleFlag, cls)
    if isinstance(x, (SymMax, SymOrder)):
        return cls in (list, object)
    return isinstance(x, cls)


def vp_len(x):
    if hasattr(x, 'sym_len'):
        return x.sym_len()
    fn = getattr(type(x), '__len__', None)
    if fn is not None and isinstance(fn, types.FunctionType):
        return fn(x)        # may be symbolic, which the builtin would refuse
    return len(x)


def vp_is(a, b):
    if isinstance(a, SymBook) and isinstance(b, SymBook):
        return bool(a.order == b.order)
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        if not isinstance(a, (bool, SymBool)) or not isinstance(b, (bool, SymBool)):
            return False
        return bool(a) is bool(b)
    return a is b


class SymRange:
    '''range(a, b, s) with symbolic bounds and s = 1 or -1.'''

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def sym_len(self):
        n = (self.b - self.a) if self.s == 1 else (self.a - self.b)
        return Ite(n > 0, n, 0)

    def sym_iter(self):
        return _RangeIter(self)

    def __contains__(self, x):
        if not vp_isinstance(x, int):
            return False
        return bool(And(self.a <= x, x < self.b)) if self.s == 1 else bool(And(self.a >= x, x > self.b))

    def __getitem__(self, i):
        raise Unsupported('index of a symbolic range')


def vp_range(*args):
    if all(isinstance(x, int) for x in args):
        return range(*args)
    if len(args) == 1:
        args = (0, args[0], 1)
    elif len(args) == 2:
        args = (args[0], args[1], 1)
    if args[2] not in (1, -1):
        raise Unsupported('range with a step')
    return SymRange(*args)


class _IntType(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymInt))


def vp_int(x=0, *a):
    if isinstance(x, strings.SymToken):
        if x.piece.kind != 'num':
            raise ValueError('invalid literal for int()')
        return x.piece.val
    if isinstance(x, strings.SymStr):
        if len(x.ps) == 1 and x.ps[0].kind == 'num':
            return x.ps[0].val
        raise Unsupported('int() of a string')
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return Ite(x, 1, 0)
    return int(x, *a)


def vp_bool(x=False):
    if isinstance(x, SymBool):
        return x
    return bool(x)


def vp_abs(x):
    return abs(x)


def vp_sum(xs, start=0):
    if isinstance(xs, Comp):
        return xs.sum(start)
    t = start
    for x in xs:
        t = t + x
    return t


def vp_any(xs):
    if isinstance(xs, Comp):
        return xs.any()
    for x in xs:
        if x:
            return True
    return False


def vp_all(xs):
    if isinstance(xs, Comp):
        return xs.all()
    for x in xs:
        if not x:
            return False
    return True


def _minmax(args, key, default, less):
    if len(args) == 1:
        if isinstance(args[0], Comp):
            return args[0].extreme(less, key, default)
        xs = list(args[0])
        if not xs:
            if default is not _no:
                return default
            raise ValueError('arg is an empty sequence')
    else:
        xs = args
    best = xs[0]
    for x in xs[1:]:
        if key is not None:
            c = less(key(x), key(best))
        else:
            c = less(x, best)
        if c:
            best = x
    return best


_no = object()


def vp_min(*args, key=None, default=_no):
    return _minmax(args, key, default, lambda x, y: x < y)


def vp_max(*args, key=None, default=_no):
    return _minmax(args, key, default, lambda x, y: x > y)


class VList(list):
    '''A list which may begin with an unknown number of elements (prefix), followed by the explicit ones.'''
    __slots__ = ('prefix',)

    def __init__(self, *a):
        super().__init__(*a)
        self.prefix = None

    def sym_len(self):
        n = list.__len__(self)
        return n if self.prefix is None else self.prefix.n + n

    def __len__(self):
        if self.prefix is not None:
            raise Unsupported('machine length of an abstract list')
        return list.__len__(self)

    def __iter__(self):
        if self.prefix is not None:
            raise Unsupported('iteration over an abstract list')
        return list.__iter__(self)

    def __bool__(self):
        if self.prefix is not None:
            return bool(self.sym_len() > 0)
        return list.__len__(self) > 0

    def explicit(self):
        return list(list.__iter__(self))

    def __getitem__(self, i):
        if self.prefix is not None:
            raise Unsupported('index of an abstract list')
        return list.__getitem__(self, i)


def vp_list(x=()):
    if isinstance(x, VList) and x.prefix is not None:
        r = VList(x.explicit())
        r.prefix = x.prefix.copy()
        return r
    if isinstance(x, Comp):
        return x.listed()
    if hasattr(x, 'sym_list'):
        r = x.sym_list()
        if r is not None:
            return r
    return VList(x)


vp_listtype = None


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, list)

    def __call__(cls, *a):
        return vp_list(*a)


class vp_list_t(metaclass=_ListMeta):
    '''The `list` the modules see.'''


class Comp:
    '''A comprehension or generator expression. (eager: a list that is reduced as soon as it is made)'''

    def __init__(self, kind, lid, gens, elt, names, env):
        self.kind, self.lid, self.gens, self.elt, self.names, self.env = kind, lid, gens, elt, names, env
        self.first = gens[0][0]()

    def _iter(self, k, env):
        return vp_iter(f'{self.lid}.{k}', self.gens[k][0](*env) if k else self.first)

    def _walk(self, k, env):
        if k == len(self.gens):
            yield self.elt(*env)
            return
        cond = self.gens[k][1]
        h = self._iter(k, env)
        h.native = True
        while h.next():
            e2 = env + (h.value,)
            if cond is None or cond(*e2):
                yield from self._walk(k + 1, e2)

    def __iter__(self):
        return self._walk(0, ())

    def listed(self):
        return VList(self._walk(0, ()))

    def reduce(self, acc, step):
        '''The elements in order, as nested loops: acc = step(acc, element), until it says stop.'''
        st = {'acc': acc}

        def walk(k, env):
            if k == len(self.gens):
                st['acc'], stop = step(st['acc'], self.elt(*env))
                return stop
            cond = self.gens[k][1]
            h = self._iter(k, env)
            seen = {**self.env, **dict(zip(self.names, env))}
            while True:
                st.update(h.head(('acc',), {**seen, **st}))
                if not h.next():
                    return False
                e2 = env + (h.value,)
                if cond is None or cond(*e2):
                    if walk(k + 1, e2):
                        return True
        stopped = walk(0, ())
        return st['acc'], stopped

    def sum(self, start):
        return self.reduce(start, lambda t, x: (t + x, False))[0]

    def any(self):
        if self.kind == 'eager':
            return any(list(self))
        return self.reduce(None, lambda t, x: (None, bool(x)))[1]

    def all(self):
        if self.kind == 'eager':
            return all(list(self))
        return not self.reduce(None, lambda t, x: (None, not x))[1]

    def extreme(self, less, key, default):
        def step(t, x):
            if t is None or (less(key(x), key(t)) if key is not None else less(x, t)):
                return x, False
            return t, False
        best = self.reduce(None, step)[0]
        if best is None:
            if default is not _no:
                return default
            raise ValueError('arg is an empty sequence')
        return best


def vp_comp(kind, lid, gens, elt, names, env):
    c = Comp(kind, lid, gens, elt, names, env)
    if kind == 'list':
        return c.listed()
    if kind == 'set':
        return set(c)
    return c


# ---------------------------------------------------------------------------------------------------------------
# Loops
# ---------------------------------------------------------------------------------------------------------------

class LoopInfo:
    '''What is known about a cut loop across the rounds of an exploration.'''

    def __init__(self, lid, shared):
        self.lid = lid
        self.shared = shared        # what was learnt about this loop in other contexts
        self.dropped = set()        # labels of invariant candidates that failed
        self.only = shared.get('labels')    # candidates to which the inference is restricted
        self.kinds = {n: set(k) for n, k in shared['kinds'].items()}    # variable -> set of kinds seen
        self.lists = set(shared['lists'])       # names of lists changed by the loop
        self.glists = set(shared['glists'])     # names of linked lists changed by the loop
        self.heads = set(shared['heads'])       # those of which it only changes the groups
        self.over = shared['over']              # attributes it sets in the nodes it passes: (variable, direction, values)
        self.measures_dropped = set()
        self.used = set()
        self.backedges = 0


    def learn(self, n, k):
        self.shared['kinds'].setdefault(n, set()).add(k)


UNROLL = 2


class Loop:
    native = False
    native_loop = None
    key = None

    def __init__(self, lid):
        self.lid = lid
        self.count = 0
        self.state = None
        self.mark = None
        self.it = None

    def iter_values(self):
        return {}

    def head(self, names, env):
        e = G.E
        if e is None or self.native:
            return ()
        e.steps += 1
        if e.steps > 20000:
            raise G.Budget('steps')
        if self.native_loop is None:
            self.native_loop = self.lid not in e.cutlids
        if self.native_loop:
            # run natively, unless it keeps depending on symbolic conditions
            now = sum(1 for d in e.trace if d not in (2, 3, 5, 6))
            if self.mark is not None and now > self.mark:
                self.count += 1
            self.mark = now
            if self.count > UNROLL or self.must_cut():
                self._cuttable(e)
                e.cutlids[self.lid] = dict(kinds={}, lists=set(), glists=set(), heads=set(), over=None)
                raise Restart(self.lid)
            return ()
        self._cuttable(e)
        if self.key is None:
            # an invariant per path to the first loop, and per loop entered before
            if e.loopstack:
                self.key = (self.lid, e.loopstack[-1].key)
            else:
                self.key = (self.lid, tuple(d for d in e.trace))
            e.loopstack.append(self)
        info = e.loops.get(self.key)
        if info is None:
            info = e.loops[self.key] = LoopInfo(self.lid, e.cutlids[self.lid])
        return INVARIANTS.head(self, info, names, env)

    def _cuttable(self, e):
        '''A loop of a generator stops and goes on with its consumer, so only a consumer that knows may cut it.'''
        if self.lid in transform.GENERATORS and not e.driving:
            raise Unsupported(f'{self.lid}: a generator without a contract')

    def must_cut(self):
        return False


class _NativeIter(Loop):
    def __init__(self, lid, it):
        super().__init__(lid)
        self.it = it

    def head(self, names, env):
        # the iterable is concrete: run it as it is
        return ()

    def next(self):
        try:
            self.value = next(self.it)
            return True
        except StopIteration:
            return False


class _RangeIter(Loop):
    '''Iteration over range(a, b): the state is the next value i.'''

    def __init__(self, r):
        self.r = r

    def start(self, lid):
        super().__init__(lid)
        self.i = self.r.a
        return self

    def must_cut(self):
        return True

    def iter_values(self):
        return {'<i>': self.i}

    def set_iter(self, d):
        self.i = d['<i>']

    def iter_facts(self):
        if self.r.s == 1:
            return [('<i> from a', self.i >= self.r.a), ('<i> to b', Or(self.i <= self.r.b, self.r.b < self.r.a))]
        return [('<i> from a', self.i <= self.r.a), ('<i> to b', Or(self.i >= self.r.b, self.r.b > self.r.a))]

    def next(self):
        if (self.i < self.r.b) if self.r.s == 1 else (self.i > self.r.b):
            self.value = self.i
            self.i = self.i + self.r.s
            return True
        return False


class _IndexIter(_RangeIter):
    '''Iteration over an indexable symbolic sequence.'''

    def __init__(self, seq):
        self.seq = seq
        self.r = SymRange(0, seq.sym_len(), 1)

    def next(self):
        if self.i < self.r.b:
            self.value = self.seq[self.i]
            self.i = self.i + 1
            return True
        return False


def vp_loop(lid):
    return Loop(lid)


def vp_iter(lid, x):
    if hasattr(x, 'sym_iter'):
        it = x.sym_iter()
        if it is not None:
            return it.start(lid)
    if isinstance(x, VList) and x.prefix is not None:
        it = x.prefix.iterator(x)
        return it.start(lid)
    return _NativeIter(lid, iter(x))


class _Invariants:
    '''Set by vp.invariants.'''

    def head(self, loop, info, names, env):
        raise Unsupported(f'loop {loop.lid}')


INVARIANTS = _Invariants()


def set_invariants(x):
    global INVARIANTS
    INVARIANTS = x


BUILTINS = dict(builtins.__dict__)
BUILTINS.update(isinstance=vp_isinstance, len=vp_len, range=vp_range, int=None, sum=vp_sum, any=vp_any, all=vp_all,
                min=vp_min, max=vp_max, list=vp_list_t, _vp_is=vp_is, _vp_list=VList, _vp_loop=vp_loop,
                _vp_iter=vp_iter, _vp_comp=vp_comp)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymInt))

    def __call__(cls, *a, **k):
        return vp_int(*a, **k)


class vp_int_t(metaclass=_IntMeta):
    '''The `int` the modules see.'''


BUILTINS['int'] = vp_int_t


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (str, strings.SymStr))

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            return strings.tostr(a[0])
        return str(*a, **k)

    def __getattr__(cls, k):
        return getattr(str, k)


class vp_str_t(metaclass=_StrMeta):
    '''The `str` the modules see.'''


BUILTINS['str'] = vp_str_t
BUILTINS['_vp_fmt'] = lambda *a: strings.fmt(*a)

_old_isinstance = vp_isinstance


def vp_isinstance(x, cls):     # noqa: F811
    if isinstance(cls, tuple):
        return any(vp_isinstance(x, c) for c in cls)
    if cls is vp_str_t:
        return isinstance(x, (str, strings.SymStr))
    if cls is vp_int_t:
        return isinstance(x, (int, SymInt, SymBool))
    if cls is vp_list_t:
        return isinstance(x, (list, SymMax, SymOrder, *LISTLIKE))
    if isinstance(cls, types.UnionType):
        return any(vp_isinstance(x, c) for c in cls.__args__)
    return _old_isinstance(x, cls)


BUILTINS['isinstance'] = vp_isinstance


# ---------------------------------------------------------------------------------------------------------------
# Making objects
# ---------------------------------------------------------------------------------------------------------------

def mkverse(o, c, v):
    x = object.__new__(ref.BibleVerse)
    object.__setattr__(x, 'book', o if isinstance(o, SymBook) else SymBook(o))
    object.__setattr__(x, 'chap_num', c)
    object.__setattr__(x, 'verse_num', v)
    return x


def mkrange(s, e):
    x = object.__new__(ref.BibleRange)
    object.__setattr__(x, 'start', s)
    object.__setattr__(x, 'end', e)
    return x


def fresh_verse(hint):
    e = G.E
    return mkverse(e.int(hint + '.b'), e.int(hint + '.c'), e.int(hint + '.v'))


def fresh_range(hint):
    return mkrange(fresh_verse(hint + '.s'), fresh_verse(hint + '.e'))


def isverse(x):
    return isinstance(x, ref.BibleVerse)


def isrange(x):
    return isinstance(x, ref.BibleRange)


from . import strings      # noqa: E402
